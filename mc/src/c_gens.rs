//! C16: what generators generate, for everything the random source can yield. C17: what they are applied to.
use crate::os::{self, with_tape, with_word};
use crate::{c_dates, c_time, vals};
use mccore::*;
use pact_models::generators::{GenerateValue, Generator, NoopVariantMatcher, UuidFormat, VariantMatcher};
use serde_json::{json, Value};
use std::collections::{BTreeSet, HashMap};


type Ctx<'a> = HashMap<&'a str, Value>;
/// The targets a value is generated for: a text, the kinds of JSON value, a status and a list of texts.
#[derive(Clone, Debug, PartialEq)]
enum Target { Text, Json(Value), Status, Texts(usize) }
fn targets() -> Vec<Target> {
  let mut v = vec![Target::Text, Target::Status, Target::Texts(0), Target::Texts(1), Target::Texts(3)];
  for j in [json!("old"), json!(""), json!(1), json!(-2.5), json!(null), json!(true), json!([]), json!([1]), json!({}), json!({"a": 1})] { v.push(Target::Json(j)); }
  v
}
#[derive(Clone, Debug, PartialEq)]
enum Got { Text(String), Json(Value), Status(u16), Texts(Vec<String>), Error }
fn generate(g: &Generator, t: &Target, ctx: &Ctx) -> Got {
  let m = NoopVariantMatcher.boxed();
  match t {
    Target::Text => GenerateValue::<String>::generate_value(g, &"old".to_string(), ctx, &m).map(Got::Text).unwrap_or(Got::Error),
    Target::Json(v) => GenerateValue::<Value>::generate_value(g, v, ctx, &m).map(Got::Json).unwrap_or(Got::Error),
    Target::Status => GenerateValue::<u16>::generate_value(g, &200, ctx, &m).map(Got::Status).unwrap_or(Got::Error),
    Target::Texts(n) => GenerateValue::<Vec<String>>::generate_value(g, &(0..*n).map(|i| i.to_string()).collect::<Vec<_>>(), ctx, &m).map(Got::Texts).unwrap_or(Got::Error),
  }
}
/// The texts in what was generated, whatever the target; None if its shape is not that of the target.
fn texts(t: &Target, g: &Got) -> Option<Vec<String>> {
  match (t, g) {
    (_, Got::Error) => Some(vec![]),
    (Target::Text, Got::Text(s)) => Some(vec![s.clone()]),
    (Target::Texts(n), Got::Texts(v)) if v.len() == (*n).max(1) => Some(v.clone()),
    (Target::Json(Value::String(_)), Got::Json(Value::String(s))) => Some(vec![s.clone()]),
    (Target::Json(Value::Number(_)), Got::Json(Value::String(_))) | (Target::Json(Value::String(_)), Got::Json(_)) => None,
    (Target::Json(_), Got::Json(Value::String(s))) => Some(vec![s.clone()]),
    (Target::Json(_), Got::Json(v @ (Value::Number(_) | Value::Bool(_)))) => Some(vec![v.to_string()]),
    (Target::Status, Got::Status(n)) => Some(vec![n.to_string()]),
    _ => None,
  }
}
/// Words that spread the outcomes of one draw over its whole range.
fn words(n: u64) -> Vec<u64> {
  let step = (u64::MAX / n).max(1);
  let mut v: Vec<u64> = (0..n).map(|i| { let w = i * step + step / 2; (w & 0xFFFF_FFFF_0000_0000) | (w >> 32) }).collect();
  v.push(0); v.push(u64::MAX);
  v
}
fn regexes() -> Vec<(&'static str, Option<&'static str>)> {
  // The expression, and (when it is not its own) one that matches the same whole texts.
  vec![("", None), ("a", None), ("\\d", None), ("\\d+", None), ("\\d{4}-\\d{2}", None), ("[a-c]x?", None), ("a|b|cd", None), ("(ab|c){2,3}", None), ("\\w{0,3}", None), ("[0-9A-F]{8}", None),
    ("^a$", Some("a")), ("^\\d{2}$", Some("\\d{2}")), ("^a", Some("a")), ("b$", Some("b")), ("\\$", None), ("a\\$", None), ("^\\$$", Some("\\$")), ("\\\\$", Some("\\\\")), ("a\\\\\\$", None), ("^\\^$", Some("\\^")), ("^^a", None), ("a$$", None), ("[$]", None), ("x[$^]", None),
    ("^a|b$", Some("a|b")), ("(^a$)", None), ("\\s", None), ("-?\\d+\\.\\d{1,2}", None), ("[a-z]*", None), ("(?:a|b)*c", None), ("(?i)ab", None), ("é", None), ("[é日]", None), ("日{2}", None), ("\\.", None), (".", None), ("[^a]", None), ("\\D\\W", None), ("\\x41", None), ("a{0}", None), ("\\bfoo\\b", None),
    ("(", None), ("[", None), ("a{2,1}", None), ("*", None), ("\\", None), ("a\\", None), ("(?<n>a)", None), ("(a)\\1", None), ("(?=a)a", None), ("^", Some("")), ("$", Some("")), ("^$", Some(""))]
}
fn must_generate(r: &str) -> bool { ["", "a", "\\d", "\\d+", "\\d{4}-\\d{2}", "[a-c]x?", "a|b|cd", "(ab|c){2,3}", "\\w{0,3}", "[0-9A-F]{8}", "^a$", "^\\d{2}$", "^a", "b$", "\\$", "a\\$", "^\\$$", "\\\\$", "a\\\\\\$", "^\\^$", "[$]", "x[$^]", "-?\\d+\\.\\d{1,2}", "[a-z]*", "(?:a|b)*c", "\\.", "(?<n>a)"].contains(&r) }

fn decimal_ok(s: &str, digits: usize) -> bool {
  let n = s.chars().filter(|c| c.is_ascii_digit()).count();
  let dots = s.matches('.').count();
  n == digits && s.len() == digits + dots && dots == (digits > 1) as usize && !s.starts_with('.') && !s.ends_with('.')
    && (digits < 2 || !s.starts_with('0') || s.starts_with("0."))
}
fn uuid_ok(s: &str, f: UuidFormat) -> bool {
  let (body, upper, dashes) = match f { UuidFormat::Simple => (s, false, false), UuidFormat::LowerCaseHyphenated => (s, false, true), UuidFormat::UpperCaseHyphenated => (s, true, true), UuidFormat::Urn => match s.strip_prefix("urn:uuid:") { Some(b) => (b, false, true), None => return false } };
  let hex: String = body.chars().filter(|c| *c != '-').collect();
  let shape = if dashes { body.split('-').map(|p| p.len()).collect::<Vec<_>>() == [8, 4, 4, 4, 12] } else { body.len() == 32 };
  shape && hex.len() == 32 && hex.chars().all(|c| c.is_ascii_digit() || if upper { ('A'..='F').contains(&c) } else { ('a'..='f').contains(&c) }) && hex.as_bytes()[12] == b'4' && b"89abAB".contains(&hex.as_bytes()[16])
}

/// Every text of a small domain comes up for some words of the random source.
fn reach(rec: &mut Rec, what: &str, seen: BTreeSet<String>, domain: BTreeSet<String>) {
  rec.check(seen == domain, what, || format!("never generated: {:?}; outside the domain: {:?}", domain.difference(&seen).take(8).collect::<Vec<_>>(), seen.difference(&domain).take(8).collect::<Vec<_>>()));
}

pub fn c16(run: &Run) {
  let empty: Ctx = HashMap::new();
  let tgts = targets();
  let w1 = words(if run.thorough { 1024 } else { 64 });
  // Integers.
  let bounds = [i32::MIN, i32::MIN + 1, -65537, -65536, -32769, -10, -1, 0, 1, 2, 3, 10, 15, 255, 256, 32767, 65534, 65535, 65536, 65537, i32::MAX - 1, i32::MAX];
  run.pairs("integers", "every pair of boundary integers as bounds, for every kind of target and every word of the random source: within the bounds, both inclusive", &bounds, &bounds, |a, b, rec| {
    let g = Generator::RandomInt(*a, *b);
    for t in &tgts {
      let fits = *t != Target::Status || *a <= 65535 && *b >= 0 || a > b;
      let mut seen: BTreeSet<i64> = BTreeSet::new();
      // A status takes the part of the range that a status can have.
      let (lo, hi) = if *t == Target::Status { ((*a).max(0), (*b).min(65535)) } else { (*a, *b) };
      let small = a <= b && (0..16).contains(&(hi as i64 - lo as i64));
      let ws = if small { words(256) } else { w1.clone() };
      rec.case(format!("RandomInt({}, {}) for {:?}", a, b, t)); rec.state(&(a, b, format!("{:?}", t)));
      for w in &ws {
        rec.trace(); rec.steps(1);
        let Some(got) = rec.no_panic("generate", || with_tape(&[*w], || generate(&g, t, &empty))) else { break };
        if a > b { rec.outcome("invalid"); if !rec.check(got == Got::Error, "invalid-bounds", || format!("{:?}", got)) { break; } continue; }
        if !fits { rec.outcome("status-bounds"); if !rec.check(got == Got::Error, "status-bounds", || format!("{:?}", got)) { break; } continue; }
        let v = texts(t, &got).map(|v| v.iter().map(|s| s.parse::<i64>()).collect::<Result<Vec<_>, _>>());
        match v {
          Some(Ok(v)) if !v.is_empty() && v.iter().all(|n| *n >= lo as i64 && *n <= hi as i64) => { rec.outcome("integer"); seen.extend(v); }
          _ => { rec.fail("integer", format!("{:?}", got)); break; }
        }
        if let (Target::Json(Value::Number(_)), Got::Json(j)) = (t, &got) { rec.check(j.is_i64() || j.is_u64(), "integer-kind", || format!("{:?}", j)); }
      }
      if small && fits { rec.check(seen.len() as i64 == hi as i64 - lo as i64 + 1, "integer-reach", || format!("only {:?} ever generated", seen)); }
    }
  });
  // Digits and characters.
  let lens: Vec<u16> = (0..=40).chain([100, 307, 308, 309, 310, 311, 400, 1000, 65534, 65535]).collect();
  run.pairs("lengths", "decimals, hexadecimals and strings of every length, for every kind of target and every word of the random source", &lens, &tgts, |n, t, rec| {
    let ws = if *n > 500 { words(2) } else { w1.clone() };
    for (k, g) in [Generator::RandomDecimal(*n), Generator::RandomHexadecimal(*n), Generator::RandomString(*n)].iter().enumerate() {
      rec.case(format!("{:?} for {:?}", g, t)); rec.state(&(k, n, format!("{:?}", t)));
      for w in &ws {
        rec.trace(); rec.steps(1);
        let Some(got) = rec.no_panic("generate", || with_tape(&[*w, !*w, *w], || generate(g, t, &empty))) else { break };
        if *t == Target::Status { rec.check(got == Got::Error, "status", || format!("{:?}", got)); continue; }
        if k == 0 && matches!(t, Target::Json(Value::Number(_))) {
          rec.outcome("number");
          let ok = match &got { Got::Json(Value::Number(x)) => *n > 0 && x.as_f64().map_or(false, |f| f >= 0.0 && f.is_finite() && f < 10f64.powi(*n as i32)), Got::Error => *n == 0 || *n > 308, _ => false };
          if !rec.check(ok, "decimal-number", || format!("{:?}", got)) { break; }
          continue;
        }
        if k > 0 && matches!(t, Target::Json(Value::Number(_))) { rec.outcome("text-for-number");
          let Got::Json(Value::String(s)) = &got else { rec.fail("text-for-number", format!("{:?}", got)); break; };
          if !rec.check(s.len() == *n as usize, "text-for-number", || format!("{:?}", got)) { break; }
          continue;
        }
        let ok = match texts(t, &got) {
          Some(v) if !v.is_empty() => v.iter().all(|s| match k {
            0 => decimal_ok(s, *n as usize),
            1 => s.len() == *n as usize && s.chars().all(|c| c.is_ascii_hexdigit()),
            _ => s.len() == *n as usize && s.chars().all(|c| c.is_ascii_alphanumeric()),
          }),
          _ => false,
        };
        rec.outcome(["decimal", "hexadecimal", "string"][k]);
        if !rec.check(ok, ["decimal", "hexadecimal", "string"][k], || format!("{:?}", got)) { break; }
      }
    }
  });
  // Decimals: every sequence of draws.
  for n in 1..=(if run.thorough { 8u16 } else { 6 }) {
    let k = if n <= 3 { 10usize } else { 4 };
    let draws = n as usize + if n < 3 { 0 } else { 3 };
    let draws = if k == 10 { draws.min(5) } else { draws };
    let pick = move |d: usize| { let d = if k == 10 { d } else { [0, 1, 5, 9][d] }; let w = (u64::MAX / 10) * d as u64 + u64::MAX / 20; (w & 0xFFFF_FFFF_0000_0000) | (w >> 32) };
    run.explore(&format!("decimal{}", n), "every sequence of digits drawn for a short decimal", (k as u64).pow(draws as u32), |i, rec| {
      let ds = digits(i, &vec![k; draws]);
      rec.case(format!("{} digits from {:?}", n, ds)); rec.state(&i); rec.trace(); rec.steps(2);
      let tape: Vec<u64> = ds.iter().map(|d| pick(*d)).collect();
      if let Some(Got::Text(s)) = rec.no_panic("generate", || with_tape(&tape, || generate(&Generator::RandomDecimal(n), &Target::Text, &HashMap::new()))) {
        rec.outcome(format!("{}", s.find('.').unwrap_or(0)));
        rec.check(decimal_ok(&s, n as usize), "decimal", || s.clone());
        if let Some(Got::Json(Value::Number(x))) = rec.no_panic("generate", || with_tape(&tape, || generate(&Generator::RandomDecimal(n), &Target::Json(json!(1)), &HashMap::new()))) { rec.check(s.parse::<f64>().ok() == x.as_f64(), "decimal-same", || format!("{} and {}", s, x)); }
        else { rec.fail("decimal-number", "not a number"); }
      } else { rec.fail("decimal", "not a text"); }
    });
  }
  // Every value of a small domain comes up.
  let alnum: Vec<char> = ('0'..='9').chain('a'..='z').chain('A'..='Z').collect();
  let upto = |cs: &[char], n: usize| -> BTreeSet<String> { let mut out: BTreeSet<String> = [String::new()].into(); for _ in 0..n { out = out.iter().flat_map(|s| cs.iter().map(move |c| format!("{}{}", s, c))).collect(); } out };
  let d10: Vec<char> = ('0'..='9').collect();
  let set = |v: &[&str]| -> BTreeSet<String> { v.iter().map(|s| s.to_string()).collect() };
  let domains: Vec<(Generator, BTreeSet<String>, usize)> = vec![
    (Generator::RandomBoolean, set(&["true", "false"]), 1), (Generator::RandomDecimal(1), upto(&d10, 1), 1),
    (Generator::RandomDecimal(2), upto(&d10, 2).iter().map(|s| format!("{}.{}", &s[..1], &s[1..])).collect(), 2),
    (Generator::RandomHexadecimal(1), BTreeSet::new(), 1), (Generator::RandomHexadecimal(2), BTreeSet::new(), 2), (Generator::RandomString(1), upto(&alnum, 1), 1), (Generator::RandomString(2), upto(&alnum, 2), 2),
    (Generator::Regex("[a-c]x?".into()), set(&["a", "b", "c", "ax", "bx", "cx"]), 2), (Generator::Regex("\\d{2}".into()), upto(&d10, 2), 2), (Generator::Regex("^(a|b|cd)$".into()), set(&["a", "b", "cd"]), 1), (Generator::Regex("^a|b$".into()), set(&["a", "b"]), 1),
    (Generator::Regex("a{1,3}".into()), set(&["a", "aa", "aaa"]), 1), (Generator::Regex("[ab]{2}".into()), set(&["aa", "ab", "ba", "bb"]), 2),
  ];
  run.each("reach", "every sequence of words for the generators of small domains: every value of the domain comes up, and no other", &domains, |(g, dom, draws), rec| {
    rec.case(format!("{:?}", g)); rec.state(&format!("{:?}", g));
    let ws = words(if *draws == 1 { 4096 } else { 200 });
    let mut seen: [BTreeSet<String>; 2] = Default::default();
    for i in 0..(ws.len() as u64).pow(*draws as u32) {
      let tape: Vec<u64> = digits(i, &vec![ws.len(); *draws]).iter().map(|d| ws[*d]).collect();
      rec.trace(); rec.steps(2);
      for (k, t) in [Target::Text, Target::Json(json!("x"))].iter().enumerate() {
        let got = rec.no_panic("generate", || with_tape(&tape, || generate(g, t, &HashMap::new())));
        match got { Some(Got::Text(s)) | Some(Got::Json(Value::String(s))) => { seen[k].insert(s); } Some(Got::Json(Value::Bool(b))) => { seen[k].insert(b.to_string()); } g => { rec.fail("value", format!("{:?}", g)); return; } }
      }
    }
    for s in seen {
      if let Generator::RandomHexadecimal(n) = g {
        rec.check(s.iter().map(|s| s.to_lowercase()).collect::<BTreeSet<_>>().len() == 16usize.pow(*n as u32), "reach", || format!("only {} values", s.len()));
      } else { reach(rec, "reach", s, dom.clone()); }
    }
  });
  // Regular expressions.
  let ws = words(if run.thorough { 64 } else { 12 });
  run.pairs("regex", "every expression for every kind of target and every pair of words of the random source: the text matches the whole expression, or there is an error", &regexes(), &tgts, |(re, same), t, rec| {
    let g = Generator::Regex(re.to_string());
    rec.case(format!("{:?} for {:?}", re, t)); rec.state(&(re, format!("{:?}", t)));
    let want = regex::Regex::new(&format!("^(?:{})$", same.unwrap_or(re))).ok();
    for a in &ws { for b in &ws {
      rec.trace(); rec.steps(1);
      let Some(got) = rec.no_panic("generate", || with_tape(&[*a, *b], || generate(&g, t, &empty))) else { return };
      if *t == Target::Status { rec.check(got == Got::Error, "status", || format!("{:?}", got)); return; }
      let s = match (&got, t) { (Got::Json(Value::String(s)), Target::Json(Value::Number(_))) => Some(vec![s.clone()]), _ => texts(t, &got) };
      let ok = match (&want, s) { (_, Some(s)) if s.is_empty() => { rec.outcome("error"); !must_generate(re) } (Some(w), Some(s)) => { rec.outcome("text"); s.iter().all(|s| w.is_match(s)) } _ => false };
      if !rec.check(ok, "regex", || format!("{:?}", got)) { return; }
    } }
  });
  // UUIDs.
  let fmts = [None, Some(UuidFormat::Simple), Some(UuidFormat::LowerCaseHyphenated), Some(UuidFormat::UpperCaseHyphenated), Some(UuidFormat::Urn)];
  let uw: Vec<u64> = words(if run.thorough { 4096 } else { 256 }).into_iter().chain((0..64).map(|b| 1u64 << b)).chain((0..64).map(|b| !(1u64 << b))).collect();
  run.pairs("uuid", "every format for every kind of target and random bytes with every bit set, clear and spread: a version 4 UUID in that format", &fmts, &tgts, |f, t, rec| {
    let g = Generator::Uuid(*f);
    rec.case(format!("{:?} for {:?}", g, t)); rec.state(&(format!("{:?} {:?}", f, t)));
    let mut seen = BTreeSet::new();
    for w in &uw {
      rec.trace(); rec.steps(1);
      let Some(got) = rec.no_panic("generate", || with_word(*w, || generate(&g, t, &empty))) else { return };
      if *t == Target::Status { rec.check(got == Got::Error, "status", || format!("{:?}", got)); return; }
      let s = match &got { Got::Json(Value::String(s)) => Some(vec![s.clone()]), _ => texts(t, &got) };
      let ok = s.as_ref().map_or(false, |v| !v.is_empty() && v.iter().all(|s| uuid_ok(s, f.unwrap_or_default())));
      rec.outcome("uuid");
      if !rec.check(ok, "uuid", || format!("{:?}", got)) { return; }
      seen.insert(s.unwrap()[0].clone());
    }
    rec.check(seen.len() + 6 + 64 >= uw.iter().collect::<BTreeSet<_>>().len(), "uuid-reach", || format!("{} different UUIDs from {} different random words", seen.len(), uw.len()));
  });
  // Booleans for every kind of target.
  run.each("boolean", "a boolean for every kind of target", &tgts, |t, rec| {
    for w in &w1 {
      rec.case(format!("RandomBoolean for {:?} from {:x}", t, w)); rec.state(&(format!("{:?}", t), w)); rec.trace(); rec.steps(1);
      let Some(got) = rec.no_panic("generate", || with_tape(&[*w], || generate(&Generator::RandomBoolean, t, &empty))) else { return };
      let ok = match &got { Got::Error => *t == Target::Status, Got::Text(s) => s == "true" || s == "false", Got::Texts(v) => v.iter().all(|s| s == "true" || s == "false"), Got::Json(v) => v.is_boolean(), Got::Status(_) => false };
      rec.outcome("boolean");
      rec.check(ok, "boolean", || format!("{:?}", got));
    }
  });
  dates(run);
  urls(run);
  // Every generator with every target and context: never a crash.
  let gens: Vec<Generator> = vals::simple_generators().into_iter().chain(vals::kind_generators()).collect();
  let ctxs: Vec<Value> = vec![json!({}), json!({"a": "x", "b": 3}), json!({"a": null, "b": [1], "mockServer": {"url": "http://h:1"}, "providerState": {"a": "é"}}), json!({"mockServer": 1, "providerState": 2, "baseDate": "x", "baseTime": 5, "baseDateTime": null}),
    json!({"mockServer": {"url": 5}, "providerState": null, "baseDate": "2000-02-29T10:00:00Z", "baseTime": "2000-02-29T10:00:00+14:00", "baseDateTime": "+262142-12-31T00:00:00Z"}), json!({"mockServer": {"href": "u"}, "providerState": {"b": 70000, "a": "99999999999"}})];
  run.pairs("total", "every generator of every kind with every target and context: a value or an error", &gens, &ctxs, |g, c, rec| {
    let ctx: Ctx = c.as_object().unwrap().iter().map(|(k, v)| (k.as_str(), v.clone())).collect();
    for t in &tgts {
      rec.case(format!("{:?} for {:?} in {}", g, t, c)); rec.state(&format!("{:?} {:?} {}", g, t, c)); rec.trace(); rec.steps(1);
      match rec.no_panic("generate", || { let _at = os::At::unix(951_825_600, 5_000_000); with_tape(&[], || generate(g, t, &ctx)) }) { Some(Got::Error) => rec.outcome("error"), Some(_) => rec.outcome("value"), None => {} }
    }
  });
}

fn dates(run: &Run) {
  let exps = ["", "now", "today", "tomorrow", "+ 1 day", "- 2 months", "next monday", "yesterday + 1 year", "bad!", "last jan"];
  let texps = ["", "now", "noon", "midnight", "+ 1 hour", "- 90 minutes", "5 o'clock pm", "bad!"];
  let mut both: Vec<String> = exps.iter().map(|s| s.to_string()).collect();
  for e in ["today @ noon", "tomorrow + 1 week @ + 3 minutes", "+ 1 day @ 1 o'clock am", "@ midnight", "- 1 month @", "now @ bad!"] { both.push(e.to_string()); }
  let fmts = [None, Some("yyyy-MM-dd"), Some("HH:mm:ss.SSS"), Some("yyyy-MM-dd'T'HH:mm:ssXXX"), Some("EEE, d MMM yyyy h a"), Some("dd/MM/yy"), Some("yyyy 'o''clock'"), Some("[bad"), Some("")];
  let bases: [(i64, i64); 5] = [(951_825_600, 5_000_000), (1_704_067_199, 999_000_000), (1_711_846_800, 0), (1_119_744_000, 123_000_000), (4_107_542_399, 1_000_000)];
  let mut cases: Vec<(usize, Option<String>)> = vec![];
  for (k, es) in [exps.iter().map(|s| s.to_string()).collect::<Vec<_>>(), texps.iter().map(|s| s.to_string()).collect(), both].into_iter().enumerate() { cases.push((k, None)); for e in es { cases.push((k, Some(e))); } }
  for (tz, off) in [("UTC0", 0i64), ("<+05>-05:30", 19800), ("<-09>+09:30", -34200)] {
    std::env::set_var("TZ", tz);
    run.pairs(&format!("dates{}", off), "dates, times and date-times with every expression in every format, from the clock and from a base in the context, in this zone", &cases, &fmts, |(k, e), f, rec| {
      for (secs, ns) in bases { for how in 0..4 {
        let base = c_time::Inst::from_unix(secs, ns, off);
        let at = base.to_at();
        let want: Result<c_dates::At, bool> = match (k, e) { (_, None) => Ok(at), (0, Some(e)) => c_dates::ref_date(at, e), (1, Some(e)) => c_dates::ref_time(at, e), (_, Some(e)) => c_dates::ref_datetime(at, e) };
        let (fo, eo) = (f.map(|s| s.to_string()), e.clone());
        let g = match k { 0 => Generator::Date(fo, eo), 1 => Generator::Time(fo, eo), _ => Generator::DateTime(fo, eo) };
        let key = ["baseDate", "baseTime", "baseDateTime"][*k];
        // From the clock; from the context as a text in this zone, in UTC; and with bases for the other kinds.
        let iso = |o: i64| { let i = c_time::Inst::from_unix(secs, ns, o); format!("{}{}{:02}:{:02}", i.render("yyyy-MM-dd'T'HH:mm:ss.SSSSSSSSS"), if o < 0 { '-' } else { '+' }, o.abs() / 3600, o.abs() / 60 % 60) };
        let mut ctx: Ctx = HashMap::new();
        let clock = match how { 0 => (secs, ns), 1 => { ctx.insert(key, json!(iso(off))); (0, 0) } 2 => { ctx.insert(key, json!(iso(0))); (0, 0) } _ => { for o in ["baseDate", "baseTime", "baseDateTime"] { if o != key { ctx.insert(o, json!("1990-01-01T00:00:00Z")); } } (secs, ns) } };
        rec.case(format!("{:?} at {}.{:09} ({}) {}", g, secs, ns, off, how)); rec.state(&format!("{:?} {} {}", g, secs, how));
        let render = |a: c_dates::At| -> Option<String> {
          let i = c_time::Inst::of_at(a, base.ns(), off);
          match f { None => Some(match k { 0 => i.render("yyyy-MM-dd"), 1 => i.render("HH:mm:ss"), _ => i.render("yyyy-MM-dd'T'HH:mm:ss.SSSZ") }), Some(f) => c_time::pattern(f).map(|_| i.render(f)) }
        };
        let wants: Option<Option<String>> = match want { Ok(a) => Some(render(a)), Err(true) => Some(None), Err(false) => None };
        rec.trace();
        let mut outs = vec![];
        for t in [Target::Text, Target::Json(json!("x")), Target::Json(json!(1)), Target::Texts(1)] {
          rec.steps(1);
          let Some(got) = rec.no_panic("generate", || { let _at = os::At::unix(clock.0, clock.1); generate(&g, &t, &ctx) }) else { continue };
          let s = match &got { Got::Error => None, Got::Text(s) | Got::Json(Value::String(s)) => Some(s.clone()), Got::Texts(v) => v.first().cloned(), _ => { rec.fail("kind", format!("{:?}", got)); continue; } };
          outs.push(s.clone());
          match &wants { Some(w) => { rec.outcome(if w.is_some() { "text" } else { "error" }); rec.eq("date", w, &s); } None => rec.outcome("open") }
        }
        rec.check(outs.windows(2).all(|w| w[0] == w[1]), "same", || format!("{:?}", outs));
      } }
    });
  }
  std::env::set_var("TZ", "UTC0");
}

fn urls(run: &Run) {
  let servers = [json!(null), json!("x"), json!({}), json!({"url": "http://h:1234"}), json!({"href": "http://k:9"}), json!({"url": "http://h:1234", "href": "http://k:9"}), json!({"url": "http://a/$1/\\1/b"}), json!({"url": ""})];
  let examples = ["http://localhost:8080/orders/5", "/orders/5", "http://localhost:8080", "", "é/orders/5", "http://x/orders/1/orders/2"];
  let res = [".*(/orders/\\d+)$", ".*(/orders/\\d+)", "^.*$", ".*/orders/\\d+", ".*(/nothing)?$", "(http:..localhost:8080)", "(", "", "http://([^/]+)(/orders)(/\\d+)", ".*(\\/o.*)$"];
  run.pairs("urls", "every mock server address, example and expression: the address followed by what the expression captures", &servers, &examples, |sv, ex, rec| {
    for re in res {
      let g = Generator::MockServerURL(ex.to_string(), re.to_string());
      let ctx: Ctx = [("mockServer", sv.clone())].into();
      for ctx in [ctx, HashMap::new()] {
        let url = ctx.get("mockServer").and_then(|m| m.get("url").or(m.get("href"))).and_then(|u| u.as_str().map(|s| s.to_string()));
        let r = regex::Regex::new(re).ok();
        // None: no answer required but an error or the address itself (the expression captures nothing)
        let want: Option<Option<String>> = match (url, r) {
          (Some(u), Some(r)) => match r.captures(ex) { None => Some(Some(ex.to_string())), Some(c) => match c.get(1) { Some(g1) => { let m = c.get(0).unwrap(); Some(Some(format!("{}{}{}{}", &ex[..m.start()], u, g1.as_str(), &ex[m.end()..]))) } None => None } },
          _ => Some(None),
        };
        let mut outs = vec![];
        for t in [Target::Text, Target::Json(json!("x")), Target::Json(json!(null)), Target::Texts(1)] {
          rec.case(format!("{:?} for {:?} in {:?}", g, t, ctx)); rec.state(&format!("{:?} {:?} {:?}", g, t, ctx)); rec.trace(); rec.steps(1);
          let Some(got) = rec.no_panic("generate", || generate(&g, &t, &ctx)) else { continue };
          let s = match &got { Got::Error => None, Got::Text(s) | Got::Json(Value::String(s)) => Some(s.clone()), Got::Texts(v) => v.first().cloned(), _ => { rec.fail("kind", format!("{:?}", got)); continue; } };
          outs.push(s.clone());
          match &want { Some(w) => { rec.outcome(if w.is_some() { "url" } else { "error" }); rec.eq("url", w, &s); } None => { rec.outcome("nothing captured"); } }
        }
        rec.check(outs.windows(2).all(|w| w[0] == w[1]), "same", || format!("{:?}", outs));
      }
    }
  });
}


/// A generator that shows how often and to what it was applied.
struct Mark(bool);
impl GenerateValue<Value> for Mark {
  fn generate_value(&self, v: &Value, _: &Ctx, _: &Box<dyn VariantMatcher + Send + Sync>) -> anyhow::Result<Value> { if self.0 { Ok(json!({"was": v})) } else { Err(anyhow::anyhow!("no value")) } }
}
impl GenerateValue<String> for Mark {
  fn generate_value(&self, v: &String, _: &Ctx, _: &Box<dyn VariantMatcher + Send + Sync>) -> anyhow::Result<String> { if self.0 { Ok(format!("<{}>", v)) } else { Err(anyhow::anyhow!("no value")) } }
}
#[derive(Clone, Debug, PartialEq, Hash)]
enum Tok { F(&'static str), I(usize), Star, Any }
fn tok_text(t: &[Tok]) -> String { t.iter().fold("$".to_string(), |s, t| s + &match t { Tok::F(n) if !n.is_empty() && n.chars().all(|c| c.is_ascii_alphanumeric()) => format!(".{}", n), Tok::F(n) => format!("['{}']", n), Tok::I(i) => format!("[{}]", i), Tok::Star => ".*".into(), Tok::Any => "[*]".into() }) }
/// Every place of the document the path denotes.
fn denoted(v: &Value, t: &[Tok]) -> Vec<Vec<Tok2>> {
  if t.is_empty() { return vec![vec![]]; }
  let under = |s: Tok2, c: &Value| denoted(c, &t[1..]).into_iter().map(|mut r| { r.insert(0, s.clone()); r }).collect::<Vec<_>>();
  match (&t[0], v) {
    (Tok::F(n), Value::Object(m)) => m.get(*n).map(|c| under(Tok2::K(n.to_string()), c)).unwrap_or_default(),
    (Tok::I(i), Value::Array(a)) => a.get(*i).map(|c| under(Tok2::N(*i), c)).unwrap_or_default(),
    (Tok::Star, Value::Object(m)) => m.iter().flat_map(|(k, c)| under(Tok2::K(k.clone()), c)).collect(),
    (Tok::Any, Value::Array(a)) => a.iter().enumerate().flat_map(|(i, c)| under(Tok2::N(i), c)).collect(),
    _ => vec![],
  }
}
#[derive(Clone, Debug, PartialEq)]
enum Tok2 { K(String), N(usize) }
fn replace(v: &mut Value, at: &[Tok2], f: &dyn Fn(&Value) -> Value) {
  match at.first() { None => *v = f(v), Some(Tok2::K(k)) => replace(v.get_mut(k).unwrap(), &at[1..], f), Some(Tok2::N(i)) => replace(v.get_mut(i).unwrap(), &at[1..], f) }
}
/// Documents of a bounded depth: scalars, and lists and objects of one or two smaller documents.
fn documents(depth: usize) -> Vec<Value> {
  let mut v = vec![json!(1), json!("s"), json!(null), json!([]), json!({})];
  if depth == 0 { return v; }
  let sub = documents(depth - 1);
  let few: Vec<&Value> = if depth > 1 { sub.iter().step_by(7).collect() } else { sub.iter().collect() };
  for a in &few {
    v.push(json!([a]));
    for k in ["a", "b", "a/b", "~1", "", "0", "é"] { if depth == 1 || ["a", "a/b"].contains(&k) { v.push(json!({k: a})); } }
    for b in &few { v.push(json!([a, b])); v.push(json!({"a": a, "b": b})); if depth == 1 { v.push(json!({"a": a, "~1": b, "c": a})); v.push(json!([a, b, a])); } }
  }
  v
}

pub fn c17(run: &Run) {
  use pact_models::generators::{apply_generators, ContentTypeHandler, GeneratorCategory, GeneratorTestMode, Generators, JsonHandler};
  use pact_models::generators::form_urlencoded::FormUrlEncodedHandler;
  use pact_models::path_exp::DocPath;
  let docs = documents(if run.thorough { 3 } else { 2 });
  let toks = [Tok::F("a"), Tok::F("A"), Tok::F("b"), Tok::F("a/b"), Tok::F("~1"), Tok::F("0"), Tok::F("é"), Tok::I(0), Tok::I(1), Tok::I(2), Tok::Star, Tok::Any];
  let depth = if run.thorough { 4 } else { 3 };
  let paths: Vec<Vec<Tok>> = (0..seq_count(toks.len(), depth)).map(|i| seq_at(i, toks.len()).iter().map(|k| toks[*k].clone()).collect()).collect();
  let parsed: Vec<DocPath> = paths.iter().map(|p| DocPath::new(tok_text(p)).expect("path")).collect();
  let m = NoopVariantMatcher.boxed();
  let ids: Vec<usize> = (0..paths.len()).collect();
  run.pairs("json", "every document of a bounded depth and every path of a bounded length: exactly the elements the path denotes are generated, once each, and nothing else changes", &docs, &ids, |d, p, rec| {
    rec.case(format!("{} in {}", tok_text(&paths[*p]), d)); rec.state(&(&paths[*p], d.to_string())); rec.trace(); rec.steps(1);
    let places = denoted(d, &paths[*p]);
    let mut want = d.clone();
    for at in &places { replace(&mut want, at, &|v| json!({"was": v})); }
    rec.outcome(format!("{} places", places.len().min(4)));
    let Some(got) = rec.no_panic("apply", || { let mut h = JsonHandler { value: d.clone() }; h.apply_key(&parsed[*p], &Mark(true), &HashMap::new(), &m); h.value }) else { return };
    rec.eq("json", &want, &got);
    if !places.is_empty() {
      let Some(got) = rec.no_panic("apply", || { let mut h = JsonHandler { value: d.clone() }; h.apply_key(&parsed[*p], &Mark(false), &HashMap::new(), &m); h.value }) else { return };
      rec.eq("json-error", d, &got);
    }
    let pointers: Vec<String> = places.iter().map(|at| at.iter().map(|s| match s { Tok2::K(k) => format!("/{}", k.replace('~', "~0").replace('/', "~1")), Tok2::N(i) => format!("/{}", i) }).collect()).collect();
    if !paths[*p].is_empty() { if let Some(got) = rec.no_panic("resolve", || pact_models::json_utils::resolve_path(d, &parsed[*p])) { rec.eq("resolve", &pointers, &got); } }
  });
  // A body with several generators, in each mode.
  let small = documents(2);
  let some: Vec<&Value> = small.iter().step_by(if run.thorough { 3 } else { 23 }).chain(small.iter().rev().take(3)).collect();
  let kinds: Vec<(Generator, Value, bool, bool)> = vec![(Generator::RandomInt(7, 7), json!(7), true, true), (Generator::Regex("X".into()), json!("X"), true, true), (Generator::RandomString(0), json!(""), true, true), (Generator::ProviderStateGenerator("id".into(), None), json!({"ctx": 1}), false, true), (Generator::MockServerURL("/x".into(), ".*(/x)".into()), json!("http://h:1/x"), true, false),
    (Generator::Date(Some("yyyy".into()), None), json!("2000"), true, true), (Generator::Regex("(".into()), json!(null), false, false), (Generator::RandomHexadecimal(0), json!(""), true, true), (Generator::ArrayContains(vec![]), json!(null), false, false)];
  let ctx: Ctx = [("id", json!({"ctx": 1})), ("mockServer", json!({"url": "http://h:1"})), ("baseDate", json!("2000-05-05T00:00:00Z"))].into();
  let short: Vec<usize> = ids.iter().cloned().filter(|i| paths[*i].len() <= 2 && paths[*i].len() > 0).collect();
  run.pairs("json-bodies", "every pair of paths that denote separate elements, every pair of generators and both sides: each generator applies on its side only, whatever the others do", &some, &short, |d, p, rec| {
    let a = denoted(d, &paths[*p]);
    for q in &short {
      if (*p == *q) || (p + q) % 5 != 0 && paths[*p].len() == 2 && paths[*q].len() == 2 { continue; }
      let b = denoted(d, &paths[*q]);
      // Paths that may meet are left out: one may then denote parts of what the other generates.
      if paths[*p].iter().zip(&paths[*q]).all(|(x, y)| x == y || matches!((x, y), (Tok::Star, Tok::F(_)) | (Tok::F(_), Tok::Star) | (Tok::Any, Tok::I(_)) | (Tok::I(_), Tok::Any))) { continue; }
      if a.is_empty() && b.is_empty() && q > p { continue; }
      for (i, (g1, v1, c1, p1)) in kinds.iter().enumerate() {
        let (g2, v2, c2, p2) = &kinds[(i + p + q) % kinds.len()];
        for mode in [GeneratorTestMode::Consumer, GeneratorTestMode::Provider] {
          let consumer = mode == GeneratorTestMode::Consumer;
          rec.case(format!("{} {:?} {} {:?} in {} {:?}", tok_text(&paths[*p]), g1, tok_text(&paths[*q]), g2, d, mode)); rec.state(&(i, p, q, d.to_string(), consumer)); rec.trace(); rec.steps(1);
          let mut want = (*d).clone();
          if if consumer { *c1 } else { *p1 } { for at in &a { replace(&mut want, at, &|o| if let (Generator::RandomInt(..), Value::String(_)) = (g1, o) { json!("7") } else { v1.clone() }); } }
          if if consumer { *c2 } else { *p2 } { for at in &b { replace(&mut want, at, &|o| if let (Generator::RandomInt(..), Value::String(_)) = (g2, o) { json!("7") } else { v2.clone() }); } }
          let map: HashMap<DocPath, Generator> = [(parsed[*p].clone(), g1.clone()), (parsed[*q].clone(), g2.clone())].into();
          let got = rec.no_panic("body", || { let mut h = JsonHandler { value: (*d).clone() }; h.process_body(&map, &mode, &ctx, &m).map(|b| (b.value().map(|v| serde_json::from_slice::<Value>(&v).unwrap()), b.content_type().map(|c| c.to_string()))) });
          rec.outcome(if want == **d { "unchanged" } else { "changed" });
          if let Some(got) = got { rec.eq("json-body", &Ok((Some(want), Some("application/json".to_string()))), &got); }
        }
      }
    }
  });
  // Which generators apply, and categories.
  let gens = vals::simple_generators();
  run.each("modes", "every generator in every category on both sides: applied on the sides it is for, and only in its category", &gens, |g, rec| {
    use GeneratorCategory::*;
    rec.case(format!("{:?}", g)); rec.state(&format!("{:?}", g));
    for mode in [GeneratorTestMode::Consumer, GeneratorTestMode::Provider] {
      let want = match g { Generator::ProviderStateGenerator(..) => mode == GeneratorTestMode::Provider, Generator::MockServerURL(..) => mode == GeneratorTestMode::Consumer, _ => true };
      rec.trace(); rec.steps(2); rec.outcome(if want { "applies" } else { "does not apply" });
      rec.eq("mode", &want, &g.corresponds_to_mode(&mode));
      let map: HashMap<DocPath, Generator> = [(vals::path("$.a"), g.clone()), (vals::path("$.b"), Generator::RandomBoolean), (vals::path("$"), g.clone())].into();
      let mut seen: Vec<(String, Generator)> = vec![];
      apply_generators(&mode, &map, &mut |k, g| seen.push((k.to_string(), g.clone())));
      seen.sort_by(|a, b| a.0.cmp(&b.0));
      let mut exp: Vec<(String, Generator)> = vec![("$".to_string(), g.clone()), ("$.a".to_string(), g.clone()), ("$.b".to_string(), Generator::RandomBoolean)];
      if !want { exp.retain(|x| x.0 == "$.b"); }
      rec.eq("apply", &exp, &seen);
    }
    let cats = [METHOD, PATH, HEADER, QUERY, BODY, STATUS, METADATA];
    for c in &cats { for d in &cats {
      let mut gs = Generators::default();
      gs.add_generator_with_subcategory(c, vals::path("$.a"), g.clone());
      gs.add_generator_with_subcategory(d, vals::path("$.b"), Generator::RandomBoolean);
      gs.add_generator_with_subcategory(d, vals::path("$.b"), Generator::RandomInt(1, 2));
      rec.steps(3); rec.trace();
      for e in &cats {
        let got: HashMap<DocPath, Generator> = gs.categories.get(e).cloned().unwrap_or_default();
        let mut want = HashMap::new();
        if e == c { want.insert(vals::path("$.a"), g.clone()); }
        if e == d { want.insert(vals::path("$.b"), Generator::RandomInt(1, 2)); }
        rec.eq("category", &want, &got);
      }
    } }
  });
  // Forms.
  let names = ["a", "b", "a[0]", "é &=", "A"];
  let n = if run.thorough { 6 } else { 4 };
  let keys: Vec<(&str, Option<(&str, Option<usize>)>)> = vec![("$.a", Some(("a", None))), ("$.b", Some(("b", None))), ("$.A", Some(("A", None))), ("$.A[1]", Some(("A", Some(1)))), ("$.A[*]", Some(("A", None))), ("$['a']", Some(("a", None))), ("$.a[0]", Some(("a", Some(0)))), ("$.a[1]", Some(("a", Some(1)))), ("$.a[2]", Some(("a", Some(2)))), ("$['b'][1]", Some(("b", Some(1)))), ("$.a[*]", Some(("a", None))),
    ("$['a[0]']", Some(("a[0]", None))), ("$['a[0]'][0]", Some(("a[0]", Some(0)))), ("$['é &=']", Some(("é &=", None))), ("$", None), ("$.*", None), ("$[*]", None), ("$[0]", None), ("$.c", None), ("$.a.b", None), ("$.a[0][0]", None), ("$.a[0].b", None), ("$.*[0]", None)];
  run.explore("forms", "every sequence of form fields up to a length and every kind of path: exactly the fields the path denotes are generated, once each", seq_count(names.len(), n), |i, rec| {
    let params: Vec<(String, String)> = seq_at(i, names.len()).iter().enumerate().map(|(j, k)| (names[*k].to_string(), format!("v{} &é", j))).collect();
    for (k, what) in &keys {
      rec.case(format!("{} in {:?}", k, params)); rec.state(&(k, &params)); rec.trace(); rec.steps(1);
      let hit = |j: usize| match what { None => false, Some((n, idx)) => params[j].0 == *n && idx.map_or(true, |x| x == params[..j].iter().filter(|p| p.0 == *n).count()) };
      let want: Vec<(String, String)> = params.iter().enumerate().map(|(j, p)| if hit(j) { (p.0.clone(), format!("<{}>", p.1)) } else { p.clone() }).collect();
      rec.outcome(format!("{} fields", (0..params.len()).filter(|j| hit(*j)).count()));
      let key = vals::path(k);
      for ok in [true, false] {
        if let Some(got) = rec.no_panic("apply", || { let mut h = FormUrlEncodedHandler { params: params.clone() }; h.apply_key(&key, &Mark(ok), &HashMap::new(), &m); h.params }) { rec.eq("form", if ok { &want } else { &params }, &got); }
      }
      for mode in [GeneratorTestMode::Consumer, GeneratorTestMode::Provider] { for (g, v, c, p) in [&kinds[1], &kinds[3], &kinds[4]] {
        let applies = if mode == GeneratorTestMode::Consumer { *c } else { *p };
        let text = if let Value::String(s) = v { s.clone() } else { v.to_string() };
        let want: Vec<(String, String)> = params.iter().enumerate().map(|(j, p)| if hit(j) && applies { (p.0.clone(), text.clone()) } else { p.clone() }).collect();
        let map: HashMap<DocPath, Generator> = [(key.clone(), g.clone())].into();
        let got = rec.no_panic("body", || { let mut h = FormUrlEncodedHandler { params: params.clone() }; h.process_body(&map, &mode, &ctx, &m).map(|b| (b.value().map(|v| form(&v)), b.content_type().map(|c| c.to_string()))) });
        if let Some(got) = got { rec.eq("form-body", &Ok((Some(want), Some("application/x-www-form-urlencoded".to_string()))), &got); }
      } }
    }
  });
  // Lists of variants: the generators of the variant that matches apply to the element, the others are left alone.
  #[derive(Debug, Clone)] struct ByKind;
  impl VariantMatcher for ByKind {
    fn find_matching_variant(&self, value: &Value, variants: &Vec<(usize, pact_models::matchingrules::MatchingRuleCategory, HashMap<DocPath, Generator>)>) -> Option<(usize, HashMap<DocPath, Generator>)> {
      let k = match value { Value::Object(m) if m.contains_key("a") => 0, Value::Object(_) => 1, Value::Array(_) => 2, _ => return None };
      variants.iter().find(|v| v.0 == k).map(|v| (v.0, v.2.clone()))
    }
    fn boxed(&self) -> Box<dyn VariantMatcher + Send + Sync> { Box::new(self.clone()) }
  }
  let items = [json!(1), json!("x"), json!({"a": 1}), json!({"a": {"b": 2}, "c": 3}), json!({"b": 1}), json!([1, 2]), json!(null)];
  run.explore("variants", "every list of up to a number of elements, for every choice of variants: each element gets the generators of the variant it matches", seq_count(items.len(), if run.thorough { 6 } else { 4 }), |i, rec| {
    let list: Vec<Value> = seq_at(i, items.len()).iter().map(|k| items[*k].clone()).collect();
    for mask in 0..8 {
      let all = [("$.a", 0usize), ("$.b", 1), ("$[1]", 2)];
      let variants: Vec<_> = all.iter().filter(|v| mask & (1 << v.1) != 0).map(|(p, k)| (*k, pact_models::matchingrules::MatchingRuleCategory::empty("body"), HashMap::from([(vals::path(p), Generator::Regex(format!("G{}", k))), (vals::path("$.zz"), Generator::RandomBoolean)]))).collect();
      let want: Vec<Value> = list.iter().map(|v| { let mut v = v.clone(); match &mut v { Value::Object(m) if m.contains_key("a") => if mask & 1 != 0 { m.insert("a".into(), json!("G0")); }, Value::Object(m) => if mask & 2 != 0 && m.contains_key("b") { m.insert("b".into(), json!("G1")); }, Value::Array(a) => if mask & 4 != 0 { a[1] = json!("G2"); }, _ => {} } v }).collect();
      let g = Generator::ArrayContains(variants);
      rec.case(format!("{} variants {:b}", json!(list), mask)); rec.state(&(i, mask)); rec.trace(); rec.steps(2);
      let bm = ByKind.boxed();
      rec.outcome(if want == list { "unchanged" } else { "changed" });
      if let Some(got) = rec.no_panic("variants", || GenerateValue::<Value>::generate_value(&g, &json!(list), &HashMap::new(), &bm).ok()) { rec.eq("variants", &Some(json!(want)), &got); }
      let doc = json!({"l": list, "o": 1});
      let key = vals::path("$.l");
      if let Some(got) = rec.no_panic("variants", || { let mut h = JsonHandler { value: doc.clone() }; h.apply_key(&key, &g, &HashMap::new(), &bm); h.value }) { rec.eq("variants-in", &json!({"l": want, "o": 1}), &got); }
    }
  });
}
fn form(b: &[u8]) -> Vec<(String, String)> {
  let un = |s: &str| { let (s, mut out, mut i) = (s.as_bytes(), vec![], 0); while i < s.len() { match s[i] { b'+' => out.push(b' '), b'%' => { out.push(u8::from_str_radix(std::str::from_utf8(&s[i + 1..i + 3]).unwrap(), 16).unwrap()); i += 2; } c => out.push(c) } i += 1; } String::from_utf8(out).unwrap() };
  std::str::from_utf8(b).unwrap().split('&').filter(|s| !s.is_empty()).map(|p| { let (k, v) = p.split_once('=').unwrap_or((p, "")); (un(k), un(v)) }).collect()
}
