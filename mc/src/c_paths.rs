//! C10 (path expressions print and parse losslessly) and C11 (they match exactly the paths they denote).
use mccore::*;
use pact_models::path_exp::{parse_path_exp, DocPath, PathToken};
use std::convert::TryFrom;

pub const FIELDS: &[&str] = &[
  "a", "b1", "_x", "name", "A", "a-b", "a:b", "#text", "@id", "a b", "a.b", "a'b", "'", "''", "a\\b", "\\", "\\'", "'\\", "\\\\",
  "a\"b", "[", "]", "[0]", "[*]", "*", "0", "12", "$", "$.a", " ", "é", "日本", "ß", "a\nb", "a/b", "a~b", "%20", "a,b", "-", "{}", "a]b", "x['y']",
];

pub fn alphabet() -> Vec<PathToken> {
  let mut t: Vec<PathToken> = FIELDS.iter().map(|f| PathToken::Field(f.to_string())).collect();
  t.extend([PathToken::Index(0), PathToken::Index(1), PathToken::Index(10), PathToken::Index(usize::MAX), PathToken::Star, PathToken::StarIndex]);
  t
}

/// A short alphabet for deeper sequences.
fn core_alphabet() -> Vec<PathToken> {
  let mut t: Vec<PathToken> = ["a", "a b", "a'b", "\\", "0", "é"].iter().map(|f| PathToken::Field(f.to_string())).collect();
  t.extend([PathToken::Index(0), PathToken::Index(7), PathToken::Star, PathToken::StarIndex]);
  t
}

/// The grammar, written independently: `$` followed by .name, .*, ['text'], [n], [*]; or a bare name first; or nothing.
/// In quoted text `\\` and `\'` stand for the character after the backslash.
pub fn ref_parse(s: &str) -> Option<Vec<PathToken>> {
  let c: Vec<char> = s.chars().collect();
  if c.is_empty() { return Some(vec![]); }
  let ident = |ch: char| ch.is_alphabetic() || ch.is_numeric() || "_-:#@".contains(ch);
  let mut out = vec![PathToken::Root];
  let mut i = 0;
  if c[0] == '$' { i = 1; }
  else if c[0].is_alphabetic() || c[0].is_numeric() {
    while i < c.len() && ident(c[i]) { i += 1; }
    out.push(PathToken::Field(c[..i].iter().collect()));
  } else { return None; }
  while i < c.len() {
    match c[i] {
      '.' => {
        i += 1;
        if i >= c.len() { return None; }
        if c[i] == '*' { out.push(PathToken::Star); i += 1; }
        else {
          let from = i;
          while i < c.len() && ident(c[i]) { i += 1; }
          if i == from { return None; }
          out.push(PathToken::Field(c[from..i].iter().collect()));
        }
      }
      '[' => {
        i += 1;
        if i >= c.len() { return None; }
        if c[i] == '\'' {
          i += 1;
          let mut text = String::new();
          loop {
            if i >= c.len() { return None; }
            if c[i] == '\\' && i + 1 < c.len() && (c[i + 1] == '\\' || c[i + 1] == '\'') { text.push(c[i + 1]); i += 2; }
            else if c[i] == '\'' { i += 1; break; }
            else { text.push(c[i]); i += 1; }
          }
          if text.is_empty() { return None; }
          out.push(PathToken::Field(text));
        } else if c[i] == '*' { out.push(PathToken::StarIndex); i += 1; }
        else {
          let from = i;
          while i < c.len() && c[i].is_ascii_digit() { i += 1; }
          if i == from { return None; }
          let n: usize = c[from..i].iter().collect::<String>().parse().ok()?;
          out.push(PathToken::Index(n));
        }
        if i >= c.len() || c[i] != ']' { return None; }
        i += 1;
      }
      _ => return None,
    }
  }
  Some(out)
}

fn check_path(rec: &mut Rec, p: &DocPath, tokens: &[PathToken], how: &str) {
  rec.steps(2); rec.trace();
  if p.tokens() != tokens { rec.fail(&format!("tokens:{}", how), format!("expected {:?}, has {:?}", tokens, p.tokens())); }
  let text = p.to_string();
  rec.state(&text);
  match quiet(|| parse_path_exp(&text)) {
    Ok(Ok(t)) => if t != tokens { rec.fail(&format!("reparse:{}", how), format!("{:?} prints as {} which parses to {:?}", tokens, text, t)); },
    Ok(Err(e)) => rec.fail(&format!("reparse:{}", how), format!("{:?} prints as {} which does not parse: {}", tokens, text, e)),
    Err(e) => rec.fail(&format!("reparse:{}", how), format!("{:?} prints as {}, parsing which panics: {}", tokens, text, e)),
  }
  let s: String = p.clone().into();
  if s != text { rec.fail(&format!("string:{}", how), format!("String::from gives {}, Display {}", s, text)); }
}

pub fn c10(run: &Run) {
  let al = alphabet();
  let k = al.len();
  let depth = 2 + run.thorough as usize;
  run.explore("characters", "every Unicode character as a field name, alone and at the start, in the middle and at the end of one, built and parsed back", 0x110000, |i, rec| {
    let Some(ch) = char::from_u32(i as u32) else { rec.case(format!("surrogate {:x}", i)); return };
    rec.case(format!("U+{:04X}", i));
    for name in [format!("{}", ch), format!("{}b", ch), format!("a{}b", ch), format!("a{}", ch)] {
      let toks = [PathToken::Root, PathToken::Field(name.clone()), PathToken::Index(1)];
      let mut p = DocPath::root(); p.push_field(name.as_str()).push_index(1);
      check_path(rec, &p, &toks, "push");
      check_path(rec, &DocPath::from_tokens(toks.to_vec()), &toks, "from_tokens");
      // The name as it is, after a dot and in quotes: what it means follows from the grammar.
      for text in [format!("$.{}", name), format!("$['{}']", name), name.clone()] {
        rec.steps(1);
        match quiet(|| parse_path_exp(&text)) { Ok(r) => { rec.eq("parse", &ref_parse(&text), &r.ok()); } Err(e) => rec.fail("panic", e) }
      }
    }
  });
  run.explore("built", "every token sequence over 41 field names, 4 indexes, * and [*] up to the depth, built in every way the API offers", seq_count(k, depth), |i, rec| {
    let seq = seq_at(i, k);
    let toks: Vec<PathToken> = seq.iter().map(|d| al[*d].clone()).collect();
    rec.case(format!("{:?}", toks));
    let mut full = vec![PathToken::Root]; full.extend(toks.iter().cloned());
    rec.outcome(format!("len{}", full.len()));
    check_path(rec, &DocPath::from_tokens(full.clone()), &full, "from_tokens");
    let mut p = DocPath::root();
    for t in &toks { p.push(t.clone()); }
    check_path(rec, &p, &full, "push");
    let mut p = DocPath::root();
    for t in &toks { match t {
      PathToken::Field(f) => { p.push_field(f.clone()); } PathToken::Index(i) => { p.push_index(*i); }
      PathToken::Star => { p.push_star(); } PathToken::StarIndex => { p.push_star_index(); } PathToken::Root => {} } }
    check_path(rec, &p, &full, "push_x");
    let p1 = p.clone();
    // push_path: splitting anywhere and joining gives the same path
    for cut in 0..=toks.len() {
      let mut a = vec![PathToken::Root]; a.extend(toks[..cut].iter().cloned());
      let mut b = vec![PathToken::Root]; b.extend(toks[cut..].iter().cloned());
      let mut pa = DocPath::from_tokens(a); let pb = DocPath::from_tokens(b);
      pa.push_path(&pb);
      check_path(rec, &pa, &full, "push_path");
      if pa != p1 { rec.fail("eq:push_path", format!("{} != {}", pa, p1)); }
    }
    // join: the documented mapping of a part to a token
    let mut p = DocPath::root(); let mut jt = vec![PathToken::Root];
    for t in &toks { let part = t.to_string(); p = p.join(part.clone());
      jt.push(if part == "*" { PathToken::Star } else if part == "[*]" { PathToken::StarIndex } else if let Ok(n) = part.parse() { PathToken::Index(n) } else { PathToken::Field(part) }); }
    check_path(rec, &p, &jt, "join");
    // join_index / join_field replace a trailing wildcard
    let mut e = full.clone();
    if matches!(e.last(), Some(PathToken::Star) | Some(PathToken::StarIndex)) { e.pop(); }
    e.push(PathToken::Index(3));
    check_path(rec, &p1.join_index(3), &e, "join_index");
    let mut e = full.clone();
    if matches!(e.last(), Some(PathToken::Star)) { e.pop(); }
    e.push(PathToken::Field("f g".into()));
    check_path(rec, &p1.join_field("f g"), &e, "join_field");
    // parent / drop / accessors
    match p1.parent() {
      None => rec.check(full.len() <= 1, "parent", || "no parent".into()),
      Some(par) => { check_path(rec, &par, &full[..full.len() - 1], "parent"); full.len() > 1 || { rec.fail("parent", "root has a parent"); false } }
    };
    for n in 0..=full.len() + 1 {
      let rest = full.len().saturating_sub(n);
      let want = if rest == 0 { vec![PathToken::Root] } else { full[..rest].to_vec() };
      check_path(rec, &p1.drop(n), &want, "drop");
    }
    rec.eq("len", &full.len(), &p1.len());
    rec.eq("last", &full.last().cloned(), &p1.last());
    rec.eq("is_root", &(full.len() == 1), &p1.is_root());
    rec.eq("is_wildcard", &(full.last() == Some(&PathToken::Star)), &p1.is_wildcard());
    let fields: Vec<&str> = full.iter().filter_map(|t| if let PathToken::Field(f) = t { Some(f.as_str()) } else { None }).collect();
    rec.eq("first_field", &fields.first().copied(), &p1.first_field());
    rec.eq("last_field", &fields.last().copied(), &p1.last_field());
    let v: Vec<String> = full.iter().map(|t| match t { PathToken::Root => "$".into(), PathToken::Field(f) => f.clone(), PathToken::Index(i) => i.to_string(), PathToken::Star => "*".into(), PathToken::StarIndex => "[*]".to_string() }).collect();
    rec.eq("to_vec", &v, &p1.to_vec());
    // JSON pointer (RFC 6901)
    let ptr = full.iter().skip(1).map(|t| match t { PathToken::Field(f) => Some(format!("/{}", f.replace('~', "~0").replace('/', "~1"))), PathToken::Index(i) => Some(format!("/{}", i)), _ => None }).collect::<Option<String>>();
    rec.eq("as_json_pointer", &ptr, &p1.as_json_pointer().ok());
    // lower case: the text and the tokens stay in step
    let lower: Vec<PathToken> = full.iter().map(|t| match t { PathToken::Field(f) => PathToken::Field(f.to_lowercase()), t => t.clone() }).collect();
    check_path(rec, &p1.to_lower_case(), &lower, "to_lower_case");
    // String conversions (serde goes through these)
    match DocPath::try_from(p1.to_string()) { Ok(q) => { rec.eq("try_from", &p1, &q); } Err(e) => rec.fail("try_from", e.to_string()) }
  });
  let core = core_alphabet();
  let kc = core.len();
  run.explore("deep", "every token sequence over 10 representative tokens up to the depth", seq_count(kc, 4 + run.thorough as usize), |i, rec| {
    let toks: Vec<PathToken> = std::iter::once(PathToken::Root).chain(seq_at(i, kc).iter().map(|d| core[*d].clone())).collect();
    rec.case(format!("{:?}", toks));
    rec.outcome(format!("len{}", toks.len()));
    check_path(rec, &DocPath::from_tokens(toks.clone()), &toks, "from_tokens");
  });
  // Texts: every string over the alphabet up to the length, against the reference grammar.
  let chars: Vec<char> = "$.[]'*\\0a- ".chars().collect();
  let kc = chars.len();
  let len = if run.thorough { 7 } else { 5 };
  run.explore("texts", "every string over {$ . [ ] ' * \\ 0 a - space} up to the length: parses as the grammar says", seq_count(kc, len), |i, rec| {
    let s: String = seq_at(i, kc).iter().map(|d| chars[*d]).collect();
    check_text(rec, &s);
  });
  // The same below a prefix, so that brackets and quotes are reached.
  let prefixes = ["$.", "$[", "$['", "$.a[", "$['a'", "$['a\\", "$[1", "a", "$.a.", "$['a']", "$[*]", "$.*"];
  let chars2: Vec<char> = "$.[]'*\\09aZé٣_-:#@ \"\u{7f}!".chars().collect();
  let k2 = chars2.len();
  let n2 = seq_count(k2, if run.thorough { 4 } else { 3 });
  run.explore("suffixes", "every string over 22 characters up to the length after each of 12 prefixes", n2 * prefixes.len() as u64, |i, rec| {
    let mut s = prefixes[(i / n2) as usize].to_string();
    s.extend(seq_at(i % n2, k2).iter().map(|d| chars2[*d]));
    check_text(rec, &s);
  });
  let nums: Vec<String> = ["18446744073709551615", "18446744073709551616", "99999999999999999999999", "00", "007", "1٣", "٣", "²", "Ⅷ", "+1", "-1", "1e3", "0x1", ""].iter().map(|s| s.to_string()).collect();
  run.each("indexes", "index spellings at the limits", &nums, |n, rec| { for t in ["$[{}]", "$.a[{}].b", "$[{}", "a[{}]"] { check_text(rec, &t.replace("{}", n)); } });
}

fn check_text(rec: &mut Rec, s: &str) {
  rec.case(format!("{:?}", s));
  rec.steps(1); rec.trace();
  let want = ref_parse(s);
  let got = match quiet(|| parse_path_exp(s)) { Ok(r) => r, Err(p) => { rec.fail("parse-panics", format!("panic: {}", p)); return; } };
  match (&want, &got) {
    (Some(w), Ok(g)) => { rec.outcome(format!("ok{}", g.len())); rec.state(&format!("{:?}", g)); if w != g { rec.fail("parse", format!("expected {:?}, got {:?}", w, g)); } }
    (None, Err(_)) => rec.outcome("error"),
    (Some(w), Err(e)) => rec.fail("parse", format!("expected {:?}, got error {}", w, e)),
    (None, Ok(g)) => rec.fail("parse", format!("expected an error, got {:?}", g)),
  }
  if let (Some(w), Ok(Ok(p))) = (&want, quiet(|| DocPath::new(s))) {
    // A parsed path prints to something that denotes the same path, whatever was then done to it.
    let p2 = DocPath::from_tokens(p.tokens().clone());
    match parse_path_exp(&p2.to_string()) { Ok(t) => { rec.eq("reprint", w, &t); } Err(e) => rec.fail("reprint", e) }
    match parse_path_exp(&p.to_string()) { Ok(t) => { rec.eq("print", w, &t); } Err(e) => rec.fail("print", e) }
  }
}

/// What one token denotes, written independently of the implementation.
fn denotes(t: &PathToken, f: &str) -> u8 {
  match t {
    PathToken::Root => if f == "$" { 2 } else { 0 },
    PathToken::Field(n) => if n == f { 2 } else { 0 },
    PathToken::Index(n) => if n.to_string() == f { 2 } else { 0 },
    PathToken::StarIndex => if f == "[*]" || (!f.is_empty() && f.chars().all(|c| c.is_ascii_digit())) { 1 } else { 0 },
    PathToken::Star => 1,
  }
}

pub fn c11(run: &Run) {
  let toks = vec![PathToken::Root, PathToken::Field("a".into()), PathToken::Field("b".into()), PathToken::Field("1".into()), PathToken::Field("*".into()), PathToken::Field("".into()),
    PathToken::Index(0), PathToken::Index(1), PathToken::Star, PathToken::StarIndex];
  let frags = ["$", "a", "b", "0", "1", "*", "[*]", "", "-1", "1a"];
  let (kt, kf) = (toks.len(), frags.len());
  let depth = if run.thorough { 4 } else { 3 };
  let (nt, nf) = (seq_count(kt, depth), seq_count(kf, depth));
  run.explore("expr-path", "every expression over 10 tokens against every path over 10 fragments, up to the depth each", nt * nf, |i, rec| {
    let e: Vec<PathToken> = seq_at(i / nf, kt).iter().map(|d| toks[*d].clone()).collect();
    let f: Vec<&str> = seq_at(i % nf, kf).iter().map(|d| frags[*d]).collect();
    rec.case(format!("{:?} against {:?}", e, f));
    let p = DocPath::from_tokens(e.clone());
    rec.steps(3); rec.trace();
    let prefix = f.len() >= e.len() && e.iter().zip(&f).all(|(t, f)| denotes(t, f) > 0);
    let exact = prefix && f.len() == e.len();
    let specific = e.iter().zip(&f).filter(|(t, f)| denotes(t, f) == 2).count();
    let (w, n) = p.path_weight(&f);
    rec.outcome(format!("prefix={} exact={} weight={}", prefix, exact, w));
    if i % 64 == 0 { rec.state(&(w, n, p.to_string())); }
    rec.eq("matches_path", &prefix, &p.matches_path(&f));
    rec.eq("matches_path_exactly", &exact, &p.matches_path_exactly(&f));
    rec.eq("weight-zero", &!prefix, &(w == 0));
    rec.eq("length", &e.len(), &n);
    if prefix {
      // Replacing any one specific token by a wildcard that still matches must lower the weight.
      for j in 0..e.len() {
        if denotes(&e[j], f[j]) == 2 {
          for wild in [PathToken::Star, PathToken::StarIndex] {
            if denotes(&wild, f[j]) == 1 {
              let mut e2 = e.clone(); e2[j] = wild;
              let (w2, _) = DocPath::from_tokens(e2.clone()).path_weight(&f);
              rec.check(w2 < w && w2 > 0, "specificity", || format!("{:?} weighs {}, {:?} weighs {}", e, w, e2, w2));
            }
          }
        }
      }
      let _ = specific;
    }
  });
  // Deep paths: one wildcard at each position of a path of each depth.
  let max = if run.thorough { 130 } else { 130 };
  run.explore("deep", "expressions of depth 1..130 (the JSON nesting limit), with a wildcard at every position", (max * max) as u64, |i, rec| {
    let (d, pos) = ((i as usize) / max + 1, (i as usize) % max);
    if pos > d { rec.case(format!("depth {} (no position {})", d, pos)); return; }
    rec.case(format!("depth {} wildcard at {}", d, pos));
    rec.steps(2); rec.trace();
    let mut e = vec![PathToken::Root]; e.extend((1..d).map(|_| PathToken::Field("a".into())));
    let f: Vec<&str> = std::iter::once("$").chain((1..d).map(|_| "a")).collect();
    let w = DocPath::from_tokens(e.clone()).path_weight(&f).0;
    rec.check(w > 0, "deep-match", || format!("the expression of depth {} does not match itself (weight {})", d, w));
    if pos > 0 && pos < d {
      e[pos] = PathToken::Star;
      let w2 = DocPath::from_tokens(e.clone()).path_weight(&f).0;
      rec.check(w2 > 0, "deep-match", || format!("weight {}", w2));
      if d <= 62 { rec.check(w2 < w, "deep-specificity", || format!("wildcard at {} weighs {} not less than {}", pos, w2, w)); }
      let mut g = f.clone(); g[pos] = "b";
      e[pos] = PathToken::Field("a".into());
      rec.check(DocPath::from_tokens(e).path_weight(&g).0 == 0, "deep-mismatch", || format!("differs at {} but matches", pos));
    }
    rec.state(&(d, pos)); rec.outcome(if w > 0 { "match" } else { "none" });
  });
}
