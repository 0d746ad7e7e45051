//! C35: what each matching rule accepts, on every kind of value, and how lists of rules combine.
use crate::jmodel::{integer_text, number_text, regex_ok, status_ok, text_ok, value_ok, path};
use crate::m_json::{def, docs, rules, variant};
use bytes::Bytes;
use mccore::{digits, seq_at, seq_count, space_size, Rec, Run};
use pact_matching::matchers::{match_values, Matches};
use pact_models::matchingrules::{MatchingRule, RuleList, RuleLogic};
use pact_models::HttpStatus;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use MatchingRule::*;

fn text_rules() -> Vec<MatchingRule> {
  let mut v = vec![Equality, Values, Type, MinType(1), MaxType(0), MinMaxType(1, 2), Regex("^\\d+$".into()), Regex("1".into()), Regex(".*1.*".into()), Regex("[".into()), Regex("".into()), Regex("a|1".into()), Include("1".into()), Include("".into()), Include(".".into()), Number, Decimal, Integer, Boolean, NotEmpty, Semver, Null,
    Date("".into()), Date("yyyy".into()), Time("".into()), Time("HH:mm".into()), Timestamp("".into()), EachKey(def(vec![Type])), EachValue(def(vec![Type])), ArrayContains(vec![]), ArrayContains(vec![variant(0, vec![])])];
  for s in statuses() { v.push(StatusCode(s)); }
  v
}
fn statuses() -> Vec<HttpStatus> { use HttpStatus::*; vec![Information, Success, Redirect, ClientError, ServerError, StatusCodes(vec![200, 404]), StatusCodes(vec![]), NonError, Error] }
fn check(rec: &mut Rec, class: &str, want: bool, f: impl FnOnce() -> anyhow::Result<()>) {
  rec.steps(1);
  if let Some(got) = rec.no_panic(class, f) {
    rec.outcome(if got.is_ok() { "accepted" } else { "rejected" });
    rec.check(got.is_ok() == want, class, || format!("expected {}, but: {:?}", if want { "acceptance" } else { "rejection" }, got.map_err(|e| e.to_string())));
  }
}

fn texts() -> Vec<String> {
  let mut v: Vec<String> = ["true", "false", "TRUE", "True", "inf", "-inf", "infinity", "NaN", "nan", "-NaN", "null", "1e5", "1E-2", "1e", "0x1", "1_000", "100", "200", "199", "404", "500", "599", "600", "65535", "65536", "-200", "00", "007", "-0", "18446744073709551615", "9223372036854775808", "-9223372036854775808", "١", "é", "\u{0}", "\n", "a\nb", "1\n",
    "1.0.0", "0.0.1", "1.0", "1.0.0-alpha", "1.0.0-alpha.1", "1.0.0-01", "1.0.0-0", "1.0.0+build", "1.0.0-a+b.c", "1.0.0+01", "01.0.0", "v1.0.0", "1.0.0-", "1.0.0+", "1.0.0.0", "1..0", "1.0.0-a..b", "1.0.0-a_b", "1.0.0 ",
    "2001-02-03", "2001-02-30", "2001-2-3", "01-02-2003", "10:11:12", "25:00:00", "10:11", "2001-02-03T10:11:12+01:00", "2001-02-03T10:11:12Z", "2001-02-03T10:11:12", "2001"].iter().map(|s| s.to_string()).collect();
  let alpha = ["1", "0", "-", "+", ".", "e", "a", " "];
  for i in 0..seq_count(alpha.len(), 4) { v.push(seq_at(i, alpha.len()).iter().map(|k| alpha[*k]).collect()); }
  v
}

pub fn c35(run: &Run) {
  let (texts, trules) = (texts(), text_rules());
  run.each("text", "every text of a list and every text up to length 4 over digits, signs, point, exponent, letter and space, under every rule, inherited or not, against five expected values", &texts, |a, rec| {
    rec.state(a);
    for r in &trules { for e in ["", "1", "a", "1.0", a.as_str()] { for cascaded in [false, true] {
      rec.case(format!("{:?} (expected {:?}) {:?}{}", a, e, r, if cascaded { " inherited" } else { "" }));
      let want = text_ok(e, a, r, cascaded);
      check(rec, "text", want, || Matches::matches_with(&e, a.as_str(), r, cascaded));
      if e == "1" {
        check(rec, "text-forms", want, || Matches::matches_with(&e.to_string(), a.clone(), r, cascaded));
        check(rec, "text-forms", want, || Matches::matches_with(&e.to_string(), a, r, cascaded));
        check(rec, "text-forms", want, || Matches::matches_with(&e.to_string(), a.as_str(), r, cascaded));
        check(rec, "text-forms", want, || match_values(&path("$.a"), &RuleList { rules: vec![r.clone()], rule_logic: RuleLogic::And, cascaded }, e, a.as_str()).map_err(|m| anyhow::anyhow!("{:?}", m)));
      }
      // A JSON text is judged like the same text
      if !matches!(r, Number | Decimal | Integer | Null | StatusCode(_) | EachKey(_) | EachValue(_) | ArrayContains(_)) {
        check(rec, "json-text", want, || Matches::matches_with(&json!(e), &json!(a), r, cascaded));
      }
    } } }
    rec.trace();
    // and a number given as text like the number it stands for
    rec.case(format!("{:?} as a number", a));
    if let Ok(v @ Value::Number(_)) = serde_json::from_str::<Value>(a) { if a.trim() == a {
      for r in [Number, Integer] {
        let t = text_ok("", a, &r, false);
        if v.is_f64() && integer_text(a) { continue; }
        check(rec, "number-text", t, || Matches::matches_with(&json!(7), &v, &r, false));
      }
    } }
    let _ = number_text;
  });
  let docs = { let mut d = docs(); d.extend([json!(-1), json!(0), json!(-1.5), json!(1.0), json!(1e21), json!(u64::MAX), json!(i64::MIN), json!(false), json!("true"), json!("false"), json!("1.0.0"), json!("1.0"), json!("2001-02-03T10:11:12Z"), json!("10"), json!({"b": {"c": [1, {"d": null}]}})]); d };
  let jrules = { let mut r = rules(); r.extend([Regex(".*1.*".into()), Regex("\\[.*".into()), Regex("null".into()), Include("1".into()), Include("{".into()), Include("null".into()), Date("yyyy".into()), MinType(0)]); r };
  run.pairs("json", "every pair of JSON values under every rule, inherited or not", &docs, &docs, |e, a, rec| {
    rec.state(&(e.to_string(), a.to_string()));
    for r in &jrules { for cascaded in [false, true] {
      if matches!(r, StatusCode(_)) { continue; }
      rec.case(format!("{} (expected {}) {:?}{}", a, e, r, if cascaded { " inherited" } else { "" }));
      let want = value_ok(e, a, r, cascaded);
      check(rec, "json", want, || Matches::matches_with(e, a, r, cascaded));
      check(rec, "json-forms", want, || Matches::matches_with(e, a.clone(), r, cascaded));
      check(rec, "json-forms", want, || Matches::matches_with(&e, a, r, cascaded));
    } }
    rec.trace();
  });
  // native numbers and booleans: a number is judged like the JSON number
  let basic = |r: &MatchingRule| matches!(r, Equality | Type | MinType(_) | MaxType(_) | MinMaxType(..) | Regex(_) | Include(_) | Number | Integer | Decimal);
  let nrules: Vec<MatchingRule> = { let mut v: Vec<MatchingRule> = trules.clone(); v.extend([Regex("-.*".into()), Regex("\\d*\\.\\d+".into()), Include("5".into())]); v };
  let us = [0u64, 1, 5, 10, 15, 100, 200, 404, 599, 65535, u64::MAX]; let is = [0i64, 1, -1, 5, 15, -150, i64::MIN, i64::MAX]; let fs = [1.5f64, -0.25, 100.01, 0.1, -15.5];
  macro_rules! native { ($name:expr, $a:expr, $b:expr, $forms:ident, $ea:ty) => {
    run.pairs($name, "every pair of numbers under every rule", &$a, &$b, |e, a, rec| {
      rec.trace(); rec.state(&(e.to_string(), a.to_string()));
      for r in &nrules { for cascaded in [false, true] {
        rec.case(format!("{} (expected {}) {:?}{}", a, e, r, if cascaded { " inherited" } else { "" }));
        let same = json!(e).is_f64() == json!(a).is_f64();
        let want = match r {
          Type | MinType(_) | MaxType(_) | MinMaxType(..) => same,
          r if basic(r) => value_ok(&json!(e), &json!(a), r, cascaded),
          StatusCode(s) => match json!(a).as_u64() { Some(n) if n <= 65535 && !json!(e).is_f64() && $name.starts_with("u") => status_ok(n, s), _ => { let _ = rec.no_panic("numbers", || Matches::<$ea>::matches_with(e, *a, r, cascaded)); continue } },
          _ => { let _ = rec.no_panic("numbers", || Matches::<$ea>::matches_with(e, *a, r, cascaded)); continue }
        };
        check(rec, "numbers", want, || Matches::<$ea>::matches_with(e, *a, r, cascaded));
        // against an expected text only rules that look at the value alone can accept it
        let _ = stringify!($forms);
        let t = match r { Equality | Type | MinType(_) | MaxType(_) | MinMaxType(..) => false, _ => want };
        if !matches!(r, StatusCode(_)) { texts_against!($forms, rec, t, e, a, r, cascaded, $ea); }
      } }
    });
  } }
  macro_rules! texts_against {
    (yes, $rec:expr, $t:expr, $e:expr, $a:expr, $r:expr, $c:expr, $ea:ty) => { check($rec, "number-against-text", $t, || Matches::<$ea>::matches_with(&$e.to_string(), *$a, $r, $c)); check($rec, "number-against-text", $t, || Matches::<$ea>::matches_with(&$e.to_string().as_str(), *$a, $r, $c)); };
    (no, $rec:expr, $t:expr, $e:expr, $a:expr, $r:expr, $c:expr, $ea:ty) => { let _ = $t; };
  }
  native!("u64/u64", us, us, yes, u64);
  native!("i64/i64", is, is, yes, i64);
  native!("f64/f64", fs, fs, no, f64);
  native!("u64/f64", us, fs, no, f64);
  native!("f64/u64", fs, us, no, u64);
  let u16s = [0u16, 1, 5, 15, 99, 100, 199, 200, 404, 65535]; let i32s = [0i32, 1, -1, 15, i32::MIN, i32::MAX];
  native!("u16/u16", u16s, u16s, yes, u16);
  native!("i32/i32", i32s, i32s, yes, i32);
  run.pairs("bool", "both booleans under every rule", &[false, true], &[false, true], |e, a, rec| {
    rec.trace(); rec.state(&(*e, *a));
    for r in nrules.iter().chain([Regex("true".into()), Regex("t.*".into())].iter()) { for cascaded in [false, true] {
      rec.case(format!("{} (expected {}) {:?}{}", a, e, r, if cascaded { " inherited" } else { "" }));
      match r {
        Equality | Type | MinType(_) | MaxType(_) | MinMaxType(..) | Regex(_) | Boolean => check(rec, "bool", value_ok(&json!(e), &json!(a), r, cascaded), || Matches::matches_with(e, *a, r, cascaded)),
        _ => { let _ = rec.no_panic("bool", || Matches::matches_with(e, *a, r, cascaded)); }
      }
    } }
  });
  // bytes
  let datas: Vec<Vec<u8>> = vec![vec![], b"1".to_vec(), b"a".to_vec(), b"a1".to_vec(), b"123456789".to_vec(), b"1234567890".to_vec(), b"12345678901".to_vec(), vec![0], vec![0xff, 0xfe], vec![0xc3], "é".as_bytes().to_vec(), b"123456789\xc3\xa9".to_vec(), vec![0x80; 12]];
  run.pairs("bytes", "every pair of byte strings under every rule, inherited or not", &datas, &datas, |e, a, rec| {
    rec.trace(); rec.state(&(e, a));
    let t = std::str::from_utf8(a).ok();
    for r in trules.iter().chain([ContentType("image/png".into()), Include("é".into())].iter()) { for cascaded in [false, true] {
      rec.case(format!("{:?} (expected {:?}) {:?}{}", a, e, r, if cascaded { " inherited" } else { "" }));
      let (eb, ab) = (Bytes::from(e.clone()), Bytes::from(a.clone()));
      let want = match r {
        Equality => e == a,
        Type | MinType(_) | MaxType(_) | MinMaxType(..) => true,
        Regex(x) => t.map(|t| regex_ok(x, t)).unwrap_or(false),
        Include(s) => t.map(|t| t.contains(s.as_str())).unwrap_or(false),
        NotEmpty => !a.is_empty(),
        EachKey(_) | EachValue(_) | Values => cascaded,
        ContentType(_) => { let _ = rec.no_panic("bytes", || Matches::matches_with(&eb, &ab, r, cascaded)); continue }
        _ => false,
      };
      check(rec, "bytes", want, || Matches::matches_with(&eb, &ab, r, cascaded));
      check(rec, "bytes", want, || Matches::matches_with(&eb, ab.clone(), r, cascaded));
      let want = match r {
        Equality => e == a,
        Type => true,
        MinType(n) => cascaded || a.len() >= *n,
        MaxType(n) => cascaded || a.len() <= *n,
        MinMaxType(n, m) => cascaded || (a.len() >= *n && a.len() <= *m),
        Regex(x) => regex_ok(x, t.unwrap_or("")),
        NotEmpty => !a.is_empty(),
        _ => { let _ = rec.no_panic("byte-list", || Matches::<&[u8]>::matches_with(e, a.as_slice(), r, cascaded)); continue }
      };
      check(rec, "byte-list", want, || Matches::<&[u8]>::matches_with(e, a.as_slice(), r, cascaded));
    } }
  });
  // collections
  let lists: Vec<Vec<String>> = (0..seq_count(2, 4)).map(|i| seq_at(i, 2).iter().map(|k| ["a", "b"][*k].to_string()).collect()).collect();
  run.pairs("collections", "every pair of lists up to length 4, and of maps, under every rule, inherited or not", &lists, &lists, |e, a, rec| {
    rec.trace(); rec.state(&(e, a));
    for r in &trules { for cascaded in [false, true] {
      rec.case(format!("{:?} (expected {:?}) {:?}{}", a, e, r, if cascaded { " inherited" } else { "" }));
      let len = |a: usize, same: bool| match r {
        Equality => Some(same),
        Type | Regex(_) | ArrayContains(_) | EachKey(_) | EachValue(_) | Values => Some(true),
        MinType(n) => Some(cascaded || a >= *n),
        MaxType(n) => Some(cascaded || a <= *n),
        MinMaxType(n, m) => Some(cascaded || (a >= *n && a <= *m)),
        NotEmpty => Some(a > 0),
        _ => None
      };
      if let Some(want) = len(a.len(), e == a) { check(rec, "list", want, || Matches::<&Vec<String>>::matches_with(&e, a, r, cascaded)); check(rec, "list", want, || Matches::<&[String]>::matches_with(&e.as_slice(), a.as_slice(), r, cascaded)); }
      let m = |l: &[String]| -> BTreeMap<String, String> { l.iter().enumerate().map(|(i, v)| (i.to_string(), v.clone())).collect() };
      let (em, am) = (m(e), m(a));
      if let Some(want) = len(am.len(), em == am) { check(rec, "map", want, || Matches::<&BTreeMap<String, String>>::matches_with(&em, &am, r, cascaded)); }
    } }
  });
  run.explore("status", "every status code under every class", 1 << 16, |i, rec| {
    rec.trace(); rec.case(format!("{}", i));
    for s in statuses() { check(rec, "status", status_ok(i, &s), || Matches::<u16>::matches_with(&200u16, i as u16, &StatusCode(s.clone()), false)); }
  });
  // combinations
  let comb = vec![Equality, Type, Regex("^\\d+$".into()), Include("1".into()), Integer, NotEmpty, Null, Boolean, Semver];
  let values = vec![json!(1), json!("1"), json!("a"), json!(""), json!(null), json!("1.0.0"), json!("true"), json!([1]), json!({})];
  let n = seq_count(comb.len(), 3);
  let bases = [n as usize, values.len(), values.len()];
  run.explore("combine", "every list of up to three rules, AND and OR, on every pair of values", space_size(&bases), |i, rec| {
    let d = digits(i, &bases);
    let rules: Vec<MatchingRule> = seq_at(d[0] as u64, comb.len()).iter().map(|k| comb[*k].clone()).collect();
    let (e, a) = (&values[d[1]], &values[d[2]]);
    for logic in [RuleLogic::And, RuleLogic::Or] {
      rec.case(format!("{} (expected {}) {:?} {:?}", a, e, rules, logic)); rec.trace();
      let l = RuleList { rules: rules.clone(), rule_logic: logic, cascaded: false };
      let combine = |ok: &dyn Fn(&MatchingRule) -> bool| !rules.is_empty() && match logic { RuleLogic::And => rules.iter().all(ok), RuleLogic::Or => rules.iter().any(ok) };
      check(rec, "combine", combine(&|r| value_ok(e, a, r, false)), || match_values(&path("$.a"), &l, e, a).map_err(|m| anyhow::anyhow!("{:?}", m)));
      if let (Value::String(e), Value::String(a)) = (e, a) { check(rec, "combine-text", combine(&|r| text_ok(e, a, r, false)), || match_values(&path("$.a"), &l, e.as_str(), a.as_str()).map_err(|m| anyhow::anyhow!("{:?}", m))); }
    }
  });
}
