//! C65: matcher definitions, comparing values, generating values and error messages through the C interface.
use crate::ffi::{t, taken, Guarded};
use mccore::{digits, seq_at, seq_count, space_size, Rec, Run};
use pact_ffi::error::pactffi_get_error_message;
use pact_ffi::matching::*;
use pact_ffi::mock_server::*;
use pact_ffi::models::expressions::*;
use pact_ffi::models::generators::*;
use pact_ffi::models::matching_rules::pactffi_matching_rule_to_json;
use pact_ffi::*;
use pact_matching::matchers::Matches;
use pact_models::generators::{Generator, GenerateValue, NoopVariantMatcher, VariantMatcher};
use pact_models::matchingrules::expressions::{is_matcher_def, parse_matcher_def, MatchingReference, MatchingRuleDefinition, ValueType};
use pact_models::matchingrules::{MatchingRule, RuleLogic};
use pact_models::message::Message;
use serde_json::{json, Value};
use std::ffi::CStr;
use std::os::raw::c_char;
use std::ptr::null;

fn seen(p: *const c_char) -> Option<String> { if p.is_null() { None } else { Some(unsafe { CStr::from_ptr(p) }.to_string_lossy().to_string()) } }
/// Definitions of one rule: how it is written, the number and the value it is known by.
const ATOMS: [(&str, u16, Option<&str>); 25] = [
  ("matching(equalTo, 'x')", 1, None), ("matching(regex, '\\\\d+', '12')", 2, Some("\\d+")), ("matching(type, 'x')", 3, None), ("matching(datetime, 'yyyy-MM', '2020-01')", 7, Some("yyyy-MM")), ("matching(time, 'HH', '11')", 8, Some("HH")),
  ("matching(date, 'dd', '02')", 9, Some("dd")), ("matching(include, 'x')", 10, Some("x")), ("matching(number, 1)", 11, None), ("matching(integer, 10)", 12, None), ("matching(decimal, 1.5)", 13, None),
  ("matching(boolean, true)", 18, None), ("matching(contentType, 'text/xml', '<a/>')", 15, Some("text/xml")), ("notEmpty('x')", 20, None), ("matching(semver, '1.2.3')", 21, None), ("eachKey(matching(regex, 'a|b', 'a'))", 22, None),
  ("eachValue(matching(type, 'x'))", 23, None), ("atLeast(2)", 4, Some("2")), ("atMost(30)", 5, Some("30")), ("matching($'name')", 0, Some("name")), ("matching(type, null)", 3, None),
  ("matching(regex, 'é', 'é')", 2, Some("é")), ("matching(include, '')", 10, Some("")), ("eachValue(matching($'item'))", 23, None), ("matching(date, 'yyyy-MM-dd', fromProviderState('${d}', '2020-01-02'))", 9, Some("yyyy-MM-dd")), ("matching(number, fromProviderState('${n}', 100))", 11, None),
];
/// What the C interface says about a definition.
fn c_definition(text: Option<&str>) -> Value {
  let d = pactffi_parse_matcher_definition(t(text).p());
  if d.is_null() { return Value::Null; }
  let g = pactffi_matcher_definition_generator(d);
  let it = pactffi_matcher_definition_iter(d);
  let mut rules = vec![];
  if !it.is_null() {
    loop {
      let r = pactffi_matching_rule_iter_next(it);
      if r.is_null() { break; }
      let p = pactffi_matching_rule_pointer(r);
      rules.push(json!([pactffi_matching_rule_id(r), seen(pactffi_matching_rule_value(r)), seen(pactffi_matching_rule_reference_name(r)), if p.is_null() { Value::Null } else { taken(pactffi_matching_rule_to_json(p)).map(|s| serde_json::from_str(&s).unwrap()).unwrap_or(json!("unresolved")) }]));
      if rules.len() > 50 { break; }
    }
    for _ in 0..3 { if !pactffi_matching_rule_iter_next(it).is_null() { rules.push(json!("more after the end")); } }
  }
  let v = json!({"value": taken(pactffi_matcher_definition_value(d)), "type": format!("{:?}", pactffi_matcher_definition_value_type(d)), "error": taken(pactffi_matcher_definition_error(d)),
    "generator": if g.is_null() { Value::Null } else { serde_json::from_str::<Value>(&taken(pactffi_generator_to_json(g)).unwrap()).unwrap() }, "rules": if it.is_null() { Value::Null } else { Value::Array(rules) }});
  if !it.is_null() { pactffi_matching_rule_iter_delete(it); }
  pactffi_matcher_definition_delete(d);
  v
}
fn described(d: &MatchingRuleDefinition, rules: Value) -> Value { json!({"value": d.value, "type": format!("{:?}", d.value_type), "error": null, "generator": d.generator.as_ref().map(|g| g.to_json().unwrap()), "rules": rules}) }
/// A rule with a reference cannot be written as JSON.
fn written(r: &MatchingRule) -> Value { let r = r.clone(); mccore::quiet(std::panic::AssertUnwindSafe(move || r.to_json())).unwrap_or(json!("unresolved")) }
/// The number and the value each kind of rule is documented with.
fn known(r: &MatchingRule) -> (u16, Option<String>) {
  use MatchingRule::*;
  match r { Equality => (1, None), Regex(s) => (2, Some(s.clone())), Type => (3, None), MinType(n) => (4, Some(n.to_string())), MaxType(n) => (5, Some(n.to_string())), MinMaxType(a, b) => (6, Some(format!("{}:{}", a, b))), Timestamp(s) => (7, Some(s.clone())), Time(s) => (8, Some(s.clone())), Date(s) => (9, Some(s.clone())),
    Include(s) => (10, Some(s.clone())), Number => (11, None), Integer => (12, None), Decimal => (13, None), Null => (14, None), ContentType(s) => (15, Some(s.clone())), ArrayContains(_) => (16, None), Values => (17, None), Boolean => (18, None), StatusCode(_) => (19, None), NotEmpty => (20, None), Semver => (21, None), EachKey(_) => (22, None), EachValue(_) => (23, None) }
}
fn all_rules() -> Vec<MatchingRule> {
  use MatchingRule::*;
  let d = parse_matcher_def("matching(type, 'x')").unwrap();
  vec![Equality, Regex("\\d+".into()), Regex("a".into()), Regex("[".into()), Regex("true|null".into()), Type, MinType(2), MaxType(2), MinMaxType(1, 2), Timestamp("yyyy-MM-dd".into()), Time("HH:mm".into()), Date("yyyy-MM-dd".into()), Date("'".into()), Include("a".into()), Include("1".into()), Number, Integer, Decimal, Null, ContentType("text/plain".into()), ContentType("application/json".into()), ArrayContains(vec![]), Values, Boolean,
    StatusCode(pact_models::HttpStatus::Success), StatusCode(pact_models::HttpStatus::StatusCodes(vec![200, 12])), NotEmpty, Semver, EachKey(d.clone()), EachValue(d)]
}
fn verdict(r: anyhow::Result<()>) -> Option<String> { r.err().map(|e| e.to_string()) }
/// The same verdict as the comparison in this language; the answer is the caller's to release.
fn compared(rec: &mut Rec, want: impl FnOnce() -> Option<String> + std::panic::UnwindSafe, call: impl Fn() -> *const c_char) {
  rec.steps(1);
  let got = taken(call());
  match mccore::quiet(want) {
    Ok(w) => { rec.outcome(if w.is_none() { "same" } else { "different" }); rec.state(&w); rec.eq("verdict", &w.map(|s| s.split('\0').next().unwrap().to_string()), &got); }
    Err(_) => { rec.check(got.is_some(), "panic", || "a comparison that panics is a match".into()); }
  }
  let leak = crate::alloc::kept(|| { taken(call()); });
  rec.check(leak.is_none(), "released", || format!("(blocks, bytes) {:?} are left each time", leak));
}
fn result(r: StringResult) -> Result<String, String> { match r { StringResult::Ok(p) => Ok(taken(p as *const _).unwrap_or_else(|| "NULL".into())), StringResult::Failed(p) => Err(taken(p as *const _).unwrap_or_else(|| "NULL".into())) } }

pub fn c65(run: &Run) {
  run.assume("Comparisons are judged by the comparison functions of pact_matching (checked by C33 and C35), definitions by the parser of pact_models (checked by C14); texts with zero bytes are not given to the C interface.");
  // Definitions
  let len = if run.thorough { 3 } else { 2 };
  run.explore("definitions", "sequences of rule definitions, with what each rule is known by", seq_count(ATOMS.len(), len), |i, rec| {
    let l = seq_at(i, ATOMS.len());
    let text = l.iter().map(|k| ATOMS[*k].0).collect::<Vec<_>>().join(", ");
    rec.case(text.clone());
    rec.steps(1);
    let got = c_definition(Some(&text));
    if text.is_empty() { rec.check(got["error"].is_string() && got["value"].is_null() && got["rules"].is_null() && got["type"] == "Unknown", "empty", || got.to_string()); return; }
    match parse_matcher_def(&text) {
      Ok(d) => {
        rec.outcome("defined");
        let rules: Vec<Value> = l.iter().zip(&d.rules).map(|(k, r)| { let (_, id, value) = ATOMS[*k]; match r { either::Either::Left(r) => json!([id, value, null, written(r)]), either::Either::Right(_) => json!([0, null, value, null]) } }).collect();
        rec.eq("number of rules", &l.len(), &d.rules.len());
        rec.state(&got.to_string());
        rec.eq("definition", &described(&d, Value::Array(rules)), &got);
      }
      Err(e) => { rec.outcome("error"); rec.eq("error", &json!({"value": null, "type": "Unknown", "error": e.to_string(), "generator": null, "rules": null}), &got); }
    }
    let leak = crate::alloc::kept(|| { c_definition(Some(&text)); });
    rec.check(leak.is_none(), "released", || format!("(blocks, bytes) {:?} are left each time", leak));
  });
  // Texts that are changed in one place
  let mut changed: Vec<String> = vec!["plain text".into(), "matching".into(), "matching(".into(), " ".into(), "eachKey".into(), "é".into(), "matching type".into()];
  for (a, ..) in ATOMS { let c: Vec<char> = a.chars().collect(); for n in 0..c.len() { let mut x = c.clone(); x.remove(n); changed.push(x.iter().collect()); for w in [' ', ')', '\'', '$', '9'] { let mut x = c.clone(); x[n] = w; changed.push(x.iter().collect()); } } changed.push(format!("{},", a)); changed.push(format!(" {}", a)); changed.push(format!("{}x", a)); }
  changed.sort(); changed.dedup();
  run.explore("changed definitions", "definitions with one character removed or replaced", changed.len() as u64, |i, rec| {
    let text = &changed[i as usize];
    rec.case(text.clone());
    rec.steps(1);
    let got = c_definition(Some(text));
    rec.state(&got.to_string());
    let want = if !is_matcher_def(text) { json!({"value": text, "type": "String", "error": null, "generator": null, "rules": []}) }
      else { match parse_matcher_def(text) { Ok(d) => described(&d, Value::Array(d.rules.iter().map(|r| match r { either::Either::Left(r) => { let (id, v) = known(r); json!([id, v, null, written(r)]) } either::Either::Right(r) => json!([0, null, r.name, null]) }).collect())), Err(e) => json!({"value": null, "type": "Unknown", "error": e.to_string(), "generator": null, "rules": null}) } };
    rec.outcome(if want["error"].is_null() { "defined" } else { "error" });
    rec.eq("definition", &want, &got);
  });
  // Every kind of rule, also those that no definition has
  let rules = all_rules();
  run.explore("kinds of rules", "what rules of each kind are known by, alone and before a reference", rules.len() as u64 * 2, |i, rec| {
    let r = &rules[i as usize / 2];
    rec.case(format!("{:?}{}", r, if i % 2 == 0 { "" } else { " and a reference" }));
    rec.steps(1);
    rec.state(&i);
    let mut d = MatchingRuleDefinition::new("x".into(), ValueType::String, r.clone(), None, "".into());
    if i % 2 == 1 { d.rules.push(either::Either::Right(MatchingReference { name: "other".into() })); }
    let mut it = MatchingRuleIterator::new(&d);
    let (id, value) = known(r);
    let a = pactffi_matching_rule_iter_next(&mut it);
    rec.eq("rule", &(id, value, None, Some(r.to_json())), &(pactffi_matching_rule_id(a), seen(pactffi_matching_rule_value(a)), seen(pactffi_matching_rule_reference_name(a)), taken(pactffi_matching_rule_to_json(pactffi_matching_rule_pointer(a))).map(|s| serde_json::from_str::<Value>(&s).unwrap())));
    let b = pactffi_matching_rule_iter_next(&mut it);
    if i % 2 == 0 { rec.check(b.is_null(), "end", || "another rule".into()); return; }
    rec.eq("reference", &(0, None, Some("other".to_string()), true), &(pactffi_matching_rule_id(b), seen(pactffi_matching_rule_value(b)), seen(pactffi_matching_rule_reference_name(b)), pactffi_matching_rule_pointer(b).is_null()));
  });
  // Comparing values
  let texts = ["", "a", "A", "banana", "12", "-1", "1.5", "true", "null", "2020-02-30", "2020-02-03", "11:20", "1.2.3", "é", "no \u{1f600}", " "];
  run.explore("text values", "texts compared with each kind of rule", space_size(&[rules.len(), texts.len(), texts.len(), 3]), |i, rec| {
    let d = digits(i, &[rules.len(), texts.len(), texts.len(), 3]);
    let (r, e, a, c) = (&rules[d[0]], texts[d[1]], texts[d[2]], [0u8, 1, 255][d[3]]);
    rec.case(format!("{:?}, expected {:?}, actual {:?}, cascaded {}", r, e, a, c));
    rec.steps(1);
    let (x, y) = (t(e), t(a));
    compared(rec, || verdict(e.matches_with(a, r, c > 0)), || pactffi_matches_string_value(r, x.p(), y.p(), c));
  });
  let unsigned = [0u64, 1, 12, 200, u64::MAX, 1 << 63, 404];
  let signed = [0i64, 1, 12, 200, -1, i64::MIN, i64::MAX, -12];
  let floats = [0.0f64, 1.0, 12.5, -1.25, 200.0, 1e300, -0.0, 1e-7, 123456789.125, f64::MAX, 0.1];
  run.explore("number values", "numbers and booleans compared with each kind of rule", (rules.len() * (7 * 7 + 8 * 8 + 11 * 11 + 3 * 3) * 2) as u64, |i, rec| {
    let (r, c, k) = (&rules[i as usize % rules.len()], (i as usize / rules.len() % 2) as u8, i as usize / rules.len() / 2);
    if k < 49 { let (e, a) = (unsigned[k / 7], unsigned[k % 7]); rec.case(format!("{:?}, unsigned {} and {}, cascaded {}", r, e, a, c)); compared(rec, || verdict(e.matches_with(a, r, c > 0)), || pactffi_matches_u64_value(r, e, a, c)); }
    else if k < 49 + 64 { let k = k - 49; let (e, a) = (signed[k / 8], signed[k % 8]); rec.case(format!("{:?}, signed {} and {}, cascaded {}", r, e, a, c)); compared(rec, || verdict(e.matches_with(a, r, c > 0)), || pactffi_matches_i64_value(r, e, a, c)); }
    else if k < 49 + 64 + 121 { let k = k - 49 - 64; let (e, a) = (floats[k / 11], floats[k % 11]); rec.case(format!("{:?}, floating {} and {}, cascaded {}", r, e, a, c)); compared(rec, || verdict(e.matches_with(a, r, c > 0)), || pactffi_matches_f64_value(r, e, a, c)); }
    else { let k = k - 49 - 64 - 121; let (e, a) = ([0u8, 1, 255][k / 3], [0u8, 1, 255][k % 3]); rec.case(format!("{:?}, boolean {} and {}, cascaded {}", r, e, a, c)); compared(rec, || verdict((e > 0).matches_with(a > 0, r, c > 0)), || pactffi_matches_bool_value(r, e, a, c)); }
  });
  let bytes: [&[u8]; 7] = [b"a", b"", b"text\n", b"{\"a\": 1}", b"\xff\x00\xfe", b"GIF89a\x01\x00\x01\x00\x80\x00\x00", b"12"];
  run.explore("binary values", "bytes that end where memory ends compared with each kind of rule", space_size(&[rules.len(), 7, 7, 2]), |i, rec| {
    let d = digits(i, &[rules.len(), 7, 7, 2]);
    let (r, e, a, c) = (&rules[d[0]], bytes[d[1]], bytes[d[2]], d[3] as u8);
    rec.case(format!("{:?}, expected {:?}, actual {:?}, cascaded {}", r, e, a, c));
    rec.steps(1);
    let (x, y) = (Guarded::new(e), Guarded::new(a));
    compared(rec, || verdict(bytes::Bytes::copy_from_slice(e).matches_with(bytes::Bytes::copy_from_slice(a), r, c > 0)), || pactffi_matches_binary_value(r, x.p(), e.len(), y.p(), a.len(), c));
  });
  let values = ["null", "true", "0", "12", "-1", "1.0", "1.5", "\"a\"", "\"12\"", "\"\"", "[]", "[1]", "[1,2,3]", "{}", "{\"a\":1}", "{\"b\":\"x\",\"a\":2}", "\"2020-02-03\"", "{", "", " 12 "];
  run.explore("JSON values", "JSON texts compared with each kind of rule", space_size(&[rules.len(), values.len(), values.len(), 2]), |i, rec| {
    let d = digits(i, &[rules.len(), values.len(), values.len(), 2]);
    let (r, e, a, c) = (&rules[d[0]], values[d[1]], values[d[2]], d[3] as u8);
    rec.case(format!("{:?}, expected {}, actual {}, cascaded {}", r, e, a, c));
    rec.steps(1);
    let (x, y) = (t(e), t(a));
    let call = || pactffi_matches_json_value(r, x.p(), y.p(), c);
    match (serde_json::from_str::<Value>(e), serde_json::from_str::<Value>(a)) {
      (Ok(e), Ok(a)) => compared(rec, || verdict(e.matches_with(a.clone(), r, c > 0)), call),
      (e, _) => { let m = taken(call()); let start = if e.is_err() { "Failed to parse expected JSON" } else { "Failed to parse actual JSON" }; rec.check(m.as_ref().map_or(false, |m| m.starts_with(start)), "invalid JSON", || format!("answer is {:?}", m)); }
    }
  });
  let bad: Vec<(&str, fn() -> *const c_char)> = vec![
    ("text, no rule", || pactffi_matches_string_value(null(), t("a").p(), t("a").p(), 0)), ("text, no expected value", || pactffi_matches_string_value(&MatchingRule::Type, null(), t("a").p(), 0)), ("text, no actual value", || pactffi_matches_string_value(&MatchingRule::Type, t("a").p(), null(), 0)),
    ("text that is no UTF-8", || pactffi_matches_string_value(&MatchingRule::Type, t("a").p(), t(&b"\xff"[..]).p(), 0)), ("unsigned, no rule", || pactffi_matches_u64_value(null(), 1, 1, 0)), ("signed, no rule", || pactffi_matches_i64_value(null(), 1, 1, 0)), ("floating, no rule", || pactffi_matches_f64_value(null(), 1.0, 1.0, 0)), ("boolean, no rule", || pactffi_matches_bool_value(null(), 1, 1, 0)),
    ("bytes, no rule", || pactffi_matches_binary_value(null(), b"a".as_ptr(), 1, b"a".as_ptr(), 1, 0)), ("JSON, no rule", || pactffi_matches_json_value(null(), t("1").p(), t("1").p(), 0)), ("JSON, no expected value", || pactffi_matches_json_value(&MatchingRule::Type, null(), t("1").p(), 0)), ("JSON, no actual value", || pactffi_matches_json_value(&MatchingRule::Type, t("1").p(), null(), 0)),
  ];
  run.explore("missing values", "comparisons without a rule or a value are no match", bad.len() as u64, |i, rec| {
    let (name, f) = bad[i as usize];
    rec.case(name.to_string());
    rec.state(name);
    let m = taken(f());
    rec.check(m.as_ref().map_or(false, |m| !m.is_empty()), "match", || format!("answer is {:?}", m));
  });
  // Regular expressions
  let atoms = ["", "a", "[a-c]", "\\d", "\\w+", "a|b", "(ab)?", "x*", "a{2,3}", ".", "[^a]", "^", "$", "\\b", "é", "[é-ü]", "\\x00", "\\.", "(?i)k", "\\p{L}", "(", "[", "*", "\\s", "(?:1|22)", "\\pZ", "[[:alpha:]]", "\\u00e9", "(?-u:\\xff)"];
  // what a value can be generated for, always
  let plain = [true, true, true, true, true, true, true, true, true, false, false, false, false, false, false, false, false, true, true, false, false, false, false, true, true, false, true, false, false];
  let k = if run.thorough { 3 } else { 2 };
  run.explore("regex values", "values generated for regular expressions match them", seq_count(atoms.len(), k), |i, rec| {
    let l = seq_at(i, atoms.len());
    let text: String = l.iter().map(|k| atoms[*k]).collect();
    rec.case(format!("{:?}", text));
    rec.steps(1);
    // a repetition or a flag may act on its neighbours
    let valid = regex::Regex::new(&format!("^(?:{})$", text));
    let anchors = text.contains('^') && !text.contains("[^") || text.contains('$') || text.contains("\\b");
    for _ in 0..3 {
      match result(unsafe { pactffi_generate_regex_value(t(&text).p()) }) {
        Ok(v) => { rec.outcome("value"); rec.state(&(&text, v.len())); match &valid { Ok(re) => if !anchors { rec.check(re.is_match(&v), "no match", || format!("generated {:?}", v)); } Err(e) => rec.fail("value of an invalid expression", format!("{:?} for {}", v, e)) } }
        Err(e) => { rec.outcome("error"); let ok = valid.is_ok() && l.iter().all(|k| plain[*k]); rec.check(!ok && !e.is_empty(), "no value", || e); }
      }
    }
    let leak = crate::alloc::kept(|| { let _ = result(unsafe { pactffi_generate_regex_value(t(&text).p()) }); });
    rec.check(leak.is_none(), "released", || format!("(blocks, bytes) {:?} are left each time", leak));
  });
  let examples = ["", "a", "ab", "b", "k", "K", "12", "xx", "é", "\n", "a.b", " "];
  run.explore("checked regex", "examples checked against regular expressions", space_size(&[atoms.len(), atoms.len(), examples.len() + 2]), |i, rec| {
    let d = digits(i, &[atoms.len(), atoms.len(), examples.len() + 2]);
    let text = format!("{}{}", atoms[d[0]], atoms[d[1]]);
    let e = examples.get(d[2]);
    rec.case(format!("{:?} and {:?}", text, e));
    rec.steps(1);
    // the whole of the example has to match
    let want = regex::Regex::new(&text).is_ok() && regex::Regex::new(&format!(r"\A(?:{})\z", text)).map(|r| r.is_match(e.unwrap_or(&""))).unwrap_or(false);
    rec.state(&(d[2], want));
    rec.outcome(if want { "matches" } else { "does not" });
    let x = match (e, d[2] - examples.len().min(d[2])) { (Some(e), _) => t(*e), (None, 0) => t(None), _ => t(&b"\xff"[..]) };
    rec.eq("match", &want, &unsafe { pactffi_check_regex(t(&text).p(), x.p()) });
  });
  // Dates and times
  let formats = ["yyyy-MM-dd", "HH:mm:ss", "yyyy", "'T'HH", "''", "'", "EEE", "qqq", "yyyy-MM-dd'T'HH:mm:ssXXX", "'%Q'", "%", "%%", "%Q", "dd%MM", "a", "z", "VV", "SSSSSSSSS", "é", "'é'", "%Y", "%:", "{", "b", "yyyyy", "w", "Q", "G"];
  run.explore("dates", "values generated for formats of dates and times, and sequences of two of them, are valid", seq_count(formats.len(), 2), |i, rec| {
    let text: String = seq_at(i, formats.len()).iter().map(|k| formats[*k]).collect();
    rec.case(text.clone());
    rec.steps(1);
    let r = result(unsafe { pactffi_generate_datetime_string(t(&text).p()) });
    rec.state(&(text.len(), r.is_ok()));
    let ok = pact_models::time_utils::parse_pattern(&text).is_ok();
    match r {
      Ok(v) => { rec.outcome("value"); rec.check(ok, "value of an invalid format", || v.clone());
        let want = if v.is_empty() || text.is_empty() { 1 } else { i32::from(pact_models::time_utils::validate_datetime(&v, &text).is_err()) };
        rec.eq("validated", &want, &pactffi_validate_datetime(t(&v).p(), t(&text).p())); }
      Err(e) => { rec.outcome("error"); rec.check(!ok && e.contains(&text), "no value", || e); }
    }
    let leak = crate::alloc::kept(|| { let _ = result(unsafe { pactffi_generate_datetime_string(t(&text).p()) }); });
    rec.check(leak.is_none(), "released", || format!("(blocks, bytes) {:?} are left each time", leak));
  });
  let dates = ["", "2020-02-30", "2020-02-29", "11:20:30", "2020", "'", "é", "2020-02-29T11:20:30+10:00", "T11", "AM"];
  run.explore("valid dates", "values validated with a format; the message of a failure", space_size(&[dates.len() + 2, formats.len() + 3]), |i, rec| {
    let d = digits(i, &[dates.len() + 2, formats.len() + 3]);
    let arg = |l: &[&'static str], k: usize| -> Option<Result<&'static str, ()>> { if k < l.len() { Some(Ok(l[k])) } else if k == l.len() { None } else if k == l.len() + 1 { Some(Err(())) } else { Some(Ok("")) } };
    let (v, f) = (arg(&dates, d[0]), arg(&formats, d[1]));
    rec.case(format!("{:?} and {:?}", v, f));
    rec.steps(1);
    let c = |a: Option<Result<&'static str, ()>>| match a { None => t(None), Some(Ok(s)) => t(s), Some(Err(_)) => t(&b"\xff"[..]) };
    message();
    let r = pactffi_validate_datetime(c(v).p(), c(f).p());
    let m = message();
    rec.state(&(r, &m));
    match (v, f) {
      (Some(Ok("")), Some(Ok(_))) => { rec.eq("empty value", &(1, Some("Date/Time value string is empty".to_string())), &(r, m)); }
      (Some(Ok(_)), Some(Ok(""))) => { rec.eq("empty format", &(1, Some("Date/Time format string is empty".to_string())), &(r, m)); }
      (Some(Ok(v)), Some(Ok(f))) => { let ok = pact_models::time_utils::validate_datetime(&v.to_string(), &f.to_string()).is_ok(); rec.outcome(if ok { "valid" } else { "invalid" }); rec.eq("answer", &(i32::from(!ok), if ok { None } else { Some(format!("Date/Time string '{}' does not match pattern '{}'", v, f)) }), &(r, m)); }
      _ => { rec.check(r == 2 && m.is_some(), "no value", || format!("answer is {} and {:?}", r, m)); }
    }
  });
  // Error messages and buffers
  let long = "x".repeat(300);
  let causes: Vec<(String, String)> = vec![("".into(), "Date/Time value string is empty".into()), ("12".into(), "Date/Time string '12' does not match pattern 'yyyy-MM'".into()), ("é".into(), "Date/Time string 'é' does not match pattern 'yyyy-MM'".into()), (long.clone(), format!("Date/Time string '{}' does not match pattern 'yyyy-MM'", long))];
  run.explore("messages", "error messages written into buffers of all sizes", (causes.len() * 380 * 3) as u64, |i, rec| {
    let d = digits(i, &[causes.len(), 380, 3]);
    let (cause, want) = &causes[d[0]];
    let n = d[1];
    rec.case(format!("message {:?}, buffer of {} bytes, filled with {}", &want[..want.len().min(60)], n, d[2]));
    rec.steps(1);
    rec.state(&d);
    message();
    pactffi_validate_datetime(t(cause).p(), t("yyyy-MM").p());
    if d[2] == 2 { rec.eq("no buffer", &-1, &pactffi_get_error_message(std::ptr::null_mut(), n as i32)); }
    let fill = [0u8, b'#', 0xff][d[2]];
    let mut buffer = vec![fill; n + 8];
    let r = pactffi_get_error_message(buffer.as_mut_ptr() as *mut c_char, n as i32);
    rec.check(buffer[n..].iter().all(|b| *b == fill), "written beyond the buffer", || format!("{:?}", &buffer[n..]));
    let whole = want.len() + 1;
    if n < whole { rec.eq("too small", &-2, &r); rec.outcome("too small"); }
    else {
      rec.outcome("written");
      rec.eq("bytes", &(whole as i32), &r);
      rec.eq("message", want, &String::from_utf8_lossy(&buffer[..want.len()]).to_string());
      rec.check(buffer[want.len()..n].iter().all(|b| *b == 0), "rest", || format!("{:?}", &buffer[want.len()..n]));
      let mut again = [b'#'; 8];
      rec.eq("message again", &(1, 0), &(pactffi_get_error_message(again.as_mut_ptr() as *mut c_char, 8), again[0]));
    }
  });
  // Generators
  let gens: Vec<Generator> = vec![Generator::RandomInt(5, 5), Generator::RandomInt(0, 9), Generator::RandomDecimal(4), Generator::RandomHexadecimal(6), Generator::RandomString(7), Generator::RandomString(0), Generator::Uuid(None), Generator::Uuid(Some(pact_models::generators::UuidFormat::Simple)), Generator::Regex("a{3}".into()), Generator::Regex("[".into()), Generator::RandomBoolean, Generator::Date(Some("yyyy".into()), None), Generator::Date(Some("'".into()), None), Generator::Time(Some("'x'".into()), None), Generator::ProviderStateGenerator("${a}".into(), None), Generator::ProviderStateGenerator("a".into(), Some(pact_models::expression_parser::DataType::INTEGER)), Generator::ProviderStateGenerator("${b} and ${a}".into(), Some(pact_models::expression_parser::DataType::STRING)),
    Generator::MockServerURL("http://x/p".into(), ".*(/p)$".into()), Generator::ArrayContains(vec![])];
  let contexts = [None, Some(""), Some("{}"), Some("{\"a\": 12}"), Some("{\"a\": \"12\", \"b\": \"x\"}"), Some("{\"a\": \"no number\"}"), Some("{\"a\": -5, \"b\": null}"), Some("[1]"), Some("{"), Some("{\"mockServer\": {\"href\": \"http://localhost:1234\"}}"), Some("{\"a\": 70000}"), Some("null")];
  run.explore("generators", "texts and numbers from generators with all contexts", space_size(&[gens.len(), contexts.len(), 2]), |i, rec| {
    let d = digits(i, &[gens.len(), contexts.len(), 2]);
    let (g, c) = (&gens[d[0]], contexts[d[1]]);
    rec.case(format!("{:?} with {:?} as {}", g, c, ["text", "number"][d[2]]));
    rec.steps(1);
    let map = match c { None | Some("") => Some(serde_json::Map::new()), Some(s) => serde_json::from_str::<Value>(s).ok().map(|v| v.as_object().cloned().unwrap_or_default()) };
    let same = |s: &str| -> String { s.chars().map(|c| if c.is_ascii_digit() { '9' } else if c.is_ascii_alphabetic() { 'a' } else { c }).collect() };
    let exact = !matches!(g, Generator::RandomInt(0, 9) | Generator::RandomDecimal(_) | Generator::RandomHexadecimal(_) | Generator::RandomString(_) | Generator::Uuid(_) | Generator::RandomBoolean);
    if d[2] == 0 {
      let want = map.and_then(|m| mccore::quiet(|| { let m = m.iter().map(|(k, v)| (k.as_str(), v.clone())).collect(); g.generate_value(&"".to_string(), &m, &NoopVariantMatcher.boxed()).ok() }).ok().flatten());
      let got = taken(pactffi_generator_generate_string(g, t(c).p()));
      rec.state(&want.is_some());
      rec.outcome(if want.is_some() { "text" } else { "no text" });
      if exact { rec.eq("text", &want, &got); } else { rec.eq("length", &want.as_ref().map(|w| if matches!(g, Generator::Uuid(_) | Generator::RandomInt(..)) { w.len() } else { w.chars().count() }).filter(|_| !matches!(g, Generator::RandomBoolean)), &got.as_ref().map(|w| w.chars().count()).filter(|_| !matches!(g, Generator::RandomBoolean))); if let (Generator::RandomInt(..) | Generator::RandomBoolean, Some(w), Some(g)) = (g, &want, &got) { let _ = same(w); rec.check(g.parse::<i32>().is_ok() || g == "true" || g == "false", "text of a number", || g.clone()); } }
      let leak = crate::alloc::kept(|| { taken(pactffi_generator_generate_string(g, t(c).p())); });
      rec.check(leak.is_none(), "released", || format!("(blocks, bytes) {:?} are left each time", leak));
    } else {
      let want: u16 = map.and_then(|m| mccore::quiet(|| { let m = m.iter().map(|(k, v)| (k.as_str(), v.clone())).collect(); g.generate_value(&0u16, &m, &NoopVariantMatcher.boxed()).ok() }).ok().flatten()).unwrap_or(0);
      let got = pactffi_generator_generate_integer(g, t(c).p());
      rec.state(&want);
      rec.outcome(if want == 0 { "zero" } else { "number" });
      if let Generator::RandomInt(0, 9) = g { rec.check(got <= 9, "number", || got.to_string()); } else if exact { rec.eq("number", &want, &got); }
    }
  });
  // Messages compared
  let contents = ["", "text", "other", "{\"a\":1}", "{\"a\":\"1\",\"b\":[]}", "<a/>"];
  let types = [None, Some("text/plain"), Some("application/json"), Some("application/xml")];
  let metas = ["{}", "{\"k\":\"v\"}", "{\"k\":\"w\",\"l\":1}"];
  let rulesets = ["{}", "{\"body\":{\"$\":{\"combine\":\"AND\",\"matchers\":[{\"match\":\"type\"}]}}}", "{\"body\":{\"$.a\":{\"combine\":\"AND\",\"matchers\":[{\"match\":\"regex\",\"regex\":\"\\\\d+\"}]}},\"metadata\":{\"k\":{\"combine\":\"AND\",\"matchers\":[{\"match\":\"type\"}]}}}"];
  let message_of = |c: usize, ty: usize, m: usize, r: usize| -> Message {
    let mut v = json!({"description": "m", "metaData": serde_json::from_str::<Value>(metas[m]).unwrap(), "matchingRules": serde_json::from_str::<Value>(rulesets[r]).unwrap()});
    if let Some(ty) = types[ty] { v["metaData"]["contentType"] = json!(ty); }
    if c > 0 { v["contents"] = serde_json::from_str(contents[c]).ok().filter(|_| ty == 2).unwrap_or_else(|| json!(contents[c])); }
    Message::from_json(0, &v, &pact_models::PactSpecification::V3).unwrap()
  };
  let bases = [contents.len(), types.len(), metas.len(), rulesets.len(), contents.len(), types.len(), metas.len()];
  run.explore("messages compared", "mismatches of two messages and what is said about each", space_size(&bases), |i, rec| {
    let d = digits(i, &bases);
    rec.case(format!("{:?} as {:?} with {} and rules {}, actual {:?} as {:?} with {}", contents[d[0]], types[d[1]], metas[d[2]], rulesets[d[3]], contents[d[4]], types[d[5]], metas[d[6]]));
    rec.steps(1);
    let (e, a) = (message_of(d[0], d[1], d[2], d[3]), message_of(d[4], d[5], d[6], 0));
    let native = || -> Vec<Value> {
      let (e, a): (Box<dyn pact_models::interaction::Interaction + Send + Sync + std::panic::RefUnwindSafe>, Box<dyn pact_models::interaction::Interaction + Send + Sync + std::panic::RefUnwindSafe>) = (Box::new(e.clone()), Box::new(a.clone()));
      let p: Box<dyn pact_models::pact::Pact + Send + Sync + std::panic::RefUnwindSafe> = Box::new(pact_models::v4::pact::V4Pact::default());
      let l = tokio::runtime::Builder::new_current_thread().build().unwrap().block_on(pact_matching::match_message(&e, &a, &p));
      l.iter().map(|m| json!([m.to_json(), m.mismatch_type(), m.summary(), m.description(), m.ansi_description()])).collect()
    };
    let c = || -> Vec<Value> {
      let l = pactffi_match_message(Box::into_raw(Box::new(e.clone())), Box::into_raw(Box::new(a.clone())));
      let it = pactffi_mismatches_get_iter(l);
      let mut out = vec![];
      loop { let m = pactffi_mismatches_iter_next(it); if m.is_null() || out.len() > 100 { break; } out.push(json!([serde_json::from_str::<Value>(&taken(pactffi_mismatch_to_json(m)).unwrap()).unwrap(), taken(pactffi_mismatch_type(m)), taken(pactffi_mismatch_summary(m)), taken(pactffi_mismatch_description(m)), taken(pactffi_mismatch_ansi_description(m))])); }
      for _ in 0..2 { if !pactffi_mismatches_iter_next(it).is_null() { out.push(json!("more after the end")); } }
      pactffi_mismatches_iter_delete(it);
      pactffi_mismatches_delete(l);
      out
    };
    let sort = |mut l: Vec<Value>| { l.sort_by_key(|v| v.to_string()); l };
    let want = sort(native());
    rec.state(&format!("{:?}", want));
    rec.outcome(&format!("{} mismatches", want.len()));
    rec.eq("mismatches", &want, &sort(c()));
    if i % 7 == 0 { let leak = crate::alloc::kept(|| { c(); }); rec.check(leak.is_none(), "released", || format!("(blocks, bytes) {:?} are left each time", leak)); }
  });
  let _ = RuleLogic::And;
}
/// The message of the last failure of this thread, which is then gone.
fn message() -> Option<String> {
  let mut b = vec![0u8; 2000];
  let n = pactffi_get_error_message(b.as_mut_ptr() as *mut c_char, 2000);
  if n <= 1 { None } else { Some(String::from_utf8_lossy(&b[..n as usize - 1]).to_string()) }
}
