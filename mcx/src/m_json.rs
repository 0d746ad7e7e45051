use crate::jmodel::{self, compare, path, Ctx, Out};
use mccore::{digits, space_size, Rec, Run};
use pact_matching::json::match_json;
use pact_matching::{CoreMatchingContext, DiffConfig, Mismatch};
use pact_models::bodies::OptionalBody;
use pact_models::generators::Generator;
use pact_models::matchingrules::expressions::{MatchingRuleDefinition, ValueType};
use pact_models::matchingrules::{Category, MatchingRule, MatchingRuleCategory, RuleLogic};
use pact_models::path_exp::DocPath;
use pact_models::v4::http_parts::HttpRequest;
use serde_json::{json, Value};
use std::collections::{BTreeSet, HashMap};

pub fn def(rules: Vec<MatchingRule>) -> MatchingRuleDefinition {
  MatchingRuleDefinition { value: "x".into(), value_type: ValueType::Unknown, rules: rules.into_iter().map(either::Either::Left).collect(), generator: None::<Generator>, expression: String::new() }
}
pub fn variant(i: usize, rules: Vec<(&str, MatchingRule)>) -> (usize, MatchingRuleCategory, HashMap<DocPath, Generator>) {
  let mut c = MatchingRuleCategory::empty(Category::BODY);
  for (p, r) in rules { c.add_rule(path(p), r, RuleLogic::And); }
  (i, c, HashMap::new())
}

pub fn docs() -> Vec<Value> {
  vec![json!(null), json!(true), json!(1), json!(2), json!(1.5), json!("a"), json!("ab"), json!(""), json!("1"), json!("2001-02-03"),
    json!([]), json!([1]), json!([2]), json!([1, 2]), json!([1, 2, 3]), json!(["a"]), json!(["a", 1]), json!([null]), json!([[]]), json!([[1], [2, 3]]), json!([{}]), json!([{"a": 1}]), json!([{"a": 1}, {"a": 2}]), json!([{"a": 1}, {"a": "x"}, {"b": 1}]),
    json!({}), json!({"a": 1}), json!({"a": 2}), json!({"a": "a"}), json!({"a": null}), json!({"b": 1}), json!({"a": 1, "b": 2}), json!({"a": 1, "b": "x", "c": true}), json!({"a": []}), json!({"a": [1]}), json!({"a": [1, 2]}), json!({"a": ["x", 2], "b": 1}),
    json!({"a": {}}), json!({"a": {"b": 1}}), json!({"a": {"b": "x"}}), json!({"a": {"b": 1, "c": 2}}), json!({"a": {"b": [1]}}), json!({"a": [{"b": 1}]}), json!({"a": [{"b": 1}, {"b": 2}]}), json!({"a": [{"b": 1}, {"c": "x"}]}), json!({"0": 1}), json!({"a b": 1, "é": 2})]
}
pub fn rules() -> Vec<MatchingRule> {
  use MatchingRule::*;
  vec![Equality, Type, MinType(1), MinType(2), MaxType(1), MaxType(0), MinMaxType(1, 2), Regex("^a".into()), Regex("a.*".into()), Regex("^\\d+$".into()), Regex("[".into()), Include("a".into()), Number, Integer, Decimal, Boolean, Null, NotEmpty, Semver, Date("".into()), Time("HH".into()), Timestamp("".into()),
    StatusCode(pact_models::HttpStatus::Success), Values, EachKey(def(vec![Regex("^a".into())])), EachKey(def(vec![Type, Include("b".into())])), EachValue(def(vec![Type])), EachValue(def(vec![Integer])), EachValue(def(vec![Equality])),
    ArrayContains(vec![]), ArrayContains(vec![variant(0, vec![("$", Type)])]), ArrayContains(vec![variant(0, vec![]), variant(1, vec![("$.a", Type)])]), ArrayContains(vec![variant(0, vec![("$.*", Integer)])])]
}

pub fn with_body(v: &Value) -> HttpRequest {
  HttpRequest { body: OptionalBody::Present(v.to_string().into(), Some(pact_models::content_types::JSON.clone()), None), ..HttpRequest::default() }
}
pub fn paths_of(m: &[Mismatch], rec: &mut Rec) -> BTreeSet<String> {
  m.iter().map(|m| match m { Mismatch::BodyMismatch { path, .. } => path.clone(), o => { rec.fail("kind", format!("a difference in the body is reported as {}", o.mismatch_type())); String::new() } }).collect()
}

fn one(rec: &mut Rec, class: &str, e: &Value, a: &Value, c: &Ctx) {
  let mut want = Out::default();
  compare(&DocPath::root(), e, a, c, &mut want);
  if want.tie { rec.outcome("unspecified (two expressions of equal weight)"); return; }
  rec.trace();
  let context = CoreMatchingContext::new(if c.strict { DiffConfig::NoUnexpectedKeys } else { DiffConfig::AllowUnexpectedKeys }, &c.category(Category::BODY), &HashMap::new());
  let Some(got) = rec.no_panic(class, || match_json(&with_body(e), &with_body(a), &context)) else { return };
  rec.steps(1);
  rec.outcome(if got.is_ok() { "match" } else { "mismatch" });
  match got {
    Ok(()) => { rec.check(want.paths.is_empty(), class, || format!("accepted, but differs at {:?}", want.paths)); }
    Err(m) => { rec.check(!m.is_empty(), class, || "rejected without a mismatch".into()); let p = paths_of(&m, rec); rec.check(p == want.paths, class, || format!("differs at {:?}, reported at {:?}: {}", want.paths, p, m.iter().map(|m| m.description()).collect::<Vec<_>>().join("; "))); }
  }
}

fn label(c: &Ctx) -> String { format!("{}{}", if c.strict { "strict " } else { "" }, c.rules.iter().map(|(p, r, l)| format!("{}: {:?}{}", p, r, if r.len() > 1 { format!(" {:?}", l) } else { String::new() })).collect::<Vec<_>>().join(", ")) }

pub fn c30(run: &Run) {
  let docs = docs(); let rules = rules();
  let exprs: Vec<DocPath> = ["$", "$.a", "$.b", "$.*", "$[*]", "$[0]", "$[1]", "$.a[*]", "$.a[0]", "$.a.b", "$.a.*", "$.a[*].b", "$[*].a", "$[*][*]"].iter().map(|s| path(s)).collect();
  run.pairs("none", "every pair of documents without rules, under both policies", &docs, &docs, |e, a, rec| {
    rec.state(&(e.to_string(), a.to_string()));
    for strict in [false, true] { let c = Ctx { rules: vec![], strict }; rec.case(format!("{} / {} {}", e, a, label(&c))); one(rec, "no-rules", e, a, &c); }
  });
  let bases = [docs.len(), docs.len(), exprs.len()];
  run.explore("one", "every pair of documents under every rule at every path expression, under both policies", space_size(&bases), |i, rec| {
    let d = digits(i, &bases);
    let (e, a, p) = (&docs[d[0]], &docs[d[1]], &exprs[d[2]]);
    for r in &rules { for strict in [false, true] {
      let c = Ctx { rules: vec![(p.clone(), vec![r.clone()], RuleLogic::And)], strict };
      rec.case(format!("{} / {} {}", e, a, label(&c)));
      rec.state(&(d[0], d[1], d[2], format!("{:?}", r), strict));
      one(rec, "one-rule", e, a, &c);
    } }
  });
  // combinations
  use MatchingRule::*;
  let few: Vec<Value> = docs.iter().filter(|d| ["1", "2", "\"a\"", "[]", "[1]", "[2]", "[1,2]", "[\"a\"]", "[{\"a\":1}]", "[{\"a\":1},{\"a\":2}]", "{}", "{\"a\":1}", "{\"a\":\"a\"}", "{\"b\":1}", "{\"a\":1,\"b\":2}", "{\"a\":[1]}", "{\"a\":[1,2]}", "{\"a\":{\"b\":1}}", "{\"a\":{\"b\":\"x\"}}"].contains(&d.to_string().as_str())).cloned().collect();
  let fr = vec![Equality, Type, MinType(2), MaxType(1), Regex("^a".into()), Integer, Null, NotEmpty, Values, EachKey(def(vec![Regex("^a".into())])), EachValue(def(vec![Integer])), ArrayContains(vec![variant(0, vec![("$", Type)])])];
  let fp = if run.thorough { exprs.clone() } else { ["$", "$.a", "$.*", "$[*]", "$.a[*]"].iter().map(|s| path(s)).collect::<Vec<_>>() };
  let bases = [few.len(), few.len(), fp.len()];
  run.explore("lists", "every pair of documents under every list of two rules (AND and OR) at every path expression", space_size(&bases), |i, rec| {
    let d = digits(i, &bases);
    let (e, a, p) = (&few[d[0]], &few[d[1]], &fp[d[2]]);
    for r in &fr { for s in &fr { for l in [RuleLogic::And, RuleLogic::Or] { for strict in [false, true] {
      let c = Ctx { rules: vec![(p.clone(), vec![r.clone(), s.clone()], l)], strict };
      rec.case(format!("{} / {} {}", e, a, label(&c)));
      one(rec, "two-rules-one-path", e, a, &c);
    } } } }
  });
  // rules for all keys and values that are made of several rules, nested collections
  let nested: Vec<Value> = vec![json!("a"), json!(""), json!(["a"]), json!(["ab", 1]), json!([""]), json!([["a"], ["b"]]), json!([[""]]), json!([["ab", 1]]), json!([{"a": "a"}]), json!([{"a": ""}, {"b": ["a"]}]), json!({"a": "a"}), json!({"a": "ab", "b": ""}), json!({"a": ["a", "b"]}), json!({"a": [""], "ab": ["a"]}), json!({"a": {"a": "a"}}), json!({"ab": {"a": "", "b": 1}}), json!({"b": [["a"]]}), json!({"b": 1})];
  let er = vec![Type, NotEmpty, MinType(2), EachKey(def(vec![Regex("^a".into()), Include("b".into())])), EachKey(def(vec![Include("b".into()), Regex("^a".into())])), EachValue(def(vec![NotEmpty])), EachValue(def(vec![Type, Regex("^a".into())])), EachValue(def(vec![Include("a".into()), Include("b".into())])), EachValue(def(vec![Integer, Type, NotEmpty])), EachValue(def(vec![MinType(2), Type])), Values];
  let ep: Vec<DocPath> = ["$", "$.a", "$.*", "$[*]", "$.a[*]"].iter().take(if run.thorough { 5 } else { 4 }).map(|s| path(s)).collect();
  let bases = [nested.len(), nested.len(), ep.len()];
  run.explore("each", "every pair of nested documents under every list of one or two rules for the elements, made of several rules", space_size(&bases), |i, rec| {
    let d = digits(i, &bases);
    let (e, a, p) = (&nested[d[0]], &nested[d[1]], &ep[d[2]]);
    for (n, r) in er.iter().enumerate() { for s in [None].into_iter().chain(er.iter().map(Some)) { for l in [RuleLogic::And, RuleLogic::Or] { for strict in [false, true] {
      if (s.is_none() && l == RuleLogic::Or) || (!run.thorough && strict && n % 2 == 0) { continue; }
      let c = Ctx { rules: vec![(p.clone(), [r].into_iter().chain(s).cloned().collect(), l)], strict };
      rec.case(format!("{} / {} {}", e, a, label(&c)));
      one(rec, "rules-for-elements", e, a, &c);
    } } } }
  });
  let bases = [few.len(), few.len(), fp.len(), fp.len()];
  run.explore("sets", "every pair of documents under every pair of rules at two path expressions", space_size(&bases), |i, rec| {
    let d = digits(i, &bases);
    if d[2] >= d[3] { return; }
    let (e, a, p, q) = (&few[d[0]], &few[d[1]], &fp[d[2]], &fp[d[3]]);
    for r in &fr { for s in &fr { for strict in [false, true] {
      let c = Ctx { rules: vec![(p.clone(), vec![r.clone()], RuleLogic::And), (q.clone(), vec![s.clone()], RuleLogic::And)], strict };
      rec.case(format!("{} / {} {}", e, a, label(&c)));
      one(rec, "two-rules", e, a, &c);
    } } }
  });
  // Text that is not JSON
  let texts = ["", "{", "nul", "{}", "[1,]", "\"a", "1 2", "\u{feff}{}", "{\"a\":1}", " {\"a\" : 1} ", "{\"a\":1.0}", "{\"a\":1e0}", "[1,\n2]", "{\"a\":1,\"a\":1}", "\u{0}"];
  run.pairs("text", "every pair of texts, JSON or not", &texts, &texts, |e, a, rec| {
    rec.case(format!("{:?} / {:?}", e, a)); rec.trace(); rec.state(&(e, a));
    let b = |s: &str| HttpRequest { body: OptionalBody::Present(s.to_string().into(), None, None), ..HttpRequest::default() };
    let Some(got) = rec.no_panic("text", || match_json(&b(e), &b(a), &CoreMatchingContext::default())) else { return };
    let (x, y) = (serde_json::from_str::<Value>(e), serde_json::from_str::<Value>(a));
    let want: BTreeSet<String> = match (&x, &y) { (Ok(x), Ok(y)) => { let mut o = Out::default(); compare(&DocPath::root(), x, y, &Ctx { rules: vec![], strict: false }, &mut o); o.paths } _ => ["$".to_string()].into() };
    rec.outcome(if want.is_empty() { "match" } else { "mismatch" });
    let got = match got { Ok(()) => BTreeSet::new(), Err(m) => paths_of(&m, rec) };
    rec.eq("text", &want, &got);
  });
  let _ = jmodel::semver;
}
