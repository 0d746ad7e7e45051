//! C62: integration JSON means the example, rules and generators that are written in it.
use crate::ffi::*;
use mccore::{hash_of, Rec, Run};
use pact_models::bodies::OptionalBody;
use pact_models::expression_parser::DataType;
use pact_models::generators::{Generator, Generators};
use pact_models::matchingrules::expressions::{MatchingRuleDefinition, ValueType};
use pact_models::matchingrules::{Category, MatchingRule, MatchingRules, RuleLogic};
use pact_models::path_exp::PathToken;
use pact_models::v4::interaction::V4Interaction;
use either::Either;
use serde_json::{json, Map, Value};
use std::collections::BTreeMap;

/// A document with rules in it.
#[derive(Clone, Debug)]
pub enum N { S(&'static str), O(Vec<(&'static str, N)>), A(Vec<N>), M(usize, Option<Box<N>>), C(Vec<N>) }
use N::*;
/// What is written of a matcher, the rules it means (none: it is not a matcher), its generator.
pub struct Matcher { pub attrs: Value, pub rules: Option<Vec<MatchingRule>>, pub generator: Option<Generator> }
impl Matcher { pub fn values(&self) -> bool { self.rules.iter().flatten().any(|r| matches!(r, MatchingRule::Values | MatchingRule::EachValue(_))) } }
fn each(value: &str, rules: Vec<MatchingRule>) -> MatchingRuleDefinition { MatchingRuleDefinition { value: value.into(), value_type: ValueType::Unknown, rules: rules.into_iter().map(Either::Left).collect(), generator: None, expression: String::new() } }
pub fn matchers() -> Vec<Matcher> {
  use MatchingRule::*;
  let ok = |attrs: Value, rules: Vec<MatchingRule>, generator: Option<Generator>| Matcher { attrs, rules: Some(rules), generator };
  let bad = |attrs: Value| Matcher { attrs, rules: None, generator: None };
  vec![
    ok(json!({"pact:matcher:type": "type"}), vec![Type], None),
    ok(json!({"pact:matcher:type": "values"}), vec![Values], None),
    bad(json!({"pact:matcher:type": "unknown"})),
    ok(json!({"pact:matcher:type": [{"pact:matcher:type": "type"}, {"pact:matcher:type": "max", "max": 3}]}), vec![Type, MaxType(3)], None),
    ok(json!({"pact:matcher:type": "matching(type, fromProviderState('${x}', 'a')), notEmpty('y')"}), vec![Type, NotEmpty], Some(Generator::ProviderStateGenerator("${x}".into(), Some(DataType::STRING)))),
    ok(json!({"pact:matcher:type": "regex", "regex": "a|b", "pact:generator:type": "Regex"}), vec![Regex("a|b".into())], Some(Generator::Regex("a|b".into()))),
    ok(json!({"pact:matcher:type": "eachValue", "rules": [{"pact:matcher:type": "regex", "regex": ".+"}]}), vec![EachValue(each("", vec![Regex(".+".into())]))], None),
    ok(json!({"pact:matcher:type": "eachKey", "rules": [{"pact:matcher:type": "regex", "regex": "k"}]}), vec![EachKey(each("", vec![Regex("k".into())]))], None),
    ok(json!({"pact:matcher:type": "type", "min": 2}), vec![MinType(2)], None),
    ok(json!({"pact:matcher:type": "type", "min": 0, "max": 7, "pact:generator:type": "RandomInt"}), vec![MinMaxType(0, 7)], Some(Generator::RandomInt(0, 7))),
    bad(json!({"pact:matcher:type": "regex"})),
    bad(json!({"pact:matcher:type": [{"pact:matcher:type": "type"}, {"match": "type"}]})),
    ok(json!({"pact:matcher:type": "matching($'ref')", "ref": 1}), vec![Type], None),
    bad(json!({"pact:matcher:type": "matching($'ref')"})),
    ok(json!({"pact:matcher:type": "eachValue(matching(integer, 1)), eachKey(matching(regex, 'k', 'k'))"}), vec![
      EachValue(MatchingRuleDefinition { value: "".into(), value_type: ValueType::Unknown, rules: vec![Either::Left(Integer)], generator: None, expression: String::new() }),
      EachKey(MatchingRuleDefinition { value: "".into(), value_type: ValueType::Unknown, rules: vec![Either::Left(Regex("k".into()))], generator: None, expression: String::new() })], None),
    ok(json!({"pact:matcher:type": "notEmpty"}), vec![NotEmpty], None),
    ok(json!({"pact:matcher:type": "datetime", "format": "yyyy", "pact:generator:type": "DateTime", "expression": "now"}), vec![Timestamp("yyyy".into())], Some(Generator::DateTime(Some("yyyy".into()), Some("now".into())))),
    ok(json!({"pact:matcher:type": "equality", "pact:generator:type": "Unknown"}), vec![Equality], None),
    ok(json!({"pact:matcher:type": [{"pact:matcher:type": "integer"}, {"pact:matcher:type": "max", "max": 3}, {"pact:matcher:type": "notEmpty"}, {"pact:matcher:type": "regex", "regex": "1"}]}), vec![Integer, MaxType(3), NotEmpty, Regex("1".into())], None),
    ok(json!({"pact:matcher:type": "eachValue(matching(integer, 1)), matching(type, fromProviderState('${y}', 'a'))"}), vec![
      EachValue(MatchingRuleDefinition { value: "".into(), value_type: ValueType::Unknown, rules: vec![Either::Left(Integer)], generator: None, expression: String::new() }), Type], Some(Generator::ProviderStateGenerator("${y}".into(), Some(DataType::STRING)))),
    ok(json!({"pact:matcher:type": "values", "pact:generator:type": "RandomBoolean"}), vec![Values], Some(Generator::RandomBoolean)),
  ]
}
impl Entry { fn metadata(self) -> bool { matches!(self, Entry::Metadata | Entry::MetaReq | Entry::MetaRes) } }
impl N {
  pub fn json(&self, ms: &[Matcher]) -> Value {
    match self {
      S(s) => serde_json::from_str(s).unwrap(),
      O(m) => Value::Object(m.iter().map(|(k, v)| (k.to_string(), v.json(ms))).collect()),
      A(l) => l.iter().map(|v| v.json(ms)).collect(),
      M(m, v) => { let mut o = ms[*m].attrs.clone(); if let Some(v) = v { o["value"] = v.json(ms); } o }
      C(l) => json!({"pact:matcher:type": if l.len() % 2 == 1 { "arrayContains" } else { "array-contains" }, "variants": l.iter().map(|v| v.json(ms)).collect::<Vec<_>>()}),
    }
  }
}
/// Where rules and generators are: by path.
#[derive(Default, Clone, Debug, PartialEq)]
pub struct Out { pub rules: BTreeMap<String, Vec<String>>, pub gens: BTreeMap<String, String> }
pub fn shown_at(p: &[PathToken]) -> String { format!("{:?}", p) }
impl Out {
  pub fn add(&mut self, at: &[PathToken], m: &Matcher) {
    for r in m.rules.iter().flatten() { self.rules.entry(shown_at(at)).or_default().push(rule_text(r)); }
    if m.rules.is_some() { if let Some(g) = &m.generator { self.gens.insert(shown_at(at), format!("{:?}", g)); } }
  }
  fn sorted(mut self) -> Out { for l in self.rules.values_mut() { l.sort(); } self }
  pub fn of(rules: &MatchingRules, gens: &Generators, category: Category) -> Out {
    let mut out = Out::default();
    if let Some(c) = rules.rules_for_category(category.clone()) { for (p, l) in &c.rules {
      out.rules.insert(shown_at(p.tokens()), l.rules.iter().map(rule_text).collect());
      if l.rule_logic != RuleLogic::And { out.rules.insert("logic".into(), vec![]); }
    } }
    let g = if category == Category::METADATA { pact_models::generators::GeneratorCategory::METADATA } else if category == Category::BODY { pact_models::generators::GeneratorCategory::BODY } else { category.to_string().parse().unwrap() };
    if let Some(m) = gens.categories.get(&g) { for (p, g) in m { out.gens.insert(shown_at(p.tokens()), format!("{:?}", g)); } }
    for (c, m) in &rules.rules { if *c != category_of(&g) && !m.rules.is_empty() { out.rules.insert(format!("{:?}", c), vec![]); } }
    for (c, m) in &gens.categories { if *c != g && !m.is_empty() { out.gens.insert(format!("{:?}", c), String::new()); } }
    out.sorted()
  }
}
fn category_of(g: &pact_models::generators::GeneratorCategory) -> Category { (*g).into() }
/// A rule, with the rules of variants by path.
pub fn rule_text(r: &MatchingRule) -> String {
  match r {
    MatchingRule::ArrayContains(l) => format!("contains {:?}", l.iter().map(|(n, c, g)| {
      let mut o = Out::default();
      for (p, l) in &c.rules { o.rules.insert(shown_at(p.tokens()), l.rules.iter().map(rule_text).collect()); }
      for (p, g) in g { o.gens.insert(shown_at(p.tokens()), format!("{:?}", g)); }
      (*n, o.sorted())
    }).collect::<Vec<_>>()),
    MatchingRule::EachKey(d) => format!("each key {:?} {:?}", d.rules.iter().map(|r| r.as_ref().left().map(rule_text)).collect::<Vec<_>>(), d.generator),
    MatchingRule::EachValue(d) => format!("each value {:?} {:?}", d.rules.iter().map(|r| r.as_ref().left().map(rule_text)).collect::<Vec<_>>(), d.generator),
    r => format!("{:?}", r),
  }
}
/// What a document means: the example; None if that is not said.
pub fn meaning(n: &N, ms: &[Matcher], at: &[PathToken], every_key: bool, out: &mut Out) -> Option<Value> {
  let below = |t: PathToken| { let mut p = at.to_vec(); p.push(t); p };
  Some(match n {
    S(s) => serde_json::from_str(s).unwrap(),
    O(m) => {
      let mut o = Map::new();
      for (k, v) in m { if !k.starts_with("pact:") { let p = below(if every_key { PathToken::Star } else { PathToken::Field(k.to_string()) }); o.insert(k.to_string(), meaning(v, ms, &p, false, out)?); } }
      Value::Object(o)
    }
    A(l) => { let mut v = vec![]; for (n, x) in l.iter().enumerate() { v.push(meaning(x, ms, &below(PathToken::Index(n)), false, out)?); } Value::Array(v) }
    M(m, v) => {
      let m = &ms[*m];
      if m.rules.is_none() { return Some(Value::Null); }
      let value = match v.as_deref() {
        None => Value::Null,
        // two matchers for one value: nothing is said when the keys of one of them are any keys
        Some(M(..) | C(_)) if m.values() => return None,
        Some(A(l)) => { let mut v = vec![]; for x in l { v.push(meaning(x, ms, &below(PathToken::StarIndex), false, out)?); } Value::Array(v) }
        Some(x) => meaning(x, ms, at, m.values(), out)?,
      };
      out.add(at, m);
      value
    }
    C(l) => {
      let (mut vs, mut subs) = (vec![], vec![]);
      for (n, x) in l.iter().enumerate() { let mut o = Out::default(); vs.push(meaning(x, ms, &[PathToken::Root], false, &mut o)?); subs.push((n, o.sorted())); }
      out.rules.entry(shown_at(at)).or_default().push(format!("contains {:?}", subs));
      Value::Array(vs)
    }
  })
}
pub const KEYS: [&str; 9] = ["a", "b c", "1", "*", "$", "a.b", "pact:x", "", "[*]"];
pub const LEAVES: [&str; 7] = ["1", "\"x\"", "{}", "[]", "null", "true", "\"{}\""];
/// All documents of a depth, by number.
pub struct Trees { pub matchers: usize, pub keys: usize, counts: Vec<u64>, pairs: Vec<u64> }
impl Trees {
  pub fn new(depth: usize, keys: usize, matchers: usize, second: u64) -> Trees {
    let mut t = Trees { matchers, keys, counts: vec![LEAVES.len() as u64], pairs: vec![0] };
    for d in 1..=depth {
      let c = t.counts[d - 1];
      let p = c.min(second);
      t.pairs.push(p);
      t.counts.push(LEAVES.len() as u64 + keys as u64 * c + c + matchers as u64 * (1 + c) + c + 3 * c * p);
    }
    t
  }
  pub fn count(&self) -> u64 { *self.counts.last().unwrap() }
  pub fn at(&self, i: u64) -> N { self.get(self.counts.len() - 1, i) }
  fn get(&self, d: usize, mut i: u64) -> N {
    let n = LEAVES.len() as u64;
    if i < n { return S(LEAVES[i as usize]); }
    i -= n;
    let (c, p) = (self.counts[d - 1], self.pairs[d]);
    let sub = |i: u64| self.get(d - 1, i);
    // the second of two is spread over all there are
    let other = |i: u64| self.get(d - 1, if p == c { i } else { i * c / p });
    if i < self.keys as u64 * c { return O(vec![(KEYS[(i / c) as usize], sub(i % c))]); }
    i -= self.keys as u64 * c;
    if i < c { return A(vec![sub(i)]); }
    i -= c;
    let m = self.matchers as u64;
    if i < m * (1 + c) { let (k, v) = (i / (1 + c), i % (1 + c)); return M(k as usize, if v == 0 { None } else { Some(Box::new(sub(v - 1))) }); }
    i -= m * (1 + c);
    if i < c { return C(vec![sub(i)]); }
    i -= c;
    let (k, i) = (i / (c * p), i % (c * p));
    match k { 0 => O(vec![("a", sub(i / p)), ("b", other(i % p))]), 1 => A(vec![sub(i / p), other(i % p)]), _ => C(vec![sub(i / p), other(i % p)]) }
  }
}
/// Ways to give a body: the number of the interaction kind and part.
#[derive(Clone, Copy, Debug, PartialEq, Hash)]
pub enum Entry { HttpReq, HttpRes, Async, SyncReq, SyncRes, Message, Metadata, MetaReq, MetaRes }
pub const ENTRIES: [Entry; 9] = [Entry::HttpReq, Entry::HttpRes, Entry::Async, Entry::SyncReq, Entry::SyncRes, Entry::Message, Entry::Metadata, Entry::MetaReq, Entry::MetaRes];
/// Gives the body and returns what is there afterwards: the body, rules and generators.
pub fn give(e: Entry, ct: &str, text: &str) -> Option<(OptionalBody, Option<Value>, MatchingRules, Generators)> {
  let p = new_pact("c", "p");
  let d = t("d");
  let i = match e { Entry::HttpReq | Entry::HttpRes => pactffi_new_interaction(p, d.p()), Entry::Async | Entry::Message | Entry::Metadata => pactffi_new_message_interaction(p, d.p()), _ => pactffi_new_sync_message_interaction(p, d.p()) };
  let ok = match e {
    Entry::Message => { pactffi_message_with_contents(as_message(i), t(ct).p(), t(text).p() as *const u8, text.len()); true }
    Entry::Metadata | Entry::MetaReq => pactffi_with_metadata(i, t("k").p(), t(text).p(), InteractionPart::Request),
    Entry::MetaRes => { pactffi_with_body(i, InteractionPart::Response, t("text/plain").p(), t("x").p()); pactffi_with_metadata(i, t("k").p(), t(text).p(), InteractionPart::Response) }
    _ => pactffi_with_body(i, if matches!(e, Entry::HttpRes | Entry::SyncRes) { InteractionPart::Response } else { InteractionPart::Request }, t(ct).p(), t(text).p()),
  };
  let r = i.with_interaction(&|_, _, inner: &mut dyn V4Interaction| {
    if let Some(h) = inner.as_v4_http() { if e == Entry::HttpReq { (h.request.body, None, h.request.matching_rules, h.request.generators) } else { (h.response.body, None, h.response.matching_rules, h.response.generators) } }
    else {
      let c = if let Some(a) = inner.as_v4_async_message() { a.contents } else { let s = inner.as_v4_sync_message().unwrap(); if matches!(e, Entry::SyncReq | Entry::MetaReq) { s.request } else { s.response[0].clone() } };
      (c.contents, c.metadata.get("k").cloned(), c.matching_rules, c.generators)
    }
  });
  pactffi_free_pact_handle(p);
  if ok { r } else { None }
}
fn check(rec: &mut Rec, ms: &[Matcher], e: Entry, n: &N) {
  let v = n.json(ms);
  let text = v.to_string();
  rec.case(format!("{:?} {}", e, text)); rec.trace(); rec.state(&hash_of(&(e, &text)));
  let mut want = Out::default();
  let root = if e.metadata() { vec![PathToken::Root, PathToken::Field("k".into())] } else { vec![PathToken::Root] };
  let Some(example) = meaning(n, ms, &root, false, &mut want) else { rec.outcome("unspecified"); return };
  let Some(got) = rec.no_panic("panic", || give(e, "application/json", &text)) else { return };
  let Some((body, meta, rules, gens)) = got else { rec.fail("refused", "the call fails"); return };
  if e.metadata() { rec.eq("example", &Some(example), &meta); }
  else { rec.eq("example", &Some(example), &body.value().and_then(|b| serde_json::from_slice(&b).ok())); }
  let real = Out::of(&rules, &gens, if e.metadata() { Category::METADATA } else { Category::BODY });
  rec.steps(want.rules.len() as u64 + want.gens.len() as u64);
  let want = want.sorted();
  rec.eq("rules", &want.rules, &real.rules);
  rec.eq("generators", &want.gens, &real.gens);
  rec.outcome(format!("{} rules, {} generators", want.rules.len().min(3), want.gens.len().min(3)));
}
pub fn c62(run: &Run) {
  let ms = matchers();
  let th = run.thorough;
  let small = Trees::new(1, KEYS.len(), ms.len(), 7);
  run.explore("entries", "every small document given in every way", small.count() * 9, |i, rec| check(rec, &ms, ENTRIES[(i % 9) as usize], &small.at(i / 9)));
  let docs = Trees::new(2, KEYS.len(), ms.len(), if th { 1000 } else { 60 });
  run.explore("documents", "every document of objects, arrays, matchers and variants up to a depth", docs.count(), |i, rec| check(rec, &ms, Entry::HttpReq, &docs.at(i)));
  let deep = Trees::new(3, if th { 5 } else { 1 }, if th { 12 } else { 3 }, if th { 4 } else { 1 });
  run.explore("deep", "every deeper document over fewer keys and matchers", deep.count(), |i, rec| check(rec, &ms, Entry::Async, &deep.at(i)));
  nests(run, &ms);
  forms(run);
  xml(run);
  values(run);
}
/// Every matcher around every way to nest values around every matcher.
fn nests(run: &Run, ms: &[Matcher]) {
  const NAMES: [&str; 14] = ["a", "b c", "1", "*", "$", "a.b", "", "[*]", "pact", "pacta", "pact-id", "Pact:x", "é", "pact:x"];
  let shapes = NAMES.len() + 14;
  let nested = |k: usize, n: N| -> N {
    if k < NAMES.len() { return O(vec![(NAMES[k], n)]); }
    let one = || S("1");
    match k - NAMES.len() {
      0 => n, 1 => A(vec![n]), 2 => A(vec![one(), n]), 3 => A(vec![n.clone(), one(), n]), 4 => O(vec![("a", O(vec![("b", n)]))]), 5 => O(vec![("a", A(vec![n]))]), 6 => A(vec![O(vec![("a", n)])]), 7 => A(vec![A(vec![n])]),
      8 => A(vec![A(vec![one(), n.clone()]), A(vec![n])]), 9 => O(vec![("a", n.clone()), ("b", n)]), 10 => O(vec![("a", M(0, Some(Box::new(O(vec![("b", n)])))))]), 11 => O(vec![("a", O(vec![("b", O(vec![("c", n)]))]))]),
      12 => A(vec![C(vec![n.clone()]), n]), _ => A(vec![A(vec![A(vec![n])])]),
    }
  };
  let around = |k: usize, n: N| if k == 0 { n } else if k == 1 { C(vec![n]) } else if k == 2 { C(vec![S("1"), n.clone(), n]) } else { M(k - 3, Some(Box::new(n))) };
  let inner: Vec<N> = (0..ms.len()).flat_map(|m| [M(m, None), M(m, Some(Box::new(S("1"))))]).chain([S("1"), O(vec![]), C(vec![S("1")]), M(0, Some(Box::new(O(vec![("d", M(8, Some(Box::new(A(vec![S("1")])))))]))))]).collect();
  let entries: &[Entry] = if run.thorough { &ENTRIES } else { &[Entry::HttpRes, Entry::Metadata] };
  run.explore("nests", "every matcher around every nesting of objects and arrays around every matcher", ((ms.len() + 3) * shapes * inner.len() * entries.len()) as u64, |i, rec| {
    let d = mccore::digits(i, &[ms.len() + 3, shapes, inner.len(), entries.len()]);
    check(rec, ms, entries[d[3]], &around(d[0], nested(d[1], inner[d[2]].clone())));
  });
}

// ---------------------------------------------------------------- Forms
/// A form parameter as it is written.
fn form_encoded(s: &str) -> String {
  s.bytes().map(|b| match b { b' ' => "+".into(), b'a'..=b'z' | b'A'..=b'Z' | b'0'..=b'9' | b'*' | b'-' | b'.' | b'_' => (b as char).to_string(), b => format!("%{:02X}", b) }).collect()
}
pub fn forms(run: &Run) {
  let ms = matchers();
  // keys of which one is the beginning of another, and which are not plain names
  let keys = ["a", "ab", "1", "é &", "*"];
  let mut values: Vec<N> = ["1", "\"x y\"", "\"\"", "-1.5", "null", "true"].into_iter().map(S).collect();
  for m in [0, 5, 4, 2, 3] { values.push(M(m, Some(Box::new(S("\"v\""))))); values.push(M(m, Some(Box::new(S("null"))))); }
  for x in ["1", "\"x\"", "null"] { values.push(A(vec![S("\"f\""), S(x)])); values.push(A(vec![M(0, Some(Box::new(S(x)))), M(5, Some(Box::new(S("2"))))])); }
  values.push(A(vec![])); values.push(O(vec![("b", M(0, Some(Box::new(S("1")))))])); values.push(A(vec![O(vec![("b", M(5, Some(Box::new(S("1")))))]), M(0, Some(Box::new(S("1"))))]));
  values.push(M(8, Some(Box::new(A(vec![S("1"), S("\"y\"")]))))); values.push(M(0, Some(Box::new(O(vec![("b", M(0, None))])))));
  let (k, v) = (keys.len() as u64, values.len() as u64);
  run.explore("forms", "every pair of parameters of a form given as JSON: those that a form can have, their rules and generators", k * k * v * v * 2, |i, rec| {
    let d = mccore::digits(i, &[keys.len(), keys.len(), values.len(), values.len(), 2]);
    let mut params = vec![(keys[d[0]], values[d[2]].clone())];
    if d[0] != d[1] { params.push((keys[d[1]], values[d[3]].clone())); } else if d[3] > 0 { return; }
    params.sort_by_key(|p| p.0);
    let text = O(params.clone()).json(&ms).to_string();
    let e = if d[4] == 0 { Entry::HttpReq } else { Entry::HttpRes };
    rec.case(format!("{:?} {}", e, text)); rec.trace(); rec.state(&hash_of(&(d[4], &text)));
    let (mut want, mut body) = (Out::default(), vec![]);
    for (k, n) in &params {
      let at = vec![PathToken::Root, PathToken::Field(k.to_string())];
      let mut o = Out::default();
      let v = meaning(n, &ms, &at, false, &mut o).unwrap();
      let plain = |v: &Value| match v { Value::String(s) => Some(s.clone()), Value::Number(n) => Some(n.to_string()), _ => None };
      if let Some(s) = plain(&v) { body.push(format!("{}={}", form_encoded(k), form_encoded(&s))); }
      else if let Value::Array(l) = &v {
        for (x, s) in l.iter().enumerate() { match plain(s) {
          Some(s) => body.push(format!("{}={}", form_encoded(k), form_encoded(&s))),
          None => { let mut p = at.clone(); p.push(PathToken::Index(x)); let p = shown_at(&p); let p = p.trim_end_matches(']'); o.rules.retain(|k, _| !k.starts_with(p)); o.gens.retain(|k, _| !k.starts_with(p)); }
        } }
      } else { continue; } // what a form can not have is left out, with its rules
      want.rules.extend(o.rules); want.gens.extend(o.gens);
    }
    let Some(Some((b, _, rules, gens))) = rec.no_panic("panic", || give(e, "application/x-www-form-urlencoded", &text)) else { return };
    rec.eq("form", &Some(body.join("&")), &b.value().map(|b| String::from_utf8_lossy(&b).to_string()));
    let real = Out::of(&rules, &gens, Category::BODY);
    let want = want.sorted();
    rec.eq("form rules", &want.rules, &real.rules);
    rec.eq("form generators", &want.gens, &real.gens);
    rec.outcome(format!("{} parameters", body.len()));
  });
}

// ---------------------------------------------------------------- XML
#[derive(Clone, Debug)]
pub enum X { E(&'static str, Vec<(&'static str, Option<usize>)>, Vec<X>, Option<usize>, Option<u64>), T(&'static str, Option<usize>) }
use X::*;
impl X {
  fn json(&self, ms: &[Matcher]) -> Value {
    match self {
      E(name, attrs, children, m, n) => {
        let mut o = json!({"name": name, "children": children.iter().map(|c| c.json(ms)).collect::<Vec<_>>(), "attributes": attrs.iter().map(|(k, m)| (k.to_string(), match m { None => X::attribute(k), Some(m) => { let mut o = ms[*m].attrs.clone(); o["value"] = X::attribute(k); o } })).collect::<Map<_, _>>()});
        if let Some(m) = m { let mut w = ms[*m].attrs.clone(); w["value"] = o; o = w; }
        if let Some(n) = n { o["examples"] = json!(n); }
        o
      }
      // the generator of a text is written beside it
      T(s, m) => { let mut o = json!({"content": s}); if let Some(m) = m { o["matcher"] = ms[*m].attrs.clone(); if *s == "generated" { o["pact:generator:type"] = o["matcher"]["pact:generator:type"].clone(); } } o }
    }
  }
  fn attribute(name: &str) -> Value { match name { "k-l" => json!(12), "m.n" => json!(true), "n:o" => json!(1.5), _ => json!("v") } }
  fn escaped(s: &str) -> String { s.replace('&', "&amp;").replace('<', "&lt;").replace('>', "&gt;") }
  fn text(&self, root: bool) -> String {
    match self {
      E(name, attrs, children, _, n) => {
        let mut attrs: Vec<&str> = attrs.iter().map(|a| a.0).collect(); attrs.sort(); attrs.dedup();
        let attrs: String = attrs.iter().map(|a| format!(" {}=\"{}\"", a, match X::attribute(a) { Value::String(s) => s, v => v.to_string() })).collect();
        let inner: String = children.iter().map(|c| c.text(false)).collect();
        format!("<{}{}>{}</{}>", name, attrs, inner, name).repeat(if root { 1 } else { n.unwrap_or(1) as usize })
      }
      T(s, _) => X::escaped(s),
    }
  }
  fn collect(&self, ms: &[Matcher], at: &[PathToken], out: &mut Out) {
    let below = |t: &str| { let mut p = at.to_vec(); p.push(PathToken::Field(t.into())); p };
    match self {
      E(name, attrs, children, m, _) => {
        let p = below(name);
        if let Some(m) = m { out.add(&p, &ms[*m]); }
        for (a, m) in attrs { if let Some(m) = m { let mut p = p.clone(); p.push(PathToken::Field(format!("@{}", a))); out.add(&p, &ms[*m]); } }
        for c in children { c.collect(ms, &p, out); }
      }
      T(s, Some(m)) => { let mut m2 = Matcher { attrs: Value::Null, rules: ms[*m].rules.clone(), generator: ms[*m].generator.clone() }; if ms[*m].attrs.get("pact:generator:type").is_some() && *s != "generated" { m2.generator = None; } out.add(&below("#text"), &m2); }
      T(..) => {}
    }
  }
}
/// A document without the ways it can be written in: nothing if it is none.
fn parsed(s: &str) -> Option<Value> {
  let s = s.strip_prefix("<?xml version='1.0'?>").unwrap_or(s);
  let mut stack: Vec<(String, Map<String, Value>, Vec<Value>)> = vec![(String::new(), Map::new(), vec![])];
  let text = |s: &str| -> Option<String> {
    let mut out = String::new(); let mut rest = s;
    while let Some(n) = rest.find('&') { out.push_str(&rest[..n]); let e = rest[n..].find(';')? + n; out.push(match &rest[n + 1..e] { "amp" => '&', "lt" => '<', "gt" => '>', "quot" => '"', "apos" => '\'', _ => return None }); rest = &rest[e + 1..]; }
    out.push_str(rest); Some(out)
  };
  let mut rest = s;
  while !rest.is_empty() {
    let Some(r) = rest.strip_prefix('<') else {
      let n = rest.find('<').unwrap_or(rest.len());
      let t = text(&rest[..n])?;
      let kids = &mut stack.last_mut()?.2;
      match kids.last_mut() { Some(Value::String(s)) => s.push_str(&t), _ => kids.push(json!(t)) }
      rest = &rest[n..]; continue;
    };
    let end = r.find('>')?;
    let tag = &r[..end]; rest = &r[end + 1..];
    if let Some(name) = tag.strip_prefix('/') {
      let (n, a, k) = stack.pop()?;
      if n != name || stack.is_empty() { return None; }
      stack.last_mut()?.2.push(json!([n, a, k])); continue;
    }
    let (tag, closed) = match tag.strip_suffix('/') { Some(t) => (t, true), None => (tag, false) };
    let (name, mut attrs_text) = tag.split_once(' ').unwrap_or((tag, ""));
    let mut attrs = Map::new();
    while !attrs_text.trim().is_empty() {
      let (k, v) = attrs_text.trim_start().split_once('=')?;
      let q = v.chars().next()?;
      let e = v[1..].find(q)? + 1;
      if attrs.insert(k.to_string(), json!(text(&v[1..e])?)).is_some() { return None; }
      attrs_text = &v[e + 1..];
    }
    if closed { stack.last_mut()?.2.push(json!([name, attrs, []])); } else { stack.push((name.to_string(), attrs, vec![])); }
  }
  let (_, _, mut kids) = stack.pop()?;
  if !stack.is_empty() || kids.len() != 1 || kids[0].is_string() { return None; }
  kids.pop()
}
pub fn xml(run: &Run) {
  let ms = matchers();
  let names = ["a", "b-c", "d.e", "n:f", "_g1"];
  let ns = "xmlns:n";
  let texts = [T("t", None), T(" ", None), T("generated", Some(5)), T("generated", Some(9)), T("x & <y>", Some(0)), T("u", Some(5)), T("v", Some(4)), T("", None)];
  let attrs: Vec<Vec<(&str, Option<usize>)>> = vec![vec![], vec![("k", None)], vec![("k", Some(0)), ("k-l", Some(5))], vec![("m.n", Some(4))], vec![("n:o", Some(0))], vec![("k", Some(2))], vec![("k", Some(3))]];
  let matched = [None, Some(0), Some(8), Some(4), Some(5), Some(2)];
  let examples = [None, Some(1), Some(2), Some(3), Some(0)];
  let mut inner: Vec<X> = texts.to_vec();
  for name in &names[..if run.thorough { 5 } else { 4 }] { for a in &attrs { for m in matched { for n in examples { inner.push(E(name, a.clone(), vec![], m, n)); if n != Some(1) { inner.push(E(name, a.clone(), vec![texts[4].clone()], m, n)); } } } } }
  // deeper children
  for n in [None, Some(2)] { for m in [None, Some(8)] { for t in &texts { inner.push(E("a", vec![], vec![E("b-c", vec![("k", Some(0))], vec![t.clone()], Some(0), n), t.clone()], m, n)); } } }
  let second: Vec<X> = vec![T("z", Some(0)), E("a", vec![], vec![], Some(3), None), E("n:f", vec![("k", Some(0))], vec![T("w", None)], None, Some(2))];
  let l = inner.len() as u64;
  let roots = names.len() as u64;
  run.explore("xml", "every description of an XML body: the document, its rules and generators", l * (1 + second.len() as u64) * roots * 3, |i, rec| {
    let d = mccore::digits(i, &[inner.len(), 1 + second.len(), names.len(), 3]);
    let mut children = vec![inner[d[0]].clone()];
    if d[1] > 0 { children.push(second[d[1] - 1].clone()); }
    let root = E(names[d[2]], vec![(ns, None)], children, if d[3] == 1 { Some(0) } else { None }, None);
    let e = [Entry::HttpReq, Entry::SyncRes, Entry::Message][d[3]];
    let text = json!({"root": root.json(&ms), "version": "1.0", "charset": "UTF-8"}).to_string();
    rec.case(format!("{:?} {}", e, text)); rec.trace(); rec.state(&hash_of(&(d[3], &text)));
    let mut want = Out::default();
    root.collect(&ms, &[PathToken::Root], &mut want);
    let Some(Some((b, _, rules, gens))) = rec.no_panic("panic", || give(e, "application/xml", &text)) else { return };
    let real = b.value().map(|b| String::from_utf8_lossy(&b).to_string()).unwrap_or_default();
    let doc = root.text(true);
    let (w, g) = (parsed(&doc), parsed(&real));
    assert!(w.is_some(), "{}", doc);
    rec.check(w == g, "document", || format!("expected {}, got {}", doc, real));
    let real = Out::of(&rules, &gens, Category::BODY);
    let want = want.sorted();
    rec.eq("xml rules", &want.rules, &real.rules);
    rec.eq("xml generators", &want.gens, &real.gens);
    rec.outcome(format!("{} rules", want.rules.len()));
  });
  // What does not describe a document.
  let parts = ["null", "1", "\"x\"", "[]", "{}", "{\"name\":1}", "{\"name\":null}", "{\"content\":{}}", "{\"pact:matcher:type\":\"type\"}", "{\"pact:matcher:type\":\"type\",\"value\":1}", "{\"pact:matcher:type\":\"type\",\"value\":{}}", "{\"content\":\"x\",\"matcher\":1}", "{\"name\":\"a\",\"examples\":-1}", "{\"name\":\"a\",\"examples\":1.5}", "{\"name\":\"a\",\"examples\":\"x\"}", "{\"name\":\"a\",\"attributes\":1}", "{\"name\":\"a\",\"attributes\":{\"k\":{\"pact:matcher:type\":\"type\"}}}", "{\"name\":\"a\",\"attributes\":{\"k\":null}}", "{\"name\":\"a\",\"attributes\":{\"k\":[]}}"];
  let frames = ["{\"root\":#}", "{\"root\":{\"name\":\"r\",\"children\":[#]}}", "{\"root\":{\"name\":\"r\",\"children\":#}}", "{\"root\":{\"pact:matcher:type\":\"type\",\"value\":{\"name\":\"r\",\"children\":[#]}}}", "{\"root\":{\"pact:matcher:type\":\"type\",\"value\":#}}", "{\"root\":{\"name\":\"r\",\"attributes\":#}}", "#", "{\"root\":{\"name\":\"r\"", "{\"root\":{\"pact:matcher:type\":#,\"value\":{\"name\":\"r\"}}}"];
  let types = ["application/xml", "application/x-www-form-urlencoded", "application/json"];
  run.explore("malformed", "every malformed description in every place, for every kind of body: no crash", (parts.len() * frames.len() * types.len() * ENTRIES.len()) as u64, |i, rec| {
    let d = mccore::digits(i, &[parts.len(), frames.len(), types.len(), ENTRIES.len()]);
    let text = frames[d[1]].replace('#', parts[d[0]]);
    rec.case(format!("{:?} {} {}", ENTRIES[d[3]], types[d[2]], text)); rec.trace();
    rec.no_panic("panic", || give(ENTRIES[d[3]], types[d[2]], &text));
  });
}

// ---------------------------------------------------------------- Values
/// Values of headers, parameters, paths and statuses.
pub fn values(run: &Run) {
  let ms = matchers();
  let vals: Vec<Value> = vec![json!("1"), json!("x"), json!(200), json!(true), json!(["a"]), json!(["a", "b"]), json!([]), json!([1, 2]), json!(null)];
  #[derive(Clone, Copy, Debug, PartialEq, Hash)]
  enum Place { Path, Status, ReqHeader(usize), ResHeader(usize), Query(usize) }
  use Place::*;
  let places = [Path, Status, ReqHeader(0), ReqHeader(1), ResHeader(0), ResHeader(2), Query(0), Query(1)];
  let forms = ms.len() + 2;
  run.explore("values", "every matcher and plain value for every kind of value and position", (forms * vals.len() * places.len()) as u64, |i, rec| {
    let d = mccore::digits(i, &[forms, vals.len(), places.len()]);
    let (v, place) = (&vals[d[1]], places[d[2]]);
    let m = if d[0] < ms.len() { Some(&ms[d[0]]) } else { None };
    let text = match m { Some(m) => { let mut o = m.attrs.clone(); o["value"] = v.clone(); o.to_string() } None if d[0] == ms.len() => json!({"value": v}).to_string(), None => match v { Value::String(s) => s.clone(), v => v.to_string() } };
    // plain JSON that is no object is a text
    let list: Vec<String> = match v { _ if d[0] > ms.len() => vec![text.clone()], Value::Array(l) => l.iter().map(|v| v.as_str().map(|s| s.to_string()).unwrap_or(v.to_string())).collect(), Value::String(s) => vec![s.clone()], Value::Null => vec![String::new()], v => vec![v.to_string()] };
    let list: Vec<String> = if d[0] > ms.len() && matches!(place, ReqHeader(0) | ResHeader(0)) { list[0].split(',').map(|s| s.trim().to_string()).collect() } else { list };
    let several = v.is_array() && d[0] <= ms.len();
    rec.case(format!("{:?} {}", place, text)); rec.trace(); rec.state(&hash_of(&(place, &text)));
    if several && !matches!(place, ReqHeader(0) | ResHeader(0) | Query(0)) { rec.outcome("unspecified"); return; }
    let mut out = Out::default();
    let named = |n: &str, k: usize| { let mut p = vec![PathToken::Root, PathToken::Field(n.into())]; if k > 0 { p.push(PathToken::Index(k)); } p };
    if let Some(m) = m { out.add(&match place { Path | Status => vec![PathToken::Root], ReqHeader(k) | ResHeader(k) => named("X-A", k), Query(k) => named("q", k) }, m); }
    let want = out.sorted();
    let p = new_pact("c", "p");
    let h = pactffi_new_interaction(p, t("d").p());
    let done = rec.no_panic("panic", || match place {
      Path => pactffi_with_request(h, t("GET").p(), t(&text).p()), Status => pactffi_response_status_v2(h, t(&text).p()),
      ReqHeader(k) => pactffi_with_header_v2(h, InteractionPart::Request, t("X-A").p(), k, t(&text).p()), ResHeader(k) => pactffi_with_header_v2(h, InteractionPart::Response, t("X-A").p(), k, t(&text).p()),
      Query(k) => pactffi_with_query_parameter_v2(h, t("q").p(), k, t(&text).p()),
    });
    let got = h.with_interaction(&|_, _, i: &mut dyn V4Interaction| i.as_v4_http().unwrap());
    pactffi_free_pact_handle(p);
    let (Some(done), Some(x)) = (done, got) else { return };
    let pad = |k: usize| { let mut v = vec![String::new(); k]; v.push(list.first().cloned().unwrap_or_default()); if k == 0 { list.clone() } else { v } };
    let (rules, gens, cat) = match place {
      Path => { rec.eq("path", &list[0], &x.request.path); (&x.request.matching_rules, &x.request.generators, Category::PATH) }
      Status => {
        let n: Option<u16> = list[0].parse().ok();
        match n { Some(n) => { rec.eq("status", &n, &x.response.status); } None => { rec.outcome("no status"); return; } }
        (&x.response.matching_rules, &x.response.generators, Category::STATUS)
      }
      ReqHeader(k) => { rec.eq("header", &Some(pad(k)), &x.request.headers.as_ref().and_then(|h| h.get("X-A").cloned())); (&x.request.matching_rules, &x.request.generators, Category::HEADER) }
      ResHeader(k) => { rec.eq("header", &Some(pad(k)), &x.response.headers.as_ref().and_then(|h| h.get("X-A").cloned())); (&x.response.matching_rules, &x.response.generators, Category::HEADER) }
      Query(k) => {
        let q = x.request.query.as_ref().and_then(|h| h.get("q").cloned()).map(|l| l.into_iter().map(|v| v.unwrap_or_default()).collect::<Vec<_>>());
        rec.eq("parameter", &Some(pad(k)), &q); (&x.request.matching_rules, &x.request.generators, Category::QUERY)
      }
    };
    rec.check(done, "result", || "the call fails".into());
    let real = Out::of(rules, gens, cat);
    rec.eq("value rules", &want.rules, &real.rules);
    rec.eq("value generators", &want.gens, &real.gens);
    rec.outcome(format!("{:?}", place));
  });
}
