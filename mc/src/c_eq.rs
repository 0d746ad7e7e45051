//! C06: equality, hashes and interaction keys.
#![allow(deprecated)]
use mccore::*;
use pact_models::bodies::OptionalBody;
use pact_models::generators::{generators_to_json, Generator, GeneratorCategory, Generators};
use pact_models::interaction::Interaction;
use pact_models::matchingrules::{matchers_to_json, Category, MatchingRule, MatchingRuleCategory, MatchingRules, RuleList, RuleLogic};
use pact_models::provider_states::ProviderState;
use pact_models::v4::http_parts::{HttpRequest, HttpResponse};
use pact_models::v4::interaction::V4Interaction;
use pact_models::v4::message_parts::MessageContents;
use pact_models::PactSpecification;
use serde_json::{json, Value};
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::hash::{Hash, Hasher};
use std::panic::RefUnwindSafe;
use crate::c_pact::load;
use crate::docs::*;
use crate::os::with_hash_seed;
use crate::vals::*;

type I = Box<dyn Interaction + Send + Sync + RefUnwindSafe>;
fn h<T: Hash>(v: &T) -> u64 { let mut s = DefaultHasher::new(); v.hash(&mut s); s.finish() }

// What the contract of each part is, gathered without using its equality.
fn body(b: &OptionalBody) -> String { match b { OptionalBody::Missing => "missing".into(), OptionalBody::Empty => "empty".into(), OptionalBody::Null => "null".into(), OptionalBody::Present(b, _, _) => format!("{:?}", b) } }
fn rules(r: &MatchingRules) -> String { matchers_to_json(r, &PactSpecification::V4).to_string() }
fn gens(g: &Generators) -> String { generators_to_json(g, &PactSpecification::V4).to_string() }
fn states(s: &[ProviderState]) -> String { format!("{:?}", s.iter().map(|s| (&s.name, s.params.iter().collect::<BTreeMap<_, _>>())).collect::<Vec<_>>()) }
fn headers(h: &Option<HashMap<String, Vec<String>>>) -> String { format!("{:?}", h.as_ref().map(|h| h.iter().collect::<BTreeMap<_, _>>())) }
fn request(r: &HttpRequest) -> String {
  let q = format!("{:?}", r.query.as_ref().map(|q| q.iter().collect::<BTreeMap<_, _>>()));
  format!("{}|{:?}|{}|{}|{}|{}|{}", r.method.to_uppercase(), r.path, q, headers(&r.headers), body(&r.body), rules(&r.matching_rules), gens(&r.generators))
}
fn response(r: &HttpResponse) -> String { format!("{}|{}|{}|{}|{}", r.status, headers(&r.headers), body(&r.body), rules(&r.matching_rules), gens(&r.generators)) }
fn message(m: &MessageContents) -> String { format!("{}|{:?}|{}|{}", body(&m.contents), m.metadata.iter().collect::<BTreeMap<_, _>>(), rules(&m.matching_rules), gens(&m.generators)) }
/// The contract of an interaction with its name, key and pending mark.
fn contract(i: &I) -> String {
  let head = |key: Option<String>, pending: bool| format!("{}|{:?}|{}|{:?}|{}", i.type_of(), i.description(), states(&i.provider_states()), key, pending);
  if i.is_v4() {
    if let Some(x) = i.as_v4_http() { return format!("{}|{}|{}", head(x.key.clone(), x.pending), request(&x.request), response(&x.response)); }
    if let Some(x) = i.as_v4_async_message() { return format!("{}|{}", head(x.key.clone(), x.pending), message(&x.contents)); }
    let x = i.as_v4_sync_message().unwrap();
    return format!("{}|{}|{:?}", head(x.key.clone(), x.pending), message(&x.request), x.response.iter().map(message).collect::<Vec<_>>());
  }
  if let Some(x) = i.as_request_response() { let v4 = x.as_v4_http().unwrap(); return format!("{}|{}|{}|{}", head(None, false), x.request.method, request(&v4.request), response(&v4.response)); }
  let x = i.as_message().unwrap();
  format!("{}|{}", head(None, false), message(&x.as_message_content()))
}
fn equal(a: &I, b: &I) -> bool {
  if a.is_v4() { return a.as_v4().unwrap() == b.as_v4().unwrap(); }
  if let (Some(x), Some(y)) = (a.as_request_response(), b.as_request_response()) { return x == y; }
  a.as_message() == b.as_message()
}
fn hash(i: &I) -> Option<u64> {
  if let (true, Some(x)) = (i.is_v4(), i.as_v4_http()) { return Some(h(&x)); }
  if let (true, Some(x)) = (i.is_v4(), i.as_v4_async_message()) { return Some(h(&x)); }
  if let (true, Some(x)) = (i.is_v4(), i.as_v4_sync_message()) { return Some(h(&x)); }
  i.as_request_response().map(|x| h(&x))
}
fn key(i: &I) -> Option<String> { if i.is_v4() { i.as_v4().map(|i| i.unique_key()) } else { None } }

fn pairs(run: &Run) {
  for k in kinds() {
    let one = choices(k, 1);
    let all = if run.thorough && k.slots.iter().map(|s| s.len()).sum::<usize>() < 120 { choices(k, 2) } else { one.clone() };
    struct E { label: String, i: I, sig: String, hash: Option<u64>, key: Option<String> }
    let make = |c: &Vec<(usize, usize)>| {
      let (i, _) = k.interaction(c);
      let p = load(&k.pact(vec![i])).unwrap();
      let i = p.interactions().remove(0);
      E { label: k.label(c), sig: contract(&i), hash: hash(&i), key: key(&i), i }
    };
    let a: Vec<E> = all.iter().map(&make).collect();
    let b: Vec<E> = one.iter().map(&make).collect();
    let n = (a.len() * b.len()) as u64;
    run.explore(&format!("{} pairs", k.name), "every document with up to one (thorough: two) attribute alternatives x every document with up to one", n, |n, rec| {
      let (x, y) = (&a[n as usize / b.len()], &b[n as usize % b.len()]);
      rec.case(format!("{} <-> {}", x.label, y.label));
      rec.state(&n);
      let same = x.sig == y.sig;
      let eq = equal(&x.i, &y.i);
      rec.check(eq == same, if same { "not equal" } else { "equal" }, || format!("{}\n{}", x.sig, y.sig));
      rec.check(eq == equal(&y.i, &x.i), "symmetric", String::new);
      if eq { rec.eq("hash", &x.hash, &y.hash); rec.eq("key", &x.key, &y.key); }
      rec.steps(2);
      rec.outcome(format!("{} {}", k.name, eq));
    });
  }
}

/// Documents with maps of several entries: a change of the iteration order of any of them must not be seen.
fn orders(run: &Run) {
  let v4 = |k: &str, parts: Value| { let mut v = parts; v["type"] = json!(k); v["description"] = json!("d"); v };
  let params = json!([{"name": "s", "params": {"a": 1, "b": "x", "c": true}}]);
  let params2 = json!([{"name": "s", "params": {"a": [1], "b": {"x": 1}, "c": null}}, {"name": "t", "params": {"q": 1.5, "r": -2}}]);
  let hs = json!({"A": ["1"], "B": ["2"], "C": ["3"]});
  let md = json!({"a": 1, "b": "x", "c": [1, {"z": 1}]});
  let r = |x: &str| json!({"combine": "AND", "matchers": [{"match": "regex", "regex": x}]});
  let body_rules = json!({"body": {"$.a": r("1"), "$.b": r("2"), "$.c": r("3")}});
  let cats = json!({"body": {"$.a": r("1")}, "header": {"A": r("2")}, "query": {"q": r("3")}, "path": r("4")});
  let mcats = json!({"body": {"$.a": r("1")}, "metadata": {"a": r("2"), "b": r("3")}});
  let g = |n: i32| json!({"type": "RandomInt", "min": n, "max": 9});
  let body_gens = json!({"body": {"$.a": g(1), "$.b": g(2), "$.c": g(3)}});
  let gcats = json!({"body": {"$.a": g(1)}, "header": {"A": g(2)}, "query": {"q": g(3)}});
  let mgcats = json!({"body": {"$.a": g(1)}, "metadata": {"a": g(2), "b": g(3)}});
  let ac = json!({"body": {"$.l": {"combine": "AND", "matchers": [{"match": "arrayContains", "variants": [{"index": 0, "rules": {"$.a": r("1"), "$.b": r("2"), "$.c": r("3")}, "generators": {"$.a": g(1), "$.b": g(2), "$.c": g(3)}}]}]}}});
  let mut docs: Vec<(String, Value)> = vec![];
  for (n, s) in [("params", &params), ("two states", &params2)] {
    docs.push((format!("HTTP {}", n), v4("Synchronous/HTTP", json!({"providerStates": s, "request": {}, "response": {}}))));
    docs.push((format!("async {}", n), v4("Asynchronous/Messages", json!({"providerStates": s}))));
    docs.push((format!("sync {}", n), v4("Synchronous/Messages", json!({"providerStates": s, "request": {}, "response": [{}]}))));
  }
  for (n, a, x) in [("headers", "headers", &hs), ("rules", "matchingRules", &body_rules), ("rule categories", "matchingRules", &cats), ("array contains", "matchingRules", &ac), ("generators", "generators", &body_gens), ("generator categories", "generators", &gcats)] {
    for part in ["request", "response"] { let mut d = v4("Synchronous/HTTP", json!({"request": {}, "response": {}})); d[part][a] = x.clone(); docs.push((format!("HTTP {} {}", part, n), d)); }
  }
  docs.push(("HTTP query".into(), v4("Synchronous/HTTP", json!({"request": {"query": hs}, "response": {}}))));
  for (n, a, x) in [("metadata", "metadata", &md), ("rules", "matchingRules", &body_rules), ("rule categories", "matchingRules", &mcats), ("array contains", "matchingRules", &ac), ("generators", "generators", &body_gens), ("generator categories", "generators", &mgcats)] {
    let mut d = v4("Asynchronous/Messages", json!({})); d[a] = x.clone(); docs.push((format!("async {}", n), d));
    for part in ["/request", "/response/0", "/response/1"] { let mut d = v4("Synchronous/Messages", json!({"request": {}, "response": [{}, {}]})); d.pointer_mut(part).unwrap()[a] = x.clone(); docs.push((format!("sync {} {}", part, n), d)); }
  }
  // all at once
  docs.push(("HTTP everything".into(), v4("Synchronous/HTTP", json!({"providerStates": params2, "request": {"headers": hs, "query": hs, "matchingRules": cats, "generators": gcats}, "response": {"headers": hs, "matchingRules": ac, "generators": body_gens}}))));
  docs.push(("async everything".into(), v4("Asynchronous/Messages", json!({"providerStates": params2, "metadata": md, "matchingRules": mcats, "generators": mgcats}))));
  let most = if run.thorough { 3000 } else { 400 };
  run.each("map orders", "every model value with maps of up to four entries, read again and again until every map has been in every order", &docs, |(name, d), rec| {
    rec.case(name.clone());
    rec.state(&d.to_string());
    let doc = json!({"consumer": {"name": "c"}, "provider": {"name": "p"}, "interactions": [d], "metadata": {"pactSpecification": {"version": "4.0"}}});
    let (mut hashes, mut keys, mut others, mut seen): (BTreeSet<Option<u64>>, BTreeSet<Option<String>>, BTreeSet<Option<u64>>, BTreeMap<String, BTreeSet<String>>) = Default::default();
    let mut unequal = 0;
    with_hash_seed(7, || {
      let first = load(&doc).unwrap().interactions().remove(0);
      for _ in 0..most {
        let i = load(&doc).unwrap().interactions().remove(0);
        hashes.insert(hash(&i)); keys.insert(key(&i));
        others.insert(i.as_request_response().map(|r| h(&r)));
        if !equal(&first, &i) { unequal += 1; }
        map_orders(&i, &mut seen);
      }
    });
    rec.steps(most * 3);
    // the orders were all there
    for (m, o) in &seen {
      let n = o.iter().next().unwrap().split('\u{1}').count();
      if n > 1 { rec.check(o.len() == (1..=n).product::<usize>(), "orders explored", || format!("{} was in {} orders only", m, o.len())); }
      rec.outcome(format!("{} entries in {} orders", n, o.len()));
    }
    rec.check(unequal == 0, "equal", || format!("{} times not equal to itself", unequal));
    rec.check(hashes.len() == 1, "hash", || format!("{} different hashes", hashes.len()));
    rec.check(keys.len() == 1, "key", || format!("different keys: {:?}", keys));
    rec.check(others.len() == 1, "older form", || format!("{} different hashes of the older form", others.len()));
    rec.trace();
  });
}
fn keys_of<K: std::fmt::Debug, V>(m: &HashMap<K, V>) -> String { m.keys().map(|k| format!("{:?}", k)).collect::<Vec<_>>().join("\u{1}") }
fn map_orders(i: &I, seen: &mut BTreeMap<String, BTreeSet<String>>) {
  let mut put = |n: &str, o: String| { if !o.is_empty() { seen.entry(n.to_string()).or_default().insert(o); } };
  for (n, s) in i.provider_states().iter().enumerate() { put(&format!("params {}", n), keys_of(&s.params)); }
  let mut parts: Vec<(String, MatchingRules, Generators)> = vec![];
  if let Some(x) = i.as_v4_http() {
    if let Some(hs) = &x.request.headers { put("request headers", keys_of(hs)); }
    if let Some(q) = &x.request.query { put("query", keys_of(q)); }
    if let Some(hs) = &x.response.headers { put("response headers", keys_of(hs)); }
    parts.push(("request".into(), x.request.matching_rules.clone(), x.request.generators.clone()));
    parts.push(("response".into(), x.response.matching_rules.clone(), x.response.generators.clone()));
  } else if let Some(x) = i.as_v4_async_message() {
    put("metadata", keys_of(&x.contents.metadata));
    parts.push(("contents".into(), x.contents.matching_rules.clone(), x.contents.generators.clone()));
  } else if let Some(x) = i.as_v4_sync_message() {
    for (n, c) in std::iter::once(&x.request).chain(&x.response).enumerate() {
      put(&format!("metadata {}", n), keys_of(&c.metadata));
      parts.push((format!("part {}", n), c.matching_rules.clone(), c.generators.clone()));
    }
  }
  for (n, r, g) in parts {
    put(&format!("{} rule categories", n), keys_of(&r.rules));
    put(&format!("{} generator categories", n), keys_of(&g.categories));
    for (c, r) in &r.rules {
      put(&format!("{} {} rules", n, c), keys_of(&r.rules));
      for l in r.rules.values() { for m in &l.rules { if let MatchingRule::ArrayContains(v) = m { for (_, r, g) in v { put(&format!("{} variant rules", n), keys_of(&r.rules)); put(&format!("{} variant generators", n), keys_of(g)); } } } }
    }
    for (c, g) in &g.categories { put(&format!("{} {} generators", n, format!("{:?}", c)), keys_of(g)); }
  }
}

/// Pairs of the parts themselves.
fn parts(run: &Run) {
  let rules: Vec<MatchingRule> = all_rules();
  let lists = |r: &MatchingRule| { let mut c = MatchingRuleCategory::empty("body"); c.add_rule(path("$.a"), r.clone(), RuleLogic::And); let mut m = MatchingRules::default(); m.add_rules("body", c); matchers_to_json(&m, &PactSpecification::V4) };
  run.pairs("rules", "every pair of matching rules", &rules, &rules, |a, b, rec| {
    let (x, y) = (lists(a), lists(b));
    rec.case(format!("{} <-> {}", x, y));
    rec.state(&(x.to_string(), y.to_string()));
    // rules with the same JSON are the same rule
    let same = x == y && std::mem::discriminant(a) == std::mem::discriminant(b);
    if same != (x == y) { return; }
    let eq = a == b;
    if let (true, MatchingRule::StatusCode(_), MatchingRule::StatusCode(_)) = (eq && !same, a, b) { rec.fail_key("status code rules for different statuses", format!("{:?} {:?}", a, b)); return; }
    rec.check(eq == same, if same { "not equal" } else { "equal" }, || format!("{:?} {:?}", a, b));
    if eq { rec.eq("hash", &h(a), &h(b)); }
    let (p, q) = (RuleList { rules: vec![a.clone(), MatchingRule::Type], rule_logic: RuleLogic::And, cascaded: false }, RuleList { rules: vec![b.clone(), MatchingRule::Type], rule_logic: RuleLogic::And, cascaded: false });
    rec.check((p == q) == same, "list", || format!("{:?} {:?}", p, q));
    let cat = |r: &MatchingRule, n: &str, l: RuleLogic| { let mut c = MatchingRuleCategory::empty(n); c.add_rule(path("$.a"), r.clone(), l); c };
    let set = |c: MatchingRuleCategory| { let mut m = MatchingRules::default(); m.add_rules(c.name.clone(), c); m };
    let (p, q) = (cat(a, "body", RuleLogic::And), cat(b, "body", RuleLogic::And));
    rec.check((p == q) == same && (p != q) != same, "category", || format!("{:?} {:?}", p, q));
    let (p, q) = (set(p), set(q));
    rec.check((p == q) == same, "rules", || format!("{:?} {:?}", p, q));
    if p == q { rec.eq("rules hash", &h(&p), &h(&q)); }
    if same {
      rec.check(set(cat(a, "header", RuleLogic::And)) != p, "category name", || format!("{:?}", p));
      rec.check(set(cat(a, "body", RuleLogic::Or)) != p, "logic", || format!("{:?}", p));
      let mut more = p.clone(); more.add_rules(Category::HEADER, cat(a, "header", RuleLogic::And));
      rec.check(more != p && p != more, "additional category", || format!("{:?}", p));
      let mut empty = p.clone(); empty.rules.insert(Category::QUERY, MatchingRuleCategory::empty("query"));
      rec.check(empty == p && h(&empty) == h(&p), "empty category", || format!("{:?}", p));
      let mut twice = cat(a, "body", RuleLogic::And); twice.rules.insert(path("$.b"), RuleList::new(a.clone()));
      rec.check(set(twice) != p, "additional path", || format!("{:?}", p));
    }
    rec.outcome(format!("rules {}", eq));
  });
  let gens: Vec<Generator> = simple_generators();
  run.pairs("generators", "every pair of generators", &gens, &gens, |a, b, rec| {
    let (x, y) = (format!("{:?}", a), format!("{:?}", b));
    rec.case(format!("{} <-> {}", x, y));
    rec.state(&(&x, &y));
    let same = x == y;
    rec.check((a == b) == same, if same { "not equal" } else { "equal" }, || format!("{} {}", x, y));
    if a == b { rec.eq("hash", &h(a), &h(b)); }
    let set = |g: &Generator, c: GeneratorCategory, p: &str| { let mut s = Generators::default(); s.add_generator_with_subcategory(&c, path(p), g.clone()); s };
    let (p, q) = (set(a, GeneratorCategory::BODY, "$.a"), set(b, GeneratorCategory::BODY, "$.a"));
    rec.check((p == q) == same, "set", || format!("{:?} {:?}", p, q));
    if same {
      rec.eq("set hash", &h(&p), &h(&q));
      rec.check(p != set(a, GeneratorCategory::HEADER, "$.a") && p != set(a, GeneratorCategory::BODY, "$.b") && p != Generators::default(), "place", || format!("{:?}", p));
      let mut empty = p.clone(); empty.categories.insert(GeneratorCategory::QUERY, HashMap::new());
      rec.check(empty == p && h(&empty) == h(&p), "empty category", || format!("{:?}", p));
    }
    rec.outcome(format!("generators {}", a == b));
  });
  let params: Vec<Value> = vec![Value::Null, json!(true), json!(false), json!(0), json!(1), json!(-1), json!(1.0), json!(0.0), json!(-0.0), json!(u64::MAX), json!(i64::MIN), json!(1e300), json!("1"), json!(""), json!([]), json!([1]), json!([[1]]), json!({}), json!({"a": 1}), json!({"a": {"a": null}})];
  let mut states = vec![ProviderState::default("s"), ProviderState::default("t"), ProviderState::default("")];
  for k in ["a", "b"] { for p in &params { let mut s = ProviderState::default("s"); s.params.insert(k.into(), p.clone()); states.push(s); } }
  for p in &params { let mut s = ProviderState::default("s"); s.params.insert("a".into(), p.clone()); s.params.insert("b".into(), json!(1)); states.push(s); }
  run.pairs("provider states", "every pair of provider states with up to two parameters", &states, &states, |a, b, rec| {
    rec.case(format!("{:?} <-> {:?}", a, b));
    rec.state(&(format!("{:?}", a), format!("{:?}", b)));
    let same = a.name == b.name && a.params.len() == b.params.len() && a.params.iter().all(|(k, v)| b.params.get(k) == Some(v));
    rec.check((a == b) == same, if same { "not equal" } else { "equal" }, || format!("{:?} {:?}", a, b));
    if a == b { rec.eq("hash", &h(a), &h(b)); }
    // metadata of messages
    let md = |s: &ProviderState| MessageContents { metadata: s.params.clone(), ..Default::default() };
    rec.check((md(a) == md(b)) == (a.params == b.params), "metadata", || format!("{:?} {:?}", a, b));
    if md(a) == md(b) { rec.eq("metadata hash", &h(&md(a)), &h(&md(b))); }
    rec.outcome(format!("states {}", a == b));
  });
  let bodies: Vec<OptionalBody> = vec![OptionalBody::Missing, OptionalBody::Empty, OptionalBody::Null, OptionalBody::from(""), OptionalBody::from("a"), OptionalBody::from("b"), OptionalBody::from("null"), OptionalBody::from("ab")];
  run.pairs("bodies", "every pair of body states", &bodies, &bodies, |a, b, rec| {
    rec.case(format!("{:?} <-> {:?}", a, b));
    rec.state(&(body(a), body(b)));
    let same = body(a) == body(b);
    rec.check((a == b) == same, if same { "not equal" } else { "equal" }, String::new);
    if a == b { rec.eq("hash", &h(a), &h(b)); }
  });
}

/// Generated keys: the same as long as the content is, kept in the file, and given keys are left alone.
fn generated(run: &Run) {
  for k in kinds().iter().filter(|k| k.version == PactSpecification::V4) {
    let cs = choices(k, if run.thorough { 2 } else { 1 });
    run.each(&format!("{} keys", k.name), "every document with up to one (thorough: two) attribute alternatives", &cs, |c, rec| {
      rec.case(k.label(c));
      let (i, _) = k.interaction(c);
      rec.state(&i.to_string());
      let given = i["key"].as_str().map(|s| s.to_string()).or(i["key"].as_i64().map(|n| n.to_string()));
      let one = load(&k.pact(vec![i.clone()])).unwrap().interactions().remove(0);
      let v4 = one.as_v4().unwrap();
      let key = v4.unique_key();
      if let Some(g) = &given { rec.eq("given key", g, &key); }
      rec.check(!key.is_empty() || given.is_some(), "key", String::new);
      let keyed = v4.with_unique_key();
      // a key is calculated whether one was given or not
      let key = if given.is_some() { let mut i = i.clone(); i.as_object_mut().unwrap().remove("key"); load(&k.pact(vec![i])).unwrap().interactions().remove(0).as_v4().unwrap().unique_key() } else { key };
      rec.eq("key set", &Some(key.clone()), &keyed.key());
      rec.eq("key again", &key, &keyed.unique_key());
      rec.eq("original left alone", &given, &v4.key());
      let mut out = keyed.to_json();
      rec.eq("key written", &json!(key), &out["key"]);
      let again = load(&k.pact(vec![out.clone()])).unwrap().interactions().remove(0);
      rec.eq("key read", &key, &again.as_v4().unwrap().unique_key());
      rec.check(again.as_v4().unwrap() == keyed.clone() || i.to_string().contains(":null") || i.to_string().contains("[null"), "equal", || format!("{:?}\n{:?}", again.as_v4().map(|i| i.to_json()), keyed.to_json()));
      if given.is_none() {
        out.as_object_mut().unwrap().remove("key");
        let fresh = load(&k.pact(vec![out.clone()])).unwrap().interactions().remove(0).as_v4().unwrap();
        let null = |v: &Value| v.to_string().contains("null");
        if !null(&i) && fresh == v4 { rec.eq("key of the written form", &key, &fresh.unique_key()); }
      }
      rec.steps(5);
      rec.trace();
    });
  }
}

pub fn c06(run: &Run) { pairs(run); orders(run); parts(run); generated(run); }
