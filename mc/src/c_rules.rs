//! C12 (matching rules survive serialisation), C13 (selection of the most specific rule), C15 (generators survive serialisation).
use crate::os::with_hash_seed;
use crate::vals::*;
use mccore::util::permutations;
use mccore::*;
use pact_models::generators::{generators_from_json, generators_to_json, Generator, GeneratorCategory, Generators, UuidFormat};
use pact_models::matchingrules::{matchers_from_json, matchers_to_json, Category, MatchingRule, MatchingRuleCategory, MatchingRules, RuleList, RuleLogic};
use pact_models::path_exp::{DocPath, PathToken};
use pact_models::{HttpStatus, PactSpecification};
use serde_json::{json, Map, Value};
use std::collections::BTreeMap;

/// The meaning of a set of rules, independent of how a path is spelled: category -> path tokens -> (logic, rules).
pub fn meaning(r: &MatchingRules) -> BTreeMap<String, BTreeMap<String, String>> {
  let mut out = BTreeMap::new();
  for (c, cat) in &r.rules {
    let mut m = BTreeMap::new();
    for (p, l) in &cat.rules { m.insert(format!("{:?}", p.tokens()), format!("{:?} {}", l.rule_logic, l.rules.iter().map(describe).collect::<Vec<_>>().join(" + "))); }
    if !m.is_empty() { out.insert(format!("{:?}/{:?}", c, cat.name), m); }
  }
  out
}
/// A rule with everything in it, maps in a fixed order.
pub fn describe(r: &MatchingRule) -> String {
  match r {
    MatchingRule::ArrayContains(vs) => format!("ArrayContains{:?}", vs.iter().map(|(i, c, g)| {
      let rules: BTreeMap<String, String> = c.rules.iter().map(|(p, l)| (format!("{:?}", p.tokens()), format!("{:?} {:?}", l.rule_logic, l.rules.iter().map(describe).collect::<Vec<_>>()))).collect();
      let gens: BTreeMap<String, String> = g.iter().map(|(p, g)| (format!("{:?}", p.tokens()), format!("{:?}", g))).collect();
      format!("{} {:?} {:?} {:?}", i, c.name, rules, gens)
    }).collect::<Vec<_>>()),
    MatchingRule::EachKey(d) | MatchingRule::EachValue(d) => format!("{}({:?} {:?} {:?})", r.name(), d.value,
      d.rules.iter().map(|r| r.as_ref().left().map(describe).unwrap_or_default()).collect::<Vec<_>>(), d.generator),
    r => format!("{:?}", r),
  }
}

fn category_paths(c: &Category) -> Vec<DocPath> {
  let named = |n: &[&str]| n.iter().map(|n| { let mut p = DocPath::root(); p.push_field(*n); p }).collect::<Vec<_>>();
  match c {
    Category::PATH | Category::STATUS | Category::METHOD => vec![DocPath::empty()],
    Category::HEADER => named(&["X-A", "content-type", "X.B", "x y", "a[0]", "é", "$x"]),
    Category::QUERY => named(&["q", "a-b", "q.r", "q[]", "q[0]", "x y", "é", "'", "$", "*"]),
    Category::METADATA => { let mut v = named(&["topic", "a b", "é", "contentType"]); v.push(path("topic")); v }
    _ => vec![path("$"), path("$.a"), path("$.*"), path("$[*]"), path("$[0].b"), path("$['a b']"), path("$['x$y'].z"), path("$['a\\'b']"), path("$.a.*[1]['é']"), path("$['body']"), path("$['$.body']"), path("$.a-b:c")],
  }
}

const CATEGORIES: [Category; 8] = [Category::METHOD, Category::PATH, Category::HEADER, Category::QUERY, Category::BODY, Category::STATUS, Category::CONTENTS, Category::METADATA];

fn through(rec: &mut Rec, rules: &MatchingRules, v: PactSpecification) -> Option<MatchingRules> {
  let json = rec.no_panic("to_json", || matchers_to_json(rules, &v))?;
  // Documents are text: what is read is what the text says.
  let text = json.to_string();
  let back: Value = serde_json::from_str(&text).ok()?;
  match rec.no_panic("from_json", || matchers_from_json(&json!({ "matchingRules": back }), &None))? {
    Ok(r) => Some(r),
    Err(e) => { rec.fail("from_json", format!("{} is rejected: {}", text, e)); None }
  }
}

fn same(rec: &mut Rec, rules: &MatchingRules, v: PactSpecification, class: &str) {
  rec.steps(1); rec.trace();
  if let Some(back) = through(rec, rules, v) {
    let (a, b) = (meaning(rules), meaning(&back));
    rec.state(&format!("{:?}", b));
    if a != b { rec.fail(class, format!("{:?} came back as {:?}", a, b)); }
    // A second trip changes nothing and compares equal.
    if let Some(again) = through(rec, &back, v) {
      rec.check(again == back, &format!("{}-stable", class), || format!("{:?} / {:?}", again, back));
    }
  }
}

pub fn c12(run: &Run) {
  let rules = all_rules();
  let slots: Vec<(Category, DocPath)> = CATEGORIES.iter().flat_map(|c| category_paths(c).into_iter().map(move |p| (c.clone(), p))).collect();
  run.pairs("rule-slot-v3", "every rule kind with every parameter, in every category and path shape, written as V3 and V4 and read back", &rules, &slots, |r, (c, p), rec| {
    rec.case(format!("{} at {:?} {}", describe(r), c, p));
    rec.outcome(r.name());
    let mut m = MatchingRules::default();
    m.add_category(c.clone()).add_rule(p.clone(), r.clone(), RuleLogic::And);
    for v in [PactSpecification::V3, PactSpecification::V4] { same(rec, &m, v, "v3"); }
  });
  let kinds = kind_rules();
  let nk = kinds.len() as u64;
  run.explore("combined", "every pair of rule kinds combined with AND and OR in every category, beside a second path", nk * nk * 2 * 8, |i, rec| {
    let d = digits(i, &[kinds.len(), kinds.len(), 2, 8]);
    let (a, b) = (kinds[d[0]].clone(), kinds[d[1]].clone());
    let logic = if d[2] == 0 { RuleLogic::And } else { RuleLogic::Or };
    let c = &CATEGORIES[d[3]];
    rec.case(format!("{} {:?} {} in {:?}", describe(&a), logic, describe(&b), c));
    rec.outcome(format!("{:?}", c));
    let ps = category_paths(c);
    let mut m = MatchingRules::default();
    m.add_category(c.clone()).add_rule(ps[0].clone(), a.clone(), logic);
    m.add_category(c.clone()).add_rule(ps[0].clone(), b.clone(), logic);
    if ps.len() > 1 { m.add_category(c.clone()).add_rule(ps[1].clone(), b, RuleLogic::And); }
    // a second category must not be mixed up with the first
    let other = &CATEGORIES[(d[3] + 3) % 8];
    m.add_category(other.clone()).add_rule(category_paths(other)[0].clone(), a, RuleLogic::And);
    for v in [PactSpecification::V3, PactSpecification::V4] { same(rec, &m, v, "v3"); }
  });
  // V2 form: one rule per path, AND.
  let v2cats = [Category::PATH, Category::HEADER, Category::QUERY, Category::BODY];
  let v2slots: Vec<(Category, DocPath)> = v2cats.iter().flat_map(|c| category_paths(c).into_iter().map(move |p| (c.clone(), p))).collect();
  let v2rules: Vec<MatchingRule> = simple_rules().into_iter().filter(|r| matches!(r, MatchingRule::Equality | MatchingRule::Regex(_) | MatchingRule::Type | MatchingRule::MinType(_) | MatchingRule::MaxType(_) | MatchingRule::MinMaxType(_, _))).collect();
  run.pairs("rule-slot-v2", "every rule of the V2 format in every V2 category and path shape, written as V2 and read back", &v2rules, &v2slots, |r, (c, p), rec| {
    rec.case(format!("{} at {:?} {}", describe(r), c, p));
    rec.outcome(r.name());
    let mut m = MatchingRules::default();
    m.add_category(c.clone()).add_rule(p.clone(), r.clone(), RuleLogic::And);
    for v in [PactSpecification::V1_1, PactSpecification::V2] { same(rec, &m, v, "v2"); }
  });
  run.pairs("v2-two-slots", "every pair of V2 rule locations", &v2slots, &v2slots, |(c1, p1), (c2, p2), rec| {
    rec.case(format!("{:?} {} and {:?} {}", c1, p1, c2, p2));
    let mut m = MatchingRules::default();
    m.add_category(c1.clone()).add_rule(p1.clone(), MatchingRule::Type, RuleLogic::And);
    if (c1, p1) != (c2, p2) { m.add_category(c2.clone()).add_rule(p2.clone(), MatchingRule::Regex("x".into()), RuleLogic::And); }
    same(rec, &m, PactSpecification::V2, "v2");
    same(rec, &m, PactSpecification::V3, "v3");
  });
  // Rules for single values of a header or parameter: the format has names only.
  let positions: Vec<(Category, &str, &str)> = [Category::HEADER, Category::QUERY].into_iter().flat_map(|c| [("$.a[0]", "$.a[1]"), ("$.a", "$.a[0]"), ("$.a", "$.b[0]"), ("$.a[0]", "$.b")].into_iter().map(move |(p, q)| (c.clone(), p, q))).collect();
  run.each("positions", "pairs of rules for values of headers and parameters, written as V3 and V4 and read back: no rule gets lost", &positions, |(c, p, q), rec| {
    rec.case(format!("{:?} {} and {}", c, p, q));
    let mut m = MatchingRules::default();
    m.add_category(c.clone()).add_rule(path(p), MatchingRule::Type, RuleLogic::And);
    m.add_category(c.clone()).add_rule(path(q), MatchingRule::Regex("x".into()), RuleLogic::And);
    for v in [PactSpecification::V3, PactSpecification::V4] {
      rec.trace();
      let Some(back) = through(rec, &m, v) else { return };
      let left: usize = back.rules_for_category(c.clone()).map(|c| c.rules.values().map(|l| l.rules.len()).sum()).unwrap_or(0);
      if left != 2 { rec.fail_key(&format!("positions of values of {:?}", c), format!("{} of 2 rules came back", left)); }
    }
  });
  // A rule definition is read as exactly the rule it names.
  definitions(run);
  // Name and attributes of a rule recreate it.
  run.each("recreate", "every rule is recreated by its reported name and attributes", &rules, |r, rec| {
    rec.case(describe(r));
    if let MatchingRule::ArrayContains(_) = r { return; } // reported in a form of its own
    rec.trace();
    if let Some((n, v)) = rec.no_panic("values", || (r.name(), r.values())) {
      let attrs = Value::Object(v.into_iter().map(|(k, v)| (k.to_string(), v)).collect());
      match rec.no_panic("create", || MatchingRule::create(&n, &attrs)) {
        Some(Ok(r2)) => { rec.check(describe(&r2) == describe(r), "recreate", || format!("{} {} gives {}", n, attrs, describe(&r2))); }
        Some(Err(e)) => rec.fail("recreate", format!("{} {}: {}", n, attrs, e)),
        None => {}
      }
    }
  });
}

/// Which rule a definition names, following the specification's table. None: it must be rejected.
fn ref_rule(v: &Value) -> Option<String> {
  use MatchingRule::*;
  let m = v.as_object()?;
  let text = |k: &str| m.get(k).map(|v| match v { Value::String(s) => s.clone(), Value::Null => "".into(), v => v.to_string() });
  let num = |k: &str| m.get(k).and_then(|v| match v { Value::Number(n) => n.as_u64().map(|n| n as usize), Value::String(s) => s.parse().ok(), _ => None });
  let r = match m.get("match").or(m.get("pact:matcher:type")) {
    Some(Value::String(kind)) => match kind.as_str() {
      "equality" => Equality, "number" => Number, "integer" => Integer, "decimal" | "real" => Decimal, "boolean" => Boolean, "null" => Null, "values" => Values, "notEmpty" | "not-empty" => NotEmpty, "semver" => Semver,
      "regex" => Regex(text("regex")?), "include" => Include(text("value")?), "contentType" | "content-type" => ContentType(text("value")?),
      "type" => match (num("min"), num("max")) { (Some(a), Some(b)) => MinMaxType(a, b), (Some(a), None) => MinType(a), (None, Some(b)) => MaxType(b), _ => Type },
      "min" | "min-type" => MinType(num("min")?), "max" | "max-type" => MaxType(num("max")?), "min-max-type" => MinMaxType(num("min")?, num("max")?),
      "timestamp" | "datetime" => Timestamp(text("format").or(text(kind)).unwrap_or_default()),
      "date" => Date(text("format").or(text("date")).unwrap_or_default()), "time" => Time(text("format").or(text("time")).unwrap_or_default()),
      "statusCode" | "status-code" => StatusCode(match m.get("status") {
        None => HttpStatus::Success,
        Some(Value::String(s)) => match s.as_str() { "info" => HttpStatus::Information, "success" => HttpStatus::Success, "redirect" => HttpStatus::Redirect, "clientError" => HttpStatus::ClientError, "serverError" => HttpStatus::ServerError,
          "nonError" => HttpStatus::NonError, "error" => HttpStatus::Error, _ => return None },
        Some(Value::Array(a)) => HttpStatus::StatusCodes(a.iter().map(|v| match v { Value::Number(n) => n.as_u64().and_then(|n| u16::try_from(n).ok()), Value::String(s) => s.parse().ok(), _ => None }).collect::<Option<Vec<u16>>>()?),
        Some(_) => return None }),
      _ => return None,
    },
    Some(_) => return None,
    None => if let Some(t) = text("regex") { Regex(t) } else if let Some(n) = num("min") { MinType(n) } else if let Some(n) = num("max") { MaxType(n) }
      else if let Some(t) = text("timestamp") { Timestamp(t) } else if let Some(t) = text("time") { Time(t) } else if let Some(t) = text("date") { Date(t) } else { return None },
  };
  Some(describe(&r))
}

fn definitions(run: &Run) {
  let kinds = ["regex", "equality", "include", "type", "number", "integer", "decimal", "real", "boolean", "min", "max", "min-type", "max-type", "min-max-type", "timestamp", "datetime", "date", "time", "null",
    "contentType", "content-type", "values", "statusCode", "status-code", "notEmpty", "not-empty", "semver", "", "Type", "unknown"];
  let attrs: [(&str, Vec<Value>); 9] = [("regex", vec![json!("\\d"), json!(1)]), ("value", vec![json!("v"), json!(true)]), ("min", vec![json!(0), json!(2), json!("3")]), ("max", vec![json!(0), json!(5), json!("6")]),
    ("format", vec![json!("yyyy"), json!(1)]), ("timestamp", vec![json!("t1")]), ("date", vec![json!("d1")]), ("time", vec![json!("t2")]),
    ("status", vec![json!("success"), json!("info"), json!("redirect"), json!("clientError"), json!("serverError"), json!("nonError"), json!("error"), json!("other"), json!([200, "201"]), json!([]), json!([70000]), json!([-1]), json!(["x"]), json!(200), json!(null)])];
  // Every kind with every subset of at most three of the attributes.
  let mut combos: Vec<Vec<(&str, Value)>> = vec![vec![]];
  for (i, (k, vs)) in attrs.iter().enumerate() {
    for v in vs { combos.push(vec![(k, v.clone())]);
      for (k2, vs2) in attrs.iter().skip(i + 1) { for v2 in vs2 { combos.push(vec![(k, v.clone()), (k2, v2.clone())]);
        if i < 4 { for (k3, vs3) in attrs.iter().skip(4) { if k3 > k2 { combos.push(vec![(k, v.clone()), (k2, v2.clone()), (k3, vs3[0].clone())]); } } } } } }
  }
  let mut docs: Vec<Value> = vec![json!(null), json!([]), json!("type"), json!(1)];
  for c in &combos {
    let base: Map<String, Value> = c.iter().map(|(k, v)| (k.to_string(), v.clone())).collect();
    docs.push(Value::Object(base.clone()));
    for k in kinds { for name in ["match", "pact:matcher:type"] { let mut m = base.clone(); m.insert(name.into(), json!(k)); docs.push(Value::Object(m)); } }
  }
  run.each("definitions", "every rule type name with every combination of up to three attributes is read as the rule it names, or rejected", &docs, |d, rec| {
    rec.case(d.to_string()); rec.trace();
    let want = ref_rule(d);
    match rec.no_panic("parse", || MatchingRule::from_json(d)) {
      Some(Ok(r)) => { rec.outcome(r.name()); rec.state(&describe(&r));
        match &want { Some(w) => { rec.check(&describe(&r) == w, "definition", || format!("names {}, read as {}", w, describe(&r))); } None => rec.fail("definition", format!("is not valid, read as {}", describe(&r))) } }
      Some(Err(e)) => { rec.outcome("rejected"); if let Some(w) = &want { rec.fail("definition", format!("names {}, rejected: {}", w, e)); } }
      None => {}
    }
  });
}

// ---------------------------------------------------------------- C13

fn c13_paths() -> Vec<DocPath> {
  ["$", "$.a", "$.b", "$.*", "$[*]", "$[0]", "$[1]", "$.a.b", "$.a.*", "$.*.b", "$.*.*", "$.a[0]", "$.a[*]", "$.a[*].b", "$.*[0].b", "$.a[0].b", "$.a.*.b", "$['a']", "a", ""].iter().map(|s| path(s)).collect()
}

/// Weight as the specification defines it: 2 for a name or index, 1 for a wildcard, 0 if any token does not match; times the length.
/// One is added to that of a matching expression, as an expression without tokens matches everything with no weight at all.
fn ref_weight(p: &DocPath, at: &[&str]) -> u64 {
  if p.len() > at.len() { return 0; }
  let mut w = 1;
  for (t, f) in p.tokens().iter().zip(at) {
    w *= match t {
      PathToken::Root => if *f == "$" { 2 } else { 0 },
      PathToken::Field(n) => if n == f { 2 } else { 0 },
      PathToken::Index(n) => if n.to_string() == *f { 2 } else { 0 },
      PathToken::Star => 1,
      PathToken::StarIndex => if *f == "[*]" || f.parse::<usize>().is_ok() { 1 } else { 0 },
    };
    if w == 0 { return 0; }
  }
  1 + w * p.len() as u64
}

/// The rules at the i-th expression, and how they are combined: every list is distinct, so it names its expression.
fn c13_list(i: usize) -> Vec<MatchingRule> { if i % 3 == 0 { vec![MatchingRule::MinType(i)] } else { vec![MatchingRule::MinType(i), MatchingRule::Null] } }
fn c13_logic(i: usize) -> RuleLogic { if i % 2 == 0 { RuleLogic::And } else { RuleLogic::Or } }

pub fn c13(run: &Run) {
  let exprs = c13_paths();
  let at: Vec<Vec<&str>> = vec![vec!["$"], vec!["$", "a"], vec!["$", "b"], vec!["$", "0"], vec!["$", "1"], vec!["$", "a", "b"], vec!["$", "a", "c"], vec!["$", "c", "b"], vec!["$", "a", "0"], vec!["$", "a", "1"], vec!["$", "a", "0", "b"], vec!["$", "a", "1", "b"],
    vec!["$", "c", "0", "b"], vec!["$", "a", "x", "b"], vec!["$", "a", "0", "b", "c"], vec!["$", "x"], vec!["a"], vec![]];
  // sets of up to 3 expressions
  let n = exprs.len();
  let mut sets: Vec<Vec<usize>> = vec![vec![]];
  for a in 0..n { sets.push(vec![a]); for b in a + 1..n { sets.push(vec![a, b]); for c in b + 1..n { sets.push(vec![a, b, c]); } } }
  let cats = [Category::BODY, Category::METADATA, Category::HEADER, Category::QUERY, Category::CONTENTS];
  let seeds = 8u64;
  run.pairs("select", "every set of up to three expressions out of 20, in every insertion order and 8 hash seeds, for every path out of 18 and every category", &sets, &cats, |set, cat, rec| {
    rec.case(format!("{:?} {:?}", cat, set.iter().map(|i| exprs[*i].to_string()).collect::<Vec<_>>()));
    rec.state(&(set, format!("{:?}", cat)));
    // (the rule list chosen for each path) per order and seed; every rule list is distinct, so it names its expression
    let orders = permutations(set.len());
    let mut all: Vec<Vec<(String, bool, bool, bool)>> = vec![];
    let n_seeds = if set.len() < 2 { 1 } else { seeds };
    for seed in 0..n_seeds {
      let got = with_hash_seed(seed * 7919 + 13, || orders.iter().map(|order| {
        let mut c = MatchingRuleCategory::empty(cat.clone());
        for o in order { for r in c13_list(set[*o]) { c.add_rule(exprs[set[*o]].clone(), r, c13_logic(set[*o])); } }
        let mut rules = MatchingRules::default(); rules.add_rules(cat.clone(), c.clone());
        at.iter().map(|p| {
          let l = c.select_best_matcher(p);
          (format!("{:?} {:?}", l.rule_logic, l.rules), l.cascaded, c.matcher_is_defined(p), rules.matcher_is_defined(cat.clone(), p))
        }).collect::<Vec<_>>()
      }).collect::<Vec<_>>());
      rec.steps((orders.len() * at.len()) as u64);
      all.extend(got);
    }
    rec.trace();
    for (k, p) in at.iter().enumerate() {
      let first = &all[0][k];
      if let Some(other) = all.iter().find(|a| &a[k] != first) { rec.fail("order-dependent", format!("path {:?}: {:?} or {:?} depending on order", p, first, other[k])); continue; }
      let weights: Vec<(u64, usize)> = set.iter().map(|i| (ref_weight(&exprs[*i], p), *i)).collect();
      let best = weights.iter().map(|w| w.0).max().unwrap_or(0);
      let ok: Vec<String> = weights.iter().filter(|w| w.0 == best && best > 0).map(|w| format!("{:?} {:?}", c13_logic(w.1), c13_list(w.1))).collect();
      rec.outcome(if best == 0 { "none" } else if ok.len() > 1 { "tie" } else { "one" });
      if best == 0 { rec.check(first.0 == "And []", "chosen", || format!("path {:?}: nothing matches but {} is chosen", p, first.0)); }
      else {
        rec.check(ok.contains(&first.0), "chosen", || format!("path {:?}: {} chosen, the most specific are {:?}", p, first.0, ok));
        if let Some(w) = weights.iter().find(|w| format!("{:?} {:?}", c13_logic(w.1), c13_list(w.1)) == first.0) {
          if matches!(cat, Category::BODY | Category::METADATA) {
            let inherited = exprs[w.1].len() != p.len();
            rec.check(first.1 == inherited, "inherited", || format!("path {:?}: {} marked inherited={}", p, exprs[w.1], first.1));
          }
        }
      }
      rec.check(first.2 == (best > 0) && first.3 == (best > 0), "defined", || format!("path {:?}: defined={}/{} but best weight {}", p, first.2, first.3, best));
    }
  });
  // Queries over a whole set of rules: categories are independent.
  let kinds = [MatchingRule::Type, MatchingRule::MinType(1), MatchingRule::Regex("x".into()), MatchingRule::Values];
  let few: Vec<DocPath> = ["$", "$.a", "$.*", "$.a.*", "$[*]"].iter().map(|s| path(s)).collect();
  run.explore("categories", "every placement of a rule in one category, asked for in every category", (CATEGORIES.len() * few.len() * kinds.len() * CATEGORIES.len()) as u64, |i, rec| {
    let d = digits(i, &[CATEGORIES.len(), few.len(), kinds.len(), CATEGORIES.len()]);
    let (c, p, r, q) = (&CATEGORIES[d[0]], &few[d[1]], &kinds[d[2]], &CATEGORIES[d[3]]);
    rec.case(format!("{:?} at {:?} {}, asked for {:?}", r, c, p, q)); rec.trace();
    let mut m = MatchingRules::default();
    m.add_category(c.clone()).add_rule(p.clone(), r.clone(), RuleLogic::And);
    let filtered = matches!(c, Category::HEADER | Category::QUERY | Category::BODY | Category::CONTENTS | Category::METADATA);
    for a in &at {
      let applies = c == q && (!filtered || ref_weight(p, a) > 0);
      rec.outcome(format!("{}", applies));
      rec.eq("defined", &applies, &m.matcher_is_defined(q.clone(), a));
      let is_type = matches!(r, MatchingRule::Type | MatchingRule::MinType(_));
      rec.eq("type-defined", &(applies && is_type), &m.type_matcher_defined(q.clone(), a));
      let wild = c == q && p.is_wildcard() && match c { Category::BODY => ref_weight(p, a) > 0 && p.len() == a.len(), Category::HEADER | Category::QUERY => a.len() == 1 && p.first_field() == Some(a[0]), _ => true };
      rec.eq("wildcard-defined", &wild, &m.wildcard_matcher_is_defined(q.clone(), a));
      let l = m.resolve_body_matchers_by_path(a);
      rec.eq("body", &(c == &Category::BODY && ref_weight(p, a) > 0), &!l.is_empty());
      if !l.is_empty() { rec.eq("body-inherited", &(p.len() != a.len()), &l.cascaded); }
      let res = m.resolve_matchers(q.clone(), a);
      rec.eq("resolve", &applies, &res.map(|r| r.is_not_empty()).unwrap_or(false));
    }
  });
  // Set operations on rule lists and categories.
  let kr = kind_rules();
  run.pairs("lists", "every pair of rule kinds: lists keep, combine, filter and de-duplicate rules", &kr, &kr, |a, b, rec| {
    rec.case(format!("{} , {}", describe(a), describe(b))); rec.trace();
    let mut l = RuleList::new(a.clone()); l.add_rule(b);
    rec.eq("add", &vec![describe(a), describe(b)], &l.rules.iter().map(describe).collect());
    rec.eq("and", &vec![describe(a), describe(b), describe(b), describe(a)], &l.and_rules(&RuleList { rules: vec![b.clone(), a.clone()], rule_logic: RuleLogic::Or, cascaded: true }).rules.iter().map(describe).collect());
    let d = l.and_rules(&l).remove_duplicates();
    let want: Vec<String> = if describe(a) == describe(b) { vec![describe(a)] } else { vec![describe(a), describe(b)] };
    let unique: Vec<String> = d.rules.iter().map(describe).collect();
    let status = |r: &MatchingRule| matches!(r, MatchingRule::StatusCode(_));
    if status(a) && status(b) && unique.len() < want.len() && unique.first() == want.first() {
      rec.fail_key("status code rules for different statuses", format!("{:?} is left of {:?}", unique, want));
    } else {
      rec.eq("unique", &want, &unique);
    }
    let t = |r: &MatchingRule| matches!(r, MatchingRule::Type | MatchingRule::MinType(_) | MatchingRule::MaxType(_) | MatchingRule::MinMaxType(..));
    let v = |r: &MatchingRule| matches!(r, MatchingRule::Values | MatchingRule::EachValue(_));
    rec.eq("type_matcher_defined", &(t(a) || t(b)), &l.type_matcher_defined());
    rec.eq("values_matcher_defined", &(v(a) || v(b)), &l.values_matcher_defined());
    rec.eq("has_non_type_matchers", &(!t(a) || !t(b)), &l.has_non_type_matchers());
    rec.eq("filter", &[a, b].iter().filter(|r| t(r)).map(|r| describe(r)).collect::<Vec<_>>(), &l.filter(|r| r.is_type_matcher()).rules.iter().map(describe).collect());
    rec.eq("cascades", &!matches!(a, MatchingRule::Values | MatchingRule::EachValue(_) | MatchingRule::EachKey(_)), &a.can_cascade());
    rec.eq("length-matcher", &matches!(a, MatchingRule::MinType(_) | MatchingRule::MaxType(_) | MatchingRule::MinMaxType(..)), &a.is_length_type_matcher());
    let single = if a.is_length_type_matcher() { MatchingRule::Type } else { a.clone() };
    rec.eq("single-item", &describe(&single), &describe(&a.for_single_item()));
    rec.eq("cascaded-flag", &(true, false, describe(a)), &{ let c = l.as_cascaded(true); (c.cascaded, c.as_cascaded(false).cascaded, describe(&c.rules[0])) });
    // merging two sets
    for (c1, c2) in [("body", "body"), ("body", "header")] {
      let mut m1 = MatchingRules::default(); m1.add_category(c1).add_rule(path("$.a"), a.clone(), RuleLogic::Or);
      let mut m2 = MatchingRules::default(); m2.add_category(c2).add_rule(path("$.a"), b.clone(), RuleLogic::And); m2.add_category(c2).add_rule(path("$.b"), b.clone(), RuleLogic::And);
      let before = meaning(&m2);
      m1.merge(&m2);
      rec.eq("merge-source", &before, &meaning(&m2));
      let mut want = MatchingRules::default(); want.add_category(c1).add_rule(path("$.a"), a.clone(), RuleLogic::Or);
      want.add_category(c2).add_rule(path("$.a"), b.clone(), RuleLogic::And); want.add_category(c2).add_rule(path("$.b"), b.clone(), RuleLogic::And);
      rec.eq("merge", &meaning(&want), &meaning(&m1));
      let ren = m1.rename(c1, "metadata");
      rec.eq("rename", &m1.rules_for_category(c1).map(|c| c.rules.len()), &ren.rules_for_category("metadata").map(|c| c.rules.len()));
      rec.check(ren.rules_for_category(c1).is_none(), "rename", || "the old name is still there".into());
      rec.eq("rename-name", &Some(Category::METADATA), &ren.rules_for_category("metadata").map(|c| c.name));
    }
  });
}

// ---------------------------------------------------------------- C15

const GCATS: [GeneratorCategory; 7] = [GeneratorCategory::METHOD, GeneratorCategory::PATH, GeneratorCategory::HEADER, GeneratorCategory::QUERY, GeneratorCategory::BODY, GeneratorCategory::STATUS, GeneratorCategory::METADATA];

pub fn gen_meaning(g: &Generators) -> BTreeMap<String, String> {
  let mut out = BTreeMap::new();
  for (c, m) in &g.categories { for (p, g) in m { out.insert(format!("{:?} {:?}", c, p.tokens()), format!("{:?}", g)); } }
  out
}
fn gen_paths(c: &GeneratorCategory) -> Vec<DocPath> {
  let c: Category = (*c).into();
  let mut v = category_paths(&c);
  let mut seen = std::collections::HashSet::new();
  v.retain(|p| seen.insert(format!("{:?}", p.tokens())));
  v
}

pub fn c15(run: &Run) {
  let gens = simple_generators();
  let slots: Vec<(GeneratorCategory, DocPath)> = GCATS.iter().flat_map(|c| gen_paths(c).into_iter().map(move |p| (*c, p))).collect();
  let trip = |rec: &mut Rec, g: &Generators| {
    for v in [PactSpecification::V3, PactSpecification::V4] {
      rec.trace();
      let Some(j) = rec.no_panic("to_json", || generators_to_json(g, &v)) else { return };
      let text = json!({ "generators": j }).to_string();
      let doc: Value = serde_json::from_str(&text).unwrap();
      match rec.no_panic("from_json", || generators_from_json(&doc)) {
        Some(Ok(b)) => { rec.state(&format!("{:?}", gen_meaning(&b))); rec.eq("roundtrip", &gen_meaning(g), &gen_meaning(&b)); }
        Some(Err(e)) => rec.fail("from_json", format!("{}: {}", text, e)),
        None => {}
      }
    }
    for v in [PactSpecification::V1, PactSpecification::V1_1, PactSpecification::V2] { rec.check(generators_to_json(g, &v).is_null(), "old-version", || "generators in a document of a version without them".into()); }
  };
  run.pairs("gen-slot", "every generator kind with every parameter, in every category and path shape, written and read back", &gens, &slots, |g, (c, p), rec| {
    rec.case(format!("{:?} at {:?} {}", g, c, p)); rec.outcome(g.name());
    let mut gs = Generators::default(); gs.add_generator_with_subcategory(c, p.clone(), g.clone());
    trip(rec, &gs);
  });
  let kinds = kind_generators();
  run.pairs("gen-two", "every pair of generator locations and, along the diagonal, kinds", &slots, &slots, |(c1, p1), (c2, p2), rec| {
    rec.case(format!("{:?} {} and {:?} {}", c1, p1, c2, p2));
    for (i, k) in kinds.iter().enumerate() {
      let mut gs = Generators::default();
      gs.add_generator_with_subcategory(c1, p1.clone(), k.clone());
      let mut other = Generators::default(); other.add_generator_with_subcategory(c2, p2.clone(), kinds[(i + 1) % kinds.len()].clone());
      let mut want = gen_meaning(&gs); want.extend(gen_meaning(&other));
      gs.add_generators(other);
      rec.eq("add", &want, &gen_meaning(&gs));
      rec.check(gs.is_not_empty() && !gs.is_empty(), "empty", || "not empty expected".into());
      if i < 2 { trip(rec, &gs); }
    }
  });
  // Generators for single values of a header or parameter: the format has names only.
  let positions: Vec<(GeneratorCategory, &str, &str)> = [GeneratorCategory::HEADER, GeneratorCategory::QUERY].into_iter().flat_map(|c| [("$.a[0]", "$.a[1]"), ("$.a", "$.a[0]"), ("$.a", "$.b[0]"), ("$.a[0]", "$.b")].into_iter().map(move |(p, q)| (c, p, q))).collect();
  run.each("positions", "pairs of generators for values of headers and parameters, written as V3 and V4 and read back: no generator gets lost", &positions, |(c, p, q), rec| {
    rec.case(format!("{:?} {} and {}", c, p, q));
    let mut gs = Generators::default();
    gs.add_generator_with_subcategory(c, path(p), Generator::RandomBoolean);
    gs.add_generator_with_subcategory(c, path(q), Generator::Uuid(None));
    for v in [PactSpecification::V3, PactSpecification::V4] {
      rec.trace();
      let Some(j) = rec.no_panic("to_json", || generators_to_json(&gs, &v)) else { return };
      let doc: Value = serde_json::from_str(&json!({ "generators": j }).to_string()).unwrap();
      match rec.no_panic("from_json", || generators_from_json(&doc)) {
        Some(Ok(b)) => if gen_meaning(&b).len() != 2 { rec.fail_key(&format!("positions of values of {:?}", c), format!("{} of 2 generators came back", gen_meaning(&b).len())); },
        Some(Err(e)) => rec.fail("from_json", e.to_string()),
        None => {}
      }
    }
  });
  // A broken generator among good ones is skipped, the others are kept.
  let bad = [json!(null), json!(1), json!([]), json!("x"), json!({}), json!({"type": 1}), json!({"type": "Unknown"}), json!({"type": "Regex"}), json!({"type": "ProviderState"}), json!({"type": ""}), json!({"type": null})];
  run.pairs("gen-broken", "every kind of broken generator in every location, beside good ones", &bad, &slots, |b, (c, p), rec| {
    rec.case(format!("{} at {:?} {}", b, c, p)); rec.trace();
    let single = matches!(c, GeneratorCategory::METHOD | GeneratorCategory::PATH | GeneratorCategory::STATUS);
    let cs: String = (*c).into();
    let key = if matches!(c, GeneratorCategory::HEADER | GeneratorCategory::QUERY) { p.first_field().unwrap_or("").to_string() } else { p.to_string() };
    let mut doc = json!({ "generators": { "body": { "$.ok": { "type": "RandomBoolean" } }, "header": { "ok": { "type": "Uuid" } }, "status": { "type": "RandomInt", "min": 200, "max": 299 }, "other": { "a": { "type": "Uuid" } }, "path": 5 } });
    if single { doc["generators"][&cs] = b.clone(); } else { if !doc["generators"][&cs].is_object() { doc["generators"][&cs] = json!({}); } doc["generators"][&cs][key] = b.clone(); }
    let mut want = Generators::default();
    want.add_generator_with_subcategory(&GeneratorCategory::BODY, path("$.ok"), Generator::RandomBoolean);
    want.add_generator_with_subcategory(&GeneratorCategory::HEADER, path("$.ok"), Generator::Uuid(None));
    if *c != GeneratorCategory::STATUS { want.add_generator(&GeneratorCategory::STATUS, Generator::RandomInt(200, 299)); }
    match rec.no_panic("from_json", || generators_from_json(&doc)) {
      Some(Ok(g)) => { rec.eq("skipped", &gen_meaning(&want), &gen_meaning(&g)); rec.outcome("loaded"); }
      Some(Err(e)) => rec.fail("from_json", e.to_string()),
      None => {}
    }
  });
  // Definitions.
  let strs = [json!("a"), json!(5)];
  let nums = [json!(0), json!(3), json!("x"), json!(null), json!(1.5)];
  let fmts = [json!("simple"), json!("lower-case-hyphenated"), json!("upper-case-hyphenated"), json!("URN"), json!("other")];
  let mut docs: Vec<(Value, Option<Generator>)> = vec![];
  let n32 = |v: Option<&Value>, d: i32| v.and_then(|v| v.as_i64()).map(|n| n as i32).unwrap_or(d);
  let n16 = |v: Option<&Value>| v.and_then(|v| v.as_u64()).map(|n| n as u16).unwrap_or(10);
  let txt = |v: &Value| v.as_str().map(|s| s.to_string()).unwrap_or_else(|| v.to_string());
  for a in std::iter::once(None).chain(nums.iter().map(Some)) {
    for b in std::iter::once(None).chain(nums.iter().map(Some)) {
      let mut m = json!({"type": "RandomInt"}); if let Some(a) = a { m["min"] = a.clone(); } if let Some(b) = b { m["max"] = b.clone(); }
      docs.push((m, Some(Generator::RandomInt(n32(a, 0), n32(b, 10)))));
    }
    for (t, k, f) in [("RandomDecimal", "digits", Generator::RandomDecimal as fn(u16) -> Generator), ("RandomHexadecimal", "digits", Generator::RandomHexadecimal), ("RandomString", "size", Generator::RandomString)] {
      let mut m = json!({"type": t}); if let Some(a) = a { m[k] = a.clone(); }
      docs.push((m, Some(f(n16(a)))));
    }
  }
  for f in std::iter::once(None).chain(fmts.iter().map(Some)) {
    let mut m = json!({"type": "Uuid"}); if let Some(f) = f { m["format"] = f.clone(); }
    docs.push((m, Some(Generator::Uuid(f.and_then(|f| match f.as_str().unwrap() { "simple" => Some(UuidFormat::Simple), "lower-case-hyphenated" => Some(UuidFormat::LowerCaseHyphenated), "upper-case-hyphenated" => Some(UuidFormat::UpperCaseHyphenated), "URN" => Some(UuidFormat::Urn), _ => None })))));
  }
  for a in std::iter::once(None).chain(strs.iter().map(Some)) { for b in std::iter::once(None).chain(strs.iter().map(Some)) {
    for t in ["Date", "Time", "DateTime"] {
      let mut m = json!({"type": t}); if let Some(a) = a { m["format"] = a.clone(); } if let Some(b) = b { m["expression"] = b.clone(); }
      let (f, e) = (a.map(txt), b.map(txt));
      docs.push((m, Some(match t { "Date" => Generator::Date(f, e), "Time" => Generator::Time(f, e), _ => Generator::DateTime(f, e) })));
    }
    let mut m = json!({"type": "MockServerURL"}); if let Some(a) = a { m["example"] = a.clone(); } if let Some(b) = b { m["regex"] = b.clone(); }
    docs.push((m, Some(Generator::MockServerURL(a.map(txt).unwrap_or_default(), b.map(txt).unwrap_or_default()))));
  }
    let mut m = json!({"type": "Regex"}); if let Some(a) = a { m["regex"] = a.clone(); }
    docs.push((m, a.map(|a| Generator::Regex(txt(a)))));
    use pact_models::expression_parser::DataType::*;
    for (d, dt) in [(None, None), (Some("STRING"), Some(STRING)), (Some("INTEGER"), Some(INTEGER)), (Some("DECIMAL"), Some(DECIMAL)), (Some("FLOAT"), Some(FLOAT)), (Some("RAW"), Some(RAW)), (Some("BOOLEAN"), Some(BOOLEAN)), (Some("boolean"), Some(BOOLEAN)), (Some("?"), Some(RAW))] {
      let mut m = json!({"type": "ProviderState"}); if let Some(a) = a { m["expression"] = a.clone(); } if let Some(d) = d { m["dataType"] = json!(d); }
      docs.push((m, a.map(|a| Generator::ProviderStateGenerator(txt(a), dt))));
    }
  }
  docs.push((json!({"type": "RandomBoolean"}), Some(Generator::RandomBoolean)));
  docs.push((json!({"type": "randomboolean"}), None));
  run.each("gen-definitions", "every generator type with every combination of its attributes present, absent or of another type is read as the generator it names", &docs, |(d, want), rec| {
    rec.case(d.to_string()); rec.trace();
    let t = d["type"].as_str().unwrap();
    let got = rec.no_panic("from_map", || Generator::from_map(t, d.as_object().unwrap()));
    rec.outcome(t); if let Some(g) = &got { rec.state(&format!("{:?}", g)); rec.eq("definition", &format!("{:?}", want), &format!("{:?}", g)); }
    rec.eq("create", &format!("{:?}", want), &format!("{:?}", Generator::create(t, d).ok()));
  });
  run.each("gen-recreate", "every generator is recreated by its reported name and attributes", &gens, |g, rec| {
    rec.case(format!("{:?}", g)); rec.trace();
    let attrs = Value::Object(g.values().into_iter().map(|(k, v)| (k.to_string(), v)).collect());
    match Generator::create(&g.name(), &attrs) { Ok(b) => { rec.eq("recreate", &format!("{:?}", g), &format!("{:?}", b)); } Err(e) => rec.fail("recreate", e.to_string()) }
  });
}
