//! C23: the checker of pact files.
use std::collections::BTreeSet;
use mccore::*;
use mccore::util::*;
use pact_models::message_pact::MessagePact;
use pact_models::pact::load_pact_from_json;
use pact_models::provider_states::ProviderState;
use pact_models::sync_interaction::RequestResponseInteraction;
use pact_models::sync_pact::RequestResponsePact;
use pact_models::v4::pact::V4Pact;
use pact_models::verify_json::{json_type_of, PactFileVerificationResult, PactJsonVerifier, ResultLevel};
use pact_models::{Consumer, PactSpecification, Provider};
use serde_json::{json, Value};
use crate::docs::*;
use PactSpecification::*;

const VERSIONS: [&str; 14] = ["1", "1.0", "1.0.0", "1.1", "1.1.0", "2", "2.0", "2.0.0", "3", "3.0", "3.0.0", "4", "4.0", "4.0.0"];

/// The parts of a document that are wrong, by their path, and whether what is only wrong in the strict mode counts.
fn wrong(d: &Value, strict: bool) -> BTreeSet<String> {
  let mut w = BTreeSet::new();
  let Some(root) = d.as_object() else { w.insert(String::new()); return w; };
  for part in ["consumer", "provider"] {
    match root.get(part) {
      None => if strict { w.insert(format!("/{}", part)); },
      Some(Value::Object(m)) => {
        match m.get("name") { None => if strict { w.insert(format!("/{}/name", part)); }, Some(Value::String(_)) => {}, _ => { w.insert(format!("/{}/name", part)); } }
        if strict { for k in m.keys() { if k != "name" { w.insert(format!("/{}/{}", part, k)); } } }
      }
      _ => { w.insert(format!("/{}", part)); }
    }
  }
  match root.get("interactions") {
    None => {}
    Some(Value::Array(l)) => for (n, i) in l.iter().enumerate() { wrong_interaction(&format!("/interactions/{}", n), i, strict, &mut w); },
    _ => { w.insert("/interactions".into()); }
  }
  match root.get("metadata") {
    None => {}
    Some(Value::Object(m)) => if let Some(s) = m.get("pactSpecification").or(m.get("pact-specification")) {
      match s {
        Value::Object(s) => match s.get("version") { None | Some(Value::Null) => {}, Some(Value::String(v)) if VERSIONS.contains(&v.as_str()) => {}, _ => { w.insert("/metadata/pactSpecification/version".into()); } },
        _ => { w.insert("/metadata/pactSpecification".into()); }
      }
    },
    _ => { w.insert("/metadata".into()); }
  }
  if strict { for k in root.keys() { if !["consumer", "provider", "interactions", "metadata"].contains(&k.as_str()) { w.insert(format!("/{}", k)); } } }
  w
}
fn wrong_interaction(at: &str, i: &Value, strict: bool, w: &mut BTreeSet<String>) {
  let Some(m) = i.as_object() else { w.insert(at.to_string()); return; };
  match m.get("description") { None => if strict { w.insert(format!("{}/description", at)); }, Some(Value::String(_)) => {}, _ => { w.insert(format!("{}/description", at)); } }
  let states = match (m.get("providerStates"), m.get("providerState").or(m.get("provider_state"))) {
    (Some(Value::Array(l)), _) => l.clone(),
    (Some(_), _) => { w.insert(format!("{}/providerStates", at)); vec![] }
    (None, Some(s)) => vec![s.clone()],
    _ => vec![]
  };
  for (n, s) in states.iter().enumerate() { wrong_state(&format!("{}/providerStates/{}", at, n), s, strict, w); }
  if strict { for k in m.keys() { if !["_id", "description", "providerState", "provider_state", "providerStates", "request", "response"].contains(&k.as_str()) { w.insert(format!("{}/{}", at, k)); } } }
}
fn wrong_state(at: &str, s: &Value, strict: bool, w: &mut BTreeSet<String>) {
  match s {
    Value::String(_) => {}
    Value::Object(m) => {
      if !m.get("name").map(|n| n.is_string()).unwrap_or(false) { w.insert(format!("{}/name", at)); }
      if m.get("params").map(|p| !p.is_object()).unwrap_or(false) { w.insert(format!("{}/params", at)); }
      if strict { for k in m.keys() { if !["name", "params"].contains(&k.as_str()) { w.insert(format!("{}/{}", at, k)); } } }
    }
    _ => { w.insert(at.to_string()); }
  }
}
/// The value of a part; single provider states are reported as if they were lists.
fn part_of(d: &Value, at: &str, p: &str) -> Value {
  let p = p.strip_prefix(at).unwrap_or(p);
  if let Some(v) = d.pointer(p) { return v.clone(); }
  for name in ["providerState", "provider_state"] { if let Some(v) = d.pointer(&p.replace("providerStates/0", name)) { return v.clone(); } }
  d.pointer(&p.replace("pactSpecification", "pact-specification")).cloned().unwrap_or(Value::Null)
}
fn parent(p: &str) -> &str { &p[..p.rfind('/').unwrap_or(0)] }
fn compare(rec: &mut Rec, what: &str, part: &dyn Fn(&str) -> Value, exp: &BTreeSet<String>, results: &[PactFileVerificationResult]) {
  let errors: Vec<&str> = results.iter().filter(|r| r.level == ResultLevel::ERROR).map(|r| r.path.trim_end_matches('/')).collect();
  for e in &errors { rec.check(exp.iter().any(|p| p == e || parent(p) == *e), &format!("{}: error for what is valid", what), || format!("{} {:?}", e, results)); }
  for p in exp { rec.check(errors.iter().any(|e| p == e || parent(p) == *e), &format!("{}: error not reported", what), || format!("{} {:?}", p, results)); }
  for r in results.iter().filter(|r| r.level == ResultLevel::ERROR) {
    // where an error names the type it found, it is the type of the part
    if let Some(t) = r.message.split(", got ").nth(1) {
      let types: Vec<String> = exp.iter().filter(|p| p.as_str() == r.path.trim_end_matches('/') || parent(p) == r.path).map(|p| json_type_of(&part(p))).collect();
      rec.check(types.iter().any(|x| x == t), &format!("{}: type named", what), || format!("{:?} {:?}", types, r));
    }
  }
  // two wrong parts are two errors
  rec.check(errors.len() >= exp.len(), &format!("{}: number of errors", what), || format!("{:?} {:?}", exp, results));
  rec.outcome(format!("{} errors", errors.len()));
}
fn verify(rec: &mut Rec, d: &Value, v: PactSpecification) -> Option<()> {
  for strict in [false, true] {
    let r = rec.no_panic("panic", || RequestResponsePact::verify_json("/", d, strict, v))?;
    rec.steps(1);
    compare(rec, if strict { "strict" } else { "lenient" }, &|p| part_of(d, "", p), &wrong(d, strict), &r);
    // what is an error in the strict mode is at least a warning otherwise
    if !strict {
      let warned: Vec<&str> = r.iter().map(|r| r.path.trim_end_matches('/')).collect();
      for p in wrong(d, true) { rec.check(warned.iter().any(|e| p == *e || parent(&p) == *e), "no warning", || format!("{} {:?}", p, r)); }
    }
  }
  Some(())
}

/// Checks JSON against the parts of JSON schema that the schemas of pacts use.
fn valid(schema: &Value, root: &Value, v: &Value) -> bool {
  if let Some(r) = schema.get("$ref").and_then(|r| r.as_str()) {
    return match root.pointer(r.trim_start_matches('#')) { Some(s) => valid(s, root, v), None => false };
  }
  let ok = match schema.get("type").and_then(|t| t.as_str()) { Some("string") => v.is_string(), Some("object") => v.is_object(), Some("array") => v.is_array(), Some("number") => v.is_number(), Some("boolean") => v.is_boolean(), Some("null") => v.is_null(), _ => true };
  if !ok { return false; }
  if let (Some(p), Value::Object(m)) = (schema.get("properties"), v) {
    for (k, c) in m { match p.get(k) { Some(s) => if !valid(s, root, c) { return false; }, None => if schema.get("additionalProperties") == Some(&json!(false)) { return false; } } }
  }
  if let (Some(Value::Array(r)), Value::Object(m)) = (schema.get("required"), v) { for k in r { if !m.contains_key(k.as_str().unwrap_or("")) { return false; } } }
  if let (Some(s), Value::Array(l)) = (schema.get("items"), v) { for c in l { if !valid(s, root, c) { return false; } } }
  true
}
fn schema_part(p: &[Seg]) -> bool {
  let k: Vec<String> = p.iter().map(|s| match s { Seg::Key(k) => k.clone(), Seg::Idx(_) => "*".into() }).collect();
  let k: Vec<&str> = k.iter().map(|s| s.as_str()).collect();
  matches!(k.as_slice(), ["consumer"] | ["provider"] | ["consumer", "name"] | ["provider", "name"] | ["interactions"] | ["metadata"] | ["metadata", "pactSpecification"] | ["metadata", "pactSpecification", "version"])
}
fn replacements() -> Vec<Value> { vec![json!(null), json!(true), json!(1), json!(1.5), json!("x"), json!(""), json!([]), json!([1]), json!({}), json!({"x": 1}), json!({"name": 1}), json!({"name": "n"}), json!("3.0.0"), json!([["x"]])] }

pub fn c23(run: &Run) {
  let max = if run.thorough { 3 } else { 2 };
  for k in kinds().iter().filter(|k| k.list == "interactions" && k.version < V4) {
    let schema = RequestResponsePact::schema(k.version);
    // what is written has no errors
    let cs = choices(k, max);
    run.each(&format!("{} written", k.name), "every document with alternatives for up to two (thorough: three) attributes, written", &cs, |c, rec| {
      rec.case(k.label(c));
      let d = k.pact(vec![k.interaction(c).0, k.interaction(&[]).0]);
      rec.state(&d.to_string());
      let Ok(p) = load_pact_from_json("x", &d) else { rec.fail("load", ""); return };
      for v in [V1, V1_1, V2, V3] {
        let out = match p.to_json(v) { Ok(o) => o, Err(e) => { rec.fail("write", e.to_string()); continue; } };
        for strict in [false, true] {
          let Some(r) = rec.no_panic("panic", || RequestResponsePact::verify_json("/", &out, strict, v)) else { return };
          let bad: Vec<String> = r.iter().filter(|r| r.level == ResultLevel::ERROR).map(|r| format!("{:?}", r)).collect();
          rec.check(bad.is_empty(), "error for what was written", || format!("{:?}", bad));
        }
        rec.check(valid(&RequestResponsePact::schema(v), &RequestResponsePact::schema(v), &out), "schema refuses what was written", || out.to_string());
        rec.steps(3);
      }
      rec.trace();
    });
    // one node changed
    let states: Vec<Value> = if k.version == V3 { vec![json!({}), json!({"providerStates": [{"name": "s", "params": {"a": 1}}, {"name": "t"}]}), json!({"providerState": "s"}), json!({"provider_state": "s"}), json!({"providerStates": ["s"]}), json!({"_id": "1"})] } else { vec![json!({}), json!({"providerState": "s"}), json!({"provider_state": "s"})] };
    let mds = [json!({"pactSpecification": {"version": "3.0.0"}, "x": {"a": "b"}}), json!({"pact-specification": {"version": "2.0.0"}}), json!({"pactSpecificationVersion": "1.0.0"}), json!({})];
    let mut docs = vec![];
    for s in &states { for m in &mds {
      let mut i = k.interaction(&[]).0;
      for (a, v) in s.as_object().unwrap() { i[a] = v.clone(); }
      let mut d = k.pact(vec![i.clone()]); d["metadata"] = m.clone();
      docs.push(d.clone());
      d["interactions"].as_array_mut().unwrap().push(k.interaction(&[]).0); d["interactions"][1]["providerStates"] = json!([{"name": "u"}]);
      docs.push(d);
    } }
    for d in [json!({}), json!([]), json!(null), json!("x"), json!(1), json!({"consumer": {}}), json!({"consumer": {"name": "c"}, "provider": {"name": "p"}, "interactions": []})] { docs.push(d); }
    let reps = replacements();
    // 0..n: replaced, n: removed, n + 1: an attribute or item added
    let changes = |d: &Value| -> Vec<(Vec<Seg>, usize)> {
      let mut v = vec![];
      for p in nodes(d) { for c in 0..reps.len() + 3 { v.push((p.clone(), c)); } }
      v
    };
    let change = |d: &Value, p: &[Seg], c: usize| -> Option<Value> {
      let mut d = d.clone();
      if c < reps.len() { *get_mut(&mut d, p)? = reps[c].clone(); }
      else if c == reps.len() {
        let (last, up) = p.split_last()?;
        match (get_mut(&mut d, up)?, last) { (Value::Object(m), Seg::Key(k)) => { m.remove(k); } (Value::Array(a), Seg::Idx(i)) if *i < a.len() => { a.remove(*i); } _ => return None }
      } else {
        match get_mut(&mut d, p)? { Value::Object(m) => { m.insert(if c == reps.len() + 1 { "zz".into() } else { "é~ ".into() }, json!({"a": 1})); } Value::Array(a) => a.push(json!({"name": "added"})), _ => return None }
      }
      Some(d)
    };
    let mut cases: Vec<(usize, Vec<Seg>, usize)> = vec![];
    for (n, d) in docs.iter().enumerate() { for (p, c) in changes(d) { cases.push((n, p, c)); } }
    run.each(&format!("{} changed", k.name), "every node of a document replaced, removed or added to", &cases, |(n, p, c), rec| {
      let Some(d) = change(&docs[*n], p, *c) else { return };
      rec.case(format!("document {} {} {}", n, seg_string(p), c));
      rec.state(&d.to_string());
      if verify(rec, &d, k.version).is_none() { return; }
      // the schema refuses what has a wrong type in the parts that it describes
      if schema_part(p) && d.is_object() && docs[*n].get("provider").is_some() {
        let bad = !wrong(&d, false).is_empty() || (*c == reps.len() && !matches!(seg_string(p).as_str(), "$.metadata" | "$.metadata.pactSpecification"));
        let ver = seg_string(p) == "$.metadata.pactSpecification.version" && *c < reps.len();
        let ok = if ver { get(&d, p).map(|v| v.is_string()).unwrap_or(false) } else { !bad };
        if !ver || !ok { if !ok && !matches!(seg_string(p).as_str(), "$.interactions") || seg_string(p) == "$.interactions" && !d["interactions"].is_array() { rec.check(!valid(&schema, &schema, &d), "schema accepts what is wrong", || d.to_string()); } }
      }
      rec.steps(1);
    });
    // two nodes changed
    let small = { let mut i = k.interaction(&[]).0; for (a, v) in states[1].as_object().unwrap() { i[a] = v.clone(); } let mut d = k.pact(vec![i]); d["metadata"] = mds[0].clone(); d["interactions"][0]["request"] = json!({}); d["interactions"][0]["response"] = json!({}); d };
    let ch: Vec<(Vec<Seg>, usize)> = changes(&small).into_iter().filter(|c| run.thorough || [0, 2, 4, 6, 8].contains(&c.1) || c.1 >= reps.len()).collect();
    run.pairs(&format!("{} changed twice", k.name), "every pair of changes to the nodes of a document", &ch, &ch, |a, b, rec| {
      let Some(d) = change(&small, &a.0, a.1) else { return };
      let Some(d) = change(&d, &b.0, b.1) else { return };
      rec.case(format!("{} {} then {} {}", seg_string(&a.0), a.1, seg_string(&b.0), b.1));
      rec.state(&d.to_string());
      let _ = verify(rec, &d, k.version);
    });
  }
  // the parts on their own, and the checkers of the other kinds of pact
  let vals: Vec<Value> = { let mut v = replacements(); v.extend([json!({"name": null}), json!({"name": "n", "params": {}}), json!({"name": "n", "params": 1}), json!({"name": "n", "params": null}), json!({"name": "n", "params": {"a": null}, "zz": 1}), json!({"params": {}}), json!({"description": "d"}), json!({"description": 1}), json!({"name": {"name": "n"}})]); v };
  let n = vals.len() as u64 * 6;
  run.explore("parts", "every value x part x version", n, |i, rec| {
    let v = &vals[i as usize / 6];
    for at in ["/x", "/interactions/3"] { for strict in [false, true] { for spec in [V1, V3, V4] {
      rec.case(format!("{} {} {} {} {:?}", i % 6, v, at, strict, spec));
      rec.state(&(i, at, strict));
      let mut w = BTreeSet::new();
      let r = match i % 6 {
        0 | 1 => {
          let d = json!({"consumer": v, "provider": {"name": "p"}});
          w = wrong(&d, strict).into_iter().map(|p| p.replacen("/consumer", at, 1)).collect();
          if i % 6 == 0 { rec.no_panic("panic", || Consumer::verify_json(at, v, strict, spec)) } else { rec.no_panic("panic", || Provider::verify_json(at, v, strict, spec)) }
        }
        2 => { wrong_state(at, v, strict, &mut w); rec.no_panic("panic", || ProviderState::verify_json(at, v, strict, spec)) }
        3 => { wrong_interaction(at, v, strict, &mut w); rec.no_panic("panic", || RequestResponseInteraction::verify_json(at, v, strict, spec)) }
        4 => { if !v.is_object() { w.insert(at.to_string()); } rec.no_panic("panic", || MessagePact::verify_json(at, v, strict, spec)) }
        _ => { if !v.is_object() { w.insert("".to_string()); } rec.no_panic("panic", || V4Pact::verify_json("/", v, strict, spec)) }
      };
      let Some(r) = r else { return };
      rec.steps(1);
      compare(rec, "part", &|p| part_of(v, if i % 6 == 5 { "" } else { at }, p), &w, &r);
    } } }
  });
}
