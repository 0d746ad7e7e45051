//! Whole pacts: C01 round trip.
use mccore::*;
use pact_models::pact::{load_pact_from_json, Pact};
use pact_models::PactSpecification;
use serde_json::{json, Value};
use std::panic::RefUnwindSafe;
use crate::docs::*;

pub type P = Box<dyn Pact + Send + Sync + RefUnwindSafe>;
pub fn load(v: &Value) -> anyhow::Result<P> { load_pact_from_json("x", v) }

pub fn equal(a: &P, b: &P) -> bool {
  if a.is_v4() || b.is_v4() { return a.is_v4() && b.is_v4() && a.as_v4_pact().unwrap() == b.as_v4_pact().unwrap(); }
  match (a.as_message_pact(), b.as_message_pact()) { (Ok(a), Ok(b)) => return a == b, (Err(_), Err(_)) => {} _ => return false }
  a.as_request_response_pact().unwrap() == b.as_request_response_pact().unwrap()
}

/// The first place where two documents differ.
pub fn diff(a: &Value, b: &Value, at: &str) -> Option<String> {
  match (a, b) {
    (Value::Object(x), Value::Object(y)) => {
      for k in x.keys().chain(y.keys()) {
        match (x.get(k), y.get(k)) {
          (Some(p), Some(q)) => if let Some(d) = diff(p, q, &format!("{}/{}", at, k)) { return Some(d); },
          (Some(p), None) => return Some(format!("{}/{} is missing, expected {}", at, k, p)),
          (None, Some(q)) => return Some(format!("{}/{} should not be there, is {}", at, k, q)),
          _ => {}
        }
      }
      None
    }
    (Value::Array(x), Value::Array(y)) if x.len() == y.len() => x.iter().zip(y).enumerate().find_map(|(i, (p, q))| diff(p, q, &format!("{}/{}", at, i))),
    _ => if a == b { None } else { Some(format!("{} is {}, expected {}", at, b, a)) }
  }
}

pub fn round_trip(rec: &mut Rec, doc: &Value, exp: &Value, v: PactSpecification) {
  let p = match rec.no_panic("panic", || load(doc)) { Some(Ok(p)) => p, Some(Err(e)) => { rec.fail("load", e.to_string()); return; } None => return };
  rec.steps(1);
  let out = match rec.no_panic("panic", || p.to_json(v)) { Some(Ok(o)) => o, Some(Err(e)) => { rec.fail("write", e.to_string()); return; } None => return };
  rec.steps(1);
  if let Some(d) = diff(exp, &out, "") { rec.fail("written", d); return; }
  // through the text of the file
  let text = serde_json::to_string_pretty(&out).unwrap();
  let q = match rec.no_panic("panic", || load(&serde_json::from_str(&text).unwrap())) { Some(Ok(q)) => q, Some(Err(e)) => { rec.fail("load again", e.to_string()); return; } None => return };
  rec.steps(1);
  // the metadata records the writer, so compare what was loaded without it
  if let Some(Ok(again)) = rec.no_panic("panic", || q.to_json(v)) { rec.steps(1); rec.check(again == out, "written again", || diff(&out, &again, "").unwrap_or_default()); }
  let (a, b) = (p.interactions(), q.interactions());
  rec.eq("interactions", &a.len(), &b.len());
  rec.check(p.consumer() == q.consumer() && p.provider() == q.provider() && p.specification_version() == q.specification_version(), "names", || text.clone());
  if let Ok(r) = load(&serde_json::from_str(&text).unwrap()) { rec.check(equal(&q, &r), "equal", || text.clone()); }
  let mut stripped = doc.clone();
  if let Some(Value::Object(m)) = stripped.get_mut("metadata") { m.insert("pactRust".into(), json!({"models": models_version()})); }
  if let Ok(p2) = load(&stripped) {
    // the order of interactions in a V4 file is by description
    if p2.interactions().len() < 2 && exp["metadata"].as_object().map(|m| m.len()) == stripped["metadata"].as_object().map(|m| m.len()) && same_md(&exp["metadata"], &stripped["metadata"]) {
      let null_body = |v: &Value| v.to_string().contains(":null");
      if !null_body(doc) { rec.check(equal(&p2, &q), "reloaded equal", || format!("{:?}\n{:?}", p2, q)); }
    }
  }
  rec.trace();
}
fn same_md(a: &Value, b: &Value) -> bool { let n = |v: &Value| { let mut v = v.clone(); if let Some(m) = v.as_object_mut() { m.remove("pactSpecification"); } v }; n(a) == n(b) }

pub fn c01(run: &Run) {
  for k in kinds() {
    let max = if let Ok(m) = std::env::var("C01_MAX") { m.parse().unwrap() } else if run.thorough { 4 } else { 3 };
    let n = k.slots.iter().map(|s| s.len()).sum::<usize>();
    let max = if n > 80 && max > 1 { max - 1 } else { max };
    let cs = choices(k, max);
    run.each(k.name, &format!("every document with alternatives for up to {} of the {} attributes ({} alternatives)", max, k.slots.len(), n), &cs, |c, rec| {
      rec.case(k.label(c));
      let (i, o) = k.interaction(c);
      rec.state(&i.to_string());
      round_trip(rec, &k.pact(vec![i]), &k.pact_out(vec![o]), k.version);
      rec.outcome(format!("{} with {} attributes", k.name, c.len()));
    });
  }
  // whole pacts: names, metadata, plugins and lists of interactions
  for k in kinds() {
    let v4 = k.version == PactSpecification::V4;
    let mut pool = vec![];
    for (i, (d, st)) in [("b", false), ("a", false), ("a", true)].iter().enumerate() {
      let kinds4: Vec<&Kind> = if v4 { kinds().iter().filter(|o| o.version == PactSpecification::V4).collect() } else { vec![k] };
      let kk = kinds4[if v4 { (i + kinds4.iter().position(|o| o.name == k.name).unwrap()) % kinds4.len() } else { 0 }];
      let (mut a, mut b) = (kk.base.clone(), kk.base_out.clone());
      for x in [&mut a, &mut b] {
        x["description"] = json!(d);
        if *st { if k.version < PactSpecification::V3 { x["providerState"] = json!("s"); } else { x["providerStates"] = json!([{"name": "s"}]); } }
      }
      pool.push((a, b));
    }
    let lists = seq_count(pool.len(), 3);
    let slots = pact_slots(v4);
    let cs = slot_choices(&slots, if run.thorough { 6 } else { 4 });
    run.explore(&format!("{} pact", k.name), "every set of alternatives for the names, metadata and plugins x every list of up to 3 interactions", lists * cs.len() as u64, |i, rec| {
      let c = &cs[(i / lists) as usize];
      let list = seq_at(i % lists, pool.len());
      rec.case(format!("{} interactions {:?} {}", k.name, list, c.iter().map(|(s, a)| slots[*s][*a].label.clone()).collect::<Vec<_>>().join(" ")));
      let mut doc = k.pact(list.iter().map(|i| pool[*i].0.clone()).collect());
      let mut outs: Vec<Value> = list.iter().map(|i| pool[*i].1.clone()).collect();
      if v4 { outs.sort_by(|a, b| a["description"].as_str().cmp(&b["description"].as_str())); }
      let mut exp = k.pact_out(outs);
      apply(&slots, c, &mut doc, &mut exp);
      rec.state(&doc.to_string());
      round_trip(rec, &doc, &exp, k.version);
      rec.outcome(format!("{} {} interactions", k.name, list.len()));
    });
  }
}
