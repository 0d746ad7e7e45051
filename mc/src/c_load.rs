//! C02: loading any JSON document, and everything that can be done with what was loaded, never crashes.
use mccore::*;
use mccore::util::*;
use pact_models::interaction::Interaction;
use pact_models::pact::{determine_spec_version, parse_meta_data, Pact, ReadWritePact};
use pact_models::sync_pact::RequestResponsePact;
use pact_models::message_pact::MessagePact;
use pact_models::v4::interaction::V4Interaction;
use pact_models::verify_json::PactJsonVerifier;
use pact_models::PactSpecification;
use serde_json::{json, Value};
use std::hash::{Hash, Hasher};
use crate::c_pact::{load, P};
use crate::docs::*;

const VERSIONS: [PactSpecification; 6] = [PactSpecification::V1, PactSpecification::V1_1, PactSpecification::V2, PactSpecification::V3, PactSpecification::V4, PactSpecification::Unknown];

fn h<T: Hash>(t: &T) -> u64 { let mut s = std::collections::hash_map::DefaultHasher::new(); t.hash(&mut s); s.finish() }

fn use_v4(i: &(dyn V4Interaction + Send + Sync)) {
  i.to_json(); i.key(); i.unique_key(); i.comments(); i.plugin_config(); i.interaction_markup(); i.transport(); i.v4_type();
  let k = i.with_unique_key(); k.unique_key();
  let b = i.boxed_v4(); let c = b.clone(); assert!(b == c, "a copy of {:?} is not equal to it", b);
  let d: &dyn V4Interaction = &*b; format!("{}", d);
  if let Some(h1) = b.as_v4_http() { h(&h1); format!("{}", h1); format!("{} {}", h1.request, h1.response); }
  if let Some(m) = b.as_v4_async_message() { h(&m); format!("{}", m); m.contents.message_content_type(); }
  if let Some(m) = b.as_v4_sync_message() { h(&m); format!("{}", m); m.request.message_content_type(); }
}
#[allow(deprecated)]
pub fn use_interaction(i: &(dyn Interaction + Send + Sync + std::panic::RefUnwindSafe)) {
  i.type_of(); i.description(); i.id(); i.contents(); i.contents_for_verification(); i.content_type(); i.matching_rules(); i.pending();
  for s in i.provider_states() { s.to_json(); h(&s); format!("{:?}", s); }
  let b = i.boxed();
  let plain: Box<dyn Interaction> = b;
  let c = plain.clone();
  assert!(format!("{:?}", c) == format!("{:?}", c), "debug output changes");
  assert_eq!(c.description(), plain.description());
  assert_eq!(c.type_of(), plain.type_of());
  format!("{}", plain); format!("{}", c);
  i.arced(); i.thread_safe().lock().unwrap().description();
  if let Some(rr) = i.as_request_response() { format!("{}", rr); for v in VERSIONS { rr.to_json(&v); } rr.request.to_json(&PactSpecification::V2); rr.conflicts_with(&rr); rr.request.differences_from(&rr.request); rr.response.differences_from(&rr.response); if let Some(v) = rr.as_v4() { use_v4(&*v); } }
  if let Some(m) = i.as_message() { format!("{}", m); for v in VERSIONS { m.to_json(&v); } m.message_content_type(); if let Some(v) = m.as_v4() { use_v4(&*v); } }
  if let Some(v) = i.as_v4() { use_v4(&*v); }
  i.as_v4_http(); i.as_v4_async_message(); i.as_v4_sync_message();
}
/// Everything a user can do with a loaded pact.
pub fn use_pact(p: &P) {
  format!("{:?}", p); p.consumer(); p.provider(); p.metadata(); p.specification_version(); p.plugin_data(); p.requires_plugins(); p.default_file_name();
  for v in VERSIONS { let _ = p.to_json(v).map(|j| j.to_string()); }
  let _ = p.as_request_response_pact().map(|p| { for v in VERSIONS { let _ = p.to_json(v); } assert!(p == p.clone()); });
  let _ = p.as_message_pact().map(|p| { for v in VERSIONS { let _ = p.to_json(v); } assert!(p == p.clone()); });
  let _ = p.as_v4_pact().map(|p| { for v in VERSIONS { let _ = p.to_json(v); } assert!(p == p.clone()); });
  for i in p.interactions() { use_interaction(&*i); }
  let mut b = p.boxed();
  for i in b.interactions_mut() { i.set_description("x"); i.provider_states_mut(); i.as_v4_mut(); i.set_id(Some("i".into())); i.id(); }
  let other = p.boxed();
  let _ = p.merge(&*other).map(|m| m.to_json(PactSpecification::V4).is_ok());
  p.arced(); p.thread_safe();
}
fn check_doc(doc: &Value) {
  for v in [PactSpecification::V1, PactSpecification::V2, PactSpecification::V3, PactSpecification::V4] { for strict in [false, true] {
    format!("{:?}", RequestResponsePact::verify_json("/", doc, strict, v)); MessagePact::verify_json("/", doc, strict, v);
  } }
  determine_spec_version("x", &parse_meta_data(doc));
}

fn values() -> Vec<Value> {
  vec![json!(null), json!(true), json!(0), json!(1), json!(-1), json!(200), json!(65536), json!(18446744073709551615u64), json!(i64::MIN), json!(1.5), json!(-0.5), json!(1e300),
    json!(""), json!("a"), json!("é€🚀"), json!("$"), json!("-1"), json!("99999999999999999999"), json!("1.5"), json!("true"), json!("{}"), json!("["), json!("\""), json!("a=%"), json!("=&="), json!("%E9%"), json!("text/plain; charset="), json!("application/json"), json!("2.0"), json!("\u{0}"),
    json!("${"), json!("\\"), json!("("), json!("$[99999999999999999999]"), json!("Date"), json!("base64"),
    json!([]), json!([null]), json!([1, "a"]), json!([[]]), json!([{}]), json!({}), json!({"a": 1}), json!({"": null}), json!({"a": {}}), json!({"a": []}), json!({"match": "type"}), json!({"type": "x"}), json!({"name": {}, "params": []}), json!({"version": 4}), json!({"content": 1, "encoded": true})]
}
const NAMES: [&str; 12] = ["", "$", "$.", "$['", "$[99999999999999999999]", "$..", "é", "$.a.*[", "body", "*", "metadata", "$.\u{0}"];

#[derive(Clone, Debug)]
enum Change { Set(usize), Remove, Add(usize), Rename(usize) }
fn changes(path: &[Seg], node: &Value, vals: usize) -> Vec<Change> {
  let mut v: Vec<Change> = (0..vals).map(Change::Set).collect();
  if !path.is_empty() { v.push(Change::Remove); if let Some(Seg::Key(_)) = path.last() { for i in 0..NAMES.len() { v.push(Change::Rename(i)); } } }
  if node.is_object() || node.is_array() { for i in [0, 1, 12, 36, 41] { v.push(Change::Add(i)); } }
  v
}
fn apply_change(doc: &mut Value, path: &[Seg], c: &Change, vals: &[Value]) {
  match c {
    Change::Set(i) => { if let Some(n) = get_mut(doc, path) { *n = vals[*i].clone(); } }
    Change::Add(i) => match get_mut(doc, path) { Some(Value::Object(m)) => { m.insert("zz".into(), vals[*i].clone()); } Some(Value::Array(a)) => a.push(vals[*i].clone()), _ => {} },
    Change::Remove | Change::Rename(_) => {
      let (last, parent) = path.split_last().unwrap();
      match (get_mut(doc, parent), last) {
        (Some(Value::Object(m)), Seg::Key(k)) => { let v = m.remove(k); if let (Change::Rename(i), Some(v)) = (c, v) { m.insert(NAMES[*i].into(), v); } }
        (Some(Value::Array(a)), Seg::Idx(i)) => { if *i < a.len() { a.remove(*i); } }
        _ => {}
      }
    }
  }
}
fn run_doc(rec: &mut Rec, doc: &Value) {
  rec.state(&doc.to_string());
  if rec.no_panic("check", || check_doc(doc)).is_none() { return; }
  match rec.no_panic("load", || load(doc)) {
    Some(Ok(p)) => { rec.outcome("loaded"); if rec.no_panic("use", || use_pact(&p)).is_some() { rec.trace(); } rec.steps(40); }
    Some(Err(_)) => { rec.outcome("refused"); rec.trace(); rec.steps(1); }
    None => {}
  }
}

/// The documents that are changed: for each kind, the base with each alternative, and two with all attributes present.
fn originals(k: &Kind) -> Vec<(String, Value, bool)> {
  let mut v = vec![];
  for c in choices(k, 1) { v.push((k.label(&c), k.pact(vec![k.interaction(&c).0]), false)); }
  for pick in 0..2 {
    let c: Vec<(usize, usize)> = k.slots.iter().enumerate().map(|(s, alts)| (s, if pick == 0 { 0 } else { alts.len() - 1 })).filter(|(s, a)| !k.slots[*s][*a].input.is_empty()).collect();
    v.push((format!("{} all {}", k.name, pick), k.pact(vec![k.interaction(&c).0]), true));
  }
  v
}

pub fn c02(run: &Run) {
  let vals = values();
  for k in kinds() {
    let mut cases: Vec<(usize, Vec<Seg>, Change)> = vec![];
    let base_nodes: std::collections::HashSet<String> = nodes(&k.pact(vec![k.base.clone()])).iter().map(|n| seg_string(n)).collect();
    let docs = originals(k);
    for (n, (_, doc, _)) in docs.iter().enumerate() {
      for path in nodes(doc) {
        // what the base has as well is changed in the base only
        if n > 0 && base_nodes.contains(&seg_string(&path)) && get(doc, &path) == get(&k.pact(vec![k.base.clone()]), &path) { continue; }
        for c in changes(&path, get(doc, &path).unwrap(), vals.len()) { cases.push((n, path.clone(), c)); }
      }
    }
    run.each(k.name, "every node of every document with one attribute or all attributes x every other value, every new name, removal and additions", &cases, |(n, path, c), rec| {
      let (label, doc, _) = &docs[*n];
      rec.case(format!("{} {} {}", label, seg_string(path), match c { Change::Set(i) => format!("= {}", vals[*i]), Change::Add(i) => format!("add {}", vals[*i]), Change::Rename(i) => format!("renamed {:?}", NAMES[*i]), Change::Remove => "removed".into() }));
      let mut d = doc.clone();
      apply_change(&mut d, path, c, &vals);
      run_doc(rec, &d);
    });
  }
  // the specification version and the lists of interactions of a document can be anything
  let versions: Vec<Value> = ["1", "1.0.0", "1.1", "1.1.0", "2.0.0", "2", "3.0.0", "3", "4.0", "4", "4.1", "5", "x", "", "4.0.0-rc"].iter().map(|v| json!(v)).chain(vals.iter().cloned()).collect();
  let ks = kinds();
  run.explore("version", "every interaction kind x every version value x every interaction kind in the other list", (ks.len() * versions.len() * (ks.len() + 1)) as u64, |i, rec| {
    let i = i as usize;
    let (a, b, c) = (i % ks.len(), i / ks.len() % versions.len(), i / ks.len() / versions.len());
    rec.case(format!("{} version {} and {}", ks[a].name, versions[b], if c == 0 { "nothing" } else { ks[c - 1].name }));
    let full = |k: &Kind| k.interaction(&k.slots.iter().enumerate().map(|(s, _)| (s, 0)).collect::<Vec<_>>()).0;
    let mut d = ks[a].pact(vec![full(&ks[a]), ks[a].base.clone()]);
    d["metadata"]["pactSpecification"]["version"] = versions[b].clone();
    if c > 0 { let l = if ks[a].list == "interactions" { "messages" } else { "interactions" }; d[l] = json!([full(&ks[c - 1])]); }
    run_doc(rec, &d);
  });
  if run.thorough {
    for k in kinds() {
      let c: Vec<(usize, usize)> = (0..k.slots.len()).map(|s| (s, 0)).collect();
      let doc = k.pact(vec![k.interaction(&c).0]);
      let some = [0usize, 4, 13, 36, 41];
      let small: Vec<Value> = some.iter().map(|i| vals[*i].clone()).collect();
      let all = nodes(&doc);
      let one: Vec<(usize, Change)> = all.iter().enumerate().flat_map(|(i, p)| (0..small.len()).map(Change::Set).chain(if p.is_empty() { None } else { Some(Change::Remove) }).map(move |c| (i, c))).collect();
      let n = one.len() as u64;
      run.explore(&format!("{} twice", k.name), "every pair of changes to a document with all attributes", n * n, |i, rec| {
        let (x, y) = (&one[(i / n) as usize], &one[(i % n) as usize]);
        if x.0 >= y.0 { return; }
        rec.case(format!("{} {} {:?} {} {:?}", k.name, seg_string(&all[x.0]), x.1, seg_string(&all[y.0]), y.1));
        let mut d = doc.clone();
        apply_change(&mut d, &all[y.0], &y.1, &small);
        apply_change(&mut d, &all[x.0], &x.1, &small);
        run_doc(rec, &d);
      });
    }
  }
}
