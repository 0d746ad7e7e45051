#![allow(deprecated)]
//! C27: editing pacts in memory.
use std::collections::{BTreeMap, HashMap};
use mccore::*;
use pact_models::interaction::Interaction;
use pact_models::message::Message;
use pact_models::message_pact::MessagePact;
use pact_models::pact::{load_pact_from_json, Pact};
use pact_models::provider_states::ProviderState;
use pact_models::sync_interaction::RequestResponseInteraction;
use pact_models::sync_pact::RequestResponsePact;
use pact_models::v4::async_message::AsynchronousMessage;
use pact_models::v4::pact::V4Pact;
use pact_models::v4::sync_message::SynchronousMessage;
use pact_models::v4::synch_http::SynchronousHttp;
use pact_models::v4::V4InteractionType;
use pact_models::PactSpecification::*;
use serde_json::{json, Value};
use crate::docs::models_version;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum K { Http3, Msg3, Http4, Async4, Sync4 }
#[derive(Clone, Debug)]
enum Op {
  Add(K, usize),
  Plugin(&'static str, &'static str, Option<Value>),
  Md(&'static str, &'static str),
  Id(&'static str), Describe, State
}
/// A pact under edit: the object and, for the types with more to offer, how to get at it.
enum Sut { R(RequestResponsePact), M(MessagePact), V(V4Pact), D(Box<dyn Pact + Send + Sync + std::panic::RefUnwindSafe>) }
impl Sut {
  fn p(&mut self) -> &mut dyn Pact { match self { Sut::R(p) => p, Sut::M(p) => p, Sut::V(p) => p, Sut::D(p) => p.as_mut() } }
}
fn interaction(k: K, n: usize) -> Box<dyn Interaction> {
  let (id, d, key) = (if n == 1 { None } else { Some(format!("i{}", n)) }, format!("d{}", n), if n == 2 { Some("k".to_string()) } else { None });
  let states = if n == 0 { vec![] } else { vec![ProviderState::default("s")] };
  match k {
    K::Http3 => Box::new(RequestResponseInteraction { id, description: d, provider_states: states, .. RequestResponseInteraction::default() }),
    K::Msg3 => Box::new(Message { id, description: d, provider_states: states, .. Message::default() }),
    K::Http4 => Box::new(SynchronousHttp { id, key, description: d, provider_states: states, .. SynchronousHttp::default() }),
    K::Async4 => Box::new(AsynchronousMessage { id, key, description: d, provider_states: states, .. AsynchronousMessage::default() }),
    K::Sync4 => Box::new(SynchronousMessage { id, key, description: d, provider_states: states, .. SynchronousMessage::default() })
  }
}
/// The type of the pact an interaction belongs to.
fn v4_type(k: K) -> V4InteractionType { match k { K::Http3 | K::Http4 => V4InteractionType::Synchronous_HTTP, K::Msg3 | K::Async4 => V4InteractionType::Asynchronous_Messages, K::Sync4 => V4InteractionType::Synchronous_Messages } }
#[derive(Clone, Debug, PartialEq)]
struct I { id: Option<String>, description: String, states: usize, ty: V4InteractionType }
#[derive(Clone, Debug, Default)]
struct Model { interactions: Vec<I>, plugins: Vec<(String, String, BTreeMap<String, Value>)>, md: BTreeMap<String, String>, others: Value }

fn merged(a: &Value, b: &Value) -> Value {
  match (a, b) {
    (Value::Object(x), Value::Object(y)) => { let mut m = x.clone(); for (k, v) in y { let n = match m.get(k) { Some(o) => merged(o, v), None => v.clone() }; m.insert(k.clone(), n); } Value::Object(m) }
    (Value::Array(x), Value::Array(y)) => Value::Array(x.iter().cloned().chain(y.iter().filter(|i| !x.contains(i)).cloned()).collect()),
    _ => b.clone()
  }
}
fn kind_of(i: &dyn Interaction) -> V4InteractionType {
  match (i.is_v4(), i.as_v4()) { (true, Some(v)) => v.v4_type(), _ => if i.is_request_response() { V4InteractionType::Synchronous_HTTP } else { V4InteractionType::Asynchronous_Messages } }
}
fn describe(i: &dyn Interaction) -> I { I { id: i.id(), description: i.description(), states: i.provider_states().len(), ty: kind_of(i) } }

struct Start { name: &'static str, v4: bool, messages: bool, make: fn() -> Sut, model: Model }
fn v4_doc(spelling: bool) -> Value {
  let mut d = json!({"consumer": {"name": "c"}, "provider": {"name": "p"}, "interactions": [{"type": "Asynchronous/Messages", "description": "first"}, {"type": "Synchronous/HTTP", "description": "second", "request": {}, "response": {}}],
    "metadata": {"pactSpecification": {"version": "4.0"}, "pactRust": {"ffi": "0", "x": "y"}, "x": {"a": "b"}, "plugins": [{"name": "p", "version": "1", "configuration": {"a": [1], "z": {"b": 1}}}]}});
  if spelling {
    let md = d["metadata"].as_object_mut().unwrap();
    for (a, b) in [("pactSpecification", "pact-specification"), ("pactRust", "pact-rust")] { let v = md.remove(a).unwrap(); md.insert(b.to_string(), v); }
  }
  d
}
fn v3_doc(messages: bool, spelling: bool) -> Value {
  let mut d = json!({"consumer": {"name": "c"}, "provider": {"name": "p"}, "metadata": {"x": {"a": "b"}}});
  d[if messages { "messages" } else { "interactions" }] = json!([{"description": "first"}, {"description": "second", "providerStates": [{"name": "s"}]}]);
  d["metadata"][if spelling { "pact-specification" } else { "pactSpecification" }] = json!({"version": "3.0.0"});
  d["metadata"][if spelling { "pact-rust" } else { "pactRust" }] = json!({"ffi": "0"});
  d
}
fn starts() -> Vec<Start> {
  let i = |d: &str, n: usize, ty: &V4InteractionType| I { id: None, description: d.to_string(), states: n, ty: ty.clone() };
  let (h, a) = (V4InteractionType::Synchronous_HTTP, V4InteractionType::Asynchronous_Messages);
  let ffi: BTreeMap<String, String> = [("ffi".to_string(), "0".to_string())].into();
  let x = json!({"x": {"a": "b"}});
  vec![
    Start { name: "new request/response", v4: false, messages: false, make: || Sut::R(RequestResponsePact::default()), model: Model { others: json!({}), .. Model::default() } },
    Start { name: "new message", v4: false, messages: true, make: || Sut::M(MessagePact::default()), model: Model { md: [("version".to_string(), models_version())].into(), others: json!({}), .. Model::default() } },
    Start { name: "new V4", v4: true, messages: false, make: || Sut::V(V4Pact::default()), model: Model { others: json!({}), .. Model::default() } },
    Start { name: "V3 request/response", v4: false, messages: false, make: || Sut::D(load_pact_from_json("x", &v3_doc(false, false)).unwrap()), model: Model { interactions: vec![i("first", 0, &h), i("second", 1, &h)], md: ffi.clone(), others: x.clone(), .. Model::default() } },
    Start { name: "V3 message", v4: false, messages: true, make: || Sut::M(MessagePact::from_json("x", &v3_doc(true, true)).unwrap()), model: Model { interactions: vec![i("first", 0, &a), i("second", 1, &a)], md: ffi.clone(), others: x.clone(), .. Model::default() } },
    Start { name: "V4", v4: true, messages: false, make: || Sut::V(V4Pact::pact_from_json(&v4_doc(false), "x").unwrap()), model: Model {
      interactions: vec![i("first", 0, &a), i("second", 0, &h)], plugins: vec![("p".into(), "1".into(), [("a".to_string(), json!([1])), ("z".to_string(), json!({"b": 1}))].into())],
      md: [("ffi".to_string(), "0".to_string()), ("x".to_string(), "y".to_string())].into(), others: x.clone() } },
    Start { name: "V3 request/response as V4", v4: true, messages: false, make: || Sut::V(load_pact_from_json("x", &v3_doc(false, true)).unwrap().as_v4_pact().unwrap()), model: Model { interactions: vec![i("first", 0, &h), i("second", 1, &h)], md: ffi.clone(), others: x.clone(), .. Model::default() } },
    Start { name: "copy of V4 with other spellings", v4: true, messages: false, make: || Sut::D(V4Pact::pact_from_json(&v4_doc(true), "x").unwrap().boxed()), model: Model {
      interactions: vec![i("first", 0, &a), i("second", 0, &h)], plugins: vec![("p".into(), "1".into(), [("a".to_string(), json!([1])), ("z".to_string(), json!({"b": 1}))].into())],
      md: [("ffi".to_string(), "0".to_string()), ("x".to_string(), "y".to_string())].into(), others: x.clone() } },
  ]
}

fn perform(rec: &mut Rec, s: &mut Sut, st: &Start, m: &mut Model, op: &Op) -> Option<()> {
  rec.steps(1);
  match op {
    Op::Add(k, n) => {
      let i = interaction(*k, *n);
      let r = rec.no_panic("panic", || s.p().add_interaction(i.as_ref()))?;
      let ok = st.v4 || match k { K::Http3 | K::Http4 => !st.messages, K::Msg3 | K::Async4 => st.messages, K::Sync4 => false };
      rec.eq("interaction accepted", &ok, &r.is_ok());
      if ok { m.interactions.push(I { id: i.id(), description: i.description(), states: i.provider_states().len(), ty: v4_type(*k) }); }
    }
    Op::Plugin(n, v, d) => {
      let data: Option<HashMap<String, Value>> = d.as_ref().map(|d| d.as_object().unwrap().clone().into_iter().collect());
      let r = rec.no_panic("panic", || s.p().add_plugin(n, v, data))?;
      rec.eq("plugin accepted", &st.v4, &r.is_ok());
      if st.v4 {
        let d = d.clone().unwrap_or(json!({}));
        match m.plugins.iter_mut().find(|p| p.0 == *n && p.1 == *v) {
          Some(p) => for (k, v) in d.as_object().unwrap() { let n = match p.2.get(k) { Some(o) => merged(o, v), None => v.clone() }; p.2.insert(k.clone(), n); },
          None => m.plugins.push((n.to_string(), v.to_string(), d.as_object().unwrap().clone().into_iter().collect()))
        }
      }
    }
    Op::Md(k, v) => { rec.no_panic("panic", || s.p().add_md_version(k, v))?; m.md.insert(k.to_string(), v.to_string()); }
    Op::Id(id) => if let Some(i) = s.p().interactions_mut().last_mut() { i.set_id(Some(id.to_string())); m.interactions.last_mut()?.id = Some(id.to_string()); },
    Op::Describe => if let Some(i) = s.p().interactions_mut().first_mut() { i.set_description("edited"); m.interactions[0].description = "edited".to_string(); },
    Op::State => if let Some(i) = s.p().interactions_mut().last_mut() { i.provider_states_mut().push(ProviderState::default("added")); m.interactions.last_mut()?.states += 1; }
  }
  Some(())
}

fn observe(rec: &mut Rec, s: &mut Sut, st: &Start, m: &Model) -> Option<()> {
  let listed: Vec<I> = s.p().interactions().iter().map(|i| describe(i.as_ref())).collect();
  rec.eq("interactions", &m.interactions, &listed);
  let edit: Vec<I> = s.p().interactions_mut().iter().map(|i| describe(*i)).collect();
  rec.eq("interactions to edit", &m.interactions, &edit);
  let plugins: Vec<(String, String, BTreeMap<String, Value>)> = s.p().plugin_data().into_iter().map(|p| (p.name, p.version, p.configuration.into_iter().collect())).collect();
  rec.eq("plugins", &m.plugins, &plugins);
  rec.eq("requires plugins", &!m.plugins.is_empty(), &s.p().requires_plugins());
  if let Sut::V(p) = s {
    use V4InteractionType::*;
    for t in [Synchronous_HTTP, Asynchronous_Messages, Synchronous_Messages] {
      let exp: Vec<I> = m.interactions.iter().filter(|i| i.ty == t).cloned().collect();
      rec.eq("filtered", &exp, &p.filter_interactions(t.clone()).iter().map(|i| describe(i.as_ref())).collect());
      rec.eq("has interactions", &!exp.is_empty(), &p.has_interactions(t));
    }
    rec.eq("mixed", &m.interactions.windows(2).any(|w| w[0].ty != w[1].ty), &p.has_mixed_interactions());
    for id in ["i0", "i2", "e", "E", "i0 ", "I0", ""] { rec.eq("found", &m.interactions.iter().find(|i| i.id.as_deref() == Some(id)).cloned(), &p.find_interaction_with_id(id).map(|i| describe(i.to_super()))); }
  }
  // what is written
  let spec = if st.v4 { V4 } else { V3 };
  let out = match rec.no_panic("panic", || s.p().to_json(spec))? { Ok(o) => o, Err(e) => { rec.fail("write", e.to_string()); return None; } };
  let list = out[if st.messages { "messages" } else { "interactions" }].as_array()?.clone();
  let mut exp: Vec<Value> = m.interactions.iter().map(|i| json!([i.description, i.states, if st.v4 { i.ty.to_string() } else { String::new() }])).collect();
  if st.v4 { exp.sort_by_key(|v| v[0].to_string()); }
  let got: Vec<Value> = list.iter().map(|i| json!([i["description"], i["providerStates"].as_array().map(|s| s.len()).unwrap_or(0), i.get("type").cloned().unwrap_or(json!(""))])).collect();
  if st.v4 {
    // sorted by description when written, the order of equal ones is as added
    rec.eq("written interactions", &exp, &got);
  } else { rec.eq("written interactions", &exp, &got); }
  let mut md = m.others.clone();
  md["pactSpecification"] = json!({"version": spec.version_str()});
  md["pactRust"] = json!(m.md);
  md["pactRust"]["models"] = json!(models_version());
  if !m.plugins.is_empty() { md["plugins"] = json!(m.plugins.iter().map(|(n, v, c)| json!({"name": n, "version": v, "configuration": c})).collect::<Vec<_>>()); }
  rec.eq("written metadata", &md, &out["metadata"]);
  rec.steps(6);
  Some(())
}

pub fn c27(run: &Run) {
  let mut ops = vec![];
  for k in [K::Http3, K::Msg3, K::Http4, K::Async4, K::Sync4] { ops.push(Op::Add(k, 0)); }
  ops.extend([Op::Add(K::Async4, 2), Op::Add(K::Http4, 1)]);
  ops.extend([Op::Plugin("p", "1", None), Op::Plugin("p", "1", Some(json!({"a": [1, 2], "z": {"c": 2}}))), Op::Plugin("p", "2", Some(json!({"a": 1}))), Op::Plugin("q", "1", Some(json!({"a": [3]})))]);
  ops.extend([Op::Md("ffi", "1"), Op::Md("other", "2"), Op::Md("ffi", "3"), Op::Id("e"), Op::Describe, Op::State]);
  let len = if run.thorough { 5 } else { 4 };
  for st in starts() {
    run.explore(st.name, &format!("every sequence of up to {} of {} editing operations, checked after each operation", len, ops.len()), seq_count(ops.len(), len), |i, rec| {
      let seq: Vec<&Op> = seq_at(i, ops.len()).iter().map(|k| &ops[*k]).collect();
      rec.case(format!("{:?}", seq));
      let (mut s, mut m) = ((st.make)(), st.model.clone());
      for (n, op) in seq.iter().enumerate() {
        if perform(rec, &mut s, &st, &mut m, op).is_none() { return; }
        // the shorter sequences are explored on their own
        if n + 1 == seq.len() { rec.state(&format!("{}{:?}", st.name, m)); }
      }
      if observe(rec, &mut s, &st, &m).is_none() { return; }
      rec.trace();
      rec.outcome(format!("{} interactions, {} plugins", m.interactions.len(), m.plugins.len()));
    });
  }
  // names, versions, keys and ids that are nearly the same
  let near = ["1", "1.0", "1.0.0", "1.1", "1.0.1", "2.0", "01", "1 ", "1-beta", "1-BETA", ""];
  let names = ["p", "P", "p ", "pp", "q", "", "é", "É"];
  let mut near_ops = vec![];
  for v in near { near_ops.push(Op::Plugin("p", v, Some(json!({"a": [1]})))); }
  for n in names { near_ops.push(Op::Plugin(n, "1", Some(json!({"a": [2], "A": 1, "": null})))); }
  near_ops.push(Op::Plugin("P", "1.0", None));
  for k in ["ffi", "FFI", "ffi ", "", "models2", "é"] { near_ops.push(Op::Md(k, "v")); near_ops.push(Op::Md(k, "V")); }
  for id in ["E", "i0 ", ""] { near_ops.push(Op::Id(id)); }
  let len = if run.thorough { 4 } else { 3 };
  for st in starts().into_iter().filter(|s| ["new V4", "V4", "V3 message"].contains(&s.name)) {
    run.explore(&format!("near: {}", st.name), &format!("every sequence of up to {} of {} operations with names, versions, keys and ids that are nearly the same", len, near_ops.len()), seq_count(near_ops.len(), len), |i, rec| {
      let seq: Vec<&Op> = seq_at(i, near_ops.len()).iter().map(|k| &near_ops[*k]).collect();
      rec.case(format!("{:?}", seq));
      let (mut s, mut m) = ((st.make)(), st.model.clone());
      for op in &seq { if perform(rec, &mut s, &st, &mut m, op).is_none() { return; } }
      rec.state(&format!("{}{:?}", st.name, m));
      if observe(rec, &mut s, &st, &m).is_none() { return; }
      rec.trace();
    });
  }
}
