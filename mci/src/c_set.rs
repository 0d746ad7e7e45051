//! C64: what is given to a model through the C interface is copied, and only what was asked for changes.
use crate::ffi::{t, taken};
use mccore::{digits, seq_at, seq_count, space_size, Rec, Run};
use pact_ffi::models::{async_message::*, contents::*, expressions::*, generators::*, http_interaction::*, matching_rules::*, message::*, message_pact::*, provider_state::*, sync_message::*, *};
use pact_ffi::models::{consumer::*, interactions::*, iterators::*, provider::*};
use pact_models::bodies::OptionalBody;
use pact_models::content_types::{ContentType, ContentTypeHint};
use pact_models::message::Message;
use pact_models::v4::async_message::AsynchronousMessage;
use pact_models::v4::message_parts::MessageContents;
use pact_models::v4::sync_message::SynchronousMessage;
use pact_models::v4::synch_http::SynchronousHttp;
use serde_json::json;
use std::os::raw::c_char;
use std::ptr::null;

/// Memory of the caller, who uses it for something else after the call.
struct Lent { at: *mut u8, n: usize, none: bool }
impl Lent {
  fn of(b: Option<&[u8]>, end: bool) -> Lent {
    match b {
      None => Lent { at: std::ptr::null_mut(), n: 0, none: true },
      Some(b) => { let mut v = b.to_vec(); if end { v.push(0); } let n = v.len(); let at = Box::into_raw(v.into_boxed_slice()) as *mut u8; Lent { at, n, none: false } }
    }
  }
  fn text(s: Option<&[u8]>) -> Lent { Lent::of(s, true) }
  fn bytes(s: Option<&[u8]>) -> Lent { Lent::of(s, false) }
  fn c(&self) -> *const c_char { self.at as *const c_char }
  fn reused(&self) { if !self.none { for i in 0..self.n { unsafe { *self.at.add(i) = b'#'; } } } }
}
impl Drop for Lent { fn drop(&mut self) { if !self.none { unsafe { drop(Box::from_raw(std::ptr::slice_from_raw_parts_mut(self.at, self.n))); } } } }
type B = Option<&'static [u8]>;
const TEXTS: [B; 7] = [None, Some(b""), Some(b"text"), Some(b"{\"a\":1}"), Some("é ✓".as_bytes()), Some(b"\xff\xfe"), Some(b"a much longer text than the others, so that it is kept elsewhere")];
const BINS: [B; 5] = [None, Some(b""), Some(b"\x00\x01"), Some(b"bin\x00ary"), Some(b"text")];
const TYPES: [B; 7] = [None, Some(b""), Some(b"text/plain"), Some(b"application/json"), Some(b"image/gif"), Some(b"no type"), Some(b"text/xml;charset=utf-8")];
#[derive(Clone, Copy, Debug, Hash, PartialEq)]
enum Op { Text(usize, B, B), Bin(usize, B, B), Describe(B), Meta(B, B) }
use Op::*;
/// The models there are; which parts they have.
#[derive(Clone)]
enum Model { M(Message), A(AsynchronousMessage), C(MessageContents), S(SynchronousMessage), H(SynchronousHttp) }
use Model::*;
fn parsed(ct: B) -> Option<ContentType> { ct.and_then(|b| std::str::from_utf8(b).ok()).filter(|s| !s.is_empty()).and_then(|s| ContentType::parse(s).ok()) }
impl Model {
  fn new(k: usize) -> Model { match k { 0 => M(Message::default()), 1 => A(AsynchronousMessage::default()), 2 => C(MessageContents::default()), 3 => S(SynchronousMessage::default()), _ => H(SynchronousHttp::default()) } }
  fn parts(k: usize) -> usize { match k { 0 | 1 | 2 => 1, 3 => 4, _ => 2 } }
  fn body(&mut self, part: usize) -> &mut OptionalBody {
    match self { M(m) => &mut m.contents, A(a) => &mut a.contents.contents, C(c) => &mut c.contents, H(h) => if part == 0 { &mut h.request.body } else { &mut h.response.body },
      S(s) => if part == 0 { &mut s.request.contents } else { while s.response.len() < part { s.response.push(MessageContents::default()); } &mut s.response[part - 1].contents } }
  }
  fn describe(&mut self, d: &str) { *match self { M(m) => &mut m.description, A(m) => &mut m.description, S(m) => &mut m.description, H(m) => &mut m.description, C(_) => return } = d.to_string(); }
  fn shown(&self) -> String { match self { M(m) => format!("{:?}", (&m.description, &m.contents, sorted(&m.metadata), &m.provider_states)), A(a) => format!("{:?}", (&a.description, &a.contents.contents, sorted(&a.contents.metadata))), C(c) => format!("{:?}", (&c.contents, sorted(&c.metadata))), S(s) => format!("{:?}", (&s.description, &s.request.contents, s.response.iter().map(|r| &r.contents).collect::<Vec<_>>())), H(h) => format!("{:?}", (&h.description, &h.request.body, &h.response.body, h.response.status)) } }
  /// What an operation answers and does.
  fn told(&mut self, op: Op) -> Option<i32> {
    match op {
      Text(p, b, ct) => { match b { None => *self.body(p) = OptionalBody::Null, Some(b) => { let ct = parsed(ct); match std::str::from_utf8(b) { Ok(_) => *self.body(p) = OptionalBody::Present(b.to_vec().into(), ct, Some(ContentTypeHint::TEXT)), Err(_) => { self.body(p); } } } } None }
      Bin(p, b, ct) => { *self.body(p) = match b { None => OptionalBody::Null, Some(b) => OptionalBody::Present(b.to_vec().into(), parsed(ct), Some(ContentTypeHint::BINARY)) }; None }
      Describe(d) => match d.and_then(|d| std::str::from_utf8(d).ok()) { Some(d) => { self.describe(d); Some(0) } None => Some(1) },
      Meta(k, v) => match (self, k.and_then(|k| std::str::from_utf8(k).ok()), v.and_then(|v| std::str::from_utf8(v).ok())) { (M(m), Some(k), Some(v)) => Some(if m.metadata.insert(k.to_string(), json!(v)).is_some() { -1 } else { 0 }), _ => Some(-2) },
    }
  }
}
fn sorted(m: &std::collections::HashMap<String, serde_json::Value>) -> Vec<(String, String)> { let mut l: Vec<_> = m.iter().map(|(k, v)| (k.clone(), v.to_string())).collect(); l.sort(); l }
/// The same through the C interface.
enum Ptr { Pm(*mut Message), Pa(*mut AsynchronousMessage), Pc(*mut AsynchronousMessage), Ps(*mut SynchronousMessage), Ph(*mut SynchronousHttp) }
use Ptr::*;
impl Ptr {
  fn new(k: usize) -> Ptr { match k { 0 => Pm(pactffi_message_new()), 1 => Pa(pactffi_async_message_new()), 2 => Pc(pactffi_async_message_new()), 3 => Ps(pactffi_sync_message_new()), _ => Ph(pactffi_sync_http_new()) } }
  fn delete(&self) { match self { Pm(p) => pactffi_message_delete(*p), Pa(p) | Pc(p) => pactffi_async_message_delete(*p), Ps(p) => pactffi_sync_message_delete(*p), Ph(p) => pactffi_sync_http_delete(*p) } }
  fn model(&self) -> Model { unsafe { match self { Pm(p) => M((**p).clone()), Pa(p) => A((**p).clone()), Pc(p) => C((**p).contents.clone()), Ps(p) => S((**p).clone()), Ph(p) => H((**p).clone()) } } }
  fn told(&self, op: Op) -> Option<i32> {
    let (a, b) = match op { Text(_, b, ct) => (Lent::text(b), Lent::text(ct)), Bin(_, b, ct) => (Lent::bytes(b), Lent::text(ct)), Describe(d) => (Lent::text(d), Lent::text(None)), Meta(k, v) => (Lent::text(k), Lent::text(v)) };
    let r = match op {
      Text(p, ..) => { match self { Pm(m) => pactffi_message_set_contents(*m, a.c(), b.c()), Pa(m) => pactffi_async_message_set_contents_str(*m, a.c(), b.c()), Pc(m) => pactffi_message_contents_set_contents_str(pactffi_async_message_get_contents(*m) as *mut _, a.c(), b.c()), Ps(m) => if p == 0 { pactffi_sync_message_set_request_contents_str(*m, a.c(), b.c()) } else { pactffi_sync_message_set_response_contents_str(*m, p - 1, a.c(), b.c()) }, Ph(m) => if p == 0 { pactffi_sync_http_set_request_contents(*m, a.c(), b.c()) } else { pactffi_sync_http_set_response_contents(*m, a.c(), b.c()) } }; None }
      Bin(p, ..) => { let (x, n) = (a.at as *const u8, a.n); match self { Pm(m) => pactffi_message_set_contents_bin(*m, x, n, b.c()), Pa(m) => pactffi_async_message_set_contents_bin(*m, x, n, b.c()), Pc(m) => pactffi_message_contents_set_contents_bin(pactffi_async_message_get_contents(*m) as *mut _, x, n, b.c()), Ps(m) => if p == 0 { pactffi_sync_message_set_request_contents_bin(*m, x, n, b.c()) } else { pactffi_sync_message_set_response_contents_bin(*m, p - 1, x, n, b.c()) }, Ph(m) => if p == 0 { pactffi_sync_http_set_request_contents_bin(*m, x, n, b.c()) } else { pactffi_sync_http_set_response_contents_bin(*m, x, n, b.c()) } }; None }
      Describe(_) => match self { Pm(m) => Some(pactffi_message_set_description(*m, a.c())), Pa(m) => Some(pactffi_async_message_set_description(*m, a.c())), Ps(m) => Some(pactffi_sync_message_set_description(*m, a.c())), Ph(m) => Some(pactffi_sync_http_set_description(*m, a.c())), Pc(_) => None },
      Meta(..) => match self { Pm(m) => Some(pactffi_message_insert_metadata(*m, a.c(), b.c())), _ => None },
    };
    a.reused();
    b.reused();
    r
  }
}
fn ops(kind: usize, all: bool) -> Vec<Op> {
  let mut v = vec![];
  for p in 0..Model::parts(kind) {
    if all || p == 0 || p == 2 {
      for b in TEXTS { for ct in if all { TYPES.to_vec() } else { vec![TYPES[0], TYPES[3]] } { v.push(Text(p, b, ct)); } }
      for b in BINS { for ct in if all { TYPES.to_vec() } else { vec![TYPES[0], TYPES[2]] } { v.push(Bin(p, b, ct)); } }
    } else { v.push(Text(p, TEXTS[2], TYPES[2])); v.push(Bin(p, BINS[2], TYPES[4])); v.push(Text(p, None, None)); }
  }
  if kind != 2 { for d in [None, Some(&b""[..]), Some(b"one"), Some("é".as_bytes()), Some(b"\xff"), Some(b"a description that is longer than those before")] { v.push(Describe(d)); } }
  if kind == 0 { for k in [None, Some(&b"k"[..]), Some(b"K"), Some(b""), Some(b"\xff"), Some(b"contentType")] { for w in [None, Some(&b"v"[..]), Some("é".as_bytes()), Some(b"\xff")] { v.push(Meta(k, w)); } } }
  v
}
fn played(rec: &mut Rec, kind: usize, l: &[Op]) {
  let mut want = Model::new(kind);
  let p = Ptr::new(kind);
  rec.eq("new", &want.shown(), &p.model().shown());
  for (n, op) in l.iter().enumerate() {
    let skip = matches!((kind, op), (2, Describe(_)));
    let answer = want.told(*op);
    rec.steps(1);
    let got = p.told(*op);
    if !skip { rec.eq("answer", &answer, &got); }
    rec.eq(if n + 1 == l.len() { "model" } else { "model before" }, &want.shown(), &p.model().shown());
  }
  rec.state(&want.shown());
  p.delete();
}
pub fn c64(run: &Run) {
  run.assume("The caller's memory is written over after each call (as its owner may), the models are then compared with what was given; memory is counted by thread over four repetitions of a case.");
  for (kind, name) in ["message", "asynchronous message", "message contents", "synchronous message", "HTTP interaction"].iter().enumerate() {
    let o = ops(kind, true);
    run.explore(&format!("one {}", name), &format!("each change of a {}, with all values", name), o.len() as u64, |i, rec| {
      let op = o[i as usize];
      rec.case(format!("{}: {:?}", name, op));
      played(rec, kind, &[op]);
      let leak = crate::alloc::kept(|| { let p = Ptr::new(kind); p.told(op); p.delete(); });
      rec.check(leak.is_none(), "released", || format!("after the {} was deleted, (blocks, bytes) {:?} are left each time", name, leak));
    });
    let o = ops(kind, false);
    let len = if run.thorough { 3 } else { 2 };
    let o: Vec<Op> = if len == 3 && o.len() > 60 { o.into_iter().enumerate().filter(|(i, x)| i % 2 == 0 || matches!(x, Meta(..))).map(|(_, x)| x).collect() } else { o };
    run.explore(&format!("changes of {}", name), &format!("sequences of changes of a {}", name), seq_count(o.len(), len), |i, rec| {
      let l: Vec<Op> = seq_at(i, o.len()).into_iter().map(|k| o[k]).collect();
      rec.case(format!("{}: {:?}", name, l));
      played(rec, kind, &l);
    });
  }
  // Messages made of a body
  let bases = [TEXTS.len(), TYPES.len()];
  run.explore("of a body", "messages made of a body and its type", space_size(&bases), |i, rec| {
    let d = digits(i, &bases);
    let (b, ct) = (TEXTS[d[0]], TYPES[d[1]]);
    rec.case(format!("message of {:?} with type {:?}", b, ct));
    let make = || { let (x, y) = (Lent::text(b), Lent::text(ct)); let m = pactffi_message_new_from_body(x.c(), y.c()); x.reused(); y.reused(); m };
    let m = make();
    let want = match (b, ct.and_then(|c| std::str::from_utf8(c).ok()).map(|c| ContentType::parse(c))) {
      (Some(b), Some(Ok(ct))) => Some(M(Message { metadata: std::iter::once(("contentType".to_string(), json!(ct.to_string()))).collect(), contents: OptionalBody::Present(b.to_vec().into(), Some(ct), None), ..Message::default() }).shown()),
      _ => None,
    };
    rec.state(&want);
    rec.eq("message", &want, &if m.is_null() { None } else { Some(M(unsafe { (*m).clone() }).shown()) });
    if !m.is_null() { pactffi_message_delete(m); }
    let leak = crate::alloc::kept(|| { let m = make(); if !m.is_null() { pactffi_message_delete(m); } });
    rec.check(leak.is_none(), "released", || format!("(blocks, bytes) {:?} are left each time", leak));
  });
  // A copy of a provider state is the caller's
  run.explore("state copies", "provider states got by position, used and deleted after or before their owner", 4 * 3 * 2, |i, rec| {
    let d = digits(i, &[4, 3, 2]);
    rec.case(format!("provider state {} of {}, deleted {} it", d[1], ["a message", "an asynchronous message", "a synchronous message", "an HTTP interaction"][d[0]], if d[2] == 0 { "before" } else { "after" }));
    rec.state(&d);
    let text = match d[0] { 0 => json!({"messages": [{"description": "m", "contents": "x"}], "metadata": {"pactSpecification": {"version": "3.0.0"}}}), 1 => json!({"interactions": [{"type": "Asynchronous/Messages", "description": "m"}], "metadata": {"pactSpecification": {"version": "4.0"}}}), 2 => json!({"interactions": [{"type": "Synchronous/Messages", "description": "m", "request": {}, "response": []}], "metadata": {"pactSpecification": {"version": "4.0"}}}), _ => json!({"interactions": [{"type": "Synchronous/HTTP", "description": "m", "request": {}, "response": {}}], "metadata": {"pactSpecification": {"version": "4.0"}}}) };
    let mut text = text;
    let key = if d[0] == 0 { "messages" } else { "interactions" };
    text[key][0]["providerStates"] = json!([{"name": "one"}, {"name": "two", "params": {"k": "v"}}]);
    let p = pactffi_parse_pact_json(t(&text.to_string()).p());
    let it = pactffi_pact_model_interaction_iterator(p);
    let x = pactffi_pact_interaction_iter_next(it);
    let (m, a, s, h) = (pactffi_pact_interaction_as_message(x), pactffi_pact_interaction_as_asynchronous_message(x), pactffi_pact_interaction_as_synchronous_message(x), pactffi_pact_interaction_as_synchronous_http(x));
    let n = d[1] as u32;
    let state = match d[0] { 0 => pactffi_message_get_provider_state(m, n), 1 => pactffi_async_message_get_provider_state(a, n), 2 => pactffi_sync_message_get_provider_state(s, n), _ => pactffi_sync_http_get_provider_state(h, n) };
    rec.eq("there", &(n < 2), &!state.is_null());
    let name = |st: *const _| taken(pactffi_provider_state_get_name(st));
    let want = Some(["one", "two", ""][d[1]].to_string());
    let clear = || { pactffi_pact_interaction_iter_delete(it); pactffi_pact_model_delete(p); if !m.is_null() { pactffi_message_delete(m as *mut _); } if !a.is_null() { pactffi_async_message_delete(a); } if !s.is_null() { pactffi_sync_message_delete(s as *mut _); } if !h.is_null() { pactffi_sync_http_delete(h); } };
    if state.is_null() { clear(); return; }
    if d[2] == 0 { rec.eq("name", &want, &name(state)); pactffi_provider_state_delete(state as *mut _);
      let again = match d[0] { 0 => pactffi_message_get_provider_state(m, n), 1 => pactffi_async_message_get_provider_state(a, n), 2 => pactffi_sync_message_get_provider_state(s, n), _ => pactffi_sync_http_get_provider_state(h, n) };
      rec.eq("name again", &want, &name(again)); pactffi_provider_state_delete(again as *mut _); clear();
    } else { clear(); rec.eq("name after", &want, &name(state)); pactffi_provider_state_delete(state as *mut _); }
  });
  // Nothing instead of a model
  let nulls: Vec<(&str, fn() -> bool)> = vec![
    ("message contents", || pactffi_message_get_contents(null()).is_null()), ("message length", || pactffi_message_get_contents_length(null()) == 0), ("message bytes", || pactffi_message_get_contents_bin(null()).is_null()), ("message description", || pactffi_message_get_description(null()).is_null()),
    ("set message", || { pactffi_message_set_contents(null::<Message>() as *mut _, t("x").p(), null()); pactffi_message_set_contents_bin(null::<Message>() as *mut _, b"x".as_ptr(), 1, null()); true }), ("describe message", || pactffi_message_set_description(null::<Message>() as *mut _, t("x").p()) != 0),
    ("message state", || pactffi_message_get_provider_state(null(), 0).is_null()), ("message states", || pactffi_message_get_provider_state_iter(null::<Message>() as *mut _).is_null()), ("next state", || pactffi_provider_state_iter_next(null::<u8>() as *mut _).is_null()),
    ("find metadata", || pactffi_message_find_metadata(null(), t("x").p()).is_null()), ("insert metadata", || pactffi_message_insert_metadata(null::<Message>() as *mut _, t("k").p(), t("v").p()) == -2), ("metadata", || pactffi_message_get_metadata_iter(null::<Message>() as *mut _).is_null()), ("next metadata", || pactffi_message_metadata_iter_next(null::<u8>() as *mut _).is_null()),
    ("state name", || pactffi_provider_state_get_name(null()).is_null()), ("state parameters", || pactffi_provider_state_get_param_iter(null::<u8>() as *mut _).is_null()), ("next parameter", || pactffi_provider_state_param_iter_next(null::<u8>() as *mut _).is_null()),
    ("async contents", || pactffi_async_message_get_contents(null()).is_null() && pactffi_async_message_generate_contents(null()).is_null() && pactffi_async_message_get_contents_str(null()).is_null() && pactffi_async_message_get_contents_bin(null()).is_null() && pactffi_async_message_get_contents_length(null()) == 0),
    ("async", || { pactffi_async_message_set_contents_str(null::<u8>() as *mut _, t("x").p(), null()); pactffi_async_message_set_contents_bin(null::<u8>() as *mut _, b"x".as_ptr(), 1, null()); pactffi_async_message_get_description(null()).is_null() && pactffi_async_message_set_description(null::<u8>() as *mut _, t("x").p()) != 0 && pactffi_async_message_get_provider_state(null(), 0).is_null() && pactffi_async_message_get_provider_state_iter(null::<u8>() as *mut _).is_null() }),
    ("contents", || { pactffi_message_contents_set_contents_str(null::<u8>() as *mut _, t("x").p(), null()); pactffi_message_contents_set_contents_bin(null::<u8>() as *mut _, b"x".as_ptr(), 1, null()); pactffi_message_contents_get_contents_str(null()).is_null() && pactffi_message_contents_get_contents_bin(null()).is_null() && pactffi_message_contents_get_contents_length(null()) == 0 && pactffi_message_contents_get_metadata_iter(null()).is_null() }),
    ("rules", || pactffi_message_contents_get_matching_rule_iter(null(), MatchingRuleCategory::BODY).is_null() && pactffi_request_contents_get_matching_rule_iter(null(), MatchingRuleCategory::BODY).is_null() && pactffi_response_contents_get_matching_rule_iter(null(), MatchingRuleCategory::BODY).is_null() && pactffi_matching_rules_iter_next(null::<u8>() as *mut _).is_null() && pactffi_matching_rule_to_json(null()).is_null()),
    ("generators", || pactffi_message_contents_get_generators_iter(null(), GeneratorCategory::BODY).is_null() && pactffi_request_contents_get_generators_iter(null(), GeneratorCategory::BODY).is_null() && pactffi_response_contents_get_generators_iter(null(), GeneratorCategory::BODY).is_null() && pactffi_generators_iter_next(null::<u8>() as *mut _).is_null() && pactffi_generator_to_json(null()).is_null() && pactffi_generator_generate_string(null(), null()).is_null() && pactffi_generator_generate_integer(null(), null()) == 0),
    ("sync request", || { pactffi_sync_message_set_request_contents_str(null::<u8>() as *mut _, t("x").p(), null()); pactffi_sync_message_set_request_contents_bin(null::<u8>() as *mut _, b"x".as_ptr(), 1, null()); pactffi_sync_message_get_request_contents(null()).is_null() && pactffi_sync_message_generate_request_contents(null()).is_null() && pactffi_sync_message_get_request_contents_str(null()).is_null() && pactffi_sync_message_get_request_contents_bin(null()).is_null() && pactffi_sync_message_get_request_contents_length(null()) == 0 }),
    ("sync response", || { pactffi_sync_message_set_response_contents_str(null::<u8>() as *mut _, 0, t("x").p(), null()); pactffi_sync_message_set_response_contents_bin(null::<u8>() as *mut _, 0, b"x".as_ptr(), 1, null()); pactffi_sync_message_get_response_contents(null(), 0).is_null() && pactffi_sync_message_generate_response_contents(null(), 0).is_null() && pactffi_sync_message_get_response_contents_str(null(), 0).is_null() && pactffi_sync_message_get_response_contents_bin(null(), 0).is_null() && pactffi_sync_message_get_response_contents_length(null(), 0) == 0 && pactffi_sync_message_get_number_responses(null()) == 0 }),
    ("sync", || pactffi_sync_message_get_description(null()).is_null() && pactffi_sync_message_set_description(null::<u8>() as *mut _, t("x").p()) != 0 && pactffi_sync_message_get_provider_state(null(), 0).is_null() && pactffi_sync_message_get_provider_state_iter(null::<u8>() as *mut _).is_null()),
    ("http", || { pactffi_sync_http_set_request_contents(null::<u8>() as *mut _, t("x").p(), null()); pactffi_sync_http_set_request_contents_bin(null::<u8>() as *mut _, b"x".as_ptr(), 1, null()); pactffi_sync_http_set_response_contents(null::<u8>() as *mut _, t("x").p(), null()); pactffi_sync_http_set_response_contents_bin(null::<u8>() as *mut _, b"x".as_ptr(), 1, null());
      pactffi_sync_http_get_request(null()).is_null() && pactffi_sync_http_get_response(null()).is_null() && pactffi_sync_http_get_request_contents(null()).is_null() && pactffi_sync_http_get_request_contents_bin(null()).is_null() && pactffi_sync_http_get_request_contents_length(null()) == 0 && pactffi_sync_http_get_response_contents(null()).is_null() && pactffi_sync_http_get_response_contents_bin(null()).is_null() && pactffi_sync_http_get_response_contents_length(null()) == 0 && pactffi_sync_http_get_description(null()).is_null() && pactffi_sync_http_set_description(null::<u8>() as *mut _, t("x").p()) != 0 && pactffi_sync_http_get_provider_state(null(), 0).is_null() && pactffi_sync_http_get_provider_state_iter(null::<u8>() as *mut _).is_null() }),
    ("pact", || pactffi_parse_pact_json(null()).is_null() && pactffi_pact_model_interaction_iterator(null::<u8>() as *mut _).is_null() && format!("{:?}", pactffi_pact_spec_version(null())) == "Unknown" && pactffi_pact_get_consumer(null()).is_null() && pactffi_pact_get_provider(null()).is_null() && pactffi_consumer_get_name(null()).is_null() && pactffi_provider_get_name(null()).is_null()),
    ("interactions", || pactffi_pact_interaction_iter_next(null::<u8>() as *mut _).is_null() && pactffi_pact_interaction_as_message(null()).is_null() && pactffi_pact_interaction_as_asynchronous_message(null()).is_null() && pactffi_pact_interaction_as_synchronous_message(null()).is_null() && pactffi_pact_interaction_as_synchronous_http(null()).is_null() && pactffi_pact_message_iter_next(null::<u8>() as *mut _).is_null() && pactffi_pact_async_message_iter_next(null::<u8>() as *mut _).is_null() && pactffi_pact_sync_message_iter_next(null::<u8>() as *mut _).is_null() && pactffi_pact_sync_http_iter_next(null::<u8>() as *mut _).is_null()),
    ("message pact", || pactffi_message_pact_new_from_json(null(), t("{}").p()).is_null() && pactffi_message_pact_new_from_json(t("f").p(), null()).is_null() && pactffi_message_pact_get_consumer(null::<u8>() as *mut _).is_null() && pactffi_message_pact_get_provider(null::<u8>() as *mut _).is_null() && pactffi_message_pact_get_message_iter(null::<u8>() as *mut _).is_null() && pactffi_message_pact_message_iter_next(null::<u8>() as *mut _).is_null() && pactffi_message_pact_find_metadata(null(), t("a").p(), t("b").p()).is_null() && pactffi_message_pact_get_metadata_iter(null::<u8>() as *mut _).is_null() && pactffi_message_pact_metadata_iter_next(null::<u8>() as *mut _).is_null()),
    ("definitions", || pactffi_parse_matcher_definition(null()).is_null() && pactffi_matcher_definition_error(null()).is_null() && pactffi_matcher_definition_value(null()).is_null() && pactffi_matcher_definition_generator(null()).is_null() && pactffi_matcher_definition_value_type(null()) == ExpressionValueType::Unknown && pactffi_matcher_definition_iter(null()).is_null() && pactffi_matching_rule_iter_next(null::<u8>() as *mut _).is_null() && pactffi_matching_rule_id(null()) == 0 && pactffi_matching_rule_value(null()).is_null() && pactffi_matching_rule_pointer(null()).is_null() && pactffi_matching_rule_reference_name(null()).is_null()),
  ];
  run.explore("nothing", "functions given no model", nulls.len() as u64, |i, rec| {
    let (name, f) = &nulls[i as usize];
    rec.case(format!("{} of NULL", name));
    rec.state(name);
    rec.check(f(), "nothing", || "not answered with nothing".into());
  });
}
