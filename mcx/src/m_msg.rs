//! C34: asynchronous and synchronous messages.
use crate::jmodel::{path, value_ok, Ctx};
use crate::m_body::{contents, now, Body, Thing, Verdict};
use crate::m_http::{body_verdict, matching_rules, pact, part, show_rules, Rules};
use crate::m_text::param_header;
use mccore::{digits, seq_at, seq_count, space_size, Rec, Run};
use pact_matching::{match_message, match_sync_message, match_sync_message_request, match_sync_message_response, Mismatch};
use pact_models::interaction::Interaction;
use pact_models::matchingrules::{Category, MatchingRule, RuleLogic};
use pact_models::message::Message;
use pact_models::path_exp::DocPath;
use pact_models::v4::async_message::AsynchronousMessage;
use pact_models::v4::message_parts::MessageContents;
use pact_models::v4::sync_message::SynchronousMessage;
use serde_json::{json, Value};
use std::collections::BTreeSet;
use std::panic::RefUnwindSafe;
use MatchingRule::{Equality, Include, Integer, MinType, NotEmpty, Null, Number, Regex, Type};

#[derive(Clone, Debug)]
pub struct Msg { pub body: Body, pub own: Option<String>, pub meta: Vec<(String, Value)> }
fn ct_key(k: &str) -> bool { ["contenttype", "content-type"].contains(&k.to_lowercase().as_str()) }
fn text(v: &Value) -> String { match v { Value::String(s) => s.clone(), v => v.to_string() } }
impl Msg {
  fn thing(&self) -> Thing { Thing { body: self.body.clone(), own: self.own.clone(), header: self.meta.iter().find(|(k, _)| ct_key(k)).map(|(_, v)| text(v)) } }
  fn build(&self, rules: &Rules) -> MessageContents { MessageContents { contents: self.thing().optional(), metadata: self.meta.iter().cloned().collect(), matching_rules: matching_rules(rules), ..MessageContents::default() } }
  fn show(&self) -> String { format!("{}{}", Thing { header: None, ..self.thing() }.show(), self.meta.iter().map(|(k, v)| format!(" {}={}", k, v)).collect::<String>()) }
  /// The content type of the contents counts as a metadata entry when a V4 message is compared as a whole.
  fn with_type(&self) -> Msg {
    let mut m = self.clone();
    if let (Body::Bytes(_), Some(t)) = (&self.body, &self.own) { if !m.meta.iter().any(|(k, _)| k == "contentType") { m.meta.push(("contentType".into(), json!(pact_models::content_types::ContentType::parse(t.as_str()).unwrap().to_string()))); } }
    m
  }
}

#[derive(Clone, Debug, PartialEq)]
struct Diff { body: Verdict, meta: BTreeSet<String>, absent: bool }
fn diff(e: &Msg, a: &Msg, rules: &Rules) -> Diff {
  let (t, u) = (e.thing(), a.thing());
  let (m, n) = (t.media(), u.media());
  let c = part(rules, Category::BODY, false);
  let body = if matches!(e.body, Body::Bytes(_)) && !m.unknown() && !n.unknown() && !m.same(&n) { Verdict::Type } else { contents(&m, &t, &u, &c) };
  let mc = part(rules, Category::METADATA, false);
  let meta = e.meta.iter().filter(|(k, v)| match a.meta.iter().find(|(n, _)| n == k) {
    None => true,
    Some((_, w)) => {
      let s = mc.select(&DocPath::root().join(k.as_str()).to_vec());
      !match s {
        Some(s) => { let ok = |r: &MatchingRule| value_ok(v, w, r, s.cascaded); match s.logic { RuleLogic::And => s.rules.iter().all(ok), RuleLogic::Or => s.rules.iter().any(ok) } }
        None if ct_key(k) => param_header(&text(v), &text(w)),
        None => v == w,
      }
    }
  }).map(|(k, _)| k.clone()).collect();
  Diff { body, meta, absent: !matches!(a.body, Body::Bytes(_)) }
}
fn observed(rec: &mut Rec, m: &[Mismatch], absent: bool) -> Diff {
  rec.check(m.iter().all(|m| matches!(m, Mismatch::MetadataMismatch { .. } | Mismatch::BodyMismatch { .. } | Mismatch::BodyTypeMismatch { .. })), "kind", || format!("a mismatch of another kind: {:?}", m));
  Diff { body: body_verdict(m).unwrap(), meta: m.iter().filter_map(|m| if let Mismatch::MetadataMismatch { key, .. } = m { Some(key.clone()) } else { None }).collect(), absent }
}
fn same(want: &Diff, got: &Diff) -> bool {
  let bad = |v: &Verdict| matches!(v, Verdict::Type | Verdict::Paths(_));
  want.meta == got.meta && (want.body == Verdict::Unspecified || want.body == got.body || (want.absent && bad(&want.body) && bad(&got.body)))
}
fn union(l: Vec<Diff>) -> Diff {
  let mut out = Diff { body: Verdict::Ok, meta: BTreeSet::new(), absent: false };
  for d in l {
    out.absent |= d.absent;
    out.meta.extend(d.meta);
    out.body = match (out.body, d.body) {
      (Verdict::Unspecified, _) | (_, Verdict::Unspecified) => Verdict::Unspecified,
      (Verdict::Type, _) | (_, Verdict::Type) => Verdict::Type,
      (Verdict::Ok, v) | (v, Verdict::Ok) => v,
      (Verdict::Paths(mut p), Verdict::Paths(q)) => { p.extend(q); Verdict::Paths(p) }
    };
  }
  out
}
type Boxed = Box<dyn Interaction + Send + Sync + RefUnwindSafe>;

fn one(rec: &mut Rec, class: &str, e: &Msg, a: &Msg, rules: &Rules) {
  let p = pact();
  for v4 in [false, true] {
    rec.case(format!("{} {} / {}{}", if v4 { "V4" } else { "V3" }, e.show(), a.show(), show_rules(rules)));
    let boxed = |m: &Msg, r: &Rules| -> Boxed {
      let c = m.build(r);
      if v4 { Box::new(AsynchronousMessage { contents: c, ..AsynchronousMessage::default() }) } else { Box::new(Message { contents: c.contents, metadata: c.metadata, matching_rules: c.matching_rules, ..Message::default() }) }
    };
    let want = if v4 { diff(&e.with_type(), &a.with_type(), rules) } else { diff(e, a, rules) };
    rec.trace(); rec.steps(1);
    let Some(m) = rec.no_panic(class, || now(match_message(&boxed(e, rules), &boxed(a, &vec![]), &p))) else { continue };
    let got = observed(rec, &m, want.absent);
    rec.outcome(if m.is_empty() { "match" } else { "mismatch" });
    rec.check(same(&want, &got), class, || format!("should be {:?}, is {:?}", want, got));
  }
}

pub fn c34(run: &Run) {
  let b = |s: &[u8]| Body::Bytes(s.to_vec());
  let bodies = vec![Body::Missing, Body::Null, Body::Empty, b(b"a"), b(b"b"), b(b"{\"a\":1}"), b(b"{\"a\":2}"), b(b"{\"a\":1,\"b\":2}"), b(b"{\"b\":\"x\", \"a\":1}"), b(b"[1]"), b(b"\xff\x00"), b(b"a=1&b=2"), b(b"b=2&a=1")];
  let types = ["text/plain", "text/plain;charset=utf-8", "application/json", "application/json;charset=UTF-8", "application/hal+json", "application/octet-stream", "application/x-www-form-urlencoded", "*/*", "nonsense"];
  let mut msgs = vec![];
  for body in &bodies {
    msgs.push(Msg { body: body.clone(), own: None, meta: vec![] });
    for t in types {
      for k in ["contentType", "content-type", "Content-Type"] { if run.thorough || k == "contentType" || t == "application/json" { msgs.push(Msg { body: body.clone(), own: None, meta: vec![(k.to_string(), json!(t))] }); } }
      if let Body::Bytes(_) = body { if t != "nonsense" { msgs.push(Msg { body: body.clone(), own: Some(t.to_string()), meta: vec![] }); } }
    }
  }
  run.pairs("contents", "every pair of V3 and of V4 messages with every state and content of the body and every content type, given by the metadata, the body or neither", &msgs, &msgs, |e, a, rec| {
    rec.state(&(e.show(), a.show()));
    one(rec, "contents", e, a, &vec![]);
  });
  // metadata
  let values = [json!("x"), json!("y"), json!(1), json!(2), json!(1.5), json!(null), json!(true), json!({"k": 1}), json!(["x"]), json!("")];
  let mut metas: Vec<Vec<(String, Value)>> = vec![vec![]];
  for k in ["a", "b", "A", "a.b", "0"] { for v in &values { metas.push(vec![(k.into(), v.clone())]); } }
  for v in &values[..4] { for w in &values[..4] { metas.push(vec![("a".into(), v.clone()), ("b".into(), w.clone())]); } }
  for t in ["text/plain", "text/plain;charset=utf-8", "text/plain; charset=UTF-8", "text/plain;charset=x", "text/html"] { for k in ["contentType", "content-type", "CONTENT-TYPE"] { metas.push(vec![(k.into(), json!(t))]); } }
  let r = |c: Category, p: &str, r: MatchingRule| (c, path(p), vec![r], RuleLogic::And);
  let mut sets: Vec<Rules> = vec![vec![]];
  for p in ["a", "$.a", "b", "$.*", "$", "$['a.b']", "contentType", "$['content-type']"] { for x in [Type, Equality, Integer, Number, Null, NotEmpty, Regex("x".into()), Regex("text/.*".into()), Include("x".into()), MinType(1)] { sets.push(vec![r(Category::METADATA, p, x)]); } }
  for x in [Type, Integer, Regex("x".into()), NotEmpty] { for y in [Equality, Null, Include("y".into())] { for l in [RuleLogic::And, RuleLogic::Or] { sets.push(vec![(Category::METADATA, path("a"), vec![x.clone(), y.clone()], l)]); } sets.push(vec![r(Category::METADATA, "a", x.clone()), r(Category::METADATA, "b", y.clone())]); } }
  for c in [Category::BODY, Category::HEADER, Category::CONTENTS, Category::QUERY] { sets.push(vec![r(c, "$.a", Type)]); }
  run.pairs("metadata", "every pair of metadata of up to two entries, under every rule for an entry, for another, for all, and every two rules", &metas, &metas, |e, a, rec| {
    rec.state(&(format!("{:?}", e), format!("{:?}", a)));
    let m = |l: &Vec<(String, Value)>| Msg { body: b(b"a"), own: None, meta: l.clone() };
    for s in &sets { if s.is_empty() || run.thorough || e.len() + a.len() < 4 { one(rec, "metadata", &m(e), &m(a), s); } }
  });
  // contents under rules, which must not leak between contents and metadata
  let sets: Vec<Rules> = vec![vec![r(Category::BODY, "$.a", Type)], vec![r(Category::BODY, "$.a", Integer)], vec![r(Category::BODY, "$", Type)], vec![r(Category::BODY, "$", Regex("[ab]".into()))], vec![r(Category::BODY, "$.*", NotEmpty)], vec![r(Category::METADATA, "$.a", Type)], vec![r(Category::METADATA, "$", Type)], vec![r(Category::METADATA, "a", Type), r(Category::BODY, "$.a", Type)], vec![r(Category::HEADER, "a", Type), r(Category::STATUS, "$", Type)], vec![(Category::BODY, path("$.a"), vec![Integer, Regex("x".into())], RuleLogic::Or)]];
  let mut both = vec![];
  for body in &bodies { for v in [None, Some(json!(1)), Some(json!("1")), Some(json!(2))] { both.push(Msg { body: body.clone(), own: None, meta: v.into_iter().map(|v| ("a".to_string(), v)).collect() }); } }
  run.pairs("rules", "every pair of messages with and without an entry, under every rule set for contents and metadata", &both, &both, |e, a, rec| {
    rec.state(&(e.show(), a.show(), 1));
    for s in &sets { one(rec, "rules", e, a, s); }
  });
  // synchronous messages
  let few: Vec<Msg> = vec![Msg { body: Body::Missing, own: None, meta: vec![] }, Msg { body: b(b"a"), own: None, meta: vec![] }, Msg { body: b(b"b"), own: None, meta: vec![("a".into(), json!(1))] }, Msg { body: b(b"{\"a\":1}"), own: Some("application/json".into()), meta: vec![] }, Msg { body: b(b"{\"a\":2}"), own: Some("application/json".into()), meta: vec![("a".into(), json!(2))] }, Msg { body: Body::Empty, own: None, meta: vec![("a".into(), json!(1))] }];
  let len = if run.thorough { 3 } else { 2 };
  let n = seq_count(few.len(), len) as usize;
  let rsets: Vec<Rules> = vec![vec![], vec![r(Category::BODY, "$.a", Type)], vec![r(Category::METADATA, "a", Type)], vec![r(Category::BODY, "$", Type)]];
  let bases = [n, n, rsets.len()];
  let p = pact();
  run.explore("responses", "every pair of lists of responses up to length 2 (thorough 3) under every rule set on all, the first or the last expected response", space_size(&bases), |i, rec| {
    let d = digits(i, &bases);
    rec.state(&(&d, 2));
    let (e, a): (Vec<Msg>, Vec<Msg>) = (seq_at(d[0] as u64, few.len()).iter().map(|k| few[*k].clone()).collect(), seq_at(d[1] as u64, few.len()).iter().map(|k| few[*k].clone()).collect());
    for place in 0..3 {
      if place > 0 && d[2] == 0 { continue; }
      let rules: Vec<Rules> = (0..e.len()).map(|k| if place == 0 || (place == 1 && k == 0) || (place == 2 && k + 1 == e.len()) { rsets[d[2]].clone() } else { vec![] }).collect();
      rec.case(format!("{:?} / {:?}{} on {}", e.iter().map(|m| m.show()).collect::<Vec<_>>(), a.iter().map(|m| m.show()).collect::<Vec<_>>(), show_rules(&rsets[d[2]]), ["all", "the first", "the last"][place]));
      let real_e: Vec<MessageContents> = e.iter().zip(&rules).map(|(m, r)| m.build(r)).collect();
      let real_a: Vec<MessageContents> = a.iter().map(|m| m.build(&vec![])).collect();
      rec.trace(); rec.steps(1);
      let Some(m) = rec.no_panic("responses", || now(match_sync_message_response(&SynchronousMessage::default(), &real_e, &real_a, &p))) else { continue };
      rec.outcome(if m.is_empty() { "match" } else { "mismatch" });
      if e.is_empty() { rec.check(m.is_empty(), "responses", || format!("no response is expected, but {:?}", m)); continue; }
      if e.len() != a.len() { rec.check(!m.is_empty(), "responses", || "another number of responses is accepted".into()); continue; }
      let want = union(e.iter().zip(&a).zip(&rules).map(|((e, a), r)| diff(e, a, r)).collect());
      let got = observed(rec, &m, want.absent);
      rec.check(same(&want, &got), "responses", || format!("should be {:?}, is {:?}", want, got));
    }
  });
  let bases = [few.len(), few.len(), few.len() + 1, few.len() + 1, rsets.len(), 2];
  run.explore("synchronous", "every pair of synchronous messages with up to one response, with rules on the request or the response", space_size(&bases), |i, rec| {
    let d = digits(i, &bases);
    rec.state(&(&d, 3));
    let on_request = d[5] == 0;
    let (rr, sr) = if on_request { (rsets[d[4]].clone(), vec![]) } else { (vec![], rsets[d[4]].clone()) };
    let resp = |k: usize| -> Vec<Msg> { if k == 0 { vec![] } else { vec![few[k - 1].clone()] } };
    let (er, ar) = (resp(d[2]), resp(d[3]));
    rec.case(format!("{} -> {:?} / {} -> {:?} {} on the {}", few[d[0]].show(), er.iter().map(|m| m.show()).collect::<Vec<_>>(), few[d[1]].show(), ar.iter().map(|m| m.show()).collect::<Vec<_>>(), show_rules(&rsets[d[4]]), if on_request { "request" } else { "response" }));
    let e = SynchronousMessage { request: few[d[0]].build(&rr), response: er.iter().map(|m| m.build(&sr)).collect(), ..SynchronousMessage::default() };
    let a = SynchronousMessage { request: few[d[1]].build(&vec![]), response: ar.iter().map(|m| m.build(&vec![])).collect(), ..SynchronousMessage::default() };
    rec.trace(); rec.steps(2);
    let Some(m) = rec.no_panic("synchronous", || now(match_sync_message_request(&e, &a, &p))) else { return };
    let want = diff(&few[d[0]], &few[d[1]], &rr);
    let got = observed(rec, &m, want.absent);
    rec.check(same(&want, &got), "request", || format!("should be {:?}, is {:?}", want, got));
    let Some(all) = rec.no_panic("synchronous", || now(match_sync_message(e.clone(), a.clone(), &p))) else { return };
    rec.outcome(if all.is_empty() { "match" } else { "mismatch" });
    if er.len() != ar.len() { rec.check(er.is_empty() || !all.is_empty(), "synchronous", || "a missing response is accepted".into()); if er.is_empty() { rec.eq("synchronous", &m.len(), &all.len()); } return; }
    let mut parts = vec![want];
    for (e, a) in er.iter().zip(&ar) { parts.push(diff(e, a, &sr)); }
    let want = union(parts);
    let got = observed(rec, &all, want.absent);
    rec.check(same(&want, &got), "synchronous", || format!("should be {:?}, is {:?}", want, got));
  });
  // messages are only comparable with messages
  let kinds: Vec<(&str, Boxed)> = vec![("V3 message", Box::new(Message { metadata: Default::default(), ..Message::default() })), ("V4 message", Box::new(AsynchronousMessage::default())), ("synchronous message", Box::new(SynchronousMessage::default())), ("V4 HTTP", Box::new(pact_models::v4::synch_http::SynchronousHttp::default())), ("V3 HTTP", Box::new(pact_models::sync_interaction::RequestResponseInteraction::default()))];
  run.explore("kinds", "every pair of kinds of interaction", 25, |i, rec| {
    let (e, a) = (&kinds[i as usize / 5], &kinds[i as usize % 5]);
    rec.case(format!("{} / {}", e.0, a.0)); rec.trace(); rec.state(&(i, 4));
    let Some(m) = rec.no_panic("kinds", || now(match_message(&e.1, &a.1, &p))) else { return };
    let msg = |s: &str| s == "V3 message" || s == "V4 message";
    rec.eq("kinds", &(msg(e.0) && msg(a.0)), &m.is_empty());
  });
  let _ = Ctx { rules: vec![], strict: false };
}
