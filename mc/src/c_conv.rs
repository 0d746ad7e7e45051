//! C05: conversions between specification versions.
#![allow(deprecated)]
use mccore::*;
use pact_models::interaction::Interaction;
use pact_models::message::Message;
use pact_models::pact::Pact;
use pact_models::sync_interaction::RequestResponseInteraction;
use pact_models::v4::interaction::V4Interaction;
use pact_models::PactSpecification;
use serde_json::{json, Value};
use crate::c_pact::{diff, load, P};
use crate::docs::*;

/// The matching rules as they are written, as a path can be spelled in several ways.
fn rules(r: &pact_models::matchingrules::MatchingRules) -> Value { pact_models::matchingrules::matchers_to_json(r, &PactSpecification::V4) }

/// Compares every attribute of the contract that both forms have, content types included.
fn same_http(rec: &mut Rec, class: &str, a: &RequestResponseInteraction, b: &RequestResponseInteraction) {
  let c = |n: &str| format!("{} {}", class, n);
  rec.eq(&c("description"), &a.description, &b.description);
  rec.eq(&c("provider states"), &a.provider_states, &b.provider_states);
  let (p, q) = (&a.request, &b.request);
  rec.eq(&c("method"), &p.method, &q.method);
  rec.eq(&c("path"), &p.path, &q.path);
  rec.eq(&c("query"), &p.query, &q.query);
  let headers = |h: &Option<std::collections::HashMap<String, Vec<String>>>| h.as_ref().map(|h| h.iter().map(|(k, v)| (k.clone(), v.join(", "))).collect::<std::collections::BTreeMap<_, _>>());
  rec.eq(&c("request headers"), &headers(&p.headers), &headers(&q.headers));
  rec.eq(&c("request body"), &p.body, &q.body);
  rec.eq(&c("request matching rules"), &rules(&p.matching_rules), &rules(&q.matching_rules));
  rec.eq(&c("request generators"), &p.generators, &q.generators);
  let (p, q) = (&a.response, &b.response);
  rec.eq(&c("status"), &p.status, &q.status);
  rec.eq(&c("response headers"), &headers(&p.headers), &headers(&q.headers));
  rec.eq(&c("response body"), &p.body, &q.body);
  rec.eq(&c("response matching rules"), &rules(&p.matching_rules), &rules(&q.matching_rules));
  rec.eq(&c("response generators"), &p.generators, &q.generators);
}
/// The content type of a message may be added to the metadata, as that is where the older form keeps it.
fn same_message(rec: &mut Rec, class: &str, a: &Message, b: &Message) {
  let file = class == "file" || class == "written";
  let c = |n: &str| format!("{} {}", class, n);
  rec.eq(&c("description"), &a.description, &b.description);
  rec.eq(&c("provider states"), &a.provider_states, &b.provider_states);
  rec.eq(&c("contents"), &a.contents, &b.contents);
  rec.eq(&c("matching rules"), &rules(&a.matching_rules), &rules(&b.matching_rules));
  rec.eq(&c("generators"), &a.generators, &b.generators);
  let mut m = a.metadata.clone();
  if file && !m.contains_key("contentType") { if let Some(ct) = b.metadata.get("contentType") { m.insert("contentType".into(), ct.clone()); } }
  if let (Some(ct), false) = (a.contents.content_type(), m.contains_key("contentType")) { if b.metadata.contains_key("contentType") { m.insert("contentType".into(), json!(ct.to_string())); } }
  rec.eq(&c("metadata"), &m, &b.metadata);
}

fn older(run: &Run) {
  for k in kinds().iter().filter(|k| k.version != PactSpecification::V4) {
    let max = if run.thorough { 3 } else { 2 };
    let cs = choices(k, max);
    run.each(&format!("{} to V4 and back", k.name), &format!("every document with alternatives for up to {} attributes: the interaction and the pact converted to V4 and back, and written at V4", max), &cs, |c, rec| {
      rec.case(k.label(c));
      let (i, _) = k.interaction(c);
      let mut doc = k.pact(vec![i]);
      doc["metadata"]["x"] = json!({"a": "b", "": "é"});
      rec.state(&doc.to_string());
      let p = match load(&doc) { Ok(p) => p, Err(e) => { rec.fail("load", e.to_string()); return; } };
      let Some(v4) = rec.no_panic("panic", || p.as_v4_pact()) else { return };
      let v4 = match v4 { Ok(v) => v, Err(e) => { rec.fail("to V4", e.to_string()); return; } };
      rec.steps(2);
      rec.check(v4.consumer == p.consumer() && v4.provider == p.provider(), "names", || format!("{:?}", v4));
      rec.eq("specification", &PactSpecification::V4, &v4.specification_version());
      if !rec.eq("interactions", &1, &v4.interactions.len()) { return; }
      let orig = &p.interactions()[0];
      let conv: &dyn V4Interaction = v4.interactions[0].as_ref();
      // metadata of the pact
      for (key, val) in p.metadata() { if key != "pactSpecification" { rec.check(v4.metadata.get(&key) == Some(&json!(val)), "pact metadata", || format!("{} of {:?}", key, v4.metadata)); } }
      let pc = match v4.boxed() { b => P::from(b) };
      if k.list == "interactions" {
        let o = orig.as_request_response().unwrap();
        rec.check(conv.as_message().is_none() && conv.as_v4_async_message().is_none() && conv.as_v4_sync_message().is_none() && orig.as_message().is_none() && orig.as_v4_async_message().is_none(), "kind", || conv.type_of());
        let Some(h) = conv.as_v4_http() else { rec.fail("kind", conv.type_of()); return };
        rec.eq("interaction to V4", &orig.as_v4_http(), &Some(h.clone()));
        rec.check(h.request.headers == o.request.headers && h.request.query == o.request.query && h.request.method == o.request.method && h.request.path == o.request.path && h.request.body == o.request.body && h.request.matching_rules == o.request.matching_rules && h.request.generators == o.request.generators, "V4 request", || format!("{:?} {:?}", o.request, h.request));
        rec.check(h.response.status == o.response.status && h.response.headers == o.response.headers && h.response.body == o.response.body && h.response.matching_rules == o.response.matching_rules && h.response.generators == o.response.generators, "V4 response", || format!("{:?} {:?}", o.response, h.response));
        rec.eq("V4 description", &o.description, &h.description);
        rec.eq("V4 states", &o.provider_states, &h.provider_states);
        rec.eq("content type", &o.response.content_type_s(), &h.response.content_type().map(|c| c.to_string()));
        match conv.as_request_response() { Some(b) => same_http(rec, "interaction", &o, &b), None => { rec.fail("back", "not a request/response interaction"); return; } }
        match pc.as_request_response_pact() {
          Ok(b) => { if rec.eq("interactions back", &1, &b.interactions.len()) { same_http(rec, "pact", &o, &b.interactions[0]); } rec.check(b.consumer == p.consumer() && b.provider == p.provider() && b.metadata.get("x") == p.metadata().get("x"), "names back", || format!("{:?}", b)); }
          Err(e) => rec.fail("back", e.to_string())
        }
        rec.check(p.as_message_pact().is_err(), "other kind", || "a pact of HTTP interactions became one of messages".into());
        // by the file
        if let Some(Ok(out)) = rec.no_panic("panic", || p.to_json(PactSpecification::V4)) {
          match load(&out) { Ok(q) => match q.as_request_response_pact() { Ok(b) if b.interactions.len() == 1 => {
            let (mut a, mut b) = (o.clone(), b.interactions[0].clone());
            for (x, y) in [(&mut a.request.body, &mut b.request.body), (&mut a.response.body, &mut b.response.body)] { if matches!(x, pact_models::bodies::OptionalBody::Null) { *x = y.clone(); } }
            same_http(rec, "file", &a, &b);
          } _ => rec.fail("file", "the interaction is gone") }, Err(e) => rec.fail("file", e.to_string()) }
        } else { rec.fail("write at V4", ""); }
      } else {
        let o = orig.as_message().unwrap();
        rec.check(conv.as_request_response().is_none() && conv.as_v4_http().is_none() && conv.as_v4_sync_message().is_none() && orig.as_request_response().is_none() && orig.as_v4_http().is_none(), "kind", || conv.type_of());
        let Some(m) = conv.as_v4_async_message() else { rec.fail("kind", conv.type_of()); return };
        rec.eq("interaction to V4", &orig.as_v4_async_message(), &Some(m.clone()));
        rec.check(m.description == o.description && m.provider_states == o.provider_states, "V4 message", || format!("{:?} {:?}", o, m));
        rec.check(m.contents.contents == o.contents && m.contents.metadata == o.metadata && m.contents.generators == o.generators, "V4 contents", || format!("{:?} {:?}", o, m));
        rec.eq("V4 matching rules", &o.matching_rules, &m.contents.matching_rules);
        match conv.as_message() { Some(b) => same_message(rec, "interaction", &o, &b), None => { rec.fail("back", "not a message"); return; } }
        match pc.as_message_pact() {
          Ok(b) => { if rec.eq("interactions back", &1, &b.messages.len()) { same_message(rec, "pact", &o, &b.messages[0]); } rec.check(b.consumer == p.consumer() && b.provider == p.provider() && b.metadata.get("x") == p.metadata().get("x"), "names back", || format!("{:?}", b)); }
          Err(e) => rec.fail("back", e.to_string())
        }
        rec.check(p.as_request_response_pact().is_err(), "other kind", || "a pact of messages became one of HTTP interactions".into());
        if let Some(Ok(out)) = rec.no_panic("panic", || p.to_json(PactSpecification::V4)) {
          match load(&out) { Ok(q) => match q.as_message_pact() { Ok(b) if b.messages.len() == 1 => {
            let (mut a, b) = (o.clone(), b.messages[0].clone());
            if matches!(a.contents, pact_models::bodies::OptionalBody::Null) { a.contents = b.contents.clone(); }
            same_message(rec, "file", &a, &b);
          } _ => rec.fail("file", "the message is gone") }, Err(e) => rec.fail("file", e.to_string()) }
        } else { rec.fail("write at V4", ""); }
      }
      // and written at its own version it is what it was
      match (rec.no_panic("panic", || p.to_json(k.version)), rec.no_panic("panic", || pc.to_json(k.version))) {
        (Some(Ok(mut a)), Some(Ok(mut b))) => {
          if k.list == "messages" { if a[k.list][0]["metadata"]["contentType"].is_null() { let ct = b[k.list][0]["metadata"]["contentType"].clone(); if !ct.is_null() && ct == json!(orig.contents().content_type().map(|c| c.to_string())) { a[k.list][0]["metadata"]["contentType"] = ct; } } }
          for v in [&mut a, &mut b] { v["metadata"].as_object_mut().map(|m| m.remove("pactSpecification")); }
          rec.check(a == b, "written", || diff(&a, &b, "").unwrap_or_default());
        }
        (a, b) => rec.fail("written", format!("{:?} {:?}", a.map(|a| a.map_err(|e| e.to_string())), b.map(|b| b.map_err(|e| e.to_string()))))
      }
      rec.steps(4);
      rec.trace();
      rec.outcome(format!("{} with {} attributes", k.name, c.len()));
    });
  }
}
trait ContentTypeS { fn content_type_s(&self) -> Option<String>; }
impl ContentTypeS for pact_models::response::Response { fn content_type_s(&self) -> Option<String> { use pact_models::http_parts::HttpPart; self.content_type().map(|c| c.to_string()) } }

/// Bodies for which the older form has no spelling: it has no mark for JSON text, so an empty JSON string, a JSON null, text that is
/// not JSON of a JSON type, binary content of no type, and binary content of a text type are something else there. Headers of the older form have no empty list.
fn expressible(a: &Alt) -> bool {
  !a.input.iter().any(|(p, v)| (p.ends_with("/body") || p.ends_with("/contents")) && (v["encoded"] == json!("JSON") || v["contentType"] == json!("*/*") || v["content"] == json!("eyJh") || v["contentTypeHint"] == json!("BINARY")) || p.contains("/headers/") && *v == json!([]))
}

/// V4 pacts that the older form can hold.
fn newer(run: &Run) {
  for k in kinds().iter().filter(|k| k.name == "V4 HTTP" || k.name == "V4 message") {
    let max = if run.thorough { 3 } else { 2 };
    let cs: Vec<_> = choices(k, max).into_iter().filter(|c| c.iter().all(|(s, a)| expressible(&k.slots[*s][*a]))).collect();
    run.each(&format!("{} written at V3", k.name), &format!("every document with alternatives for up to {} attributes, written at V3 and read again", max), &cs, |c, rec| {
      rec.case(k.label(c));
      let (mut i, _) = k.interaction(c);
      if k.name == "V4 HTTP" { for part in ["request", "response"] { if let Some(ct) = i[part]["body"]["contentType"].as_str().map(|s| s.to_string()) { i[part]["headers"]["Content-Type"] = json!([ct]); } } }
      let mut doc = k.pact(vec![i]);
      doc["metadata"]["x"] = json!({"a": "b", "": "é"});
      rec.state(&doc.to_string());
      let p = match load(&doc) { Ok(p) => p, Err(e) => { rec.fail("load", e.to_string()); return; } };
      let Some(out) = rec.no_panic("panic", || p.to_json(PactSpecification::V3)) else { return };
      let out = match out { Ok(o) => o, Err(e) => { rec.fail("write", e.to_string()); return; } };
      rec.eq("metadata written", &doc["metadata"]["x"], &out["metadata"]["x"]);
      rec.eq("version written", &json!("3.0.0"), &out["metadata"]["pactSpecification"]["version"]);
      let q = match rec.no_panic("panic", || load(&out)) { Some(Ok(q)) => q, Some(Err(e)) => { rec.fail("read", e.to_string()); return; } None => return };
      rec.steps(3);
      rec.check(!q.is_v4() && q.consumer() == p.consumer() && q.provider() == p.provider() && q.specification_version() == PactSpecification::V3, "pact", || out.to_string());
      if !rec.eq("interactions", &1, &q.interactions().len()) { return; }
      let (a, b) = (&p.interactions()[0], &q.interactions()[0]);
      if k.name == "V4 HTTP" {
        match (a.as_request_response(), b.as_request_response()) { (Some(a), Some(b)) => same_http(rec, "written", &a, &b), _ => rec.fail("kind", b.type_of()) }
      } else {
        match (a.as_message(), b.as_message()) { (Some(a), Some(b)) => same_message(rec, "written", &a, &b), _ => rec.fail("kind", b.type_of()) }
      }
      rec.trace();
      rec.outcome(format!("{} with {} attributes", k.name, c.len()));
    });
  }
}

/// Pacts with interactions that an older form can not hold.
fn mixed(run: &Run) {
  let pool = [("Synchronous/HTTP", json!({"request": {"method": "GET", "path": "/"}, "response": {"status": 200}})), ("Asynchronous/Messages", json!({"contents": {"content": "x"}})), ("Synchronous/Messages", json!({"request": {}, "response": [{}]}))];
  let len = if run.thorough { 6 } else { 4 };
  let versions = [PactSpecification::V1, PactSpecification::V1_1, PactSpecification::V2, PactSpecification::V3, PactSpecification::V4];
  let n = seq_count(pool.len(), len);
  run.explore("kinds of interactions", &format!("every list of up to {} interactions of the three V4 kinds x every version to write at", len), n * versions.len() as u64, |i, rec| {
    let v = versions[(i % 5) as usize];
    let l = seq_at(i / 5, pool.len());
    rec.case(format!("{:?} at {:?}", l.iter().map(|i| pool[*i].0).collect::<Vec<_>>(), v));
    rec.state(&(&l, v.to_string()));
    let items: Vec<Value> = l.iter().enumerate().map(|(n, i)| { let mut o = pool[*i].1.clone(); o["type"] = json!(pool[*i].0); o["description"] = json!(format!("d{}", n)); o }).collect();
    let p = load(&json!({"consumer": {"name": "c"}, "provider": {"name": "p"}, "interactions": items, "metadata": {"pactSpecification": {"version": "4.0"}}})).unwrap();
    let Some(r) = rec.no_panic("panic", || p.to_json(v)) else { return };
    rec.steps(2);
    let can = v == PactSpecification::V4 || l.iter().all(|i| *i == 0) || (v == PactSpecification::V3 && l.iter().all(|i| *i == 1));
    rec.outcome(format!("{:?} {}", v, if can { "written" } else { "can not be written" }));
    match r {
      Ok(out) => {
        if !rec.check(can, "inexpressible", || out.to_string()) { return; }
        let list = if out["messages"].is_array() { &out["messages"] } else { &out["interactions"] };
        let d: Vec<&Value> = list.as_array().map(|a| a.iter().map(|i| &i["description"]).collect()).unwrap_or_default();
        let exp: Vec<Value> = (0..l.len()).map(|n| json!(format!("d{}", n))).collect();
        rec.eq("interactions", &exp.iter().collect::<Vec<_>>(), &d);
      }
      Err(e) => { rec.check(!can, "refused", || e.to_string()); }
    }
    rec.trace();
  });
}

pub fn c05(run: &Run) { older(run); newer(run); mixed(run); }
