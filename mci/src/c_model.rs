//! C63: what is read from a model through the C interface is what the model holds.
use crate::ffi::{t, taken};
use mccore::{digits, space_size, seq_at, seq_count, Rec, Run};
use pact_ffi::mock_server::handles::*;
use pact_ffi::models::{async_message::*, consumer::*, contents::*, generators::*, http_interaction::*, interactions::*, iterators::*, matching_rules::*, message::*, message_pact::*, provider::*, provider_state::*, sync_message::*, *};
use pact_models::bodies::OptionalBody;
use pact_models::generators::{Generators, GeneratorCategory as Cat};
use pact_models::matchingrules::{Category, MatchingRules};
use pact_models::message::Message;
use pact_models::message_pact::MessagePact;
use pact_models::provider_states::ProviderState;
use pact_models::v4::async_message::AsynchronousMessage;

use pact_models::v4::message_parts::MessageContents;
use pact_models::v4::sync_message::SynchronousMessage;
use pact_models::v4::synch_http::SynchronousHttp;
use serde_json::{json, Value};
use std::collections::HashMap;
use std::ffi::CStr;
use std::os::raw::c_char;

extern "C" { fn pactffi_string_delete(s: *mut c_char); }
fn text(p: *const c_char) -> String { unsafe { CStr::from_ptr(p) }.to_string_lossy().to_string() }
fn string(p: *const c_char) -> Value { taken(p).map(Value::String).unwrap_or(Value::Null) }
/// A C string cannot hold a zero byte.
fn shown(s: &str) -> Value { if s.contains('\0') { Value::Null } else { json!(s) } }
/// Everything until the end, which stays the end.
fn drained<T>(mut next: impl FnMut() -> *const T, mut what: impl FnMut(*const T) -> Value) -> Value {
  let mut out = vec![];
  loop { let p = next(); if p.is_null() { break; } out.push(what(p)); if out.len() > 100 { out.push(json!("without end")); break; } }
  for _ in 0..3 { if !next().is_null() { out.push(json!("more after the end")); } }
  Value::Array(out)
}
fn sorted(v: Value) -> Value { match v { Value::Array(mut l) => { l.sort_by_key(|x| x.to_string()); Value::Array(l) } v => v } }
// ---- what the C interface says
fn c_state(s: *mut ProviderState) -> Value {
  let it = pactffi_provider_state_get_param_iter(s);
  let params = drained(|| pactffi_provider_state_param_iter_next(it) as *const _, |p| {
    let pair = p as *const [*const c_char; 2];
    let [k, v] = unsafe { *pair };
    let r = json!([text(k), serde_json::from_str::<Value>(&text(v)).unwrap_or_else(|_| json!(format!("no JSON: {}", text(v))))]);
    unsafe { pactffi_string_delete(k as *mut _); pactffi_string_delete(v as *mut _); }
    unsafe { drop(Box::from_raw(p as *mut [*const c_char; 2])); }
    r
  });
  pactffi_provider_state_param_iter_delete(it);
  json!([string(pactffi_provider_state_get_name(s)), sorted(params)])
}
fn c_states(it: *mut ProviderStateIterator, at: impl Fn(u32) -> *const ProviderState) -> Value {
  let all = drained(|| pactffi_provider_state_iter_next(it) as *const ProviderState, |s| c_state(s as *mut _));
  pactffi_provider_state_iter_delete(it);
  let n = all.as_array().unwrap().len() as u32;
  let one: Vec<Value> = (0..n + 2).map(|i| { let p = at(i); if p.is_null() { Value::Null } else { let v = c_state(p as *mut _); pactffi_provider_state_delete(p as *mut _); v } }).collect();
  json!({"all": all, "each": one, "far": at(u32::MAX).is_null()})
}
const CATS: [MatchingRuleCategory; 8] = [MatchingRuleCategory::METHOD, MatchingRuleCategory::PATH, MatchingRuleCategory::HEADER, MatchingRuleCategory::QUERY, MatchingRuleCategory::BODY, MatchingRuleCategory::STATUS, MatchingRuleCategory::CONTENTS, MatchingRuleCategory::METADATA];
const RCATS: [Category; 8] = [Category::METHOD, Category::PATH, Category::HEADER, Category::QUERY, Category::BODY, Category::STATUS, Category::CONTENTS, Category::METADATA];
const GENS: [GeneratorCategory; 7] = [GeneratorCategory::METHOD, GeneratorCategory::PATH, GeneratorCategory::HEADER, GeneratorCategory::QUERY, GeneratorCategory::BODY, GeneratorCategory::STATUS, GeneratorCategory::METADATA];
const RGENS: [Cat; 7] = [Cat::METHOD, Cat::PATH, Cat::HEADER, Cat::QUERY, Cat::BODY, Cat::STATUS, Cat::METADATA];
fn c_rules(of: impl Fn(MatchingRuleCategory) -> *mut MatchingRuleCategoryIterator) -> Value {
  Value::Array(CATS.iter().map(|c| {
    let it = of(*c);
    let r = drained(|| pactffi_matching_rules_iter_next(it), |p| {
      let r = json!([text(unsafe { (*p).path }), string(pactffi_matching_rule_to_json(unsafe { (*p).rule })).as_str().and_then(|s| serde_json::from_str::<Value>(s).ok())]);
      pactffi_matching_rules_iter_pair_delete(p);
      r
    });
    pactffi_matching_rules_iter_delete(it);
    r
  }).collect())
}
fn c_gens(of: impl Fn(GeneratorCategory) -> *mut GeneratorCategoryIterator) -> Value {
  Value::Array(GENS.iter().map(|c| {
    let it = of(*c);
    let r = drained(|| pactffi_generators_iter_next(it), |p| {
      let r = json!([text(unsafe { (*p).path }), string(pactffi_generator_to_json(unsafe { (*p).generator })).as_str().and_then(|s| serde_json::from_str::<Value>(s).ok())]);
      pactffi_generators_iter_pair_delete(p);
      r
    });
    pactffi_generators_iter_delete(it);
    sorted(r)
  }).collect())
}
fn bytes(p: *const u8, n: usize) -> Value { if p.is_null() { json!([null, n]) } else { json!([unsafe { std::slice::from_raw_parts(p, n) }.to_vec(), n]) } }
fn c_metadata(it: *mut MessageMetadataIterator) -> Value {
  let r = drained(|| pactffi_message_metadata_iter_next(it) as *const MessageMetadataPair, |p| { let r = json!([text(unsafe { (*p).key }), text(unsafe { (*p).value })]); pactffi_message_metadata_pair_delete(p as *mut _); r });
  pactffi_message_metadata_iter_delete(it);
  r
}
fn c_contents(c: *const MessageContents) -> Value {
  if c.is_null() { return Value::Null; }
  json!({"text": string(pactffi_message_contents_get_contents_str(c)), "bytes": bytes(pactffi_message_contents_get_contents_bin(c), pactffi_message_contents_get_contents_length(c)),
    "metadata": sorted(c_metadata(pactffi_message_contents_get_metadata_iter(c))), "rules": c_rules(|k| pactffi_message_contents_get_matching_rule_iter(c, k)), "generators": c_gens(|k| pactffi_message_contents_get_generators_iter(c, k))})
}
fn c_http(h: *const SynchronousHttp) -> Value {
  let (q, s) = (pactffi_sync_http_get_request(h), pactffi_sync_http_get_response(h));
  json!({"description": string(pactffi_sync_http_get_description(h)), "states": c_states(pactffi_sync_http_get_provider_state_iter(h as *mut _), |i| pactffi_sync_http_get_provider_state(h, i)),
    "request": [string(pactffi_sync_http_get_request_contents(h)), bytes(pactffi_sync_http_get_request_contents_bin(h), pactffi_sync_http_get_request_contents_length(h)), c_rules(|k| pactffi_request_contents_get_matching_rule_iter(q, k)), c_gens(|k| pactffi_request_contents_get_generators_iter(q, k))],
    "response": [string(pactffi_sync_http_get_response_contents(h)), bytes(pactffi_sync_http_get_response_contents_bin(h), pactffi_sync_http_get_response_contents_length(h)), c_rules(|k| pactffi_response_contents_get_matching_rule_iter(s, k)), c_gens(|k| pactffi_response_contents_get_generators_iter(s, k))]})
}
fn c_async(a: *const AsynchronousMessage) -> Value {
  let made = pactffi_async_message_generate_contents(a);
  let generated = c_contents(made);
  if !made.is_null() { pactffi_message_contents_delete(made); }
  json!({"description": string(pactffi_async_message_get_description(a)), "states": c_states(pactffi_async_message_get_provider_state_iter(a as *mut _), |i| pactffi_async_message_get_provider_state(a, i)),
    "text": string(pactffi_async_message_get_contents_str(a)), "bytes": bytes(pactffi_async_message_get_contents_bin(a), pactffi_async_message_get_contents_length(a)), "contents": c_contents(pactffi_async_message_get_contents(a)), "generated": generated})
}
fn c_sync(m: *const SynchronousMessage) -> Value {
  let n = pactffi_sync_message_get_number_responses(m);
  let generated = |p: *const MessageContents| { let v = c_contents(p); if !p.is_null() { pactffi_message_contents_delete(p); } v };
  json!({"description": string(pactffi_sync_message_get_description(m)), "states": c_states(pactffi_sync_message_get_provider_state_iter(m as *mut _), |i| pactffi_sync_message_get_provider_state(m, i)),
    "request": [string(pactffi_sync_message_get_request_contents_str(m)), bytes(pactffi_sync_message_get_request_contents_bin(m), pactffi_sync_message_get_request_contents_length(m)), c_contents(pactffi_sync_message_get_request_contents(m)), generated(pactffi_sync_message_generate_request_contents(m))],
    "n": n,
    "responses": (0..n + 2).map(|i| json!([string(pactffi_sync_message_get_response_contents_str(m, i)), bytes(pactffi_sync_message_get_response_contents_bin(m, i), pactffi_sync_message_get_response_contents_length(m, i)), c_contents(pactffi_sync_message_get_response_contents(m, i)), generated(pactffi_sync_message_generate_response_contents(m, i))])).collect::<Vec<_>>()})
}
const KEYS: [&str; 9] = ["s", "n", "l", "b", "o", "z", "contentType", "S", "missing"];
fn c_message(m: *const Message) -> Value {
  json!({"description": string(pactffi_message_get_description(m)), "states": c_states(pactffi_message_get_provider_state_iter(m as *mut _), |i| pactffi_message_get_provider_state(m, i)),
    "text": string(pactffi_message_get_contents(m)), "bytes": bytes(pactffi_message_get_contents_bin(m), pactffi_message_get_contents_length(m)), "metadata": sorted(c_metadata(pactffi_message_get_metadata_iter(m as *mut _))),
    "found": KEYS.iter().map(|k| string(pactffi_message_find_metadata(m, t(*k).p()))).collect::<Vec<_>>()})
}
fn c_interaction(i: *const PactInteraction) -> Value {
  let (h, m, a, s) = (pactffi_pact_interaction_as_synchronous_http(i), pactffi_pact_interaction_as_message(i), pactffi_pact_interaction_as_asynchronous_message(i), pactffi_pact_interaction_as_synchronous_message(i));
  let v = json!({"http": if h.is_null() { Value::Null } else { c_http(h) }, "message": if m.is_null() { Value::Null } else { c_message(m) }, "async": if a.is_null() { Value::Null } else { c_async(a) }, "sync": if s.is_null() { Value::Null } else { c_sync(s) }});
  if !h.is_null() { pactffi_sync_http_delete(h); }
  if !m.is_null() { pactffi_message_delete(m as *mut _); }
  if !a.is_null() { pactffi_async_message_delete(a); }
  if !s.is_null() { pactffi_sync_message_delete(s as *mut _); }
  v
}
fn c_pact(p: *mut Pact) -> Value {
  let (c, v) = (pactffi_pact_get_consumer(p), pactffi_pact_get_provider(p));
  let names = json!([string(pactffi_consumer_get_name(c)), string(pactffi_provider_get_name(v))]);
  pactffi_pact_consumer_delete(c);
  pactffi_pact_provider_delete(v);
  let version = format!("{:?}", pactffi_pact_spec_version(p));
  let it = pactffi_pact_model_interaction_iterator(p);
  let other = pactffi_pact_model_interaction_iterator(p);
  pactffi_pact_model_delete(p);
  let all = drained(|| pactffi_pact_interaction_iter_next(it), c_interaction);
  let again = drained(|| pactffi_pact_interaction_iter_next(other), |_| json!(1)).as_array().unwrap().len();
  pactffi_pact_interaction_iter_delete(it);
  pactffi_pact_interaction_iter_delete(other);
  json!({"names": names, "version": version, "all": all, "again": again})
}
fn c_message_pact(p: *mut MessagePact) -> Value {
  let it = pactffi_message_pact_get_message_iter(p);
  let all = drained(|| pactffi_message_pact_message_iter_next(it) as *const Message, c_message);
  pactffi_message_pact_message_iter_delete(it);
  let it = pactffi_message_pact_get_metadata_iter(p);
  let meta = drained(|| pactffi_message_pact_metadata_iter_next(it) as *const _, |x| {
    let [a, b, c] = unsafe { *(x as *const [*const c_char; 3]) };
    let r = json!([text(a), text(b), text(c)]);
    pactffi_message_pact_metadata_triple_delete(x as *mut _);
    r
  });
  pactffi_message_pact_metadata_iter_delete(it);
  let found: Vec<Value> = [("a", "x"), ("a", "y"), ("b", "x"), ("", ""), ("a", "X"), ("pactRust", "z")].iter().map(|(k, n)| string(pactffi_message_pact_find_metadata(p, t(*k).p(), t(*n).p()))).collect();
  let v = json!({"names": [string(pactffi_consumer_get_name(pactffi_message_pact_get_consumer(p))), string(pactffi_provider_get_name(pactffi_message_pact_get_provider(p)))], "all": all, "metadata": sorted(meta), "found": found});
  pactffi_message_pact_delete(p);
  v
}
// ---- what the model holds
fn m_state(s: &ProviderState) -> Value { json!([shown(&s.name), sorted(Value::Array(s.params.iter().map(|(k, v)| json!([k, v])).collect()))]) }
fn m_states(l: &[ProviderState]) -> Value {
  let all: Vec<Value> = l.iter().map(m_state).collect();
  let mut each = all.clone(); each.push(Value::Null); each.push(Value::Null);
  json!({"all": all, "each": each, "far": true})
}
fn is_text(b: &OptionalBody) -> bool { match b { OptionalBody::Present(_, _, Some(h)) => format!("{:?}", h) == "TEXT", OptionalBody::Present(_, Some(ct), None) => ct.is_text(), _ => false } }
fn m_text(b: &OptionalBody) -> Value { match b { OptionalBody::Missing => Value::Null, OptionalBody::Empty | OptionalBody::Null => json!(""), OptionalBody::Present(x, _, _) => match std::str::from_utf8(x) { Ok(s) if is_text(b) => shown(s), _ => json!("") } } }
fn m_bytes(b: &OptionalBody) -> Value { match b { OptionalBody::Present(x, _, _) => json!([x.to_vec(), x.len()]), _ => json!([null, 0]) } }
fn m_rules(r: &MatchingRules) -> Value {
  Value::Array(RCATS.iter().map(|c| {
    let mut l: Vec<(String, Vec<Value>)> = r.rules.get(c).map(|m| m.rules.iter().map(|(p, l)| (p.to_string(), l.rules.iter().map(|x| x.to_json()).collect())).collect()).unwrap_or_default();
    l.sort_by_key(|(p, _)| p.clone());
    Value::Array(l.into_iter().flat_map(|(p, v)| v.into_iter().map(move |x| json!([p.clone(), x]))).collect())
  }).collect())
}
fn m_gens(g: &Generators) -> Value { Value::Array(RGENS.iter().map(|c| sorted(Value::Array(g.categories.get(c).map(|m| m.iter().map(|(p, x)| json!([p.to_string(), x.to_json()])).collect()).unwrap_or_default()))).collect()) }
fn value_text(v: &Value) -> String { match v { Value::String(s) => s.clone(), Value::Null => String::new(), v => v.to_string() } }
fn m_metadata(m: &HashMap<String, Value>) -> Value { sorted(Value::Array(m.iter().map(|(k, v)| json!([k, value_text(v)])).collect())) }
fn m_contents(c: &MessageContents) -> Value { json!({"text": m_text(&c.contents), "bytes": m_bytes(&c.contents), "metadata": m_metadata(&c.metadata), "rules": m_rules(&c.matching_rules), "generators": m_gens(&c.generators)}) }
/// The contents with the generators applied (those used here make one value each).
fn made(c: &MessageContents) -> MessageContents {
  let mut c = c.clone();
  if c.generators.categories.get(&Cat::BODY).map_or(false, |m| !m.is_empty()) {
    if let OptionalBody::Present(b, ct, h) = &c.contents { if let (Ok(mut v), true) = (serde_json::from_slice::<Value>(b), ct.as_ref().map_or(true, |t| t.is_json())) { if let Some(x) = v.get_mut("a") { *x = json!(7); } c.contents = OptionalBody::Present(v.to_string().into(), ct.clone().or_else(|| Some(pact_models::content_types::JSON.clone())), h.clone()); } }
  }
  if c.generators.categories.get(&Cat::METADATA).map_or(false, |m| !m.is_empty()) { let n = match c.metadata.get("s") { Some(Value::String(_)) => json!("7"), _ => json!(7) }; c.metadata.insert("s".into(), n); }
  c
}
fn m_http(h: &SynchronousHttp) -> Value {
  json!({"description": shown(&h.description), "states": m_states(&h.provider_states), "request": [m_text(&h.request.body), m_bytes(&h.request.body), m_rules(&h.request.matching_rules), m_gens(&h.request.generators)],
    "response": [m_text(&h.response.body), m_bytes(&h.response.body), m_rules(&h.response.matching_rules), m_gens(&h.response.generators)]})
}
fn m_async(a: &AsynchronousMessage) -> Value { json!({"description": shown(&a.description), "states": m_states(&a.provider_states), "text": m_text(&a.contents.contents), "bytes": m_bytes(&a.contents.contents), "contents": m_contents(&a.contents), "generated": m_contents(&made(&a.contents))}) }
fn m_sync(m: &SynchronousMessage) -> Value {
  let mut l: Vec<Value> = m.response.iter().map(|c| json!([m_text(&c.contents), m_bytes(&c.contents), m_contents(c), m_contents(&made(c))])).collect();
  for _ in 0..2 { l.push(json!([null, [null, 0], null, null])); }
  json!({"description": shown(&m.description), "states": m_states(&m.provider_states), "request": [m_text(&m.request.contents), m_bytes(&m.request.contents), m_contents(&m.request), m_contents(&made(&m.request))], "n": m.response.len(), "responses": l})
}
fn m_message(m: &Message) -> Value {
  let g = made(&MessageContents { contents: m.contents.clone(), metadata: m.metadata.clone(), matching_rules: m.matching_rules.clone(), generators: m.generators.clone() });
  // Only the names there are in the message are gone through
  let shown_meta: HashMap<String, Value> = g.metadata.iter().filter(|(k, _)| m.metadata.contains_key(*k)).map(|(k, v)| (k.clone(), v.clone())).collect();
  json!({"description": shown(&m.description), "states": m_states(&m.provider_states), "text": m_text(&g.contents), "bytes": m_bytes(&m.contents), "metadata": m_metadata(&shown_meta),
    "found": KEYS.iter().map(|k| m.metadata.get(*k).map(|v| shown(&value_text(v))).unwrap_or(Value::Null)).collect::<Vec<_>>()})
}
fn m_pact(doc: &Value) -> Option<Value> {
  let p = pact_models::pact::load_pact_from_json("<FFI>", doc).ok()?;
  let all: Vec<Value> = p.interactions().iter().map(|i| json!({
    "http": i.as_v4_http().map(|h| m_http(&h)), "message": i.as_message().map(|m| m_message(&m)), "async": i.as_v4_async_message().map(|a| m_async(&a)), "sync": i.as_v4_sync_message().map(|s| m_sync(&s)) })).collect();
  Some(json!({"names": [p.consumer().name, p.provider().name], "version": format!("{:?}", p.specification_version()), "again": all.len(), "all": all}))
}
// ---- the documents
const BODIES: usize = 9;
fn v4_body(i: usize) -> Option<Value> {
  Some(match i { 0 => return None, 1 => Value::Null, 2 => json!({"content": ""}), 3 => json!({"content": {"a": 1, "b": "é"}, "contentType": "application/json", "encoded": false}), 4 => json!({"content": "text é", "contentType": "text/plain", "encoded": false}),
    5 => json!({"content": "AAECAw==", "contentType": "application/octet-stream", "encoded": "base64"}), 6 => json!({"content": "a\u{0}b", "contentType": "text/plain", "encoded": false}), 7 => json!({"content": "/2E=", "contentType": "text/plain", "encoded": "base64"}), _ => json!({"content": "null", "contentType": "application/json", "encoded": "JSON"}) })
}
fn v3_body(i: usize) -> Option<Value> { Some(match i { 0 => return None, 1 => Value::Null, 2 => json!(""), 3 => json!({"a": 1, "b": "é"}), 4 => json!("text é"), 5 => json!("AAECAw=="), 6 => json!("a\u{0}b"), 7 => json!([1, "x"]), _ => json!(false) }) }
const METAS: usize = 4;
fn metadata(i: usize) -> Option<Value> { Some(match i { 0 => return None, 1 => json!({}), 2 => json!({"s": "text", "S": "other", "n": 12}), _ => json!({"s": "é", "l": [1, "x"], "b": true, "o": {"k": "v"}, "z": null, "n": 1.5, "contentType": "text/plain"}) }) }
const STATES: usize = 5;
fn states(i: usize) -> Option<Value> { Some(match i { 0 => return None, 1 => json!([]), 2 => json!([{"name": "one"}]), 3 => json!([{"name": "one", "params": {"s": "x", "n": 1, "b": false, "z": null, "l": [1], "o": {"k": "v"}, "é": "é"}}, {"name": "Two é", "params": {}}]), _ => json!([{"name": ""}, {"name": "one", "params": {"S": "1", "s": "2"}}, {"name": "one", "params": {"s": "3"}}]) }) }
const RULES: usize = 4;
fn list(l: Value) -> Value { json!({"combine": "AND", "matchers": l}) }
fn rules(i: usize, http: bool) -> Option<Value> {
  let body = if http { "body" } else { "body" };
  Some(match i {
    0 => return None,
    1 => json!({body: {"$.a": list(json!([{"match": "type"}]))}}),
    2 => json!({body: {"$.b": list(json!([{"match": "regex", "regex": "\\w+"}, {"match": "number"}, {"match": "type"}])), "$.a": list(json!([{"match": "integer"}])), "$['x y'][*]": list(json!([{"match": "type", "min": 1}]))}, "metadata": {"s": list(json!([{"match": "type"}])), "n": list(json!([{"match": "integer"}]))}}),
    _ => json!({body: {"$": list(json!([{"match": "arrayContains", "variants": [{"index": 0, "rules": {"$.x": list(json!([{"match": "type"}]))}, "generators": {}}]}]))}, "header": {"X-a": list(json!([{"match": "regex", "regex": "a|b"}])), "x-b[1]": list(json!([{"match": "type"}]))}, "query": {"q": list(json!([{"match": "type"}]))}, "path": list(json!([{"match": "regex", "regex": "/.*"}])), "status": {"$": list(json!([{"match": "statusCode", "status": "success"}]))}}),
  })
}
const GENSETS: usize = 4;
fn gens(i: usize) -> Option<Value> { Some(match i { 0 => return None, 1 => json!({"body": {"$.a": {"type": "RandomInt", "min": 7, "max": 7}}}), 2 => json!({"metadata": {"s": {"type": "RandomInt", "min": 7, "max": 7}}, "body": {"$.a": {"type": "RandomInt", "min": 7, "max": 7}}}), _ => json!({"header": {"X-a": {"type": "Uuid"}, "x-a": {"type": "RandomHexadecimal", "digits": 3}}, "path": {"type": "RandomString", "size": 3}, "status": {"type": "RandomInt", "min": 200, "max": 299}, "query": {"q": {"type": "ProviderState", "expression": "${q}", "dataType": "STRING"}}}) }) }
fn with(mut v: Value, k: &str, x: Option<Value>) -> Value { if let Some(x) = x { v[k] = x; } v }
/// One part: its body, metadata (of messages), rules and generators.
fn part(b: usize, m: usize, r: usize, g: usize, http: bool, v4: bool) -> Value {
  let mut v = json!({});
  v = with(v, if http { "body" } else { "contents" }, if v4 { v4_body(b) } else { v3_body(b) });
  if !http { v = with(v, "metadata", metadata(m)); }
  v = with(v, "matchingRules", rules(r, http));
  with(v, "generators", gens(g))
}
/// The kinds of a V4 interaction, and what else there are.
fn v4_item(kind: usize, d: &str, b: usize, b2: usize, m: usize, s: usize, r: usize, g: usize) -> Value {
  let v = match kind {
    0 => { let mut q = part(b, 0, r, g, true, true); q["method"] = json!("POST"); q["path"] = json!("/p"); let mut p = part(b2, 0, if r == 0 { 0 } else { 3 - r }, if g == 0 { 0 } else { 3 - g }, true, true); p["status"] = json!(201); json!({"type": "Synchronous/HTTP", "request": q, "response": p}) }
    1 => { let mut v = part(b, m, r, g, false, true); v["type"] = json!("Asynchronous/Messages"); v }
    k => json!({"type": "Synchronous/Messages", "request": part(b, m, r, g, false, true), "response": (0..k - 2).map(|i| part(b2, (m + i) % METAS, (r + i) % RULES, (g + i) % GENSETS, false, true)).collect::<Vec<_>>()}),
  };
  with(with(v, "description", Some(json!(d))), "providerStates", states(s))
}
fn document(version: &str, key: &str, items: Vec<Value>) -> Value {
  let mut d = json!({"consumer": {"name": "C é"}, "provider": {"name": "P"}, "metadata": {"pactSpecification": {"version": version}, "a": {"x": "1", "y": "é"}, "b": {"x": ""}}});
  d[key] = json!(items);
  d
}
const NAMES: [&str; 5] = ["one", "", "é ✓", "two", "one"];
fn judged(doc: &Value, rec: &mut Rec) {
  rec.state(doc);
  let text = doc.to_string();
  let want = m_pact(doc);
  let leak = crate::alloc::kept(|| { let p = pactffi_parse_pact_json(t(&text).p()); if !p.is_null() { c_pact(p); } });
  rec.check(leak.is_none(), "released", || format!("after everything was released, (blocks, bytes) {:?} are left each time", leak));
  let p = pactffi_parse_pact_json(t(&text).p());
  rec.steps(1);
  let got = if p.is_null() { None } else { Some(c_pact(p)) };
  let want = want.unwrap_or(Value::Null);
  differ(rec, "", &want, &got.unwrap_or(Value::Null));
  rec.outcome(match &want { Value::Null => "no pact".to_string(), v => format!("{} of version {}", v["again"], v["version"]) });
}
/// The first place where what is said is not what there is.
fn differ(rec: &mut Rec, at: &str, want: &Value, got: &Value) {
  if want == got { return; }
  match (want, got) {
    (Value::Object(a), Value::Object(b)) if a.keys().eq(b.keys()) => for k in a.keys() { differ(rec, &format!("{}.{}", at, k), &a[k], &b[k]); },
    (Value::Array(a), Value::Array(b)) if a.len() == b.len() => for i in 0..a.len() { differ(rec, &format!("{}[{}]", at, i), &a[i], &b[i]); },
    _ => { let class: String = at.chars().filter(|c| c.is_alphabetic() || *c == '.').collect(); rec.fail(&format!("read{}", class), format!("{}: the model holds {} but {} is read", at, want, got)); }
  }
}
pub fn c63(run: &Run) {
  run.assume("The model is loaded by the library itself (its loading is judged by other checks); what is read through the C functions is compared with it field by field. Every document is read four times to see that what is handed out is released by the functions named for it.");
  // Which interactions there are, in their order
  let len = if run.thorough { 4 } else { 3 };
  run.explore("kinds", "sequences of kinds of V4 interactions", seq_count(5, len), |i, rec| {
    let s = seq_at(i, 5);
    rec.case(format!("V4 pact of {:?} (0: HTTP, 1: asynchronous message, 2-4: synchronous message with 0-2 responses)", s));
    let items = s.iter().enumerate().map(|(n, k)| v4_item(*k, NAMES[(n + k) % 5], (n + 3) % BODIES, (n + k) % BODIES, n % METAS, (n + k) % STATES, n % 3, 0)).collect();
    judged(&document("4.0", "interactions", items), rec);
  });
  let bases = [5, BODIES, if run.thorough { BODIES } else { 3 }, METAS, STATES, 3, 3];
  run.explore("v4", "one V4 interaction: kind x contents x other contents x metadata x states x rules x generators", space_size(&bases), |i, rec| {
    let d = digits(i, &bases);
    let g = [0, 1, 2][d[6]];
    let doc = document("4.0", "interactions", vec![v4_item(d[0], NAMES[i as usize % 5], d[1], if bases[2] == 3 { [0, 3, 5][d[2]] } else { d[2] }, d[3], d[4], d[5], g)]);
    rec.case(format!("V4 pact {}", doc));
    judged(&doc, rec);
  });
  let bases = [3, RULES, GENSETS, STATES];
  run.explore("rules", "kind x rules x generators x states, with rules of all categories", space_size(&bases), |i, rec| {
    let d = digits(i, &bases);
    // Generators of contents that hold none of it and that make other values each time are not applied here
    let g = if d[0] > 0 && d[2] == 3 { 0 } else { d[2] };
    let doc = document("4.0", "interactions", vec![v4_item(d[0], "i", 3, 4, 2, d[3], if d[0] > 0 && d[1] == 3 { 2 } else { d[1] }, g)]);
    rec.case(format!("V4 pact {}", doc));
    judged(&doc, rec);
  });
  let bases = [4, BODIES, 3, METAS, STATES, 3, 3];
  run.explore("older", "V1, V2 and V3 pacts and V3 message pacts: contents x other contents x metadata x states x rules x generators", space_size(&bases), |i, rec| {
    let d = digits(i, &bases);
    let (version, message) = [("1.0.0", false), ("2.0.0", false), ("3.0.0", false), ("3.0.0", true)][d[0]];
    let item = if message { with(part(d[1], d[3], d[5], d[6], false, false), "description", Some(json!(NAMES[d[1] % 5]))) } else {
      let r = if d[0] < 2 { 0 } else { d[5] };
      let mut q = part(d[1], 0, r, if d[0] < 2 { 0 } else { d[6] }, true, false); q["method"] = json!("POST"); q["path"] = json!("/");
      let mut s = part([0, 3, 5][d[2]], 0, r, 0, true, false); s["status"] = json!(200);
      if d[0] == 1 && d[5] > 0 { q["matchingRules"] = json!({"$.body.a": {"match": "type"}, "$.header.X": {"match": "regex", "regex": "x"}}); }
      json!({"description": NAMES[d[1] % 5], "request": q, "response": s})
    };
    let item = with(item, "providerStates", states(d[4]));
    let doc = document(version, if message { "messages" } else { "interactions" }, vec![item.clone(), with(item, "description", Some(json!("last")))]);
    rec.case(format!("pact {}", doc));
    judged(&doc, rec);
    if message {
      let text = doc.to_string();
      let want = MessagePact::from_json("f", &doc).ok().map(|p| {
        let mut meta: Vec<Value> = p.metadata.iter().flat_map(|(a, m)| m.iter().map(move |(b, c)| json!([a, b, c]))).collect();
        meta.sort_by_key(|x| x.to_string());
        let found: Vec<Value> = [("a", "x"), ("a", "y"), ("b", "x"), ("", ""), ("a", "X"), ("pactRust", "z")].iter().map(|(k, n)| p.metadata.get(*k).and_then(|m| m.get(*n)).map(|s| json!(s)).unwrap_or(Value::Null)).collect();
        json!({"names": [p.consumer.name, p.provider.name], "all": p.messages.iter().map(m_message).collect::<Vec<_>>(), "metadata": meta, "found": found})
      });
      let read = || { let p = pactffi_message_pact_new_from_json(t("f").p(), t(&text).p()); if p.is_null() { Value::Null } else { c_message_pact(p) } };
      let leak = crate::alloc::kept(|| { read(); });
      rec.check(leak.is_none(), "released", || format!("after the message pact was released, (blocks, bytes) {:?} are left each time", leak));
      differ(rec, ".pact", &want.unwrap_or(Value::Null), &read());
      // One message of its own
      for n in 0..2usize {
        let item = &doc["messages"][n];
        for (version, spec) in [(pact_models::PactSpecification::V3, pact_ffi::models::pact_specification::PactSpecification::V3), (pact_models::PactSpecification::V4, pact_ffi::models::pact_specification::PactSpecification::V4), (pact_models::PactSpecification::V1, pact_ffi::models::pact_specification::PactSpecification::V1)] {
          let want = Message::from_json(n, item, &version).ok().map(|m| m_message(&m)).unwrap_or(Value::Null);
          let m = pactffi_message_new_from_json(n as u32, t(&item.to_string()).p(), spec);
          let got = if m.is_null() { Value::Null } else { let v = c_message(m); pactffi_message_delete(m); v };
          differ(rec, ".message", &want, &got);
        }
      }
    }
  });
  // Text that is no pact
  let bad: Vec<Option<&str>> = vec![None, Some(""), Some("{"), Some("[]"), Some("1"), Some("null"), Some("{}"), Some("{\"interactions\":1}"), Some("{\"metadata\":{\"pactSpecification\":{\"version\":\"4.0\"}},\"interactions\":[{}]}"), Some("{\"messages\":1}"), Some("{\"messages\":[1]}"), Some("{\"interactions\":[{\"description\":1,\"request\":2}]}")];
  run.each("bad", "text that is no pact", &bad, |b, rec| {
    rec.case(format!("pact text {:?}", b));
    rec.state(b);
    let want = b.and_then(|b| serde_json::from_str::<Value>(b).ok()).and_then(|v| m_pact(&v)).unwrap_or(Value::Null);
    let p = pactffi_parse_pact_json(t(*b).p());
    let got = if p.is_null() { Value::Null } else { c_pact(p) };
    differ(rec, "", &want, &got);
    let want = b.and_then(|b| serde_json::from_str::<Value>(b).ok()).map(|v| MessagePact::from_json("f", &v).is_ok()).unwrap_or(false);
    let p = pactffi_message_pact_new_from_json(t("f").p(), t(*b).p());
    rec.eq("message pact", &want, &!p.is_null());
    if !p.is_null() { pactffi_message_pact_delete(p); }
    let want = b.and_then(|b| serde_json::from_str::<Value>(b).ok()).map(|v| Message::from_json(0, &v, &pact_models::PactSpecification::V3).is_ok()).unwrap_or(false);
    let p = pactffi_message_new_from_json(0, t(*b).p(), pact_ffi::models::pact_specification::PactSpecification::V3);
    rec.eq("message", &want, &!p.is_null());
    if !p.is_null() { pactffi_message_delete(p); }
  });
  // What is built through handles can be gone through by its kind
  let len = if run.thorough { 5 } else { 4 };
  run.explore_on(1, "handles", "sequences of interactions made through handles, gone through by kind", seq_count(3, len), |i, rec| {
    let s = seq_at(i, 3);
    rec.case(format!("interactions {:?} (0: HTTP, 1: asynchronous message, 2: synchronous message)", s));
    rec.state(&s);
    let pact = crate::ffi::new_pact("c", "p");
    pactffi_with_specification(pact, pact_models::PactSpecification::V4);
    for (n, k) in s.iter().enumerate() { let d = format!("i{}", n); match k { 0 => pactffi_new_interaction(pact, t(&d).p()), 1 => pactffi_new_message_interaction(pact, t(&d).p()), _ => pactffi_new_sync_message_interaction(pact, t(&d).p()) }; }
    rec.steps(s.len() as u64);
    let of = |k: usize| json!(s.iter().enumerate().filter(|(_, x)| **x == k).map(|(n, _)| format!("i{}", n)).collect::<Vec<_>>());
    let go = || {
      let (h, a, m, y) = (pactffi_pact_handle_get_sync_http_iter(pact), pactffi_pact_handle_get_async_message_iter(pact), pactffi_pact_handle_get_message_iter(pact), pactffi_pact_handle_get_sync_message_iter(pact));
      let got = [drained(|| pactffi_pact_sync_http_iter_next(h) as *const SynchronousHttp, |p| string(pactffi_sync_http_get_description(p))), drained(|| pactffi_pact_async_message_iter_next(a) as *const AsynchronousMessage, |p| string(pactffi_async_message_get_description(p))),
        drained(|| pactffi_pact_message_iter_next(m) as *const Message, |p| string(pactffi_message_get_description(p))), drained(|| pactffi_pact_sync_message_iter_next(y) as *const SynchronousMessage, |p| string(pactffi_sync_message_get_description(p)))];
      pactffi_pact_sync_http_iter_delete(h); pactffi_pact_async_message_iter_delete(a); pactffi_pact_message_iter_delete(m); pactffi_pact_sync_message_iter_delete(y);
      got
    };
    let leak = crate::alloc::kept(|| { go(); });
    rec.check(leak.is_none(), "released", || format!("after the iterators were released, (blocks, bytes) {:?} are left each time", leak));
    rec.eq("by kind", &[of(0), of(1), of(1), of(2)], &go());
    pactffi_free_pact_handle(pact);
    for nothing in [pactffi_pact_handle_get_sync_http_iter(pact).is_null(), pactffi_pact_handle_get_async_message_iter(pact).is_null(), pactffi_pact_handle_get_message_iter(pact).is_null(), pactffi_pact_handle_get_sync_message_iter(pact).is_null()] { rec.check(nothing, "gone", || "an iterator over a pact that was released".into()); }
  });
}
