//! C61: what is built through handles is what was asked for.
use crate::ffi::*;
use bytes::Bytes;
use mccore::{seq_at, seq_count, Rec, Run};
use pact_models::bodies::OptionalBody;
use pact_models::content_types::ContentType;
use pact_models::generators::{Generator, Generators};
use pact_models::matchingrules::{MatchingRule, MatchingRules, RuleLogic};
use pact_models::path_exp::DocPath;
use pact_models::provider_states::ProviderState;
use pact_models::v4::async_message::AsynchronousMessage;
use pact_models::v4::interaction::V4Interaction;
use pact_models::v4::message_parts::MessageContents;
use pact_models::v4::sync_message::SynchronousMessage;
use pact_models::v4::synch_http::SynchronousHttp;
use serde_json::{json, Value};
use std::collections::HashMap;

type S = &'static str;
type O = Option<&'static str>;
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Part { Req, Res }
use Part::*;
impl Part { fn c(self) -> InteractionPart { if self == Req { InteractionPart::Request } else { InteractionPart::Response } } }
/// A value of a header, parameter, path or status: as it is, or with a rule.
#[derive(Clone, Copy, PartialEq, Debug, Hash)]
pub enum Val { Plain(S), List(&'static [S]), Rule(S), RuleList(&'static [S]), Gen(S) }
use Val::*;
impl Val {
  fn text(self) -> String {
    match self {
      Plain(s) => s.to_string(), List(l) => json!({"value": l}).to_string(),
      Rule(v) => json!({"pact:matcher:type": "regex", "regex": ".+", "value": v}).to_string(), RuleList(l) => json!({"pact:matcher:type": "regex", "regex": ".+", "value": l}).to_string(),
      Gen(v) => json!({"pact:matcher:type": "regex", "regex": ".+", "pact:generator:type": "ProviderState", "expression": "${x}", "value": v}).to_string(),
    }
  }
  fn values(self) -> Vec<String> { match self { Plain(s) | Rule(s) | Gen(s) => vec![s.to_string()], List(l) | RuleList(l) => l.iter().map(|s| s.to_string()).collect() } }
  fn rule(self) -> bool { matches!(self, Rule(_) | RuleList(_) | Gen(_)) }
}
/// A call for an interaction.
#[derive(Clone, Copy, PartialEq, Debug, Hash)]
pub enum Op {
  Describe(O), Given(O), GivenParam(O, O, O), GivenParams(O, O), TestName(O), Key(O), Pending(bool), Comment(O, O), TextComment(O),
  Request(O, Option<Val>), Query(O, usize, Option<Val>), OldQuery(O, usize, S), Header(Part, O, usize, Val), OldHeader(Part, S, usize, S), SetHeader(Part, O, S), Status(u16), StatusText(Val),
  Body(Part, O, O), Binary(Part, O, Option<&'static [u8]>), File(Part, O, &'static [u8]), Rules(Part, O), Gens(Part, O), Meta(Part, O, O),
  MDescribe(O), MGiven(O), MGivenParam(O, O, O), MContents(O, &'static [u8]), MMeta(O, S), MMeta2(O, S),
}
use Op::*;
#[derive(Clone)]
pub enum Inter { Http(SynchronousHttp), Async(AsynchronousMessage), Sync(SynchronousMessage) }
use Inter::*;
impl Inter {
  pub fn new(kind: usize, d: &str) -> Inter { match kind { 0 => Http(SynchronousHttp { description: d.into(), ..Default::default() }), 1 => Async(AsynchronousMessage { description: d.into(), ..Default::default() }), _ => Sync(SynchronousMessage { description: d.into(), ..Default::default() }) } }
  fn v(&self) -> &dyn V4Interaction { match self { Http(h) => h, Async(a) => a, Sync(s) => s } }
  fn v_mut(&mut self) -> &mut dyn V4Interaction { match self { Http(h) => h, Async(a) => a, Sync(s) => s } }
  pub fn json(&self) -> Value { crate::ffi::whole(self.v()) }
}
/// What the header says after values were given one by one.
fn put<T: Clone + Default>(v: &mut Vec<T>, at: usize, x: T) { while v.len() <= at { v.push(T::default()); } v[at] = x; }
fn field(name: &str, at: usize) -> DocPath { let mut p = DocPath::root(); p.push_field(name); if at > 0 { p.push_index(at); } p }
/// A rule for a value; as soon as there is one for another value than the first, the one without a position is that of the first.
fn rule(rules: &mut MatchingRules, gens: &mut Generators, category: &str, name: &str, at: usize, v: Val) {
  if !v.rule() { rules.add_category(category); return; }
  let c = rules.add_category(category);
  if at > 0 { if let Some(l) = c.rules.remove(&field(name, 0)) { let mut p = field(name, 0); p.push_index(0); c.rules.insert(p, l); } }
  c.add_rule(field(name, at), MatchingRule::Regex(".+".into()), RuleLogic::And);
  if let Gen(_) = v { gens.categories.entry(category.parse().unwrap()).or_default().insert(field(name, at), Generator::ProviderStateGenerator("${x}".into(), None)); }
}
fn only(rules: &mut MatchingRules, gens: &mut Generators, category: &str, v: Val) {
  let c = rules.add_category(category);
  if v.rule() { c.add_rule(DocPath::root(), MatchingRule::Regex(".+".into()), RuleLogic::And); }
  if let Gen(_) = v { gens.categories.entry(category.parse().unwrap()).or_default().insert(DocPath::root(), Generator::ProviderStateGenerator("${x}".into(), None)); }
}
fn headers_of(h: &mut Option<HashMap<String, Vec<String>>>, name: &str) -> (String, Option<Vec<String>>) {
  match h.as_ref().and_then(|m| m.iter().find(|(k, _)| k.eq_ignore_ascii_case(name))) { Some((k, v)) => (k.clone(), Some(v.clone())), None => (name.to_string(), None) }
}
/// The parts of a body given as text: what is kept, its type, and the rules in it.
const EMBEDDED: S = r#"{"a":{"pact:matcher:type":"type","value":1},"b":[{"pact:matcher:type":"regex","regex":".+","value":"x","pact:generator:type":"Uuid"}]}"#;
fn detected(s: &str) -> &'static str { if s.starts_with('{') || s.starts_with('[') { "application/json" } else if s.starts_with("<?xml") { "application/xml" } else { "text/plain" } }
fn text_body(s: &str, ct: &ContentType, rules: &mut MatchingRules, gens: &mut Generators) -> OptionalBody {
  let mut bytes = s.to_string();
  if ct.is_json() || ct.is_xml() && s.starts_with('{') { rules.add_category("body"); }
  if ct.is_json() && s == EMBEDDED {
    bytes = json!({"a": 1, "b": ["x"]}).to_string();
    let c = rules.add_category("body");
    c.add_rule(DocPath::new_unwrap("$.a"), MatchingRule::Type, RuleLogic::And); c.add_rule(DocPath::new_unwrap("$.b[0]"), MatchingRule::Regex(".+".into()), RuleLogic::And);
    gens.categories.entry("body".parse().unwrap()).or_default().insert(DocPath::new_unwrap("$.b[0]"), Generator::Uuid(None));
  }
  OptionalBody::Present(Bytes::from(bytes), Some(ct.clone()), None)
}
fn raw_body(b: Option<&[u8]>, ct: Option<ContentType>) -> OptionalBody { match b { None => OptionalBody::Null, Some([]) => OptionalBody::Empty, Some(b) => OptionalBody::Present(Bytes::copy_from_slice(b), ct, None) } }
fn parsed(s: &str) -> Value { serde_json::from_str(s).unwrap_or(json!(s)) }
/// Rules given as JSON.
pub const RULES: &[S] = &[r#"{"body":{"$.a":{"combine":"AND","matchers":[{"match":"type"}]}}}"#, r#"{"body":{"$.c":{"combine":"OR","matchers":[{"match":"integer"}]}},"header":{"X-B":{"combine":"AND","matchers":[{"match":"equality"}]}}}"#, r#"{"matchingRules":{"body":{"$.c":{"combine":"AND","matchers":[{"match":"number"}]}}}}"#];
pub const GENS: &[S] = &[r#"{"body":{"$.a":{"type":"Uuid"}}}"#, r#"{"body":{"$.c":{"type":"RandomBoolean"}},"header":{"X-B":{"type":"RandomInt","min":1,"max":2}}}"#, r#"{"generators":{"body":{"$.a":{"type":"RandomString","size":3}}}}"#];
/// The rules are added to those there are. Nothing is said about combining those of different kinds.
fn merge_rules(m: &mut MatchingRules, s: &str) -> bool {
  let list: &[(&str, &str, MatchingRule, RuleLogic)] = match RULES.iter().position(|r| *r == s).unwrap() { 0 => &[("body", "$.a", MatchingRule::Type, RuleLogic::And)], 1 => &[("body", "$.c", MatchingRule::Integer, RuleLogic::Or), ("header", "X-B", MatchingRule::Equality, RuleLogic::And)], _ => &[("body", "$.c", MatchingRule::Number, RuleLogic::And)] };
  for (c, p, r, l) in list {
    let rules = &mut m.add_category(*c).rules;
    let at = DocPath::new_unwrap(*p);
    match rules.get_mut(&at) {
      Some(old) => { if old.rule_logic != *l { return false; } old.rules.push(r.clone()); }
      None => { let mut rl = pact_models::matchingrules::RuleList::empty(*l); rl.rules.push(r.clone()); rules.insert(at, rl); }
    }
  }
  true
}
fn merge_gens(m: &mut Generators, s: &str) {
  let list: &[(&str, &str, Generator)] = match GENS.iter().position(|r| *r == s).unwrap() { 0 => &[("body", "$.a", Generator::Uuid(None))], 1 => &[("body", "$.c", Generator::RandomBoolean), ("header", "X-B", Generator::RandomInt(1, 2))], _ => &[("body", "$.a", Generator::RandomString(3))] };
  for (c, p, g) in list { m.categories.entry(c.parse().unwrap()).or_default().insert(DocPath::new_unwrap(*p), g.clone()); }
}
fn one_gen_per_path(s: &str) -> &str { s }
/// What the call is to do; its result, or nothing when that is not said.
pub fn expect(op: &Op, i: &mut Inter) -> Option<i64> {
  let b = |x: bool| Some(x as i64);
  Some(match *op {
    Describe(None) => 0, Describe(Some(d)) => { i.v_mut().set_description(d); 1 }
    Given(None) => 0, Given(Some(s)) => { i.v_mut().provider_states_mut().push(ProviderState { name: s.into(), params: HashMap::new() }); 1 }
    GivenParam(None, ..) | GivenParam(_, None, _) => 0,
    GivenParam(Some(s), Some(k), v) => { given_param(i, s, k, v); 1 }
    GivenParams(None, _) | GivenParams(_, None) => if let GivenParams(_, Some("{")) = *op { return None } else { 3 },
    GivenParams(Some(s), Some(p)) => match serde_json::from_str::<Value>(p) {
      Err(_) => 2,
      Ok(v) => { let params = match v { Value::Object(m) => m.into_iter().collect(), v => HashMap::from([("value".to_string(), v)]) }; i.v_mut().provider_states_mut().push(ProviderState { name: s.into(), params }); 0 }
    },
    TestName(None) => return None, TestName(Some(n)) => { i.v_mut().comments_mut().insert("testname".into(), json!(n)); 0 }
    Key(k) => { match i { Http(h) => h.key = k.map(|k| k.into()), Async(h) => h.key = k.map(|k| k.into()), Sync(h) => h.key = k.map(|k| k.into()) } 1 }
    Pending(p) => { match i { Http(h) => h.pending = p, Async(h) => h.pending = p, Sync(h) => h.pending = p } 1 }
    Comment(None, _) => 0,
    Comment(Some(k), None) => { i.v_mut().comments_mut().remove(k); 1 }
    Comment(Some(k), Some(v)) => { i.v_mut().comments_mut().insert(k.into(), parsed(v)); 1 }
    TextComment(None) => 0,
    TextComment(Some(c)) => { let m = i.v_mut().comments_mut(); let mut l = m.get("text").and_then(|v| v.as_array().cloned()).unwrap_or_default(); l.push(json!(c)); m.insert("text".into(), json!(l)); 1 }
    Request(m, p) => match i { Http(h) => {
      let v = p.unwrap_or(Plain("/"));
      only(&mut h.request.matching_rules, &mut h.request.generators, "path", v);
      h.request.method = m.unwrap_or("GET").into(); h.request.path = v.values()[0].clone(); 1
    } _ => 0 },
    Query(None, ..) | OldQuery(None, ..) | Header(_, None, ..) | SetHeader(_, None, _) => 0,
    Query(Some(n), at, v) => match i { Http(h) => {
      if let Some(v) = v { rule(&mut h.request.matching_rules, &mut h.request.generators, "query", n, at, v); }
      let l = h.request.query.get_or_insert_with(HashMap::new).entry(n.to_string()).or_default();
      match v { Some(v @ (List(_) | RuleList(_))) if at == 0 => l.extend(v.values().into_iter().map(Some)), Some(v) => put(l, at, Some(v.values()[0].clone())), None => put(l, at, None) }
      1
    } _ => 0 },
    OldQuery(Some(n), at, v) => match i { Http(h) => { h.request.matching_rules.add_category("query"); put(h.request.query.get_or_insert_with(HashMap::new).entry(n.to_string()).or_default(), at, Some(v.to_string())); 1 } _ => 0 },
    Header(part, Some(n), at, v) => match i { Http(h) => {
      let (hs, rules, gens) = if part == Req { (&mut h.request.headers, &mut h.request.matching_rules, &mut h.request.generators) } else { (&mut h.response.headers, &mut h.response.matching_rules, &mut h.response.generators) };
      rule(rules, gens, "header", n, at, v);
      let (name, old) = headers_of(hs, n);
      let parts: Vec<String> = match v { Plain(s) | Rule(s) | Gen(s) => s.split(',').map(|s| s.trim().to_string()).collect(), _ => v.values() };
      let new = match (old, v) {
        (_, List(_) | RuleList(_)) => parts,
        (None, _) if at == 0 => parts,
        (Some(_), _) if at == 0 && parts.len() > 1 => parts,
        (old, v) => { let mut l = old.unwrap_or_default(); put(&mut l, at, v.values()[0].clone()); l }
      };
      hs.get_or_insert_with(HashMap::new).insert(name, new); 1
    } _ => 0 },
    OldHeader(part, n, at, v) => match i { Http(h) => {
      let (hs, rules) = if part == Req { (&mut h.request.headers, &mut h.request.matching_rules) } else { (&mut h.response.headers, &mut h.response.matching_rules) };
      rules.add_category("header");
      let (name, old) = headers_of(hs, n);
      if name != n { return None; } // deprecated, and says nothing about case
      let mut l = old.unwrap_or_default(); put(&mut l, at, v.to_string());
      hs.get_or_insert_with(HashMap::new).insert(name, l); 1
    } _ => 0 },
    SetHeader(part, Some(n), v) => match i { Http(h) => { let hs = if part == Req { &mut h.request.headers } else { &mut h.response.headers }; let (name, _) = headers_of(hs, n); hs.get_or_insert_with(HashMap::new).insert(name, vec![v.to_string()]); 1 } _ => 0 },
    Status(s) => match i { Http(h) => { h.response.status = s; 1 } _ => 0 },
    StatusText(v) => match i { Http(h) => { only(&mut h.response.matching_rules, &mut h.response.generators, "status", v); h.response.status = v.values()[0].parse().unwrap(); 1 } _ => 0 },
    Body(part, ct, text) => {
      let ct = ct.map(|c| ContentType::parse(c).unwrap_or(pact_models::content_types::TEXT.clone()));
      let text = text.unwrap_or("");
      match i {
        Http(h) => {
          let (hs, body, rules, gens) = if part == Req { (&mut h.request.headers, &mut h.request.body, &mut h.request.matching_rules, &mut h.request.generators) } else { (&mut h.response.headers, &mut h.response.body, &mut h.response.matching_rules, &mut h.response.generators) };
          let header = headers_of(hs, "Content-Type").1.map(|v| ContentType::parse(v.join(", ").as_str()).unwrap());
          if let (None, Some(b)) = (&ct, body.content_type()) { if header.as_ref() != Some(&b) { return None; } }
          if text.is_empty() { *body = OptionalBody::Empty; return b(true); }
          let ct = ct.or(header.clone()).unwrap_or_else(|| ContentType::parse(detected(text)).unwrap());
          if ct.is_xml() && text.starts_with(['[', '{']) { return None; } // neither a document nor a description of one
          *body = text_body(text, &ct, rules, gens);
          if header.is_none() { hs.get_or_insert_with(HashMap::new).insert("Content-Type".into(), vec![ct.to_string()]); }
        }
        Async(_) | Sync(_) => {
          let c: &mut MessageContents = match i { Async(a) => &mut a.contents, Sync(s) => if part == Req { &mut s.request } else { s.response.push(MessageContents::default()); s.response.last_mut().unwrap() }, _ => unreachable!() };
          let meta = c.metadata.get("contentType").map(|v| ContentType::parse(v.as_str().unwrap()).unwrap());
          if let (None, Some(b)) = (&ct, c.contents.content_type()) { if meta.as_ref() != Some(&b) { return None; } }
          if text.is_empty() { c.contents = OptionalBody::Empty; return b(true); }
          let ct = ct.or(meta.clone()).unwrap_or_else(|| ContentType::parse(detected(text)).unwrap());
          if ct.is_xml() && text.starts_with(['[', '{']) { return None; }
          c.contents = text_body(text, &ct, &mut c.matching_rules, &mut c.generators);
          if meta.is_none() { c.metadata.insert("contentType".into(), json!(ct.to_string())); }
        }
      }
      1
    }
    Binary(part, ct, bytes) => { let ct = ct.unwrap_or("application/octet-stream"); binary(i, part, ct, raw_body(bytes, ContentType::parse(ct).ok())); 1 }
    File(_, None, _) => 0,
    File(part, Some(ct), bytes) => {
      binary(i, part, ct, raw_body(Some(bytes), None));
      let r = match i { Http(h) => if part == Req { &mut h.request.matching_rules } else { &mut h.response.matching_rules }, Async(a) => &mut a.contents.matching_rules, Sync(s) => if part == Req { &mut s.request.matching_rules } else { &mut s.response.last_mut().unwrap().matching_rules } };
      r.add_category("body").add_rule(DocPath::root(), MatchingRule::ContentType(ct.into()), RuleLogic::And); 1
    }
    Rules(_, None) | Rules(_, Some("[]" | "{")) | Gens(_, None) | Gens(_, Some("[]" | "{")) => 0,
    Rules(part, Some(s)) => {
      let ok = match i { Http(h) => merge_rules(if part == Req { &mut h.request.matching_rules } else { &mut h.response.matching_rules }, s), Async(a) => merge_rules(&mut a.contents.matching_rules, s), Sync(m) => if part == Req { merge_rules(&mut m.request.matching_rules, s) } else { m.response.iter_mut().fold(true, |ok, r| merge_rules(&mut r.matching_rules, s) && ok) } };
      if !ok { return None; }
      1
    }
    Gens(part, Some(s)) => { let s = one_gen_per_path(s); match i { Http(h) => merge_gens(if part == Req { &mut h.request.generators } else { &mut h.response.generators }, s), Async(a) => merge_gens(&mut a.contents.generators, s), Sync(m) => if part == Req { merge_gens(&mut m.request.generators, s) } else { for r in &mut m.response { merge_gens(&mut r.generators, s) } } } 1 }
    Meta(_, None, _) => 0,
    Meta(part, Some(k), v) => match i { Http(_) => 0, Async(a) => { meta(&mut a.contents, k, v); 1 } Sync(s) => { if part == Req { meta(&mut s.request, k, v) } else { for r in &mut s.response { meta(r, k, v) } } 1 } },
    MDescribe(d) => { if let (Some(d), Async(a)) = (d, &mut *i) { a.description = d.into(); } 0 }
    MGiven(s) => { if let (Some(s), true) = (s, matches!(i, Async(_))) { i.v_mut().provider_states_mut().push(ProviderState { name: s.into(), params: HashMap::new() }); } 0 }
    MGivenParam(s, k, v) => { if let (Some(s), Some(k), true) = (s, k, matches!(i, Async(_))) { given_param(i, s, k, v); } 0 }
    MContents(ct, bytes) => { if let Async(a) = i {
      let ct = ct.unwrap_or("text/plain"); let parsed = ContentType::parse(ct).ok();
      a.contents.matching_rules.add_category("body");
      a.contents.contents = match &parsed { Some(t) if t.is_json() => text_body(std::str::from_utf8(bytes).unwrap(), t, &mut a.contents.matching_rules, &mut a.contents.generators), _ => OptionalBody::Present(Bytes::copy_from_slice(bytes), parsed, None) };
    } 0 }
    MMeta(k, v) => { if let (Some(k), Async(a)) = (k, &mut *i) { a.contents.metadata.insert(k.into(), json!(v)); } 0 }
    MMeta2(k, v) => { if let (Some(k), Async(a)) = (k, &mut *i) { meta(&mut a.contents, k, Some(v)); } 0 }
  })
}
fn given_param(i: &mut Inter, s: &str, k: &str, v: O) {
  let v = parsed(v.unwrap_or(""));
  let states = i.v_mut().provider_states_mut();
  match states.iter_mut().find(|x| x.name == s) { Some(x) => { x.params.insert(k.into(), v); } None => states.push(ProviderState { name: s.into(), params: HashMap::from([(k.to_string(), v)]) }) }
}
fn binary(i: &mut Inter, part: Part, ct: &str, body: OptionalBody) {
  match i {
    Http(h) => {
      let (hs, b) = if part == Req { (&mut h.request.headers, &mut h.request.body) } else { (&mut h.response.headers, &mut h.response.body) };
      *b = body;
      if headers_of(hs, "Content-Type").1.is_none() { hs.get_or_insert_with(HashMap::new).insert("Content-Type".into(), vec![ct.to_string()]); }
    }
    Async(a) => { a.contents.contents = body; a.contents.metadata.insert("contentType".into(), json!(ct)); }
    Sync(s) => { let c = if part == Req { &mut s.request } else { s.response.push(MessageContents::default()); s.response.last_mut().unwrap() }; c.contents = body; c.metadata.insert("contentType".into(), json!(ct)); }
  }
}
/// Metadata with an embedded rule.
const META: S = r#"{"pact:matcher:type":"type","value":{"z":1}}"#;
fn meta(c: &mut MessageContents, k: &str, v: O) {
  match v {
    None => { c.metadata.remove(k); }
    Some(v) => {
      c.matching_rules.add_category("metadata");
      if v == META { c.matching_rules.add_category("metadata").add_rule(DocPath::new(k).unwrap(), MatchingRule::Type, RuleLogic::And); c.metadata.insert(k.into(), json!({"z": 1})); } else { c.metadata.insert(k.into(), parsed(v)); }
    }
  }
}
/// The call itself.
pub fn call(op: &Op, i: InteractionHandle) -> i64 {
  let m = as_message(i);
  #[allow(deprecated)]
  match *op {
    Describe(d) => pactffi_upon_receiving(i, t(d).p()) as i64,
    Given(s) => pactffi_given(i, t(s).p()) as i64,
    GivenParam(s, k, v) => pactffi_given_with_param(i, t(s).p(), t(k).p(), t(v).p()) as i64,
    GivenParams(s, p) => pactffi_given_with_params(i, t(s).p(), t(p).p()) as i64,
    TestName(n) => pactffi_interaction_test_name(i, t(n).p()) as i64,
    Key(k) => pactffi_set_key(i, t(k).p()) as i64,
    Pending(p) => pactffi_set_pending(i, p) as i64,
    Comment(k, v) => pactffi_set_comment(i, t(k).p(), t(v).p()) as i64,
    TextComment(c) => pactffi_add_text_comment(i, t(c).p()) as i64,
    Request(me, p) => { let p = p.map(|p| p.text()); pactffi_with_request(i, t(me).p(), t(p.as_deref()).p()) as i64 }
    Query(n, at, v) => { let v = v.map(|p| p.text()); pactffi_with_query_parameter_v2(i, t(n).p(), at, t(v.as_deref()).p()) as i64 }
    OldQuery(n, at, v) => pactffi_with_query_parameter(i, t(n).p(), at, t(v).p()) as i64,
    Header(p, n, at, v) => pactffi_with_header_v2(i, p.c(), t(n).p(), at, t(&v.text()).p()) as i64,
    OldHeader(p, n, at, v) => pactffi_with_header(i, p.c(), t(n).p(), at, t(v).p()) as i64,
    SetHeader(p, n, v) => pactffi_set_header(i, p.c(), t(n).p(), t(v).p()) as i64,
    Status(s) => pactffi_response_status(i, s) as i64,
    StatusText(v) => pactffi_response_status_v2(i, t(&v.text()).p()) as i64,
    Body(p, ct, b) => pactffi_with_body(i, p.c(), t(ct).p(), t(b).p()) as i64,
    Binary(p, ct, b) => { let g = b.map(Guarded::new); pactffi_with_binary_body(i, p.c(), t(ct).p(), g.as_ref().map(|b| b.p()).unwrap_or(std::ptr::null()), b.map(|b| b.len()).unwrap_or(0)) as i64 },
    File(p, ct, b) => pactffi_with_binary_file(i, p.c(), t(ct).p(), Guarded::new(b).p(), b.len()) as i64,
    Rules(p, r) => pactffi_with_matching_rules(i, p.c(), t(r).p()) as i64,
    Gens(p, r) => pactffi_with_generators(i, p.c(), t(r).p()) as i64,
    Meta(p, k, v) => pactffi_with_metadata(i, t(k).p(), t(v).p(), p.c()) as i64,
    MDescribe(d) => { pactffi_message_expects_to_receive(m, t(d).p()); 0 }
    MGiven(d) => { pactffi_message_given(m, t(d).p()); 0 }
    MGivenParam(s, k, v) => { pactffi_message_given_with_param(m, t(s).p(), t(k).p(), t(v).p()); 0 }
    MContents(ct, b) => {
      if ct.is_none_or(|c| c.starts_with("text/") || c.contains("json")) { let mut z = b.to_vec(); z.push(0); pactffi_message_with_contents(m, t(ct).p(), z.as_ptr(), b.len()); } else { pactffi_message_with_contents(m, t(ct).p(), Guarded::new(b).p(), b.len()); }
      0
    }
    MMeta(k, v) => { pactffi_message_with_metadata(m, t(k).p(), t(v).p()); 0 }
    MMeta2(k, v) => { pactffi_message_with_metadata_v2(m, t(k).p(), t(v).p()); 0 }
  }
}
pub fn create(kind: usize, p: PactHandle, d: O) -> InteractionHandle {
  match kind { 0 => pactffi_new_interaction(p, t(d).p()), 1 => pactffi_new_message_interaction(p, t(d).p()), _ => pactffi_new_sync_message_interaction(p, t(d).p()) }
}
fn common() -> Vec<Op> {
  vec![Describe(Some("other é")), Describe(None), Given(Some("s")), Given(Some("t")), GivenParam(Some("s"), Some("p"), Some("1")), GivenParam(Some("s"), Some("p"), Some("x {")), GivenParam(Some("t"), Some("q"), Some("{\"a\":[1,\"ü\"]}")), GivenParam(Some("s"), None, Some("1")), GivenParams(Some("s"), Some("{\"p\":2,\"r\":null}")), GivenParams(Some("s"), Some("[1]")), GivenParams(Some("s"), Some("{")), GivenParams(None, Some("{}")),
    TestName(Some("n")), Key(Some("k")), Key(None), Pending(true), Pending(false), Comment(Some("a"), Some("1")), Comment(Some("a"), None), Comment(Some("text"), Some("x {")), Comment(Some("text"), Some("[\"y\"]")), Comment(None, Some("1")), TextComment(Some("c")), TextComment(None),
    Rules(Req, Some(RULES[0])), Rules(Res, Some(RULES[1])), Rules(Req, Some(RULES[2])), Rules(Req, Some("[]")), Rules(Req, Some("{")), Gens(Req, Some(GENS[0])), Gens(Res, Some(GENS[1])), Gens(Req, Some(GENS[2])), Gens(Req, None)]
}
fn https() -> Vec<Op> {
  vec![Request(Some("POST"), Some(Plain("/p"))), Request(None, None), Request(Some("put"), Some(Rule("/1"))), Request(Some("PUT"), Some(Gen("/2"))), Status(404), StatusText(Plain("201")), StatusText(Rule("418")), Query(Some("a"), 0, Some(Plain("x"))), Query(Some("a"), 1, Some(Rule("y"))), Query(None, 0, Some(Plain("x"))), Header(Req, Some("X-A"), 0, Plain("1")), Header(Res, Some("x-a"), 1, Gen("2")), Header(Res, Some("X-A"), 0, Plain("1, 2")), Header(Req, None, 0, Plain("1")), SetHeader(Res, Some("X-A"), "8, 9"), OldQuery(Some("a"), 0, "z"), OldHeader(Res, "X-B", 1, "3")]
}
fn contents() -> Vec<Op> {
  let mut v = vec![];
  for p in [Req, Res] { v.extend([Body(p, Some("application/json"), Some("{\"a\":1}")), Body(p, None, Some("[1]")), Body(p, None, Some("some text")), Body(p, Some("text/plain"), Some("{\"a\":1}")), Body(p, Some("application/hal+json"), Some(EMBEDDED)), Body(p, None, Some(EMBEDDED)), Body(p, None, None), Body(p, Some("application/json"), Some("")), Body(p, Some("application/xml"), Some("<a>b</a>")), Body(p, Some("not a type"), Some("x")), Binary(p, None, Some(&[0, 255])), Binary(p, Some("image/png"), Some(&[1])), Binary(p, Some("image/png"), None), Binary(p, None, Some(&[])), File(p, Some("image/gif"), b"GIF"), File(p, None, b"GIF")]); }
  v
}
fn types() -> Vec<Op> { vec![Header(Req, Some("Content-Type"), 0, Plain("application/json")), Header(Req, Some("content-type"), 0, Plain("text/plain;charset=utf-8")), SetHeader(Res, Some("CONTENT-TYPE"), "application/xml"), Meta(Req, Some("contentType"), Some("application/json")), Meta(Res, Some("contentType"), Some("text/plain"))] }
fn metas() -> Vec<Op> { vec![Meta(Req, Some("k"), Some("v")), Meta(Req, Some("k"), Some("{\"a\":[1]}")), Meta(Res, Some("k"), Some("[true]")), Meta(Req, Some("k"), None), Meta(Res, Some("K"), Some(META)), Meta(Req, Some("m"), Some(META)), Meta(Req, None, Some("v"))] }
fn messages() -> Vec<Op> { vec![MDescribe(Some("m")), MDescribe(None), MGiven(Some("s")), MGivenParam(Some("s"), Some("p"), Some("1")), MGivenParam(Some("t"), Some("p"), Some("x")), MGivenParam(Some("t"), None, Some("x")), MContents(Some("application/json"), b"{\"a\":1}"), MContents(Some("application/json"), EMBEDDED.as_bytes()), MContents(None, b"plain"), MContents(Some("text/plain"), b""), MContents(Some("image/png"), &[1, 0, 2]), MContents(Some("image/png"), &[7, 8]), MMeta(Some("k"), "1"), MMeta2(Some("k"), "1"), MMeta2(Some("k"), META), MMeta2(Some("k"), "v"), MMeta(None, "1")] }

fn sorted(v: &Value) -> String { v.to_string() }
/// Runs a list of calls on one interaction.
fn sequence(rec: &mut Rec, kind: usize, ops: &[Op]) {
  rec.case(format!("{}: {:?}", ["HTTP", "message", "synchronous message"][kind], ops));
  rec.state(&mccore::hash_of(&(kind, ops))); rec.trace();
  let mut model = Inter::new(kind, "d");
  let mut want = vec![];
  for op in ops { match expect(op, &mut model) { Some(v) => want.push(v), None => { rec.outcome("unspecified"); return; } } }
  let p = new_pact("c", "p");
  let i = create(kind, p, Some("d"));
  let Some(got) = rec.no_panic("panic", || ops.iter().map(|op| call(op, i)).collect::<Vec<_>>()) else { return };
  let real = shown(i);
  pactffi_free_pact_handle(p);
  rec.steps(ops.len() as u64);
  rec.check(want == got, "result", || format!("expected {:?}, the calls return {:?}", want, got));
  let Some(real) = real else { rec.fail("interaction", "there is no interaction"); return };
  let m = model.json();
  rec.check(m == real, "interaction", || format!("expected {}, built is {}", sorted(&m), sorted(&real)));
  rec.outcome(["HTTP", "message", "synchronous message"][kind]);
}
fn all(run: &Run, name: &str, what: &str, kinds: &[usize], ops: &[Op], len: usize) {
  run.explore(name, what, seq_count(ops.len(), len) * kinds.len() as u64, |i, rec| {
    let k = kinds[(i % kinds.len() as u64) as usize];
    let ops: Vec<Op> = seq_at(i / kinds.len() as u64, ops.len()).iter().map(|n| ops[*n]).collect();
    sequence(rec, k, &ops);
  });
}
pub fn c61(run: &Run) {
  std::env::set_var("PACT_DO_NOT_TRACK", "true");
  let th = run.thorough as usize;
  let every: Vec<Op> = [common(), https(), contents(), types(), metas(), messages()].concat();
  all(run, "calls", "kind x sequences of calls", &[0, 1, 2], &every, 2 + th);
  all(run, "headers", "sequences of calls for a header of the request", &[0], &[Header(Req, Some("X-A"), 0, Plain("1")), Header(Req, Some("x-a"), 0, Plain("2")), Header(Req, Some("X-A"), 1, Plain("3")), Header(Req, Some("X-A"), 2, Plain("4, 5")), Header(Req, Some("X-a"), 0, Plain("6, 7")), Header(Req, Some("X-A"), 0, List(&["8", "9, 0"])), Header(Req, Some("X-A"), 0, List(&[])), Header(Req, Some("X-A"), 1, List(&["a"])), Header(Req, Some("X-A"), 0, Plain("")), SetHeader(Req, Some("X-A"), "b, c"), Header(Res, Some("X-A"), 0, Plain("d")), Header(Req, Some("X-AB"), 0, Plain("e"))], 3 + th);
  all(run, "header rules", "sequences of calls for a header with rules", &[0], &[Header(Res, Some("X-A"), 0, Plain("1")), Header(Res, Some("X-A"), 0, Rule("2")), Header(Res, Some("X-A"), 1, Rule("3")), Header(Res, Some("X-A"), 2, Gen("4")), Header(Res, Some("X-A"), 0, Gen("5")), Header(Res, Some("X-A"), 0, RuleList(&["6", "7"])), Header(Res, Some("X-B"), 1, Rule("8")), Header(Res, Some("X-A"), 0, Rule("9, 0"))], 3 + th);
  all(run, "parameters", "sequences of calls for query parameters", &[0], &[Query(Some("a"), 0, Some(Plain("1"))), Query(Some("a"), 1, Some(Plain("2"))), Query(Some("a"), 2, Some(Plain("{3"))), Query(Some("a"), 0, None), Query(Some("a"), 1, None), Query(Some("A"), 0, Some(Plain(""))), Query(Some("a"), 0, Some(List(&["4", "5"]))), Query(Some("a"), 0, Some(List(&[]))), Query(Some("a"), 0, Some(Rule("6"))), Query(Some("a"), 1, Some(Gen("7"))), Query(Some("a"), 0, Some(RuleList(&["8"]))), OldQuery(Some("a"), 1, "9")], 3 + th);
  let bodies: Vec<Op> = [contents(), types()].concat();
  all(run, "bodies", "kind x sequences of calls for contents and content types", &[0, 1, 2], &bodies, 2 + th);
  all(run, "responses", "sequences of calls for the responses of a synchronous message", &[2], &[Body(Res, Some("application/json"), Some("{\"a\":1}")), Body(Res, Some("text/plain"), Some("x")), Binary(Res, None, Some(&[0, 255])), Meta(Res, Some("k"), Some("v")), Meta(Res, Some("k"), None), Meta(Res, Some("k"), Some(META)), Meta(Res, Some("l"), Some("[true]")), Meta(Req, Some("k"), Some("w")), Rules(Res, Some(RULES[1])), Gens(Res, Some(GENS[1]))], 3 + th);
  all(run, "old headers", "sequences of calls for a header without combining values", &[0], &[OldHeader(Res, "X-A", 0, "1"), OldHeader(Res, "X-A", 1, "2"), OldHeader(Res, "X-A", 2, "3, 4"), OldHeader(Res, "X-AB", 1, "5"), OldHeader(Req, "X-A", 0, ""), SetHeader(Res, Some("X-A"), "b, c"), Header(Res, Some("X-A"), 1, Plain("d"))], 3 + th);
  several(run);
}
/// Interactions and pacts do not affect each other; handles of nothing do nothing.
fn several(run: &Run) {
  let ops = [Given(Some("s")), Describe(Some("a")), Body(Res, Some("text/plain"), Some("x")), Header(Req, Some("X"), 0, Plain("1")), Meta(Req, Some("k"), Some("v")), Pending(true), MGiven(Some("m"))];
  // creating (pact, kind, description), calls for the nth created interaction, calls for handles of nothing, releasing a pact
  #[derive(Clone, Copy, Debug, PartialEq, Hash)]
  enum Step { New(usize, usize, S), On(usize, Op), Zero(Op), Far(Op), Free(usize), NewNull }
  use Step::*;
  let mut steps = vec![];
  for p in 0..2 { for k in 0..3 { for d in ["a", "b"] { if p == 0 || k == 0 { steps.push(New(p, k, d)); } } } }
  for n in 0..3 { for o in &ops { steps.push(On(n, *o)); } }
  for o in &ops[..3] { steps.push(Zero(*o)); steps.push(Far(*o)); }
  steps.extend([Free(0), Free(1), NewNull]);
  let len = if run.thorough { 4 } else { 3 };
  // numbers of pacts are random: one thread, so that no other pact gets the number of a released one
  run.explore_on(1, "several", "two pacts x sequences of creating interactions, calls for them, and releasing the pacts, after an interaction of each kind", seq_count(steps.len(), len) * 3, |i, rec| {
    let start = (i % 3) as usize;
    let list: Vec<Step> = seq_at(i / 3, steps.len()).iter().map(|n| steps[*n]).collect();
    rec.case(format!("{}: {:?}", ["HTTP", "message", "synchronous message"][start], list)); rec.state(&mccore::hash_of(&(start, &list))); rec.trace();
    let pacts = [new_pact("c", "p"), new_pact("c", "p")];
    let mut model: [Option<Vec<Inter>>; 2] = [Some(vec![]), Some(vec![])];
    // created interactions: pact, position, handle
    let mut made: Vec<(usize, usize, InteractionHandle)> = vec![];
    let all: Vec<Step> = std::iter::once(New(0, start, "a")).chain(list.iter().copied()).collect();
    for s in &all {
      rec.steps(1);
      match s {
        New(p, k, d) => {
          let Some(h) = rec.no_panic("panic", || create(*k, pacts[*p], Some(d))) else { return };
          match &mut model[*p] {
            None => { rec.check(shown(h).is_none(), "released", || "an interaction is made in a released pact".into()); }
            Some(l) => { let at = match l.iter().position(|x| x.v().description() == *d) { Some(n) => { l[n] = Inter::new(*k, d); n } None => { l.push(Inter::new(*k, d)); l.len() - 1 } }; made.push((*p, at, h)); }
          }
        }
        NewNull => { let Some(h) = rec.no_panic("panic", || create(start, pacts[0], None)) else { return }; let Some(v) = rec.no_panic("panic", || shown(h)) else { return }; rec.check(v.is_none(), "no description", || "an interaction without description is made".into()); }
        On(n, op) => if let Some((p, at, h)) = made.get(*n).copied() {
          let Some(got) = rec.no_panic("panic", || call(op, h)) else { return };
          let want = match &mut model[p] { None => Some(0), Some(l) => expect(op, &mut l[at]) };
          rec.check(want == Some(got), "result", || format!("{:?} returns {} instead of {:?}", op, got, want));
        },
        Zero(op) | Far(op) => {
          let h = InteractionHandle::new(pacts[0], if let Zero(_) = s { 0 } else { 900 });
          let Some(got) = rec.no_panic("panic", || call(op, h)) else { return };
          rec.check(got == 0, "nothing", || format!("{:?} of no interaction returns {}", op, got));
        }
        Free(p) => { let got = pactffi_free_pact_handle(pacts[*p]); let want = if model[*p].take().is_some() { 0 } else { 1 }; rec.check(got == want, "release", || format!("releasing the pact returns {}", got)); }
      }
    }
    for p in 0..2 {
      let want: Option<Vec<Value>> = model[p].as_ref().map(|l| l.iter().map(|x| x.json()).collect());
      let n = want.as_ref().map(|l| l.len()).unwrap_or(0) + 1;
      let Some(got) = rec.no_panic("panic", || (1..=n).map_while(|k| shown(InteractionHandle::new(pacts[p], k as u16))).collect::<Vec<_>>()) else { return };
      rec.check(want.clone().unwrap_or_default() == got, "pact", || format!("expected {:?}, pact {} is {:?}", want, p, got));
      if model[p].is_some() { pactffi_free_pact_handle(pacts[p]); }
    }
    rec.outcome(if model.iter().all(|m| m.is_some()) { "kept" } else { "released" });
  });
}
