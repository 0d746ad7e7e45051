//! C38: generating concrete requests, responses and messages.
use crate::m_body::now;
use crate::m_json::variant;
use mccore::{digits, space_size, util::permutations, Rec, Run};
use pact_matching::generators::{apply_generators_to_async_message, apply_generators_to_sync_message, generate_message, DefaultVariantMatcher};
use pact_matching::{generate_request, generate_response};
use pact_models::bodies::OptionalBody;
use pact_models::content_types::ContentType;
use pact_models::expression_parser::DataType;
use pact_models::generators::{GenerateValue, Generator, GeneratorCategory, GeneratorTestMode, Generators, VariantMatcher};
use pact_models::json_utils::resolve_path;
use pact_models::matchingrules::{Category, MatchingRule, MatchingRules, RuleLogic};
use pact_models::message::Message;
use pact_models::path_exp::{DocPath, PathToken};
use pact_models::v4::async_message::AsynchronousMessage;
use pact_models::v4::http_parts::{HttpRequest, HttpResponse};
use pact_models::v4::message_parts::MessageContents;
use pact_models::v4::sync_message::SynchronousMessage;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap};
use Generator::{ArrayContains, MockServerURL, ProviderStateGenerator, RandomInt, Regex};

type Gens = Vec<(GeneratorCategory, DocPath, Generator)>;
type Context = HashMap<&'static str, Value>;
fn gens(l: &Gens) -> Generators { let mut g = Generators::default(); for (c, p, x) in l { g.categories.entry(c.clone()).or_default().insert(p.clone(), x.clone()); } g }
fn show(l: &Gens) -> String { l.iter().map(|(c, p, g)| format!(" {:?} {}: {:?}", c, p, g)).collect() }

/// Is the generator meant for this mode?
fn applies(g: &Generator, m: &GeneratorTestMode) -> bool { match g { ProviderStateGenerator(..) => *m == GeneratorTestMode::Provider, MockServerURL(..) => *m == GeneratorTestMode::Consumer, _ => true } }
/// What each generator gives (C15-C19 decide the generators themselves).
fn text(g: &Generator, c: &Context) -> Option<String> { GenerateValue::<String>::generate_value(g, &String::new(), c, &DefaultVariantMatcher.boxed()).ok() }
fn code(g: &Generator, c: &Context) -> Option<u16> { GenerateValue::<u16>::generate_value(g, &0, c, &DefaultVariantMatcher.boxed()).ok() }
fn json_value(g: &Generator, v: &Value, c: &Context) -> Option<Value> {
  match g {
    // a list in which every element that matches a variant has the generators of that variant applied
    ArrayContains(variants) => v.as_array().map(|l| Value::Array(l.iter().map(|v| {
      let Some((_, gens)) = DefaultVariantMatcher.find_matching_variant(v, variants) else { return v.clone() };
      let mut l: Vec<(DocPath, Generator)> = gens.into_iter().collect(); l.sort_by_key(|x| x.0.to_string());
      let mut v = v.clone(); for (p, g) in l { put(&mut v, &p, &g, c); } v
    }).collect())),
    g => GenerateValue::<Value>::generate_value(g, v, c, &DefaultVariantMatcher.boxed()).ok(),
  }
}
fn put(v: &mut Value, p: &DocPath, g: &Generator, c: &Context) {
  if p.is_root() { if let Some(n) = json_value(g, v, c) { *v = n; } return; }
  for at in resolve_path(v, p) { if let Some(x) = v.pointer_mut(&at) { if let Some(n) = json_value(g, &x.clone(), c) { *x = n; } } }
}

fn active<'a>(l: &'a Gens, cat: GeneratorCategory, m: &GeneratorTestMode) -> Vec<(&'a DocPath, &'a Generator)> { l.iter().filter(|g| g.0 == cat && applies(&g.2, m)).map(|g| (&g.1, &g.2)).collect() }

type Lists = BTreeMap<String, Vec<String>>;
/// Header values or query parameters; `any_case` for names that do not depend on case. Nothing where it is not specified.
fn lists(given: &Option<Lists>, g: &[(&DocPath, &Generator)], any_case: bool, c: &Context) -> Option<Lists> {
  let mut out = given.clone();
  for (p, g) in g {
    let name = match p.tokens().as_slice() { [PathToken::Root, PathToken::Field(n)] => n, [PathToken::Root] | [] => continue, _ => return None.or(out) };
    let Some(v) = text(g, c) else { continue };
    let map = out.get_or_insert_with(Default::default);
    let key = map.keys().find(|k| if any_case { k.eq_ignore_ascii_case(name) } else { *k == name }).cloned().unwrap_or(name.clone());
    let n = map.get(&key).map(|l| l.len()).unwrap_or(1);
    // a name without values
    let n = if n == 0 { if any_case { 1 } else { 0 } } else { n };
    map.insert(key, vec![v; n]);
  }
  out
}
#[derive(Debug, PartialEq, Clone)]
enum Shape { None(String), Json(Value), Form(Vec<(String, String)>), Bytes(Vec<u8>) }
fn shape(b: &OptionalBody, kind: &str) -> Shape {
  match b {
    OptionalBody::Present(b, _, _) => if kind.contains("json") { serde_json::from_slice(b).map(Shape::Json).unwrap_or(Shape::Bytes(b.to_vec())) } else if kind.contains("form") { Shape::Form(std::str::from_utf8(b).unwrap().split('&').map(|p| p.split_once('=').unwrap_or((p, ""))).map(|(k, v)| (k.to_string(), v.to_string())).collect()) } else { Shape::Bytes(b.to_vec()) },
    b => Shape::None(format!("{:?}", b)),
  }
}
/// Every result that applying the generators in some order gives.
fn bodies(b: &OptionalBody, kind: &str, g: &[(&DocPath, &Generator)], c: &Context) -> Vec<Shape> {
  let start = shape(b, kind);
  let mut out: Vec<Shape> = vec![];
  for order in permutations(g.len()) {
    let mut s = start.clone();
    for i in order {
      let (p, g) = g[i];
      match &mut s {
        Shape::Json(v) => put(v, p, g, c),
        Shape::Form(l) => {
          let names: Vec<String> = l.iter().map(|x| x.0.clone()).collect();
          for (i, (k, v)) in l.iter_mut().enumerate() {
            let nth = names[..i].iter().filter(|n| *n == k).count();
            let here = match p.tokens().as_slice() { [PathToken::Root, PathToken::Field(n)] | [PathToken::Root, PathToken::Field(n), PathToken::StarIndex] => n == k, [PathToken::Root, PathToken::Field(n), PathToken::Index(i)] => n == k && *i == nth, _ => false };
            if here { if let Some(t) = text(g, c) { *v = form(&t); } }
          }
        }
        _ => {}
      }
    }
    if !out.contains(&s) { out.push(s); }
  }
  out
}
fn form(s: &str) -> String { s.bytes().map(|b| match b { b'a'..=b'z' | b'A'..=b'Z' | b'0'..=b'9' | b'*' | b'-' | b'.' | b'_' => (b as char).to_string(), b' ' => "+".into(), b => format!("%{:02X}", b) }).collect() }
/// The type a body has of its own, and the hint.
fn own(b: &OptionalBody) -> String { match b { OptionalBody::Present(_, t, h) => format!("{:?} {:?}", t.as_ref().map(|t| t.to_string()), h), _ => "-".into() } }

fn check_body(rec: &mut Rec, before: &OptionalBody, after: &OptionalBody, kind: &str, g: &[(&DocPath, &Generator)], all: usize, c: &Context) {
  // contents of which nothing says the type: what they look like
  let kind = match before { OptionalBody::Present(b, None, _) if kind.is_empty() && b.starts_with(b"{") => "application/json", _ => kind };
  let want = bodies(before, kind, g, c);
  let got = shape(after, kind);
  // contents without a type of their own may be given the one that applies to them anyhow
  let untyped = matches!(before, OptionalBody::Present(_, None, _));
  let typed = format!("{:?} None", ContentType::parse(kind).ok().map(|t| t.to_string()));
  rec.check(want.contains(&got), "body", || format!("the body should be one of {:?}, is {:?}", want, got));
  if all == 0 { rec.check(before == after, "untouched", || format!("without generators the body {} becomes {}", before, after)); }
  rec.check(own(before) == own(after) || (untyped && own(after) == typed), "body-type", || format!("the type of the body was {}, is {}", own(before), own(after)));
}

fn p(s: &str) -> DocPath { DocPath::new(s).unwrap() }
fn name(s: &str) -> DocPath { DocPath::root().join(s) }
fn context() -> Context {
  [("providerState", json!({"id": 42, "name": "zed", "obj": {"b": [1]}})), ("mockServer", json!({"url": "http://mock:80/x", "href": "http://other"}))].into()
}
fn contexts() -> Vec<(&'static str, Context)> { vec![("full", context()), ("flat", [("id", json!(5)), ("name", json!("y"))].into()), ("empty", HashMap::new())] }

fn values() -> Vec<Generator> {
  vec![RandomInt(7, 7), ProviderStateGenerator("id".into(), None), ProviderStateGenerator("/p/${name}".into(), Some(DataType::STRING)), ProviderStateGenerator("nope".into(), None), MockServerURL("http://e:1/orders/9".into(), ".*(/orders/\\d+)$".into()), Regex("zz".into()), Regex("[".into()), Generator::RandomString(0)]
}
fn few() -> Vec<Generator> { vec![RandomInt(7, 7), ProviderStateGenerator("id".into(), None), MockServerURL("http://e:1/orders/9".into(), ".*(/orders/\\d+)$".into()), Regex("[".into())] }

fn contains() -> Generator {
  let (i, mut r, _) = variant(0, vec![("$.k", MatchingRule::Regex("a.*".into()))]);
  r.add_rule(p("$.v"), MatchingRule::Type, RuleLogic::And);
  let (j, s, _) = variant(1, vec![("$.k", MatchingRule::Regex("b".into()))]);
  ArrayContains(vec![(i, r, [(p("$.v"), RandomInt(7, 7))].into()), (j, s, [(p("$.v"), Regex("zz".into())), (p("$.w"), RandomInt(1, 1))].into())])
}
fn body_gens() -> Vec<(DocPath, Generator)> {
  let mut out = vec![];
  for e in ["$", "$.a", "$.b", "$.a.b", "$.*", "$[*]", "$[0]", "$.a[*]", "$.a[0]", "$.a[1]", "$.a[*].b", "$['a b']"] { for g in few() { out.push((p(e), g)); } }
  for e in ["$", "$.a"] { out.push((p(e), contains())); }
  out.push((p("$.a"), ProviderStateGenerator("obj".into(), None)));
  out
}
fn present(s: &str, t: Option<&str>) -> OptionalBody { OptionalBody::Present(s.to_string().into(), t.map(|t| ContentType::parse(t).unwrap()), None) }
fn contents() -> Vec<(&'static str, OptionalBody)> {
  let mut out = vec![("application/json", OptionalBody::Missing), ("application/json", OptionalBody::Empty), ("application/json", OptionalBody::Null)];
  for s in ["1", "\"a\"", "{\"a\":1,\"b\":\"x\"}", "{\"a\": {\"b\": 1}}", "{\"a\":[1,\"x\"],\"a b\":null}", "{\"a\":[{\"b\":1},{\"b\":2,\"c\":3}]}", "[1,2]", "[{\"k\":\"a1\",\"v\":1},{\"k\":\"b\",\"v\":1,\"w\":2},{\"k\":\"c\",\"v\":1}]", "{\"a\":[{\"k\":\"b\",\"v\":1}]}", "not json", ""] { for t in ["application/json", "application/hal+json;charset=utf-8"] { out.push((t, present(s, None))); out.push((t, present(s, Some(t)))); } }
  for s in ["a=1", "a=1&b=2&a=3", "b=1", "a", ""] { out.push(("application/x-www-form-urlencoded", present(s, None))); out.push(("application/x-www-form-urlencoded", present(s, Some("application/x-www-form-urlencoded;charset=utf-8")))); }
  for t in ["application/xml", "text/plain", "application/octet-stream", ""] { out.push((t, present("<a>1</a>", None))); out.push((t, present("{\"a\":1}", if t.is_empty() { None } else { Some(t) }))); }
  out
}

#[derive(Clone)]
struct Part { lists: Option<Lists>, body: OptionalBody, kind: &'static str }
fn headers(l: &Option<Lists>, kind: &str) -> Option<HashMap<String, Vec<String>>> {
  let mut m: HashMap<String, Vec<String>> = l.clone().unwrap_or_default().into_iter().collect();
  if !kind.is_empty() { m.insert("Content-Type".into(), vec![kind.into()]); }
  if l.is_none() && m.is_empty() { None } else { Some(m) }
}
fn sorted(h: &Option<HashMap<String, Vec<String>>>) -> Option<Lists> { h.as_ref().map(|h| h.iter().map(|(k, v)| (k.clone(), v.clone())).collect()) }

fn rules_of(l: &[(Category, DocPath, MatchingRule)]) -> MatchingRules { let mut m = MatchingRules::default(); for (c, p, r) in l { m.add_category(c.clone()).add_rule(p.clone(), r.clone(), RuleLogic::And); } m }

fn request(rec: &mut Rec, part: &Part, query: &Option<Lists>, g: &Gens, m: &GeneratorTestMode, c: &Context, rules: &[(Category, DocPath, MatchingRule)], extra: &Gens) {
  let r = HttpRequest { method: "PUT".into(), path: "/old".into(), query: query.as_ref().map(|q| q.iter().map(|(k, v)| (k.clone(), v.iter().map(|v| Some(v.clone())).collect())).collect()), headers: headers(&part.lists, part.kind), body: part.body.clone(), matching_rules: rules_of(rules), generators: gens(g) };
  rec.trace(); rec.steps(1);
  let Some(got) = rec.no_panic("request", || now(generate_request(&r, m, c))) else { return };
  let all: Gens = g.iter().chain(extra).cloned().collect();
  let want_path = active(&all, GeneratorCategory::PATH, m).iter().filter_map(|(_, g)| text(g, c)).last().unwrap_or(r.path.clone());
  rec.eq("path", &want_path, &got.path);
  rec.eq("method", &r.method, &got.method);
  rec.eq("headers", &lists(&sorted(&r.headers), &active(&all, GeneratorCategory::HEADER, m), true, c), &sorted(&got.headers));
  rec.eq("query", &lists(query, &active(&all, GeneratorCategory::QUERY, m), false, c), &got.query.as_ref().map(|q| q.iter().map(|(k, v)| (k.clone(), v.iter().map(|v| v.clone().unwrap_or_default()).collect())).collect()));
  check_body(rec, &r.body, &got.body, part.kind, &active(&all, GeneratorCategory::BODY, m), all.iter().filter(|g| g.0 == GeneratorCategory::BODY).count(), c);
  rec.check(r.matching_rules == got.matching_rules && r.generators == got.generators, "rest", || "the rules or generators are changed".into());
  if all.is_empty() { rec.check(r == got, "untouched", || "without generators the request is changed".into()); }
  rec.outcome(if r == got { "as before" } else { "changed" });
}
fn response(rec: &mut Rec, part: &Part, g: &Gens, m: &GeneratorTestMode, c: &Context) {
  let r = HttpResponse { status: 202, headers: headers(&part.lists, part.kind), body: part.body.clone(), matching_rules: MatchingRules::default(), generators: gens(g) };
  rec.trace(); rec.steps(1);
  let Some(got) = rec.no_panic("response", || now(generate_response(&r, m, c))) else { return };
  rec.eq("status", &active(g, GeneratorCategory::STATUS, m).iter().filter_map(|(_, g)| code(g, c)).last().unwrap_or(202), &got.status);
  rec.eq("headers", &lists(&sorted(&r.headers), &active(g, GeneratorCategory::HEADER, m), true, c), &sorted(&got.headers));
  check_body(rec, &r.body, &got.body, part.kind, &active(g, GeneratorCategory::BODY, m), g.iter().filter(|g| g.0 == GeneratorCategory::BODY).count(), c);
  if g.is_empty() { rec.check(r == got, "untouched", || "without generators the response is changed".into()); }
  rec.outcome(if r == got { "as before" } else { "changed" });
}
type Meta = BTreeMap<String, Value>;
fn metadata(l: &Meta, kind: &str) -> HashMap<String, Value> { let mut m: HashMap<String, Value> = l.clone().into_iter().collect(); if !kind.is_empty() { m.insert("contentType".into(), json!(kind)); } m }
fn meta(given: &HashMap<String, Value>, g: &[(&DocPath, &Generator)], c: &Context) -> Meta {
  let mut out: Meta = given.clone().into_iter().collect();
  for (p, g) in g {
    let [PathToken::Root, PathToken::Field(n)] = p.tokens().as_slice() else { continue };
    if let Some(v) = json_value(g, out.get(n).unwrap_or(&Value::Null), c) { out.insert(n.clone(), v); }
  }
  out
}
fn check_contents(rec: &mut Rec, before: &MessageContents, after: &MessageContents, kind: &str, g: &Gens, m: &GeneratorTestMode, c: &Context) {
  rec.eq("metadata", &meta(&before.metadata, &active(g, GeneratorCategory::METADATA, m), c), &after.metadata.clone().into_iter().collect::<Meta>());
  check_body(rec, &before.contents, &after.contents, kind, &active(g, GeneratorCategory::BODY, m), g.iter().filter(|g| g.0 == GeneratorCategory::BODY).count(), c);
  rec.check(before.matching_rules == after.matching_rules && before.generators == after.generators, "rest", || "the rules or generators are changed".into());
  rec.outcome(if before == after { "as before" } else { "changed" });
}
fn messages(rec: &mut Rec, l: &Meta, body: &OptionalBody, kind: &'static str, g: &Gens, m: &GeneratorTestMode, c: &Context) {
  let one = MessageContents { contents: body.clone(), metadata: metadata(l, kind), matching_rules: MatchingRules::default(), generators: gens(g) };
  let other = MessageContents { contents: present("{\"a\":\"other\"}", None), metadata: metadata(&[("k".to_string(), json!("other"))].into(), "application/json"), matching_rules: MatchingRules::default(), generators: Generators::default() };
  rec.trace(); rec.steps(4);
  let a = AsynchronousMessage { contents: one.clone(), ..AsynchronousMessage::default() };
  if let Some(got) = rec.no_panic("async", || now(apply_generators_to_async_message(&a, m, c, &vec![], &HashMap::new()))) { check_contents(rec, &one, &got, kind, g, m, c); }
  for at in 0..3 {
    let pick = |i: usize| if i == at { one.clone() } else { other.clone() };
    let s = SynchronousMessage { request: pick(0), response: vec![pick(1), pick(2)], ..SynchronousMessage::default() };
    let Some((req, resp)) = rec.no_panic("sync", || now(apply_generators_to_sync_message(&s, m, c, &vec![], &HashMap::new()))) else { continue };
    if !rec.check(resp.len() == 2, "sync", || format!("two responses become {}", resp.len())) { continue; }
    for (i, got) in [&req, &resp[0], &resp[1]].into_iter().enumerate() { let none = vec![]; if i == at { check_contents(rec, &one, got, kind, g, m, c); } else { check_contents(rec, &other, got, "application/json", &none, m, c); } }
  }
  let v3 = Message { contents: body.clone(), metadata: metadata(l, kind), generators: gens(g), ..Message::default() };
  rec.trace(); rec.steps(1);
  if let Some(got) = rec.no_panic("message", || now(generate_message(&v3, m, c, &vec![], &HashMap::new()))) {
    rec.eq("metadata", &meta(&v3.metadata, &active(g, GeneratorCategory::METADATA, m), c), &got.metadata.clone().into_iter().collect::<Meta>());
    check_body(rec, &v3.contents, &got.contents, kind, &active(g, GeneratorCategory::BODY, m), g.iter().filter(|g| g.0 == GeneratorCategory::BODY).count(), c);
  }
}

pub fn c38(run: &Run) {
  use GeneratorCategory::*;
  let modes = [GeneratorTestMode::Consumer, GeneratorTestMode::Provider];
  let list = |l: &[(&str, &[&str])]| Some(l.iter().map(|(k, v)| (k.to_string(), v.iter().map(|s| s.to_string()).collect())).collect::<Lists>());
  let given: Vec<Option<Lists>> = vec![None, list(&[]), list(&[("X-A", &["1"])]), list(&[("x-a", &["1", "2"])]), list(&[("X-B", &["1"])]), list(&[("X-A", &["1", "2"]), ("X-B", &["3"])]), list(&[("X-A", &[])]), list(&[("id", &["a", "b"]), ("X-A", &["c"])])];
  let keys = [name("X-A"), name("X-B"), name("id"), DocPath::root()];
  // one or two generators, in every part
  let mut options: Vec<Gens> = vec![vec![]];
  for g in values() { for cat in [PATH, STATUS, METHOD] { options.push(vec![(cat, DocPath::empty(), g.clone())]); } for cat in [HEADER, QUERY] { for k in &keys { options.push(vec![(cat.clone(), k.clone(), g.clone())]); } } options.push(vec![(BODY, p("$.a"), g.clone())]); options.push(vec![(METADATA, name("X-A"), g.clone())]); }
  let single: Vec<Gens> = options.iter().filter(|o| o.len() == 1 && few().contains(&o[0].2)).cloned().collect();
  for a in &single { for b in &single { if (&a[0].0, &a[0].1) < (&b[0].0, &b[0].1) { options.push(vec![a[0].clone(), b[0].clone()]); } } }
  let parts: Vec<Part> = given.iter().flat_map(|l| [("application/json", present("{\"a\":1,\"b\":\"x\"}", None)), ("", OptionalBody::Missing)].map(|(kind, body)| Part { lists: l.clone(), body, kind })).collect();
  let cs = contexts();
  let base = [parts.len(), given.len(), options.len()];
  run.explore("parts", "every request and response with up to two generators for path, status, headers and query parameters, in both modes and three contexts", space_size(&base), |i, rec| {
    let d = digits(i, &base);
    rec.state(&d);
    let (part, query, g) = (&parts[d[0]], &given[d[1]], &options[d[2]]);
    for m in &modes { for (cn, c) in &cs {
      rec.case(format!("headers {:?} query {:?} body {} {:?} {}{}", part.lists, query, part.body, m, cn, show(g)));
      request(rec, part, query, g, m, c, &[], &vec![]);
      if d[1] == 0 { response(rec, part, g, m, c); }
    } }
  });
  // bodies
  let bodies = contents(); let bg = body_gens();
  let n = bg.len();
  let base = [bodies.len(), n + 1, if run.thorough { n + 1 } else { 15 }];
  run.explore("bodies", "every body with up to two body generators, as a request, a response, an asynchronous, a synchronous and a V3 message", space_size(&base), |i, rec| {
    let d = digits(i, &base);
    if d[1] < n && d[2] + 1 < base[2] && (bg[d[1]].0 == bg[d[2] * (n + 1) / base[2]].0) { return; }
    let (kind, body) = &bodies[d[0]];
    let mut g: Gens = vec![];
    if d[1] < n { g.push((BODY, bg[d[1]].0.clone(), bg[d[1]].1.clone())); }
    if d[2] + 1 < base[2] { let x = &bg[d[2] * (n + 1) / base[2]]; g.push((BODY, x.0.clone(), x.1.clone())); }
    rec.state(&(1, &d));
    for m in &modes {
      let c = context();
      rec.case(format!("{} {} {:?}{}", kind, body, m, show(&g)));
      let part = Part { lists: None, body: body.clone(), kind };
      request(rec, &part, &None, &g, m, &c, &[], &vec![]);
      response(rec, &part, &g, m, &c);
      messages(rec, &BTreeMap::new(), body, kind, &g, m, &c);
    }
  });
  // metadata
  let metas: Vec<Meta> = vec![[].into(), [("X-A".to_string(), json!("1"))].into(), [("X-A".to_string(), json!(1)), ("X-B".to_string(), json!({"a": [1]}))].into(), [("X-A".to_string(), json!([{"k": "b", "v": 1}])), ("id".to_string(), json!(null))].into()];
  let mut options: Vec<Gens> = vec![vec![]];
  for k in &keys { for g in values().into_iter().chain([contains()]) { options.push(vec![(METADATA, k.clone(), g)]); } }
  for g in few() { for h in few() { options.push(vec![(METADATA, name("X-A"), g.clone()), (METADATA, name("X-B"), h.clone())]); options.push(vec![(METADATA, name("X-A"), g.clone()), (BODY, p("$.a"), h.clone())]); } }
  let base = [metas.len(), options.len(), cs.len()];
  run.explore("metadata", "every message with up to two generators for metadata and contents", space_size(&base), |i, rec| {
    let d = digits(i, &base);
    rec.state(&(2, &d));
    for m in &modes { for (kind, body) in [("application/json", present("{\"a\":1}", None)), ("", OptionalBody::Missing)] {
      rec.case(format!("{:?} {:?} {}{}", metas[d[0]], m, cs[d[2]].0, show(&options[d[1]])));
      messages(rec, &metas[d[0]], &body, kind, &options[d[1]], m, &cs[d[2]].1);
    } }
  });
  // generators that belong to matching rules
  run.each("rules", "generators that come with matching rules", &bodies, |(kind, body), rec| {
    let ArrayContains(v) = contains() else { unreachable!() };
    for m in &modes { for e in ["$", "$.a"] {
      let rules = vec![(Category::BODY, p(e), MatchingRule::ArrayContains(v.clone()))];
      let extra = vec![(BODY, p(e), contains())];
      rec.state(&(kind, body.to_string(), e));
      rec.case(format!("{} {} {:?} rule at {}", kind, body, m, e));
      request(rec, &Part { lists: None, body: body.clone(), kind }, &None, &vec![], m, &context(), &rules, &extra);
    } }
  });
  run.assume("the values that single generators give are decided by C15 to C19, the places a path expression denotes by C10 and C11");
  run.assume("the order in which generators for overlapping places are applied is not specified: the result of any order is accepted");
}
