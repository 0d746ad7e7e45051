//! C53: the provider is sent what the interaction describes, and its answer is compared as it was received.
use crate::net::{self, Host, Silent};
use futures::executor::block_on as wait;
use maplit::hashmap;
use mccore::{digits, seq_at, seq_count, Rec, Run};
use either::Either;
use pact_models::bodies::OptionalBody;
use pact_models::content_types::ContentType;
use pact_models::v4::http_parts::{HttpRequest, HttpResponse};
use pact_models::v4::async_message::AsynchronousMessage;
use pact_models::v4::message_parts::MessageContents;
use pact_verifier::callback_executors::{HttpRequestProviderStateExecutor, RequestFilterExecutor};
use pact_verifier::verification_result::VerificationExecutionResult;
use pact_verifier::{verify_provider_async, FilterInfo, MismatchResult, NullRequestFilterExecutor, PactSource, ProviderInfo, ProviderTransport, VerificationOptions};
use pact_matching::{match_message, match_response, match_sync_message_response, Mismatch};
use reqwest::{Call, Reply};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap};
use std::sync::Arc;

fn verify<F: RequestFilterExecutor>(info: &ProviderInfo, doc: &Value, opts: &VerificationOptions<F>) -> anyhow::Result<VerificationExecutionResult> {
  let ex = Arc::new(HttpRequestProviderStateExecutor::default());
  net::block_on(verify_provider_async(info.clone(), vec![PactSource::String(doc.to_string())], FilterInfo::None, vec![], opts, None, &ex, None))
}
fn doc(interaction: Value) -> Value { json!({"consumer": {"name": "c"}, "provider": {"name": "p"}, "metadata": {"pactSpecification": {"version": "4.0"}}, "interactions": [interaction]}) }
#[allow(deprecated)]
fn info(host: &Host, transports: Vec<ProviderTransport>) -> ProviderInfo { ProviderInfo { name: "p".into(), host: host.name.clone(), protocol: "http".into(), port: None, path: "".into(), transports } }
fn transport(name: &str, port: Option<u16>, path: Option<&str>, scheme: Option<&str>) -> ProviderTransport { ProviderTransport { transport: name.into(), port, path: path.map(|p| p.into()), scheme: scheme.map(|p| p.into()) } }
fn fine() -> Host { Host::new(|_, _| Reply::Response { status: 200, headers: vec![], body: vec![] }) }

fn unescape(s: &str, form: bool) -> Vec<u8> {
  let b = s.as_bytes(); let mut out = vec![]; let mut i = 0;
  while i < b.len() {
    if b[i] == b'%' && i + 2 < b.len() && (b[i + 1] as char).is_ascii_hexdigit() && (b[i + 2] as char).is_ascii_hexdigit() { out.push(u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap()); i += 3; }
    else if form && b[i] == b'+' { out.push(b' '); i += 1; }
    else { out.push(b[i]); i += 1; }
  }
  out
}
fn segments(p: &str) -> Vec<Vec<u8>> { p.split('/').map(|s| unescape(s, false)).collect() }
type Params = BTreeMap<String, Vec<Option<String>>>;
fn params(c: &Call) -> Params {
  let mut m: Params = BTreeMap::new();
  let text = |s: &str| String::from_utf8_lossy(&unescape(s, true)).to_string();
  for part in c.url.query().unwrap_or("").split('&') {
    if part.is_empty() { continue; }
    match part.split_once('=') { Some((k, v)) => m.entry(text(k)).or_default().push(Some(text(v))), None => m.entry(text(part)).or_default().push(None) }
  }
  m
}
fn header_lines(c: &Call) -> BTreeMap<String, Vec<String>> {
  let mut m: BTreeMap<String, Vec<String>> = BTreeMap::new();
  for (k, v) in &c.headers { m.entry(k.as_str().to_string()).or_default().push(String::from_utf8_lossy(v.as_bytes()).to_string()); }
  m
}
/// The address of a path below a base path.
fn joined(base: &str, path: &str) -> String {
  let base = base.trim_end_matches('/');
  if path.is_empty() || path == "/" { if base.is_empty() { "/".into() } else { base.into() } } else { format!("{}/{}", base, path.trim_start_matches('/')) }
}

const PATHS: &[&str] = &["/", "/a", "/a/b/", "a", "/a b", "/a%20b", "/é", "/a%2Fb", "/a;b=c", "/a+b", "/a:b@c", "/100%", "/%zz/x", "/a/./b.c", "/\"<>^`{|}", "/a//b", "/~a-_.!*'(),$&=", "/A%c3%a9"];
const BASES: &[&str] = &["", "/", "/base", "/base/", "/base/b%20c"];
fn queries(thorough: bool) -> Vec<Vec<(&'static str, Vec<Option<&'static str>>)>> {
  let values: &[Option<&str>] = &[Some("x"), Some(""), Some("a b&c=d+é%20#"), None];
  let mut lists: Vec<Vec<Option<&str>>> = vec![];
  for n in 0..=3u32 { for i in 0..values.len().pow(n) { lists.push(digits(i as u64, &vec![values.len(); n as usize]).iter().map(|d| values[*d]).collect()); } }
  let mut out = vec![vec![]];
  for name in ["a", "a[]", "ä ö&=", ""] { for l in &lists { if name.is_empty() && l.contains(&None) { continue; } out.push(vec![(name, l.clone())]); } }
  for l in &lists { for k in &lists { if l.len() + k.len() > if thorough { 4 } else { 3 } { continue; } out.push(vec![("a", l.clone()), ("A", k.clone())]); } }
  out
}
fn headers() -> Vec<Vec<(&'static str, Vec<&'static str>)>> {
  vec![vec![], vec![("X-A", vec!["1"])], vec![("X-A", vec!["1", "2"])], vec![("X-A", vec!["2", "1"]), ("x-b", vec![""])], vec![("x-a", vec!["a, b;c=\"d\""])], vec![("Content-Type", vec!["application/json"])], vec![("content-type", vec!["text/plain;charset=UTF-8"]), ("X-C", vec!["é"])], vec![("Authorization", vec!["Bearer abc"]), ("Accept", vec!["text/html", "application/xml;q=0.9"])], vec![("Date", vec!["Mon, 01 Jan 2024 00:00:00 GMT"])], vec![("User-Agent", vec!["me"]), ("X-A", vec!["x"]), ("Cookie", vec!["a=b; c=d"])]]
}
fn customs() -> Vec<Vec<(&'static str, &'static str)>> { vec![vec![], vec![("X-A", "c")], vec![("x-a", "c")], vec![("X-Z", "z")], vec![("AUTHORIZATION", "token")], vec![("X-A", "c"), ("X-Z", "z")]] }
fn bodies() -> Vec<(Option<Value>, Vec<u8>)> {
  vec![(None, vec![]), (Some(json!({"content": "", "contentType": "text/plain", "encoded": false})), vec![]), (Some(json!({"content": "text é", "contentType": "text/plain", "encoded": false})), "text é".as_bytes().to_vec()), (Some(json!({"content": {"a": [1, null, "x"]}, "contentType": "application/json", "encoded": false})), br#"{"a":[1,null,"x"]}"#.to_vec()), (Some(json!({"content": "AP/+gA==", "contentType": "application/octet-stream", "encoded": "base64"})), vec![0, 255, 254, 128]), (Some(json!({"content": "<a>é</a>", "contentType": "application/xml", "encoded": false})), "<a>é</a>".as_bytes().to_vec()), (Some(json!({"content": "\"str\"", "contentType": "application/json", "encoded": "json"})), b"\"str\"".to_vec())]
}
struct Sent { method: &'static str, path: &'static str, base: &'static str, query: Vec<(&'static str, Vec<Option<&'static str>>)>, headers: Vec<(&'static str, Vec<&'static str>)>, custom: Vec<(&'static str, &'static str)>, body: usize }
fn request(rec: &mut Rec, s: &Sent, seen: &mut dyn FnMut(&Call)) {
  let bs = bodies();
  rec.case(format!("{} {:?} below {:?}, query {:?}, headers {:?}, custom headers {:?}, body {:?}", s.method, s.path, s.base, s.query, s.headers, s.custom, bs[s.body].0));
  rec.state(&rec_hash(s)); rec.trace();
  let mut r = json!({"method": s.method, "path": s.path});
  if !s.query.is_empty() { r["query"] = Value::Object(s.query.iter().map(|(k, v)| (k.to_string(), json!(v))).collect()); }
  if !s.headers.is_empty() { r["headers"] = Value::Object(s.headers.iter().map(|(k, v)| (k.to_string(), json!(v))).collect()); }
  if let Some(b) = &bs[s.body].0 { r["body"] = b.clone(); }
  let d = doc(json!({"type": "Synchronous/HTTP", "description": "a", "request": r, "response": {"status": 200}}));
  let host = fine();
  let o: VerificationOptions<NullRequestFilterExecutor> = VerificationOptions { coloured_output: false, custom_headers: s.custom.iter().map(|(k, v)| (k.to_string(), v.to_string())).collect(), ..Default::default() };
  let Some(out) = rec.no_panic("panic", || verify(&info(&host, vec![transport("http", None, Some(s.base), None)]), &d, &o)) else { return };
  match out { Ok(r) if r.result => rec.outcome("verified"), other => { rec.fail("not sent", format!("{:?}", other.map(|r| r.errors))); return; } }
  let calls = host.calls();
  if calls.len() != 1 { rec.fail("number of requests", format!("{} requests", calls.len())); return; }
  let c = &calls[0];
  seen(c);
  rec.check(c.method == s.method, "method", || format!("{} is sent", c.method));
  let want = joined(s.base, s.path);
  rec.check(segments(c.url.path()) == segments(&want) || segments(&want).iter().any(|s| s == b"."), "path", || format!("expected {:?}, {:?} is sent", want, c.url.path()));
  let q: Params = s.query.iter().filter(|(_, v)| !v.is_empty()).map(|(k, v)| (k.to_string(), v.iter().map(|v| v.map(|v| v.to_string())).collect())).collect();
  let got = params(c);
  rec.check(q == got, "query", || format!("expected {:?}, {:?} is sent ({:?})", q, got, c.url.query()));
  let mut h: BTreeMap<String, Vec<String>> = s.headers.iter().map(|(k, v)| (k.to_lowercase(), v.iter().map(|v| v.to_string()).collect())).collect();
  let given = h.contains_key("content-type") || s.custom.iter().any(|(k, _)| k.eq_ignore_ascii_case("content-type"));
  for (k, v) in &s.custom { h.insert(k.to_lowercase(), vec![v.to_string()]); }
  let mut got = header_lines(c);
  // the content type of the body may be sent with it
  if !given { if let Some(b) = &bs[s.body].0 { if got.get("content-type").map(|v| v == &[b["contentType"].as_str().unwrap().to_string()]).unwrap_or(false) { got.remove("content-type"); } } }
  // a header may be sent on one line or on several
  let flat = |h: &BTreeMap<String, Vec<String>>| h.iter().map(|(k, v)| (k.clone(), v.join(", "))).collect::<Vec<_>>();
  rec.check(flat(&h) == flat(&got), "headers", || format!("expected {:?}, {:?} is sent", h, got));
  rec.check(c.body == bs[s.body].1, "body", || format!("expected {:?}, {:?} is sent", bs[s.body].1, c.body));
}
fn rec_hash(s: &Sent) -> u64 { mccore::hash_of(&(s.method, s.path, s.base, &s.query, &s.headers, &s.custom, s.body)) }

pub fn c53(run: &Run) {
  std::env::set_var("PACT_DO_NOT_TRACK", "true");
  let _quiet = Silent::new();
  let (qs, hs, cs, bs) = (queries(run.thorough), headers(), customs(), bodies());
  const METHODS: &[&str] = &["GET", "POST", "PUT", "PATCH", "DELETE", "HEAD", "OPTIONS", "PURGE"];
  run.explore("addresses", "method x path x base path x (no query, query)", (METHODS.len() * PATHS.len() * BASES.len() * 2) as u64, |i, rec| {
    let d = digits(i, &[METHODS.len(), PATHS.len(), BASES.len(), 2]);
    request(rec, &Sent { method: METHODS[d[0]], path: PATHS[d[1]], base: BASES[d[2]], query: if d[3] == 1 { vec![("q", vec![Some("1")])] } else { vec![] }, headers: vec![], custom: vec![], body: 0 }, &mut |_| ());
  });
  run.explore("queries", "query parameters with up to 3 values each (none, with and without values)", qs.len() as u64 * 2, |i, rec| {
    request(rec, &Sent { method: "GET", path: ["/", "/a"][i as usize & 1], base: "", query: qs[i as usize / 2].clone(), headers: vec![], custom: vec![], body: 0 }, &mut |_| ());
  });
  run.explore("contents", "headers x custom headers x body x (GET, POST)", (hs.len() * cs.len() * bs.len() * 2) as u64, |i, rec| {
    let d = digits(i, &[hs.len(), cs.len(), bs.len(), 2]);
    request(rec, &Sent { method: ["GET", "POST"][d[3]], path: "/a", base: "", query: vec![], headers: hs[d[0]].clone(), custom: cs[d[1]].clone(), body: d[2] }, &mut |_| ());
  });
  // a body that is JSON null is sent as such when the content is JSON
  const NULLS: &[(Option<&str>, bool)] = &[(None, false), (Some("application/json"), true), (Some("application/json;charset=utf-8"), true), (Some("application/hal+json"), true), (Some("application/vnd.a.b+json"), true), (Some("text/plain"), false), (Some("application/xml"), false)];
  run.explore("null bodies", "content type header x document version x how the body is written x method", (NULLS.len() * 3 * 2) as u64, |i, rec| {
    let d = digits(i, &[NULLS.len(), 3, 2]);
    let (ct, json_type) = NULLS[d[0]];
    let mut r = json!({"method": "POST", "path": "/a", "body": null});
    if d[2] == 1 { r["method"] = json!("PUT"); }
    if d[1] == 1 { r["body"] = json!({"content": null}); }
    if let Some(ct) = ct { r["headers"] = if d[1] == 2 { json!({"Content-Type": ct}) } else { json!({"Content-Type": [ct]}) }; }
    rec.case(r.to_string()); rec.state(&i); rec.trace();
    let it = if d[1] == 2 { json!({"description": "a", "request": r, "response": {"status": 200}}) } else { json!({"type": "Synchronous/HTTP", "description": "a", "request": r, "response": {"status": 200}}) };
    let mut document = doc(it); if d[1] == 2 { document["metadata"]["pactSpecification"]["version"] = json!("3.0.0"); }
    let host = fine();
    let o: VerificationOptions<NullRequestFilterExecutor> = VerificationOptions { coloured_output: false, ..Default::default() };
    let Some(out) = rec.no_panic("panic", || verify(&info(&host, vec![]), &document, &o)) else { return };
    match out { Ok(r) if r.result => rec.outcome("verified"), other => { rec.fail("not sent", format!("{:?}", other.map(|r| r.errors))); return; } }
    let calls = host.calls();
    if calls.len() != 1 { rec.fail("number of requests", format!("{} requests", calls.len())); return; }
    rec.eq("null body", &(if json_type { "null" } else { "" }).to_string(), &String::from_utf8_lossy(&calls[0].body).to_string());
  });
  transports(run);
  filters(run);
  responses(run);
  messages(run);
}

#[derive(Clone, Copy, Debug, PartialEq, Hash)]
enum Sort { Http, Async, Sync }
fn transports(run: &Run) {
  const NAMES: &[&str] = &["http", "message", "async-message", "sync-message", "other"];
  let wanted: &[Option<&str>] = &[None, Some("http"), Some("message"), Some("async-message"), Some("sync-message"), Some("other"), Some("HTTP"), Some("nothing")];
  let len = if run.thorough { 4 } else { 3 };
  let n = seq_count(NAMES.len(), len);
  run.explore("transports", "kind of interaction x its transport x configured transports x what they leave out", 3 * wanted.len() as u64 * n * 4, |i, rec| {
    let d = digits(i, &[3, wanted.len(), 4, n as usize]);
    let sort = [Sort::Http, Sort::Async, Sort::Sync][d[0]];
    let names: Vec<&str> = seq_at(d[3] as u64, NAMES.len()).iter().map(|k| NAMES[*k]).collect();
    let list: Vec<ProviderTransport> = names.iter().enumerate().map(|(k, name)| transport(name, if d[2] == 1 { None } else { Some(4000 + k as u16) }, Some(["/t0", "/t1/", "/t2", "/t3"][k]).filter(|_| d[2] != 2), [None, Some("https"), Some("http"), None][(k + d[2]) % 4])).collect();
    rec.case(format!("{:?} with transport {:?}, provider has {:?}", sort, wanted[d[1]], list));
    rec.state(&i); rec.trace();
    let mut it = interaction(sort, &[]);
    if let Some(t) = wanted[d[1]] { it["transport"] = json!(t); }
    let host = Host::new(|_, _| Reply::Response { status: 200, headers: vec![("content-type".into(), "application/json".into())], body: br#"{"x":1}"#.to_vec() });
    #[allow(deprecated)]
    let info = ProviderInfo { port: Some(5000), path: "/old".into(), protocol: "http".into(), ..info(&host, list.clone()) };
    let o: VerificationOptions<NullRequestFilterExecutor> = VerificationOptions { coloured_output: false, ..Default::default() };
    let Some(out) = rec.no_panic("panic", || verify(&info, &doc(it), &o)) else { return };
    match out { Ok(r) => { rec.check(r.result, "not verified", || format!("{:?}", r.errors)); }, Err(e) => { rec.fail("not sent", format!("{:#}", e)); return; } }
    let fit = |t: &str| match wanted[d[1]] { Some(w) => t == w, None => match sort { Sort::Http => t == "http", Sort::Async => t == "message" || t == "async-message", Sort::Sync => t == "message" || t == "sync-message" } };
    let path = if sort == Sort::Http { "/do" } else { "" };
    let (scheme, port, base) = match list.iter().find(|t| fit(&t.transport)) { Some(t) => (t.scheme.clone().unwrap_or("http".into()), t.port, t.path.clone().unwrap_or_default()), None => ("http".to_string(), Some(5000), "/old".to_string()) };
    rec.outcome(if list.iter().any(|t| fit(&t.transport)) { "by transport" } else { "by address of the provider" });
    let want = (scheme, port, joined(&base, path));
    let calls: Vec<_> = host.calls().iter().map(|c| (c.url.scheme().to_string(), c.url.port(), c.url.path().to_string())).collect();
    rec.check(calls == [want.clone()], "address", || format!("expected a request to {:?}, there are {:?}", want, calls));
  });
}
fn interaction(sort: Sort, states: &[Value]) -> Value {
  let c = json!({"contentType": "application/json", "encoded": false, "content": {"x": 1}});
  let mut v = match sort {
    Sort::Http => json!({"type": "Synchronous/HTTP", "description": "a", "request": {"method": "GET", "path": "/do"}, "response": {"status": 200, "body": c}}),
    Sort::Async => json!({"type": "Asynchronous/Messages", "description": "a", "contents": c}),
    Sort::Sync => json!({"type": "Synchronous/Messages", "description": "a", "request": {"contents": c}, "response": [{"contents": c}]}),
  };
  if !states.is_empty() { v["providerStates"] = Value::Array(states.to_vec()); }
  v
}

/// Replaces parts of the request.
#[derive(Debug, Clone)]
struct Filter { method: Option<&'static str>, path: Option<&'static str>, header: Option<(&'static str, &'static str)>, drop: bool, body: Option<&'static str>, query: bool }
impl RequestFilterExecutor for Filter {
  fn call(self: Arc<Self>, request: &HttpRequest) -> HttpRequest {
    let mut r = request.clone();
    if let Some(m) = self.method { r.method = m.into(); }
    if let Some(m) = self.path { r.path = m.into(); }
    if self.drop { r.headers = None; }
    if let Some((k, v)) = self.header { r.headers.get_or_insert_with(|| hashmap!{}).insert(k.into(), vec![v.into()]); }
    if let Some(b) = self.body { r.body = OptionalBody::from(b); }
    if self.query { r.query = Some(hashmap!{ "f".to_string() => vec![Some("1".to_string())] }); }
    r
  }
  fn call_non_http(&self, b: &OptionalBody, m: &HashMap<String, Either<Value, bytes::Bytes>>) -> (OptionalBody, HashMap<String, Either<Value, bytes::Bytes>>) { (b.clone(), m.clone()) }
}
fn filters(run: &Run) {
  let m = [None, Some("PUT")]; let p = [None, Some("/f")]; let h = [None, Some(("X-F", "f")), Some(("X-A", "f"))]; let b = [None, Some("filtered"), Some("")];
  run.explore("filters", "what a request filter changes x custom headers x kind of interaction", (2 * 2 * 3 * 2 * 3 * 2 * 2 * 3) as u64, |i, rec| {
    let d = digits(i, &[2, 2, 3, 2, 3, 2, 2, 3]);
    let f = Filter { method: m[d[0]], path: p[d[1]], header: h[d[2]], drop: d[3] == 1, body: b[d[4]], query: d[5] == 1 };
    let sort = [Sort::Http, Sort::Async, Sort::Sync][d[7]];
    rec.case(format!("{:?} for {:?}{}", f, sort, if d[6] == 1 { " and a custom header x-a" } else { "" }));
    rec.state(&i); rec.trace();
    let mut it = interaction(sort, &[]);
    if sort == Sort::Http { it["request"] = json!({"method": "POST", "path": "/do", "query": {"a": ["b"]}, "headers": {"X-A": ["1"], "Content-Type": ["text/plain"]}, "body": {"content": "text", "contentType": "text/plain", "encoded": false}}); }
    let host = Host::new(|_, _| Reply::Response { status: 200, headers: vec![("content-type".into(), "application/json".into())], body: br#"{"x":1}"#.to_vec() });
    let o = VerificationOptions { request_filter: Some(Arc::new(f.clone())), coloured_output: false, custom_headers: if d[6] == 1 { hashmap!{ "x-a".to_string() => "c".to_string() } } else { hashmap!{} }, ..Default::default() };
    let Some(out) = rec.no_panic("panic", || verify(&info(&host, vec![]), &doc(it), &o)) else { return };
    match out { Ok(r) => { rec.check(r.result, "not verified", || format!("{:?}", r.errors)); }, Err(e) => { rec.fail("not sent", format!("{:#}", e)); return; } }
    let calls = host.calls();
    if calls.len() != 1 { rec.fail("number of requests", format!("{} requests", calls.len())); return; }
    let c = &calls[0];
    let mut want: BTreeMap<String, Vec<String>> = BTreeMap::new();
    if !f.drop { if sort == Sort::Http { want.insert("x-a".into(), vec!["1".into()]); want.insert("content-type".into(), vec!["text/plain".into()]); } else { want.insert("content-type".into(), vec!["application/json".into()]); } }
    if let Some((k, v)) = f.header { want.insert(k.to_lowercase(), vec![v.into()]); }
    if d[6] == 1 { want.insert("x-a".into(), vec!["c".into()]); }
    let got = header_lines(c);
    rec.check(want == got, "filtered headers", || format!("expected {:?}, {:?} is sent", want, got));
    rec.check(c.method == f.method.unwrap_or("POST"), "filtered method", || format!("{} is sent", c.method));
    let path = f.path.unwrap_or(if sort == Sort::Http { "/do" } else { "/" });
    rec.check(c.url.path() == path, "filtered path", || format!("expected {}, {} is sent", path, c.url.path()));
    let q: Params = if f.query { [("f".to_string(), vec![Some("1".to_string())])].into() } else if sort == Sort::Http { [("a".to_string(), vec![Some("b".to_string())])].into() } else { Params::new() };
    rec.check(params(c) == q, "filtered query", || format!("expected {:?}, {:?} is sent", q, params(c)));
    match (f.body, sort) {
      (Some(b), _) => { rec.check(c.body == b.as_bytes(), "filtered body", || format!("expected {:?}, {:?} is sent", b, c.body)); }
      (None, Sort::Http) => { rec.check(c.body == b"text", "filtered body", || format!("{:?} is sent", c.body)); }
      (None, _) => { rec.check(net::body(c)["description"] == "a", "filtered body", || format!("{:?} is sent", c.body)); }
    }
    rec.outcome(&format!("{:?}", sort));
  });
}

/// Header values as the consumer's pact has them: one entry for every part of a list.
fn received(headers: &[(String, String)]) -> Option<HashMap<String, Vec<String>>> {
  const WHOLE: &[&str] = &["date", "accept-datetime", "if-modified-since", "if-unmodified-since", "expires", "retry-after", "last-modified", "set-cookie", "user-agent"];
  if headers.is_empty() { return None; }
  let mut m: HashMap<String, Vec<String>> = hashmap!{};
  for (k, v) in headers {
    let k = k.to_lowercase();
    let parts: Vec<String> = if WHOLE.contains(&k.as_str()) { vec![v.trim().to_string()] } else { v.split(',').map(|s| s.trim().to_string()).collect() };
    m.entry(k).or_default().extend(parts);
  }
  Some(m)
}
fn content_type(headers: &[(String, String)]) -> Option<ContentType> { headers.iter().find(|(k, _)| k.eq_ignore_ascii_case("content-type")).and_then(|(_, v)| ContentType::parse(v.as_str()).ok()) }
fn shown(m: &[Mismatch]) -> Vec<String> { let mut v: Vec<String> = m.iter().map(|m| m.to_json().to_string()).collect(); v.sort(); v }
fn verdict(rec: &mut Rec, out: Option<anyhow::Result<VerificationExecutionResult>>, want: Option<Vec<Mismatch>>) {
  let out = match out { None => return, Some(Ok(o)) => o, Some(Err(e)) => { rec.fail("not sent", format!("{:#}", e)); return; } };
  let got = match out.interaction_results.first().map(|r| &r.result) { None => { rec.fail("no result", "there is no result"); return; } Some(Ok(())) => Some(vec![]), Some(Err(MismatchResult::Mismatches { mismatches, .. })) => Some(mismatches.clone()), Some(Err(MismatchResult::Error(..))) => None };
  rec.outcome(match &got { None => "error", Some(m) if m.is_empty() => "match", _ => "mismatch" });
  match (want, got) {
    (None, None) => (),
    (Some(w), Some(g)) => { rec.check(shown(&w) == shown(&g), "comparison", || format!("expected {:?}, the verifier reports {:?}", shown(&w), shown(&g))); }
    (w, g) => rec.fail("comparison", format!("expected {:?}, the verifier reports {:?}", w.map(|w| shown(&w)), g.map(|g| shown(&g)))),
  }
}
fn answers(thorough: bool) -> (Vec<Vec<(String, String)>>, Vec<Vec<u8>>) {
  let h = |l: &[(&str, &str)]| l.iter().map(|(k, v)| (k.to_string(), v.to_string())).collect::<Vec<_>>();
  let mut heads = vec![h(&[]), h(&[("content-type", "application/json")]), h(&[("Content-Type", "application/json;charset=UTF-8"), ("X-A", "1")]), h(&[("content-type", "text/plain"), ("x-a", "1, 2")]), h(&[("x-a", "1"), ("x-a", "2")]), h(&[("x-a", "2"), ("x-b", "0"), ("x-a", "1")]), h(&[("date", "Mon, 01 Jan 2024 00:00:00 GMT")]), h(&[("x-a", "")]), h(&[("set-cookie", "a=1; Expires=Mon, 01 Jan"), ("set-cookie", "b=2")]), h(&[("vary", "Accept,Origin"), ("content-type", "application/json")])];
  if thorough { for k in ["x-a", "set-cookie", "vary", "date"] { for v in ["1", "1,2", " 1 , 2 ", "", ",", "1,,2"] { for w in [None, Some("3"), Some("")] { let mut l = h(&[("content-type", "application/json"), (k, v)]); if let Some(w) = w { l.push((k.to_string(), w.to_string())); } heads.push(l); } } } }
  let mut bodies: Vec<Vec<u8>> = vec![vec![], br#"{"x":1}"#.to_vec(), br#"{"x":2}"#.to_vec(), b"text".to_vec(), b"null".to_vec(), b" \n".to_vec()];
  if thorough { bodies.extend([vec![0, 255, 1], "é".as_bytes().to_vec(), b"<x/>".to_vec()]); }
  (heads, bodies)
}
fn responses(run: &Run) {
  let expected: Vec<Value> = vec![
    json!({"status": 200}), json!({"status": 404, "headers": {"X-A": ["1"]}}), json!({"status": 200, "headers": {"X-A": ["1", "2"]}}), json!({"status": 200, "headers": {"X-A": [""]}}), json!({"status": 200, "headers": {"Date": ["Mon, 01 Jan 2024 00:00:00 GMT"]}}), json!({"status": 200, "headers": {"Set-Cookie": ["a=1; Expires=Mon, 01 Jan", "b=2"]}}), json!({"status": 200, "headers": {"Vary": ["Accept", "Origin"]}}), json!({"status": 500, "headers": {"X-A": ["1"], "X-B": ["0"]}}),
    json!({"status": 200, "body": {"contentType": "application/json", "encoded": false, "content": {"x": 1}}}), json!({"status": 200, "body": {"contentType": "text/plain", "encoded": false, "content": "text"}}), json!({"status": 200, "body": {"contentType": "text/plain", "encoded": false, "content": " \n"}}), json!({"status": 204, "body": {"contentType": "application/json", "encoded": false, "content": {"x": 1}}, "matchingRules": {"body": {"$.x": {"combine": "AND", "matchers": [{"match": "type"}]}}}}), json!({"status": 200, "matchingRules": {"status": {"combine": "AND", "matchers": [{"match": "statusCode", "status": "error"}]}}}), json!({"status": 200, "headers": {"X-A": ["7"]}, "matchingRules": {"header": {"X-A": {"combine": "AND", "matchers": [{"match": "regex", "regex": "\\d"}]}}}}),
    json!({"status": 200, "body": {"contentType": "application/octet-stream", "encoded": "base64", "content": "AP8B"}}),
  ];
  let (heads, bodies) = answers(run.thorough);
  const STATUS: &[u16] = &[200, 204, 404, 500];
  run.explore("responses", "expected response x status x header lines x body of the answer", (expected.len() * STATUS.len() * heads.len() * bodies.len()) as u64, |i, rec| {
    let d = digits(i, &[expected.len(), STATUS.len(), heads.len(), bodies.len()]);
    let (e, status, head, body) = (&expected[d[0]], STATUS[d[1]], heads[d[2]].clone(), bodies[d[3]].clone());
    rec.case(format!("expected {}, the answer is {} {:?} {:?}", e, status, head, String::from_utf8_lossy(&body)));
    rec.state(&i); rec.trace();
    let document = doc(json!({"type": "Synchronous/HTTP", "description": "a", "request": {"method": "GET", "path": "/do"}, "response": e}));
    let pact = pact_models::pact::load_pact_from_json("c", &document).unwrap();
    let it = pact.interactions()[0].as_v4_http().unwrap();
    let actual = HttpResponse { status, headers: received(&head), body: if body.is_empty() { OptionalBody::Empty } else { OptionalBody::Present(body.clone().into(), content_type(&head), None) }, ..Default::default() };
    let Some(want) = rec.no_panic("panic", || wait(match_response(it.response.clone(), actual.clone(), &pact, &pact.interactions()[0]))) else { return };
    let host = Host::new(move |_, _| Reply::Response { status, headers: head.iter().map(|(k, v)| (k.to_lowercase(), v.clone())).collect(), body: body.clone() });
    let o: VerificationOptions<NullRequestFilterExecutor> = VerificationOptions { coloured_output: false, ..Default::default() };
    let out = rec.no_panic("panic", || verify(&info(&host, vec![]), &document, &o));
    verdict(rec, out, Some(want));
  });
}
fn messages(run: &Run) {
  let contents = [json!(null), json!({"contentType": "application/json", "encoded": false, "content": {"x": 1}}), json!({"contentType": "text/plain", "encoded": false, "content": "text"})];
  let metadata = [json!({}), json!({"topic": "t"}), json!({"topic": "t", "n": 1, "deep": {"a": [1]}}), json!({"contentType": "application/json"})];
  let states: Vec<Vec<Value>> = vec![vec![], vec![json!({"name": "s"})], vec![json!({"name": "s", "params": {"a": 1, "b": "é"}}), json!({"name": "t"})]];
  let (heads, bodies) = answers(false);
  use base64::Engine;
  let enc = |t: &str| base64::engine::general_purpose::STANDARD.encode(t);
  let metas: Vec<Option<String>> = vec![None, Some(enc(r#"{"topic":"t"}"#)), Some(enc(r#"{"topic":"u","n":1}"#)), Some(enc(r#"{"topic":"t","n":1,"deep":{"a":[1]},"contentType":"text/plain"}"#)), Some("not base64!".into()), Some(enc("[1]"))];
  const STATUS: &[u16] = &[200, 204, 500];
  let pick: Vec<usize> = if run.thorough { (0..heads.len()).collect() } else { vec![0, 1, 3] };
  run.explore("messages", "expected contents x metadata x states x kind x status x header lines x metadata header x body of the answer", (contents.len() * metadata.len() * states.len() * 2 * STATUS.len() * pick.len() * metas.len() * bodies.len()) as u64, |i, rec| {
    let d = digits(i, &[contents.len(), metadata.len(), states.len(), 2, STATUS.len(), pick.len(), metas.len(), bodies.len()]);
    if !run.thorough && d[2] > 0 && (d[1] + d[4] + d[5] > 1) { return; }
    let (status, mut head, body) = (STATUS[d[4]], heads[pick[d[5]]].clone(), bodies[d[7]].clone());
    if d[3] == 0 && status == 500 { return; }
    let mut part = json!({}); if !contents[d[0]].is_null() { part["contents"] = contents[d[0]].clone(); } if metadata[d[1]] != json!({}) { part["metadata"] = metadata[d[1]].clone(); }
    let mut it = if d[3] == 0 { let mut v = part.clone(); v["type"] = json!("Asynchronous/Messages"); v } else { json!({"type": "Synchronous/Messages", "request": {"contents": {"contentType": "application/json", "encoded": false, "content": {"q": [1, "é"]}}, "metadata": {"m": "v"}}, "response": [part]}) };
    it["description"] = json!("a message é");
    if !states[d[2]].is_empty() { it["providerStates"] = json!(states[d[2]]); }
    rec.case(format!("{}, the answer is {} {:?} with metadata {:?} and body {:?}", it, status, head, metas[d[6]], String::from_utf8_lossy(&body)));
    rec.state(&i); rec.trace();
    let document = doc(it);
    let pact = pact_models::pact::load_pact_from_json("c", &document).unwrap();
    // what was received: the content type, and what the metadata header says
    let ct = head.iter().find(|(k, _)| k.eq_ignore_ascii_case("content-type")).map(|(_, v)| v.clone());
    let mut m: HashMap<String, Value> = hashmap!{ "contentType".to_string() => json!(ct.unwrap_or_default()) };
    match d[6] { 1 => { m.insert("topic".into(), json!("t")); } 2 => { m.insert("topic".into(), json!("u")); m.insert("n".into(), json!(1)); } 3 => { m.insert("topic".into(), json!("t")); m.insert("n".into(), json!(1)); m.insert("deep".into(), json!({"a": [1]})); m.insert("contentType".into(), json!("text/plain")); } _ => () }
    let c = MessageContents { contents: if body.is_empty() { OptionalBody::Empty } else { OptionalBody::Present(body.clone().into(), content_type(&head), None) }, metadata: m, ..Default::default() };
    let want = rec.no_panic("panic", || if d[3] == 0 {
      let actual = AsynchronousMessage { contents: c.clone(), ..Default::default() };
      Some(wait(match_message(&pact.interactions()[0], &pact_models::interaction::Interaction::boxed(&actual), &pact)))
    } else if status < 400 { let e = pact.interactions()[0].as_v4_sync_message().unwrap(); Some(wait(match_sync_message_response(&e, &e.response, &vec![c.clone()], &pact))) } else { None });
    let Some(want) = want else { return };
    if let Some(t) = &metas[d[6]] { head.push(("pact-message-metadata".into(), t.clone())); }
    let host = Host::new(move |_, _| Reply::Response { status, headers: head.iter().map(|(k, v)| (k.to_lowercase(), v.clone())).collect(), body: body.clone() });
    let o: VerificationOptions<NullRequestFilterExecutor> = VerificationOptions { coloured_output: false, ..Default::default() };
    let out = rec.no_panic("panic", || verify(&info(&host, vec![]), &document, &o));
    verdict(rec, out, want);
    let calls = host.calls();
    if calls.len() != 1 { rec.fail("number of requests", format!("{} requests", calls.len())); return; }
    let c = &calls[0];
    let mut wanted = json!({"description": "a message é"});
    if !states[d[2]].is_empty() { wanted["providerStates"] = json!(states[d[2]]); }
    if d[3] == 1 { wanted["request"] = document["interactions"][0]["request"].clone(); }
    rec.check(c.method == "POST" && c.url.path() == "/" && header_lines(c) == [("content-type".to_string(), vec!["application/json".to_string()])].into(), "message request", || format!("{} {} {:?} is sent", c.method, c.url, header_lines(c)));
    rec.check(net::body(c) == wanted, "message request", || format!("expected {}, {} is sent", wanted, net::body(c)));
  });
}
