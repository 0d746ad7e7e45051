//! C67: a verification set up through the C interface is the one that was asked for.
#![allow(deprecated)]
use crate::c_broker::key;
use crate::c_verify::{item, Item, Kind, Outcome};
use crate::net::{self, Host, Silent};
use mccore::{digits, seq_at, seq_count, space_size, Rec, Run};
use pact_ffi::verifier::handle::VerifierHandle;
use pact_ffi::verifier::*;
use pact_models::http_utils::HttpAuth;
use pact_verifier::callback_executors::HttpRequestProviderStateExecutor;
use pact_verifier::metrics::VerificationMetrics;
use pact_verifier::verification_result::VerificationExecutionResult;
use pact_verifier::{verify_provider_async, ConsumerVersionSelector, FilterInfo, NullRequestFilterExecutor, PactSource, ProviderInfo, ProviderTransport, PublishOptions, VerificationOptions};
use reqwest::{Call, Reply};
use serde_json::{json, Value};
use std::ffi::{CStr, CString};
use std::os::raw::c_char;
use std::sync::Arc;

/// A C string or NULL. `$H` stands for the host that answers everything, `$D` for the directory with pact files.
type S = Option<&'static str>;
/// A list of C strings or NULL.
type L = Option<&'static [S]>;
const Y: fn(&'static str) -> S = Some;
#[derive(Clone, Copy, Debug, Hash, PartialEq)]
struct Sel { url: S, user: S, password: S, token: S, pending: u8, wip: S, tags: L, branch: S, selectors: L, ctags: L }
#[derive(Clone, Copy, Debug, Hash, PartialEq)]
enum Op {
  Info(S, S, S, u16, S), Transport(S, u16, S, S), Filter(S, S, u8), State(S, u8, u8), Options(u8, u64), Coloured(u8), MustHave(u8),
  Publish(S, S, L, S), Consumers(L), Header(S, S), File(S), Dir(S), Url(S, S, S, S), Broker(S, S, S, S), Select(Sel), Execute, Read,
}
use Op::*;

struct World { host: Host, dir: String }
impl World {
  fn fill(&self, s: &str) -> String { s.replace("$H", &self.host.name).replace("$D", &self.dir) }
  /// What a parameter for which "" is like NULL stands for.
  fn some(&self, s: S) -> Option<String> { s.filter(|s| !s.is_empty()).map(|s| self.fill(s)) }
  fn list(&self, l: L) -> Vec<String> { l.unwrap_or(&[]).iter().filter_map(|s| self.some(*s)).collect() }
  fn take(&self) -> Vec<Call> { std::mem::take(&mut *self.host.calls.lock().unwrap()) }
}
const ITEMS: fn() -> Vec<Item> = || vec![
  Item { name: "a", states: &["s"], id: true, ..item(Kind::Http4, Outcome::Good) },
  Item { name: "b", id: true, ..item(Kind::Http4, Outcome::Bad) },
  Item { name: "ab", states: &["t", "other"], ..item(Kind::Async, Outcome::Good) },
];
fn pact(consumer: &str, provider: &str, tag: &str, good: bool) -> Value {
  let items = ITEMS(); let items: Vec<Item> = if good { vec![items[0], items[2]] } else { items };
  let mut v = crate::c_verify::pact_json(&items, consumer, tag);
  v["provider"]["name"] = json!(provider);
  v
}
/// Provider, broker and state change handler in one.
fn answer(name: &str, c: &Call) -> Reply {
  let path = c.url.path();
  let u = |p: &str| json!({"href": format!("http://{}{}", name, p)});
  let t = |p: &str| json!({"href": format!("http://{}{}", name, p), "templated": true});
  let ok = |v: Value| net::json(200, &v);
  let linked = |n: &str| { let mut d = pact(if n.ends_with('1') { "c1" } else { "c3" }, "p", n, n.starts_with('G')); d["_links"] = json!({"self": u(&format!("/pact/{}", n)), "pb:publish-verification-results": u(&format!("/results/{}", n)), "pb:provider": u("/provider")}); d };
  match key(c).as_str() {
    "GET /broker" | "GET /broker/" => return ok(json!({"_links": {"pb:provider-pacts-for-verification": t("/pfv/{provider}"), "pb:latest-provider-pacts": t("/latest/{provider}")}})),
    "GET /empty" | "GET /empty/" => return ok(json!({"_links": {"pb:provider-pacts-for-verification": t("/nothing/{provider}"), "pb:latest-provider-pacts": t("/nothing/{provider}")}})),
    "GET /provider" => return ok(json!({"_links": {"pb:version-tag": t("/versions/{version}/tags/{tag}"), "pb:branch-version": t("/branches/{branch}/versions/{version}")}})),
    "GET /pact/u" => return ok(pact("c2", "p", "U", false)),
    "GET /pact/good" => return ok(pact("c2", "p", "V", true)),
    "GET /pact/l1" => return ok(linked("L1")),
    _ => {}
  }
  if let Some(p) = path.strip_prefix("/pfv/") {
    if c.method == "GET" { return ok(json!({"_links": {"self": u(path)}})); }
    let names = ["B1", "B2"];
    return ok(json!({"_embedded": {"pacts": names.iter().enumerate().map(|(n, b)| json!({"shortDescription": format!("{} of {}", b, p), "verificationProperties": {"pending": n == 1, "notices": [{"when": "before_verification", "text": "a notice"}]}, "_links": {"self": u(&format!("/pact/{}", b))}})).collect::<Vec<_>>()}}));
  }
  if path.starts_with("/latest/") { return ok(json!({"_links": {"pacts": [u("/pact/B1"), u("/pact/B2")]}})); }
  if let Some(n) = path.strip_prefix("/pact/") { if n.starts_with('B') { return ok(linked(n)); } }
  if path.starts_with("/results/") || path.starts_with("/versions/") || path.starts_with("/branches/") || path == "/states" { return ok(json!({})); }
  let s = match path.find("/do/") { Some(i) => path[i + 4..].to_string(), None => net::body(c)["description"].as_str().and_then(|d| d.split('#').nth(1)).unwrap_or("?").to_string() };
  let headers = vec![("content-type".to_string(), "application/json".to_string())];
  match (s.starts_with('V'), s.chars().last()) {
    (false, Some('0' | '2')) | (true, Some('0' | '1')) => Reply::Response { status: 200, headers, body: br#"{"x":1}"#.to_vec() },
    (false, Some('1')) => Reply::Response { status: 200, headers, body: br#"{"x":2}"#.to_vec() },
    _ => Reply::Response { status: 404, headers: vec![], body: vec![] },
  }
}
fn world(dir: &str) -> World {
  let name: Arc<std::sync::Mutex<String>> = Default::default(); let n = name.clone();
  let host = Host::new(move |c, _| { let n = n.lock().unwrap().clone(); answer(&n, c) });
  *name.lock().unwrap() = host.name.clone();
  World { host, dir: dir.to_string() }
}

/// What was asked for.
struct Config { provider: ProviderInfo, sources: Vec<PactSource>, filter: FilterInfo, state: HttpRequestProviderStateExecutor, opts: VerificationOptions<NullRequestFilterExecutor>, publish: Option<PublishOptions>, consumers: Vec<String>, app: (String, String), last: VerificationExecutionResult }
impl Config {
  fn new() -> Self { Config { provider: ProviderInfo::default(), sources: vec![], filter: FilterInfo::None, state: Default::default(), opts: Default::default(), publish: None, consumers: vec![], app: ("unknown".into(), "unknown".into()), last: VerificationExecutionResult::new() } }
  fn run(&mut self) -> i32 {
    let metrics = VerificationMetrics { test_framework: "pact_ffi".into(), app_name: self.app.0.clone(), app_version: self.app.1.clone() };
    let ex = Arc::new(HttpRequestProviderStateExecutor { state_change_url: self.state.state_change_url.clone(), state_change_teardown: self.state.state_change_teardown, state_change_body: self.state.state_change_body, ..Default::default() });
    match net::block_on(verify_provider_async(self.provider.clone(), self.sources.clone(), self.filter.clone(), self.consumers.clone(), &self.opts, self.publish.as_ref(), &ex, Some(metrics))) {
      Ok(r) => { self.last = r; if self.last.result { 0 } else { 1 } }
      Err(e) => { self.last.output.push(format!("Verification execution failed: {}", e)); 2 }
    }
  }
  fn transport(scheme: &str, port: Option<u16>, path: String) -> ProviderTransport { ProviderTransport { transport: scheme.into(), port, path: Some(path), scheme: Some(scheme.into()) } }
}
fn auth(w: &World, user: S, password: S, token: S) -> Option<HttpAuth> {
  match (w.some(user), w.some(token)) { (Some(u), _) => Some(HttpAuth::User(u, w.some(password))), (None, Some(t)) => Some(HttpAuth::Token(t)), _ => None }
}
fn none() -> ConsumerVersionSelector { ConsumerVersionSelector { consumer: None, fallback_tag: None, tag: None, latest: None, branch: None, deployed_or_released: None, deployed: None, released: None, main_branch: None, environment: None, matching_branch: None, fallback_branch: None } }
/// The selector a text stands for; None if it is no JSON.
fn selector(text: &str) -> Option<ConsumerVersionSelector> {
  match text {
    MAIN => Some(ConsumerVersionSelector { main_branch: Some(true), ..none() }),
    TAG => Some(ConsumerVersionSelector { tag: Some("x".into()), latest: Some(false), fallback_tag: Some("y".into()), ..none() }),
    BRANCH => Some(ConsumerVersionSelector { branch: Some("b".into()), consumer: Some("c1".into()), fallback_branch: Some("m".into()), ..none() }),
    ENV => Some(ConsumerVersionSelector { environment: Some("e".into()), deployed: Some(true), ..none() }),
    _ => None,
  }
}
const MAIN: &str = r#"{"mainBranch":true}"#;
const TAG: &str = r#"{"tag":"x","latest":false,"fallbackTag":"y"}"#;
const BRANCH: &str = r#" {"branch": "b", "consumer": "c1", "fallbackBranch": "m"}"#;
const ENV: &str = r#"{"environment":"e","deployed":true}"#;

/// What the call is to do to the configuration, and what it is to return (None: nothing).
fn apply(w: &World, c: &mut Config, op: &Op) -> Option<i32> {
  let or = |s: S, d: &str| w.some(s).unwrap_or_else(|| d.to_string());
  match *op {
    Info(name, scheme, host, port, path) => {
      let (scheme, path, port) = (or(scheme, "http"), or(path, "/"), Some(port).filter(|p| *p != 0));
      c.provider = ProviderInfo { name: or(name, "provider"), host: or(host, "localhost"), protocol: scheme.clone(), port, path: path.clone(), transports: vec![Config::transport(&scheme, port, path)] };
      None
    }
    Transport(protocol, port, path, scheme) => { c.provider.transports.push(ProviderTransport { transport: or(protocol, ""), port: Some(port), path: Some(or(path, "/")), scheme: w.some(scheme) }); None }
    Filter(d, s, no) => {
      let state = w.some(s).or(if no > 0 { Some(String::new()) } else { None });
      c.filter = match (w.some(d), state) { (None, None) => FilterInfo::None, (Some(d), None) => FilterInfo::Description(d), (None, Some(s)) => FilterInfo::State(s), (Some(d), Some(s)) => FilterInfo::DescriptionAndState(d, s) };
      None
    }
    State(url, teardown, body) => { c.state = HttpRequestProviderStateExecutor { state_change_url: w.some(url), state_change_teardown: teardown > 0, state_change_body: body > 0, ..Default::default() }; None }
    Options(ssl, timeout) => { c.opts.disable_ssl_verification = ssl > 0; c.opts.request_timeout = timeout; Some(0) }
    Coloured(n) => { c.opts.coloured_output = n > 0; Some(0) }
    MustHave(n) => { c.opts.no_pacts_is_error = n > 0; Some(0) }
    Publish(version, build, tags, branch) => match version {
      None => Some(1),
      Some(v) => { c.publish = Some(PublishOptions { provider_version: Some(v.into()), build_url: w.some(build), provider_tags: w.list(tags), provider_branch: w.some(branch) }); Some(0) }
    },
    Consumers(l) => { c.consumers = w.list(l); None }
    Header(n, v) => { if let (Some(n), Some(v)) = (n, v) { c.opts.custom_headers.insert(n.into(), w.fill(v)); } None }
    File(f) => { if let Some(f) = f { c.sources.push(PactSource::File(w.fill(f))); } None }
    Dir(d) => { if let Some(d) = d { c.sources.push(PactSource::Dir(w.fill(d))); } None }
    Url(url, u, p, t) => { if let Some(url) = url { c.sources.push(PactSource::URL(w.fill(url), auth(w, u, p, t))); } None }
    Broker(url, u, p, t) => { if let Some(url) = url { c.sources.push(from_broker(w, c, url, auth(w, u, p, t), false, None, vec![], None, vec![])); } None }
    Select(s) => {
      let Some(url) = s.url else { return Some(-2) };
      let (texts, tags) = (w.list(s.selectors), w.list(s.ctags));
      let selectors = if !texts.is_empty() { match texts.iter().map(|t| selector(t)).collect::<Option<Vec<_>>>() { Some(l) => l, None => return Some(-1) } } else { tags.into_iter().map(|t| ConsumerVersionSelector { tag: Some(t), latest: Some(true), ..none() }).collect() };
      c.sources.push(from_broker(w, c, url, auth(w, s.user, s.password, s.token), s.pending > 0, w.some(s.wip), w.list(s.tags), w.some(s.branch), selectors));
      Some(0)
    }
    Execute => Some(c.run()),
    Read => None,
  }
}
fn from_broker(w: &World, c: &Config, url: &str, auth: Option<HttpAuth>, enable_pending: bool, wip: Option<String>, provider_tags: Vec<String>, provider_branch: Option<String>, selectors: Vec<ConsumerVersionSelector>) -> PactSource {
  PactSource::BrokerWithDynamicConfiguration { provider_name: c.provider.name.clone(), broker_url: w.fill(url), enable_pending, include_wip_pacts_since: wip, provider_tags, provider_branch, selectors, auth, links: vec![] }
}

/// C strings that live as long as the call.
#[derive(Default)]
struct Args { texts: Vec<CString>, lists: Vec<Vec<*const c_char>> }
impl Args {
  fn t(&mut self, w: &World, s: S) -> *const c_char { match s { None => std::ptr::null(), Some(s) => { self.texts.push(CString::new(w.fill(s)).unwrap()); self.texts.last().unwrap().as_ptr() } } }
  fn l(&mut self, w: &World, l: L) -> (*const *const c_char, u16) { match l { None => (std::ptr::null(), 0), Some(l) => { let v: Vec<_> = l.iter().map(|s| self.t(w, *s)).collect(); self.lists.push(v); let v = self.lists.last().unwrap(); (v.as_ptr(), v.len() as u16) } } }
}
fn call(w: &World, h: *mut VerifierHandle, op: &Op) -> Option<i32> {
  let mut a = Args::default(); let a = &mut a;
  match *op {
    Info(n, s, ho, port, p) => { let (n, s, ho, p) = (a.t(w, n), a.t(w, s), a.t(w, ho), a.t(w, p)); pactffi_verifier_set_provider_info(h, n, s, ho, port, p); None }
    Transport(t, port, p, s) => { let (t, p, s) = (a.t(w, t), a.t(w, p), a.t(w, s)); pactffi_verifier_add_provider_transport(h, t, port, p, s); None }
    Filter(d, s, n) => { let (d, s) = (a.t(w, d), a.t(w, s)); pactffi_verifier_set_filter_info(h, d, s, n); None }
    State(u, t, b) => { let u = a.t(w, u); pactffi_verifier_set_provider_state(h, u, t, b); None }
    Options(s, t) => Some(pactffi_verifier_set_verification_options(h, s, t)),
    Coloured(n) => Some(pactffi_verifier_set_coloured_output(h, n)),
    MustHave(n) => Some(pactffi_verifier_set_no_pacts_is_error(h, n)),
    Publish(v, u, t, b) => { let (v, u, (t, n), b) = (a.t(w, v), a.t(w, u), a.l(w, t), a.t(w, b)); Some(pactffi_verifier_set_publish_options(h, v, u, t, n, b)) }
    Consumers(l) => { let (l, n) = a.l(w, l); pactffi_verifier_set_consumer_filters(h, l, n); None }
    Header(n, v) => { let (n, v) = (a.t(w, n), a.t(w, v)); pactffi_verifier_add_custom_header(h, n, v); None }
    File(f) => { let f = a.t(w, f); pactffi_verifier_add_file_source(h, f); None }
    Dir(f) => { let f = a.t(w, f); pactffi_verifier_add_directory_source(h, f); None }
    Url(u, n, p, t) => { let (u, n, p, t) = (a.t(w, u), a.t(w, n), a.t(w, p), a.t(w, t)); pactffi_verifier_url_source(h, u, n, p, t); None }
    Broker(u, n, p, t) => { let (u, n, p, t) = (a.t(w, u), a.t(w, n), a.t(w, p), a.t(w, t)); pactffi_verifier_broker_source(h, u, n, p, t); None }
    Select(s) => {
      let (u, n, p, t, wip, (tags, ntags), b, (sel, nsel), (ct, nct)) = (a.t(w, s.url), a.t(w, s.user), a.t(w, s.password), a.t(w, s.token), a.t(w, s.wip), a.l(w, s.tags), a.t(w, s.branch), a.l(w, s.selectors), a.l(w, s.ctags));
      Some(pactffi_verifier_broker_source_with_selectors(h, u, n, p, t, s.pending, wip, tags, ntags, b, sel, nsel, ct, nct))
    }
    Execute => Some(pactffi_verifier_execute(h)),
    Read => None,
  }
}
fn taken(p: *const c_char) -> Option<String> { if p.is_null() { None } else { unsafe { let s = CStr::from_ptr(p).to_string_lossy().to_string(); drop(CString::from_raw(p as *mut c_char)); Some(s) } } }

/// How long things took is not looked at.
fn timeless(s: &str) -> String {
  let mut out = String::new(); let mut rest = s;
  while let Some(i) = rest.find(" loading, ") {
    let (a, b) = (rest[..i].rfind('('), rest[i..].find(" verification)"));
    match (a, b) { (Some(a), Some(b)) => { out.push_str(&rest[..a]); out.push_str("(time)"); rest = &rest[i + b + " verification)".len()..]; } _ => { out.push_str(&rest[..i + 10]); rest = &rest[i + 10..]; } }
  }
  out + rest
}
/// Without the control sequences for colours.
fn plain(s: &str) -> String {
  let c: Vec<char> = s.chars().collect(); let mut out = String::new(); let mut i = 0;
  while i < c.len() {
    if c[i] == '\u{1b}' && c.get(i + 1) == Some(&'[') { let mut j = i + 2; while j < c.len() && (c[j].is_ascii_digit() || c[j] == ';') { j += 1; } if j < c.len() && j > i + 2 && "mGK".contains(c[j]) { i = j + 1; continue; } }
    out.push(c[i]); i += 1;
  }
  out
}
fn show(c: &Call) -> String { format!("{} {} {:?} {} {:?}{}", c.method, c.url, c.headers.iter().map(|(k, v)| format!("{}={:?}", k, v)).collect::<Vec<_>>(), String::from_utf8_lossy(&c.body), c.timeout, if c.insecure { " insecure" } else { "" }) }
/// Compares what went over the network.
fn same_calls(rec: &mut Rec, got: &[Call], want: &[Call]) {
  rec.steps(got.len() as u64);
  if got != want {
    let i = got.iter().zip(want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
    rec.fail("requests", format!("request {} is expected to be {}, it is {}", i, want.get(i).map(show).unwrap_or("none".into()), got.get(i).map(show).unwrap_or("none".into())));
  }
}
fn look(rec: &mut Rec, h: *mut VerifierHandle, c: &Config) {
  let want = timeless(&c.last.output.join("\n"));
  let raw = taken(pactffi_verifier_output(h, 0)).map(|s| timeless(&s));
  let stripped = taken(pactffi_verifier_output(h, 1)).map(|s| timeless(&s));
  let doc = taken(pactffi_verifier_json(h)).map(|s| timeless(&s));
  rec.check(raw.as_deref() == Some(&want[..]), "output", || format!("expected {:?}, it is {:?}", want, raw));
  rec.check(stripped == Some(plain(&want)), "output without colours", || format!("expected {:?}, it is {:?}", plain(&want), stripped));
  let expect: Value = (&c.last).into();
  let expect: Value = serde_json::from_str(&timeless(&expect.to_string())).unwrap();
  let got: Option<Value> = doc.as_deref().and_then(|d| serde_json::from_str(d).ok());
  rec.check(got.as_ref() == Some(&expect), "results", || format!("expected {}, they are {:?}", expect, doc));
}
/// Makes the calls and compares what happens with what was asked for.
fn play(rec: &mut Rec, w: &World, app: Option<(S, S)>, ops: &[Op]) {
  rec.case(format!("{:?} {:?}", app, ops)); rec.state(&(app, ops)); rec.trace();
  let mut a = Args::default();
  let h = match app { None => pactffi_verifier_new(), Some((n, v)) => { let (n, v) = (a.t(w, n), a.t(w, v)); pactffi_verifier_new_for_application(n, v) } };
  if h.is_null() { rec.fail("handle", "there is none"); return; }
  let mut c = Config::new();
  c.app = match app { None => ("pact_ffi".into(), "0.4.28".into()), Some((n, v)) => (w.some(n).unwrap_or("unknown".into()), w.some(v).unwrap_or("unknown".into())) };
  let mut executed = false;
  w.take();
  for op in ops {
    rec.steps(1);
    let got = call(w, h, op);
    let calls = w.take();
    let want = apply(w, &mut c, op);
    let expected = w.take();
    rec.check(got == want, "returned", || format!("{:?} returns {:?}, expected is {:?}", op, got, want));
    same_calls(rec, &calls, &expected);
    if matches!(op, Execute | Read) { look(rec, h, &c); }
    if *op == Execute { executed = true; rec.outcome(match want { Some(0) => "passed", Some(1) => "failed", _ => "not run" }); if calls.iter().any(|c| c.url.path().contains("/results/")) { rec.outcome("published"); } }
  }
  if executed { rec.outcome("executed"); }
  pactffi_verifier_shutdown(h);
}
const URL: Op = Url(Some("http://$H/pact/u"), None, None, None);
const HERE: Op = Info(Some("p"), None, Some("$H"), 0, None);

/// Files: one pact, a directory with pacts for the provider `p` of two consumers and one for `provider`.
fn files() -> std::path::PathBuf {
  let d = std::env::temp_dir().join(format!("mcv-handle-{}", std::process::id()));
  std::fs::create_dir_all(d.join("pacts")).unwrap(); std::fs::create_dir_all(d.join("none")).unwrap();
  std::fs::write(d.join("f.json"), pact("c1", "p", "F", false).to_string()).unwrap();
  std::fs::write(d.join("good.json"), pact("c1", "p", "V", true).to_string()).unwrap();
  for (n, c, p) in [("D1", "c1", "p"), ("D2", "c2", "p"), ("E1", "c1", "provider")] { std::fs::write(d.join("pacts").join(format!("{}.json", n)), pact(c, p, n, false).to_string()).unwrap(); }
  d
}

pub fn c67(run: &Run) {
  for (k, _) in std::env::vars() { if k.starts_with("PACT_") { std::env::remove_var(k); } }
  std::env::set_var("PACT_DO_NOT_TRACK", "true");
  let dir = files();
  { let _quiet = Silent::new(); let d = dir.to_string_lossy().to_string(); spaces(run, &d); }
  let _ = std::fs::remove_dir_all(&dir);
}
fn spaces(run: &Run, dir: &str) {
  // the provider
  let names = [None, Y(""), Y("p"), Y("other name")];
  let schemes = [None, Y(""), Y("http"), Y("https")];
  let ports = [0u16, 1, 80, 443, 65535];
  let paths = [None, Y(""), Y("/"), Y("/base"), Y("/base/"), Y("/a b/")];
  run.explore("provider", "provider name x scheme x port x path x source", space_size(&[names.len(), schemes.len(), ports.len(), paths.len(), 3]), |i, rec| {
    let d = digits(i, &[names.len(), schemes.len(), ports.len(), paths.len(), 3]);
    let w = world(dir);
    let src = [URL, Dir(Y("$D/pacts")), Broker(Y("http://$H/broker"), None, None, None)][d[4]];
    play(rec, &w, Some((None, None)), &[Info(names[d[0]], schemes[d[1]], Y("$H"), ports[d[2]], paths[d[3]]), src, Execute]);
    if d[4] == 0 { address(rec, &w, schemes[d[1]], ports[d[2]], paths[d[3]]); }
  });
  let local: Arc<std::sync::Mutex<Vec<Call>>> = Default::default(); let keep = local.clone();
  reqwest::serve("localhost", Arc::new(move |c: Call| { keep.lock().unwrap().push(c.clone()); answer("localhost", &c) }));
  run.explore_on(1, "host", "the provider's host is not given x port", 3 * 3, |i, rec| {
    let d = digits(i, &[3, 3]);
    let w = World { host: Host { name: "localhost.test".into(), calls: local.clone() }, dir: dir.into() };
    let src = File(Y("$D/f.json"));
    match d[0] { 2 => play(rec, &w, None, &[src, Execute]), n => play(rec, &w, Some((Y("x"), Y("1"))), &[Info(Y("p"), None, [None, Y("")][n], [0, 80, 8081][d[1]], None), src, Execute]) }
  });
  reqwest::stop("localhost");
  // transports
  let protocols = [Y("http"), Y("message"), Y("https"), Y("other"), None];
  let tp = [Y("/m"), Y("/"), None, Y("/x/y"), Y("")];
  let ts = [None, Y(""), Y("http"), Y("https")];
  let one = protocols.len() * tp.len() * ts.len();
  run.explore("transports", "scheme of the provider x one or two transports (protocol, path, scheme)", space_size(&[2, one]) + if run.thorough { space_size(&[one, one]) } else { space_size(&[one, 12]) }, |i, rec| {
    let t = |k: usize, port: u16| { let d = digits(k as u64, &[protocols.len(), tp.len(), ts.len()]); Transport(protocols[d[0]], port, tp[d[1]], ts[d[2]]) };
    let w = world(dir);
    let n = space_size(&[2, one]);
    if i < n { let d = digits(i, &[2, one]); play(rec, &w, None, &[Info(Y("p"), [None, Y("https")][d[0]], Y("$H"), 9, Y("/z")), t(d[1], 8080), URL, Execute]); }
    else { let d = digits(i - n, &[one, if run.thorough { one } else { 12 }]); play(rec, &w, None, &[HERE, t(d[0], 8080), t(d[1], 81), URL, Execute]); }
  });
  // filters
  let ds = [None, Y(""), Y("a"), Y("^b "), Y("#U2$"), Y("nothing")];
  let ss = [None, Y(""), Y("s"), Y("^t$"), Y("nothing"), Y("other")];
  let nos = [0u8, 1, 2, 255];
  let cs: [L; 7] = [None, Some(&[]), Some(&[Some("c1")]), Some(&[Some("c2")]), Some(&[None, Some("c2"), Some("")]), Some(&[Some("c1"), Some("c2")]), Some(&[Some(""), None])];
  run.explore("filters", "description x state x without state x consumers x source", space_size(&[ds.len(), ss.len(), nos.len(), cs.len(), 3]), |i, rec| {
    let d = digits(i, &[ds.len(), ss.len(), nos.len(), cs.len(), 3]);
    let w = world(dir);
    play(rec, &w, Some((None, None)), &[HERE, Filter(ds[d[0]], ss[d[1]], nos[d[2]]), Consumers(cs[d[3]]), [URL, File(Y("$D/f.json")), Dir(Y("$D/pacts"))][d[4]], Execute]);
  });
  // states, options
  let urls = [None, Y(""), Y("http://$H/states"), Y("http://$H/states?a=b")];
  let flags = [0u8, 1, 2, 255];
  let timeouts = [0u64, 1, 5000, 4_000_000_000];
  run.explore("states", "state change handler x teardown x body x certificates x timeout", space_size(&[urls.len(), 4, 4, 4, 4]), |i, rec| {
    let d = digits(i, &[urls.len(), 4, 4, 4, 4]);
    let w = world(dir);
    play(rec, &w, None, &[HERE, State(urls[d[0]], flags[d[1]], flags[d[2]]), Options(flags[d[3]], timeouts[d[4]]), URL, Execute]);
  });
  // headers
  let hs = [(Y("X-A"), Y("1")), (Y("X-A"), Y("2")), (Y("Authorization"), Y("Bearer $H")), (Y("Content-Type"), Y("text/x")), (None, Y("1")), (Y("X-B"), None), (Y("X-C"), Y("")), (Y("Accept"), Y("a, b;q=1"))];
  run.explore("headers", "sequences of custom headers", seq_count(hs.len(), 3), |i, rec| {
    let l: Vec<Op> = seq_at(i, hs.len()).iter().map(|k| Header(hs[*k].0, hs[*k].1)).collect();
    let w = world(dir);
    play(rec, &w, None, &[&[HERE][..], &l, &[URL, State(Y("http://$H/states"), 1, 1), Execute]].concat());
  });
  // sources
  let us = [None, Y(""), Y("me"), Y("a:b@c")]; let ps = [None, Y(""), Y("secret")]; let tk = [None, Y(""), Y("to.ken")];
  run.explore("credentials", "user x password x token x URL, broker, broker with selectors", space_size(&[us.len(), 3, 3, 3]), |i, rec| {
    let d = digits(i, &[us.len(), 3, 3, 3]);
    let (u, p, t) = (us[d[0]], ps[d[1]], tk[d[2]]);
    let w = world(dir);
    let src = match d[3] { 0 => Url(Y("http://$H/pact/l1"), u, p, t), 1 => Broker(Y("http://$H/broker"), u, p, t), _ => Select(Sel { user: u, password: p, token: t, ..SEL }) };
    play(rec, &w, None, &[HERE, src, Publish(Y("1.0"), None, Some(&[Some("t")]), Y("b")), Execute]);
  });
  let sources = [File(Y("$D/f.json")), File(Y("$D/good.json")), File(Y("$D/missing.json")), File(None), Dir(Y("$D/pacts")), Dir(Y("$D/none")), Dir(None), URL, Url(Y("http://$H/missing"), None, None, None), Url(None, Y("u"), None, None), Url(Y("http://$H/pact/l1"), Y("u"), None, None), Broker(Y("http://$H/broker"), None, None, None), Broker(Y("http://$H/empty"), None, None, None), Broker(None, None, None, None), Select(SEL), Select(Sel { url: None, ..SEL }), Select(Sel { selectors: Some(&[Some("{")]), ..SEL }), File(Y("")), Execute];
  let len = if run.thorough { 3 } else { 2 };
  run.explore("sources", "sequences of sources x no pacts is an error", seq_count(sources.len(), len) * 3, |i, rec| {
    let must = [None, Some(MustHave(0)), Some(MustHave(1))][(i % 3) as usize];
    let w = world(dir);
    let ops: Vec<Op> = [HERE].into_iter().chain(must).chain(seq_at(i / 3, sources.len()).iter().map(|k| sources[*k])).chain([Execute]).collect();
    play(rec, &w, None, &ops);
  });
  let tags: [L; 4] = [None, Some(&[]), Some(&[Some("v1"), None, Some("v2")]), Some(&[Some("x y")])];
  let branches = [None, Y("main"), Y("feat/x")];
  let sels: [L; 9] = [None, Some(&[]), Some(&[Some(MAIN)]), Some(&[Some(TAG), Some(BRANCH)]), Some(&[None, Some(ENV), Some("")]), Some(&[Some("{"), Some(MAIN)]), Some(&[Some(MAIN), Some("nonsense")]), Some(&[Some("")]), Some(&[Some(BRANCH), Some(ENV), Some(MAIN)])];
  let ctags: [L; 4] = [None, Some(&[Some("prod")]), Some(&[Some("a"), Some(""), Some("b")]), Some(&[None])];
  let wips = [None, Y(""), Y("2024-01-31")];
  run.explore("selectors", "pending x work in progress x provider tags x branch x selectors x consumer tags", space_size(&[3, 3, tags.len(), 3, sels.len(), ctags.len()]), |i, rec| {
    let d = digits(i, &[3, 3, tags.len(), 3, sels.len(), ctags.len()]);
    let w = world(dir);
    let s = Sel { pending: [0, 1, 200][d[0]], wip: wips[d[1]], tags: tags[d[2]], branch: branches[d[3]], selectors: sels[d[4]], ctags: ctags[d[5]], ..SEL };
    play(rec, &w, None, &[HERE, Select(s), Execute]);
  });
  // publishing
  let versions = [None, Y("1.0"), Y("1 2")]; let builds = [None, Y(""), Y("http://ci/1")];
  let bs = [None, Y(""), Y("main"), Y("feat/x")];
  let apps: [Option<(S, S)>; 5] = [None, Some((None, None)), Some((Y(""), Y(""))), Some((Y("app"), Y("2.1"))), Some((Y("app"), None))];
  run.explore("publishing", "provider version x build x tags x branch x application x source", space_size(&[3, 3, tags.len(), bs.len(), apps.len(), 3]), |i, rec| {
    let d = digits(i, &[3, 3, tags.len(), bs.len(), apps.len(), 3]);
    let w = world(dir);
    let src = [Broker(Y("http://$H/broker"), None, None, None), Url(Y("http://$H/pact/l1"), None, None, None), Select(Sel { tags: Some(&[Some("own")]), branch: Y("own"), ..SEL })][d[5]];
    play(rec, &w, apps[d[4]], &[HERE, Publish(versions[d[0]], builds[d[1]], tags[d[2]], bs[d[3]]), src, Execute]);
  });
  // sequences of everything
  let alphabet = [
    HERE, Info(Y("p"), Y("https"), Y("$H"), 81, Y("/base")), Transport(Y("message"), 82, Y("/m"), None), Filter(Y("a"), None, 0), Filter(None, Y("t"), 1), Filter(None, None, 0),
    State(Y("http://$H/states"), 1, 0), State(None, 0, 0), Options(1, 7), Coloured(0), Coloured(1), MustHave(0), Publish(Y("1.0"), None, Some(&[Some("t")]), None), Publish(Y("2"), Y("http://ci/1"), None, Y("b")), Publish(None, None, None, None), Consumers(Some(&[Some("c1")])), Consumers(None),
    Header(Y("X-A"), Y("1")), Header(Y("X-B"), Y("2")), File(Y("$D/f.json")), Dir(Y("$D/pacts")), Url(Y("http://$H/pact/l1"), None, None, Y("t")), Url(Y("http://$H/pact/good"), None, None, None), Broker(Y("http://$H/broker"), None, None, None), Select(SEL), Execute, Read,
  ];
  let len = if run.thorough { 4 } else { 3 };
  run.explore("sequences", "sequences of calls", seq_count(alphabet.len(), len), |i, rec| {
    let ops: Vec<Op> = seq_at(i, alphabet.len()).iter().map(|k| alphabet[*k]).collect();
    // what becomes of transports and names already used when the provider is set again is not laid down
    let late = ops.iter().enumerate().any(|(n, o)| matches!(o, Info(..)) && ops[..n].iter().any(|p| matches!(p, Transport(..) | Broker(..) | Select(..))));
    if late { rec.case(String::new()); return; }
    let w = world(dir);
    let first: &[Op] = if matches!(ops.first(), Some(Info(..))) { &[] } else { &[HERE] };
    play(rec, &w, Some((Y("app"), Y("1"))), &[first, &ops, &[Execute]].concat());
  });
  nulls(run);
  command_line(run, dir);
}
const SEL: Sel = Sel { url: Some("http://$H/broker"), user: None, password: None, token: None, pending: 0, wip: None, tags: None, branch: Some("main"), selectors: None, ctags: None };
/// Requests of HTTP interactions go to the provider's address.
fn address(rec: &mut Rec, w: &World, scheme: S, port: u16, path: S) {
  let h = pactffi_verifier_new();
  w.take();
  for op in [Info(Y("p"), scheme, Y("$H"), port, path), URL, Execute] { call(w, h, &op); }
  let scheme = w.some(scheme).unwrap_or("http".into());
  let base = w.some(path).unwrap_or("/".into()); let base = base.trim_end_matches('/').replace(' ', "%20");
  let shown = if port == 0 || (scheme == "http" && port == 80) || (scheme == "https" && port == 443) { String::new() } else { format!(":{}", port) };
  let urls: Vec<String> = w.take().iter().map(|c| c.url.to_string()).filter(|u| u.contains("/do/")).collect();
  let want: Vec<String> = (0..2).map(|n| format!("{}://{}{}{}/do/U{}", scheme, w.host.name, shown, base, n)).collect();
  if scheme == "http" { rec.check(urls == want, "address", || format!("expected {:?}, requested are {:?}", want, urls)); }
  pactffi_verifier_shutdown(h);
}
/// Without a handle nothing happens.
fn nulls(run: &Run) {
  run.explore("null", "functions without a handle", 19, |i, rec| {
    rec.case(format!("function {} without a handle", i)); rec.state(&i); rec.trace();
    let n: *mut VerifierHandle = std::ptr::null_mut(); let s = CString::new("x").unwrap(); let s = s.as_ptr(); let z = std::ptr::null();
    let got: Option<i32> = match i {
      0 => { pactffi_verifier_set_provider_info(n, s, s, s, 1, s); None } 1 => { pactffi_verifier_add_provider_transport(n, s, 1, s, s); None } 2 => { pactffi_verifier_set_filter_info(n, s, s, 0); None }
      3 => { pactffi_verifier_set_provider_state(n, s, 0, 0); None } 4 => { pactffi_verifier_set_consumer_filters(n, z, 0); None } 5 => { pactffi_verifier_add_custom_header(n, s, s); None }
      6 => { pactffi_verifier_add_file_source(n, s); None } 7 => { pactffi_verifier_add_directory_source(n, s); None } 8 => { pactffi_verifier_url_source(n, s, s, s, s); None } 9 => { pactffi_verifier_broker_source(n, s, s, s, s); None }
      10 => Some(pactffi_verifier_set_verification_options(n, 0, 0)), 11 => Some(pactffi_verifier_set_coloured_output(n, 0)), 12 => Some(pactffi_verifier_set_no_pacts_is_error(n, 0)),
      13 => Some(pactffi_verifier_set_publish_options(n, s, s, z, 0, s)), 14 => Some(pactffi_verifier_execute(n)),
      15 => Some(pactffi_verifier_broker_source_with_selectors(n, s, s, s, s, 0, s, z, 0, s, z, 0, z, 0)),
      16 => Some(taken(pactffi_verifier_output(n, 0)).is_some() as i32), 17 => Some(taken(pactffi_verifier_json(n)).is_some() as i32), _ => Some(taken(pactffi_verifier_logs(n)).is_some() as i32),
    };
    let want = match i { 0..=9 => None, 15 => Some(-2), 16..=18 => Some(0), _ => Some(1) };
    rec.check(got == want, "returned", || format!("{:?}, expected is {:?}", got, want));
    rec.outcome("without a handle");
  });
}

/// An argument of the command line: name, value. Values may hold `$H` and `$D`.
type Arg = (&'static str, Option<&'static str>);
/// name, short name, takes a value, may be repeated, values are split at commas
const OPTIONS: &[(&str, Option<char>, bool, bool, bool)] = &[
  ("loglevel", Some('l'), true, false, false), ("file", Some('f'), true, true, false), ("dir", Some('d'), true, true, false), ("url", Some('u'), true, true, false), ("broker-url", Some('b'), true, false, false), ("hostname", Some('h'), true, false, false), ("port", Some('p'), true, false, false),
  ("scheme", None, true, false, false), ("provider-name", Some('n'), true, false, false), ("state-change-url", Some('s'), true, false, false), ("state-change-as-query", None, false, false, false), ("state-change-teardown", None, false, false, false), ("filter-description", None, true, false, false),
  ("filter-state", None, true, false, false), ("filter-no-state", None, true, false, false), ("filter-consumer", Some('c'), true, true, false), ("user", None, true, false, false), ("password", None, true, false, false), ("token", Some('t'), true, false, false), ("publish", None, false, false, false),
  ("provider-version", None, true, false, false), ("build-url", None, true, false, false), ("provider-tags", None, true, false, true), ("provider-branch", None, true, false, false), ("base-path", None, true, false, false), ("consumer-version-tags", None, true, false, true),
  ("consumer-version-selectors", None, true, true, false), ("disable-ssl-verification", None, false, false, false), ("enable-pending", None, false, false, false), ("include-wip-pacts-since", None, true, false, false), ("request-timeout", None, true, false, false), ("header", None, true, true, false),
];
fn option(name: &str) -> Option<&'static (&'static str, Option<char>, bool, bool, bool)> { OPTIONS.iter().find(|o| o.0 == name) }
/// The code the command line is to return if it is not run, or what it asks for.
fn understood(w: &World, args: &[Arg]) -> Result<Config, i32> {
  let all = |n: &str| -> Vec<String> { args.iter().filter(|a| a.0 == n).flat_map(|a| a.1.map(|v| w.fill(v))).flat_map(|v| if option(n).map(|o| o.4).unwrap_or(false) { v.split(',').map(|s| s.to_string()).collect::<Vec<_>>() } else { vec![v] }).collect() };
  let one = |n: &str| all(n).first().cloned();
  let has = |n: &str| args.iter().any(|a| a.0 == n);
  for a in args {
    let Some(o) = option(a.0) else { return Err(4) };
    if o.2 != a.1.is_some() || (!o.3 && args.iter().filter(|b| b.0 == a.0).count() > 1) { return Err(4); }
  }
  for (n, needed) in [("broker-url", "provider-name"), ("publish", "broker-url"), ("publish", "provider-version"), ("consumer-version-tags", "broker-url"), ("consumer-version-selectors", "broker-url"), ("enable-pending", "broker-url"), ("include-wip-pacts-since", "broker-url")] { if has(n) && !has(needed) { return Err(4); } }
  for (a, b) in [("user", "token"), ("password", "token"), ("filter-state", "filter-no-state"), ("consumer-version-tags", "consumer-version-selectors")] { if has(a) && has(b) { return Err(4); } }
  if !["file", "dir", "url", "broker-url"].iter().any(|n| has(n)) { return Err(4); }
  if let Some(p) = one("port") { if p.parse::<u16>().is_err() { return Err(4); } }
  if let Some(p) = one("request-timeout") { if p.parse::<u64>().is_err() { return Err(4); } }
  if let Some(s) = one("scheme") { if s != "http" && s != "https" { return Err(4); } }
  if let Some(s) = one("loglevel") { if !["error", "warn", "info", "debug", "trace", "none"].contains(&&s[..]) { return Err(4); } }
  if ["filter-description", "filter-state"].iter().any(|n| one(n).as_deref() == Some("(")) { return Err(4); }
  let mut c = Config::new();
  for h in all("header") { match h.split_once('=') { Some((k, v)) => { c.opts.custom_headers.insert(k.into(), v.into()); } None => return Err(3) } }
  c.provider = ProviderInfo { host: one("hostname").unwrap_or("localhost".into()), port: one("port").map(|p| p.parse().unwrap()), path: one("base-path").unwrap_or("/".into()), protocol: one("scheme").unwrap_or("http".into()), ..ProviderInfo::default() };
  let auth = one("user").map(|u| HttpAuth::User(u, one("password"))).or(one("token").map(HttpAuth::Token));
  c.sources.extend(all("file").into_iter().map(PactSource::File));
  c.sources.extend(all("dir").into_iter().map(PactSource::Dir));
  c.sources.extend(all("url").into_iter().map(|u| PactSource::URL(u, auth.clone())));
  if let Some(b) = one("broker-url") {
    let name = one("provider-name").unwrap();
    let selectors: Vec<ConsumerVersionSelector> = if has("consumer-version-selectors") { all("consumer-version-selectors").iter().filter_map(|s| selector(s)).collect() } else { all("consumer-version-tags").into_iter().map(|t| ConsumerVersionSelector { tag: Some(t), latest: Some(true), ..none() }).collect() };
    c.sources.push(if has("consumer-version-selectors") || has("consumer-version-tags") { PactSource::BrokerWithDynamicConfiguration { provider_name: name, broker_url: b, enable_pending: has("enable-pending"), include_wip_pacts_since: one("include-wip-pacts-since"), provider_tags: all("provider-tags"), provider_branch: one("provider-branch"), selectors, auth, links: vec![] } } else { PactSource::BrokerUrl(name, b, auth, vec![]) });
  }
  let state = one("filter-state").or(if has("filter-no-state") { Some(String::new()) } else { None });
  c.filter = match (one("filter-description"), state) { (None, None) => FilterInfo::None, (Some(d), None) => FilterInfo::Description(d), (None, Some(s)) => FilterInfo::State(s), (Some(d), Some(s)) => FilterInfo::DescriptionAndState(d, s) };
  c.consumers = all("filter-consumer");
  c.state = HttpRequestProviderStateExecutor { state_change_url: one("state-change-url"), state_change_teardown: has("state-change-teardown"), state_change_body: !has("state-change-as-query"), ..Default::default() };
  c.opts.disable_ssl_verification = has("disable-ssl-verification");
  if let Some(t) = one("request-timeout") { c.opts.request_timeout = t.parse().unwrap(); }
  if has("publish") { c.publish = Some(PublishOptions { provider_version: one("provider-version"), build_url: one("build-url"), provider_tags: all("provider-tags"), provider_branch: one("provider-branch") }); }
  Ok(c)
}
/// The lines of the command line; options are given by their long name and value in two lines, in one, or by their short name.
fn lines(w: &World, args: &[Arg], form: usize) -> String {
  let mut out = vec![];
  for (n, v) in args {
    let short = option(n).and_then(|o| o.1).filter(|_| form == 2).map(|c| format!("-{}", c));
    let name = short.unwrap_or(format!("--{}", n));
    match v { None => out.push(name), Some(v) if form == 1 => out.push(format!("{}={}", name, w.fill(v))), Some(v) => { out.push(name); out.push(w.fill(v)); } }
  }
  out.join("\n")
}
fn typed(rec: &mut Rec, w: &World, args: &[Arg], form: usize) {
  rec.case(format!("command line {:?} (form {})", args, form)); rec.state(&(args, form)); rec.trace();
  let text = CString::new(lines(w, args, form)).unwrap();
  w.take();
  let got = unsafe { pactffi_verify(text.as_ptr()) };
  let calls = w.take();
  let want = understood(w, args).map(|mut c| c.run()).unwrap_or_else(|e| e);
  let expected = w.take();
  rec.check(got == want, "returned", || format!("{} is returned, expected is {}", got, want));
  same_calls(rec, &calls, &expected);
  rec.outcome(match want { 0 => "passed", 1 => "failed", 4 => "invalid arguments", _ => "not run" });
}
fn command_line(run: &Run, dir: &str) {
  let sources: Vec<Arg> = vec![("file", Some("$D/f.json")), ("file", Some("$D/good.json")), ("dir", Some("$D/pacts")), ("url", Some("http://$H/pact/u")), ("url", Some("http://$H/pact/good")), ("broker-url", Some("http://$H/broker")), ("provider-name", Some("p")), ("user", Some("me")), ("password", Some("secret")), ("token", Some("to.ken"))];
  let others: Vec<Arg> = vec![
    ("loglevel", Some("error")), ("loglevel", Some("loud")), ("port", Some("81")), ("port", Some("65536")), ("port", Some("x")), ("scheme", Some("http")), ("scheme", Some("https")), ("scheme", Some("ftp")), ("base-path", Some("/base")), ("base-path", Some("/b/")), ("state-change-url", Some("http://$H/states")), ("state-change-as-query", None), ("state-change-teardown", None),
    ("filter-description", Some("a")), ("filter-description", Some("(")), ("filter-state", Some("t")), ("filter-state", Some("(")), ("filter-no-state", Some("true")), ("filter-consumer", Some("c1")), ("filter-consumer", Some("c2")), ("publish", None), ("provider-version", Some("1.0")), ("build-url", Some("http://ci/1")), ("provider-tags", Some("t1")), ("provider-tags", Some("t1,t2")), ("provider-branch", Some("main")),
    ("consumer-version-tags", Some("prod")), ("consumer-version-tags", Some("a,b")), ("consumer-version-selectors", Some(MAIN)), ("consumer-version-selectors", Some(TAG)), ("consumer-version-selectors", Some("{")), ("disable-ssl-verification", None), ("enable-pending", None), ("include-wip-pacts-since", Some("2024-01-31")), ("request-timeout", Some("7")), ("request-timeout", Some("-1")), ("request-timeout", Some("1s")),
    ("header", Some("X-A=1")), ("header", Some("X-B=2=3")), ("header", Some("X-C=")), ("header", Some("X-D")), ("unknown", None), ("unknown", Some("x")), ("provider-name", Some("other")), ("hostname", Some("$H")), ("file", None),
  ];
  let len = if run.thorough { 4 } else { 3 };
  run.explore("arguments", "sequences of sources, names and credentials on the command line x form", seq_count(sources.len(), len) * 3, |i, rec| {
    let l: Vec<Arg> = [("hostname", Some("$H"))].into_iter().chain(seq_at(i / 3, sources.len()).iter().map(|k| sources[*k])).collect();
    typed(rec, &world(dir), &l, (i % 3) as usize);
  });
  let len = if run.thorough { 3 } else { 2 };
  let bases: [&[Arg]; 2] = [&[("hostname", Some("$H")), ("url", Some("http://$H/pact/l1"))], &[("broker-url", Some("http://$H/broker")), ("provider-name", Some("p")), ("hostname", Some("$H")), ("provider-version", Some("2"))]];
  run.explore("options", "sequences of options on the command line x source x form", seq_count(others.len(), len) * 2 * 3, |i, rec| {
    let d = digits(i, &[3, 2, seq_count(others.len(), len) as usize]);
    let l: Vec<Arg> = bases[d[1]].iter().cloned().chain(seq_at(d[2] as u64, others.len()).iter().map(|k| others[*k])).collect();
    // an option that is to have a value takes the line after it, and a value may come after another one
    if l.iter().any(|a| option(a.0).map(|o| o.2 && a.1.is_none()).unwrap_or(false)) && l.last().map(|a| a.0) != Some("file") { rec.case(String::new()); return; }
    typed(rec, &world(dir), &l, d[0]);
  });
  run.explore("help", "the arguments listed as JSON, and no arguments", 2 + OPTIONS.len() as u64, |i, rec| {
    rec.case(format!("listed argument {}", i)); rec.state(&i); rec.trace();
    if i == 0 { rec.check(unsafe { pactffi_verify(std::ptr::null()) } == 2, "returned", || "NULL is not refused".into()); rec.outcome("NULL"); return; }
    let text = taken(pactffi_verifier_cli_args()).unwrap_or_default();
    let v: Value = serde_json::from_str(&text).unwrap_or(Value::Null);
    let list = |k: &str| v[k].as_array().cloned().unwrap_or_default();
    if i == 1 { rec.check(list("options").len() == OPTIONS.iter().filter(|o| o.2).count() && v.as_object().map(|o| o.len()) == Some(2), "listed", || format!("it is {}", text)); rec.outcome("list"); return; }
    let o = &OPTIONS[i as usize - 2];
    let found: Vec<Value> = list(if o.2 { "options" } else { "flags" }).into_iter().filter(|a| a["long"] == json!(o.0)).collect();
    if found.len() != 1 { rec.fail("listed", format!("{} is there {} times", o.0, found.len())); return; }
    let a = &found[0];
    rec.check(a["short"] == o.1.map(|c| json!(c.to_string())).unwrap_or(Value::Null) && a["help"].as_str().map(|h| !h.is_empty()).unwrap_or(false), "listed", || format!("{} is listed as {}", o.0, a));
    if !o.4 { rec.check(a["multiple"] == json!(o.3), "listed", || format!("{} is listed as {}", o.0, a)); }
    rec.check(a.get("possible_values").map(|v| v.to_string()) == match o.0 { "scheme" => Some(r#"["http","https"]"#.to_string()), "loglevel" => Some(r#"["error","warn","info","debug","trace","none"]"#.to_string()), _ => None } && a.get("default_value").and_then(|v| v.as_str()) == if o.0 == "scheme" { Some("http") } else { None }, "listed", || format!("{} is listed as {}", o.0, a));
    rec.outcome("listed");
  });
}
