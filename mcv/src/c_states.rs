//! C51: provider states around every interaction.
use crate::c_verify::{opts, Outcome, Outcome::*};
use crate::net::{self, Host, Silent};
use mccore::{digits, seq_at, seq_count, Rec, Run};
use pact_verifier::callback_executors::HttpRequestProviderStateExecutor;
use pact_verifier::{verify_provider_async, FilterInfo, MismatchResult, PactSource, ProviderInfo, ProviderTransport};
use reqwest::{Call, Reply};
use serde_json::{json, Value};
use std::collections::HashMap;
use std::sync::{Arc, Mutex};

/// How the state change handler answers.
#[derive(Clone, Copy, PartialEq, Debug, Hash)]
pub enum Ans { Empty, Text, List, Vals, Hal, E404, E500, Once, Twice, NoConn, Cut, E429, E304 }
use Ans::*;
impl Ans {
  /// The answer to the `n`th (from 0) request of the same call.
  fn reply(self, n: usize, values: &Value) -> Reply {
    let r = |status: u16, ct: Option<&str>, body: String| Reply::Response { status, headers: ct.map(|c| vec![("content-type".to_string(), c.to_string())]).unwrap_or_default(), body: body.into_bytes() };
    match self {
      Empty => r(200, None, String::new()), Text => r(200, Some("text/plain"), json!({"id": "no"}).to_string()), List => r(201, Some("application/json"), "[{\"id\":\"no\"}]".into()),
      Vals => r(200, Some("application/json"), values.to_string()), Hal => r(200, Some("application/hal+json; charset=utf-8"), values.to_string()),
      E404 => r(404, Some("application/json"), values.to_string()), E429 => r(429, Some("application/json"), values.to_string()), E304 => r(304, Some("application/json"), values.to_string()), E500 => r(500, None, String::new()),
      Once => if n == 0 { r(503, None, String::new()) } else { r(200, Some("application/json"), values.to_string()) },
      Twice => if n < 2 { r(500, None, String::new()) } else { r(200, Some("application/json"), values.to_string()) },
      NoConn => Reply::Refused, Cut => Reply::Broken { status: 200, headers: vec![("content-type".into(), "application/json".into())] },
    }
  }
  /// Requests made, and whether the call succeeds in the end.
  fn calls(self, max: usize) -> (usize, bool) {
    let max = max.max(1);
    match self { E404 | E429 | E304 | NoConn | Cut => (1, false), E500 => (max, false), Once => if max >= 2 { (2, true) } else { (1, false) }, Twice => if max >= 3 { (3, true) } else { (max, false) }, _ => (1, true) }
  }
  fn gives_values(self, max: usize) -> bool { matches!(self, Vals | Hal | Once | Twice) && self.calls(max).1 }
}
#[derive(Clone, Debug, PartialEq, Hash)]
pub struct State { name: &'static str, params: Vec<(&'static str, String)>, setup: Ans, teardown: Ans, values: String }
fn st(name: &'static str) -> State { State { name, params: vec![], setup: Empty, teardown: Empty, values: "{}".into() } }
impl State { fn values(&self) -> Value { serde_json::from_str(&self.values).unwrap() } fn params(&self) -> serde_json::Map<String, Value> { self.params.iter().map(|(k, v)| (k.to_string(), serde_json::from_str(v).unwrap())).collect() } }
#[derive(Clone, Copy, PartialEq, Debug, Hash)]
pub enum Kind { V2, Http3, Message3, Http4, Async, Synch }
use Kind::*;
#[derive(Clone, Debug, Hash)]
struct Inter { kind: Kind, states: Vec<State>, outcome: Outcome, generators: bool }
#[derive(Clone, Debug, Hash)]
struct Setup { inters: Vec<Inter>, teardown: bool, body: bool, max: u8, url: bool }

fn doc(inters: &[Inter]) -> Value {
  let k = inters[0].kind;
  let list: Vec<Value> = inters.iter().enumerate().map(|(n, i)| {
    let gens = json!({"path": {"type": "ProviderState", "expression": format!("/do/{}/${{id}}", n)}, "query": {"q": {"type": "ProviderState", "expression": "${id}"}}, "header": {"X-Id": {"type": "ProviderState", "expression": "<${id}>"}}});
    let mut v = match i.kind {
      V2 | Http3 => json!({"request": {"method": "POST", "path": format!("/do/{}/0", n), "headers": {"X-Id": "0"}, "query": {"q": ["0"]}}, "response": {"status": 200, "headers": {"Content-Type": "application/json"}, "body": {"x": 1}}}),
      Http4 => json!({"type": "Synchronous/HTTP", "request": {"method": "POST", "path": format!("/do/{}/0", n), "headers": {"X-Id": ["0"]}, "query": {"q": ["0"]}}, "response": {"status": 200, "body": {"contentType": "application/json", "encoded": false, "content": {"x": 1}}}}),
      Message3 => json!({"contents": {"x": 1}, "metaData": {"contentType": "application/json"}}),
      Async => json!({"type": "Asynchronous/Messages", "contents": {"contentType": "application/json", "encoded": false, "content": {"x": 1}}}),
      Synch => json!({"type": "Synchronous/Messages", "request": {"contents": {"contentType": "application/json", "encoded": false, "content": {"q": 1}}}, "response": [{"contents": {"contentType": "application/json", "encoded": false, "content": {"x": 1}}}]}),
    };
    if i.kind == V2 { v["request"]["query"] = json!("q=0"); }
    if i.generators { v["request"]["generators"] = gens; }
    v["description"] = json!(format!("i #{}", n));
    if i.kind == V2 { if let Some(s) = i.states.first() { v["providerState"] = json!(s.name); } }
    else if !i.states.is_empty() { v["providerStates"] = i.states.iter().map(|s| if s.params.is_empty() { json!({"name": s.name}) } else { json!({"name": s.name, "params": s.params()}) }).collect(); }
    v["_id"] = json!(format!("id-{}", n));
    v
  }).collect();
  json!({"consumer": {"name": "c"}, "provider": {"name": "p"}, "metadata": {"pactSpecification": {"version": match k { V2 => "2.0.0", Http3 | Message3 => "3.0.0", _ => "4.0" }}}, (if k == Message3 { "messages" } else { "interactions" }): list})
}
/// What the call says, as one line.
fn line(c: &Call) -> String {
  if c.url.path() == "/state" {
    let (mut name, mut action, mut params): (Value, Value, Vec<(String, String)>) = (Value::Null, Value::Null, vec![]);
    if c.body.is_empty() { for (k, v) in c.url.query_pairs() { match k.as_ref() { "state" => name = json!(v), "action" => action = json!(v), _ => params.push((k.to_string(), v.to_string())) } } }
    else {
      let b = net::body(c); name = b["state"].clone(); action = b["action"].clone();
      for (k, v) in b["params"].as_object().cloned().unwrap_or_default() { params.push((k, v.to_string())); }
      if c.headers.get("content-type").map(|v| v.as_bytes()) != Some(b"application/json") { params.push(("content type".into(), format!("{:?}", c.headers.get("content-type")))); }
      if c.url.query().is_some() || b.as_object().map(|o| o.len()) != Some(3) { params.push(("extra".into(), c.url.to_string())); }
    }
    params.sort();
    format!("{} {} {} {:?} in the {}", c.method, action.as_str().unwrap_or("?"), name, params, if c.body.is_empty() { "query" } else { "body" })
  } else if let Some(n) = c.url.path().strip_prefix("/do/") {
    format!("request {} q={:?} X-Id={:?}", n, c.url.query(), c.headers.get_all("x-id").iter().map(|v| v.to_str().unwrap().to_string()).collect::<Vec<_>>())
  } else { format!("message {}", net::body(c)["description"].as_str().unwrap_or("?").split('#').nth(1).unwrap_or("?")) }
}
fn text(v: &Value) -> String { match v { Value::String(s) => s.clone(), v => v.to_string() } }
fn state_line(s: &State, setup: bool, body: bool) -> String {
  let mut params: Vec<(String, String)> = s.params().iter().map(|(k, v)| (k.clone(), if body { v.to_string() } else { text(v) })).collect();
  params.sort();
  format!("POST {} {} {:?} in the {}", if setup { "setup" } else { "teardown" }, json!(s.name), params, if body { "body" } else { "query" })
}
/// Expected requests of an interaction (the second list may follow the first) and whether it succeeds.
fn expect(n: usize, i: &Inter, s: &Setup) -> (Vec<String>, Vec<String>, bool) {
  let states = if i.states.is_empty() { vec![st("")] } else { i.states.clone() };
  let (mut log, mut ok) = (vec![], true);
  if s.url { for x in &states { let (k, good) = x.setup.calls(s.max as usize); for _ in 0..k { log.push(state_line(x, true, s.body)); } ok &= good; } }
  let mut down = vec![]; let mut down_ok = true;
  if s.url && s.teardown { for x in &states { let (k, good) = x.teardown.calls(s.max as usize); for _ in 0..k { down.push(state_line(x, false, s.body)); } down_ok &= good; } }
  if !ok { return (log, down, false); }
  let mut id: Option<Value> = None;
  for x in &i.states { if let Some(v) = x.params().get("id") { id = Some(v.clone()); } }
  if s.url { for x in &states { if x.setup.gives_values(s.max as usize) { if let Some(v) = x.values().get("id") { id = Some(v.clone()); } } } }
  log.push(match i.kind {
    V2 | Http3 | Http4 => match &id { Some(v) if i.generators => format!("request {}/{} q={:?} X-Id={:?}", n, text(v), Some(format!("q={}", text(v))), [format!("<{}>", text(v))]), _ => format!("request {}/0 q={:?} X-Id={:?}", n, Some("q=0"), ["0"]) },
    _ => format!("message {}", n),
  });
  log.extend(down);
  (log, vec![], down_ok && i.outcome == Good)
}
fn run_one(rec: &mut Rec, s: &Setup) {
  let showst = |x: &State| format!("{}{:?} -> {:?}{}{}", x.name, x.params, x.setup, if x.values != "{}" { format!(" {}", x.values) } else { String::new() }, if x.teardown != Empty { format!(", teardown {:?}", x.teardown) } else { String::new() });
  rec.case(format!("{}; {}{}{}{}", s.inters.iter().map(|i| format!("{:?} {:?} [{}]{}", i.kind, i.outcome, i.states.iter().map(showst).collect::<Vec<_>>().join(", "), if i.generators { " with generators" } else { "" })).collect::<Vec<_>>().join("; "),
    if s.teardown { "teardown, " } else { "" }, if s.body { "body" } else { "query" }, if s.max != 3 { format!(", {} tries", s.max) } else { String::new() }, if s.url { "" } else { ", no handler" }));
  rec.state(s); rec.trace();
  let sc = s.clone();
  // the handler tells the calls apart by what they say and how often it was said in a row
  let progress: Arc<Mutex<HashMap<String, usize>>> = Default::default();
  let host = Host::new(move |c, _| {
    let l = line(c);
    if c.url.path() == "/state" {
      let mut p = progress.lock().unwrap();
      let states: Vec<State> = sc.inters.iter().flat_map(|i| if i.states.is_empty() { vec![st("")] } else { i.states.clone() }).collect();
      for setup in [true, false] { for x in &states { if l == state_line(x, setup, sc.body) {
        let k = p.entry(l.clone()).or_insert(0); let n = *k; *k += 1;
        return (if setup { x.setup } else { x.teardown }).reply(n, &x.values());
      } } }
      return Reply::Response { status: 404, headers: vec![], body: vec![] };
    }
    let n: usize = l.split(|c: char| !c.is_ascii_digit()).find(|s| !s.is_empty()).and_then(|s| s.parse().ok()).unwrap_or(0);
    let headers = vec![("content-type".to_string(), "application/json".to_string())];
    match sc.inters[n.min(sc.inters.len() - 1)].outcome { Good => Reply::Response { status: 200, headers, body: br#"{"x":1}"#.to_vec() }, Bad => Reply::Response { status: 200, headers, body: br#"{"x":2}"#.to_vec() }, Refused => Reply::Refused, Broken => Reply::Broken { status: 200, headers } }
  });
  let t = |n: &str| ProviderTransport { transport: n.into(), port: None, path: None, scheme: None };
  #[allow(deprecated)]
  let info = ProviderInfo { name: "p".into(), host: host.name.clone(), port: None, path: "".into(), transports: vec![t("http"), t("message")], ..Default::default() };
  let ex = Arc::new(HttpRequestProviderStateExecutor { state_change_url: if s.url { Some(format!("http://{}/state", host.name)) } else { None }, state_change_teardown: s.teardown, state_change_body: s.body, reties: s.max });
  let d = doc(&s.inters);
  let Some(r) = rec.no_panic("panic", || net::block_on(verify_provider_async(info, vec![PactSource::String(d.to_string())], FilterInfo::None, vec![], &opts(), None, &ex, None))) else { return };
  let got = match r { Ok(r) => r, Err(e) => { rec.fail("verification", format!("fails with {:#}", e)); return; } };
  let log: Vec<String> = host.calls().iter().map(line).collect();
  rec.steps(log.len() as u64);
  let mut at = 0; let mut all = true;
  for (n, i) in s.inters.iter().enumerate() {
    let (want, maybe, ok) = expect(n, i, s);
    all &= ok;
    let end = (at + want.len()).min(log.len());
    if log[at..end] != want[..] { rec.fail("requests", format!("interaction {}: expected {:?}, made {:?}", n, want, &log[at..])); return; }
    at = end;
    for m in &maybe { if log.get(at) == Some(m) { at += 1; } }
    match got.interaction_results.get(n) {
      None => rec.fail("reported interactions", format!("no result for interaction {}", n)),
      Some(r) => {
        rec.check(r.result.is_ok() == ok, "interaction result", || format!("interaction {} is reported as {:?}", n, r.result));
        if let Err(e) = &r.result { let id = match e { MismatchResult::Error(_, id) => id, MismatchResult::Mismatches { interaction_id, .. } => interaction_id }; rec.check(*id == Some(format!("id-{}", n)), "interaction id", || format!("the failure of interaction {} is reported for {:?}", n, id)); }
      }
    }
    rec.outcome(if ok { "passes" } else if i.outcome != Good { "fails" } else { "state change fails" });
  }
  rec.check(at == log.len(), "requests", || format!("further requests {:?}", &log[at..]));
  rec.check(got.result == all, "overall result", || format!("the result is {}", got.result));
}
pub fn c51(run: &Run) {
  std::env::set_var("PACT_DO_NOT_TRACK", "true");
  let _quiet = Silent::new();
  let one = |kind, states: Vec<State>, outcome| vec![Inter { kind, states, outcome, generators: matches!(kind, Http3 | Http4) }];
  let anss = [Empty, Text, List, Vals, Hal, E404, E500, Once, Twice, NoConn, Cut, E429, E304];
  // every pattern of answers to the setup calls
  let len = if run.thorough { 4 } else { 3 };
  run.explore("setup", "lists of states x answers of the handler to each x teardown x body or query x kind", seq_count(anss.len(), len) * 4 * 4, |i, rec| {
    let d = digits(i % 16, &[2, 2, 4]);
    let s = seq_at(i / 16, anss.len());
    let states = s.iter().enumerate().map(|(n, a)| State { setup: anss[*a], values: json!({"id": format!("v{}", n)}).to_string(), params: if n == 1 { vec![("a", "\"b c\"".into()), ("n", "{\"x\":[1]}".into())] } else { vec![] }, ..st(["s", "t", "u", "v"][n]) }).collect();
    run_one(rec, &Setup { inters: one([Http4, Http3, Async, Synch][d[2]], states, Good), teardown: d[0] == 1, body: d[1] == 1, max: 3, url: true });
  });
  // every pattern of answers to the teardown calls, after every outcome of the interaction
  let downs = [Empty, Vals, E404, E500, Once, NoConn];
  let kinds = [V2, Http3, Message3, Http4, Async, Synch];
  run.explore("teardown", "lists of states x answers to the teardown calls x outcome x kind", seq_count(downs.len(), len) * 4 * 6 * 2, |i, rec| {
    let d = digits(i % 48, &[4, 6, 2]);
    let s = seq_at(i / 48, downs.len());
    if kinds[d[1]] == V2 && s.len() > 1 { rec.case(String::new()); return; }
    let states = s.iter().enumerate().map(|(n, a)| State { teardown: downs[*a], ..st(["s", "t", "u", "v"][n]) }).collect();
    run_one(rec, &Setup { inters: one(kinds[d[1]], states, [Good, Bad, Refused, Broken][d[0]]), teardown: true, body: d[2] == 1, max: 3, url: true });
  });
  // no handler, no states
  run.explore("bare", "no states and one state, with and without handler and teardown", 2 * 2 * 2 * 2 * 6 * 4, |i, rec| {
    let d = digits(i, &[2, 2, 2, 2, 6, 4]);
    run_one(rec, &Setup { inters: one(kinds[d[4]], if d[0] == 1 { vec![st("s")] } else { vec![] }, [Good, Bad, Refused, Broken][d[5]]), teardown: d[1] == 1, body: d[2] == 1, max: 3, url: d[3] == 1 });
  });
  // tries
  run.explore("tries", "number of tries x answer to the setup and teardown calls x two states", 5 * (anss.len() * anss.len()) as u64 * 2, |i, rec| {
    let d = digits(i, &[5, anss.len(), anss.len(), 2]);
    let states = (0..1 + d[3]).map(|n| State { setup: anss[d[1]], teardown: anss[d[2]], values: json!({"id": n}).to_string(), ..st(["s", "t"][n]) }).collect();
    run_one(rec, &Setup { inters: one(Http4, states, Good), teardown: true, body: n_even(i), max: d[0] as u8, url: true });
  });
  // where values come from
  let statics: [&[(&str, &str)]; 5] = [&[], &[("id", "\"1\"")], &[("id", "2")], &[("x", "\"9\"")], &[("id", "true"), ("x", "null")]];
  let returned = ["{}", r#"{"id":"3"}"#, r#"{"id":4}"#, r#"{"x":5}"#, r#"{"id":"a","x":"b"}"#, r#"{"id":false}"#];
  let per = statics.len() * returned.len();
  run.explore("values", "up to two states x parameters of each x values returned for each x kind x body or query", seq_count(per, 2) * 4, |i, rec| {
    let d = digits(i % 4, &[2, 2]);
    let states = seq_at(i / 4, per).iter().enumerate().map(|(n, k)| State { params: statics[k % 5].iter().map(|(a, b)| (*a, b.to_string())).collect(), setup: if n == 0 { Vals } else { Hal }, values: returned[k / 5].into(), ..st(["s", "t"][n]) }).collect();
    run_one(rec, &Setup { inters: one([Http3, Http4][d[0]], states, Good), teardown: false, body: d[1] == 1, max: 3, url: true });
  });
  // the same state again, and several interactions
  let mut few: Vec<Inter> = vec![];
  for kind in [Http4, Async] { for (setup, teardown) in [(Vals, Empty), (E404, Empty), (Empty, NoConn)] { for outcome in [Good, Bad, Refused] { for n in 0..3 {
    few.push(Inter { kind, outcome, generators: kind == Http4, states: (0..n).map(|k| State { setup, teardown, values: json!({"id": format!("v{}", k)}).to_string(), params: vec![("k", k.to_string())], ..st("s") }).collect() });
  } } } }
  let n = few.len();
  let count = if run.thorough { n * n + n * n * 8 } else { n * n };
  run.explore("several", "two (three) interactions with states of the same name x outcomes x failing state changes", count as u64 * 2, |i, rec| {
    let (t, mut i) = (i % 2 == 1, i as usize / 2);
    let inters = if i < n * n { vec![few[i / n].clone(), few[i % n].clone()] } else { i -= n * n; vec![few[i / (8 * n)].clone(), few[(i / 8) % n].clone(), few[(i % 8) * 5].clone()] };
    let mut inters = inters;
    // states of different interactions are told apart by a parameter
    for (a, x) in inters.iter_mut().enumerate() { for s in x.states.iter_mut() { s.params.push(("of", a.to_string())); } }
    run_one(rec, &Setup { inters, teardown: t, body: true, max: 3, url: true });
  });
}
fn n_even(i: u64) -> bool { i % 2 == 0 }
