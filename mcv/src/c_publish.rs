//! C54: what is published to the broker is what was found.
use crate::c_broker::{broker, dynamic_source, key, Rep, REPS};
use crate::net::{self, Host, Silent};
use mccore::{digits, seq_at, seq_count, Rec, Run};
use pact_models::http_utils::HttpAuth;
use pact_verifier::callback_executors::HttpRequestProviderStateExecutor;
use pact_verifier::metrics::VerificationMetrics;
use pact_verifier::verification_result::VerificationExecutionResult;
use pact_verifier::{verify_provider_async, FilterInfo, PactSource, ProviderInfo, PublishOptions};
use reqwest::{Call, Reply};
use serde_json::{json, Value};
use std::collections::HashMap;
use std::sync::Arc;
use Rep::*;

/// What becomes of an interaction: the mismatches (attribute, identifier), the number of exceptions.
#[derive(Clone, Copy, PartialEq, Debug, Hash)]
enum Fate { Good, Body, Status, Header, Type, Refused, Metadata, AsyncBody, AsyncGood, Many, Pending, SyncGood, SyncBody }
use Fate::*;
const FATES: [Fate; 13] = [Good, Body, Status, Header, Type, Fate::Refused, Metadata, AsyncBody, AsyncGood, Many, Pending, SyncGood, SyncBody];
impl Fate {
  fn found(self) -> (Vec<(&'static str, Option<&'static str>)>, usize) {
    match self {
      Good | AsyncGood | SyncGood => (vec![], 0), Body | AsyncBody | Pending | SyncBody => (vec![("body", Some("$.x"))], 0), Status => (vec![("status", None)], 0), Header => (vec![("header", Some("X-A"))], 0), Type => (vec![("body", Some("$"))], 0),
      Fate::Refused => (vec![], 1), Metadata => (vec![("metadata", Some("topic"))], 0), Many => (vec![("body", Some("$.x")), ("header", Some("X-A")), ("status", None)], 0),
    }
  }
  fn good(self) -> bool { self.found() == (vec![], 0) }
  fn json(self, n: &str, id: bool) -> Value {
    let c = json!({"contentType": "application/json", "encoded": false, "content": {"x": 1}});
    let mut v = match self {
      AsyncGood | AsyncBody => json!({"type": "Asynchronous/Messages", "contents": c}),
      Metadata => json!({"type": "Asynchronous/Messages", "contents": c, "metadata": {"topic": "t"}}),
      SyncGood | SyncBody => json!({"type": "Synchronous/Messages", "request": {"contents": c}, "response": [{"contents": c}]}),
      _ => json!({"type": "Synchronous/HTTP", "request": {"method": "GET", "path": format!("/do/{}", n)}, "response": {"status": 200, "headers": {"X-A": ["1"]}, "body": c}}),
    };
    v["description"] = json!(format!("number #{}", n));
    if self == Pending { v["pending"] = json!(true); }
    if id { v["_id"] = json!(format!("id-{}", n)); }
    v
  }
  fn answer(self) -> Reply {
    let r = |status: u16, ct: &str, a: &str, body: &str| Reply::Response { status, headers: vec![("content-type".into(), ct.into()), ("x-a".into(), a.into())], body: body.as_bytes().to_vec() };
    let (j, good, bad) = ("application/json", r#"{"x":1}"#, r#"{"x":2}"#);
    match self { Good | AsyncGood | SyncGood | Metadata => r(200, j, "1", good), Body | AsyncBody | SyncBody | Pending => r(200, j, "1", bad), Status => r(503, j, "1", good), Header => r(200, j, "2", good), Type => r(200, "text/plain", "1", good), Many => r(400, j, "9", bad), Fate::Refused => Reply::Refused }
  }
}
fn provider(pacts: Vec<(String, Vec<Fate>)>) -> Host {
  Host::new(move |c, _| {
    let s = crate::c_verify::subject(c);
    for (tag, l) in &pacts { for (n, f) in l.iter().enumerate() { if s == format!("{}{}", tag, n) { return f.answer(); } } }
    Reply::Response { status: 404, headers: vec![], body: vec![] }
  })
}
fn document(l: &[Fate], ids: &dyn Fn(usize) -> bool, tag: &str, links: Value) -> Value {
  json!({"consumer": {"name": "c"}, "provider": {"name": "p"}, "metadata": {"pactSpecification": {"version": "4.0"}}, "_links": links, "interactions": l.iter().enumerate().map(|(n, f)| f.json(&format!("{}{}", tag, n), ids(n))).collect::<Vec<_>>()})
}
fn verify(info: &ProviderInfo, sources: Vec<PactSource>, publish: Option<&PublishOptions>, metrics: Option<VerificationMetrics>) -> anyhow::Result<VerificationExecutionResult> {
  let ex = Arc::new(HttpRequestProviderStateExecutor::default());
  let o = crate::c_verify::opts();
  net::block_on(verify_provider_async(info.clone(), sources, FilterInfo::None, vec![], &o, publish, &ex, metrics))
}
fn result_links(u: &str, n: usize) -> Value { json!({"self": {"href": format!("{}/pact/{}", u, n)}, "pb:publish-verification-results": {"href": format!("{}/results/{}", u, n)}, "pb:provider": {"href": format!("{}/provider", u)}}) }
type Resources = HashMap<String, (Rep, Value)>;
/// The resources of a broker with these pacts.
fn resources(name: &str, pacts: &[(bool, Value)]) -> Resources {
  let u = format!("http://{}", name);
  let mut m: Resources = HashMap::new();
  m.insert("GET /".into(), (Fine, json!({"_links": {"pb:provider-pacts-for-verification": {"href": format!("{}/pfv", u)}, "pb:latest-provider-pacts": {"href": format!("{}/latest", u)}}})));
  m.insert("GET /pfv".into(), (Fine, json!({"_links": {"self": {"href": format!("{}/pfv", u)}}})));
  m.insert("GET /latest".into(), (Fine, json!({"_links": {"pacts": (0..pacts.len()).map(|n| json!({"href": format!("{}/pact/{}", u, n)})).collect::<Vec<_>>()}})));
  m.insert("POST /pfv".into(), (Fine, json!({"_embedded": {"pacts": pacts.iter().enumerate().map(|(n, (pending, _))| json!({"shortDescription": "d", "verificationProperties": {"pending": pending, "notices": []}, "_links": {"self": {"href": format!("{}/pact/{}", u, n)}}})).collect::<Vec<_>>()}})));
  m.insert("GET /provider".into(), (Fine, json!({"_links": {"pb:version-tag": {"href": format!("{}/versions/{{version}}/tags/{{tag}}", u), "templated": true}, "pb:branch-version": {"href": format!("{}/branches/{{branch}}/versions/{{version}}", u), "templated": true}}})));
  for (n, (_, d)) in pacts.iter().enumerate() { let mut d = d.clone(); if d["_links"].is_null() { d["_links"] = result_links(&u, n); } m.insert(format!("GET /pact/{}", n), (Fine, d)); m.insert(format!("POST /results/{}", n), (Fine, json!({}))); }
  m
}
fn is_write(c: &Call) -> bool { c.method == "PUT" || (c.method == "POST" && c.url.path().starts_with("/results")) }
fn options() -> PublishOptions { PublishOptions { provider_version: Some("1.0".into()), build_url: None, provider_tags: vec![], provider_branch: None } }
/// Judges a published result against the fates of the interactions.
fn judge(rec: &mut Rec, sent: &Value, l: &[Fate], ids: &dyn Fn(usize) -> bool, tag: &str) {
  let ok = l.iter().all(|f| f.good());
  rec.check(sent["success"] == json!(ok), "success", || format!("{:?} is published as {}", l, sent["success"]));
  let empty = vec![];
  let entries = sent["testResults"].as_array().unwrap_or(&empty);
  let known: Vec<&Value> = entries.iter().filter(|e| e["interactionId"].as_str().map(|s| !s.is_empty()).unwrap_or(false)).collect();
  let want: Vec<String> = (0..l.len()).filter(|n| ids(*n)).map(|n| format!("id-{}{}", tag, n)).collect();
  let got: Vec<&str> = known.iter().map(|e| e["interactionId"].as_str().unwrap()).collect();
  if got != want { rec.fail("test results", format!("expected results for {:?}, they are for {:?}", want, got)); return; }
  for (e, n) in known.iter().zip((0..l.len()).filter(|n| ids(*n))) {
    let f = l[n];
    rec.check(e["success"] == json!(f.good()), "test result", || format!("{:?} is published as {}", f, e));
    let (mut m, x) = f.found(); m.sort();
    let mut found: Vec<(&str, Option<&str>)> = e["mismatches"].as_array().unwrap_or(&empty).iter().map(|m| (m["attribute"].as_str().unwrap_or("?"), m["identifier"].as_str())).collect(); found.sort();
    rec.check(found == m, "published mismatches", || format!("expected {:?}, {} is published", m, e["mismatches"]));
    rec.check(e["mismatches"].as_array().unwrap_or(&empty).iter().all(|m| m["description"].as_str().map(|d| !d.is_empty()).unwrap_or(false)), "published mismatches", || format!("{} is published", e["mismatches"]));
    rec.check(e["exceptions"].as_array().unwrap_or(&empty).len() == x && e["exceptions"].as_array().unwrap_or(&empty).iter().all(|m| m["message"].as_str().map(|d| !d.is_empty()).unwrap_or(false)), "published exceptions", || format!("expected {} exceptions, {} is published", x, e["exceptions"]));
    if !ok { rec.check(e["interactionDescription"] == json!(format!("number #{}{}", tag, n)), "published description", || format!("{} is published", e["interactionDescription"])); }
  }
}
fn overall(rec: &mut Rec, out: Option<anyhow::Result<VerificationExecutionResult>>, ok: bool) -> bool {
  match out {
    None => false, Some(Err(e)) => { rec.fail("verification", format!("fails with {:#}", e)); false }
    Some(Ok(r)) => { rec.check(r.result == ok, "overall result", || format!("the result is {}, errors {:?}", r.result, r.errors)); rec.outcome(if r.result { "passed" } else { "failed" }); true }
  }
}
fn fails(l: &[Fate]) -> bool { l.iter().any(|f| !f.good() && *f != Pending) }

pub fn c54(run: &Run) {
  std::env::set_var("PACT_DO_NOT_TRACK", "true");
  let _quiet = Silent::new();
  let len = if run.thorough { 3 } else { 2 };
  run.explore("results", "pacts of up to 2 (3) interactions: what becomes of each x which have an id x pending pact", seq_count(FATES.len(), len) * 4 * 2, |i, rec| {
    let (l, which, pending): (Vec<Fate>, u64, bool) = (seq_at(i / 8, FATES.len()).iter().map(|k| FATES[*k]).collect(), i / 2 % 4, i & 1 == 1);
    let ids = move |n: usize| match which { 0 => true, 1 => false, 2 => n == 0, _ => n == 1 };
    rec.case(format!("{:?}{}{}", l, ["", ", without ids", ", the first with an id", ", the second with an id"][which as usize], if pending { ", pending" } else { "" }));
    rec.state(&i); rec.trace(); rec.steps(l.len() as u64);
    let host = provider(vec![("".into(), l.clone())]);
    let d = document(&l, &ids, "", Value::Null);
    let b = broker(|name| resources(name, &[(pending, d.clone())]));
    let o = options();
    let out = rec.no_panic("panic", || verify(&crate::c_verify::info(&host), vec![dynamic_source(&b.name)], Some(&o), None));
    if !overall(rec, out, pending || !fails(&l)) { return; }
    let sent: Vec<Call> = b.calls().into_iter().filter(is_write).collect();
    // nothing to publish for a pact without interactions
    if l.is_empty() { rec.check(sent.len() <= 1, "published", || format!("{:?}", sent.iter().map(key).collect::<Vec<_>>())); return; }
    if sent.len() != 1 || key(&sent[0]) != "POST /results/0" { rec.fail("published", format!("{:?}", sent.iter().map(key).collect::<Vec<_>>())); return; }
    judge(rec, &net::body(&sent[0]), &l, &ids, "");
  });
  let versions = [Some("1.0"), Some("1.0+b/c d?#é%"), Some(""), None]; let urls = [None, Some("http://build/1?a=b")];
  let tags: Vec<Vec<&str>> = vec![vec![], vec!["t"], vec!["b/c d", "a"], vec!["x", "x&y=z", "é{version}"]];
  let branches = [None, Some("main"), Some("feat/a b?c{version}")];
  let auths = [None, Some(HttpAuth::User("u".into(), Some("pw:1".into()))), Some(HttpAuth::Token("t0k".into()))];
  let want_auth = [None, Some("Basic dTpwdzox"), Some("Bearer t0k")];
  run.explore("options", "provider version x build address x tags x branch x credentials x metrics x outcome", (4 * 2 * 4 * 3 * 3 * 2 * 2) as u64, |i, rec| {
    let d = digits(i, &[4, 2, 4, 3, 3, 2, 2]);
    let o = PublishOptions { provider_version: versions[d[0]].map(|v| v.into()), build_url: urls[d[1]].map(|v| v.into()), provider_tags: tags[d[2]].iter().map(|t| t.to_string()).collect(), provider_branch: branches[d[3]].map(|v| v.into()) };
    let l = vec![if d[6] == 0 { Good } else { Body }];
    rec.case(format!("{:?}, credentials {:?}{}, {:?}", o, auths[d[4]].as_ref().map(|a| a.to_string()), if d[5] == 1 { ", metrics" } else { "" }, l)); rec.state(&i); rec.trace();
    let host = provider(vec![("".into(), l.clone())]);
    let enc = |s: &str| s.bytes().map(|b| if b.is_ascii_alphanumeric() || b"-._~".contains(&b) { (b as char).to_string() } else { format!("%{:02X}", b) }).collect::<String>();
    let doc = document(&l, &|_| true, "", Value::Null);
    let mut writes: Vec<String> = vec![];
    if let Some(v) = versions[d[0]] {
      if let Some(b) = branches[d[3]] { writes.push(format!("PUT /branches/{}/versions/{}", enc(b), enc(v))); }
      for t in &tags[d[2]] { writes.push(format!("PUT /versions/{}/tags/{}", enc(v), enc(t))); }
      writes.push("POST /results/0".into());
    }
    let b = broker(|name| { let mut m = resources(name, &[(false, doc.clone())]); for w in &writes { m.insert(w.clone(), (Fine, json!({}))); } m });
    let mut s = dynamic_source(&b.name);
    if let PactSource::BrokerWithDynamicConfiguration { auth, .. } = &mut s { *auth = auths[d[4]].clone(); }
    let metrics = || if d[5] == 1 { Some(VerificationMetrics { test_framework: "tf".into(), app_name: "app".into(), app_version: "9".into() }) } else { None };
    let out = rec.no_panic("panic", || verify(&crate::c_verify::info(&host), vec![s], Some(&o), metrics()));
    if !overall(rec, out, d[6] == 0) { return; }
    let calls = b.calls();
    for c in &calls { let a = c.headers.get("authorization").map(|v| v.to_str().unwrap().to_string()); rec.check(a.as_deref() == want_auth[d[4]], "credentials", || format!("{} is sent with {:?}", key(c), a)); }
    let sent: Vec<&Call> = calls.iter().filter(|c| is_write(c)).collect();
    let got: Vec<String> = sent.iter().map(|c| key(c)).collect();
    if versions[d[0]] == Some("") { return; }
    rec.check(got == writes, "published", || format!("expected {:?}, {:?} is sent", writes, got));
    if got != writes { return; }
    rec.outcome(if writes.is_empty() { "not published" } else { "published" });
    for c in &sent { rec.check(c.headers.get("content-type").map(|v| v == "application/json").unwrap_or(false), "content type", || format!("{} is sent with {:?}", key(c), c.headers)); }
    if let Some(c) = sent.last() {
      let v = net::body(c);
      rec.check(v["providerApplicationVersion"] == json!(versions[d[0]]), "version", || format!("{} is published", v["providerApplicationVersion"]));
      rec.check(v.get("buildUrl").and_then(|u| u.as_str()) == urls[d[1]], "build address", || format!("{:?} is published", v.get("buildUrl")));
      let lang = if d[5] == 1 { json!({"testFramework": "tf", "name": "app", "version": "9"}) } else { Value::Null };
      rec.check(v["verifiedBy"]["clientLanguage"] == lang && v["verifiedBy"]["implementation"] == "Pact-Rust", "verified by", || format!("{} is published", v["verifiedBy"]));
      judge(rec, &v, &l, &|_| true, "");
    }
  });
  let reps: Vec<Rep> = if run.thorough { REPS.to_vec() } else { vec![Fine, S404, S500, Once, NoConn, Cut, Html] };
  let n = reps.len();
  run.explore("failures", "how the broker answers each request of the publication x branch x tags x outcome", (n * n * n * n * 2 * 2 * 2) as u64, |i, rec| {
    let d = digits(i, &[n, n, n, n, 2, 2, 2]);
    let r: Vec<Rep> = d[..4].iter().map(|k| reps[*k]).collect();
    let (branch, tags, l) = (d[4] == 1, d[5] == 1, vec![if d[6] == 0 { Good } else { Body }]);
    if !branch && r[1] != Fine || !tags && r[2] != Fine || !branch && !tags && r[0] != Fine { return; }
    rec.case(format!("provider {:?}{}{}, results {:?}, {:?}", r[0], if branch { format!(", branch {:?}", r[1]) } else { String::new() }, if tags { format!(", tag {:?}", r[2]) } else { String::new() }, r[3], l)); rec.state(&i); rec.trace();
    let host = provider(vec![("".into(), l.clone())]);
    let doc = document(&l, &|_| true, "", Value::Null);
    let b = broker(|name| { let mut m = resources(name, &[(false, doc.clone())]); m.get_mut("GET /provider").unwrap().0 = r[0]; m.insert("PUT /branches/b/versions/1.0".into(), (r[1], json!({}))); m.insert("PUT /versions/1.0/tags/t".into(), (r[2], json!({}))); m.insert("PUT /versions/1.0/tags/u".into(), (Fine, json!({}))); m.get_mut("POST /results/0").unwrap().0 = r[3]; m });
    let o = PublishOptions { provider_branch: if branch { Some("b".into()) } else { None }, provider_tags: if tags { vec!["t".into(), "u".into()] } else { vec![] }, ..options() };
    let out = rec.no_panic("panic", || verify(&crate::c_verify::info(&host), vec![dynamic_source(&b.name)], Some(&o), None));
    if !overall(rec, out, d[6] == 0) { return; }
    let made: Vec<String> = b.calls().iter().filter(|c| is_write(c)).map(key).collect();
    rec.steps(made.len() as u64);
    let mut want: Vec<String> = vec![];
    let mut add = |what: &str, r: Rep| for _ in 0..r.sends() { want.push(what.to_string()) };
    if branch { add("PUT /branches/b/versions/1.0", r[1]); }
    if tags { add("PUT /versions/1.0/tags/t", r[2]); add("PUT /versions/1.0/tags/u", Fine); }
    add("POST /results/0", r[3]);
    let fine = r[0].fine() && (!branch || r[1].fine()) && (!tags || r[2].fine());
    if fine { rec.check(made == want, "published", || format!("expected {:?}, {:?} is sent", want, made)); rec.outcome("complete"); }
    else {
      // what is still sent after something failed is not specified, but nothing is sent that is not asked for or more often
      let mut rest = want.clone();
      let over = made.iter().any(|m| match rest.iter().position(|w| w == m) { Some(p) => { rest.remove(p); false } None => true });
      rec.check(!over, "published", || format!("at most {:?} is to be sent, {:?} is", want, made)); rec.outcome("incomplete");
    }
  });
  const LINKS: &[&str] = &["pb:publish-verification-results", "pb:provider", "pb:version-tag", "pb:branch-version"];
  run.explore("links", "which links the broker has and how it writes them x branch x tags", (4u64).pow(4) * 2 * 2, |i, rec| {
    let d = digits(i, &[4, 4, 4, 4, 2, 2]);
    let (branch, tags) = (d[4] == 1, d[5] == 1);
    rec.case(format!("{:?}{}{}", LINKS.iter().zip(&d).map(|(l, k)| format!("{} {}", l, ["absolute", "a path", "missing", "without address"][*k])).collect::<Vec<_>>(), if branch { ", branch" } else { "" }, if tags { ", tag" } else { "" })); rec.state(&i); rec.trace();
    let host = provider(vec![("".into(), vec![Good])]);
    let b = broker(|name| {
      let u = format!("http://{}", name);
      let paths = ["/results/0", "/provider", "/versions/{version}/tags/{tag}", "/branches/{branch}/versions/{version}"];
      let make = |which: &[usize]| { let mut m = serde_json::Map::new(); for k in which { match d[*k] { 0 => { m.insert(LINKS[*k].into(), json!({"href": format!("{}{}", u, paths[*k])})); } 1 => { m.insert(LINKS[*k].into(), json!({"href": paths[*k]})); } 2 => (), _ => { m.insert(LINKS[*k].into(), json!({"title": "x"})); } } } Value::Object(m) };
      let mut m = resources(name, &[(false, document(&[Good], &|_| true, "", make(&[0, 1])))]);
      m.insert("GET /provider".into(), (Fine, json!({"_links": make(&[2, 3])})));
      for w in ["PUT /branches/b/versions/1.0", "PUT /versions/1.0/tags/t"] { m.insert(w.into(), (Fine, json!({}))); }
      m
    });
    let o = PublishOptions { provider_branch: if branch { Some("b".into()) } else { None }, provider_tags: if tags { vec!["t".into()] } else { vec![] }, ..options() };
    let out = rec.no_panic("panic", || verify(&crate::c_verify::info(&host), vec![dynamic_source(&b.name)], Some(&o), None));
    if !overall(rec, out, true) { return; }
    let made: Vec<String> = b.calls().iter().filter(|c| is_write(c)).map(key).collect();
    let mut want: Vec<&str> = vec![];
    if branch { want.push("PUT /branches/b/versions/1.0"); } if tags { want.push("PUT /versions/1.0/tags/t"); } want.push("POST /results/0");
    let there = |k: usize| d[k] < 2;
    if there(0) && (!(branch || tags) || there(1)) && (!tags || there(2)) && (!branch || there(3)) { rec.check(made == want, "published", || format!("expected {:?}, {:?} is sent", want, made)); rec.outcome("complete"); }
    else { rec.check(made.iter().all(|m| want.contains(&m.as_str())) && made.len() <= want.len(), "published", || format!("at most {:?} is to be sent, {:?} is", want, made)); rec.outcome("incomplete"); if !there(0) { rec.check(!made.iter().any(|m| m.starts_with("POST")), "published", || format!("{:?} is sent", made)); } }
  });
  // sources
  const SOURCES: &[&str] = &["dynamic", "latest", "address with links", "address without links", "webhook", "document", "file"];
  let pacts: Vec<Vec<Fate>> = vec![vec![Good], vec![Body], vec![Good, Status], vec![Pending]];
  run.explore("sources", "source x its two pacts x publishing or not", (SOURCES.len() * pacts.len() * pacts.len() * 2) as u64, |i, rec| {
    let d = digits(i, &[SOURCES.len(), pacts.len(), pacts.len(), 2]);
    let two = [&pacts[d[1]], &pacts[d[2]]];
    let count = if d[0] < 2 { 2 } else { 1 };
    rec.case(format!("{} with {:?}{}", SOURCES[d[0]], &two[..count], if d[3] == 1 { ", published" } else { "" })); rec.state(&i); rec.trace();
    let host = provider(two.iter().enumerate().map(|(n, l)| (format!("P{}-", n), l.to_vec())).collect());
    let docs: Vec<(bool, Value)> = two.iter().enumerate().map(|(n, l)| (false, document(l, &|_| true, &format!("P{}-", n), Value::Null))).collect();
    let b = broker(|name| resources(name, &docs));
    let u = format!("http://{}", b.name);
    let plain = { let v = docs[0].1.clone(); Host::new(move |_, _| net::json(200, &v)) };
    let dir = std::env::temp_dir().join(format!("mcv-publish-{}-{}", std::process::id(), i));
    let source = match d[0] {
      0 => dynamic_source(&b.name), 1 => PactSource::BrokerUrl("p".into(), u.clone(), None, vec![]), 2 => PactSource::URL(format!("{}/pact/0", u), None), 3 => PactSource::URL(format!("http://{}/x", plain.name), None),
      4 => PactSource::WebhookCallbackUrl { pact_url: format!("{}/pact/0", u), broker_url: u.clone(), auth: None },
      5 => { let mut v = docs[0].1.clone(); v["_links"] = result_links(&u, 0); PactSource::String(v.to_string()) }
      _ => { std::fs::create_dir_all(&dir).unwrap(); let f = dir.join("x.json"); std::fs::write(&f, docs[0].1.to_string()).unwrap(); PactSource::File(f.to_string_lossy().to_string()) }
    };
    let o = options();
    let out = rec.no_panic("panic", || verify(&crate::c_verify::info(&host), vec![source], if d[3] == 1 { Some(&o) } else { None }, None));
    let _ = std::fs::remove_dir_all(&dir);
    if !overall(rec, out, !two[..count].iter().any(|l| fails(l))) { return; }
    let sent: Vec<Call> = b.calls().into_iter().filter(is_write).collect();
    let want: Vec<String> = if d[3] == 0 || matches!(d[0], 3 | 5 | 6) { vec![] } else { (0..count).map(|n| format!("POST /results/{}", n)).collect() };
    let got: Vec<String> = sent.iter().map(key).collect();
    rec.check(got == want, "published", || format!("expected {:?}, {:?} is sent", want, got));
    if got == want { for (n, c) in sent.iter().enumerate() { judge(rec, &net::body(c), two[n], &|_| true, &format!("P{}-", n)); } }
    rec.check(plain.calls().iter().all(|c| c.method == "GET"), "published", || "results are sent to an ordinary address".to_string());
  });
}
