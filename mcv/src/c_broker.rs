//! C52: fetching pacts from a broker.
use crate::c_verify::{item, opts, pact_json, subject, verify, Item, Kind, Outcome};
use crate::net::{self, Host, Silent};
use mccore::{digits, seq_at, seq_count, Rec, Run};
use pact_models::http_utils::HttpAuth;
use pact_verifier::pact_broker::{fetch_pacts_dynamically_from_broker, fetch_pacts_from_broker, Link, PactBrokerError, PactVerificationContext};
use pact_verifier::{ConsumerVersionSelector, FilterInfo, PactSource, ProviderInfo, ProviderTransport, PublishOptions};
use reqwest::{Call, Reply};
use serde_json::{json, Value};
use std::collections::HashMap;
use std::sync::{Arc, Mutex};

/// How a resource of the broker answers.
#[derive(Clone, Copy, PartialEq, Debug, Hash)]
pub enum Rep { Fine, S404, S500, Once, Twice, NoConn, Cut, Html, BadJson, S400, S401, NoPact, S429 }
use Rep::*;
pub const REPS: [Rep; 13] = [Fine, S404, S500, Once, Twice, NoConn, Cut, Html, BadJson, S400, S401, NoPact, S429];
impl Rep {
  pub fn reply(self, n: usize, v: &Value) -> Reply {
    let r = |status: u16, ct: &str, body: String| Reply::Response { status, headers: vec![("content-type".to_string(), ct.to_string())], body: body.into_bytes() };
    match self {
      Fine => r(200, "application/hal+json;charset=utf-8", v.to_string()), S404 => r(404, "application/json", "{}".into()), S500 => r(500, "text/plain", "".into()),
      Once => if n == 0 { r(503, "text/plain", "".into()) } else { r(200, "application/json", v.to_string()) }, Twice => if n < 2 { r(500, "application/json", "{}".into()) } else { r(201, "application/hal+json", v.to_string()) },
      NoConn => Reply::Refused, Cut => Reply::Broken { status: 200, headers: vec![("content-type".into(), "application/hal+json".into())] },
      Html => r(200, "text/html", v.to_string()), BadJson => r(200, "application/hal+json", "{\"_links\":".into()),
      S400 => r(400, "application/json", json!({"errors": {"a": ["b"]}}).to_string()), S401 => r(401, "text/plain", "".into()), S429 => r(429, "text/plain", "".into()), NoPact => r(200, "application/hal+json", "[]".into()),
    }
  }
  /// Requests made (at most three) and whether the resource is obtained.
  pub fn sends(self) -> usize { match self { Once => 2, Twice | S500 => 3, _ => 1 } }
  pub fn fine(self) -> bool { matches!(self, Fine | Once | Twice) }
}
/// A broker: for every method and path (with query) how it answers and with what.
pub fn broker(resources: impl Fn(&str) -> HashMap<String, (Rep, Value)>) -> Host {
  // the name is only known afterwards
  let table: Arc<Mutex<HashMap<String, (Rep, Value)>>> = Default::default(); let t = table.clone();
  let counts: Mutex<HashMap<String, usize>> = Default::default();
  let h = Host::new(move |c, _| {
    let k = key(c);
    let n = { let mut m = counts.lock().unwrap(); let e = m.entry(k.clone()).or_insert(0); *e += 1; *e - 1 };
    match t.lock().unwrap().get(&k) { Some((r, v)) => r.reply(n, v), None => Reply::Response { status: 404, headers: vec![("content-type".into(), "application/json".into())], body: b"{\"error\":\"unknown\"}".to_vec() } }
  });
  *table.lock().unwrap() = resources(&h.name);
  h
}
pub fn key(c: &Call) -> String { format!("{} {}{}", c.method, c.url.path(), c.url.query().map(|q| format!("?{}", q)).unwrap_or_default()) }
fn href(s: impl Into<String>) -> Value { json!({"href": s.into()}) }
/// How a link is written.
#[derive(Clone, Copy, PartialEq, Debug, Hash)]
enum Form { Abs, Path, Other, Query, Template, Encoded, Title, Under }
use Form::*;
const FORMS: [Form; 8] = [Abs, Path, Other, Query, Template, Encoded, Title, Under];
/// A link of the form to the resource, and the path (and query) it leads to.
fn link(f: Form, host: &str, ctx: &str, what: &str, provider: (&str, &str)) -> (Value, String) {
  match f {
    Abs => (href(format!("http://{}{}/{}", host, ctx, what)), format!("{}/{}", ctx, what)),
    Path => (href(format!("{}/{}", ctx, what)), format!("{}/{}", ctx, what)),
    Other => (href(format!("https://elsewhere.test:81{}/{}", ctx, what)), format!("{}/{}", ctx, what)),
    Query => (href(format!("http://{}{}/{}?v=1&w=a%20b", host, ctx, what)), format!("{}/{}?v=1&w=a%20b", ctx, what)),
    Template => (json!({"href": format!("http://{}{}/{{provider}}/{}", host, ctx, what), "templated": true, "title": "x"}), format!("{}/{}/{}", ctx, provider.1, what)),
    Encoded => (href(format!("http://{}{}/a%2Fb%20%7Bc%7D/{}", host, ctx, what)), format!("{}/a%2Fb%20%7Bc%7D/{}", ctx, what)),
    Title => (json!({"href": format!("http://{}{}/{}", host, ctx, what), "title": "a title", "templated": false}), format!("{}/{}", ctx, what)),
    Under => (href(format!("http://{}{}x/{}", host, ctx, what)), format!("{}x/{}", ctx, what)),
  }
}
fn pact(n: usize, provider: &str, extra: Value) -> Value {
  let mut d = pact_json(&[item(Kind::Http4, Outcome::Good)], &format!("c{}", n), &format!("P{}-", n));
  d["provider"]["name"] = json!(provider); d["_links"] = extra; d
}
type Fetched = Vec<Result<(String, Option<PactVerificationContext>, Vec<Link>), (bool, String)>>;
fn latest(host: &str, ctx: &str, provider: &str, auth: Option<HttpAuth>) -> Result<Fetched, (bool, String)> {
  let err = |e: anyhow::Error| (matches!(e.downcast_ref::<PactBrokerError>(), Some(PactBrokerError::NotFound(_))), format!("{:#}", e));
  net::block_on(fetch_pacts_from_broker(&format!("http://{}{}", host, ctx), provider, auth)).map_err(err).map(|l| l.into_iter().map(|r| r.map(|(p, c, l)| (p.consumer().name.clone(), c, l)).map_err(err)).collect())
}
fn dynamic(host: &str, ctx: &str, provider: &str, auth: Option<HttpAuth>) -> Result<Fetched, (bool, String)> {
  let err = |e: anyhow::Error| (matches!(e.downcast_ref::<PactBrokerError>(), Some(PactBrokerError::NotFound(_))), format!("{:#}", e));
  net::block_on(fetch_pacts_dynamically_from_broker(&format!("http://{}{}", host, ctx), provider.into(), true, None, vec![], None, vec![], auth)).map_err(err).map(|l| l.into_iter().map(|r| r.map(|(p, c, l)| (p.consumer().name.clone(), c, l)).map_err(|e| (matches!(e, PactBrokerError::NotFound(_)), e.to_string()))).collect())
}
fn check_calls(rec: &mut Rec, h: &Host, want: &[String]) {
  let made: Vec<String> = h.calls().iter().map(key).collect();
  rec.check(made == want, "requests", || format!("expected {:?}, made {:?}", want, made));
  rec.steps(made.len() as u64);
}
fn times(l: &mut Vec<String>, what: &str, r: Rep) { for _ in 0..r.sends() { l.push(what.into()); } }

pub fn c52(run: &Run) {
  std::env::set_var("PACT_DO_NOT_TRACK", "true");
  let _quiet = Silent::new();
  let deep = if run.thorough { 4 } else { 3 };
  // what happens when resources fail: direct calls
  run.explore("pacts", "lists of pacts of the broker x how each of them is answered x old and new interface", (seq_count(REPS.len(), deep) - 1) * 2, |i, rec| {
    let (new, reps): (bool, Vec<Rep>) = (i % 2 == 1, seq_at(i / 2 + 1, REPS.len()).iter().map(|k| REPS[*k]).collect());
    rec.case(format!("{}{:?}", if new { "new, pacts " } else { "pacts " }, reps)); rec.state(&i); rec.trace();
    fetch(rec, new, [Fine; 3], &reps);
  });
  run.explore("resources", "how the index and the lists of pacts are answered x how two pacts are answered", (REPS.len().pow(3) * 2 * 4) as u64, |i, rec| {
    let d = digits(i, &[REPS.len(), REPS.len(), REPS.len(), 2, 4]);
    if d[3] == 0 && d[2] != 0 { rec.case(String::new()); return; }
    let r = [REPS[d[0]], REPS[d[1]], REPS[d[2]]];
    let pacts: &[Rep] = [&[][..], &[Fine], &[S404, Fine], &[Fine, S500]][d[4]];
    rec.case(format!("{}{:?}, pacts {:?}", if d[3] == 1 { "new, " } else { "" }, r, pacts)); rec.state(&i); rec.trace();
    fetch(rec, d[3] == 1, r, pacts);
  });
  links(run); lists(run); overall(run); body(run); notices(run);
}
/// Fetches the pacts of a broker whose resources answer like this.
fn fetch(rec: &mut Rec, new: bool, res: [Rep; 3], reps: &[Rep]) {
  let rs: Vec<Rep> = reps.to_vec();
  let h = broker(|name| {
    let u = |p: &str| format!("http://{}{}", name, p);
    let mut m: HashMap<String, (Rep, Value)> = HashMap::new();
    m.insert("GET /".into(), (res[0], json!({"_links": {"pb:provider-pacts-for-verification": {"href": u("/pfv/{provider}"), "templated": true}, "pb:latest-provider-pacts": {"href": u("/latest/{provider}"), "templated": true}}})));
    m.insert("GET /latest/p".into(), (res[1], json!({"_links": {"pacts": (0..rs.len()).map(|n| href(u(&format!("/pact/{}", n)))).collect::<Vec<_>>()}})));
    m.insert("GET /pfv/p".into(), (res[1], json!({"_links": {"self": href(u("/pfv/p/post"))}})));
    m.insert("POST /pfv/p/post".into(), (res[2], json!({"_embedded": {"pacts": (0..rs.len()).map(|n| json!({"shortDescription": format!("d{}", n), "verificationProperties": {"pending": n % 2 == 1, "notices": [{"when": "x", "text": format!("t{}", n)}]}, "_links": {"self": href(u(&format!("/pact/{}", n)))}})).collect::<Vec<_>>()}})));
    for (n, r) in rs.iter().enumerate() { m.insert(format!("GET /pact/{}", n), (*r, pact(n, "p", json!({"pb:publish-verification-results": href(format!("/results/{}", n)), "self": {"href": "x", "title": "T", "templated": true}})))); }
    m
  });
  let Some(got) = rec.no_panic("panic", || if new { dynamic(&h.name, "", "p", None) } else { latest(&h.name, "", "p", None) }) else { return };
  let mut calls = vec![]; times(&mut calls, "GET /", res[0]);
  let mut stop: Option<Rep> = if res[0].fine() { None } else { Some(res[0]) };
  let list = if new { "GET /pfv/p" } else { "GET /latest/p" };
  if stop.is_none() { times(&mut calls, list, res[1]); if !res[1].fine() { stop = Some(res[1]); } }
  if new && stop.is_none() { times(&mut calls, "POST /pfv/p/post", res[2]); if !res[2].fine() { stop = Some(res[2]); } }
  let none = new && stop.is_none() && reps.is_empty();
  match &got {
    Err((missing, e)) => {
      rec.outcome("no list");
      rec.check(stop.is_some() || none, "failure", || format!("fails with {}", e));
      // that there are no pacts is only said when the broker says so
      rec.check(!*missing || none || stop == Some(S404), "missing", || format!("{:?} is reported as there being no pacts: {}", stop, e));
      if none || (stop == Some(S404) && res[0].fine()) { rec.check(*missing, "missing", || format!("there are no pacts, which is reported as {}", e)); }
    }
    Ok(list) => {
      if stop.is_some() || none { rec.fail("failure", format!("{:?} gives {} pacts", stop, list.len())); return; }
      rec.check(list.len() == reps.len(), "number of pacts", || format!("{} pacts instead of {}", list.len(), reps.len()));
      for (n, (r, g)) in reps.iter().zip(list).enumerate() {
        times(&mut calls, &format!("GET /pact/{}", n), *r);
        match g {
          Ok((c, ctx, links)) => {
            rec.outcome("pact");
            rec.check(r.fine() && *c == format!("c{}", n), "pact", || format!("pact {} ({:?}) is read as that of {}", n, r, c));
            let mut l: Vec<_> = links.iter().map(|l| (l.name.as_str(), l.href.as_deref(), l.templated, l.title.as_deref())).collect(); l.sort();
            let result = format!("/results/{}", n);
            rec.check(l == [("pb:publish-verification-results", Some(result.as_str()), false, None), ("self", Some("x"), true, Some("T"))], "links", || format!("the links of pact {} are {:?}", n, l));
            let c = ctx.as_ref().map(|c| (c.short_description.clone(), c.verification_properties.pending, c.verification_properties.notices.clone()));
            let want = if new { Some((format!("d{}", n), n % 2 == 1, vec![HashMap::from([("when".to_string(), "x".to_string()), ("text".to_string(), format!("t{}", n))])])) } else { None };
            rec.check(c == want, "context", || format!("the context of pact {} is {:?}", n, c));
          }
          Err((_, e)) => { rec.outcome("pact not loaded"); rec.check(!r.fine(), "pact", || format!("pact {} ({:?}) fails with {}", n, r, e)); }
        }
      }
    }
  }
  check_calls(rec, &h, &calls);
}
/// Ways to write links, base addresses, credentials, provider names.
fn links(run: &Run) {
  let ctxs = ["", "/", "/ctx", "/ctx/", "/a/b%20c"];
  let providers = [("p", "p"), ("my provider/1?", "my%20provider%2F1%3F"), ("ü{provider}&x=1", "%C3%BC%7Bprovider%7D%26x%3D1")];
  let auths = [None, Some(HttpAuth::User("u".into(), Some("pw:1".into()))), Some(HttpAuth::User("u".into(), None)), Some(HttpAuth::Token("t0k".into())), Some(HttpAuth::None)];
  let want_auth = [None, Some("Basic dTpwdzox"), Some("Basic dTo="), Some("Bearer t0k"), None];
  run.explore("links", "form of the link to the list x form of the links to the pacts x base address x provider name x credentials x old and new interface", (8 * 8 * 5 * 3 * 5 * 2) as u64, |i, rec| {
    let d = digits(i, &[8, 8, 5, 3, 5, 2]);
    let (f, g, ctx, p, new) = (FORMS[d[0]], FORMS[d[1]], ctxs[d[2]], providers[d[3]], d[5] == 1);
    rec.case(format!("{}list as {:?}, pacts as {:?}, broker at {:?}, provider {:?}, credentials {:?}", if new { "new, " } else { "" }, f, g, ctx, p.0, auths[d[4]].as_ref().map(|a| a.to_string()))); rec.state(&i); rec.trace();
    if f == Under && ctx.trim_end_matches('/').is_empty() || g == Under && ctx.trim_end_matches('/').is_empty() { return; }
    let c = ctx.trim_end_matches('/'); let base = if ctx.is_empty() { "/" } else { ctx };
    let paths: Mutex<Vec<String>> = Mutex::new(vec![]);
    let h = broker(|name| {
      let mut m = HashMap::new();
      let (l, lp) = link(f, name, c, "list", p);
      let (post, postp) = link(if f == Template { Abs } else { f }, name, c, "post", p);
      let two: Vec<(Value, String)> = (0..2).map(|n| link(g, name, c, &format!("pact/{}", n), p)).collect();
      m.insert(format!("GET {}", base), (Fine, json!({"_links": {"pb:provider-pacts-for-verification": l, "pb:latest-provider-pacts": l}})));
      m.insert(format!("GET {}", lp), (Fine, json!({"_links": {"self": post, "pacts": two.iter().map(|t| &t.0).collect::<Vec<_>>()}})));
      m.insert(format!("POST {}", postp), (Fine, json!({"_embedded": {"pacts": two.iter().map(|t| json!({"shortDescription": "", "_links": {"self": t.0}})).collect::<Vec<_>>()}})));
      for (n, t) in two.iter().enumerate() { m.insert(format!("GET {}", t.1), (Fine, pact(n, "p", json!({})))); }
      let mut w = paths.lock().unwrap();
      w.push(format!("GET {}", base)); w.push(format!("GET {}", lp)); if new { w.push(format!("POST {}", postp)); } for t in &two { w.push(format!("GET {}", t.1)); }
      m
    });
    let Some(got) = rec.no_panic("panic", || if new { dynamic(&h.name, ctx, p.0, auths[d[4]].clone()) } else { latest(&h.name, ctx, p.0, auths[d[4]].clone()) }) else { return };
    check_calls(rec, &h, &paths.lock().unwrap());
    match got {
      Err((_, e)) => rec.fail("links", format!("fails with {}", e)),
      Ok(l) => { let names: Vec<String> = l.iter().map(|r| match r { Ok(p) => p.0.clone(), Err(e) => e.1.clone() }).collect(); rec.check(names == ["c0", "c1"], "links", || format!("the pacts are {:?}", names)); rec.outcome("fetched"); }
    }
    for c in h.calls() { let a = c.headers.get("authorization").map(|v| v.to_str().unwrap().to_string()); rec.check(a.as_deref() == want_auth[d[4]], "credentials", || format!("{} is sent with {:?}", key(&c), a)); }
  });
}
/// The lists of pacts as documents: with parts missing or of unexpected form.
fn lists(run: &Run) {
  let good = |u: &str, n: usize| json!({"shortDescription": format!("d{}", n), "verificationProperties": {"pending": true, "notices": []}, "_links": {"self": href(format!("{}/pact/{}", u, n))}});
  // entries of the new list: how written, whether the pact can be fetched (None: the list as a whole may be refused)
  let entries: Vec<(&str, Box<dyn Fn(&str, usize) -> Value + Sync>, Option<bool>)> = vec![
    ("complete", Box::new(move |u, n| good(u, n)), Some(true)),
    ("no properties", Box::new(move |u, n| { let mut v = good(u, n); v.as_object_mut().unwrap().remove("verificationProperties"); v }), Some(true)),
    ("no notices", Box::new(move |u, n| { let mut v = good(u, n); v["verificationProperties"] = json!({"pending": true}); v }), Some(true)),
    ("not pending", Box::new(move |u, n| { let mut v = good(u, n); v["verificationProperties"] = json!({"notices": [{"text": "x"}]}); v }), Some(true)),
    ("further members", Box::new(move |u, n| { let mut v = good(u, n); v["more"] = json!([1]); v["verificationProperties"]["more"] = json!(true); v["_links"]["other"] = json!({"href": "x", "name": "y"}); v["_links"]["self"]["name"] = json!("N"); v }), Some(true)),
    ("no link", Box::new(move |u, n| { let mut v = good(u, n); v["_links"] = json!({}); v }), None),
    ("no address", Box::new(move |u, n| { let mut v = good(u, n); v["_links"]["self"] = json!({"title": "t"}); v }), Some(false)),
    ("no links", Box::new(move |u, n| { let mut v = good(u, n); v.as_object_mut().unwrap().remove("_links"); v }), None),
    ("a text", Box::new(|_, _| json!("x")), None),
    ("wrong notices", Box::new(move |u, n| { let mut v = good(u, n); v["verificationProperties"]["notices"] = json!("x"); v }), None),
  ];
  let n = entries.len();
  run.explore("entries", "lists of pacts for verification whose entries lack parts or have parts of an unexpected form", seq_count(n, if run.thorough { 3 } else { 2 }), |i, rec| {
    let l = seq_at(i, n);
    rec.case(format!("{:?}", l.iter().map(|k| entries[*k].0).collect::<Vec<_>>())); rec.state(&i); rec.trace();
    let h = broker(|name| {
      let u = format!("http://{}", name);
      let mut m = HashMap::new();
      m.insert("GET /".to_string(), (Fine, json!({"_links": {"pb:provider-pacts-for-verification": href("/pfv")}})));
      m.insert("GET /pfv".to_string(), (Fine, json!({"_links": {"self": href("/pfv")}})));
      m.insert("POST /pfv".to_string(), (Fine, json!({"_embedded": {"pacts": l.iter().enumerate().map(|(n, k)| entries[*k].1(&u, n)).collect::<Vec<_>>()}})));
      for n in 0..l.len() { m.insert(format!("GET /pact/{}", n), (Fine, pact(n, "p", json!({})))); }
      m
    });
    let Some(got) = rec.no_panic("panic", || dynamic(&h.name, "", "p", None)) else { return };
    match got {
      Err((missing, e)) => {
        rec.outcome("no list");
        rec.check(l.is_empty() || l.iter().any(|k| entries[*k].2.is_none()), "failure", || format!("fails with {}", e));
        rec.check(missing == l.is_empty(), "missing", || format!("the list of {} pacts is reported as {}", l.len(), e));
      }
      Ok(list) => {
        rec.check(list.len() == l.len(), "number of pacts", || format!("{} pacts instead of {}", list.len(), l.len()));
        for (n, (k, g)) in l.iter().zip(&list).enumerate() {
          match g {
            Ok((c, ctx, _)) => { rec.outcome("pact"); rec.check(*c == format!("c{}", n), "pact", || format!("pact {} is that of {}", n, c));
              rec.check(ctx.as_ref().map(|c| c.verification_properties.pending) == Some(![1, 3].contains(k)), "context", || format!("the context of pact {} is {:?}", n, ctx)); }
            Err((_, e)) => { rec.outcome("pact not loaded"); rec.check(entries[*k].2 != Some(true), "pact", || format!("pact {} fails with {}", n, e)); }
          }
        }
      }
    }
    rec.steps(h.calls().len() as u64);
  });
  // documents in place of the index and the list
  let docs = [json!({}), json!([]), json!("x"), json!(null), json!({"_links": {}}), json!({"_links": []}), json!({"_links": {"self": "x", "pacts": "x", "pb:latest-provider-pacts": "x", "pb:provider-pacts-for-verification": []}}), json!({"_links": {"self": {}, "pacts": {}, "pb:latest-provider-pacts": {}, "pb:provider-pacts-for-verification": {"templated": true}}}), json!({"_embedded": {}}), json!({"_embedded": {"pacts": {}}}), json!({"_links": {"pacts": [{"title": "t"}, {"href": "/pact/0"}], "self": {"href": "/post"}, "pb:latest-provider-pacts": {"href": "/list"}, "pb:provider-pacts-for-verification": {"HREF": "/list"}}}), json!({"_links": {"pacts": ["/pact/0", {"href": "http://[", "templated": false}], "self": {"href": "/post"}, "pb:latest-provider-pacts": {"href": "/list"}, "pb:provider-pacts-for-verification": {"href": "/list"}}}), json!({"_embedded": {"pacts": [{"shortDescription": "d", "_links": {"self": {"href": "/pact/0"}}}]}})];
  let k = docs.len();
  run.explore("documents", "documents in place of the index, the list and the answer to the request for pacts", (k * k * k * 2) as u64, |i, rec| {
    let d = digits(i, &[k, k, k, 2]);
    let new = d[3] == 1;
    rec.case(format!("{}index {}, list {}, answer {}", if new { "new, " } else { "" }, docs[d[0]], docs[d[1]], docs[d[2]])); rec.state(&i); rec.trace();
    let h = broker(|_| {
      let mut m = HashMap::new();
      m.insert("GET /".to_string(), (Fine, docs[d[0]].clone())); m.insert("GET /list".to_string(), (Fine, docs[d[1]].clone())); m.insert("POST /post".to_string(), (Fine, docs[d[2]].clone()));
      m.insert("GET /pact/0".to_string(), (Fine, pact(0, "p", json!({}))));
      m
    });
    let Some(got) = rec.no_panic("panic", || if new { dynamic(&h.name, "", "p", None) } else { latest(&h.name, "", "p", None) }) else { return };
    rec.steps(h.calls().len() as u64);
    let index = [10, 11].contains(&d[0]);
    let list = index && [10, 11].contains(&d[1]);
    let expect: Option<usize> = if !list { None } else if new { if d[2] == 12 { Some(1) } else { None } } else { Some(2) };
    match (&got, expect) {
      (Err((missing, e)), None) => { rec.outcome("refused"); rec.check(!missing, "missing", || format!("reported as there being no pacts: {}", e)); }
      (Ok(l), Some(n)) => { rec.outcome("fetched"); let ok = l.iter().filter(|r| r.is_ok()).count(); rec.check(l.len() == n && ok == 1, "documents", || format!("{:?}", l.iter().map(|r| r.as_ref().map(|p| p.0.clone()).map_err(|e| e.1.clone())).collect::<Vec<_>>())); }
      (Err((_, e)), Some(_)) => rec.fail("documents", format!("fails with {}", e)),
      (Ok(l), None) => rec.fail("documents", format!("gives {:?}", l.iter().map(|r| r.as_ref().map(|p| p.0.clone()).map_err(|e| e.1.clone())).collect::<Vec<_>>())),
    }
  });
}
pub fn info(host: &Host, provider: &str) -> ProviderInfo {
  let t = |n: &str| ProviderTransport { transport: n.into(), port: None, path: None, scheme: None };
  #[allow(deprecated)]
  ProviderInfo { name: provider.into(), host: host.name.clone(), port: None, path: "".into(), transports: vec![t("http"), t("message")], ..Default::default() }
}
pub fn dynamic_source(host: &str) -> PactSource { PactSource::BrokerWithDynamicConfiguration { provider_name: "p".into(), broker_url: format!("http://{}", host), enable_pending: true, include_wip_pacts_since: None, provider_tags: vec![], provider_branch: None, selectors: vec![], auth: None, links: vec![] } }
fn answer(c: &Call, bad: &dyn Fn(&str) -> bool) -> Reply { Reply::Response { status: 200, headers: vec![("content-type".into(), "application/json".into())], body: if bad(&subject(c)) { br#"{"x":2}"#.to_vec() } else { br#"{"x":1}"#.to_vec() } } }
/// A pact that cannot be fetched fails the verification.
fn overall(run: &Run) {
  run.explore("overall", "how the resources and pacts are answered x missing pacts being an error: the result of the verification", (REPS.len().pow(2) * 4 * 2 * 2) as u64, |i, rec| {
    let d = digits(i, &[REPS.len(), REPS.len(), 4, 2, 2]);
    let (new, err) = (d[3] == 1, d[4] == 1);
    let res = [Fine, REPS[d[0]], Fine]; let reps: Vec<Rep> = [vec![], vec![REPS[d[1]]], vec![Fine, REPS[d[1]]], vec![REPS[d[1]], Fine]][d[2]].clone();
    rec.case(format!("{}list {:?}, pacts {:?}, missing pacts are {} error", if new { "new, " } else { "" }, res[1], reps, if err { "an" } else { "no" })); rec.state(&i); rec.trace();
    let h = broker(|name| {
      let u = |p: &str| format!("http://{}{}", name, p);
      let mut m: HashMap<String, (Rep, Value)> = HashMap::new();
      m.insert("GET /".into(), (Fine, json!({"_links": {"pb:provider-pacts-for-verification": href(u("/pfv")), "pb:latest-provider-pacts": href(u("/latest"))}})));
      m.insert("GET /latest".into(), (res[1], json!({"_links": {"pacts": (0..reps.len()).map(|n| href(u(&format!("/pact/{}", n)))).collect::<Vec<_>>()}})));
      m.insert("GET /pfv".into(), (Fine, json!({"_links": {"self": href(u("/pfv"))}})));
      m.insert("POST /pfv".into(), (res[1], json!({"_embedded": {"pacts": (0..reps.len()).map(|n| json!({"shortDescription": "", "_links": {"self": href(u(&format!("/pact/{}", n)))}})).collect::<Vec<_>>()}})));
      for (n, r) in reps.iter().enumerate() { m.insert(format!("GET /pact/{}", n), (*r, pact(n, "p", json!({})))); }
      m
    });
    let p = Host::new(|c, _| answer(c, &|_| false));
    let src = if new { dynamic_source(&h.name) } else { PactSource::BrokerUrl("p".into(), format!("http://{}", h.name), None, vec![]) };
    let o = pact_verifier::VerificationOptions { no_pacts_is_error: err, ..opts() };
    let Some(Ok(got)) = rec.no_panic("panic", || verify(&info(&p, "p"), vec![src], &FilterInfo::None, &[], &o, None)) else { rec.fail("verification", "fails"); return };
    rec.steps(h.calls().len() as u64);
    let failed = reps.iter().filter(|r| !r.fine()).count();
    let missing = res[1] == S404 || new && res[1].fine() && reps.is_empty();
    let ok = if missing { !err } else { res[1].fine() && failed == 0 };
    rec.outcome(if got.result { "passes" } else { "fails" });
    rec.check(got.result == ok, "overall result", || format!("the result is {} with the errors {:?}", got.result, got.errors));
    let n = if res[1].fine() { reps.len() - failed } else { 0 };
    rec.check(got.interaction_results.len() == n, "reported interactions", || format!("{} of {} pacts are verified", got.interaction_results.len(), n));
  });
}
/// What the broker is asked for.
fn body(run: &Run) {
  let sel = |f: &dyn Fn(&mut ConsumerVersionSelector)| { let mut s = pact_verifier::selectors::consumer_tags_to_selectors(vec!["x"])[0].clone(); s.tag = None; s.latest = None; f(&mut s); s };
  let selectors: Vec<(ConsumerVersionSelector, Value)> = vec![
    (sel(&|s| { s.tag = Some("t".into()); s.latest = Some(true); }), json!({"tag": "t", "latest": true})), (sel(&|s| { s.consumer = Some("c".into()); s.branch = Some("b".into()); s.fallback_branch = Some("f".into()); }), json!({"consumer": "c", "branch": "b", "fallbackBranch": "f"})),
    (sel(&|s| { s.deployed_or_released = Some(true); s.environment = Some("e".into()); }), json!({"deployedOrReleased": true, "environment": "e"})), (sel(&|s| { s.main_branch = Some(true); s.matching_branch = Some(false); }), json!({"mainBranch": true, "matchingBranch": false})),
    (sel(&|s| { s.deployed = Some(true); s.released = Some(true); s.fallback_tag = Some("ü".into()); }), json!({"deployed": true, "released": true, "fallbackTag": "ü"})), (sel(&|_| {}), json!({})),
  ];
  let tags: [&[&str]; 3] = [&[], &["a"], &["b", "a b"]];
  run.explore("body", "pending x work in progress x tags x branch x lists of up to two selectors", 2 * 3 * 3 * 2 * seq_count(selectors.len(), 2), |i, rec| {
    let d = digits(i % 36, &[2, 3, 3, 2]); let l = seq_at(i / 36, selectors.len());
    let wip = [None, Some("2024-01-01"), Some("")][d[1]].map(|s: &str| s.to_string()); let branch = [None, Some("feat/x".to_string())][d[3]].clone();
    let mut want = json!({"includePendingStatus": d[0] == 1, "consumerVersionSelectors": l.iter().map(|k| selectors[*k].1.clone()).collect::<Vec<_>>()});
    if let Some(w) = &wip { want["includeWipPactsSince"] = json!(w); }
    if let Some(b) = &branch { want["providerVersionBranch"] = json!(b); }
    if !tags[d[2]].is_empty() { want["providerVersionTags"] = json!(tags[d[2]]); }
    rec.case(want.to_string()); rec.state(&i); rec.trace(); rec.steps(1);
    let h = broker(|_| {
      let mut m = HashMap::new();
      m.insert("GET /".to_string(), (Fine, json!({"_links": {"pb:provider-pacts-for-verification": href("/pfv")}})));
      m.insert("GET /pfv".to_string(), (Fine, json!({"_links": {"self": href("/pfv")}})));
      m.insert("POST /pfv".to_string(), (Fine, json!({"_embedded": {"pacts": []}})));
      m
    });
    let src = PactSource::BrokerWithDynamicConfiguration { provider_name: "p".into(), broker_url: format!("http://{}", h.name), enable_pending: d[0] == 1, include_wip_pacts_since: wip, provider_tags: tags[d[2]].iter().map(|s| s.to_string()).collect(), provider_branch: branch, selectors: l.iter().map(|k| selectors[*k].0.clone()).collect(), auth: None, links: vec![] };
    let _ = rec.no_panic("panic", || verify(&info(&h, "p"), vec![src], &FilterInfo::None, &[], &opts(), None));
    let sent: Vec<Value> = h.calls().iter().filter(|c| c.method == "POST").map(net::body).collect();
    rec.eq("body", &vec![want], &sent); rec.outcome("asked");
  });
}
/// The notices of a pact are shown at their stage, according to the outcome of that pact.
fn notices(run: &Run) {
  let stages = ["before_verification", "after_verification:success_true_published_true", "after_verification:success_true_published_false", "after_verification:success_false_published_true", "after_verification:success_false_published_false"];
  let sorts: Vec<(&str, bool, Vec<bool>)> = vec![("good", false, vec![true]), ("bad", false, vec![false]), ("pending", true, vec![false]), ("good pending", true, vec![true]), ("mixed", false, vec![true, false]), ("empty", false, vec![])];
  let n = sorts.len();
  run.explore("notices", "lists of pacts (outcome, pending) x publishing: the notices shown", (seq_count(n, 3)) * 2, |i, rec| {
    let (publish, l) = (i % 2 == 1, seq_at(i / 2, n));
    rec.case(format!("{:?}{}", l.iter().map(|k| sorts[*k].0).collect::<Vec<_>>(), if publish { ", published" } else { "" })); rec.state(&i); rec.trace();
    if l.is_empty() { return; }
    let h = broker(|name| {
      let u = |p: &str| format!("http://{}{}", name, p);
      let mut m: HashMap<String, (Rep, Value)> = HashMap::new();
      m.insert("GET /".into(), (Fine, json!({"_links": {"pb:provider-pacts-for-verification": href(u("/pfv"))}})));
      m.insert("GET /pfv".into(), (Fine, json!({"_links": {"self": href(u("/pfv"))}})));
      m.insert("POST /pfv".into(), (Fine, json!({"_embedded": {"pacts": l.iter().enumerate().map(|(n, k)| json!({"shortDescription": "", "verificationProperties": {"pending": sorts[*k].1, "notices": stages.iter().map(|s| json!({"when": s, "text": format!("NOTICE {} {}", n, s)})).collect::<Vec<_>>()}, "_links": {"self": href(u(&format!("/pact/{}", n)))}})).collect::<Vec<_>>()}})));
      for (n, k) in l.iter().enumerate() {
        let items: Vec<Item> = sorts[*k].2.iter().map(|g| item(Kind::Http4, if *g { Outcome::Good } else { Outcome::Bad })).collect();
        let mut d = pact_json(&items, "c", &format!("{}{}-", if sorts[*k].2.len() == 2 { "m" } else if sorts[*k].2 == [false] { "b" } else { "g" }, n)); d["_links"] = json!({"pb:publish-verification-results": href(u(&format!("/results/{}", n)))});
        m.insert(format!("GET /pact/{}", n), (Fine, d)); m.insert(format!("POST /results/{}", n), (Fine, json!({})));
      }
      m
    });
    let p = Host::new(|c, _| answer(c, &|s| s.starts_with('b') || s.starts_with('m') && s.ends_with("-1")));
    let po = PublishOptions { provider_version: Some("1".into()), ..PublishOptions::default() };
    let Some(Ok(got)) = rec.no_panic("panic", || verify(&info(&p, "p"), vec![dynamic_source(&h.name)], &FilterInfo::None, &[], &opts(), if publish { Some(&po) } else { None })) else { return };
    rec.steps(h.calls().len() as u64 + p.calls().len() as u64);
    let shown: Vec<String> = got.output.iter().filter(|o| o.starts_with("NOTICE")).cloned().collect();
    let mut want = vec![];
    for (n, k) in l.iter().enumerate() {
      want.push(format!("NOTICE {} before_verification", n));
      if !sorts[*k].2.is_empty() { want.push(format!("NOTICE {} after_verification:success_{}_published_{}", n, sorts[*k].2.iter().all(|g| *g), publish)); }
    }
    rec.eq("notices", &want, &shown); rec.outcome(if got.result { "passes" } else { "fails" });
  });
}
