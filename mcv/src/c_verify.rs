//! C50: which interactions are verified and what the overall result is.
use crate::net::{self, Host, Silent};
use mccore::{digits, seq_at, seq_count, space_size, Rec, Run};
use pact_verifier::callback_executors::{HttpRequestProviderStateExecutor};
use pact_verifier::verification_result::VerificationExecutionResult;
use pact_verifier::{verify_provider_async, ConsumerVersionSelector, FilterInfo, MismatchResult, NullRequestFilterExecutor, PactSource, ProviderInfo, ProviderTransport, PublishOptions, VerificationOptions};
use reqwest::{Call, Reply};
use serde_json::{json, Value};
use std::sync::Arc;

#[derive(Clone, Copy, PartialEq, Debug, Hash)]
pub enum Kind { Http3, Message3, Http4, Async, Synch }
pub use Kind::*;
#[derive(Clone, Copy, PartialEq, Debug, Hash)]
pub enum Outcome { Good, Bad, Refused, Broken }
pub use Outcome::*;
#[derive(Clone, Copy, PartialEq, Debug, Hash)]
pub struct Item { pub kind: Kind, pub outcome: Outcome, pub pending: bool, pub name: &'static str, pub states: &'static [&'static str], pub id: bool }
pub fn item(kind: Kind, outcome: Outcome) -> Item { Item { kind, outcome, pending: false, name: "a", states: &[], id: false } }
impl Item {
  pub fn good(&self) -> bool { self.outcome == Good }
  fn v4(&self) -> bool { matches!(self.kind, Http4 | Async | Synch) }
  pub fn show(&self) -> String { format!("{:?} {}{}{}{}", self.kind, self.name, if self.states.is_empty() { String::new() } else { format!(" given {:?}", self.states) }, if self.pending { " pending" } else { "" }, match self.outcome { Good => "", Bad => " (mismatch)", Refused => " (no connection)", Broken => " (broken answer)" }) }
  /// Description of the `n`th interaction; the provider recognises it.
  pub fn description(&self, n: &str) -> String { format!("{} #{}", self.name, n) }
  pub fn json(&self, n: &str) -> Value {
    let mut v = match self.kind {
      Http3 => json!({"request": {"method": "GET", "path": format!("/do/{}", n)}, "response": {"status": 200, "headers": {"Content-Type": "application/json"}, "body": {"x": 1}}}),
      Http4 => json!({"type": "Synchronous/HTTP", "request": {"method": "GET", "path": format!("/do/{}", n)}, "response": {"status": 200, "body": {"contentType": "application/json", "encoded": false, "content": {"x": 1}}}}),
      Message3 => json!({"contents": {"x": 1}, "metaData": {"contentType": "application/json"}}),
      Async => json!({"type": "Asynchronous/Messages", "contents": {"contentType": "application/json", "encoded": false, "content": {"x": 1}}}),
      Synch => json!({"type": "Synchronous/Messages", "request": {"contents": {"contentType": "application/json", "encoded": false, "content": {"q": n}}}, "response": [{"contents": {"contentType": "application/json", "encoded": false, "content": {"x": 1}}}]}),
    };
    let o = v.as_object_mut().unwrap();
    o.insert("description".into(), json!(self.description(n)));
    if !self.states.is_empty() { o.insert("providerStates".into(), self.states.iter().map(|s| json!({"name": s})).collect()); }
    if self.v4() { o.insert("key".into(), json!(format!("key-{}", n))); if self.pending { o.insert("pending".into(), json!(true)); } }
    if self.id { o.insert("_id".into(), json!(format!("id-{}", n))); }
    v
  }
  fn answer(&self) -> Reply {
    let headers = vec![("content-type".to_string(), "application/json".to_string())];
    match self.outcome { Good => Reply::Response { status: 200, headers, body: br#"{"x":1}"#.to_vec() }, Bad => Reply::Response { status: 200, headers, body: br#"{"x":2}"#.to_vec() }, Refused => Reply::Refused, Broken => Reply::Broken { status: 200, headers } }
  }
}
/// All items of a pact are of the same sort (V3 HTTP, V3 messages, V4).
pub fn pact_json(items: &[Item], consumer: &str, tag: &str) -> Value {
  let v4 = items.iter().any(|i| i.v4());
  let msg = items.iter().any(|i| i.kind == Message3);
  json!({"consumer": {"name": consumer}, "provider": {"name": "p"}, "metadata": {"pactSpecification": {"version": if v4 { "4.0" } else { "3.0.0" }}},
    (if msg { "messages" } else { "interactions" }): items.iter().enumerate().map(|(n, i)| i.json(&format!("{}{}", tag, n))).collect::<Vec<_>>()})
}
/// The interaction a request to the provider is about: "<tag><number>".
pub fn subject(c: &Call) -> String {
  match c.url.path().strip_prefix("/do/") { Some(n) => n.to_string(), None => net::body(c)["description"].as_str().and_then(|d| d.split('#').nth(1)).unwrap_or("?").to_string() }
}
pub fn provider(pacts: Vec<(String, Vec<Item>)>) -> Host {
  Host::new(move |c, _| {
    let s = subject(c);
    for (tag, items) in &pacts { for (n, i) in items.iter().enumerate() { if s == format!("{}{}", tag, n) { return i.answer(); } } }
    Reply::Response { status: 404, headers: vec![], body: vec![] }
  })
}
#[allow(deprecated)]
pub fn info(host: &Host) -> ProviderInfo {
  let t = |n: &str| ProviderTransport { transport: n.into(), port: None, path: None, scheme: None };
  ProviderInfo { name: "p".into(), host: host.name.clone(), port: None, path: "".into(), transports: vec![t("http"), t("message")], ..Default::default() }
}
pub type Opts = VerificationOptions<NullRequestFilterExecutor>;
pub fn opts() -> Opts { VerificationOptions { coloured_output: false, ..Default::default() } }

/// The filters, with their own idea of which names and states they select.
fn filters() -> Vec<(FilterInfo, Box<dyn Fn(&Item) -> bool + Sync>)> {
  let st = |i: &Item, f: &dyn Fn(&str) -> bool| i.states.iter().any(|s| f(s));
  vec![
    (FilterInfo::None, Box::new(|_| true)),
    (FilterInfo::Description("a".into()), Box::new(|i| i.name.contains('a'))),
    (FilterInfo::Description("^b #".into()), Box::new(|i| i.name == "b")),
    (FilterInfo::Description("".into()), Box::new(|_| true)),
    (FilterInfo::State("s".into()), Box::new(move |i| st(i, &|s| s.contains('s')))),
    (FilterInfo::State("^t$".into()), Box::new(move |i| st(i, &|s| s == "t"))),
    (FilterInfo::State("".into()), Box::new(|i| i.states.is_empty())),
    (FilterInfo::DescriptionAndState("a".into(), "t".into()), Box::new(move |i| i.name.contains('a') && st(i, &|s| s.contains('t')))),
    (FilterInfo::DescriptionAndState("b".into(), "".into()), Box::new(|i| i.name.contains('b') && i.states.is_empty())),
  ]
}

pub struct Expected { pub results: Vec<(String, String, bool, bool, Item)>, pub errors: usize, pub pending_errors: usize, pub load_errors: usize }
/// Judges the outcome of a whole verification against what was expected of every interaction: (description, key, good, pending, item).
pub fn judge(rec: &mut Rec, got: &VerificationExecutionResult, want: &Expected) {
  let ok = want.errors == 0 && want.load_errors == 0;
  rec.check(got.result == ok, "overall result", || format!("result is {} for {:?}, {} pacts not loaded", got.result, want.results.iter().map(|r| (&r.0, if r.2 { "good" } else { "bad" }, if r.3 { "pending" } else { "" })).collect::<Vec<_>>(), want.load_errors));
  rec.outcome(if got.result { "passed" } else { "failed" });
  let names: Vec<&str> = got.interaction_results.iter().map(|r| r.interaction_description.as_str()).collect();
  let expect: Vec<&str> = want.results.iter().map(|r| r.0.as_str()).collect();
  if names != expect { rec.fail("reported interactions", format!("expected results for {:?}, there are {:?}", expect, names)); return; }
  for (r, w) in got.interaction_results.iter().zip(&want.results) {
    rec.check(r.result.is_ok() == w.2, "interaction result", || format!("{} is reported as {:?}", w.0, r.result));
    rec.check(r.pending == w.3, "pending", || format!("{} is reported with pending = {}", w.0, r.pending));
    let key = if w.4.v4() { Some(format!("key-{}", w.1)) } else { None };
    let id = if w.4.id { Some(format!("id-{}", w.1)) } else { None };
    rec.check(r.interaction_key == key && r.interaction_id == id, "identity", || format!("{} is reported with key {:?} and id {:?}", w.0, r.interaction_key, r.interaction_id));
    match (&r.result, w.4.outcome) {
      (Ok(_), Good) => rec.outcome("good"),
      (Err(MismatchResult::Mismatches { mismatches, interaction_id, .. }), Bad) => { rec.outcome("mismatch"); rec.check(mismatches.len() == 1 && *interaction_id == id, "mismatches", || format!("{:?} {:?}", mismatches, interaction_id)); }
      (Err(MismatchResult::Error(_, interaction_id)), Refused | Broken) => { rec.outcome("error"); rec.check(*interaction_id == id, "mismatches", || format!("the error is for the interaction {:?}", interaction_id)); }
      (other, _) => rec.fail("interaction result", format!("{} gives {:?}", w.0, other)),
    }
  }
  rec.check(got.errors.len() == want.errors + want.load_errors && got.pending_errors.len() == want.pending_errors, "errors", || format!("expected {} + {} errors and {} pending, there are {:?} and {:?}", want.errors, want.load_errors, want.pending_errors, got.errors, got.pending_errors));
  for (list, pending) in [(&got.errors, false), (&got.pending_errors, true)] {
    let wanted: Vec<&str> = want.results.iter().filter(|r| !r.2 && r.3 == pending).map(|r| r.0.as_str()).collect();
    let listed: Vec<&str> = list.iter().map(|e| e.0.as_str()).filter(|e| !e.starts_with("Failed to load pact")).collect();
    rec.check(wanted.len() == listed.len() && wanted.iter().zip(&listed).all(|(w, l)| l.ends_with(w)), "error list", || format!("expected errors (pending = {}) for {:?}, there are {:?}", pending, wanted, listed));
  }
}

pub fn verify(info: &ProviderInfo, sources: Vec<PactSource>, filter: &FilterInfo, consumers: &[String], opts: &Opts, publish: Option<&PublishOptions>) -> anyhow::Result<VerificationExecutionResult> {
  let ex = Arc::new(HttpRequestProviderStateExecutor::default());
  net::block_on(verify_provider_async(info.clone(), sources, filter.clone(), consumers.to_vec(), opts, publish, &ex, None))
}
/// The result is the same whether a pact is given in a document or by one of the other ways to name it.
pub fn c50(run: &Run) {
  std::env::set_var("PACT_DO_NOT_TRACK", "true");
  let _quiet = Silent::new();
  // one pact, filters
  let fs = filters();
  let mut sorts: Vec<Vec<Item>> = vec![vec![], vec![], vec![]];
  for kind in [Http3, Message3, Http4, Async, Synch] { for outcome in [Good, Bad, Refused, Broken] { for pending in [false, true] { for name in ["a", "b", "ab"] { for states in [&[] as &[&str], &["s"], &["t"], &["other", "s"]] {
    let i = Item { kind, outcome, pending, name, states, id: false };
    if pending && !i.v4() { continue; }
    if !run.thorough && (outcome == Broken || states.len() == 2) && (name != "a" || pending) { continue; }
    if !run.thorough && name == "ab" && outcome != Bad { continue; }
    sorts[match kind { Http3 => 0, Message3 => 1, _ => 2 }].push(i);
  } } } } }
  for (s, alphabet) in sorts.iter().enumerate() {
    let len = 1;
    run.explore(&format!("single-{}", ["http", "message", "v4"][s]), "pacts of one interaction (kind, outcome, pending, description, states) x filters", seq_count(alphabet.len(), len) * fs.len() as u64, |i, rec| {
      let (f, items) = (&fs[(i % fs.len() as u64) as usize], seq_at(i / fs.len() as u64, alphabet.len()));
      one(rec, &items.iter().map(|k| alphabet[*k]).collect::<Vec<_>>(), f);
    });
  }
  let mut small: Vec<Item> = vec![];
  for kind in [Http4, Async, Synch] { for outcome in [Good, Bad, Refused] { for pending in [false, true] { for (name, states) in [("a", &[] as &[&str]), ("b", &["s"])] { small.push(Item { kind, outcome, pending, name, states, id: pending }); } } } }
  let pick: Vec<usize> = if run.thorough { (0..fs.len()).collect() } else { vec![0, 1, 4, 6] };
  run.explore("pairs", "V4 pacts of two interactions x filters", (small.len() * small.len() * pick.len()) as u64, |i, rec| {
    let d = digits(i, &[small.len(), small.len(), pick.len()]);
    one(rec, &[small[d[0]], small[d[1]]], &fs[pick[d[2]]]);
  });
  if run.thorough {
    let few: Vec<Item> = small.iter().filter(|i| i.outcome != Refused && i.kind != Synch).cloned().collect();
    run.explore("triples", "V4 pacts of three interactions x filters", (few.len().pow(3) * 3) as u64, |i, rec| {
      let d = digits(i, &[few.len(), few.len(), few.len(), 3]);
      one(rec, &[few[d[0]], few[d[1]], few[d[2]]], &fs[[0, 2, 5][d[3]]]);
    });
  }
  sources(run);
}
fn one(rec: &mut Rec, items: &[Item], f: &(FilterInfo, Box<dyn Fn(&Item) -> bool + Sync>)) {
  rec.case(format!("[{}], filter {:?}", items.iter().map(|i| i.show()).collect::<Vec<_>>().join(", "), f.0));
  rec.state(&items); rec.steps(items.len() as u64); rec.trace();
  let host = provider(vec![("".into(), items.to_vec())]);
  let doc = pact_json(items, "c", "");
  let Some(r) = rec.no_panic("panic", || verify(&info(&host), vec![PactSource::String(doc.to_string())], &f.0, &[], &opts(), None)) else { return };
  let got = match r { Ok(r) => r, Err(e) => { rec.fail("verification", format!("fails with {:#}", e)); return; } };
  let chosen: Vec<(usize, &Item)> = items.iter().enumerate().filter(|(_, i)| f.1(i)).collect();
  let want = Expected {
    results: chosen.iter().map(|(n, i)| (i.description(&n.to_string()), n.to_string(), i.good(), i.pending, **i)).collect(),
    errors: chosen.iter().filter(|(_, i)| !i.good() && !i.pending).count(), pending_errors: chosen.iter().filter(|(_, i)| !i.good() && i.pending).count(), load_errors: 0,
  };
  judge(rec, &got, &want);
  let asked: Vec<String> = host.calls().iter().map(subject).collect();
  let expect: Vec<String> = chosen.iter().map(|(n, _)| n.to_string()).collect();
  rec.check(asked == expect, "requests", || format!("the provider is asked for {:?}, expected {:?}", asked, expect));
  if chosen.is_empty() { rec.outcome("nothing selected"); }
}

/// One of several sources of pacts.
#[derive(Clone, Debug, PartialEq)]
enum Source { Text(&'static str, &'static [Item]), File(&'static [Item]), Url(&'static [Item]), Dir(Vec<(&'static str, &'static str, &'static [Item])>), NoFile, NoDir, Garbage, NoUrl, Broker(Vec<(bool, &'static [Item])>), Old(Vec<&'static [Item]>), BrokerDown }
const G: &[Item] = &[Item { kind: Http4, outcome: Good, pending: false, name: "a", states: &[], id: true }];
const B: &[Item] = &[Item { kind: Http4, outcome: Bad, pending: false, name: "b", states: &[], id: true }];
const P: &[Item] = &[Item { kind: Http4, outcome: Bad, pending: true, name: "a", states: &[], id: true }, Item { kind: Async, outcome: Good, pending: false, name: "b", states: &[], id: false }];
const N: &[Item] = &[];
fn sources(run: &Run) {
  use Source::*;
  let all: Vec<Source> = vec![
    Text("c", G), Text("c", B), Text("c", P), Text("cd", G), Text("C", B), Text("c", N), Source::File(G), Source::File(B), Url(G), Url(B), NoFile, NoDir, Garbage, NoUrl, BrokerDown,
    Dir(vec![]), Dir(vec![("a.json", "p", G), ("b.json", "p", B)]), Dir(vec![("sub/a.json", "p", G), ("b.json", "p", G)]), Dir(vec![("sub/deep/a.json", "p", B)]), Dir(vec![("a.json", "q", B), ("b.json", "p", G)]), Dir(vec![("sub/a.json", "q", B), ("sub/b.json", "p", P)]),
    Broker(vec![]), Broker(vec![(false, G)]), Broker(vec![(false, B)]), Broker(vec![(true, B)]), Broker(vec![(true, B), (false, G)]), Broker(vec![(true, P), (false, P)]), Broker(vec![(true, G), (true, B), (false, B)]),
    Old(vec![]), Old(vec![G]), Old(vec![B, G]),
  ];
  let n = all.len() as u64;
  let pairs = if run.thorough { 1 + n + n * n + n * n * n } else { 1 + n + n * n };
  run.explore("sources", "lists of up to two (three) sources (documents, files, directories, addresses, brokers) x consumer filter x missing pacts being an error", pairs * 4, |i, rec| {
    let (c, e) = (i & 1 == 1, i & 2 == 2);
    let list: Vec<Source> = seq_at(i / 4, all.len()).iter().map(|k| all[*k].clone()).collect();
    rec.case(format!("{:?}{}{}", list, if c { ", consumer c only" } else { "" }, if e { ", missing pacts are no error" } else { "" }));
    rec.state(&i); rec.trace();
    let mut pacts: Vec<(String, Vec<Item>)> = vec![];
    let mut hosts: Vec<Host> = vec![]; let mut dirs: Vec<std::path::PathBuf> = vec![];
    let mut args: Vec<PactSource> = vec![];
    let mut want = Expected { results: vec![], errors: 0, pending_errors: 0, load_errors: 0 };
    let mut expect: Vec<(String, &'static [Item], bool)> = vec![];
    let text = |items: &[Item], consumer: &str, provider: &str, tag: &str| { let mut d = pact_json(items, consumer, tag); d["provider"]["name"] = json!(provider); d };
    for (k, s) in list.iter().enumerate() {
      let tag = |n: usize| format!("{}{}-", (b'A' + k as u8) as char, n);
      match s {
        Text(who, items) => { args.push(PactSource::String(text(items, who, "p", &tag(0)).to_string())); if !c || *who == "c" { expect.push((tag(0), items, false)); } }
        Source::File(items) => { let d = scratch(); dirs.push(d.clone()); let f = d.join("x.json"); std::fs::write(&f, text(items, "c", "p", &tag(0)).to_string()).unwrap(); args.push(PactSource::File(f.to_string_lossy().to_string())); expect.push((tag(0), items, false)); }
        Url(items) => { let t = text(items, "c", "p", &tag(0)); let h = Host::new(move |_, _| net::json(200, &t)); args.push(PactSource::URL(format!("http://{}/x", h.name), None)); hosts.push(h); expect.push((tag(0), items, false)); }
        Dir(files) => {
          let d = scratch(); dirs.push(d.clone()); let mut l = vec![];
          for (n, (name, provider, items)) in files.iter().enumerate() { let f = d.join(name); std::fs::create_dir_all(f.parent().unwrap()).unwrap(); std::fs::write(&f, text(items, "c", provider, &tag(n)).to_string()).unwrap(); if *provider == "p" { l.push((tag(n), *items, false)); } }
          args.push(PactSource::Dir(d.to_string_lossy().to_string())); expect.extend(l);
        }
        NoFile => { args.push(PactSource::File("/nonexistent/pact.json".into())); want.load_errors += 1; }
        NoDir => { args.push(PactSource::Dir("/nonexistent/pacts".into())); want.load_errors += 1; }
        Garbage => { args.push(PactSource::String("{\"consumer\": ".into())); want.load_errors += 1; }
        NoUrl => { args.push(PactSource::URL("http://nowhere.test/x".into(), None)); want.load_errors += 1; }
        BrokerDown => { args.push(PactSource::BrokerUrl("p".into(), "http://nowhere.test".into(), None, vec![])); want.load_errors += 1; }
        Broker(l) => {
          let docs: Vec<(bool, Value)> = l.iter().enumerate().map(|(n, (pending, items))| (*pending, text(items, "c", "p", &tag(n)))).collect();
          let h = broker(docs);
          args.push(PactSource::BrokerWithDynamicConfiguration { provider_name: "p".into(), broker_url: format!("http://{}", h.name), enable_pending: true, include_wip_pacts_since: None, provider_tags: vec![], provider_branch: None, selectors: vec![selector()], auth: None, links: vec![] });
          hosts.push(h);
          if l.is_empty() && !e { want.load_errors += 1; }
          for (n, (pending, items)) in l.iter().enumerate() { expect.push((tag(n), items, *pending)); }
        }
        Old(l) => {
          let h = broker(l.iter().enumerate().map(|(n, items)| (false, text(items, "c", "p", &tag(n)))).collect());
          args.push(PactSource::BrokerUrl("p".into(), format!("http://{}", h.name), None, vec![]));
          hosts.push(h);
          if l.is_empty() && !e { want.load_errors += 1; }
          for (n, items) in l.iter().enumerate() { expect.push((tag(n), items, false)); }
        }
      }
    }
    // the files of a directory come in any order
    for (tag, items, _) in &expect { pacts.push((tag.clone(), items.to_vec())); }
    let host = provider(pacts);
    let o = VerificationOptions { no_pacts_is_error: !e, ..opts() };
    let consumers = if c { vec!["c".to_string()] } else { vec![] };
    let r = rec.no_panic("panic", || verify(&info(&host), args, &FilterInfo::None, &consumers, &o, None));
    for d in dirs { let _ = std::fs::remove_dir_all(&d); }
    let got = match r { None => return, Some(Ok(r)) => r, Some(Err(e)) => { rec.fail("verification", format!("fails with {:#}", e)); return; } };
    for (tag, items, pending) in &expect { for (n, it) in items.iter().enumerate() {
      let p = *pending || it.pending; let d = format!("{}{}", tag, n);
      want.results.push((it.description(&d), d, it.good(), p, *it));
      if !it.good() { if p { want.pending_errors += 1 } else { want.errors += 1 } }
    } }
    rec.steps(want.results.len() as u64);
    if list.iter().any(|s| matches!(s, Dir(l) if l.len() > 1)) {
      let mut sorted = vec![];
      for r in &got.interaction_results { if let Some(p) = want.results.iter().position(|w| w.0 == r.interaction_description) { sorted.push(want.results.remove(p)); } }
      sorted.append(&mut want.results); want.results = sorted;
    }
    judge(rec, &got, &want);
  });
}
pub fn selector() -> ConsumerVersionSelector { pact_verifier::selectors::consumer_tags_to_selectors(vec!["main"])[0].clone() }
fn scratch() -> std::path::PathBuf {
  use std::sync::atomic::{AtomicU64, Ordering};
  static N: AtomicU64 = AtomicU64::new(0);
  let d = std::env::temp_dir().join(format!("mcv-{}-{}", std::process::id(), N.fetch_add(1, Ordering::SeqCst)));
  std::fs::create_dir_all(&d).unwrap(); d
}
/// A pact broker with these pacts of provider p; the first part says whether a pact is pending.
fn broker(pacts: Vec<(bool, Value)>) -> Host {
  Host::new(move |c, _| {
    let base = format!("http://{}", c.url.host_str().unwrap());
    match (c.method.as_str(), c.url.path()) {
      ("GET", "/") => net::json(200, &json!({"_links": {"pb:provider-pacts-for-verification": {"href": format!("{}/pfv/{{provider}}", base), "templated": true}, "pb:latest-provider-pacts": {"href": format!("{}/latest/{{provider}}", base), "templated": true}}})),
      ("GET", "/pfv/p") => net::json(200, &json!({"_links": {"self": {"href": format!("{}/pfv/p", base)}}})),
      ("GET", "/latest/p") => if pacts.is_empty() { net::json(404, &json!({})) } else { net::json(200, &json!({"_links": {"pacts": (0..pacts.len()).map(|n| json!({"href": format!("{}/pact/{}", base, n)})).collect::<Vec<_>>()}})) },
      ("POST", "/pfv/p") => net::json(200, &json!({"_embedded": {"pacts": pacts.iter().enumerate().map(|(n, (pending, _))| json!({"shortDescription": format!("pact {}", n), "verificationProperties": {"pending": pending, "notices": []}, "_links": {"self": {"href": format!("{}/pact/{}", base, n)}}})).collect::<Vec<_>>()}})),
      ("GET", p) => match p.strip_prefix("/pact/").and_then(|n| n.parse::<usize>().ok()).and_then(|n| pacts.get(n)) { Some((_, d)) => net::json(200, d), None => net::json(404, &json!({})) },
      _ => net::json(404, &json!({})),
    }
  })
}
#[allow(dead_code)] fn unused(_: &dyn Fn(&[usize]) -> u64) { let _ = space_size; }
