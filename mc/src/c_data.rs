//! C09 query strings, C20 provider states, C24 headers and query forms, C25 JSON documents.
use itertools::Itertools;
use mccore::*;
use pact_models::bodies::OptionalBody;
use pact_models::headers::parse_header;
use pact_models::http_parts::HttpPart;
use pact_models::interaction::Interaction;
use pact_models::json_utils::*;
use pact_models::message::Message;
use pact_models::path_exp::DocPath;
use pact_models::plugins::PluginData;
use pact_models::provider_states::ProviderState;
use pact_models::query_strings::*;
use pact_models::request::Request;
use pact_models::response::Response;
use pact_models::sync_interaction::RequestResponseInteraction;
use pact_models::v4::async_message::AsynchronousMessage;
use pact_models::v4::http_parts::{HttpRequest, HttpResponse};
use pact_models::v4::interaction::{interaction_from_json, V4Interaction};
use pact_models::v4::message_parts::MessageContents;
use pact_models::v4::sync_message::SynchronousMessage;
use pact_models::v4::synch_http::SynchronousHttp;
use pact_models::PactSpecification;
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, HashMap};

type Query = HashMap<String, Vec<Option<String>>>;

/// Percent-decoding (+ is a space, %XX a byte, bytes are UTF-8). None if the text is not well formed.
fn ref_decode(s: &str) -> Option<Result<String, ()>> {
  let (b, mut out, mut i) = (s.as_bytes(), vec![], 0);
  while i < b.len() {
    match b[i] {
      b'%' => {
        let h = |k: usize| b.get(i + k).and_then(|c| (*c as char).to_digit(16));
        match (h(1), h(2)) { (Some(a), Some(c)) => { out.push((a * 16 + c) as u8); i += 3; } _ => return None }
      }
      b'+' => { out.push(b' '); i += 1; }
      c => { out.push(c); i += 1; }
    }
  }
  Some(String::from_utf8(out).map_err(|_| ()))
}

/// The characters that are written as the digits of their code point (see known_findings.txt).
fn code_point_form(c: char) -> String {
  let h = format!("{:x}", c as u32);
  let h = if h.len() % 2 == 1 { format!("0{}", h) } else { h };
  h.as_bytes().chunks(2).map(|p| format!("%{}", std::str::from_utf8(p).unwrap())).collect()
}

pub fn c09(run: &Run) {
  // every character on its own
  run.explore("char", "every Unicode character on its own, encoded and decoded", 0x110000 / 64, |i, rec| {
    for n in (i * 64)..(i * 64 + 64) {
      let c = match char::from_u32(n as u32) { Some(c) => c, None => continue };
      rec.case(format!("U+{:04X}", n));
      let enc = match rec.no_panic("panic", || encode_query(&c.to_string())) { Some(e) => e, None => continue };
      rec.steps(1);
      let dec = rec.no_panic("panic", || decode_query(&enc));
      if dec != Some(Ok(c.to_string())) {
        // the one listed deviation: a non-ASCII character is written as the digits of its code point
        if !c.is_ascii() && enc == code_point_form(c) { rec.fail_key("the code point is written instead of the UTF-8 bytes @ non-ASCII character", format!("{:?} is encoded as {}, which decodes to {:?}", c, enc, dec)); }
        else { rec.fail("round trip", format!("{:?} is encoded as {}, which decodes to {:?}", c, enc, dec)); }
      }
      if c.is_ascii_alphanumeric() { rec.eq("a letter or digit stands for itself", &c.to_string(), &enc); }
      rec.check(enc.bytes().all(|b| b.is_ascii_alphanumeric() || b"%-._~+*".contains(&b)), "reserved character", || format!("{:?} is encoded as {:?}", c, enc));
      // raw and UTF-8 encoded text is understood
      if c != '%' && c != '+' { rec.eq("raw text", &Ok(c.to_string()), &decode_query(&c.to_string())); }
      let utf8: String = c.to_string().bytes().map(|b| format!("%{:02X}", b)).collect();
      rec.eq("percent-encoded UTF-8", &Ok(c.to_string()), &decode_query(&utf8));
      rec.eq("percent-encoded UTF-8, lower case", &Ok(c.to_string()), &decode_query(&utf8.to_lowercase().replace("%", "%")));
    }
    rec.state(&i);
  });
  // ASCII texts
  let sym: Vec<char> = " +%&=-_.~/?#a0Z\n\0\"4'".chars().collect();
  let n = if run.thorough { 5 } else { 4 };
  run.explore("text", "every text over 20 ASCII symbols up to a length: encode and decode, alone and as a name and a value", seq_count(sym.len(), n), |i, rec| {
    let s: String = seq_at(i, sym.len()).iter().map(|k| sym[*k]).collect();
    rec.case(format!("{:?}", s));
    rec.state(&s);
    let enc = match rec.no_panic("panic", || encode_query(&s)) { Some(e) => e, None => return };
    rec.eq("round trip", &Ok(s.clone()), &decode_query(&enc));
    if !s.is_empty() {
      let q: Query = [(s.clone(), vec![Some(s.clone()), None, Some("x".into())])].into_iter().collect();
      let text = match rec.no_panic("panic", || build_query_string(q.clone())) { Some(t) => t, None => return };
      rec.eq("name and value", &Some(q), &parse_query_string(&text));
    }
  });
  // decoding is total; well-formed text decodes as defined; text without anything to decode stays as it is
  let sym: Vec<char> = "%+41EC39a=&é€x".chars().collect();
  let n = if run.thorough { 6 } else { 5 };
  run.explore("decode", "every text over % + hex digits, other letters and non-ASCII characters up to a length, decoded and parsed", seq_count(sym.len(), n), |i, rec| {
    let s: String = seq_at(i, sym.len()).iter().map(|k| sym[*k]).collect();
    rec.case(format!("{:?}", s));
    rec.state(&s);
    let dec = match rec.no_panic("panic", || decode_query(&s)) { Some(d) => d, None => return };
    match ref_decode(&s) {
      Some(Ok(e)) => { rec.outcome("text"); rec.eq("decoded", &Ok(e), &dec); }
      Some(Err(())) => { rec.outcome("not UTF-8"); rec.check(dec.is_err(), "decoded", || format!("bytes that are not UTF-8 became {:?}", dec)); }
      None => {
        rec.outcome("malformed escape");
        let c: Vec<char> = s.chars().collect();
        let any = c.windows(3).any(|w| w[0] == '%' && w[1].is_ascii_hexdigit() && w[2].is_ascii_hexdigit());
        if !any && !s.contains('+') { rec.eq("text without escapes", &Ok(s.clone()), &dec); }
      }
    }
    let q = match rec.no_panic("panic", || parse_query_string(&s)) { Some(q) => q, None => return };
    // split at & and the first =, decode each side, keep the order of values
    let mut exp: BTreeMap<String, Vec<Option<String>>> = BTreeMap::new();
    let part = |p: &str| decode_query(p).unwrap_or_else(|_| p.to_string());
    for kv in s.split('&').filter(|kv| !kv.is_empty()) {
      match kv.find('=') {
        Some(p) => exp.entry(part(&kv[..p])).or_default().push(Some(part(&kv[p + 1..]))),
        None => exp.entry(part(kv)).or_default().push(None),
      }
    }
    rec.eq("parameters", &(if s.is_empty() { None } else { Some(exp) }), &q.map(|q| q.into_iter().collect()));
  });
  // whole queries: two names, up to three values each, through the text and through documents of every version
  let names = ["a", "a b", "b&=", "a[]", "%41", "_.~"];
  let vals: Vec<Option<String>> = vec![None, Some("".into()), Some("1".into()), Some("x y&z=%2B+".into())];
  let lists: Vec<Vec<Option<String>>> = (1..seq_count(vals.len(), if run.thorough { 4 } else { 3 })).map(|i| seq_at(i, vals.len()).iter().map(|k| vals[*k].clone()).collect()).collect();
  let ks: Vec<(usize, usize)> = (0..names.len()).flat_map(|i| (i..names.len()).map(move |j| (i, j))).collect();
  run.explore("query", "every query of one or two parameters with up to a number of values, as text and in request documents of V1 to V4", (ks.len() * lists.len() * lists.len()) as u64, |i, rec| {
    let d = digits(i, &[ks.len(), lists.len(), lists.len()]);
    let (a, b) = ks[d[0]];
    if a == b && d[2] > 0 { return; }
    let mut q: Query = HashMap::new();
    q.insert(names[a].into(), lists[d[1]].clone());
    if a != b { q.insert(names[b].into(), lists[d[2]].clone()); }
    rec.case(format!("{:?}", q.iter().sorted().collect_vec()));
    rec.state(&q.iter().sorted().collect_vec());
    let text = match rec.no_panic("panic", || build_query_string(q.clone())) { Some(t) => t, None => return };
    rec.eq("text", &Some(q.clone()), &parse_query_string(&text));
    for v in [PactSpecification::V1, PactSpecification::V1_1, PactSpecification::V2, PactSpecification::V3] {
      let r = Request { query: Some(q.clone()), ..Request::default() };
      let back = Request::from_json(&r.to_json(&v), &v).map(|r| r.query);
      rec.steps(1);
      rec.check(matches!(&back, Ok(Some(b)) if *b == q), &format!("document {:?}", v), || format!("{:?}", back));
    }
    let r = HttpRequest { query: Some(q.clone()), ..HttpRequest::default() };
    let back = HttpRequest::from_json(&r.to_json()).map(|r| r.query);
    rec.check(matches!(&back, Ok(Some(b)) if *b == q), "document V4", || format!("{:?}", back));
    rec.trace();
  });
}

// ---------------------------------------------------------------------------------------------------------------------

fn state(name: &str, params: Value) -> ProviderState {
  ProviderState { name: name.into(), params: params.as_object().unwrap().iter().map(|(k, v)| (k.clone(), v.clone())).collect() }
}

/// The states a document states: (entry, state)
fn state_entries() -> Vec<(Value, Option<ProviderState>)> {
  vec![
    (json!({"name": "a"}), Some(state("a", json!({})))),
    (json!({"name": "a", "params": {}}), Some(state("a", json!({})))),
    (json!({"name": "b", "params": {"x": 1, "y": null, "z": {"q": [1, 2.5, "s", true]}}}), Some(state("b", json!({"x": 1, "y": null, "z": {"q": [1, 2.5, "s", true]}})))),
    (json!({"name": "a", "params": {"name": "a"}}), Some(state("a", json!({"name": "a"})))),
    (json!({"name": ""}), Some(state("", json!({})))),
    (json!("a"), Some(state("a", json!({})))),
    (json!("b ü \"q\""), Some(state("b ü \"q\"", json!({})))),
    (Value::Null, None),
    (json!({"params": {"p": "v"}, "name": "c"}), Some(state("c", json!({"p": "v"})))),
  ]
}

/// Reads the states through every interaction type.
fn read_states(doc: &Map<String, Value>) -> Vec<(&'static str, Result<Vec<ProviderState>, String>)> {
  let with = |extra: Value| { let mut m = doc.clone(); for (k, v) in extra.as_object().unwrap() { m.insert(k.clone(), v.clone()); } Value::Object(m) };
  let e = |r: anyhow::Result<Vec<ProviderState>>| r.map_err(|e| e.to_string());
  let mut out = vec![("ProviderState::from_json", Ok(ProviderState::from_json(&with(json!({})))))];
  for (n, v) in [("V1", PactSpecification::V1), ("V2", PactSpecification::V2), ("V3", PactSpecification::V3)] {
    out.push((n, e(RequestResponseInteraction::from_json(0, &with(json!({"description": "d"})), &v).map(|i| i.provider_states))));
  }
  out.push(("V3 message", e(Message::from_json(0, &with(json!({"description": "d"})), &PactSpecification::V3).map(|i| i.provider_states))));
  for (n, t) in [("V4 http", "Synchronous/HTTP"), ("V4 async", "Asynchronous/Messages"), ("V4 sync", "Synchronous/Messages")] {
    let j = with(json!({"type": t, "description": "d", "request": {}, "response": if t.ends_with("HTTP") { json!({}) } else { json!([]) }}));
    out.push((n, e(interaction_from_json("mc", 0, &j).map(|i| i.provider_states()))));
  }
  out
}

pub fn c20(run: &Run) {
  let entries = state_entries();
  let n = if run.thorough { 4 } else { 3 };
  run.explore("list", "every list of provider state entries (objects with and without parameters, names, nulls) up to a length, read through every interaction type", seq_count(entries.len(), n), |i, rec| {
    let ks = seq_at(i, entries.len());
    let list: Vec<Value> = ks.iter().map(|k| entries[*k].0.clone()).collect();
    let exp: Vec<ProviderState> = ks.iter().filter_map(|k| entries[*k].1.clone()).collect();
    rec.case(json!(list).to_string());
    rec.state(&ks);
    let mut doc = Map::new();
    doc.insert("providerStates".into(), json!(list));
    let got = match rec.no_panic("panic", || read_states(&doc)) { Some(g) => g, None => return };
    for (n, g) in got { rec.steps(1); rec.check(g.as_ref() == Ok(&exp), &format!("states read by {}", n), || format!("expected {:?}, got {:?}", exp, g)); }
  });
  // the older forms
  let olds: Vec<(Value, Vec<&str>)> = vec![(json!("a"), vec!["a"]), (json!("a b ü"), vec!["a b ü"]), (json!(""), vec![]), (Value::Null, vec![])];
  let mut docs: Vec<(Map<String, Value>, Vec<&str>)> = vec![(Map::new(), vec![])];
  for k in ["providerState", "provider_state"] { for (v, e) in &olds { docs.push(([(k.to_string(), v.clone())].into_iter().collect(), e.clone())); } }
  for (v, e) in &olds { docs.push(([("providerState".to_string(), v.clone()), ("providerStates".to_string(), json!([{"name": "l"}]))].into_iter().collect(), { let _ = e; vec!["l"] })); }
  docs.push(([("providerStates".to_string(), Value::Null)].into_iter().collect(), vec![]));
  docs.push(([("providerStates".to_string(), json!([]))].into_iter().collect(), vec![]));
  run.each("single", "the single name forms under both spellings, absent, null and empty entries, alone and beside the list", &docs, |(doc, exp), rec| {
    rec.case(json!(doc).to_string());
    rec.state(&json!(doc).to_string());
    let exp: Vec<ProviderState> = exp.iter().map(|n| state(n, json!({}))).collect();
    let got = match rec.no_panic("panic", || read_states(doc)) { Some(g) => g, None => return };
    for (n, g) in got { rec.steps(1); rec.check(g.as_ref() == Ok(&exp), &format!("states read by {}", n), || format!("expected {:?}, got {:?}", exp, g)); }
  });
  // written and read again
  let states: Vec<ProviderState> = vec![state("a", json!({})), state("a", json!({"x": 1})), state("b c", json!({"x": null, "l": [], "o": {}, "s": "", "f": 1.5, "n": -1, "b": false})), state("ü", json!({"": "v", "a.b": {"c": [null]}})), state("", json!({}))];
  run.explore("written", "every list of provider states up to a length, written by every interaction type at every version and read again", seq_count(states.len(), n), |i, rec| {
    let l: Vec<ProviderState> = seq_at(i, states.len()).iter().map(|k| states[*k].clone()).collect();
    rec.case(format!("{:?}", l.iter().map(|s| s.to_json().to_string()).collect_vec()));
    rec.state(&seq_at(i, states.len()));
    let rr = RequestResponseInteraction { provider_states: l.clone(), ..Default::default() };
    let v3 = PactSpecification::V3;
    rec.check(RequestResponseInteraction::from_json(0, &rr.to_json(&v3), &v3).map(|i| i.provider_states == l).unwrap_or(false), "V3 request/response", || rr.to_json(&v3).to_string());
    if l.len() == 1 && l[0].params.is_empty() && !l[0].name.is_empty() || l.is_empty() {
      for v in [PactSpecification::V1, PactSpecification::V1_1, PactSpecification::V2] {
        rec.check(RequestResponseInteraction::from_json(0, &rr.to_json(&v), &v).map(|i| i.provider_states == l).unwrap_or(false), &format!("{:?} request/response", v), || rr.to_json(&v).to_string());
      }
    }
    let m = Message { provider_states: l.clone(), ..Message::default() };
    rec.check(Message::from_json(0, &m.to_json(&v3), &v3).map(|i| i.provider_states == l).unwrap_or(false), "V3 message", || m.to_json(&v3).to_string());
    let v4: Vec<Box<dyn V4Interaction>> = vec![
      Box::new(SynchronousHttp { provider_states: l.clone(), ..Default::default() }), Box::new(AsynchronousMessage { provider_states: l.clone(), ..Default::default() }),
      Box::new(SynchronousMessage { provider_states: l.clone(), ..Default::default() })];
    for i in v4 {
      rec.steps(1);
      let j = V4Interaction::to_json(i.as_ref());
      rec.check(interaction_from_json("mc", 0, &j).map(|i| i.provider_states() == l).unwrap_or(false), &i.type_of(), || j.to_string());
    }
    // conversions keep them
    rec.check(rr.as_v4_http().map(|i| i.provider_states == l).unwrap_or(false), "request/response to V4", || format!("{:?}", rr.as_v4_http()));
    rec.check(m.as_v4_async_message().map(|i| i.provider_states == l).unwrap_or(false), "message to V4", || format!("{:?}", m.as_v4_async_message()));
    rec.check(SynchronousHttp { provider_states: l.clone(), ..Default::default() }.as_request_response().map(|i| i.provider_states == l).unwrap_or(false), "V4 to request/response", || "lost".to_string());
    rec.check(AsynchronousMessage { provider_states: l.clone(), ..Default::default() }.as_message().map(|i| i.provider_states == l).unwrap_or(false), "V4 to message", || "lost".to_string());
    rec.trace();
  });
}

// ---------------------------------------------------------------------------------------------------------------------

const SINGLE: [&str; 9] = ["date", "accept-datetime", "if-modified-since", "if-unmodified-since", "expires", "retry-after", "last-modified", "set-cookie", "user-agent"];

fn cases_of(s: &str) -> Vec<String> {
  let title: String = s.split('-').map(|p| p[..1].to_uppercase() + &p[1..]).join("-");
  vec![s.to_string(), s.to_uppercase(), title]
}

pub fn c24(run: &Run) {
  let mut names: Vec<(String, bool)> = vec![];
  for s in SINGLE { for c in cases_of(s) { names.push((c, true)); } }
  for s in ["x-a", "accept", "vary", "content-type", "allow", "cache-control", "if-match", "access-control-allow-headers"] { for c in cases_of(s) { names.push((c, false)); } }
  let vals = ["a", "b c", "Tue, 15 Nov 1994 08:12:31 GMT", "text/html;q=0.5", " a ", "", "é", "a=1; b=\"2\""];
  let lists: Vec<Vec<&str>> = (0..seq_count(vals.len(), if run.thorough { 4 } else { 3 })).map(|i| seq_at(i, vals.len()).iter().map(|k| vals[*k]).collect()).collect();
  run.pairs("document", "every header name class (in three letter cases) with every list of values, in request and response documents as a list and as one string", &names, &lists, |(name, single), list, rec| {
    rec.case(format!("{}: {:?}", name, list));
    rec.state(&(name, list));
    // as a list
    let doc = json!({"headers": {name.clone(): list}});
    let exp: Vec<String> = list.iter().map(|s| s.to_string()).collect();
    let of = |h: &Option<HashMap<String, Vec<String>>>| h.as_ref().and_then(|h| h.get(name).cloned());
    let check = |rec: &mut Rec, form: &str, doc: &Value, exp: &Vec<String>| {
      let all: Vec<(String, Option<Vec<String>>)> = vec![
        ("headers_from_json".into(), of(&headers_from_json(doc))),
        ("V3 request".into(), Request::from_json(doc, &PactSpecification::V3).ok().and_then(|r| of(&r.headers))),
        ("V2 response".into(), Response::from_json(doc, &PactSpecification::V2).ok().and_then(|r| of(&r.headers))),
        ("V4 request".into(), HttpRequest::from_json(doc).ok().and_then(|r| of(&r.headers))),
        ("V4 response".into(), HttpResponse::from_json(doc).ok().and_then(|r| of(&r.headers)))];
      for (n, got) in all { rec.steps(1); rec.check(got.as_ref() == Some(exp), &format!("{} {}", form, n), || format!("expected {:?}, got {:?}", exp, got)); }
    };
    check(rec, "list", &doc, &exp);
    // V4 keeps the list
    let r = HttpRequest { headers: Some([(name.clone(), exp.clone())].into_iter().collect()), ..HttpRequest::default() };
    rec.eq("V4 request written", &Some(exp.clone()), &HttpRequest::from_json(&r.to_json()).ok().and_then(|r| of(&r.headers)));
    let r = HttpResponse { headers: r.headers.clone(), ..HttpResponse::default() };
    rec.eq("V4 response written", &Some(exp.clone()), &HttpResponse::from_json(&r.to_json()).ok().and_then(|r| of(&r.headers)));
    // as one string: split at commas unless the header holds one value
    let text = list.join(", ");
    let split: Vec<String> = if *single { vec![text.trim().to_string()] } else { text.split(',').map(|s| s.trim().to_string()).collect() };
    check(rec, "string", &json!({"headers": {name.clone(): text}}), &split);
    rec.eq("parse_header", &split, &parse_header(name, &text));
    // written by V1 to V3 as one string: the values come back if they can be told apart in that form
    if split == exp {
      for v in [PactSpecification::V1, PactSpecification::V2, PactSpecification::V3] {
        let h: Option<HashMap<String, Vec<String>>> = Some([(name.clone(), exp.clone()), ("other".to_string(), vec!["o".to_string()])].into_iter().collect());
        let r = Request { headers: h.clone(), ..Request::default() };
        rec.eq(&format!("{:?} request written", v), &Some(h.clone()), &Request::from_json(&r.to_json(&v), &v).ok().map(|r| r.headers));
        let r = Response { headers: h.clone(), ..Response::default() };
        rec.eq(&format!("{:?} response written", v), &Some(h), &Response::from_json(&r.to_json(&v), &v).ok().map(|r| r.headers));
      }
      rec.trace();
    }
  });
  // operations on headers: names are compared ignoring case
  #[derive(Clone, Copy, Debug, Hash)] enum Op { Set(usize, usize), Add(usize, usize) }
  let hn = ["X-A", "x-a", "Content-Type", "CONTENT-TYPE", "b"];
  let hv: [&[&str]; 3] = [&["1"], &["application/json", "2"], &[]];
  let ops: Vec<Op> = (0..hn.len()).flat_map(|n| (0..hv.len()).flat_map(move |v| [Op::Set(n, v), Op::Add(n, v)])).collect();
  run.explore("operations", "every sequence of header updates up to a length over two spellings of each name, with every lookup after each", seq_count(ops.len(), if run.thorough { 4 } else { 3 }), |i, rec| {
    let seq: Vec<Op> = seq_at(i, ops.len()).iter().map(|k| ops[*k]).collect();
    rec.case(format!("{:?}", seq.iter().map(|o| match o { Op::Set(n, v) => format!("set {} {:?}", hn[*n], hv[*v]), Op::Add(n, v) => format!("add {} {:?}", hn[*n], hv[*v]) }).collect_vec()));
    let (mut q, mut s, mut q3, mut s3) = (HttpRequest::default(), HttpResponse::default(), Request::default(), Response::default());
    let mut model: BTreeMap<String, (String, Vec<String>)> = BTreeMap::new();
    for op in &seq {
      let (Op::Set(n, v) | Op::Add(n, v)) = *op;
      let val: Vec<String> = hv[v].iter().map(|s| s.to_string()).collect();
      model.entry(hn[n].to_lowercase()).or_insert((hn[n].to_string(), vec![])).1 = val.clone();
      match op {
        Op::Set(..) => { q.set_header(hn[n], hv[v]); s.set_header(hn[n], hv[v]); q3.add_header(hn[n], hv[v].to_vec()); s3.add_header(hn[n], hv[v].to_vec()); }
        Op::Add(..) => { q.add_header(hn[n], hv[v].to_vec()); s.add_header(hn[n], hv[v].to_vec()); q3.add_header(hn[n], hv[v].to_vec()); s3.add_header(hn[n], hv[v].to_vec()); }
      }
    }
    rec.state(&model);
    let exp: BTreeMap<String, Vec<String>> = model.values().cloned().collect();
    let parts: Vec<(&str, &dyn HttpPart)> = vec![("HttpRequest", &q), ("HttpResponse", &s), ("Request", &q3), ("Response", &s3)];
    for (n, p) in parts {
      rec.steps(1);
      let got: BTreeMap<String, Vec<String>> = p.headers().clone().unwrap_or_default().into_iter().collect();
      if !rec.eq(&format!("{} headers", n), &exp, &got) { continue; }
      for l in ["X-A", "x-a", "X-a", "content-type", "Content-type", "B", "c"] {
        let e = model.get(&l.to_lowercase()).map(|(_, v)| v.join(", "));
        rec.eq(&format!("{} lookup {}", n, l), &e, &p.lookup_header_value(l));
        rec.eq(&format!("{} has {}", n, l), &e.is_some(), &p.has_header(l));
      }
      rec.eq(&format!("{} content type", n), &model.get("content-type").map(|(_, v)| v.join(", ")), &p.lookup_content_type());
    }
  });
  // the content type of messages
  let keys = ["contentType", "content-type", "Content-Type", "CONTENTTYPE", "ContentType"];
  run.each("message", "the content type of a message under every spelling of the metadata key", &keys, |k, rec| {
    rec.case(k.to_string());
    rec.state(k);
    let md: HashMap<String, Value> = [(k.to_string(), json!("text/csv;charset=utf-8")), ("other".to_string(), json!(["contentType"]))].into_iter().collect();
    let body = OptionalBody::Present("a,b".into(), None, None);
    let m = Message { metadata: md.clone(), contents: body.clone(), ..Message::default() };
    let e = Some("text/csv;charset=utf-8".to_string());
    rec.eq("Message lookup", &e, &m.lookup_content_type());
    rec.eq("Message content type", &e, &m.message_content_type().map(|c| c.to_string()));
    let mc = MessageContents { metadata: md.clone(), contents: body.clone(), ..Default::default() };
    rec.eq("MessageContents lookup", &e, &mc.lookup_content_type());
    rec.eq("MessageContents content type", &e, &mc.message_content_type().map(|c| c.to_string()));
    let am = AsynchronousMessage { contents: mc.clone(), ..Default::default() };
    rec.eq("AsynchronousMessage lookup", &e, &am.lookup_content_type());
    rec.eq("AsynchronousMessage content type", &e, &am.message_content_type().map(|c| c.to_string()));
    for (n, j) in [("V4 async", json!({"type": "Asynchronous/Messages", "metadata": {k.to_string(): "text/csv;charset=utf-8"}, "contents": {"content": "a,b"}})),
      ("V4 sync", json!({"type": "Synchronous/Messages", "request": {"metadata": {k.to_string(): "text/csv;charset=utf-8"}, "contents": {"content": "a,b"}}, "response": []}))] {
      let i = interaction_from_json("mc", 0, &j);
      rec.eq(n, &e, &i.ok().and_then(|i| i.content_type()).map(|c| c.to_string()));
    }
    let j = json!({"description": "d", "contents": "a,b", "metadata": {k.to_string(): "text/csv;charset=utf-8"}});
    rec.eq("V3 message", &e, &Message::from_json(0, &j, &PactSpecification::V3).ok().and_then(|m| Interaction::content_type(&m)).map(|c| c.to_string()));
  });
  // the two forms of a query in a document
  let qv = [json!("1"), json!(""), Value::Null, json!("a&b=c d"), json!(2), json!(true), json!(1.5)];
  run.explore("query forms", "every query of one or two parameters, as a map and as text", space_size(&[seq_count(qv.len(), 3) as usize, qv.len() + 1]), |i, rec| {
    let d = digits(i, &[seq_count(qv.len(), 3) as usize, qv.len() + 1]);
    let l = seq_at(d[0] as u64, qv.len());
    if l.is_empty() { return; }
    let mut doc = Map::new();
    doc.insert("a b".into(), json!(l.iter().map(|k| qv[*k].clone()).collect_vec()));
    if d[1] < qv.len() { doc.insert("c".into(), json!([qv[d[1]].clone()])); }
    let enc = |s: &str| s.bytes().map(|b| if b.is_ascii_alphanumeric() { (b as char).to_string() } else { format!("%{:02X}", b) }).collect::<String>();
    let text = doc.iter().flat_map(|(k, v)| v.as_array().unwrap().iter().map(|v| match v { Value::Null => enc(k), Value::String(s) => format!("{}={}", enc(k), enc(s)), v => format!("{}={}", enc(k), enc(&v.to_string())) }).collect_vec()).join("&");
    rec.case(json!(doc).to_string());
    rec.state(&text);
    let a = v3_query_from_json(&json!(doc), &PactSpecification::V3);
    for (n, b) in [("V3 text", v3_query_from_json(&json!(text), &PactSpecification::V3)), ("V2 text", query_from_json(&json!(text), &PactSpecification::V2)),
      ("V4 request", HttpRequest::from_json(&json!({"query": doc})).ok().and_then(|r| r.query)), ("V4 request text", HttpRequest::from_json(&json!({"query": text})).ok().and_then(|r| r.query)),
      ("V3 request", Request::from_json(&json!({"query": doc}), &PactSpecification::V3).ok().and_then(|r| r.query)), ("V2 request", Request::from_json(&json!({"query": text}), &PactSpecification::V2).ok().and_then(|r| r.query))] {
      rec.steps(1);
      rec.check(a.is_some() && a == b, n, || format!("map form: {:?}, other form: {:?}", a, b));
    }
    // one value on its own is the same as a list of it
    if l.len() == 1 && qv[l[0]].is_string() {
      doc.insert("a b".into(), qv[l[0]].clone());
      rec.eq("value on its own", &a, &v3_query_from_json(&json!(doc), &PactSpecification::V3));
    }
  });
}

// ---------------------------------------------------------------------------------------------------------------------

/// Every JSON document with exactly n nodes over two keys and a few scalars.
pub fn documents(n: usize) -> Vec<Value> {
  fn exact(n: usize, memo: &mut Vec<Option<Vec<Value>>>) -> Vec<Value> {
    if let Some(Some(v)) = memo.get(n) { return v.clone(); }
    let mut out = vec![];
    if n == 1 { out.extend([json!(null), json!(1), json!("x"), json!(true), json!([]), json!({})]); }
    if n >= 2 {
      for a in exact(n - 1, memo) { out.push(json!([a.clone()])); for k in ["a", "b/~"] { out.push(json!({k: a.clone()})); } }
      for i in 1..n - 1 {
        let (l, r) = (exact(i, memo), exact(n - 1 - i, memo));
        for a in &l { for b in &r { out.push(json!([a, b])); out.push(json!({"a": a, "b/~": b})); } }
      }
    }
    if memo.len() <= n { memo.resize(n + 1, None); }
    memo[n] = Some(out.clone());
    out
  }
  exact(n, &mut vec![])
}
pub fn documents_up_to(n: usize) -> Vec<Value> { (1..=n).flat_map(documents).collect() }

/// Lists are appended, objects merged attribute by attribute, anything else is replaced.
fn ref_merge(a: &Value, b: &Value) -> Value {
  match (a, b) {
    (Value::Array(x), Value::Array(y)) => json!(x.iter().chain(y).collect_vec()),
    (Value::Object(x), Value::Object(y)) => {
      let mut m = Map::new();
      for k in x.keys().chain(y.keys()) {
        m.insert(k.clone(), match (x.get(k), y.get(k)) { (Some(p), Some(q)) => ref_merge(p, q), (Some(p), None) | (None, Some(p)) => p.clone(), _ => unreachable!() });
      }
      Value::Object(m)
    }
    _ => b.clone(),
  }
}
/// The same, but items that are in the list already are not repeated.
fn ref_union(a: &Value, b: &Value) -> Value {
  match (a, b) {
    (Value::Array(x), Value::Array(y)) => { let mut l = x.clone(); for v in y { if !l.contains(v) { l.push(v.clone()); } } Value::Array(l) }
    (Value::Object(x), Value::Object(y)) => Value::Object(x.keys().chain(y.keys()).map(|k| (k.clone(), match (x.get(k), y.get(k)) { (Some(p), Some(q)) => ref_union(p, q), (Some(p), None) | (None, Some(p)) => p.clone(), _ => unreachable!() })).collect()),
    _ => b.clone(),
  }
}
fn has_list(v: &Value) -> bool { match v { Value::Array(a) => !a.is_empty(), Value::Object(m) => m.values().any(has_list), _ => false } }

#[derive(Clone, Debug, Hash)]
enum Tok { Field(&'static str), Index(usize), Star, StarIndex }

pub fn c25(run: &Run) {
  let docs = documents_up_to(if run.thorough { 5 } else { 4 });
  run.pairs("merge", "every ordered pair of JSON documents up to a number of nodes", &docs, &docs, |a, b, rec| {
    rec.case(format!("{} + {}", a, b));
    rec.state(&(a.to_string(), b.to_string()));
    let (a0, b0) = (a.clone(), b.clone());
    let m = match rec.no_panic("panic", || json_deep_merge(a, b)) { Some(m) => m, None => return };
    rec.eq("merged", &ref_merge(a, b), &m);
    rec.check(a0 == *a && b0 == *b, "input changed", || "an input changed".into());
    if a == b && !has_list(a) { rec.eq("merged with itself", a, &m); }
    if *b == json!({}) && a.is_object() || *b == json!([]) && a.is_array() { rec.eq("merged with nothing", a, &m); }
    // plugin data merges its configuration so that merging the same again changes nothing
    if let (Value::Object(x), Value::Object(y)) = (a, b) {
      let map = |m: &Map<String, Value>| m.iter().map(|(k, v)| (k.clone(), v.clone())).collect::<HashMap<_, _>>();
      let mut p = PluginData { name: "p".into(), version: "1".into(), configuration: map(x) };
      p.merge(&map(y));
      rec.eq("plugin data", &ref_union(a, b), &json!(p.configuration));
      let once = p.clone();
      p.merge(&map(y));
      rec.eq("plugin data merged again", &once, &p);
    }
  });
  let vals = documents_up_to(3);
  run.each("empty", "is_empty and the text forms of every document up to a number of nodes", &vals, |v, rec| {
    rec.case(v.to_string());
    rec.state(&v.to_string());
    rec.eq("is_empty", &matches!(v.to_string().as_str(), "null" | "\"\"" | "[]" | "{}"), &is_empty(v));
    rec.eq("text", &match v { Value::String(s) => s.clone(), Value::Null => "".into(), v => v.to_string() }, &json_to_string(v));
  });
  let empty: Vec<Value> = vec![json!(""), json!(0), json!(false), json!(0.0), json!(" ")];
  run.each("empty scalars", "is_empty on scalar values", &empty, |v, rec| { rec.case(v.to_string()); rec.state(&v.to_string()); rec.eq("is_empty", &(*v == json!("")), &is_empty(v)); });
  // path expressions
  let toks = [Tok::Field("a"), Tok::Field("b/~"), Tok::Field("0"), Tok::Index(0), Tok::Index(1), Tok::Star, Tok::StarIndex];
  let depth = if run.thorough { 4 } else { 3 };
  let exprs: Vec<Vec<Tok>> = (1..seq_count(toks.len(), depth)).map(|i| seq_at(i, toks.len()).iter().map(|k| toks[*k].clone()).collect()).collect();
  let docs: Vec<Value> = documents_up_to(if run.thorough { 5 } else { 4 }).into_iter().chain([json!({"0": {"a": [1, {"b/~": 2}]}, "a": [[1, 2], [3]]}), json!([[[1], [2]], {"a": {"a": {"a": 1}}}]), json!({"~1": {"a": 1}, "a": {"": {"a": 1}}})]).collect();
  run.pairs("resolve", "every path expression up to a length on every JSON document up to a number of nodes", &exprs, &docs, |e, doc, rec| {
    let text: String = std::iter::once("$".to_string()).chain(e.iter().map(|t| match t { Tok::Field(n) if n.contains('/') || *n == "0" => format!("['{}']", n), Tok::Field(n) => format!(".{}", n), Tok::Index(i) => format!("[{}]", i), Tok::Star => ".*".into(), Tok::StarIndex => "[*]".into() })).collect();
    rec.case(format!("{} on {}", text, doc));
    rec.state(&(&text, doc.to_string()));
    let path = match DocPath::new(&text) { Ok(p) => p, Err(x) => { rec.fail("path", x.to_string()); return; } };
    let mut exp: Vec<String> = util::nodes(doc).into_iter().filter(|segs| segs.len() == e.len() && segs.iter().zip(e).all(|(s, t)| match (s, t) {
      (util::Seg::Key(k), Tok::Field(n)) => k == n, (util::Seg::Key(_), Tok::Star) => true,
      (util::Seg::Idx(i), Tok::Index(n)) => i == n, (util::Seg::Idx(_), Tok::StarIndex) => true, _ => false }))
      .map(|segs| segs.iter().map(|s| match s { util::Seg::Key(k) => format!("/{}", k.replace('~', "~0").replace('/', "~1")), util::Seg::Idx(i) => format!("/{}", i) }).collect()).collect();
    let mut got = match rec.no_panic("panic", || resolve_path(doc, &path)) { Some(g) => g, None => return };
    for p in &got { rec.steps(1); rec.check(doc.pointer(p).is_some(), "pointer", || format!("{} does not denote a node", p)); }
    if !got.is_empty() { rec.outcome("found"); }
    exp.sort(); got.sort();
    rec.eq("locations", &exp, &got);
  });
}
