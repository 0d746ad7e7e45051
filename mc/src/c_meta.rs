#![allow(deprecated)]
//! C22: specification versions and metadata. C27: editing pacts in memory.
use mccore::*;
use pact_models::message_pact::MessagePact;
use pact_models::pact::{determine_spec_version, load_pact_from_json, parse_meta_data, read_pact, Pact, ReadWritePact};
use pact_models::sync_pact::RequestResponsePact;
use pact_models::v4::pact::V4Pact;
use pact_models::PactSpecification;
use serde_json::{json, Value};
use crate::docs::*;

use PactSpecification::*;
const ALL: [PactSpecification; 6] = [Unknown, V1, V1_1, V2, V3, V4];

/// The version that plain version texts (numbers separated by dots) denote; nothing for what is not plain.
fn plain(text: &str) -> Option<PactSpecification> {
  let parts: Vec<&str> = text.split('.').collect();
  if parts.len() > 3 || parts.iter().any(|p| p.is_empty() || p.len() > 9 || !p.chars().all(|c| c.is_ascii_digit())) { return None; }
  let n: Vec<u64> = parts.iter().map(|p| p.parse().unwrap()).collect();
  Some(match (n[0], n.get(1).copied().unwrap_or(0)) { (1, 1) => V1_1, (1, _) => V1, (2, _) => V2, (3, _) => V3, (4, _) => V4, _ => Unknown })
}
fn doc(md: Option<Value>, messages: bool) -> Value {
  let mut d = json!({"consumer": {"name": "c"}, "provider": {"name": "p"}});
  d[if messages { "messages" } else { "interactions" }] = json!([]);
  if let Some(m) = md { d["metadata"] = m; }
  d
}
/// The version every entry point finds in a document.
fn entry_points(rec: &mut Rec, md: Option<Value>) -> Option<PactSpecification> {
  let d = doc(md.clone(), false);
  let v = rec.no_panic("panic", || determine_spec_version("x", &parse_meta_data(&d)))?;
  rec.steps(1);
  // the attributes have their current names, and their text entries are kept
  if let Some(Value::Object(o)) = &md {
    let name = |k: &str| match k { "pact-specification" => "pactSpecification".to_string(), "pact-rust" => "pactRust".to_string(), k => k.to_string() };
    let parsed = parse_meta_data(&d);
    let names: std::collections::BTreeSet<String> = o.keys().map(|k| name(k)).collect();
    rec.eq("metadata names", &names, &parsed.keys().cloned().collect());
    if names.len() == o.len() { for (k, v) in o { for (a, t) in v.as_object().into_iter().flatten() { if let Some(t) = t.as_str() { rec.eq("metadata entry", &Some(t), &parsed.get(&name(k)).and_then(|m| m.get(a)).map(|t| t.as_str())); } } } }
  }
  for messages in [false, true] {
    let d = doc(md.clone(), messages);
    let p = match rec.no_panic("panic", || load_pact_from_json("x", &d))? { Ok(p) => p, Err(e) => { rec.fail("load", e.to_string()); return None; } };
    rec.steps(1);
    rec.eq("loaded pact", &v, &p.specification_version());
    rec.eq("V4", &(v == V4), &p.is_v4());
    if v != V4 { rec.eq("kind", &messages, &p.as_message_pact().is_ok()); }
    if v != V4 { rec.check(p.metadata() == parse_meta_data(&d), "metadata", || format!("{:?}", p.metadata())); }
  }
  let rr = match rec.no_panic("panic", || RequestResponsePact::from_json("x", &d))? { Ok(p) => p, Err(e) => { rec.fail("request/response", e.to_string()); return None; } };
  // a V4 document is converted to the older form
  let exp = if v == V4 { V3 } else { v };
  rec.eq("request/response pact", &exp, &rr.specification_version);
  rec.eq("request/response spec_version", &exp, &rr.spec_version());
  if v != V4 {
    let mp = match rec.no_panic("panic", || MessagePact::from_json("x", &doc(md, true)))? { Ok(p) => p, Err(e) => { rec.fail("message pact", e.to_string()); return None; } };
    rec.eq("message pact", &v, &mp.specification_version);
    rec.eq("message spec_version", &v, &mp.spec_version());
  }
  rec.steps(4);
  Some(v)
}

pub fn c22(run: &Run) {
  // texts
  let alpha = ['0', '1', '2', '3', '4', '5', '.', 'v', 'V', '-', 'a', ' '];
  let len = if run.thorough { 6 } else { 4 };
  run.explore("version texts", &format!("every text of up to {} characters over the alphabet {:?} as the version", len, alpha), seq_count(alpha.len(), len), |i, rec| {
    let text: String = seq_at(i, alpha.len()).iter().map(|k| alpha[*k]).collect();
    rec.case(format!("{:?}", text));
    rec.state(&text);
    let d = doc(Some(json!({"pactSpecification": {"version": text}})), false);
    let Some(v) = rec.no_panic("panic", || determine_spec_version("x", &parse_meta_data(&d))) else { return };
    let Some(p) = rec.no_panic("panic", || PactSpecification::parse_version(text.as_str())) else { return };
    rec.steps(2);
    if let Some(e) = plain(&text) { rec.eq("version", &e, &v); }
    if text.is_empty() || !text.chars().any(|c| c.is_ascii_digit()) { rec.eq("version of no number", &Unknown, &v); }
    // the stricter reading accepts only what the lenient one takes for the same version
    match p {
      Ok(p) => { rec.eq("parsed", &v, &p); rec.check(p != Unknown, "parsed", || text.clone()); }
      Err(_) => { rec.check(!["1", "1.0", "1.0.0", "1.1", "1.1.0", "2", "2.0", "2.0.0", "3", "3.0", "3.0.0", "4", "4.0", "4.0.0"].contains(&text.as_str()), "refused", || text.clone()); }
    }
    rec.outcome(format!("{:?}", v));
  });
  // every entry point
  let mut versions: Vec<Value> = vec![Value::Null, json!(""), json!("x"), json!("null"), json!(true), json!([]), json!(["3.0.0"]), json!({}), json!({"version": "3.0.0"}), json!(1), json!(2), json!(3), json!(4), json!(2.0), json!(1.1), json!(4.5), json!(-1), json!(99), json!("3.x"), json!("latest"), json!("unknown"), json!("99999999999999999999"), json!("V3"), json!(" 4.0"), json!("1.10"), json!("1.2.0"), json!("é")];
  for a in 0..=6 { for b in ["", ".0", ".1", ".2", ".10", ".0.0", ".1.0", ".1.5", ".0-rc.1", ".0.0+b"] { versions.push(json!(format!("{}{}", a, b))); } }
  let spellings = ["pactSpecification", "pact-specification", "both", "attribute not an object", "no version", "no attribute", "metadata not an object", "no metadata", "other case", "other attribute"];
  let others: Vec<Option<(&str, Value)>> = vec![None, Some(("x", json!({"a": "b"}))), Some(("pactRust", json!({"models": "1"}))), Some(("pact-rust", json!({"version": "1"}))), Some(("y", json!("text"))), Some(("version", json!("1.0.0"))), Some(("pactSpecificationX", json!({"version": "1.0.0"}))), Some(("é", json!({"version": "2.0.0"})))];
  let n = (versions.len() * spellings.len() * others.len()) as u64;
  run.explore("entry points", "every version value x place x other metadata, through every function that reads it", n, |i, rec| {
    let i = i as usize;
    let (o, s, v) = (&others[i % others.len()], spellings[i / others.len() % spellings.len()], &versions[i / others.len() / spellings.len()]);
    let mut md = json!({});
    match s {
      "pactSpecification" | "pact-specification" => md[s] = json!({"version": v}),
      "both" => { md["pactSpecification"] = json!({"version": v}); md["pact-specification"] = json!({"version": v}); }
      "attribute not an object" => md["pactSpecification"] = v.clone(),
      "no version" => md["pactSpecification"] = json!({"versions": v}),
      "other case" => md["PactSpecification"] = json!({"version": v}),
      "other attribute" => md["pactSpecifications"] = json!({"version": v}),
      _ => {}
    }
    if let Some((k, v)) = o { md[*k] = v.clone(); }
    let md = match s { "no metadata" => None, "metadata not an object" => Some(v.clone()).map(|v| if v.is_object() { json!([v]) } else { v }), _ => Some(md) };
    rec.case(format!("{} {}", s, json!(md)));
    rec.state(&(s, json!(md).to_string()));
    let Some(got) = entry_points(rec, md) else { return };
    let exp = match s {
      "pactSpecification" | "pact-specification" | "both" => match v { Value::String(t) => plain(t), Value::Number(n) => plain(&n.to_string()), _ => Some(Unknown) },
      "attribute not an object" if v["version"].is_string() => plain(v["version"].as_str().unwrap()),
      _ => Some(V3)
    };
    if let Some(e) = exp { rec.eq("version", &e, &got); }
    rec.outcome(format!("{:?}", got));
  });
  // names of versions
  run.each("names", "every version", &ALL, |v, rec| {
    rec.case(format!("{:?}", v));
    rec.state(&v.to_string());
    rec.eq("by name", v, &PactSpecification::from(v.to_string()));
    rec.eq("by lower case name", v, &PactSpecification::from(v.to_string().to_lowercase().as_str()));
    rec.eq("by reference", v, &PactSpecification::from(&v.to_string()));
    if *v != Unknown { rec.eq("by number", &Some(*v), &PactSpecification::parse_version(v.version_str()).ok()); }
    else { rec.check(PactSpecification::parse_version(v.version_str()).is_err(), "unknown", || v.version_str()); }
    for (i, a) in ALL.iter().enumerate() { for (j, b) in ALL.iter().enumerate() { rec.check((a < b) == (i < j) && (a == b) == (i == j), "order", || format!("{:?} {:?}", a, b)); } }
  });
  // documents that are of an unknown version are read as V3
  for k in kinds().iter().filter(|k| k.version == V3) {
    let cs = choices(k, if run.thorough { 3 } else { 2 });
    run.each(&format!("{} without a known version", k.name), "every document with alternatives for up to two (thorough: three) attributes, with the version missing or not known", &cs, |c, rec| {
      rec.case(k.label(c));
      let (i, _) = k.interaction(c);
      rec.state(&i.to_string());
      let d = k.pact(vec![i]);
      let Ok(exp) = load_pact_from_json("x", &d) else { rec.fail("load", ""); return };
      for md in [None, Some(json!({})), Some(json!({"pactSpecification": {}})), Some(json!({"pactSpecification": {"version": "x"}})), Some(json!({"pactSpecification": {"version": "7.0.0"}}))] {
        let mut d = d.clone();
        match &md { Some(m) => d["metadata"] = m.clone(), None => { d.as_object_mut().unwrap().remove("metadata"); } }
        let p = match rec.no_panic("panic", || load_pact_from_json("x", &d)) { Some(Ok(p)) => p, Some(Err(e)) => { rec.fail("load without version", e.to_string()); continue; } None => return };
        rec.steps(1);
        let (a, b) = (exp.interactions(), p.interactions());
        if let (Some(a), Some(b)) = (a[0].as_request_response(), b[0].as_request_response()) { rec.eq("interaction", &a, &b); } else { rec.eq("message", &a[0].as_message(), &b[0].as_message()); }
      }
    });
  }
  written(run);
  files(run);
}

/// Writing records the version written and keeps the rest of the metadata.
fn written(run: &Run) {
  let targets = [V1, V1_1, V2, V3, V4];
  let mut cases = vec![];
  let others = [json!({}), json!({"x": {"a": "b", "c": ""}}), json!({"pactRust": {"ffi": "1", "models": "0"}}), json!({"pact-rust": {"version": "1"}}), json!({"x": {}, "é": {"version": "1.0.0"}})];
  for source in [V1, V1_1, V2, V3, V4] { for kind in ["http", "messages", "none"] { for o in &others { for spelling in ["pactSpecification", "pact-specification"] { for t in targets {
    if kind == "messages" && (source < V3 || t < V3) { continue; }
    cases.push((source, kind, o.clone(), spelling, t));
  } } } } }
  run.each("written", "every version read x kind of interaction x spelling x other metadata x version written", &cases, |(source, kind, o, spelling, t), rec| {
    rec.case(format!("{:?} {} {} {} written at {:?}", source, kind, o, spelling, t));
    rec.state(&format!("{:?}{}{}{}{:?}", source, kind, o, spelling, t));
    let mut d = json!({"consumer": {"name": "c"}, "provider": {"name": "p"}, "metadata": o});
    d["metadata"][*spelling] = json!({"version": source.version_str()});
    match (*kind, *source) {
      ("http", V4) => d["interactions"] = json!([{"type": "Synchronous/HTTP", "description": "d", "request": {}, "response": {}}]),
      ("http", _) => d["interactions"] = json!([{"description": "d", "request": {}, "response": {}}]),
      ("messages", V4) => d["interactions"] = json!([{"type": "Asynchronous/Messages", "description": "d"}]),
      ("messages", _) => d["messages"] = json!([{"description": "d"}]),
      _ => {}
    }
    let p = match load_pact_from_json("x", &d) { Ok(p) => p, Err(e) => { rec.fail("load", e.to_string()); return; } };
    rec.eq("read", source, &p.specification_version());
    let out = match rec.no_panic("panic", || p.to_json(*t)) { Some(Ok(o)) => o, Some(Err(e)) => { rec.fail("write", e.to_string()); return; } None => return };
    let mut exp = o.clone();
    if let Some(r) = exp.as_object_mut().unwrap().remove("pact-rust") { exp["pactRust"] = r; }
    exp["pactRust"]["models"] = json!(models_version());
    exp["pactSpecification"] = json!({"version": t.version_str()});
    rec.eq("metadata", &exp, &out["metadata"]);
    let q = match rec.no_panic("panic", || load_pact_from_json("x", &out)) { Some(Ok(o)) => o, Some(Err(e)) => { rec.fail("read again", e.to_string()); return; } None => return };
    rec.eq("version read again", t, &q.specification_version());
    rec.eq("interactions", &p.interactions().len(), &q.interactions().len());
    // conversions know their version
    if let Ok(r) = p.as_request_response_pact() { rec.eq("converted to request/response", &r.specification_version, &r.spec_version()); if *source != V4 { rec.eq("unconverted", source, &r.specification_version); } }
    if let Ok(r) = p.as_message_pact() { rec.eq("converted to messages", &r.specification_version, &r.spec_version()); }
    rec.steps(3);
    rec.trace();
    rec.outcome(format!("{:?} to {:?}", source, t));
  });
  run.each("new pacts", "the pacts made without a document", &[0, 1, 2], |k, rec| {
    rec.case(format!("{}", k));
    rec.state(k);
    match k {
      0 => { let p = RequestResponsePact::default(); rec.eq("version", &p.specification_version, &p.spec_version()); rec.eq("written", &json!({"pactSpecification": {"version": "3.0.0"}, "pactRust": {"models": models_version()}}), &json!(p.metadata_to_json(&V3))); }
      1 => { let p = MessagePact::default(); rec.eq("version", &p.specification_version, &p.spec_version()); rec.eq("written", &json!("3.0.0"), &p.metadata_to_json(&V3)["pactSpecification"]["version"]); }
      _ => { let p = V4Pact::default(); rec.eq("version", &V4, &p.specification_version()); rec.eq("written", &json!({"pactSpecification": {"version": "4.0"}, "pactRust": {"models": models_version()}}), &p.to_json(V4).unwrap()["metadata"]); }
    }
  });
}

/// Documents in files.
fn files(run: &Run) {
  let dir = std::env::temp_dir().join(format!("c22-{}", std::process::id()));
  let _ = std::fs::create_dir_all(&dir);
  let mut cases = vec![];
  for v in [V1, V1_1, V2, V3, V4, Unknown] { for spelling in ["pactSpecification", "pact-specification", ""] { for messages in [false, true] { cases.push((v, spelling, messages)); } } }
  run.each("files", "every version x spelling x kind of pact, read from a file", &cases, |(v, spelling, messages), rec| {
    rec.case(format!("{:?} {} {}", v, spelling, messages));
    rec.state(&format!("{:?}{}{}", v, spelling, messages));
    let d = doc(Some(if spelling.is_empty() { json!({}) } else { json!({*spelling: {"version": v.version_str()}}) }), *messages);
    let exp = if spelling.is_empty() { V3 } else { *v };
    let f = dir.join(format!("{:?}{}{}.json", v, spelling, messages));
    std::fs::write(&f, d.to_string()).unwrap();
    match rec.no_panic("panic", || read_pact(&f)) { Some(Ok(p)) => { rec.eq("read_pact", &exp, &p.specification_version()); } Some(Err(e)) => rec.fail("read_pact", e.to_string()), None => return }
    if !*messages { match rec.no_panic("panic", || RequestResponsePact::read_pact(&f)) { Some(Ok(p)) => { rec.eq("request/response", &if exp == V4 { V3 } else { exp }, &p.specification_version); } Some(Err(e)) => rec.fail("request/response", e.to_string()), None => return } }
    if *messages && exp != V4 { match rec.no_panic("panic", || MessagePact::read_pact(&f)) { Some(Ok(p)) => { rec.eq("messages", &exp, &p.specification_version); } Some(Err(e)) => rec.fail("messages", e.to_string()), None => return } }
    match rec.no_panic("panic", || V4Pact::read_pact(&f)) { Some(Ok(p)) => { rec.eq("V4", &V4, &p.specification_version()); } Some(Err(e)) => rec.fail("V4", e.to_string()), None => return }
    rec.steps(3);
    let _ = std::fs::remove_file(&f);
  });
  let _ = std::fs::remove_dir_all(&dir);
}
