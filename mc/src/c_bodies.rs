//! C07 bodies in V4 documents, C08 content types.
use bytes::Bytes;
use itertools::Itertools;
use mccore::*;
use pact_models::bodies::OptionalBody;
use pact_models::content_types::*;
use pact_models::http_parts::HttpPart;
use pact_models::v4::async_message::AsynchronousMessage;
use pact_models::v4::http_parts::{body_from_json, HttpRequest, HttpResponse};
use pact_models::v4::interaction::V4Interaction;
use pact_models::v4::message_parts::MessageContents;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap};
use crate::c_data::documents_up_to;

pub const TYPES: [&str; 14] = ["", "application/json", "application/json;charset=utf-8", "application/vnd.a.b+json", "application/xml", "text/xml", "text/plain", "application/x-www-form-urlencoded",
  "application/octet-stream", "image/png", "x-foo/bar", "application/graphql", "multipart/form-data; boundary=\"a b;c\"", "text/csv; header=present; charset=\"utf-8\""];

fn hints() -> [Option<ContentTypeHint>; 4] { [None, Some(ContentTypeHint::BINARY), Some(ContentTypeHint::TEXT), Some(ContentTypeHint::DEFAULT)] }
fn ct(s: &str) -> Option<ContentType> { if s.is_empty() { None } else { Some(ContentType::parse(s).unwrap()) } }

/// The same bytes, or the same JSON document for JSON content. An empty body is the same as a present one without bytes.
fn same(exp: &OptionalBody, got: &OptionalBody, json: bool) -> bool {
  match (exp, got) {
    (OptionalBody::Present(a, ..), b) if a.is_empty() => matches!(b, OptionalBody::Empty) || matches!(b, OptionalBody::Present(b, ..) if b.is_empty()),
    (OptionalBody::Present(a, ..), OptionalBody::Present(b, ..)) => a == b || json && match (serde_json::from_slice::<Value>(a), serde_json::from_slice::<Value>(b)) { (Ok(x), Ok(y)) => x == y, _ => false },
    (OptionalBody::Missing, OptionalBody::Missing) | (OptionalBody::Empty, OptionalBody::Empty) | (OptionalBody::Null, OptionalBody::Null) => true,
    (OptionalBody::Null, OptionalBody::Missing) => true, // null bodies are written as no body
    _ => false,
  }
}

fn check_body(rec: &mut Rec, body: &OptionalBody, ct: &Option<ContentType>, hint: &Option<ContentTypeHint>, deep: bool) {
  let json = ct.as_ref().map(|c| c.is_json()).unwrap_or(false);
  let unknown = ContentType::default();
  let judge = |rec: &mut Rec, what: &str, got: Option<OptionalBody>| {
    rec.steps(1);
    let got = match got { Some(g) => g, None => { rec.fail(what, "not readable"); return; } };
    rec.check(same(body, &got, json), what, || format!("wrote {:?}, read {:?}", body, got));
    if let (OptionalBody::Present(b, ..), OptionalBody::Present(_, c, h)) = (body, &got) {
      if b.is_empty() { return; }
      let c = c.clone().unwrap_or_default();
      rec.check(*ct.as_ref().unwrap_or(&unknown) == c, &format!("{}: content type", what), || format!("wrote {:?}, read {:?}", ct, c));
      rec.check(h == hint, &format!("{}: hint", what), || format!("wrote {:?}, read {:?}", hint, h));
    }
  };
  let j = match rec.no_panic("panic", || body.to_v4_json()) { Some(j) => j, None => return };
  let doc = if j.is_object() { json!({"body": j}) } else { json!({}) };
  let g = rec.no_panic("panic", || body_from_json(&doc, "body", &None));
  judge(rec, "body", g.clone());
  // and again: what was read writes the same document
  if let Some(g) = g { rec.check(g.to_v4_json() == j || g == OptionalBody::Empty, "written again", || format!("{} then {}", j, g.to_v4_json())); }
  if !deep { return; }
  let q = HttpRequest { body: body.clone(), ..HttpRequest::default() };
  let r = HttpResponse { body: body.clone(), ..HttpResponse::default() };
  let m = MessageContents { contents: body.clone(), ..Default::default() };
  if ct.is_some() {
    judge(rec, "V4 request", HttpRequest::from_json(&q.to_json()).ok().map(|r| r.body));
    judge(rec, "V4 response", HttpResponse::from_json(&r.to_json()).ok().map(|r| r.body));
    judge(rec, "V4 message contents", MessageContents::from_json(&m.to_json()).ok().map(|r| r.contents));
    let a = AsynchronousMessage { contents: m.clone(), ..Default::default() };
    judge(rec, "V4 message", AsynchronousMessage::from_json(&a.to_json(), 0).ok().map(|r| r.contents.contents));
  }
  rec.trace();
}

pub fn c07(run: &Run) {
  let bytes: Vec<u8> = vec![0, b' ', b'"', b'0', b'a', b'{', b'}', b'[', b']', b'<', 0xC3, 0xA9, 0xFF, b'\n', b'='];
  let n = if run.thorough { 5 } else { 4 };
  let hs = hints();
  run.explore("bytes", "every content type x hint x every byte string over 15 bytes up to a length (valid and invalid UTF-8, JSON fragments, base64 look-alikes)", (TYPES.len() * hs.len()) as u64 * seq_count(bytes.len(), n), |i, rec| {
    let d = digits(i, &[TYPES.len(), hs.len(), seq_count(bytes.len(), n) as usize]);
    let b: Vec<u8> = seq_at(d[2] as u64, bytes.len()).iter().map(|k| bytes[*k]).collect();
    rec.case(format!("{:?} {:?} {:?}", TYPES[d[0]], hs[d[1]], String::from_utf8_lossy(&b)));
    rec.state(&(d[0], d[1], &b));
    let c = ct(TYPES[d[0]]);
    check_body(rec, &OptionalBody::Present(Bytes::from(b), c.clone(), hs[d[1]]), &c, &hs[d[1]], d[2] < 4000);
  });
  let every: Vec<u8> = (0..=255).collect();
  run.pairs("byte", "every byte value alone and between letters, for every content type", &TYPES, &every, |t, b, rec| {
    rec.case(format!("{:?} {:#04x}", t, b));
    rec.state(&(t, b));
    for v in [vec![*b], vec![b'a', *b, b'z'], vec![b'"', *b, b'"']] { let c = ct(t); check_body(rec, &OptionalBody::Present(Bytes::from(v), c.clone(), None), &c, &None, true); }
  });
  let mut docs: Vec<String> = documents_up_to(if run.thorough { 6 } else { 5 }).iter().map(|d| d.to_string()).collect();
  for s in ["\"\"", "\" \"", "\"a\\\"b\"", "-1", "1.5", "1e3", " {} ", "[ ]", "{\"b\":1,\"a\":2}", "\"\\u00e9\\u0000\"", "nul", "[1,]", "9223372036854775808", "-0", "\"eyJ9\"", "null ", "abcd", "YWJj", "{\"content\":null,\"encoded\":\"base64\"}"] { docs.push(s.to_string()); }
  run.pairs("documents", "JSON documents up to a number of nodes and other texts, under every content type", &TYPES, &docs, |t, s, rec| {
    rec.case(format!("{:?} {}", t, s));
    rec.state(&(t, s));
    for h in [None, Some(ContentTypeHint::TEXT)] { let c = ct(t); check_body(rec, &OptionalBody::Present(Bytes::from(s.clone()), c.clone(), h), &c, &h, true); }
  });
  let states = [OptionalBody::Missing, OptionalBody::Empty, OptionalBody::Null, OptionalBody::Present(Bytes::new(), None, None)];
  run.pairs("presence", "the presence states", &states, &TYPES, |s, t, rec| {
    rec.case(format!("{:?} {}", s, t));
    rec.state(&rec.label().to_string());
    check_body(rec, &s.with_content_type(ct(t)), &ct(t), &None, true);
  });
  // a body without its own content type takes it from the header or the metadata, in every part alike
  let texts: [&[u8]; 8] = [b"{\"a\":1}", b"abc", b"<a/>", b"\xff\x00", b"\"\"", b"null", b"\xc3\xa9", b"1"];
  run.pairs("headers", "bodies whose content type is only in the header or metadata", &TYPES, &texts, |t, b, rec| {
    if t.is_empty() { return; }
    rec.case(format!("{:?} {:?}", t, String::from_utf8_lossy(b)));
    rec.state(&rec.label().to_string());
    let c = ct(t);
    let body = OptionalBody::Present(Bytes::from(b.to_vec()), None, None);
    let h = Some([("Content-Type".to_string(), vec![t.to_string()])].into_iter().collect::<HashMap<_, _>>());
    let judge = |rec: &mut Rec, what: &str, got: Option<(OptionalBody, Option<ContentType>)>| {
      rec.steps(1);
      let got = match got { Some(g) => g, None => { rec.fail(what, "not readable"); return; } };
      rec.check(same(&body, &got.0, c.as_ref().unwrap().is_json()), what, || format!("wrote {:?}, read {:?}", body, got.0));
      rec.eq(&format!("{}: content type", what), &c, &got.1);
    };
    let q = HttpRequest { headers: h.clone(), body: body.clone(), ..HttpRequest::default() };
    judge(rec, "V4 request", HttpRequest::from_json(&q.to_json()).ok().map(|r| (r.body.clone(), r.content_type())));
    let r = HttpResponse { headers: h, body: body.clone(), ..HttpResponse::default() };
    judge(rec, "V4 response", HttpResponse::from_json(&r.to_json()).ok().map(|r| (r.body.clone(), r.content_type())));
    let m = MessageContents { metadata: [("contentType".to_string(), json!(t))].into_iter().collect(), contents: body.clone(), ..Default::default() };
    judge(rec, "V4 message contents", MessageContents::from_json(&m.to_json()).ok().map(|r| (r.contents.clone(), r.message_content_type())));
    let a = AsynchronousMessage { contents: m, ..Default::default() };
    judge(rec, "V4 message", AsynchronousMessage::from_json(&a.to_json(), 0).ok().map(|r| (r.contents.contents.clone(), r.message_content_type())));
  });
  // decoding as the attributes say
  let contents: Vec<Value> = vec![json!("YWJj"), json!("abc"), json!(""), json!("é\""), json!("{\"a\":1}"), json!("null"), json!({"a": [1, "x"]}), json!([]), json!(1), json!(true), json!("/+8="), json!("a b"), json!("\"q\"")];
  let encs: Vec<Option<Value>> = vec![None, Some(json!(false)), Some(json!("base64")), Some(json!("BASE64")), Some(json!("Base64")), Some(json!("json")), Some(json!("JSON"))];
  let cts = ["-", "application/json", "application/vnd.x+json; charset=UTF-8", "text/plain", "application/xml", "image/png", "application/octet-stream"];
  let hs: Vec<Option<&str>> = vec![None, Some("BINARY"), Some("TEXT"), Some("DEFAULT")];
  run.explore("decode", "every content x encoding x content type x hint x header, decoded as the attributes say", space_size(&[contents.len(), encs.len(), cts.len(), hs.len(), 3]), |i, rec| {
    let d = digits(i, &[contents.len(), encs.len(), cts.len(), hs.len(), 3]);
    let content = &contents[d[0]];
    let mut b = json!({"content": content});
    if let Some(e) = &encs[d[1]] { b["encoded"] = e.clone(); }
    if cts[d[2]] != "-" { b["contentType"] = json!(cts[d[2]]); }
    if let Some(h) = hs[d[3]] { b["contentTypeHint"] = json!(h); }
    let header = ["", "text/csv", "application/hal+json"][d[4]];
    let headers: Option<HashMap<String, Vec<String>>> = if header.is_empty() { None } else { Some([("CONTENT-type".to_string(), vec![header.to_string(), "x/y".to_string()])].into_iter().collect()) };
    rec.case(format!("{} header {:?}", b, header));
    rec.state(&(b.to_string(), header));
    let known = if cts[d[2]] != "-" { ct(cts[d[2]]) } else { ct(header) };
    let text = match content { Value::String(s) => s.clone(), v => v.to_string() };
    let enc = encs[d[1]].as_ref().and_then(|e| e.as_str()).map(|s| s.to_lowercase());
    let bytes: Vec<u8> = match enc.as_deref() {
      Some("base64") => { use base64::Engine; match base64::engine::general_purpose::STANDARD.decode(&text) { Ok(b) => b, Err(_) => text.into_bytes() } }
      Some(_) => text.into_bytes(),
      None => if known.as_ref().map(|c| c.is_json()).unwrap_or(false) { if *content == json!("") { vec![] } else { content.to_string().into_bytes() } } else { text.into_bytes() },
    };
    let got = match rec.no_panic("panic", || body_from_json(&json!({"b": b}), "b", &headers)) { Some(g) => g, None => return };
    if bytes.is_empty() { rec.outcome("empty"); rec.check(matches!(got, OptionalBody::Empty), "decoded", || format!("expected an empty body, got {:?}", got)); return; }
    match &got {
      OptionalBody::Present(g, c, h) => {
        rec.outcome("present");
        rec.check(bytes == *g, "decoded", || format!("expected {:?}, got {:?}", Bytes::from(bytes.clone()), g));
        if let Some(k) = known { rec.eq("content type", &Some(k), c); }
        rec.eq("hint", &hs[d[3]].map(|s| s.to_string()), &h.map(|h| h.to_string()));
      }
      g => { rec.fail("decoded", format!("expected {:?}, got {:?}", bytes, g)); }
    }
  });
  let odd: Vec<(Value, OptionalBody)> = vec![(json!({}), OptionalBody::Missing), (json!({"b": null}), OptionalBody::Null), (json!({"b": {}}), OptionalBody::Missing), (json!({"b": {"content": null}}), OptionalBody::Null),
    (json!({"b": {"content": null, "contentType": "text/plain"}}), OptionalBody::Null), (json!({"b": {"contentType": "text/plain"}}), OptionalBody::Missing), (json!({"b": {"content": ""}}), OptionalBody::Empty),
    (json!({"b": "text"}), OptionalBody::Present("text".into(), None, None)), (json!({"b": [1]}), OptionalBody::Present("[1]".into(), None, None))];
  run.each("presence forms", "documents without a body, content or with null", &odd, |(doc, exp), rec| {
    rec.case(doc.to_string());
    rec.state(&doc.to_string());
    let got = rec.no_panic("panic", || body_from_json(doc, "b", &None));
    rec.check(got.as_ref().map(|g| same(exp, g, false)).unwrap_or(false), "decoded", || format!("expected {:?}, got {:?}", exp, got));
  });
  // what is displayed
  run.pairs("display", "the displayed form of text and binary bodies", &every, &[0usize, 1, 30, 31, 32, 40], |b, pad, rec| {
    rec.case(format!("{:#04x} +{}", b, pad));
    rec.state(&(b, pad));
    let v: Vec<u8> = std::iter::once(*b).chain(std::iter::repeat(b'z').take(*pad)).chain([0x0a]).collect();
    let hex: String = v.iter().take(32).map(|b| format!("{:02X}", b)).collect();
    let exp = if v.len() > 32 { format!("{}... ({} bytes)", hex, v.len()) } else { format!("{} ({} bytes)", hex, v.len()) };
    let body = OptionalBody::Present(Bytes::from(v.clone()), ct("image/png"), None);
    rec.eq("binary body", &exp, &body.display_string());
    let text = OptionalBody::Present(Bytes::from(v.clone()), ct("text/plain"), None);
    rec.eq("text body", &String::from_utf8(v.clone()).unwrap_or(exp), &text.display_string());
    rec.eq("text value", &String::from_utf8(v).ok(), &text.value_as_string());
  });
}

// ---------------------------------------------------------------------------------------------------------------------

fn judge_type(rec: &mut Rec, text: &str, t: &ContentType) {
  if t.attributes.values().any(|v| v.is_empty()) { rec.outcome("attribute without a value"); return; } // not in the grammar of media types
  let printed = t.to_string();
  let back = ContentType::parse(printed.as_str());
  rec.steps(1);
  rec.check(matches!(&back, Ok(b) if b == t), "printed form", || format!("{:?} is {:?}, printed as {:?}, which is {:?}", text, t, printed, back.as_ref().ok()));
  if let Ok(b) = &back { rec.eq("printed again", &printed, &b.to_string()); rec.eq("hash", &hash_of(t), &hash_of(b)); }
}

pub fn c08(run: &Run) {
  let mains = ["application", "text", "image", "multipart", "audio", "font", "video", "x-foo", "*", "Application", "message"];
  let subs = ["json", "xml", "plain", "html", "*", "vnd.acme.v1", "octet-stream", "x-www-form-urlencoded", "graphql", "png", "XML", "form-data", "vnd.a+b"];
  let sufs = ["", "json", "xml", "zip", "XML"];
  let attrs = ["charset=utf-8", "charset=UTF-8", "charset=\"utf-16\"", "charset=iso-8859-1", "boundary=\"a b\"", "b=\"x;y=z\"", "a=b", "v=\"\"", "q=0.5", "p=\"a,b\"", "s=\"a/b\"", "e=\"\\\"\"", "k=\"a\\\\b\"", "U=Xy"];
  let n = seq_count(attrs.len(), if run.thorough { 3 } else { 2 });
  run.explore("types", "every type x sub-type x suffix with every list of attributes up to a length", space_size(&[mains.len(), subs.len(), sufs.len(), n as usize]), |i, rec| {
    let d = digits(i, &[mains.len(), subs.len(), sufs.len(), n as usize]);
    let ats: Vec<&str> = seq_at(d[3] as u64, attrs.len()).iter().map(|k| attrs[*k]).collect();
    let base = format!("{}/{}{}", mains[d[0]], subs[d[1]], if sufs[d[2]].is_empty() { String::new() } else { format!("+{}", sufs[d[2]]) });
    let text = format!("{}{}", base, ats.iter().map(|a| format!("; {}", a)).collect::<String>());
    rec.case(text.clone());
    let t = match rec.no_panic("panic", || ContentType::parse(text.as_str())) { Some(Ok(t)) => t, Some(Err(_)) => { rec.outcome("not a type"); return; } None => return };
    rec.state(&t.to_string());
    judge_type(rec, &text, &t);
    // the parts are those of the text; names are case insensitive
    let plain = match ContentType::parse(base.as_str()) { Ok(p) => p, Err(e) => { rec.fail("base", e.to_string()); return; } };
    rec.check(plain.main_type == t.main_type && plain.sub_type == t.sub_type && plain.suffix == t.suffix && plain.attributes.is_empty(), "parts", || format!("{:?} against {:?}", t, plain));
    rec.eq("type", &mains[d[0]].to_lowercase(), &t.main_type);
    if !subs[d[1]].contains('+') {
      rec.eq("sub-type", &subs[d[1]].to_lowercase(), &t.sub_type);
      rec.eq("suffix", &(if sufs[d[2]].is_empty() { None } else { Some(sufs[d[2]].to_lowercase()) }), &t.suffix);
    }
    // attribute order does not matter
    if ats.iter().map(|a| a.split('=').next().unwrap().to_lowercase()).all_unique() {
      for p in util::permutations(ats.len()) {
        let text = format!("{}{}", base, p.iter().map(|k| format!(";{}", ats[*k])).collect::<String>());
        match ContentType::parse(text.as_str()) {
          Ok(u) => { rec.check(u == t && u.to_string() == t.to_string() && hash_of(&u) == hash_of(&t), "attribute order", || format!("{} is {:?}", text, u)); }
          Err(e) => { rec.fail("attribute order", e.to_string()); }
        }
      }
      let exp: BTreeMap<String, String> = ats.iter().map(|a| { let (k, v) = a.split_once('=').unwrap(); (k.to_lowercase(), v.trim_matches('"').to_string()) }).collect();
      if !ats.iter().any(|a| a.contains('\\')) {
        let got: BTreeMap<String, String> = t.attributes.iter().map(|(k, v)| (k.to_lowercase(), v.clone())).collect();
        let ci = |m: &BTreeMap<String, String>| m.iter().map(|(k, v)| (k.clone(), if k == "charset" { v.to_lowercase() } else { v.clone() })).collect::<BTreeMap<_, _>>();
        rec.eq("attributes", &ci(&exp), &ci(&got));
      }
    }
    // classification
    let class = |t: &ContentType| (t.is_json(), t.is_xml(), t.is_text(), t.is_binary(), t.is_form_urlencoded(), t.is_unknown());
    rec.eq("classification without attributes", &class(&plain), &class(&t));
    let (m, s, x) = (t.main_type.as_str(), t.sub_type.as_str(), t.suffix.as_deref());
    if !(s == "graphql" && x.is_some()) && x.map(|x| x == s || !["json", "xml"].contains(&s)).unwrap_or(true) {
      let json = m == "application" && (s == "json" || x == Some("json") || s == "graphql");
      let xml = (m == "application" || m == "text") && (s == "xml" || x == Some("xml"));
      let form = m == "application" && s == "x-www-form-urlencoded";
      rec.eq("is JSON", &json, &t.is_json());
      rec.eq("is XML", &xml, &t.is_xml());
      rec.eq("is text", &(m == "text" || json || xml || form), &t.is_text());
      rec.eq("is binary", &!(m == "text" || json || xml || form), &t.is_binary());
      rec.eq("is form", &form, &t.is_form_urlencoded());
      rec.eq("is unknown", &(m == "*" || s == "*"), &t.is_unknown());
      // the base type keeps the classification
      let b = t.base_type();
      rec.check(b.attributes.is_empty() && b.suffix.is_none(), "base type", || format!("{:?}", b));
      if ["json", "xml", ""].contains(&x.unwrap_or("")) { rec.eq("base type class", &(json, xml), &(b.is_json(), b.is_xml())); }
      if x.is_none() { rec.eq("base type names", &(m, s), &(b.main_type.as_str(), b.sub_type.as_str())); }
      rec.check(b == b.base_type(), "base of base", || format!("{:?}", b));
    }
    // a type is equivalent to itself, and one without attributes to any with the same names
    rec.check(t.is_equivalent_to(&t), "equivalent to itself", || t.to_string());
    rec.check(plain.is_equivalent_to(&t), "equivalent without attributes", || t.to_string());
    rec.check(t == *text.as_str() && !(t == *"x-other/thing"), "compared with text", || text.clone());
  });
  let sym: Vec<char> = "a/+;=\" *\\é,1".chars().collect();
  run.explore("texts", "every text over the type syntax up to a length: parsing is total, and what parses prints back", seq_count(sym.len(), if run.thorough { 7 } else { 6 }), |i, rec| {
    let s: String = seq_at(i, sym.len()).iter().map(|k| sym[*k]).collect();
    rec.case(format!("{:?}", s));
    if let Some(Ok(t)) = rec.no_panic("panic", || ContentType::parse(s.as_str())) { rec.outcome("type"); rec.state(&t.to_string()); judge_type(rec, &s, &t); }
  });
  run.explore("attribute texts", "every text over the attribute syntax up to a length after a type", seq_count(sym.len(), if run.thorough { 6 } else { 5 }), |i, rec| {
    let s: String = format!("a/b;c={}", seq_at(i, sym.len()).iter().map(|k| sym[*k]).collect::<String>());
    rec.case(format!("{:?}", s));
    if let Some(Ok(t)) = rec.no_panic("panic", || ContentType::parse(s.as_str())) { rec.outcome("type"); rec.state(&t.to_string()); judge_type(rec, &s, &t); }
  });
  // detection
  let heads: Vec<(&str, &str)> = vec![("<?xml version=\"1.0\"?>", "application/xml"), ("<?xml  version='1'?><a/>", "application/xml"), ("<a>", "application/xml"), ("<a:b xmlns:a=\"u\">", "application/xml"), ("<a", "application/xml"),
    ("<!DOCTYPE html>", "text/html"), ("<!doctype HTML>", "text/html"), ("<html>", "text/html"), ("<HTML>", "text/html"), ("<Html>", "text/html"),
    ("{}", "application/json"), ("{ }", "application/json"), ("{\"a\": 1,", "application/json"), ("{\n  \"ab\":", "application/json"), ("[", "application/json"), ("[1,2", "application/json"), ("true", "application/json"), ("false", "application/json"), ("null", "application/json"), ("\"text\"", "application/json"), ("\"\"", "application/json"), ("0", "application/json"), ("12.5", "application/json"),
    ("hello", "text/plain"), ("", "text/plain"), ("a,b;c", "text/plain"), ("-- x", "text/plain"), ("é", "text/plain"), ("(<html>)", "text/plain"), ("see <!DOCTYPE", "text/plain"), ("tru", "text/plain"), ("Hello {}", "text/plain"), ("=1", "text/plain")];
  let spaces = ["", " ", "\n", "  \n\t ", "\r\n  "];
  let tails = ["", "é", "€", "𝄞", " <html>", "<?xml version", "{}"];
  run.explore("detection", "every kind of beginning after white space, followed by text that puts multi-byte characters at every offset up to 40", space_size(&[heads.len(), spaces.len(), tails.len(), 40]), |i, rec| {
    let d = digits(i, &[heads.len(), spaces.len(), tails.len(), 40]);
    let (h, e) = heads[d[0]];
    let pad = if h == "" || h == "tru" { " " } else { "z" };
    let text = format!("{}{}{}{}{}", spaces[d[1]], h, pad.repeat(d[3]), tails[d[2]], if d[2] > 0 { "zz" } else { "" });
    if h == "" && (d[2] >= 4) || (h == "<a" || h == "<Html>") && d[2] == 0 && d[3] == 0 && false { return; }
    rec.case(format!("{:?}", text));
    rec.state(&text);
    let e = ContentType::parse(e).unwrap();
    rec.eq("from text", &Some(e.clone()), &detect_content_type_from_string(&text));
    rec.eq("from bytes", &Some(e.clone()), &detect_content_type_from_bytes(text.as_bytes()));
    let q = HttpRequest { body: OptionalBody::Present(text.clone().into(), None, None), ..HttpRequest::default() };
    rec.eq("of a request", &Some(e.clone()), &HttpPart::detect_content_type(&q));
    rec.eq("of a request by its body", &Some(e), &q.content_type());
  });
}
