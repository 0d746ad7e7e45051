//! C66: pact handles of the C interface: their metadata, versions and files, and the parts of multipart bodies.
use crate::ffi::*;
use mccore::{digits, seq_at, seq_count, space_size, Rec, Run};
use pact_ffi::models::{interactions::*, iterators::*, *};
use pact_ffi::mock_server::StringResult;
use pact_models::content_types::ContentType;
use pact_models::generators::Generators;
use pact_models::matchingrules::{MatchingRule, MatchingRules, RuleLogic};
use pact_models::pact::{write_pact, Pact as _};
use pact_models::path_exp::DocPath;
use pact_models::v4::async_message::AsynchronousMessage;
use pact_models::v4::interaction::V4Interaction;
use pact_models::v4::pact::V4Pact;
use pact_models::v4::sync_message::SynchronousMessage;
use pact_models::v4::synch_http::SynchronousHttp;
use pact_models::{Consumer, PactSpecification, PactSpecification as Spec, Provider};
use serde_json::{json, Value};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering};

/// A directory of this process for the files of a case.
struct Scratch(PathBuf);
static N: AtomicU64 = AtomicU64::new(0);
impl Scratch {
  fn new() -> Scratch { let p = std::env::temp_dir().join(format!("mci-{}", std::process::id())).join(N.fetch_add(1, Ordering::SeqCst).to_string()); std::fs::create_dir_all(&p).unwrap(); Scratch(p) }
}
impl Drop for Scratch { fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.0); } }
fn tidy() { let _ = std::fs::remove_dir_all(std::env::temp_dir().join(format!("mci-{}", std::process::id()))); }

type B = Option<&'static [u8]>;
#[derive(Clone, Copy, Debug, PartialEq)]
enum Dir { There, New, File, NoText }
#[derive(Clone, Copy, Debug, PartialEq)]
enum Op { Version(Spec), Meta(usize, B, B, B), Add(usize, usize, &'static str), Write(usize, Dir, bool), Free(usize) }
use Op::*;
/// What a handle stands for.
struct Model { alive: bool, version: PactSpecification, pact: V4Pact }
const KINDS: [&str; 5] = ["HTTP interaction", "message interaction", "synchronous message interaction", "message of the message functions", "asynchronous message of the message functions"];
fn text(b: B) -> &'static str { b.and_then(|b| std::str::from_utf8(b).ok()).unwrap_or("") }
impl Model {
  /// Sets metadata; the namespaces of the pact models are not for others.
  fn meta(&mut self, ns: B, name: B, value: B) -> bool {
    let (ns, name, value) = (text(ns), text(name), text(value));
    if !self.alive || ns.is_empty() || ns == "pactRust" || ns == "pactSpecification" { return false; }
    let e = self.pact.metadata.entry(ns.to_string()).or_insert(json!({}));
    e[name] = json!(value);
    true
  }
  fn add(&mut self, kind: usize, d: &str) -> usize {
    if !self.alive { return 0; }
    let i: Box<dyn V4Interaction + Send + Sync + std::panic::RefUnwindSafe> = match kind { 0 => Box::new(SynchronousHttp { description: d.into(), ..Default::default() }), 2 => Box::new(SynchronousMessage { description: d.into(), ..Default::default() }), _ => Box::new(AsynchronousMessage { description: d.into(), ..Default::default() }) };
    let l = &mut self.pact.interactions;
    match if kind < 3 { l.iter().position(|x| x.description() == d) } else { None } { Some(n) => { l[n] = i; n + 1 } None => { l.push(i); l.len() } }
  }
}
fn shown(p: &V4Pact) -> String { format!("{} {} {:?} {:?}", p.consumer.name, p.provider.name, p.metadata, p.interactions.iter().map(|i| whole(i.as_ref()).to_string()).collect::<Vec<_>>()) }
struct World { p: PactHandle, q: MessagePactHandle, m: [Model; 2], real: Scratch, want: Scratch }
impl World {
  fn new() -> World {
    let (p, q) = (pactffi_new_pact(t("c").p(), t("p").p()), pactffi_new_message_pact(t("c").p(), t("p").p()));
    let first = |h: MessagePactHandle| h.with_pact(&|_, p, _| p.metadata.clone()).unwrap();
    let m = |h| Model { alive: true, version: PactSpecification::V3, pact: V4Pact { consumer: Consumer { name: "c".into() }, provider: Provider { name: "p".into() }, metadata: first(h), ..V4Pact::default() } };
    let w = World { p, q, m: [m(as_message_pact(p)), m(q)], real: Scratch::new(), want: Scratch::new() };
    for d in [&w.real, &w.want] { std::fs::write(d.0.join("file"), "").unwrap(); }
    w
  }
  fn handle(&self, h: usize) -> MessagePactHandle { if h == 0 { as_message_pact(self.p) } else { self.q } }
  fn path(d: &Scratch, dir: Dir) -> PathBuf { match dir { Dir::There | Dir::NoText => d.0.clone(), Dir::New => d.0.join("a/b"), Dir::File => d.0.join("file") } }
  /// What a call answers, before and after; what it does is done to the model.
  fn told(&mut self, op: Op) -> i64 {
    match op {
      Version(v) => { let m = &mut self.m[0]; if m.alive { m.version = v; } m.alive as i64 }
      Meta(0, a, b, c) => self.m[0].meta(a, b, c) as i64,
      Meta(_, a, b, c) => { self.m[1].meta(a, b, c); 0 }
      Add(h, k, d) => self.m[h].add(k, d) as i64,
      Write(h, dir, over) => {
        let m = &self.m[h];
        if !m.alive { return if h == 0 { 3 } else { 2 }; }
        let failed = if h == 0 { 2 } else { 1 };
        if dir == Dir::NoText { return failed; }
        let at = World::path(&self.want, dir).join("c-p.json");
        if write_pact(m.pact.boxed(), &at, m.version, over).is_ok() { 0 } else { failed }
      }
      Free(h) => { let a = self.m[h].alive; self.m[h].alive = false; !a as i64 }
    }
  }
  fn done(&self, op: Op) -> i64 {
    let opt = |b: B| crate::ffi::t(Some(b).flatten().map(|b| unsafe { std::str::from_utf8_unchecked(b) }));
    match op {
      Version(v) => pactffi_with_specification(self.p, v) as i64,
      Meta(0, a, b, c) => pactffi_with_pact_metadata(self.p, opt(a).p(), opt(b).p(), opt(c).p()) as i64,
      Meta(_, a, b, c) => { pactffi_with_message_pact_metadata(self.q, opt(a).p(), opt(b).p(), opt(c).p()); 0 }
      Add(h, k, d) => {
        let of = if h == 0 { self.p } else { unsafe { std::mem::transmute(self.q) } };
        #[allow(deprecated)]
        let i: u32 = unsafe { match k { 0 => std::mem::transmute(pactffi_new_interaction(of, t(d).p())), 1 => std::mem::transmute(pactffi_new_message_interaction(of, t(d).p())), 2 => std::mem::transmute(pactffi_new_sync_message_interaction(of, t(d).p())), 3 => std::mem::transmute(pactffi_new_message(as_message_pact(of), t(d).p())), _ => std::mem::transmute(pactffi_new_async_message(of, t(d).p())) } };
        if (i >> 16) as u16 != pact_id(of) { -1 } else { (i & 0xffff) as i64 }
      }
      Write(h, dir, over) => {
        let at = World::path(&self.real, dir).to_str().unwrap().to_string().into_bytes();
        let at = if dir == Dir::NoText { [&at[..], b"/\xff\xfe"].concat() } else { at };
        if h == 0 { pactffi_pact_handle_write_file(self.p, t(&at[..]).p(), over) as i64 } else { pactffi_write_message_pact_file(self.q, t(&at[..]).p(), over) as i64 }
      }
      Free(0) => pactffi_free_pact_handle(self.p) as i64,
      Free(_) => pactffi_free_message_pact_handle(self.q) as i64,
    }
  }
}
fn files(d: &Path) -> Vec<(String, String)> {
  let mut v = vec![];
  let mut todo = vec![d.to_path_buf()];
  while let Some(at) = todo.pop() { for e in std::fs::read_dir(&at).unwrap().flatten() { let p = e.path(); if p.is_dir() { todo.push(p); } else { v.push((p.strip_prefix(d).unwrap().to_string_lossy().to_string(), std::fs::read_to_string(&p).unwrap_or_default())); } } }
  v.sort();
  v
}
fn ops(all: bool) -> Vec<Op> {
  let mut v = vec![Version(Spec::V2), Version(Spec::V4)];
  if all { v.extend([Version(Spec::Unknown), Version(Spec::V1), Version(Spec::V1_1), Version(Spec::V3)]); }
  let s = |x: &'static str| Some(x.as_bytes());
  for h in [0, 1] {
    v.extend([Meta(h, s("cl"), s("n"), s("1")), Meta(h, s("cl"), s("m"), s("{}")), Meta(h, s("pactRust"), s("ffi"), s("x"))]);
    if all { v.extend([Meta(h, s("cl"), s("n"), s("")), Meta(h, s("Cl"), s("N"), None), Meta(h, s("pactSpecification"), s("version"), s("1.0.0")), Meta(h, s("pactspecification"), s("version"), s("1.0.0")), Meta(h, s(""), s("n"), s("1")), Meta(h, None, s("n"), s("1")), Meta(h, s("cl"), None, s("1")), Meta(h, s("cl"), s(""), s("é")), Meta(h, Some(b"\xff"), s("n"), s("1")), Meta(h, s("cl"), Some(b"\xff"), Some(b"\xff"))]); }
    v.extend([Write(h, Dir::There, false), Write(h, Dir::There, true), Write(h, Dir::NoText, false), Free(h)]);
    if all { v.extend([Write(h, Dir::New, false), Write(h, Dir::File, true)]); for k in 0..5 { for d in ["a", "b", ""] { v.push(Add(h, k, d)); } } }
  }
  if !all { v.extend([Add(0, 0, "a"), Add(0, 0, "b"), Add(0, 1, "a"), Add(1, 3, "a"), Add(1, 3, "b"), Add(0, 4, "a"), Add(0, 2, "s")]); }
  v
}
fn played(rec: &mut Rec, l: &[Op]) {
  let mut w = World::new();
  for op in l {
    rec.steps(1);
    let want = w.told(*op);
    let got = w.done(*op);
    rec.eq("answer", &want, &got);
    for h in [0, 1] {
      let m = &w.m[h];
      let is = w.handle(h).with_pact(&|_, p, v| (shown(p), v));
      rec.eq("pact", &m.alive.then(|| (shown(&m.pact), m.version)), &is);
    }
    let v = pactffi_handle_get_pact_spec_version(w.p);
    rec.eq("version", &format!("{:?}", if w.m[0].alive { w.m[0].version } else { PactSpecification::Unknown }), &format!("{:?}", v));
    rec.eq("files", &files(&w.want.0), &files(&w.real.0));
  }
  rec.state(&(shown(&w.m[0].pact), shown(&w.m[1].pact), files(&w.want.0)));
  pactffi_free_pact_handle(w.p);
  pactffi_free_message_pact_handle(w.q);
}

/// The parts of a multipart body: name, file name and data; nothing for an empty part.
type Part = Option<(String, String, Vec<u8>)>;
fn parts_of(body: &[u8], boundary: &str) -> Option<Vec<Part>> {
  let (d, e) = (format!("--{}\r\n", boundary).into_bytes(), format!("--{}--\r\n", boundary).into_bytes());
  // the lines the body consists of
  let mut at = vec![0]; for i in 0..body.len().saturating_sub(1) { if &body[i..i + 2] == b"\r\n" && i + 2 < body.len() { at.push(i + 2); } }
  let line = |n: usize| &body[at[n]..at.get(n + 1).copied().unwrap_or(body.len())];
  let mut res: Vec<Vec<u8>> = vec![];
  let mut open = false;
  for n in 0..at.len() {
    if body.is_empty() { return None; }
    if line(n) == &d[..] { res.push(vec![]); open = true; }
    else if line(n) == &e[..] { if n + 1 != at.len() { return None; } open = false; }
    else if open { res.last_mut().unwrap().extend_from_slice(line(n)); }
    else { return None; }
  }
  if open { return None; }
  Some(res.into_iter().map(|p| {
    if p.is_empty() || p == b"\r\n" || p == b"\r\n\r\n" { return None; }
    let s = String::from_utf8_lossy(&p).to_string();
    let field = |k: &str| s.split(&format!("; {}=\"", k)).nth(1).and_then(|x| x.split('"').next()).unwrap_or("?").to_string();
    let head = p.windows(4).position(|w| w == b"\r\n\r\n").map(|n| n + 4).unwrap_or(p.len());
    let data = p[head..].strip_suffix(b"\r\n").unwrap_or(&p[head..]).to_vec();
    Some((field("name"), field("filename"), data))
  }).collect())
}
#[derive(Clone, Copy, Debug)]
struct Call { part: InteractionPart, content_type: B, file: Option<&'static str>, name: Option<&'static str>, boundary: Option<&'static str> }
const FILES: [(&str, &[u8]); 4] = [("a.txt", b"some text"), ("b.bin", b"\x00\xff\r\n--B\r\n\r\n"), ("c.json", b"{\"a\": [1]}\r\n"), ("d", b"")];
fn multipart(rec: &mut Rec, kind: usize, before: usize, l: &[Call]) {
  static DIR: std::sync::OnceLock<PathBuf> = std::sync::OnceLock::new();
  let dir = DIR.get_or_init(|| { let d = std::env::temp_dir().join(format!("mci-{}", std::process::id())).join("parts"); std::fs::create_dir_all(&d).unwrap(); for (n, b) in FILES { std::fs::write(d.join(n), b).unwrap(); } d });
  let p = new_pact("c", "p");
  let i = match kind { 0 => pactffi_new_interaction(p, t("i").p()), 1 => pactffi_new_message_interaction(p, t("i").p()), 2 => pactffi_new_sync_message_interaction(p, t("i").p()), _ => pactffi_new_interaction(p, t(None).p()) };
  if before == 1 { for part in [InteractionPart::Request, InteractionPart::Response] { pactffi_with_body(i, part, t("text/plain").p(), t("hello").p()); } }
  let mut want: [Vec<Part>; 2] = [vec![], vec![]];
  let mut rules = [MatchingRules::default(), MatchingRules::default()];
  let mut marker: [Option<String>; 2] = [None, None];
  for c in l {
    rec.steps(1);
    let path = c.file.map(|f| dir.join(f).to_str().unwrap().to_string());
    let ct = crate::ffi::t(c.content_type.map(|b| unsafe { std::str::from_utf8_unchecked(b) }));
    let before = shown_state(i);
    let (file, name) = (t(path.as_deref()), t(c.name));
    let r = match c.boundary { Some(b) => pactffi_with_multipart_file_v2(i, c.part, ct.p(), file.p(), name.p(), t(b).p()), None => pactffi_with_multipart_file(i, c.part, ct.p(), file.p(), name.p()) };
    let failed = match r { StringResult::Ok(p) => { rec.check(p.is_null(), "value", || "a value is returned".into()); None } StringResult::Failed(p) => Some(taken(p)) };
    let content_type = c.content_type.and_then(|b| std::str::from_utf8(b).ok());
    let data = match c.file { None => Some(None), Some(f) => FILES.iter().find(|(n, _)| *n == f).map(|(_, b)| Some(b.to_vec())) };
    let ok = kind == 0 && content_type.is_some() && data.is_some();
    rec.eq("refused", &!ok, &failed.is_some());
    if let Some(f) = failed { rec.check(f.as_deref().map(|s| !s.is_empty()).unwrap_or(false), "message", || format!("{:?}", f)); }
    if !ok { rec.eq("unchanged", &before, &shown_state(i)); continue; }
    let n = if matches!(c.part, InteractionPart::Request) { 0 } else { 1 };
    let name = c.name.unwrap_or("file").to_string();
    if want[n].is_empty() { rules[n].add_category("header").add_rule(DocPath::new_unwrap("Content-Type"), MatchingRule::Regex(r"multipart/form-data;(\s*charset=[^;]*;)?\s*boundary=.*".into()), RuleLogic::And); }
    let mut at = DocPath::root(); at.push_field(&name);
    rules[n].add_category("body").add_rule(at, MatchingRule::ContentType(content_type.unwrap().to_string()), RuleLogic::And);
    want[n].push(data.unwrap().map(|d| (name, c.file.unwrap().to_string(), d)));
    let (body, headers, described_rules, ct) = i.with_interaction(&|_, _, inner| { let h = inner.as_v4_http().unwrap(); if n == 0 { (h.request.body.clone(), h.request.headers.clone(), described(&h.request.matching_rules, &Generators::default()), h.request.body.content_type()) } else { (h.response.body.clone(), h.response.headers.clone(), described(&h.response.matching_rules, &Generators::default()), h.response.body.content_type()) } }).unwrap();
    let types: Vec<String> = headers.unwrap_or_default().iter().filter(|(k, _)| k.eq_ignore_ascii_case("content-type")).flat_map(|(_, v)| v.clone()).collect();
    let boundary = if types.len() == 1 { types[0].strip_prefix("multipart/form-data; boundary=").map(|s| s.to_string()) } else { None };
    rec.check(boundary.is_some(), "content type", || format!("{:?}", types));
    let Some(boundary) = boundary else { continue };
    match &marker[n] { Some(m) => { rec.eq("boundary kept", m, &boundary); } None => { if let Some(b) = c.boundary { rec.eq("boundary", &b.to_string(), &boundary); } marker[n] = Some(boundary.clone()); } }
    let bytes = body.value().unwrap_or_default();
    rec.check(parts_of(&bytes, &boundary).as_ref() == Some(&want[n]), "parts", || format!("expected {:?}, got {:?}: {:?}", want[n], parts_of(&bytes, &boundary), String::from_utf8_lossy(&bytes)));
    rec.eq("rules", &described(&rules[n], &Generators::default()), &described_rules);
    rec.eq("type", &Some("multipart/form-data".to_string()), &ct.map(|c: ContentType| c.base_type().to_string()));
  }
  rec.state(&format!("{:?} {:?} {}", want, marker.iter().map(|m| m.is_some()).collect::<Vec<_>>(), kind));
  rec.outcome(format!("{} parts", want[0].len() + want[1].len()));
  pactffi_free_pact_handle(p);
}
fn shown_state(i: InteractionHandle) -> Option<String> { crate::ffi::shown(i).map(|v| v.to_string()) }

pub fn c66(run: &Run) {
  run.assume("Files are compared with those of pact_models::pact::write_pact for the same pacts, version and order of writing (that function is judged by C04 to C07); the client of multipart-2021 is the stand-in in /verif/stubs, which writes the closing delimiter also when there are no parts, as the crate does.");
  tidy();
  let o = ops(true);
  run.explore("two calls", "sequences of up to two calls for a pact and a message pact that share a file, with all values", seq_count(o.len(), 2), |i, rec| {
    let l: Vec<Op> = seq_at(i, o.len()).into_iter().map(|k| o[k]).collect();
    rec.case(format!("{:?}", l.iter().map(said).collect::<Vec<_>>()));
    played(rec, &l);
  });
  let o = ops(false);
  let len = if run.thorough { 4 } else { 3 };
  run.explore("calls", "sequences of calls for a pact and a message pact that share a file", seq_count(o.len(), len), |i, rec| {
    let l: Vec<Op> = seq_at(i, o.len()).into_iter().map(|k| o[k]).collect();
    rec.case(format!("{:?}", l.iter().map(said).collect::<Vec<_>>()));
    played(rec, &l);
  });
  // The copy of a pact
  run.explore("copies", "the model of a handle is a copy: changes and deletes of one after the other", 5 * 2 * 2, |i, rec| {
    let d = digits(i, &[5, 2, 2]);
    rec.case(format!("copy of a pact with a {}, {}, {}", KINDS[d[0]], if d[1] == 0 { "changed before" } else { "changed after" }, if d[2] == 0 { "deleted before" } else { "deleted after" }));
    rec.state(&d);
    let w = World::new();
    w.done(Add(0, d[0], "a"));
    if d[1] == 0 { w.done(Add(0, 0, "b")); }
    let c = pactffi_pact_handle_to_pointer(w.p);
    rec.check(!c.is_null(), "copy", || "none".into());
    if c.is_null() { return; }
    if d[1] == 1 { w.done(Add(0, 0, "b")); }
    if d[2] == 0 { w.done(Free(0)); }
    let it = pactffi_pact_model_interaction_iterator(c);
    let mut n = 0;
    loop { let x = pactffi_pact_interaction_iter_next(it); if x.is_null() { break; } n += 1; if n > 9 { break; } }
    pactffi_pact_interaction_iter_delete(it);
    rec.eq("interactions", &(2 - d[1]), &n);
    pactffi_pact_model_delete(c);
    if d[2] == 1 { rec.eq("still there", &Some(2), &w.handle(0).with_pact(&|_, p, _| p.interactions.len())); w.done(Free(0)); }
    rec.check(pactffi_pact_handle_to_pointer(w.p).is_null(), "copy of nothing", || "there is one".into());
    w.done(Free(1));
  });
  // Messages as text
  let bodies: Vec<(B, B)> = vec![(None, None), (Some(b"text/plain"), Some(b"hello")), (Some(b"application/json"), Some(b"{\"a\":{\"pact:matcher:type\":\"type\",\"value\":[1]}}")), (Some(b"application/json"), Some(b"[]")), (Some(b"application/octet-stream"), Some(b"\x01\x02")), (Some(b"application/xml"), Some(b"<a/>")), (Some(b"text/plain"), Some(b""))];
  let bases = [bodies.len(), 3, 3, 4];
  run.explore("reified", "messages as text, by version, contents, metadata and kind", space_size(&bases), |i, rec| {
    let d = digits(i, &bases);
    let (ct, b) = bodies[d[0]];
    let (version, meta, kind) = ([Spec::V2, Spec::V3, Spec::V4][d[1]], d[2], d[3]);
    rec.case(format!("{:?} {:?} at {:?}, {} metadata, {}", ct.map(String::from_utf8_lossy), b.map(String::from_utf8_lossy), version, meta, ["message", "HTTP interaction", "no message", "synchronous message"][kind]));
    rec.state(&d);
    let p = new_pact("c", "p");
    pactffi_with_specification(p, version);
    #[allow(deprecated)]
    let m = match kind { 0 => pactffi_new_async_message(p, t("m").p()), 1 => as_message(pactffi_new_interaction(p, t("m").p())), 2 => pactffi_new_async_message(p, t(None).p()), _ => as_message(pactffi_new_sync_message_interaction(p, t("m").p())) };
    pactffi_message_given(m, t("state").p());
    if let Some(b) = b { let bytes = if b == b"\x01\x02" { b.to_vec() } else { [b, b"\0"].concat() }; let g = Guarded::new(&bytes); let ct = t(ct.map(|c| std::str::from_utf8(c).unwrap())); pactffi_message_with_contents(m, ct.p(), g.p(), b.len()); }
    #[allow(deprecated)]
    if meta > 0 { pactffi_message_with_metadata(m, t("k").p(), t("v").p()); if meta > 1 { pactffi_message_with_metadata_v2(m, t("n").p(), t("{\"pact:matcher:type\":\"type\",\"value\":1}").p()); } }
    let got = taken(pactffi_message_reify(m)).unwrap_or_default();
    if kind != 0 || b.is_none() { rec.eq("nothing", &String::new(), &got); }
    else {
      let v: Value = serde_json::from_str(&got).unwrap_or(json!(got));
      let old = version != Spec::V4;
      let bin = ct == Some(b"application/octet-stream");
      let xml = ct == Some(b"application/xml");
      let contents = match d[0] { 1 => json!("hello"), 2 => json!({"a": [1]}), 3 => json!([]), 4 => json!("AQI="), 5 => json!("<a/>"), _ => json!("") };
      rec.eq("description", &json!("m"), &v["description"]);
      rec.eq("states", &json!([{"name": "state"}]), &json!(v["providerStates"].as_array().map(|l| l.iter().map(|s| json!({"name": s["name"]})).collect::<Vec<_>>())));
      let c = if old { v["contents"].clone() } else { v["contents"]["content"].clone() };
      if xml { rec.check(c.as_str().map(|s| s.contains("<a/>")).unwrap_or(false), "contents", || format!("{}", v)); } else { rec.check(c == contents, "contents", || format!("expected {} in {}", contents, v)); }
      if !old && bin { rec.check(v["contents"]["encoded"] == json!("base64"), "encoded", || format!("{}", v)); }
      if meta > 0 { rec.check(v["metadata"]["k"] == json!("v"), "metadata", || format!("{}", v)); }
      if meta > 1 { rec.check(v["metadata"]["n"] == json!(1), "metadata value", || format!("{}", v)); }
    }
    pactffi_free_pact_handle(p);
  });
  // Multipart bodies
  let s = |x: &'static str| Some(x.as_bytes());
  let mut calls = vec![];
  for part in [InteractionPart::Request, InteractionPart::Response] { for content_type in [None, s("text/plain"), s("no type"), Some(&b"\xff"[..])] { for file in [None, Some("a.txt"), Some("b.bin"), Some("c.json"), Some("d"), Some("missing")] { for name in [None, Some("one"), Some("a b"), Some("1")] { for boundary in [None, Some("B"), Some("b--"), Some("'()+_,-./:=?")] { calls.push(Call { part, content_type, file, name, boundary }); } } } } }
  run.explore("part", "one call to set a file as the body, for every kind of interaction and a body there before", calls.len() as u64 * 4 * 2, |i, rec| {
    let d = digits(i, &[calls.len(), 4, 2]);
    if calls[d[0]].file == Some("b.bin") && calls[d[0]].boundary == Some("B") { return; }
    rec.case(format!("{} {} {}", ["HTTP", "message", "synchronous message", "no interaction"][d[1]], ["without a body", "with a text"][d[2]], told(&calls[d[0]])));
    multipart(rec, d[1], d[2], &[calls[d[0]]]);
  });
  let few: Vec<Call> = calls.into_iter().filter(|c| (c.content_type == s("text/plain") || (c.content_type.is_none() && c.file.is_none() && c.name.is_none() && c.boundary.is_none())) && [None, Some("a.txt"), Some("b.bin"), Some("missing")].contains(&c.file) && [None, Some("one")].contains(&c.name) && [None, Some("C"), Some("B"), Some("b--")].contains(&c.boundary) && !(c.file == Some("b.bin") && c.boundary == Some("B"))).collect();
  let len = if run.thorough { 3 } else { 2 };
  run.explore("parts", "sequences of calls to set files as the body", seq_count(few.len(), len) * 2, |i, rec| {
    let l: Vec<Call> = seq_at(i / 2, few.len()).into_iter().map(|k| few[k]).collect();
    // data with the delimiter in it is not for a body with that boundary
    if l.iter().any(|c| c.file == Some("b.bin")) && l.iter().any(|c| c.boundary == Some("B")) { return; }
    rec.case(format!("{}: {}", if i % 2 == 0 { "no body" } else { "a text" }, l.iter().map(told).collect::<Vec<_>>().join("; ")));
    multipart(rec, 0, (i % 2) as usize, &l);
  });
  tidy();
}
fn say(b: &B) -> String { b.map(|b| format!("{:?}", String::from_utf8_lossy(b))).unwrap_or("NULL".into()) }
fn told(c: &Call) -> String { format!("{:?} {} file {:?} as {:?}, boundary {:?}", c.part, say(&c.content_type), c.file, c.name, c.boundary) }
fn said(o: &Op) -> String { match o { Meta(h, a, b, c) => format!("{} metadata {} {} {}", ["pact", "message pact"][*h], say(a), say(b), say(c)), Add(h, k, d) => format!("{} add {} {:?}", ["pact", "message pact"][*h], KINDS[*k], d), Write(h, d, o) => format!("{} write {:?}{}", ["pact", "message pact"][*h], d, if *o { " over" } else { "" }), Free(h) => format!("free {}", ["pact", "message pact"][*h]), Version(v) => format!("version {:?}", v) } }
