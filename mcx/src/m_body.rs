//! C36: presence and content type of bodies, text, binary and form bodies.
use crate::jmodel::{self, path, text_ok, Ctx};
use crate::m_text::{self, Part};
use mccore::{digits, space_size, Rec, Run};
use pact_matching::{match_body, BodyMatchResult, CoreMatchingContext, DiffConfig, HeaderMatchingContext, Mismatch};
use pact_models::bodies::OptionalBody;
use pact_models::content_types::{detect_content_type_from_bytes, ContentType};
use pact_models::matchingrules::{Category, MatchingRule, RuleLogic};
use pact_models::path_exp::DocPath;
use pact_models::v4::http_parts::{HttpRequest, HttpResponse};
use serde_json::Value;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use MatchingRule::{ArrayContains, Boolean, Date, Decimal, EachKey, EachValue, Equality, Include, Integer, MaxType, MinMaxType, MinType, NotEmpty, Null, Number, Regex, Semver, Type, Values};

/// Runs a future that never waits.
pub fn now<F: std::future::Future>(f: F) -> F::Output {
  let mut f = Box::pin(f);
  let mut cx = std::task::Context::from_waker(std::task::Waker::noop());
  match f.as_mut().poll(&mut cx) { std::task::Poll::Ready(v) => v, std::task::Poll::Pending => panic!("matching waits for something") }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Body { Missing, Null, Empty, Bytes(Vec<u8>) }
/// A body with the content type given by a header, by the body itself, or by neither.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Thing { pub body: Body, pub header: Option<String>, pub own: Option<String> }

impl Thing {
  pub fn optional(&self) -> OptionalBody {
    match &self.body { Body::Missing => OptionalBody::Missing, Body::Null => OptionalBody::Null, Body::Empty => OptionalBody::Empty, Body::Bytes(b) => OptionalBody::Present(b.clone().into(), self.own.as_ref().map(|t| ContentType::parse(t.as_str()).unwrap()), None) }
  }
  pub fn headers(&self) -> Option<HashMap<String, Vec<String>>> { self.header.as_ref().map(|h| [("content-TYPE".to_string(), vec![h.clone()])].into()) }
  pub fn request(&self) -> HttpRequest { HttpRequest { body: self.optional(), headers: self.headers(), ..HttpRequest::default() } }
  pub fn response(&self) -> HttpResponse { HttpResponse { body: self.optional(), headers: self.headers(), ..HttpResponse::default() } }
  pub fn media(&self) -> Media {
    let own = if let Body::Bytes(_) = self.body { self.own.as_deref().and_then(Media::parse) } else { None };
    own.or_else(|| self.header.as_deref().and_then(Media::parse)).or_else(|| match &self.body { Body::Bytes(b) => detect_content_type_from_bytes(b).and_then(|t| Media::parse(&t.to_string())), _ => None }).unwrap_or(Media { main: "*".into(), sub: "*".into(), suffix: None, attrs: BTreeMap::new() })
  }
  pub fn show(&self) -> String {
    format!("{}{}{}", match &self.body { Body::Bytes(b) => format!("{:?}", String::from_utf8_lossy(b)), b => format!("{:?}", b) }, self.header.as_ref().map(|h| format!(" header {}", h)).unwrap_or_default(), self.own.as_ref().map(|h| format!(" type {}", h)).unwrap_or_default())
  }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Media { pub main: String, pub sub: String, pub suffix: Option<String>, pub attrs: BTreeMap<String, String> }
impl Media {
  pub fn parse(s: &str) -> Option<Media> {
    let mut parts = s.split(';').map(|p| p.trim());
    let (main, sub) = parts.next()?.split_once('/')?;
    let (sub, suffix) = match sub.rsplit_once('+') { Some((a, b)) => (a, Some(b.to_lowercase())), None => (sub, None) };
    let attrs = parts.filter_map(|p| p.split_once('=')).map(|(k, v)| (k.to_lowercase(), if k == "charset" { v.to_lowercase() } else { v.to_string() })).collect();
    Some(Media { main: main.to_lowercase(), sub: sub.to_lowercase(), suffix, attrs })
  }
  pub fn unknown(&self) -> bool { self.main == "*" || self.sub == "*" }
  pub fn strict_xml(&self) -> bool { (self.main == "application" || self.main == "text") && self.sub == "xml" && self.suffix.is_none() }
  pub fn same(&self, o: &Media) -> bool {
    let attrs = self.attrs.is_empty() || self.attrs == o.attrs;
    attrs && ((self.strict_xml() && o.strict_xml()) || (self.main == o.main && self.sub == o.sub && self.suffix == o.suffix))
  }
  pub fn base(&self) -> Media { Media { main: self.main.clone(), sub: self.suffix.clone().unwrap_or(self.sub.clone()), suffix: None, attrs: BTreeMap::new() } }
  pub fn text(&self) -> String { format!("{}/{}{}{}", self.main, self.sub, self.suffix.as_ref().map(|s| format!("+{}", s)).unwrap_or_default(), self.attrs.iter().map(|(k, v)| format!(";{}={}", k, v)).collect::<String>()) }
  pub fn kind(&self) -> Kind {
    let app = self.main == "application";
    let suffix = |s: &str| self.suffix.as_deref() == Some(s);
    if app && (self.sub.starts_with("json") || self.sub == "graphql" || suffix("json")) { Kind::Json }
    else if (app || self.main == "text") && (self.sub == "xml" || suffix("xml")) { Kind::Xml }
    else if self.main == "multipart" { Kind::Other }
    else if app && self.sub == "x-www-form-urlencoded" { Kind::Form }
    else if self.main == "text" || (app && self.sub == "x-www-form-urlencoded") { Kind::Text }
    else { Kind::Binary }
  }
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind { Json, Xml, Form, Text, Binary, Other }

#[derive(Clone, Debug, PartialEq)]
pub enum Verdict { Ok, Type, Paths(BTreeSet<String>), Unspecified }

fn dollar() -> Verdict { Verdict::Paths(["$".to_string()].into()) }
pub fn form(b: &[u8]) -> m_text::Lists {
  let un = |s: &[u8]| { let mut o = vec![]; let mut i = 0; while i < s.len() { match s[i] { b'+' => o.push(b' '), b'%' if i + 2 < s.len() && s[i + 1..i + 3].iter().all(|c| c.is_ascii_hexdigit()) => { o.push(u8::from_str_radix(std::str::from_utf8(&s[i + 1..i + 3]).unwrap(), 16).unwrap()); i += 2 } c => o.push(c) } i += 1; } String::from_utf8_lossy(&o).to_string() };
  let mut out: m_text::Lists = vec![];
  for p in b.split(|c| *c == b'&').filter(|p| !p.is_empty()) {
    let (k, v) = match p.iter().position(|c| *c == b'=') { Some(i) => (un(&p[..i]), un(&p[i + 1..])), None => (un(p), String::new()) };
    match out.iter_mut().find(|(n, _)| *n == k) { Some((_, l)) => l.push(v), None => out.push((k, vec![v])) }
  }
  out
}

fn bytes_ok(e: &[u8], a: &[u8], r: &MatchingRule, cascaded: bool) -> Option<bool> {
  let t = std::str::from_utf8(a);
  Some(match r {
    Equality => e == a,
    Regex(x) => t.map(|t| jmodel::regex_ok(x, t)).unwrap_or(false),
    Include(s) => t.map(|t| t.contains(s.as_str())).unwrap_or(false),
    Type | MinType(_) | MaxType(_) | MinMaxType(..) => true,
    NotEmpty => !a.is_empty(),
    MatchingRule::ContentType(_) => return None,
    EachKey(_) | EachValue(_) | Values => cascaded,
    _ => false,
  })
}

/// The verdict for two bodies of which the content types agree.
pub fn contents(media: &Media, e: &Thing, a: &Thing, c: &Ctx) -> Verdict {
  match (&e.body, &a.body) {
    (Body::Missing, _) => Verdict::Ok,
    (Body::Null, Body::Bytes(_)) | (Body::Empty, Body::Bytes(_)) => dollar(),
    (Body::Null, _) | (Body::Empty, _) => Verdict::Ok,
    (_, Body::Missing) | (_, Body::Empty) => dollar(),
    // a body without bytes is as good as none: which of the two it is taken for is not specified
    (Body::Bytes(e), Body::Null) if e.is_empty() || !c.rules.is_empty() => Verdict::Unspecified,
    (Body::Bytes(e), a) => {
      let a: &[u8] = if let Body::Bytes(a) = a { a } else { &[] };
      let s = c.select(&["$".to_string()]);
      let all = |s: &jmodel::Selected, ok: &dyn Fn(&MatchingRule) -> Option<bool>| -> Option<bool> {
        let r: Option<Vec<bool>> = s.rules.iter().map(ok).collect();
        r.map(|r| match s.logic { RuleLogic::And => r.iter().all(|b| *b), RuleLogic::Or => r.iter().any(|b| *b) })
      };
      let plain = |ok: Option<bool>| match ok { None => Verdict::Unspecified, Some(true) => Verdict::Ok, Some(false) => dollar() };
      match media.kind() {
        Kind::Json => match (serde_json::from_slice::<Value>(e), serde_json::from_slice::<Value>(a)) {
          (Ok(e), Ok(a)) => {
            let mut o = jmodel::Out::default();
            jmodel::compare(&DocPath::root(), &e, &a, c, &mut o);
            if o.tie { Verdict::Unspecified } else if o.paths.is_empty() { Verdict::Ok } else { Verdict::Paths(o.paths) }
          }
          _ => dollar(),
        },
        Kind::Xml => if e == a && c.rules.is_empty() && e.starts_with(b"<a") { Verdict::Ok } else { Verdict::Unspecified },
        Kind::Form => {
          let (e, a) = (form(e), form(a));
          let n = m_text::names_in(Part::Query, Some(&e), Some(&a), c, true);
          if n.is_empty() { Verdict::Ok } else { Verdict::Paths(n.into_iter().map(|n| format!("$.{}", n)).collect()) }
        }
        Kind::Binary => match s { Some(s) => plain(all(&s, &|r| bytes_ok(e, a, r, s.cascaded))), None => plain(Some(e == a)) },
        Kind::Text => match s {
          Some(s) => match (std::str::from_utf8(e), std::str::from_utf8(a)) { (Ok(e), Ok(a)) => plain(all(&s, &|r| Some(text_ok(e, a, r, s.cascaded)))), _ => dollar() },
          None => plain(Some(e == a)),
        },
        Kind::Other => Verdict::Unspecified,
      }
    }
  }
}

pub fn verdict(e: &Thing, a: &Thing, c: &Ctx, h: &Ctx) -> Verdict {
  let (m, n) = (e.media(), a.media());
  let by_rule = { let at = DocPath::root().join("content-type").to_vec(); h.rules.iter().any(|(p, _, _)| jmodel::weight(&p.to_lower_case(), &at) > 0) } && m_text::values_match(Part::Header, "Content-Type", &[m.text()], &[n.text()], h);
  if m.unknown() || n.unknown() || m.same(&n) || m.same(&n.base()) || by_rule { contents(&m, e, a, c) }
  else { match (&e.body, &a.body) { (Body::Bytes(_), _) => Verdict::Type, _ => contents(&m, e, a, c) } }
}

fn observed(rec: &mut Rec, r: BodyMatchResult) -> Verdict {
  match r {
    BodyMatchResult::Ok => Verdict::Ok,
    BodyMatchResult::BodyTypeMismatch { .. } => Verdict::Type,
    BodyMatchResult::BodyMismatches(m) => {
      let mut paths = BTreeSet::new();
      for m in m.values().flatten() { match m { Mismatch::BodyMismatch { path, .. } => { paths.insert(if path == "/" { "$".into() } else { path.clone() }); } o => rec.fail("kind", format!("a difference in the body is reported as {}", o.mismatch_type())) } }
      rec.check(!paths.is_empty(), "kind", || "rejected without a mismatch".into());
      Verdict::Paths(paths)
    }
  }
}

fn one(rec: &mut Rec, class: &str, e: &Thing, a: &Thing, c: &Ctx, h: &Ctx) {
  let show = |c: &Ctx| c.rules.iter().map(|(p, r, l)| format!(" {}: {:?}{}", p, r, if r.len() > 1 { format!(" {:?}", l) } else { String::new() })).collect::<Vec<_>>().join(",");
  rec.case(format!("{} / {}{}{}{}", e.show(), a.show(), show(c), if h.rules.is_empty() { "" } else { " headers" }, show(h)));
  let want = verdict(e, a, c, h);
  let context = CoreMatchingContext::new(if c.strict { DiffConfig::NoUnexpectedKeys } else { DiffConfig::AllowUnexpectedKeys }, &c.category(Category::BODY), &HashMap::new());
  let headers = HeaderMatchingContext::new(&CoreMatchingContext::new(DiffConfig::NoUnexpectedKeys, &h.category(Category::HEADER), &HashMap::new()));
  rec.trace(); rec.steps(1);
  let got = if c.strict { rec.no_panic(class, || now(match_body(&e.request(), &a.request(), &context, &headers))) } else { rec.no_panic(class, || now(match_body(&e.response(), &a.response(), &context, &headers))) };
  let Some(got) = got else { return };
  let got = observed(rec, got);
  rec.outcome(match &got { Verdict::Ok => "match", Verdict::Type => "type mismatch", _ => "mismatch" });
  if want == Verdict::Unspecified { return; }
  // which of the two kinds is reported when both apply is not specified
  let null = |v: &Verdict| matches!(v, Verdict::Type | Verdict::Paths(_));
  if a.body == Body::Null && null(&want) && null(&got) { return; }
  let absent = matches!((&want, &got), (Verdict::Type, Verdict::Paths(_))) && !matches!(a.body, Body::Bytes(_));
  rec.check(absent || want == got, class, || format!("should be {:?}, is {:?}", want, got));
}

pub fn types() -> Vec<&'static str> {
  vec!["text/plain", "text/plain;charset=utf-8", "text/plain; charset=UTF-16", "TEXT/Plain", "application/json", "application/json;charset=utf-8", "application/hal+json", "application/hal+xml", "application/hal", "application/xml", "text/xml", "text/xml;a=1", "application/x-www-form-urlencoded", "application/x-www-form-urlencoded;charset=utf-8", "application/octet-stream", "image/png", "application/javascript", "*/*", "text/*"]
}

pub fn c36(run: &Run) {
  let b = |s: &[u8]| Body::Bytes(s.to_vec());
  let bodies = vec![Body::Missing, Body::Null, Body::Empty, b(b""), b(b"a"), b(b"b"), b(b"1"), b(b"a=1"), b(b"{\"a\":1}"), b(b"{\"a\":1,\"b\":2}"), b(b" {\"a\": 1}"), b(b"<a/>"), b(b"\xff\x00")];
  let none = Ctx { rules: vec![], strict: false };
  let mut things = vec![];
  for body in &bodies {
    things.push(Thing { body: body.clone(), header: None, own: None });
    things.push(Thing { body: body.clone(), header: Some("not a type".into()), own: None });
    for t in types() {
      things.push(Thing { body: body.clone(), header: Some(t.into()), own: None });
      if let Body::Bytes(_) = body { if run.thorough || ["text/plain", "application/json", "image/png"].contains(&t) { things.push(Thing { body: body.clone(), header: Some("text/plain".into()), own: Some(t.into()) }); } }
    }
  }
  run.pairs("types", "every pair of body states and contents with every content type, from the header, the body or neither, as requests and responses", &things, &things, |e, a, rec| {
    rec.state(&(e.show(), a.show()));
    for strict in [false, true] { one(rec, "types", e, a, &Ctx { rules: vec![], strict }, &none); }
  });
  // header rules for the content type
  let hrules: Vec<Ctx> = [("Content-Type", Regex("text/.*".into())), ("content-type", Type), ("$['Content-Type']", Include("json".into())), ("X-Other", Type), ("Content-Type", Equality)].into_iter().map(|(p, r)| Ctx { rules: vec![(if p.starts_with('$') { path(p) } else { DocPath::root().join(p) }, vec![r], RuleLogic::And)], strict: false }).collect();
  let few: Vec<Thing> = things.iter().filter(|t| t.own.is_none() && [Body::Missing, Body::Empty, b(b"a"), b(b"{\"a\":1}")].contains(&t.body)).cloned().collect();
  run.pairs("header-rules", "the same with rules for the Content-Type header", &few, &few, |e, a, rec| {
    rec.state(&(e.show(), a.show(), 1));
    for h in &hrules { one(rec, "header-rules", e, a, &none, h); }
  });
  // contents under rules at the root
  let rules = vec![Equality, Type, Values, NotEmpty, Null, Boolean, Integer, Number, Decimal, Semver, Regex("a".into()), Regex("a.*".into()), Regex("[".into()), Include("a".into()), Include("".into()), MinType(2), MaxType(1), MinMaxType(1, 2), Date("".into()), ArrayContains(vec![])];
  let texts: Vec<Vec<u8>> = ["", "a", "b", "aa", "ba", "1", "1.5", "-1", "true", "1.2.3", "2001-02-03", "é", "a\n", " "].iter().map(|s| s.as_bytes().to_vec()).chain([vec![0xff], vec![b'a', 0xc3], vec![0]]).collect();
  let kinds = ["text/plain", "text/html;charset=utf-8", "application/javascript", "application/octet-stream", "image/png", "*/*"];
  let exprs = ["$", "$.a", "$[0]", "$.*"];
  let mut sets: Vec<Ctx> = vec![none.clone()];
  for r in &rules { for p in exprs { sets.push(Ctx { rules: vec![(path(p), vec![r.clone()], RuleLogic::And)], strict: false }); } }
  for r in &rules { for q in &rules { for l in [RuleLogic::And, RuleLogic::Or] { sets.push(Ctx { rules: vec![(path("$"), vec![r.clone(), q.clone()], l)], strict: false }); } } }
  let bases = [kinds.len(), texts.len(), texts.len()];
  run.explore("rules", "every pair of text and binary contents under every rule at the root, every rule elsewhere, and every two rules at the root (AND and OR)", space_size(&bases), |i, rec| {
    let d = digits(i, &bases);
    rec.state(&d);
    let t = |b: &[u8]| Thing { body: Body::Bytes(b.to_vec()), header: Some(kinds[d[0]].into()), own: None };
    let (e, a) = (t(&texts[d[1]]), t(&texts[d[2]]));
    for c in &sets { one(rec, "rules", &e, &a, c, &none); }
  });
  // form bodies
  let forms: Vec<Vec<u8>> = ["", "a", "a=", "a=1", "a=2", "a=x", "b=1", "a=1&b=2", "b=2&a=1", "a=1&a=2", "a=2&a=1", "a=1&b=2&a=3", "A=1", "a=%31", "a=%zz", "a=%ff", "a=+1", "a=%201", "a=1&", "&a=1", "=1", "a=1=2", "a%5B0%5D=1", "a[0]=1", "é=1", "%c3%a9=1", "a=1;b=2", "a.b=1", "0=1"].iter().map(|s| s.as_bytes().to_vec()).collect();
  let mut sets: Vec<Ctx> = vec![none.clone()];
  for p in ["$", "$.a", "$.b", "$.a[0]", "$.a[1]", "$.a[*]", "$.*", "$['a[0]']", "$['a.b']"] { for r in m_text::kinds() { for strict in [false, true] { sets.push(Ctx { rules: vec![(path(p), vec![r.clone()], RuleLogic::And)], strict }); } } }
  let small = [Type, Regex("[12]".into()), MinType(2), MaxType(1), Integer, NotEmpty];
  for r in &small { for q in &small {
    for l in [RuleLogic::And, RuleLogic::Or] { sets.push(Ctx { rules: vec![(path("$.a"), vec![r.clone(), q.clone()], l)], strict: false }); }
    sets.push(Ctx { rules: vec![(path("$.a"), vec![r.clone()], RuleLogic::And), (path("$.b"), vec![q.clone()], RuleLogic::And)], strict: false });
  } }
  run.pairs("forms", "every pair of form bodies under every rule for a field, a position, all fields or the root, and every two rules", &forms, &forms, |e, a, rec| {
    rec.state(&(e, a, 2));
    let t = |b: &[u8]| Thing { body: Body::Bytes(b.to_vec()), header: Some("application/x-www-form-urlencoded".into()), own: None };
    for c in &sets { one(rec, "forms", &t(e), &t(a), c, &none); }
  });
  run.assume("the content type of a body without one is what detect_content_type_from_bytes says (decided by C08)");
  run.assume("multipart bodies are not explored (the multer crate is not available offline); XML bodies are decided by C37");
}
