//! C31 requests, C32 responses.
use crate::jmodel::{path, status_ok, text_ok, value_ok, Ctx};
use crate::m_body::{now, verdict, Body, Thing, Verdict};
use crate::m_text::{names, Lists, Part};
use mccore::{digits, space_size, Rec, Run};
use pact_matching::{match_request, match_response, BodyMatchResult, Mismatch};
use pact_models::interaction::Interaction;
use pact_models::matchingrules::{Category, MatchingRule, MatchingRules, RuleLogic};
use pact_models::pact::Pact;
use pact_models::path_exp::DocPath;
use pact_models::v4::http_parts::{HttpRequest, HttpResponse};
use pact_models::HttpStatus;
use serde_json::json;
use std::collections::{BTreeSet, HashMap};
use std::panic::RefUnwindSafe;
use MatchingRule::{Equality, Include, Integer, MinType, NotEmpty, Null, Number, Regex, StatusCode, Type};

pub type Rules = Vec<(Category, DocPath, Vec<MatchingRule>, RuleLogic)>;
pub fn part(rules: &Rules, c: Category, strict: bool) -> Ctx { Ctx { rules: rules.iter().filter(|r| r.0 == c).map(|r| (r.1.clone(), r.2.clone(), r.3)).collect(), strict } }
pub fn matching_rules(rules: &Rules) -> MatchingRules {
  let mut m = MatchingRules::default();
  for (c, p, l, logic) in rules { let cat = m.add_category(c.clone()); for r in l { cat.add_rule(p.clone(), r.clone(), *logic); } }
  m
}
pub fn show_rules(rules: &Rules) -> String { rules.iter().map(|(c, p, r, l)| format!(" {}{}: {:?}{}", c, p, r, if r.len() > 1 { format!(" {:?}", l) } else { String::new() })).collect() }

pub fn pact() -> Box<dyn Pact + Send + Sync + RefUnwindSafe> { Box::new(pact_models::v4::pact::V4Pact::default()) }
pub fn interaction() -> Box<dyn Interaction + Send + Sync + RefUnwindSafe> { Box::new(pact_models::v4::synch_http::SynchronousHttp::default()) }

#[derive(Clone, Debug)]
pub struct Req { pub method: String, pub path: String, pub query: Option<Lists>, pub headers: Option<Lists>, pub body: Body }
#[derive(Clone, Debug)]
pub struct Resp { pub status: u16, pub headers: Option<Lists>, pub body: Body }

fn content_type(h: &Option<Lists>) -> Option<String> { h.as_ref().and_then(|h| h.iter().find(|(k, _)| k.to_lowercase() == "content-type")).and_then(|(_, v)| v.first().cloned()) }
fn map(l: &Option<Lists>) -> Option<HashMap<String, Vec<String>>> { l.as_ref().map(|l| l.iter().cloned().collect()) }
fn thing(h: &Option<Lists>, b: &Body) -> Thing { Thing { body: b.clone(), header: content_type(h), own: None } }

impl Req {
  pub fn build(&self, rules: &Rules) -> HttpRequest {
    HttpRequest { method: self.method.clone(), path: self.path.clone(), query: self.query.as_ref().map(|q| q.iter().map(|(k, v)| (k.clone(), v.iter().map(|v| Some(v.clone())).collect())).collect()), headers: map(&self.headers), body: thing(&self.headers, &self.body).optional(), matching_rules: matching_rules(rules), ..HttpRequest::default() }
  }
  pub fn show(&self) -> String { format!("{} {} {:?} {:?} {}", self.method, self.path, self.query, self.headers, thing(&None, &self.body).show()) }
}
impl Resp {
  pub fn build(&self, rules: &Rules) -> HttpResponse { HttpResponse { status: self.status, headers: map(&self.headers), body: thing(&self.headers, &self.body).optional(), matching_rules: matching_rules(rules), ..HttpResponse::default() } }
  pub fn show(&self) -> String { format!("{} {:?} {}", self.status, self.headers, thing(&None, &self.body).show()) }
}

/// Does a value match under the rules of a part that has no names?
fn plain(c: &Ctx, ok: &dyn Fn(&MatchingRule) -> bool, none: bool) -> bool {
  match c.rules.first() { None => none, Some((_, r, RuleLogic::And)) => r.iter().all(ok), Some((_, r, RuleLogic::Or)) => r.iter().any(ok) }
}

/// What is different: one word per part that has no names, the names and paths for the others.
#[derive(Debug, PartialEq, Clone, Default)]
pub struct Diff { pub method: bool, pub path: bool, pub status: bool, pub query: BTreeSet<String>, pub headers: BTreeSet<String>, pub body: Option<Verdict> }
impl Diff {
  fn none(&self) -> bool { !self.method && !self.path && !self.status && self.query.is_empty() && self.headers.is_empty() && matches!(self.body, None | Some(Verdict::Ok)) }
  pub fn names(&self) -> String {
    let mut n = vec![];
    if self.method { n.push("method"); } if self.path { n.push("path"); } if self.status { n.push("status"); } if !self.query.is_empty() { n.push("query"); } if !self.headers.is_empty() { n.push("headers"); } if !matches!(self.body, None | Some(Verdict::Ok)) { n.push("body"); }
    if n.is_empty() { "match".into() } else { format!("mismatch: {}", n.join(" ")) }
  }
}

pub fn request_diff(e: &Req, a: &Req, rules: &Rules) -> Diff {
  let p = part(rules, Category::PATH, true);
  Diff {
    method: e.method.to_lowercase() != a.method.to_lowercase(),
    path: !plain(&p, &|r| text_ok(&e.path, &a.path, r, false), e.path == a.path),
    status: false,
    query: names(Part::Query, e.query.as_ref(), a.query.as_ref(), &part(rules, Category::QUERY, true)),
    headers: names(Part::Header, e.headers.as_ref(), a.headers.as_ref(), &part(rules, Category::HEADER, true)),
    body: Some(verdict(&thing(&e.headers, &e.body), &thing(&a.headers, &a.body), &part(rules, Category::BODY, true), &part(rules, Category::HEADER, true))),
  }
}
pub fn response_diff(e: &Resp, a: &Resp, rules: &Rules) -> Diff {
  let s = part(rules, Category::STATUS, false);
  let ok = |r: &MatchingRule| match r { StatusCode(s) => status_ok(a.status as u64, s), r => value_ok(&json!(e.status), &json!(a.status), r, false) };
  Diff {
    status: !plain(&s, &ok, e.status == a.status),
    headers: names(Part::Header, e.headers.as_ref(), a.headers.as_ref(), &part(rules, Category::HEADER, false)),
    body: Some(verdict(&thing(&e.headers, &e.body), &thing(&a.headers, &a.body), &part(rules, Category::BODY, false), &part(rules, Category::HEADER, false))),
    ..Diff::default()
  }
}

pub fn body_verdict(m: &[Mismatch]) -> Option<Verdict> {
  let mut paths = BTreeSet::new(); let mut ty = false;
  for m in m { match m { Mismatch::BodyMismatch { path, .. } => { paths.insert(if path == "/" { "$".to_string() } else { path.clone() }); } Mismatch::BodyTypeMismatch { .. } => ty = true, _ => {} } }
  Some(if ty { Verdict::Type } else if paths.is_empty() { Verdict::Ok } else { Verdict::Paths(paths) })
}
/// The verdict for a body may be unspecified; with an absent actual body either kind of mismatch may be reported.
fn same(want: &Diff, got: &Diff, absent: bool) -> bool {
  let mut g = got.clone();
  match (&want.body, &got.body) {
    (Some(Verdict::Unspecified), _) => g.body = want.body.clone(),
    (Some(Verdict::Type | Verdict::Paths(_)), Some(Verdict::Type | Verdict::Paths(_))) if absent => g.body = want.body.clone(),
    _ => {}
  }
  *want == g
}

pub fn observe_request(rec: &mut Rec, class: &str, e: &HttpRequest, a: &HttpRequest) -> Option<Diff> {
  let (p, i) = (pact(), interaction());
  let r = rec.no_panic(class, || now(match_request(e.clone(), a.clone(), &p, &i)))?;
  let r = match r { Ok(r) => r, Err(err) => { rec.fail("error", format!("matching failed: {}", err)); return None } };
  rec.trace(); rec.steps(1);
  let bad = |m: &HashMap<String, Vec<Mismatch>>| -> BTreeSet<String> { m.iter().filter(|(_, v)| !v.is_empty()).map(|(k, _)| k.clone()).collect() };
  let got = Diff { method: r.method.is_some(), path: r.path.as_ref().map(|p| !p.is_empty()).unwrap_or(false), status: false, query: bad(&r.query), headers: bad(&r.headers), body: body_verdict(&r.body.mismatches()) };
  rec.check(!matches!((&r.method, &r.path), (Some(m), _) if !matches!(m, Mismatch::MethodMismatch { .. })) && r.path.iter().flatten().all(|m| matches!(m, Mismatch::PathMismatch { .. })) && r.query.values().flatten().all(|m| matches!(m, Mismatch::QueryMismatch { .. })) && r.headers.values().flatten().all(|m| matches!(m, Mismatch::HeaderMismatch { .. })), "kind", || format!("a mismatch is of another kind than the part: {:?}", r));
  rec.check(r.all_matched() == got.none(), "all-matched", || format!("all_matched is {} for {:?}", r.all_matched(), got));
  rec.check(r.mismatches().is_empty() == got.none(), "all-matched", || format!("mismatches are {:?} for {:?}", r.mismatches(), got));
  let count = r.method.iter().count() + r.path.iter().flatten().count() + r.query.values().flatten().count() + r.headers.values().flatten().count() + r.body.mismatches().len();
  rec.check(r.mismatches().len() == count, "all-matched", || format!("{} mismatches of {}", r.mismatches().len(), count));
  rec.check(r.method_or_path_mismatch() == (got.method || got.path), "all-matched", || "method_or_path_mismatch is wrong".into());
  let m = |b: bool| if b { -1i64 } else { 1 };
  let body: i64 = match &r.body { BodyMatchResult::Ok => 0, BodyMatchResult::BodyTypeMismatch { .. } => -1, BodyMatchResult::BodyMismatches(b) => b.values().map(|v| m(!v.is_empty())).sum() };
  let score: i64 = m(got.method) + m(got.path) + r.query.values().chain(r.headers.values()).map(|v| m(!v.is_empty())).sum::<i64>() + body;
  let score = score.clamp(i8::MIN as i64, i8::MAX as i64);
  if let Some(s) = rec.no_panic("score", || r.score()) { rec.eq("score", &score, &(s as i64)); }
  Some(got)
}
fn one_request(rec: &mut Rec, class: &str, e: &Req, a: &Req, rules: &Rules) {
  rec.case(format!("{} / {}{}", e.show(), a.show(), show_rules(rules)));
  let want = request_diff(e, a, rules);
  let Some(got) = observe_request(rec, class, &e.build(rules), &a.build(&vec![])) else { return };
  rec.outcome(got.names());
  rec.check(same(&want, &got, !matches!(a.body, Body::Bytes(_))), class, || format!("should be {:?}, is {:?}", want, got));
}
fn one_response(rec: &mut Rec, class: &str, e: &Resp, a: &Resp, rules: &Rules) {
  rec.case(format!("{} / {}{}", e.show(), a.show(), show_rules(rules)));
  let want = response_diff(e, a, rules);
  let (p, i) = (pact(), interaction());
  let Some(m) = rec.no_panic(class, || now(match_response(e.build(rules), a.build(&vec![]), &p, &i))) else { return };
  rec.trace(); rec.steps(1);
  let got = Diff {
    status: m.iter().any(|m| matches!(m, Mismatch::StatusMismatch { .. })),
    headers: m.iter().filter_map(|m| if let Mismatch::HeaderMismatch { key, .. } = m { Some(want.headers.iter().find(|h| h.to_lowercase() == key.to_lowercase() || format!("$.{}", h.to_lowercase()) == key.to_lowercase() || format!("$['{}']", h.to_lowercase()) == key.to_lowercase()).unwrap_or(key).clone()) } else { None }).collect(),
    body: body_verdict(&m), ..Diff::default()
  };
  rec.outcome(got.names());
  rec.check(m.iter().all(|m| matches!(m, Mismatch::StatusMismatch { .. } | Mismatch::HeaderMismatch { .. } | Mismatch::BodyMismatch { .. } | Mismatch::BodyTypeMismatch { .. })), "kind", || format!("a mismatch of another kind: {:?}", m));
  rec.check(same(&want, &got, !matches!(a.body, Body::Bytes(_))), class, || format!("should be {:?}, is {:?}", want, got));
}

fn l(v: &[(&str, &[&str])]) -> Option<Lists> { Some(v.iter().map(|(k, v)| (k.to_string(), v.iter().map(|s| s.to_string()).collect())).collect()) }
fn b(s: &str) -> Body { Body::Bytes(s.as_bytes().to_vec()) }
pub fn queries() -> Vec<Option<Lists>> {
  vec![None, l(&[]), l(&[("a", &["1"])]), l(&[("a", &["2"])]), l(&[("a", &["1", "2"])]), l(&[("a", &["2", "1"])]), l(&[("b", &["1"])]), l(&[("a", &["1"]), ("b", &["1"])]), l(&[("A", &["1"])]), l(&[("a", &[])]), l(&[("a", &[""])])]
}
pub fn headers() -> Vec<Option<Lists>> {
  vec![None, l(&[]), l(&[("X-A", &["1"])]), l(&[("x-a", &["1"])]), l(&[("X-A", &["2"])]), l(&[("X-A", &[" 1 "])]), l(&[("X-A", &["1", "2"])]), l(&[("X-A", &["2", "1"])]), l(&[("X-B", &["1"])]), l(&[("X-A", &["1"]), ("X-B", &["2"])]), l(&[("Content-Type", &["text/plain"])]), l(&[("content-type", &["text/plain;charset=UTF-8"])]), l(&[("Content-Type", &["application/json"])]), l(&[("CONTENT-TYPE", &["application/json; charset=utf-8"]), ("X-A", &["1"])]), l(&[("X-A", &[])])]
}
pub fn bodies() -> Vec<Body> { vec![Body::Missing, Body::Null, Body::Empty, b("a"), b("b"), b("{\"a\":1}"), b("{\"a\":2}"), b("{\"a\":1,\"b\":2}"), b("{ \"b\":2, \"a\":1 }"), b("{\"a\":\"x\"}"), b("[1,2]")] }
pub fn rule_sets() -> Vec<Rules> {
  let r = |c: Category, p: &str, r: MatchingRule| (c, if p.is_empty() { DocPath::empty() } else { path(p) }, vec![r], RuleLogic::And);
  let two = |c: Category, p: &str, r: MatchingRule, q: MatchingRule, l: RuleLogic| (c, if p.is_empty() { DocPath::empty() } else { path(p) }, vec![r, q], l);
  vec![
    vec![], vec![r(Category::PATH, "", Regex("/.*".into()))], vec![r(Category::PATH, "", Include("a".into()))], vec![two(Category::PATH, "", Include("b".into()), Equality, RuleLogic::Or)],
    vec![r(Category::QUERY, "a", Regex("\\d".into()))], vec![r(Category::QUERY, "$.a[0]", Type)], vec![r(Category::QUERY, "a", MinType(2))], vec![r(Category::QUERY, "$.*", Type)],
    vec![r(Category::HEADER, "X-A", Regex("\\d".into()))], vec![r(Category::HEADER, "$['X-A'][0]", Type)], vec![r(Category::HEADER, "Content-Type", Regex(".*/.*".into()))], vec![r(Category::HEADER, "x-b", Type)], vec![r(Category::HEADER, "$.*", Type)],
    vec![r(Category::BODY, "$", Type)], vec![r(Category::BODY, "$.a", Type)], vec![r(Category::BODY, "$.a", Integer)], vec![r(Category::BODY, "$.*", NotEmpty)], vec![r(Category::BODY, "$", Equality)], vec![r(Category::BODY, "$", Regex(".".into()))], vec![r(Category::BODY, "$.a", Null)],
    vec![r(Category::PATH, "", Type), r(Category::QUERY, "a", Type), r(Category::HEADER, "X-A", Type), r(Category::BODY, "$.a", Type)],
    vec![r(Category::QUERY, "$", Type)], vec![r(Category::HEADER, "$", Type)],
    vec![r(Category::QUERY, "X-A", Type), r(Category::HEADER, "a", Type), r(Category::BODY, "$['X-A']", Type)],
    vec![r(Category::METHOD, "", Type)], vec![r(Category::STATUS, "", Type)], vec![r(Category::METADATA, "a", Type)], vec![r(Category::CONTENTS, "$.a", Type)],
  ]
}

pub fn c31(run: &Run) {
  let methods = ["GET", "get", "POST", "", "Überall", "überall"];
  let paths = ["/", "/a", "/A", "/a/", "/a%20b", "/a b", "", "/b/a", "*", "/é", "/%C3%A9", "//a", "/a?x=1"];
  let (qs, hs, bs, rs) = (queries(), headers(), bodies(), rule_sets());
  let base = Req { method: "GET".into(), path: "/a".into(), query: l(&[("a", &["1"])]), headers: l(&[("X-A", &["1"])]), body: b("{\"a\":1}") };
  let sizes = [methods.len(), paths.len(), qs.len(), hs.len(), bs.len()];
  let set = |r: &mut Req, part: usize, k: usize| match part { 0 => r.method = methods[k].into(), 1 => r.path = paths[k].into(), 2 => r.query = qs[k].clone(), 3 => r.headers = hs[k].clone(), _ => r.body = bs[k].clone() };
  // every two parts vary freely, on both sides
  for x in 0..5 { for y in x + 1..5 {
    let names = ["method", "path", "query", "headers", "body"];
    let bases = [sizes[x], sizes[y], sizes[x], sizes[y]];
    run.explore(&format!("{}-{}", names[x], names[y]), "every two requests with every value for these two parts on either side, under every rule set (quick: those for the two parts, and every one when only one part differs)", space_size(&bases), |i, rec| {
      let d = digits(i, &bases);
      rec.state(&(x, y, &d));
      let (mut e, mut a) = (base.clone(), base.clone());
      set(&mut e, x, d[0]); set(&mut e, y, d[1]); set(&mut a, x, d[2]); set(&mut a, y, d[3]);
      let cats = [Category::METHOD, Category::PATH, Category::QUERY, Category::HEADER, Category::BODY];
      for r in &rs { if run.thorough || d[0] == d[2] || d[1] == d[3] || r.is_empty() || r.iter().any(|r| r.0 == cats[x] || r.0 == cats[y]) { one_request(rec, "request", &e, &a, r); } }
    });
  } }
  // all five parts at once
  let few: [Vec<usize>; 5] = if run.thorough { [vec![0, 1, 2], vec![0, 1, 2], vec![0, 2, 3, 4, 7], vec![0, 2, 3, 4, 10, 12], vec![0, 2, 3, 5, 6, 7]] } else { [vec![0, 2], vec![1, 2], vec![0, 2, 3, 7], vec![0, 2, 4, 12], vec![0, 2, 3, 5, 7]] };
  let bases: Vec<usize> = few.iter().chain(few.iter()).map(|v| v.len()).collect();
  run.explore("all", "every two requests with every combination of values for all parts on either side", space_size(&bases), |i, rec| {
    let d = digits(i, &bases);
    rec.state(&d);
    let (mut e, mut a) = (base.clone(), base.clone());
    for p in 0..5 { set(&mut e, p, few[p][d[p]]); set(&mut a, p, few[p][d[p + 5]]); }
    for r in [0, 20] { one_request(rec, "all", &e, &a, &rs[r]); }
  });
  // the number of names and differences is not limited
  run.explore("many", "up to 400 query parameters, headers and body elements, all equal or all different", 4 * 401, |i, rec| {
    let (n, k) = ((i / 4) as usize, i % 4);
    rec.state(&(n, k, 1));
    let names: Vec<String> = (0..n).map(|i| format!("n{}", i)).collect();
    let lists = |v: &str| -> Option<Lists> { Some(names.iter().map(|k| (k.clone(), vec![v.to_string()])).collect()) };
    let make = |v: &str| match k { 0 => Req { query: lists(v), ..base.clone() }, 1 => Req { headers: lists(v), ..base.clone() }, 2 => Req { body: b(&json!(vec![v; n]).to_string()), ..base.clone() }, _ => Req { query: lists(v), headers: lists(v), ..base.clone() } };
    one_request(rec, "many", &make("x"), &make("x"), &vec![]);
    one_request(rec, "many", &make("x"), &make("y"), &vec![]);
  });
}

pub fn c32(run: &Run) {
  let codes = [200u16, 201, 204, 299, 300, 404, 500, 100, 0, 999, 65535];
  let (hs, bs, mut rs) = (headers(), bodies(), rule_sets());
  let st = |r: MatchingRule| -> Rules { vec![(Category::STATUS, DocPath::empty(), vec![r], RuleLogic::And)] };
  for s in [HttpStatus::Information, HttpStatus::Success, HttpStatus::Redirect, HttpStatus::ClientError, HttpStatus::ServerError, HttpStatus::NonError, HttpStatus::Error, HttpStatus::StatusCodes(vec![200, 404]), HttpStatus::StatusCodes(vec![])] { rs.push(st(StatusCode(s))); }
  for r in [Type, Equality, Integer, Number, Regex("2\\d\\d".into()), Include("0".into())] { rs.push(st(r)); }
  rs.push(vec![(Category::STATUS, DocPath::empty(), vec![StatusCode(HttpStatus::Success), StatusCode(HttpStatus::Redirect)], RuleLogic::Or)]);
  rs.push(vec![(Category::STATUS, DocPath::empty(), vec![StatusCode(HttpStatus::NonError), StatusCode(HttpStatus::Success)], RuleLogic::And)]);
  let base = Resp { status: 200, headers: l(&[("X-A", &["1"])]), body: b("{\"a\":1}") };
  let sizes = [codes.len(), hs.len(), bs.len()];
  let set = |r: &mut Resp, part: usize, k: usize| match part { 0 => r.status = codes[k], 1 => r.headers = hs[k].clone(), _ => r.body = bs[k].clone() };
  for x in 0..3 { for y in x + 1..3 {
    let names = ["status", "headers", "body"];
    let bases = [sizes[x], sizes[y], sizes[x], sizes[y]];
    run.explore(&format!("{}-{}", names[x], names[y]), "every two responses with every value for these two parts on either side, under every rule set (quick: those for the two parts, and every one when only one part differs)", space_size(&bases), |i, rec| {
      let d = digits(i, &bases);
      rec.state(&(x, y, &d));
      let (mut e, mut a) = (base.clone(), base.clone());
      set(&mut e, x, d[0]); set(&mut e, y, d[1]); set(&mut a, x, d[2]); set(&mut a, y, d[3]);
      let cats = [Category::STATUS, Category::HEADER, Category::BODY];
      for r in &rs { if run.thorough || d[0] == d[2] || d[1] == d[3] || r.is_empty() || r.iter().any(|r| r.0 == cats[x] || r.0 == cats[y]) { one_response(rec, "response", &e, &a, r); } }
    });
  } }
  let few: [Vec<usize>; 3] = if run.thorough { [vec![0, 1, 5], vec![0, 2, 3, 4, 6, 8, 9, 10, 12], (0..11).collect()] } else { [vec![0, 5], vec![0, 2, 4, 9, 10, 12], vec![0, 1, 2, 3, 4, 5, 6, 7]] };
  let bases: Vec<usize> = few.iter().chain(few.iter()).map(|v| v.len()).collect();
  run.explore("all", "every two responses with every combination of values for all parts on either side", space_size(&bases), |i, rec| {
    let d = digits(i, &bases);
    rec.state(&d);
    let (mut e, mut a) = (base.clone(), base.clone());
    for p in 0..3 { set(&mut e, p, few[p][d[p]]); set(&mut a, p, few[p][d[p + 3]]); }
    for r in [0, 20] { one_response(rec, "all", &e, &a, &rs[r]); }
  });
  run.explore("status", "every status code under every status rule", 1 << 16, |i, rec| {
    rec.state(&i);
    let a = Resp { status: i as u16, ..base.clone() };
    for r in rs.iter().filter(|r| r.is_empty() || r[0].0 == Category::STATUS) { one_response(rec, "status", &base, &a, r); }
  });
}
