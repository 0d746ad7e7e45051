//! C40: the plan-based matching engine (MATCHING_ENGINE=v2) against the model of the classic one.
use crate::jmodel::{compare, path, Ctx, Out};
use crate::m_body::{now, Body, Verdict};
use crate::m_http::*;
use crate::m_text::Lists;
use mccore::{digits, space_size, Rec, Run};
use pact_matching::{match_request, RequestMatchResult};
use pact_models::bodies::OptionalBody;
use pact_models::content_types::{ContentType, JSON, XML};
use pact_models::interaction::Interaction;
use pact_models::matchingrules::{Category, MatchingRule, RuleLogic};
use pact_models::path_exp::DocPath;
use pact_models::v4::http_parts::HttpRequest;
use pact_models::v4::synch_http::SynchronousHttp;
use serde_json::Value;
use std::panic::RefUnwindSafe;
use MatchingRule::{ArrayContains, Equality, Include, Integer, MaxType, MinMaxType, MinType, NotEmpty, Null, Regex, Type, Values};

fn v2(rec: &mut Rec, class: &str, e: &HttpRequest, a: &HttpRequest) -> Option<RequestMatchResult> {
  let i: Box<dyn Interaction + Send + Sync + RefUnwindSafe> = Box::new(SynchronousHttp { request: e.clone(), ..SynchronousHttp::default() });
  let p = pact();
  let r = rec.no_panic(class, || now(match_request(e.clone(), a.clone(), &p, &i)))?;
  rec.steps(1);
  match r { Ok(r) => Some(r), Err(e) => { rec.fail("error", format!("{}", e)); None } }
}

/// Requests outside the domain that the property speaks about.
fn requests_in_domain(e: &Req, a: &Req, rules: &Rules) -> bool {
  let ct = |r: &Req| r.headers.iter().flatten().find(|(k, _)| k.to_lowercase() == "content-type").and_then(|(_, v)| v.first().cloned());
  let (ce, ca) = (ct(e), ct(a));
  if ce != ca && [&ce, &ca].iter().any(|c| c.as_ref().map(|c| c.contains(';')).unwrap_or(false)) { return false; }
  if [e, a].iter().any(|r| r.headers.iter().flatten().any(|(_, v)| v.iter().any(|v| v.trim() != v))) { return false; }
  for (cat, p, r, _) in rules {
    let (le, la) = match cat { Category::HEADER => (&e.headers, &a.headers), Category::QUERY => (&e.query, &a.query), _ => continue };
    if p.to_string().ends_with(']') && p.to_string().contains("[0]") { return false; }
    if r.iter().any(|r| matches!(r, MinType(_) | MaxType(_) | MinMaxType(..))) { return false; }
    let name = |k: &str| if *cat == Category::HEADER { k.to_lowercase() } else { k.to_string() };
    if *cat == Category::HEADER && ["$", "$.*"].contains(&p.to_string().as_str()) || p.to_string().to_lowercase().contains("content-type") { if ce.is_some() || ca.is_some() { return false; } }
    for (k, v) in le.iter().flatten() {
      for (b, w) in la.iter().flatten() { if name(k) == name(b) && (v.len() != 1 || w.len() != 1) { return false; } }
    }
  }
  // a body that is not what its own header says
  if let Body::Bytes(b) = &e.body { if ce.as_ref().map(|c| c.contains("json")).unwrap_or(false) && serde_json::from_slice::<Value>(b).is_err() { return false; } }
  if let Body::Bytes(b) = &e.body { if let Ok(v) = serde_json::from_slice::<Value>(b) { return in_domain(&v, &part(rules, Category::BODY, true), &mut vec!["$".into()]); } }
  true
}
/// A JSON document and rules where no rule is for an array or object, save type rules for arrays with one element and type rules that come from a path above an object.
fn in_domain(e: &Value, c: &Ctx, at: &mut Vec<String>) -> bool {
  let s = c.select(at);
  let here = match (e, &s) {
    (_, None) => true,
    (Value::Array(l), Some(s)) => l.len() == 1 && !c.rules.iter().any(|r| r.0.to_string().contains("[0]")) && s.rules.iter().all(|r| matches!(r, Type | MinType(_) | MaxType(_) | MinMaxType(..))),
    (Value::Object(_), Some(s)) => s.cascaded && s.rules.iter().all(|r| matches!(r, Type | MinType(_) | MaxType(_) | MinMaxType(..))),
    _ => true
  };
  here && match e {
    Value::Array(l) => l.iter().enumerate().all(|(i, v)| { at.push(i.to_string()); let r = in_domain(v, c, at); at.pop(); r }),
    Value::Object(o) => o.iter().all(|(k, v)| { at.push(k.clone()); let r = in_domain(v, c, at); at.pop(); r }),
    _ => true
  }
}

fn one(rec: &mut Rec, class: &str, e: &Req, a: &Req, rules: &Rules) {
  rec.case(format!("{} / {}{}", e.show(), a.show(), show_rules(rules)));
  if !requests_in_domain(e, a, rules) { rec.outcome("outside the domain"); return; }
  all_parts(rec, class, e, a, rules);
}
fn all_parts(rec: &mut Rec, class: &str, e: &Req, a: &Req, rules: &Rules) {
  let want = request_diff(e, a, rules);
  let Some(r) = v2(rec, class, &e.build(rules), &a.build(&vec![])) else { return };
  rec.trace();
  rec.outcome(want.names());
  let got = (r.method.is_some(), r.path.as_ref().map(|p| !p.is_empty()).unwrap_or(false), r.query.values().any(|v| !v.is_empty()), r.headers.values().any(|v| !v.is_empty()), !r.body.all_matched());
  let body = want.body != Some(Verdict::Ok);
  let exp = (want.method, want.path, !want.query.is_empty(), !want.headers.is_empty(), if want.body == Some(Verdict::Unspecified) { got.4 } else { body });
  rec.check(exp == got, class, || format!("differences in (method, path, query, headers, body) should be {:?}, are {:?}: {:?} / {:?}", exp, got, want, r));
  rec.check(r.all_matched() == (got == (false, false, false, false, false)), "all-matched", || format!("all_matched is {}: {:?}", r.all_matched(), r));
}

fn with(body: Vec<u8>, t: &ContentType, rules: &Rules) -> HttpRequest { HttpRequest { body: OptionalBody::Present(body.into(), Some(t.clone()), None), matching_rules: matching_rules(rules), ..HttpRequest::default() } }
fn bodies_alone(rec: &mut Rec, class: &str, e: Vec<u8>, a: Vec<u8>, t: &ContentType, rules: &Rules, want: bool) {
  rec.trace();
  rec.outcome(if want { "body mismatch" } else { "body match" });
  let Some(r) = v2(rec, class, &with(e, t, rules), &with(a, t, &vec![])) else { return };
  rec.check(want == !r.body.all_matched(), class, || format!("should {}match: {:?}", if want { "not " } else { "" }, r.body));
  rec.check(r.all_matched() != want && r.method.is_none() && r.path.iter().flatten().next().is_none(), class, || format!("the verdict is not that of the body: {:?}", r));
}
fn json_bodies(rec: &mut Rec, class: &str, e: &Value, a: &Value, c: &Ctx) {
  let mut o = Out::default(); compare(&DocPath::root(), e, a, c, &mut o);
  if o.tie || !in_domain(e, c, &mut vec!["$".into()]) { rec.outcome("outside the domain"); return; }
  let rules: Rules = c.rules.iter().map(|(p, r, l)| (Category::BODY, p.clone(), r.clone(), *l)).collect();
  bodies_alone(rec, class, e.to_string().into_bytes(), a.to_string().into_bytes(), &JSON, &rules, !o.paths.is_empty());
}
fn xml_bodies(rec: &mut Rec, class: &str, e: &crate::m_xml::Elem, a: &crate::m_xml::Elem, c: &Ctx) {
  let mut o = crate::m_xml::Out::default(); crate::m_xml::compare(&DocPath::root().join(crate::m_xml::full(&e.name)), e, a, c, &mut o);
  let (x, y) = (crate::m_xml::plain(e), crate::m_xml::plain(a));
  rec.case(format!("{} / {} {:?}", x, y, c.rules));
  // attributes are only compared where the expected element has some
  fn attrs(e: &crate::m_xml::Elem, at: String, with: bool, out: &mut std::collections::BTreeSet<String>) {
    let at = format!("{}/{}", at, crate::m_xml::full(&e.name));
    if e.attrs.is_empty() != with { out.insert(at.clone()); }
    for k in &e.kids { if let crate::m_xml::Node::E(k) = k { attrs(k, at.clone(), with, out); } }
  }
  let (mut without, mut having) = Default::default();
  attrs(e, String::new(), false, &mut without); attrs(a, String::new(), true, &mut having);
  let text_type = c.rules.iter().any(|(p, r, _)| p.to_string().contains("#text") && r.contains(&Type));
  if text_type || without.intersection(&having).next().is_some() { rec.outcome("outside the domain"); return; }
  if o.unspecified { rec.outcome("outside the domain"); return; }
  let rules: Rules = c.rules.iter().map(|(p, r, l)| (Category::BODY, p.clone(), r.clone(), *l)).collect();
  bodies_alone(rec, class, x.into_bytes(), y.into_bytes(), &XML, &rules, !o.paths.is_empty());
}
fn l(v: &[(&str, &[&str])]) -> Option<Lists> { Some(v.iter().map(|(k, v)| (k.to_string(), v.iter().map(|s| s.to_string()).collect())).collect()) }

pub fn c40(run: &Run) {
  std::env::set_var("MATCHING_ENGINE", "v2");
  let (jd, jr) = (crate::m_json::docs(), crate::m_json::rules());
  let exprs: Vec<DocPath> = ["$", "$.a", "$.b", "$.*", "$[*]", "$[0]", "$[1]", "$.a[*]", "$.a[0]", "$.a.b", "$.a.*", "$.a[*].b", "$[*].a", "$[*][*]"].iter().map(|s| path(s)).collect();
  run.pairs("JSON without rules", "every pair of JSON documents", &jd, &jd, |e, a, rec| {
    rec.state(&(e.to_string(), a.to_string()));
    rec.case(format!("{} / {}", e, a));
    json_bodies(rec, "json", e, a, &Ctx { rules: vec![], strict: true });
  });
  let qr: Vec<usize> = if run.thorough { (0..jr.len()).collect() } else { vec![0, 1, 3, 7, 11, 13, 15, 16, 17] };
  let qd: Vec<&Value> = if run.thorough { jd.iter().collect() } else { jd.iter().filter(|d| !["2", "\"ab\"", "\"2001-02-03\"", "[2]", "[1,2,3]", "[\"a\"]", "[{}]", "{\"a\":2}", "{\"a\":1,\"b\":\"x\",\"c\":true}", "{\"a\":{}}", "{\"0\":1}", "{\"a\":[{\"b\":1},{\"c\":\"x\"}]}", "{\"a\":{\"b\":[1]}}"].contains(&d.to_string().as_str())).collect() };
  let bases = [qd.len(), qd.len(), exprs.len()];
  run.explore("JSON with a rule", "every pair of JSON documents under a rule at every path expression (quick: fewer documents and rules)", space_size(&bases), |i, rec| {
    let d = digits(i, &bases);
    let (e, a, p) = (qd[d[0]], qd[d[1]], &exprs[d[2]]);
    for r in &qr { let r = &jr[*r];
      let c = Ctx { rules: vec![(p.clone(), vec![r.clone()], RuleLogic::And)], strict: true };
      rec.case(format!("{} / {} {}: {:?}", e, a, p, r));
      rec.state(&(d[0], d[1], d[2], format!("{:?}", r)));
      json_bodies(rec, "json", e, a, &c);
    }
  });
  let few: Vec<Value> = ["1", "2", "\"a\"", "\"ab\"", "null", "[]", "[1]", "[\"a\"]", "[1,2]", "{}", "{\"a\":1}", "{\"a\":\"a\"}", "{\"a\":\"b\"}", "{\"a\":null}", "{\"a\":[1]}", "{\"a\":[1,\"x\"]}", "{\"a\":{\"b\":1}}", "{\"a\":1,\"b\":2}"].iter().map(|t| serde_json::from_str(t).unwrap()).collect();
  let few: Vec<Value> = if run.thorough { few } else { few.into_iter().enumerate().filter(|(i, _)| ![1, 5, 13, 15].contains(i)).map(|x| x.1).collect() };
  let fr = if run.thorough { vec![Equality, Type, MinType(2), MaxType(1), Regex("^a".into()), Include("b".into()), Integer, Null, NotEmpty, Values, ArrayContains(vec![])] } else { vec![Equality, Type, MinType(2), Regex("^a".into()), Include("b".into()), Integer, Null] };
  let fp: Vec<DocPath> = ["$", "$.a", "$.*", "$[*]", "$[0]", "$.a[*]"].iter().map(|s| path(s)).collect();
  let bases = [few.len(), few.len(), fp.len()];
  run.explore("JSON with two rules", "every pair of JSON documents under every list of two rules (AND and OR) at every path expression, and at two path expressions (quick: the second only Type)", space_size(&bases), |i, rec| {
    let d = digits(i, &bases);
    let (e, a, p) = (&few[d[0]], &few[d[1]], &fp[d[2]]);
    rec.state(&d);
    for r in &fr { for s in &fr {
      for l in [RuleLogic::And, RuleLogic::Or] {
        let c = Ctx { rules: vec![(p.clone(), vec![r.clone(), s.clone()], l)], strict: true };
        rec.case(format!("{} / {} {}: {:?} {:?} {:?}", e, a, p, r, l, s));
        json_bodies(rec, "json", e, a, &c);
      }
      if !run.thorough && *s != Type { continue; }
      for q in &fp { if q != p {
        let c = Ctx { rules: vec![(p.clone(), vec![r.clone()], RuleLogic::And), (q.clone(), vec![s.clone()], RuleLogic::And)], strict: true };
        rec.case(format!("{} / {} {}: {:?}, {}: {:?}", e, a, p, r, q, s));
        json_bodies(rec, "json", e, a, &c);
      } }
    } }
  });
  // XML
  let docs = if run.thorough { let mut d = crate::m_xml::documents(1, 6, &["a", "b"]); d.extend(crate::m_xml::few()); d } else { crate::m_xml::few() };
  run.pairs("XML without rules", "every pair of XML documents (quick: 29, thorough: every one with up to one child and every combination of attributes and text)", &docs, &docs, |e, a, rec| {
    rec.state(&(e, a));
    xml_bodies(rec, "xml", e, a, &Ctx { rules: vec![], strict: true });
  });
  let few = crate::m_xml::few();
  let xr = [Equality, Type, Regex("[a1]".into()), Include("t".into()), Integer, NotEmpty];
  let xe: Vec<DocPath> = ["$.a['@x']", "$.a['#text']", "$.a.b['@x']", "$.a.b['#text']", "$.a.*['#text']", "$.a['@*']"].iter().map(|s| path(s)).collect();
  let bases = [few.len(), few.len(), xe.len()];
  run.explore("XML with rules", "every pair of XML documents under every rule for attributes and texts (quick: half of the rules, without the second half of the paths)", space_size(&bases), |i, rec| {
    let d = digits(i, &bases);
    if !run.thorough && d[2] > 2 { return; }
    rec.state(&d);
    for (k, r) in xr.iter().enumerate() { if run.thorough || k > 1 && k < 4 && (d[2] != 1 || *r != Type) {
      xml_bodies(rec, "xml", &few[d[0]], &few[d[1]], &Ctx { rules: vec![(xe[d[2]].clone(), vec![r.clone()], RuleLogic::And)], strict: true });
      for (j, q) in xr.iter().enumerate() { for lo in [RuleLogic::And, RuleLogic::Or] { if q != r && (run.thorough || j == k + 2 && lo == RuleLogic::Or) { xml_bodies(rec, "xml", &few[d[0]], &few[d[1]], &Ctx { rules: vec![(xe[d[2]].clone(), vec![r.clone(), q.clone()], lo)], strict: true }); } } }
    } }
  });
  // text
  let texts = ["", "a", "A", "ab", "b", "1", " a", "a\n", "é", "{\"a\":1}", "null"];
  let mut lists: Vec<(Vec<MatchingRule>, RuleLogic)> = vec![(vec![], RuleLogic::And)];
  let tr = [Equality, Type, Regex("^a".into()), Regex("\\d".into()), Include("a".into()), Integer, NotEmpty, Null];
  for r in &tr { lists.push((vec![r.clone()], RuleLogic::And)); for s in &tr { for l in [RuleLogic::And, RuleLogic::Or] { lists.push((vec![r.clone(), s.clone()], l)); } } }
  let bases = [texts.len(), texts.len(), lists.len()];
  run.explore("text", "every pair of texts under no rule and every list of up to two rules (AND and OR)", space_size(&bases), |i, rec| {
    let d = digits(i, &bases);
    let (e, a, (r, l)) = (texts[d[0]], texts[d[1]], &lists[d[2]]);
    rec.case(format!("{:?} / {:?} {:?} {:?}", e, a, r, l));
    rec.state(&d);
    let rules: Rules = if r.is_empty() { vec![] } else { vec![(Category::BODY, DocPath::root(), r.clone(), *l)] };
    let h = l_text();
    let q = |t: &str| Req { method: "GET".into(), path: "/".into(), query: None, headers: h.clone(), body: Body::Bytes(t.as_bytes().to_vec()) };
    all_parts(rec, "text", &q(e), &q(a), &rules);
  });
  // the other parts
  let methods = ["GET", "get", "POST", "", "Überall", "überall"];
  let paths = ["/", "/a", "/A", "/a/", "/a%20b", "/a b", "", "/b/a", "*", "/é", "/%C3%A9", "//a", "/a?x=1"];
  let (mut qs, mut hs, bs, mut rs) = (queries(), headers(), bodies(), rule_sets());
  qs.extend([l(&[("a", &["1", "1"])]), l(&[("a b", &["1"])]), l(&[("a.b", &["1"])]), l(&[("$a", &["1"])]), l(&[("a[]", &["1"])]), l(&[("a[0]", &["1"])]), l(&[("é", &["1"])]), l(&[("*", &["1"])]), l(&[("1", &["1"])]), l(&[("[*]", &["1"])]), l(&[("1", &["2"])]), l(&[("a'b", &["1"])]), l(&[("a", &["1"]), ("A", &["2"])])]);
  hs.extend([l(&[("X-A", &["1", "1"])]), l(&[("X.A", &["1"])]), l(&[("X_a$", &["1"])]), l(&[("Accept", &["text/plain"])]), l(&[("accept", &["text/plain;q=1"])]), l(&[("Accept", &["text/plain;q=1;v=2"])]), l(&[("Accept", &["a/b", "c/d"])]), l(&[("Accept", &["c/d", "a/b"])])]);
  let r = |c: Category, p: &str, rl: Vec<MatchingRule>, lo: RuleLogic| -> Rules { vec![(c, if p.is_empty() { DocPath::empty() } else { path(p) }, rl, lo)] };
  for lo in [RuleLogic::And, RuleLogic::Or] {
    rs.push(r(Category::PATH, "", vec![Regex("/.*".into()), Include("b".into())], lo)); rs.push(r(Category::PATH, "", vec![Include("b".into()), Type], lo)); rs.push(r(Category::PATH, "", vec![Equality, Regex("a".into())], lo));
    rs.push(r(Category::QUERY, "a", vec![Integer, Include("2".into())], lo)); rs.push(r(Category::QUERY, "$.*", vec![Include("2".into()), Equality], lo));
    rs.push(r(Category::HEADER, "X-A", vec![Integer, Include("2".into())], lo)); rs.push(r(Category::HEADER, "x-a", vec![Include("2".into()), Equality], lo)); rs.push(r(Category::HEADER, "Accept", vec![Include("text".into()), Include("q".into())], lo));
  }
  rs.push(r(Category::QUERY, "$['a b']", vec![Type], RuleLogic::And)); rs.push(r(Category::QUERY, "$['a.b']", vec![Integer], RuleLogic::And)); rs.push(r(Category::QUERY, "A", vec![Integer], RuleLogic::And));
  let base = Req { method: "GET".into(), path: "/a".into(), query: qs[2].clone(), headers: hs[2].clone(), body: bs[5].clone() };
  let sizes = [methods.len(), paths.len(), qs.len(), hs.len(), bs.len()];
  let set = |r: &mut Req, part: usize, k: usize| match part { 0 => r.method = methods[k].into(), 1 => r.path = paths[k].into(), 2 => r.query = qs[k].clone(), 3 => r.headers = hs[k].clone(), _ => r.body = bs[k].clone() };
  let names = ["method", "path", "query", "headers", "body"];
  for x in 0..5 {
    let bases = [sizes[x], sizes[x]];
    run.explore(names[x], "every two requests with every value for this part on either side, under every rule set", space_size(&bases), |i, rec| {
      let d = digits(i, &bases);
      rec.state(&(x, &d));
      let (mut e, mut a) = (base.clone(), base.clone());
      set(&mut e, x, d[0]); set(&mut a, x, d[1]);
      for r in &rs { one(rec, "request", &e, &a, r); }
    });
  }
  let few: [Vec<usize>; 5] = if run.thorough { [vec![0, 1, 2], vec![1, 2], vec![0, 2, 3, 4, 7], vec![0, 2, 3, 4, 10, 12], vec![0, 2, 3, 5, 7]] } else { [vec![0, 2], vec![1, 2], vec![0, 2, 3, 7], vec![0, 2, 4], vec![0, 2, 5, 7]] };
  let bases: Vec<usize> = few.iter().chain(few.iter()).map(|v| v.len()).collect();
  run.explore("all", "every two requests with every combination of values for all parts on either side", space_size(&bases), |i, rec| {
    let d = digits(i, &bases);
    rec.state(&d);
    let (mut e, mut a) = (base.clone(), base.clone());
    for p in 0..5 { set(&mut e, p, few[p][d[p]]); set(&mut a, p, few[p][d[p + 5]]); }
    for r in if run.thorough { vec![0, 20] } else { vec![0] } { one(rec, "all", &e, &a, &rs[r]); }
  });
  // where it is known to differ
  let q = |v: &[&str]| Req { query: l(&[("a", v)]), ..base.clone() };
  let h = |k: &str, v: &[&str]| Req { headers: l(&[(k, v)]), ..base.clone() };
  let bd = |t: &str, b: &str| Req { headers: l(&[("Content-Type", &[t])]), body: Body::Bytes(b.as_bytes().to_vec()), ..base.clone() };
  let rule = |c: Category, p: &str, x: MatchingRule| -> Rules { vec![(c, path(p), vec![x], RuleLogic::And)] };
  let known: Vec<(&str, Req, Req, Rules)> = vec![
    ("a content type with a parameter", bd("application/json", "1"), bd("application/json;charset=utf-8", "1"), vec![]),
    ("space around a header value", h("X-A", &["1"]), h("X-A", &[" 1 "]), vec![]),
    ("a rule for the content type header", bd("application/json", "1"), bd("text/plain", "1"), rule(Category::HEADER, "Content-Type", Type)),
    ("a size rule for a parameter", q(&["1", "2"]), q(&["1"]), rule(Category::QUERY, "a", MinType(2))),
    ("a rule for a parameter's item", q(&["1"]), q(&["2"]), rule(Category::QUERY, "$.a[0]", Type)),
    ("a rule for a parameter with several values", q(&["1", "2"]), q(&["1", "x"]), rule(Category::QUERY, "a", Regex("\\d".into()))),
    ("a rule for a JSON array", bd("application/json", "[1,2]"), bd("application/json", "[1,2]"), rule(Category::BODY, "$", Equality)),
    ("a size rule for a JSON array", bd("application/json", "[1,2]"), bd("application/json", "[1,2]"), rule(Category::BODY, "$", MinType(3))),
    ("a rule for a JSON object", bd("application/json", "{\"a\":1}"), bd("application/json", "{\"a\":1}"), rule(Category::BODY, "$", Equality)),
    ("values of a JSON object", bd("application/json", "{\"a\":1}"), bd("application/json", "{\"b\":2}"), rule(Category::BODY, "$", Values)),
    ("an unexpected XML attribute", bd("application/xml", "<a/>"), bd("application/xml", "<a x=\"1\"/>"), vec![]),
    ("a type rule for an XML text", bd("application/xml", "<a>1</a>"), bd("application/xml", "<a>2</a>"), rule(Category::BODY, "$.a['#text']", Type)),
  ];
  run.each("known", "one case of each kind that the engine is known to treat differently", &known, |(name, e, a, r), rec| {
    rec.case(name.to_string());
    rec.state(name);
    let want = request_diff(e, a, r);
    let Some(got) = v2(rec, "known", &e.build(r), &a.build(&vec![])) else { return };
    rec.outcome(want.names());
    rec.check(got.all_matched() == (want.names() == "match"), "differs", || format!("{} / {}{}: should be {:?}, is {:?}", e.show(), a.show(), show_rules(r), want, got));
  });
}
fn l_text() -> Option<Lists> { l(&[("Content-Type", &["text/plain"])]) }
