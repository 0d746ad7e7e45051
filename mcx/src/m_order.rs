//! C39: the outcome does not depend on the order of maps.
use crate::jmodel::path;
use crate::m_body::now;
use crate::m_http::{matching_rules, pact, interaction, show_rules, Rules};
use crate::os::with_hash_seed;
use mccore::{digits, space_size, util::permutations, Rec, Run};
use pact_matching::{generate_request, match_message, match_request, match_response, Mismatch};
use pact_models::bodies::OptionalBody;
use pact_models::content_types::ContentType;
use pact_models::matchingrules::{Category, MatchingRule, RuleLogic};
use pact_models::path_exp::DocPath;
use pact_models::v4::http_parts::{HttpRequest, HttpResponse};
use serde_json::{json, Value};
use pact_models::generators::{Generator, GeneratorCategory, GeneratorTestMode, Generators};
use pact_models::interaction::Interaction;
use pact_models::v4::async_message::AsynchronousMessage;
use pact_models::v4::message_parts::MessageContents;
use std::collections::{BTreeSet, HashMap};
use std::panic::RefUnwindSafe;
use Generator::{ProviderStateGenerator, RandomInt};
use MatchingRule::{ArrayContains, EachKey, EachValue, Equality, Include, Integer, MaxType, MinType, NotEmpty, Null, Number, Regex, Type, Values};

type Lists = Vec<(String, Vec<String>)>;
fn ordered<T: Clone>(l: &[T], order: &[usize]) -> Vec<T> { order.iter().map(|i| l[*i].clone()).collect() }
fn order_of<V>(m: &HashMap<String, V>) -> String { m.keys().cloned().collect::<Vec<_>>().join("\u{1}") }

/// Everything a result says, in an order of its own.
fn canon(m: &[Mismatch]) -> BTreeSet<String> { m.iter().map(|m| format!("{:?}", m)).collect() }

struct Case { e: (Lists, Lists, Option<String>), a: (Lists, Lists, Option<String>), kind: String, rules: Rules, reps: usize }
fn body(t: &Option<String>, kind: &str) -> OptionalBody { match t { Some(t) => OptionalBody::Present(t.clone().into(), ContentType::parse(kind).ok(), None), None => OptionalBody::Missing } }
fn outcomes(c: &Case, rec: &mut Rec) -> Option<BTreeSet<BTreeSet<String>>> {
  let mut seen: [BTreeSet<String>; 3] = Default::default();
  let mut out = BTreeSet::new();
  let most = [c.e.0.len(), c.e.1.len(), c.a.0.len(), c.a.1.len(), c.rules.len()].iter().max().cloned().unwrap();
  let perms = permutations(most.min(4));
  let r = rec.no_panic("panic", || with_hash_seed(11, || {
    for rep in 0..c.reps {
      let perm = &perms[rep % perms.len()];
      let o = |n: usize| -> Vec<usize> { perm.iter().cloned().filter(|i| *i < n).chain(perm.len()..n).collect() };
      let q = |l: &Lists| -> Option<HashMap<String, Vec<Option<String>>>> { Some(ordered(l, &o(l.len())).into_iter().map(|(k, v)| (k, v.into_iter().map(Some).collect())).collect()) };
      let h = |l: &Lists| -> Option<HashMap<String, Vec<String>>> { Some(ordered(l, &o(l.len())).into_iter().collect()) };
      let rules = ordered(&c.rules, &o(c.rules.len()));
      let e = HttpRequest { method: "GET".into(), path: "/".into(), query: q(&c.e.1), headers: h(&c.e.0), body: body(&c.e.2, &c.kind), matching_rules: matching_rules(&rules), ..HttpRequest::default() };
      let a = HttpRequest { method: "GET".into(), path: "/".into(), query: q(&c.a.1), headers: h(&c.a.0), body: body(&c.a.2, &c.kind), ..HttpRequest::default() };
      seen[0].insert(order_of(a.headers.as_ref().unwrap())); seen[1].insert(order_of(a.query.as_ref().unwrap())); seen[2].insert(order_of(e.headers.as_ref().unwrap()));
      let (p, i) = (pact(), interaction());
      let (er, ar) = (HttpResponse { headers: e.headers.clone(), body: e.body.clone(), matching_rules: e.matching_rules.clone(), ..HttpResponse::default() }, HttpResponse { headers: a.headers.clone(), body: a.body.clone(), ..HttpResponse::default() });
      let mut s = match now(match_request(e, a, &p, &i)) { Ok(r) => canon(&r.mismatches()), Err(e) => [format!("error {}", e)].into() };
      s.extend(now(match_response(er, ar, &p, &i)).iter().map(|m| format!("response {:?}", m)));
      out.insert(s);
    }
  }));
  r?;
  rec.steps(2 * c.reps as u64);
  rec.trace();
  for s in &seen { rec.outcome(format!("{} orders", s.len())); }
  Some(out)
}
fn one(rec: &mut Rec, class: &str, c: &Case) {
  rec.case(format!("{:?} / {:?} {}{}", c.e, c.a, c.kind, show_rules(&c.rules)));
  let Some(o) = outcomes(c, rec) else { return };
  rec.check(o.len() == 1, class, || { let v: Vec<_> = o.iter().collect(); format!("{} different outcomes, for example {:?} and {:?}", v.len(), v[0], v[1]) });
}
fn lists(names: &[&str], values: &[&[&str]], n: usize) -> Vec<Lists> {
  let mut out: Vec<Lists> = vec![];
  let k = values.len() + 1;
  for i in 0..k.pow(names.len() as u32) { let mut d = i; let mut l = vec![]; for name in names { let v = d % k; d /= k; if v > 0 { l.push((name.to_string(), values[v - 1].iter().map(|s| s.to_string()).collect())); } } if l.len() <= n { out.push(l); } }
  out
}
pub fn c39(run: &Run) {
  let reps = if run.thorough { 60 } else { 12 };
  let r = |c: Category, p: &str, r: MatchingRule| -> (Category, DocPath, Vec<MatchingRule>, RuleLogic) { (c, path(p), vec![r], RuleLogic::And) };
  use Category::*;
  let hs = lists(&["X-A", "x-a", "X-B"], &[&["1"], &["2"], &["1", "2"]], 3);
  let hr: Vec<Rules> = vec![vec![], vec![r(HEADER, "X-A", Regex("1".into()))], vec![r(HEADER, "X-A", Regex("1".into())), r(HEADER, "x-a", Regex("2".into()))], vec![r(HEADER, "$.*", Integer), r(HEADER, "$['X-A']", Include("1".into()))], vec![r(HEADER, "$['X-A'][0]", Type), r(HEADER, "$['X-A'][*]", Regex("2".into())), r(HEADER, "$.*[0]", Regex("1".into()))]];
  run.explore("headers", "every two lists of headers, with names that differ only in case, under several rules", space_size(&[hs.len(), hs.len(), hr.len()]), |i, rec| {
    let d = digits(i, &[hs.len(), hs.len(), hr.len()]);
    rec.state(&d);
    one(rec, "headers", &Case { e: (hs[d[0]].clone(), vec![], None), a: (hs[d[1]].clone(), vec![], None), kind: String::new(), rules: hr[d[2]].clone(), reps });
  });
  let qs = lists(&["a", "A", "b"], &[&["1"], &["2"], &["1", "2"]], 3);
  let qr: Vec<Rules> = vec![vec![], vec![r(QUERY, "a", Regex("1".into()))], vec![r(QUERY, "a", Regex("1".into())), r(QUERY, "A", Regex("2".into()))], vec![r(QUERY, "$.*", Integer), r(QUERY, "$.a", Include("1".into()))], vec![r(QUERY, "$.a[0]", Type), r(QUERY, "$.a[*]", Regex("2".into())), r(QUERY, "$.*[0]", Regex("1".into()))]];
  run.explore("query", "every two lists of parameters, under several rules", space_size(&[qs.len(), qs.len(), qr.len()]), |i, rec| {
    let d = digits(i, &[qs.len(), qs.len(), qr.len()]);
    rec.state(&d);
    one(rec, "query", &Case { e: (vec![], qs[d[0]].clone(), None), a: (vec![], qs[d[1]].clone(), None), kind: String::new(), rules: qr[d[2]].clone(), reps });
  });
  // JSON
  let docs: Vec<Value> = crate::m_json::docs().into_iter().filter(|d| d.is_array() || d.is_object()).chain([json!({"a": 1, "b": 2, "c": 3}), json!({"a": {"x": 1, "y": "b"}, "b": {"x": "1"}, "c": null}), json!([{"a": 1, "b": 2}, {"a": "x", "c": [1, 2]}, {"d": 1}])]).collect();
  let exprs = ["$", "$.a", "$.*", "$[*]", "$.a.*", "$.*.b", "$.*.*", "$.a[*]", "$[*].a", "$[0].*"];
  let v = |l: Vec<(usize, Vec<(&str, MatchingRule)>)>| ArrayContains(l.into_iter().map(|(i, r)| crate::m_json::variant(i, r)).collect());
  let few = vec![Type, Regex("^a".into()), Integer, Equality, MinType(2), MaxType(1), Values, EachKey(crate::m_json::def(vec![Regex("a".into())])), EachValue(crate::m_json::def(vec![Integer])), NotEmpty, v(vec![(0, vec![("$.a", Type), ("$.*", Number), ("$.b", Null)]), (1, vec![("$.*", Integer)])])];
  let bases = [docs.len(), docs.len(), exprs.len(), exprs.len()];
  run.explore("JSON", "every pair of documents under two rules at every two paths", space_size(&bases), |i, rec| {
    let d = digits(i, &bases);
    rec.state(&d);
    if d[2] > d[3] || (!run.thorough && (d[0] + d[1]) % 5 != 0) { return; }
    for a in 0..few.len() { let b = (a * 7 + 3 + d[3]) % few.len();
      let rules = vec![r(BODY, exprs[d[2]], few[a].clone()), r(BODY, exprs[d[3]], few[b].clone())];
      one(rec, "JSON", &Case { e: (vec![], vec![], Some(docs[d[0]].to_string())), a: (vec![], vec![], Some(docs[d[1]].to_string())), kind: "application/json".into(), rules, reps: 8 });
    }
  });
  // forms and XML
  let forms = ["a=1", "a=2", "a=1&b=2", "b=2&a=1", "a=1&a=2", "a=1&b=2&c=3", "A=1&a=2", ""];
  let fr = [Regex("1".into()), Include("2".into()), Integer, Type, NotEmpty];
  let fe = ["$", "$.a", "$.*", "$.b", "$.a[0]", "$.a[*]"];
  let bases = [forms.len(), forms.len(), fe.len(), fe.len()];
  run.explore("forms", "every pair of form bodies under two rules at every two paths", space_size(&bases), |i, rec| {
    let d = digits(i, &bases);
    rec.state(&d);
    if d[2] > d[3] { return; }
    for a in &fr { for b in &fr { if run.thorough || (a != b && (d[0] + d[1] + d[2] + d[3]) % 2 == 0) {
      one(rec, "forms", &Case { e: (vec![], vec![], Some(forms[d[0]].into())), a: (vec![], vec![], Some(forms[d[1]].into())), kind: "application/x-www-form-urlencoded".into(), rules: vec![r(BODY, fe[d[2]], a.clone()), r(BODY, fe[d[3]], b.clone())], reps: 8 });
    } } }
  });
  let xd: Vec<String> = crate::m_xml::few().iter().map(|e| crate::m_xml::plain(e)).chain(["<a x='1' y='2' z='3'><b/><c/><d/></a>".to_string(), "<a x='2' z='t'><d>1</d><c/><b>t</b></a>".into(), "<a><b x='1' y='2'/><b y='1'/><c/></a>".into()]).collect();
  let xe = ["$", "$.a", "$.*", "$.a.b", "$.a.*", "$.*.b", "$.a['@x']", "$.*['@*']", "$.a['#text']", "$.a.b['@x']"];
  let xr = [Type, Regex("[a1]".into()), Integer, MinType(2)];
  let bases = [xd.len(), xd.len(), xe.len(), xe.len()];
  run.explore("XML", "every pair of XML bodies under two rules at every two paths", space_size(&bases), |i, rec| {
    let d = digits(i, &bases);
    rec.state(&d);
    if d[2] > d[3] || (!run.thorough && (d[0] + d[1]) % 5 != 0) { return; }
    let (a, b) = (&xr[(d[0] + d[2]) % xr.len()], &xr[(d[1] + d[3]) % xr.len()]);
    one(rec, "XML", &Case { e: (vec![], vec![], Some(xd[d[0]].clone())), a: (vec![], vec![], Some(xd[d[1]].clone())), kind: "application/xml".into(), rules: vec![r(BODY, xe[d[2]], a.clone()), r(BODY, xe[d[3]], b.clone())], reps: 8 });
  });
  // which of two headers says what the body is
  let types = ["application/json", "text/plain", "application/xml", "application/x-www-form-urlencoded"];
  let texts = ["{\"a\":1}", "{\"a\": 1}", "<a x='1'/>", "<a  x='1'/>", "a=1&b=2", "b=2&a=1", "x"];
  let bases = [types.len(), types.len(), types.len(), texts.len(), texts.len()];
  run.explore("content types", "bodies whose type is given by two headers with names that differ only in case", space_size(&bases), |i, rec| {
    let d = digits(i, &bases);
    rec.state(&d);
    let h = |a: usize, b: usize| -> Lists { vec![("Content-Type".into(), vec![types[a].into()]), ("content-type".into(), vec![types[b].into()])] };
    one(rec, "content types", &Case { e: (h(d[0], d[1]), vec![], Some(texts[d[3]].into())), a: (h(d[2], d[2]), vec![], Some(texts[d[4]].into())), kind: String::new(), rules: vec![], reps: 12 });
  });
  loaded(run, reps);
  generated(run, reps);
  messages(run, reps);
}

/// Pacts read from JSON and written again.
fn loaded(run: &Run, reps: usize) {
  let types = ["application/json", "text/plain", "application/xml", "x", ""];
  let bodies = [json!({"a": 1}), json!("{\"a\": 1}"), json!("x"), json!(null), json!([1, "2"]), json!("<a/>")];
  let names = ["Content-Type", "content-type", "CONTENT-TYPE"];
  let specs = ["2.0.0", "3.0.0", "4.0"];
  let bases = [types.len(), types.len(), 3, bodies.len(), specs.len(), 2];
  run.explore("loaded pacts", "every body of a pact whose type is given by two headers with names that differ only in case", space_size(&bases), |i, rec| {
    let d = digits(i, &bases);
    let headers = json!({names[d[2]]: types[d[0]], names[(d[2] + 1) % 3]: types[d[1]], "X": "1", "x": "2"});
    let headers = if d[4] == 2 { json!({names[d[2]]: [types[d[0]]], names[(d[2] + 1) % 3]: [types[d[1]]], "X": ["1"], "x": ["2"]}) } else { headers };
    let body = if d[4] == 2 && d[5] == 1 { json!({"content": bodies[d[3]], "encoded": false}) } else { bodies[d[3]].clone() };
    let part = |k: &str, v: Value| -> Value { let mut o = json!({"headers": headers, "body": body}); o[k] = v; o };
    let doc = json!({"consumer": {"name": "c"}, "provider": {"name": "p"}, "interactions": [{"type": "Synchronous/HTTP", "description": "d", "request": part("method", json!("PUT")), "response": part("status", json!(200))}], "metadata": {"pactSpecification": {"version": specs[d[4]]}}});
    rec.state(&d);
    rec.case(doc.to_string());
    let mut out = BTreeSet::new();
    let r = rec.no_panic("panic", || with_hash_seed(5, || for _ in 0..reps.min(20) {
      out.insert(match pact_models::pact::load_pact_from_json("f", &doc) {
        Ok(p) => p.interactions().iter().map(|i| { let i = i.as_v4_http().unwrap(); format!("{:?} {:?} {:?} {:?} {:?}", i.request.body, i.request.content_type(), i.response.content_type(), pact_models::http_parts::HttpPart::lookup_header_value(&i.request, "x"), p.to_json(p.specification_version()).ok().map(|j| j.to_string())) }).collect::<String>(),
        Err(e) => format!("error {}", e)
      });
    }));
    if r.is_none() { return; }
    rec.trace(); rec.steps(reps.min(20) as u64);
    rec.check(out.len() == 1, "loaded pacts", || format!("{} different outcomes: {:?}", out.len(), out));
  });
}
/// Generators: the outcome for up to three of them in one part.
fn generated(run: &Run, reps: usize) {
  let gens = [RandomInt(7, 7), RandomInt(8, 8), ProviderStateGenerator("id".into(), None), ProviderStateGenerator("obj".into(), None)];
  let ctx = || -> HashMap<&'static str, Value> { [("providerState", json!({"id": 42, "obj": {"a": 1, "b": [1, 2]}}))].into() };
  let bodies = [("application/json", "{\"a\":1,\"b\":\"x\"}"), ("application/json", "{\"a\":{\"b\":1,\"c\":2}}"), ("application/json", "[1,[2,3],{\"a\":4}]"), ("application/json", "{\"a\":[{\"b\":1},{\"b\":2}]}"), ("application/x-www-form-urlencoded", "a=1&b=2&a=3")];
  let be = ["$", "$.a", "$.b", "$.*", "$[*]", "$[1]", "$.a[*]", "$.a[0]", "$.a.b", "$.a.*", "$.*.*", "$[*][*]", "$.a[*].b"];
  let he = ["X-A", "x-a", "X-a", "X-B"];
  let bases = [bodies.len(), be.len(), be.len(), if run.thorough { be.len() + 1 } else { 1 }];
  run.explore("generated bodies", "every body with two generators at every two paths (thorough: up to three)", space_size(&bases), |i, rec| {
    let d = digits(i, &bases);
    if d[1] > d[2] || (d[3] > 0 && d[3] <= d[2] + 1) { return; }
    rec.state(&d);
    for a in &gens { for b in &gens {
      let mut l: Vec<(GeneratorCategory, DocPath, Generator)> = vec![(GeneratorCategory::BODY, path(be[d[1]]), a.clone())];
      if d[1] != d[2] { l.push((GeneratorCategory::BODY, path(be[d[2]]), b.clone())); }
      if d[3] > 0 { l.push((GeneratorCategory::BODY, path(be[d[3] - 1]), RandomInt(9, 9))); }
      made(rec, "generated body", bodies[d[0]], &l, &ctx(), if run.thorough { reps / 2 } else { 10 });
    } }
  });
  let bases = [he.len(), he.len(), 3];
  run.explore("generated headers", "headers and parameters with two generators for names that may differ in case", space_size(&bases), |i, rec| {
    let d = digits(i, &bases);
    rec.state(&d);
    let cat = if d[2] != 1 { GeneratorCategory::HEADER } else { GeneratorCategory::QUERY };
    for a in &gens { for b in &gens { if d[0] < d[1] {
      made(rec, "generated headers", ("text/plain", if d[2] == 2 { "two" } else { "x" }), &[(cat.clone(), DocPath::root().join(he[d[0]]), a.clone()), (cat.clone(), DocPath::root().join(he[d[1]]), b.clone())], &ctx(), reps);
    } } }
  });
}
fn made(rec: &mut Rec, class: &str, b: (&str, &str), l: &[(GeneratorCategory, DocPath, Generator)], c: &HashMap<&'static str, Value>, reps: usize) {
  rec.case(format!("{:?}{}", b, l.iter().map(|(c, p, g)| format!(" {:?} {}: {:?}", c, p, g)).collect::<String>()));
  let perms = permutations(l.len());
  let mut out: BTreeSet<String> = BTreeSet::new();
  let r = rec.no_panic("panic", || with_hash_seed(5, || {
    for rep in 0..reps {
      let mut g = Generators::default();
      for k in &perms[rep % perms.len()] { let (c, p, x) = &l[*k]; g.add_generator_with_subcategory(c, p.clone(), x.clone()); }
      let m: HashMap<String, Vec<String>> = [("X-A".to_string(), vec!["1".to_string()]), ("X-B".to_string(), vec!["2".to_string()])].into();
      let mut m = m;
      if b.1 == "two" { m.insert("x-a".into(), vec!["3".into()]); }
      let q = m.iter().map(|(k, v)| (k.clone(), v.iter().cloned().map(Some).collect())).collect();
      let r = HttpRequest { method: "PUT".into(), path: "/".into(), headers: Some(m), query: Some(q), body: body(&Some(b.1.to_string()), b.0), generators: g, ..HttpRequest::default() };
      let got = now(generate_request(&r, &GeneratorTestMode::Provider, c));
      let sorted = |v: Vec<String>| -> BTreeSet<String> { v.into_iter().collect() };
      out.insert(format!("{:?} {:?} {:?}", got.body, sorted(got.headers.iter().flatten().map(|x| format!("{:?}", x)).collect()), sorted(got.query.iter().flatten().map(|x| format!("{:?}", x)).collect())));
    }
  }));
  if r.is_none() { return; }
  rec.trace(); rec.steps(reps as u64);
  rec.check(out.len() == 1, class, || format!("{} different outcomes: {:?}", out.len(), out));
}
/// Metadata of messages.
fn messages(run: &Run, reps: usize) {
  let vals: Vec<Vec<(String, Value)>> = { let mut out = vec![vec![]]; for names in [vec!["a"], vec!["a", "b"], vec!["a", "A", "b"], vec!["contentType", "a"], vec!["Content-Type", "contentType"]] { for k in 0..3usize.pow(names.len() as u32) { let mut d = k; out.push(names.iter().map(|n| { let v = d % 3; d /= 3; (n.to_string(), [json!("1"), json!(2), json!("text/plain")][v].clone()) }).collect()); } } out };
  let rules: Vec<Rules> = vec![vec![], vec![(Category::METADATA, path("a"), vec![Regex("1".into())], RuleLogic::And)], vec![(Category::METADATA, path("$.*"), vec![Integer], RuleLogic::And), (Category::METADATA, path("$.a"), vec![Type], RuleLogic::And)]];
  let bases = [vals.len(), vals.len(), rules.len()];
  run.explore("metadata", "every two maps of metadata under several rules", space_size(&bases), |i, rec| {
    let d = digits(i, &bases);
    rec.state(&d);
    let (e, a, rl) = (&vals[d[0]], &vals[d[1]], &rules[d[2]]);
    rec.case(format!("{:?} / {:?}{}", e, a, show_rules(rl)));
    let perms = permutations(e.len().max(a.len()));
    let mut out: BTreeSet<BTreeSet<String>> = BTreeSet::new();
    let r = rec.no_panic("panic", || with_hash_seed(3, || {
      for rep in 0..reps.min(12) {
        let perm = &perms[rep % perms.len()];
        let make = |l: &Vec<(String, Value)>, rl: &Rules| -> Box<dyn Interaction + Send + Sync + RefUnwindSafe> {
          let o: Vec<usize> = perm.iter().cloned().filter(|i| *i < l.len()).collect();
          Box::new(AsynchronousMessage { contents: MessageContents { contents: OptionalBody::Present("x".into(), None, None), metadata: ordered(l, &o).into_iter().collect(), matching_rules: matching_rules(rl), ..MessageContents::default() }, ..AsynchronousMessage::default() })
        };
        let p = pact();
        out.insert(canon(&now(match_message(&make(e, rl), &make(a, &vec![]), &p))));
      }
    }));
    if r.is_none() { return; }
    rec.trace(); rec.steps(reps.min(12) as u64);
    rec.check(out.len() == 1, "metadata", || format!("{} different outcomes: {:?}", out.len(), out));
  });
}
