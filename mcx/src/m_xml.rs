//! C37: XML bodies.
use crate::jmodel::{path, regex_ok, text_ok, weight, Ctx};
use crate::m_body::now;
use crate::m_text;
use mccore::{digits, space_size, Rec, Run};
use pact_matching::{match_body, BodyMatchResult, CoreMatchingContext, DiffConfig, HeaderMatchingContext, Mismatch};
use pact_models::bodies::OptionalBody;
use pact_models::matchingrules::{Category, MatchingRule, RuleLogic};
use pact_models::path_exp::DocPath;
use pact_models::v4::http_parts::HttpRequest;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use MatchingRule::*;

/// A name: the namespace it is in, if any, and the local part.
pub type Name = (Option<&'static str>, String);
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Elem { pub name: Name, pub attrs: Vec<(Name, String)>, pub kids: Vec<Node> }
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Node { E(Elem), T(String) }

pub fn full(n: &Name) -> String { match n.0 { Some(ns) => format!("{}:{}", ns, n.1), None => n.1.clone() } }
pub fn el(name: &str, attrs: &[(&str, &str)], kids: Vec<Node>) -> Elem { Elem { name: (None, name.into()), attrs: attrs.iter().map(|(k, v)| ((None, k.to_string()), v.to_string())).collect(), kids } }
pub fn t(s: &str) -> Node { Node::T(s.into()) }
fn in_ns(ns: &'static str, mut e: Elem) -> Elem { e.name.0 = Some(ns); e }

/// How a document is written down.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Style { pub space: u8, pub prefix: &'static str, pub quote: char, pub long: bool, pub refs: u8, pub around: u8, pub backwards: bool }
pub const PLAIN: Style = Style { space: 0, prefix: "", quote: '"', long: false, refs: 0, around: 0, backwards: false };

fn escape(s: &str, st: &Style, attr: bool) -> String {
  let each = |f: &dyn Fn(char) -> Option<String>| s.chars().map(|c| f(c).unwrap_or_else(|| match c { '&' => "&amp;".into(), '<' => "&lt;".into(), '>' => "&gt;".into(), '"' if attr => "&quot;".into(), '\'' if attr => "&apos;".into(), c => c.to_string() })).collect::<String>();
  let black = |c: char| !c.is_whitespace();
  match st.refs {
    0 => each(&|_| None),
    1 => each(&|c| if black(c) { Some(format!("&#{};", c as u32)) } else { None }),
    2 => each(&|c| if black(c) { Some(format!("&#x{:x};", c as u32)) } else { None }),
    _ if attr => each(&|_| None),
    // the text as CDATA, in two sections
    _ => { let mid = s.char_indices().nth(1).map(|(i, _)| i).unwrap_or(s.len()); let sec = |s: &str| if s.is_empty() { String::new() } else { format!("<![CDATA[{}]]>", s) }; format!("{}{}", sec(&s[..mid]), sec(&s[mid..])) }
  }
}
fn tag(n: &Name, st: &Style, attr: bool) -> String { match n.0 { Some(ns) if attr => format!("{}{}:{}", st.prefix, if ns == "urn:x" { "p" } else { "q" }, n.1), Some(ns) if !st.prefix.is_empty() => format!("{}{}:{}", st.prefix, if ns == "urn:x" { "p" } else { "q" }, n.1), _ => n.1.clone() } }
fn write(e: &Elem, st: &Style, depth: usize, out: &mut String) {
  let q = st.quote;
  out.push('<'); out.push_str(&tag(&e.name, st, false));
  let mut attrs: Vec<String> = e.attrs.iter().map(|(n, v)| format!("{}={q}{}{q}", tag(n, st, true), escape(v, st, true))).collect();
  if st.backwards { attrs.reverse(); }
  // a namespace is declared where it is used
  if let (Some(ns), true) = (e.name.0, st.prefix.is_empty()) { attrs.push(format!("xmlns={q}{}{q}", ns)); }
  if depth == 0 || !st.prefix.is_empty() || true { for (ns, p) in [("urn:x", "p"), ("urn:y", "q")] { if e.attrs.iter().any(|a| a.0 .0 == Some(ns)) || (e.name.0 == Some(ns) && !st.prefix.is_empty()) { attrs.push(format!("xmlns:{}{}={q}{}{q}", st.prefix, p, ns)); } } }
  if e.name.0.is_none() && st.prefix.is_empty() && depth > 0 { attrs.push(String::new()); attrs.pop(); }
  for a in attrs { out.push_str(if st.space > 1 { "\n  " } else { " " }); out.push_str(&a); }
  if e.kids.is_empty() && !st.long { out.push_str(if st.space > 0 { " />" } else { "/>" }); return; }
  out.push('>');
  let pad = |out: &mut String, d: usize| match st.space { 1 => { out.push('\n'); for _ in 0..d { out.push_str("  "); } } 2 => out.push_str(" \t\r\n"), _ => {} };
  for k in &e.kids {
    pad(out, depth + 1);
    match k { Node::E(k) => write(k, st, depth + 1, out), Node::T(t) => out.push_str(&escape(t, st, false)) }
    if st.around == 2 && matches!(k, Node::E(_)) { out.push_str("<!-- c -->"); }
    if st.around == 3 && matches!(k, Node::E(_)) { out.push_str("<?pi x?>"); }
  }
  if !e.kids.is_empty() || st.space > 1 { pad(out, depth); }
  out.push_str(&format!("</{}{}>", tag(&e.name, st, false), if st.space > 1 { " " } else { "" }));
}
pub fn xml(e: &Elem, st: &Style) -> String {
  let mut out = match st.around { 1 => "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n".to_string(), 2 => "<!-- first -->".to_string(), 3 => "<?xml version='1.0'?><?pi?>".to_string(), _ => String::new() };
  write(e, st, 0, &mut out);
  if st.around > 0 { out.push_str("\n<!-- last -->\n"); }
  out
}
pub fn plain(e: &Elem) -> String { xml(e, &PLAIN) }

fn blank(s: &str) -> bool { s.trim().is_empty() }
/// What an element contains, apart from insignificant white space.
fn size(e: &Elem) -> usize { e.kids.iter().filter(|k| match k { Node::E(_) => true, Node::T(t) => !blank(t) }).count() }
fn text(e: &Elem) -> String { e.kids.iter().map(|k| match k { Node::T(t) => t.trim(), _ => "" }).collect() }
fn groups(e: &Elem) -> BTreeMap<String, Vec<&Elem>> { let mut g: BTreeMap<String, Vec<&Elem>> = BTreeMap::new(); for k in &e.kids { if let Node::E(k) = k { g.entry(full(&k.name)).or_default().push(k); } } g }

/// Does an element (its name, and how much it contains) satisfy a rule?
fn element_ok(e: &Elem, a: &Elem, r: &MatchingRule, cascaded: bool) -> Option<bool> {
  let sized = |ok: bool| if e.name != a.name { None } else { Some(cascaded || ok) };
  let n = size(a);
  match r {
    Equality | Type => Some(e.name == a.name),
    Regex(x) => Some(regex_ok(x, &a.name.1)),
    MinType(m) => sized(n >= *m),
    MaxType(m) => sized(n <= *m),
    MinMaxType(m, x) => sized(n >= *m && n <= *x),
    NotEmpty => Some(n > 0),
    _ => Some(false),
  }
}

#[derive(Default, Debug)]
pub struct Out { pub paths: BTreeSet<String>, pub unspecified: bool }
fn type_rule(r: &MatchingRule) -> bool { matches!(r, Type | MinType(_) | MaxType(_) | MinMaxType(..)) }

fn decide(at: &[String], c: &Ctx, out: &mut Out, ok: &dyn Fn(&MatchingRule, bool) -> Option<bool>) -> bool {
  if c.tie(at) { out.unspecified = true; }
  let (rules, logic, cascaded) = match c.select(at) { Some(s) => (s.rules, s.logic, s.cascaded), None => (vec![Equality], RuleLogic::And, false) };
  let r: Vec<Option<bool>> = rules.iter().map(|r| ok(r, cascaded)).collect();
  if r.iter().any(|r| r.is_none()) { out.unspecified = true; }
  let r: Vec<bool> = r.into_iter().map(|r| r.unwrap_or(true)).collect();
  match logic { RuleLogic::And => r.iter().all(|b| *b), RuleLogic::Or => r.iter().any(|b| *b) }
}

pub fn compare(p: &DocPath, e: &Elem, a: &Elem, c: &Ctx, out: &mut Out) {
  let at = p.to_vec();
  if !decide(&at, c, out, &|r, casc| element_ok(e, a, r, casc)) { out.paths.insert(p.to_string()); return; }
  // attributes
  let (ea, aa): (BTreeMap<String, &String>, BTreeMap<String, &String>) = (e.attrs.iter().map(|(n, v)| (full(n), v)).collect(), a.attrs.iter().map(|(n, v)| (full(n), v)).collect());
  if (c.strict && ea.len() != aa.len()) || ea.len() > aa.len() { out.paths.insert(p.to_string()); }
  for (k, v) in &ea {
    let q = p.join(format!("@{}", k));
    match aa.get(k) { Some(w) => if !decide(&q.to_vec(), c, out, &|r, casc| Some(text_ok(v, w, r, casc))) { out.paths.insert(q.to_string()); }, None => { if !(ea.is_empty() && c.strict) { out.paths.insert(q.to_string()); } } }
  }
  // children
  let (eg, ag) = (groups(e), groups(a));
  for (k, es) in &eg {
    let q = p.join(k);
    let Some(actual) = ag.get(k) else { out.paths.insert(p.to_string()); continue };
    match repeats(&q.to_vec(), c, out) {
      true => for x in actual { compare(&q, es[0], x, c, out); },
      false => {
        for (x, y) in es.iter().zip(actual) { compare(&q, x, y, c, out); }
        if es.len() > actual.len() || (c.strict && es.len() < actual.len()) { out.paths.insert(q.to_string()); }
      }
    }
  }
  for k in ag.keys().filter(|k| !eg.contains_key(*k)) {
    if c.strict || repeats(&p.join(k).to_vec(), c, out) { out.paths.insert(p.to_string()); }
  }
  // text
  let q = p.join("#text");
  if !decide(&q.to_vec(), c, out, &|r, casc| Some(text_ok(&text(e), &text(a), r, casc))) { out.paths.insert(q.to_string()); }
}
/// Any number of elements is accepted where a type rule applies.
fn repeats(at: &[String], c: &Ctx, out: &mut Out) -> bool {
  let any = c.rules.iter().any(|(p, r, _)| weight(p, at) > 0 && r.iter().any(type_rule));
  let best = c.select(at).map(|s| s.rules.iter().any(type_rule)).unwrap_or(false);
  if any != best { out.unspecified = true; }
  any
}

pub fn request(b: &str) -> HttpRequest { HttpRequest { body: OptionalBody::Present(b.to_string().into(), None, None), headers: Some([("Content-Type".to_string(), vec!["application/xml".to_string()])].into()), ..HttpRequest::default() } }

fn diff(rec: &mut Rec, class: &str, e: &str, a: &str, c: &Ctx) -> Option<BTreeSet<String>> {
  let context = CoreMatchingContext::new(if c.strict { DiffConfig::NoUnexpectedKeys } else { DiffConfig::AllowUnexpectedKeys }, &c.category(Category::BODY), &HashMap::new());
  let headers = HeaderMatchingContext::new(&CoreMatchingContext::default());
  rec.trace(); rec.steps(1);
  let r = rec.no_panic(class, || now(match_body(&request(e), &request(a), &context, &headers)))?;
  Some(match r {
    BodyMatchResult::Ok => BTreeSet::new(),
    BodyMatchResult::BodyTypeMismatch { .. } => { rec.fail(class, "type mismatch between two XML bodies".to_string()); return None }
    BodyMatchResult::BodyMismatches(m) => {
      let mut p = BTreeSet::new();
      for m in m.values().flatten() { match m { Mismatch::BodyMismatch { path, .. } => { p.insert(path.clone()); } o => rec.fail("kind", format!("a difference in the body is reported as {}", o.mismatch_type())) } }
      rec.check(!p.is_empty(), "kind", || "rejected without a mismatch".into());
      p
    }
  })
}
fn show(c: &Ctx) -> String { format!("{}{}", if c.strict { " strict" } else { "" }, c.rules.iter().map(|(p, r, l)| format!(" {}: {:?}{}", p, r, if r.len() > 1 { format!(" {:?}", l) } else { String::new() })).collect::<String>()) }

fn one(rec: &mut Rec, class: &str, e: &Elem, a: &Elem, se: &Style, sa: &Style, c: &Ctx) {
  let (x, y) = (xml(e, se), xml(a, sa));
  rec.case(format!("{} / {}{}", x, y, show(c)));
  let mut want = Out::default();
  compare(&DocPath::root().join(full(&e.name)), e, a, c, &mut want);
  if want.unspecified { rec.outcome("unspecified"); let _ = diff(rec, class, &x, &y, c); return; }
  let Some(got) = diff(rec, class, &x, &y, c) else { return };
  rec.outcome(if got.is_empty() { "match" } else { "mismatch" });
  rec.check(got == want.paths, class, || format!("differs at {:?}, reported at {:?}", want.paths, got));
}

fn kid(i: usize) -> Node {
  Node::E(match i { 0 => el("b", &[], vec![]), 1 => el("b", &[("x", "1")], vec![]), 2 => el("b", &[], vec![t("1")]), 3 => el("b", &[], vec![t("t")]), 4 => el("c", &[], vec![]), _ => el("b", &[], vec![Node::E(el("c", &[], vec![t("1")]))]) })
}
/// Documents of one element with every combination of attributes, text and up to `n` children.
pub fn documents(n: usize, kinds: usize, roots: &[&str]) -> Vec<Elem> {
  let attrs: [&[(&str, &str)]; 5] = [&[], &[("x", "1")], &[("x", "2")], &[("y", "1")], &[("x", "1"), ("y", "t")]];
  let mut out = vec![];
  for r in roots { for a in attrs { for tx in ["", "1", "t"] { for i in 0..mccore::seq_count(kinds, n) {
    let mut kids: Vec<Node> = mccore::seq_at(i, kinds).into_iter().map(kid).collect();
    if !tx.is_empty() { kids.insert(kids.len().min(1), t(tx)); }
    out.push(el(r, a, kids));
  } } } }
  out
}
fn with(name: &str, kids: Vec<Node>) -> Elem { el(name, &[], kids) }
pub fn few() -> Vec<Elem> {
  let mut v: Vec<Elem> = vec![with("a", vec![]), with("b", vec![]), with("a", vec![t("1")]), with("a", vec![t("t")]), with("a", vec![t(" ")]), el("a", &[("x", "1")], vec![]), el("a", &[("x", "t")], vec![]), el("a", &[("y", "1")], vec![]), el("a", &[("x", "1"), ("y", "t")], vec![t("1")])];
  for k in [vec![0], vec![1], vec![2], vec![3], vec![4], vec![5], vec![0, 0], vec![2, 2], vec![2, 3], vec![3, 2], vec![0, 4], vec![4, 0], vec![4, 4], vec![1, 5], vec![2, 2, 2], vec![5, 5], vec![2, 4, 2]] { v.push(with("a", k.into_iter().map(kid).collect())); }
  v.push(with("a", vec![kid(0), t("1"), kid(4), t("t")]));
  v.push(with("a", vec![Node::E(with("b", vec![kid(4), kid(4)]))]));
  v.push(with("a", vec![Node::E(with("b", vec![kid(2), t("t")])), kid(2)]));
  v
}

pub fn c37(run: &Run) {
  let free = |strict: bool| Ctx { rules: vec![], strict };
  let docs = if run.thorough { documents(2, 6, &["a", "b"]) } else { documents(2, 5, &["a"]) };
  run.pairs("none", "every pair of documents with up to two children and every combination of attributes and text, under both policies", &docs, &docs, |e, a, rec| {
    rec.state(&(e, a));
    for s in [false, true] { one(rec, "no-rules", e, a, &PLAIN, &PLAIN, &free(s)); }
  });
  // the same document in every way of writing it
  let mut styles = vec![];
  for space in 0..3 { for prefix in ["", "n", "other-"] { for quote in ['"', '\''] { for long in [false, true] { for refs in 0..4 { for around in 0..4 { styles.push(Style { space, prefix, quote, long, refs, around, backwards: long }); } } } } } }
  let x = "urn:x";
  let mut odd = few();
  for s in ["a b", "a  b", "a & b", "a &b", "a&b", "x < y", "x<y", "é", "\u{1F600} x", "\"q\"", "it's", "]] >", "1 2 3"] { odd.push(with("a", vec![t(s)])); odd.push(el("a", &[("x", s)], vec![kid(0), t(s)])); }
  odd.push(in_ns(x, with("a", vec![])));
  odd.push(in_ns("urn:y", with("a", vec![])));
  odd.push(in_ns(x, with("a", vec![Node::E(in_ns(x, with("b", vec![t("1")]))), Node::E(in_ns("urn:y", with("b", vec![t("1")])))])));
  odd.push(with("a", vec![Node::E(in_ns(x, with("b", vec![t("1")])))]));
  odd.push(with("a", vec![Node::E(in_ns("urn:y", with("b", vec![t("1")])))]));
  for n in ["é", "a-b", "a.b", "_a", "A"] { odd.push(with(n, vec![Node::E(el(n, &[(n, "1")], vec![]))])); }
  let written = |e: &Elem, st: &Style| !(st.prefix.is_empty() && uses(e)) ;
  fn uses(e: &Elem) -> bool { (e.name.0.is_some() && e.kids.iter().any(|k| matches!(k, Node::E(k) if k.name.0.is_none()))) || e.kids.iter().any(|k| matches!(k, Node::E(k) if uses(k))) }
  let base = [odd.len(), styles.len()];
  run.explore("styles", "every document in every way of writing it (white space, prefixes, quotes, references, CDATA, comments) against the plain one, and the other way round", space_size(&base), |i, rec| {
    let d = digits(i, &base);
    let (e, st) = (&odd[d[0]], &styles[d[1]]);
    if !written(e, st) { rec.outcome("cannot be written"); return; }
    rec.state(&(e, xml(e, st)));
    for s in [false, true] { one(rec, "styles", e, e, &PLAIN, st, &free(s)); one(rec, "styles", e, e, st, &PLAIN, &free(s)); one(rec, "styles", e, e, st, st, &free(s)); }
  });
  let few_styles: Vec<Style> = if run.thorough { styles.iter().copied().filter(|s| s.quote == '"').collect() } else { styles.iter().copied().filter(|s| s.quote == '"' && !s.long && s.around == 0 && s.prefix == "n").collect() };
  let base = [odd.len(), odd.len(), few_styles.len()];
  run.explore("odd", "every pair of documents with unusual names, name spaces and texts, the second in several ways of writing it", space_size(&base), |i, rec| {
    let d = digits(i, &base);
    rec.state(&("odd", &d));
    for s in [false, true] { one(rec, "odd", &odd[d[0]], &odd[d[1]], &few_styles[0], &few_styles[d[2]], &free(s)); }
  });
  // rules
  let few = few();
  let rules = vec![Equality, Type, MinType(1), MinType(2), MaxType(1), MaxType(0), MinMaxType(1, 2), Regex("a".into()), Regex("[a-c]".into()), Regex("\\d+".into()), Regex("[".into()), Include("t".into()), Number, Integer, Decimal, Boolean, Null, NotEmpty, Semver, Date("".into()), Values, ArrayContains(vec![]), EachKey(crate::m_json::def(vec![Type])), EachValue(crate::m_json::def(vec![Type]))];
  let exprs: Vec<DocPath> = ["$", "$.a", "$.b", "$.*", "$.a.b", "$.a.c", "$.a.*", "$.a['@x']", "$.a['@*']", "$.a['#text']", "$.a.b['@x']", "$.a.b['#text']", "$.a.b.c", "$.a.*['#text']", "$.a.b.*", "$.a[0]", "$.a[*]", "$.a.b[0]", "$.a.b.c['#text']"].iter().map(|s| path(s)).collect();
  let styles2 = [PLAIN, Style { space: 1, ..PLAIN }];
  let base = [few.len(), few.len(), exprs.len()];
  run.explore("one", "every pair of documents under every rule at every path expression, under both policies, with and without white space", space_size(&base), |i, rec| {
    let d = digits(i, &base);
    rec.state(&d);
    for r in &rules { for strict in [false, true] { for s in &styles2 { if run.thorough || d[1] % 2 == 0 || s.space == 0 {
      one(rec, "one-rule", &few[d[0]], &few[d[1]], &PLAIN, s, &Ctx { rules: vec![(exprs[d[2]].clone(), vec![r.clone()], RuleLogic::And)], strict });
    } } } }
  });
  let fr = vec![Equality, Type, MinType(2), MaxType(1), Regex("[a1]".into()), Integer, NotEmpty];
  let fe: Vec<DocPath> = if run.thorough { exprs.clone() } else { ["$", "$.a", "$.*", "$.a.b", "$.a.*", "$.a['@x']", "$.a.b['#text']"].iter().map(|s| path(s)).collect() };
  let ff: Vec<Elem> = if run.thorough { few.clone() } else { few.iter().enumerate().filter(|(i, _)| [0, 1, 2, 3, 5, 6, 9, 10, 11, 15, 17, 18, 20, 26].contains(i)).map(|x| x.1.clone()).collect() };
  let base = [ff.len(), ff.len(), fe.len(), fe.len()];
  run.explore("two", "every pair of documents under every two rules: at one path (AND and OR) and at two paths", space_size(&base), |i, rec| {
    let d = digits(i, &base);
    if d[2] > d[3] { return; }
    rec.state(&("two", &d));
    let (p, q) = (&fe[d[2]], &fe[d[3]]);
    for r in &fr { for s in &fr { for strict in [false, true] {
      let sets: Vec<Ctx> = if d[2] == d[3] { [RuleLogic::And, RuleLogic::Or].into_iter().map(|l| Ctx { rules: vec![(p.clone(), vec![r.clone(), s.clone()], l)], strict }).collect() } else { vec![Ctx { rules: vec![(p.clone(), vec![r.clone()], RuleLogic::And), (q.clone(), vec![s.clone()], RuleLogic::And)], strict }] };
      for c in &sets { one(rec, "two-rules", &ff[d[0]], &ff[d[1]], &PLAIN, &PLAIN, c); }
    } } }
  });
  // text that is not XML
  let texts = ["", " ", "a", "<", "<a", "<a>", "</a>", "<a></b>", "<a/>", "<a/><a/>", "<a/>x", "x<a/>", "<!-- c -->", "<?xml version=\"1.0\"?>", "<?pi?>", "<!DOCTYPE a>", "<!DOCTYPE a><a/>", "<?xml version=\"1.0\"?><!DOCTYPE a><a/>", "<a x=\"1\" x=\"2\"/>", "<a x=1/>", "<p:a/>", "<a>&nope;</a>", "<a>&#0;</a>", "<a>&#xd800;</a>", "<a>&amp</a>", "\u{feff}<a/>", "<a>\u{0}</a>", "<1/>", "<a>]]></a>", "<a><![CDATA[</a>", "<a:b:c/>", "<xml/>", "<a xmlns=\"\"/>", "<a xmlns:p=\"\"/>", "<a\u{a0}/>", "{}", "<a p:x=\"1\"/>", "<*/>", "<a.b/>"];
  run.pairs("text", "every pair of texts, XML or not, with and without a rule at the root", &texts, &texts, |e, a, rec| {
    rec.state(&(e, a));
    for rules in [vec![], vec![(path("$"), vec![Type], RuleLogic::And)], vec![(path("$.a"), vec![Type], RuleLogic::And)]] {
      for strict in [false, true] {
        let c = Ctx { rules: rules.clone(), strict };
        rec.case(format!("{:?} / {:?}{}", e, a, show(&c)));
        let Some(got) = diff(rec, "text", e, a, &c) else { continue };
        rec.outcome(if got.is_empty() { "match" } else { "mismatch" });
        let good = ["<a/>", "<?xml version=\"1.0\"?><!DOCTYPE a><a/>"];
        let bad = ["", " ", "a", "<", "<a", "<a>", "</a>", "<a></b>", "<a/>x", "x<a/>", "<a x=1/>", "<p:a/>", "<a>&nope;</a>", "{}", "<1/>"];
        if e.is_empty() || a.is_empty() { continue; }
        if good.contains(e) && good.contains(a) { rec.check(got.is_empty(), "text", || format!("the same document does not match: {:?}", got)); }
        if bad.contains(e) || bad.contains(a) { rec.check(!got.is_empty(), "text", || "accepted, but is not XML".into()); }
      }
    }
  });
  run.assume("an unexpected element name under a length rule, and two expressions of equal weight, are not specified");
  let _ = m_text::kinds;
}
