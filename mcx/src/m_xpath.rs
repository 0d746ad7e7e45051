//! C26: path expressions over XML documents.
use crate::m_xml::{plain, xml, Elem, Node, Style, PLAIN};
use kiss_xml::dom::Element;
use mccore::{seq_at, seq_count, Rec, Run};
use pact_models::path_exp::{DocPath, PathToken};
use pact_models::xml_utils::{resolve_matching_node, resolve_path, XmlResult};
use std::collections::BTreeSet;

/// All ordered trees of `n` elements, as lists of subtrees, with a label from 0..k for every element.
fn forests(n: usize, k: usize, memo: &mut std::collections::HashMap<usize, Vec<Vec<Tree>>>) -> Vec<Vec<Tree>> {
  if n == 0 { return vec![vec![]]; }
  if let Some(f) = memo.get(&n) { return f.clone(); }
  let mut out = vec![];
  for first in 1..=n {
    let kids = forests(first - 1, k, memo);
    let rest = forests(n - first, k, memo);
    for ks in &kids { for l in 0..k { for r in &rest { let mut v = vec![Tree(l, ks.clone())]; v.extend(r.iter().cloned()); out.push(v); } } }
  }
  memo.insert(n, out.clone());
  out
}
#[derive(Clone, Debug)]
struct Tree(usize, Vec<Tree>);
/// Labels: bit 0 the name, bit 1 an attribute x, bit 2 text; text stands before and after the children, or in CDATA.
fn elem(t: &Tree, names: &[&str; 2], count: &mut usize) -> Elem {
  *count += 1;
  let id = *count;
  let mut attrs = vec![];
  if t.0 & 2 != 0 { attrs.push(((None, "x".to_string()), format!("v{}", id))); }
  let mut kids: Vec<Node> = t.1.iter().map(|k| Node::E(elem(k, names, count))).collect();
  if t.0 & 4 != 0 { kids.insert(0, Node::T(format!("s{}", id))); if t.1.len() > 0 { kids.push(Node::T(format!("e{}", id))); } }
  Elem { name: (None, names[t.0 & 1].to_string()), attrs, kids }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Thing { Element(Elem), Attribute(String, String), Text(String) }
fn text(e: &Elem) -> String { e.kids.iter().map(|k| match k { Node::T(t) => t.as_str(), _ => "" }).collect() }
fn children(e: &Elem) -> Vec<(usize, &Elem)> {
  let kids: Vec<&Elem> = e.kids.iter().filter_map(|k| match k { Node::E(k) => Some(k), _ => None }).collect();
  kids.iter().enumerate().map(|(i, k)| (kids[..i].iter().filter(|o| o.name == k.name).count(), *k)).collect()
}
/// What the expression denotes, or nothing when that is not specified (a position that does not follow a name or wildcard).
pub fn denoted(root: &Elem, tokens: &[PathToken]) -> Option<Vec<(String, Thing)>> {
  if tokens.len() == 1 { return Some(vec![]); }
  // every location so far: its text, what is there, and the position among those of the same name
  let mut here: Vec<(String, Thing, usize)> = vec![];
  for (n, tok) in tokens.iter().enumerate().skip(1) {
    let next = |here: &Vec<(String, Thing, usize)>, ok: &dyn Fn(&Elem) -> bool| -> Vec<(String, Thing, usize)> {
      if n == 1 { return if ok(root) { vec![(format!("/{}[0]", root.name.1), Thing::Element(root.clone()), 0)] } else { vec![] }; }
      here.iter().flat_map(|(p, t, _)| match t { Thing::Element(e) => children(e).into_iter().filter(|(_, k)| ok(k)).map(|(i, k)| (format!("{}/{}[{}]", p, k.name.1, i), Thing::Element(k.clone()), i)).collect(), _ => vec![] }).collect()
    };
    here = match tok {
      PathToken::Root => return None,
      PathToken::Field(f) if f.starts_with('@') && n > 1 => here.iter().filter_map(|(p, t, _)| match t { Thing::Element(e) => e.attrs.iter().find(|a| a.0 .1 == f[1..]).map(|a| (format!("{}/{}", p, f), Thing::Attribute(f[1..].to_string(), a.1.clone()), 0)), _ => None }).collect(),
      PathToken::Field(f) if f == "#text" && n > 1 => here.iter().filter_map(|(p, t, _)| match t { Thing::Element(e) if !text(e).is_empty() => Some((format!("{}/#text", p), Thing::Text(text(e)), 0)), _ => None }).collect(),
      PathToken::Field(f) => next(&here, &|e| e.name.1 == *f),
      PathToken::Star | PathToken::StarIndex => next(&here, &|_| true),
      PathToken::Index(i) => {
        match &tokens[n - 1] { PathToken::Field(f) if n > 2 && (f.starts_with('@') || f == "#text") => return None, PathToken::Field(_) | PathToken::Star | PathToken::StarIndex => {}, _ => return None }
        here.into_iter().filter(|h| h.2 == *i).collect()
      }
    };
  }
  Some(here.into_iter().map(|(p, t, _)| (p, t)).collect())
}
/// Everything in a document, with its location.
fn everything(p: &str, i: usize, e: &Elem, out: &mut Vec<(String, Thing)>) {
  let p = format!("{}/{}[{}]", p, e.name.1, i);
  out.push((p.clone(), Thing::Element(e.clone())));
  for a in &e.attrs { out.push((format!("{}/@{}", p, a.0 .1), Thing::Attribute(a.0 .1.clone(), a.1.clone()))); }
  if !text(e).is_empty() { out.push((format!("{}/#text", p), Thing::Text(text(e)))); }
  for (i, k) in children(e) { everything(&p, i, k, out); }
}

fn same(r: &Option<XmlResult>, t: Option<&Thing>) -> bool {
  match (r, t) {
    (None, None) => true,
    (Some(XmlResult::ElementNode(x)), Some(Thing::Element(e))) => equal(x, e),
    (Some(XmlResult::Attribute(k, v)), Some(Thing::Attribute(n, w))) => k == n && v == w,
    (Some(XmlResult::TextNode(x)), Some(Thing::Text(t))) => x == t,
    _ => false,
  }
}
fn equal(x: &Element, e: &Elem) -> bool {
  x.name() == e.name.1 && x.attributes().len() == e.attrs.len() && e.attrs.iter().all(|a| x.attributes().get(&a.0 .1) == Some(&a.1)) && {
    let (k, l): (Vec<&Element>, Vec<&Elem>) = (x.child_elements().collect(), e.kids.iter().filter_map(|k| match k { Node::E(k) => Some(k), _ => None }).collect());
    k.len() == l.len() && k.iter().zip(&l).all(|(x, e)| equal(x, e))
  }
}
fn show(r: &Option<XmlResult>) -> String { match r { None => "nothing".into(), Some(XmlResult::ElementNode(e)) => format!("element {}", e), Some(r) => format!("{:?}", r) } }

fn expressions(names: &[&str; 2], n: usize) -> Vec<DocPath> {
  use PathToken::*;
  let toks = [Field(names[0].into()), Field(names[1].into()), Field("@x".into()), Field("#text".into()), Star, StarIndex, Index(0), Index(1)];
  (0..seq_count(toks.len(), n)).map(|i| { let mut p = DocPath::root(); for t in seq_at(i, toks.len()) { match &toks[t] { Field(f) => { p.push_field(f); } Star => { p.push_star(); } StarIndex => { p.push_star_index(); } Index(i) => { p.push_index(*i); } Root => {} } } p }).collect()
}

fn paths(rec: &mut Rec, e: &Elem, exprs: &[DocPath], st: &Style) {
  let src = xml(e, st);
  let doc = kiss_xml::parse_str(src.as_str()).unwrap();
  let root = doc.root_element();
  for p in exprs {
    let Some(want) = denoted(e, p.tokens()) else { continue };
    rec.case(format!("{} {}", src, p)); rec.trace(); rec.steps(1);
    let Some(got) = rec.no_panic("resolve", || resolve_path(root, p)) else { continue };
    rec.outcome(match got.len() { 0 => "nothing", 1 => "one", _ => "several" });
    let (a, b): (BTreeSet<&String>, BTreeSet<&String>) = (want.iter().map(|w| &w.0).collect(), got.iter().collect());
    if !rec.check(a == b, "denotes", || format!("denotes {:?}, resolves to {:?}", a, b)) { continue; }
    rec.check(b.len() == got.len(), "once", || format!("a location is given twice: {:?}", got));
    for (loc, thing) in &want {
      let r = resolve_matching_node(root, loc);
      rec.check(same(&r, Some(thing)), "node", || format!("{} is {:?}, but is resolved to {}", loc, thing, show(&r)));
    }
  }
}

pub fn c26(run: &Run) {
  let names: [[&str; 2]; 7] = [["a", "b"], ["a-b", "b"], ["a.b", "b"], ["ab", "b"], ["a", "aa"], ["A", "a"], ["_1", "x"]];
  let mut trees: Vec<Tree> = vec![];
  let mut memo = Default::default();
  // shapes and names
  for n in 1..=(if run.thorough { 6 } else { 5 }) { for f in forests(n, 2, &mut memo) { if f.len() == 1 { trees.push(f[0].clone()); } } }
  // every combination of names, attributes and text
  memo = Default::default();
  for n in 1..=(if run.thorough { 4 } else { 3 }) { for f in forests(n, 8, &mut memo) { if f.len() == 1 { trees.push(f[0].clone()); } } }
  let exprs: Vec<Vec<DocPath>> = names.iter().map(|n| expressions(n, 4)).collect();
  let short: Vec<Vec<DocPath>> = names.iter().map(|n| expressions(n, 3)).collect();
  run.each("paths", "every document of a few elements (shape, names, attributes, text) with every path expression of up to four parts", &trees, |t, rec| {
    rec.state(&format!("{:?}", t));
    paths(rec, &elem(t, &names[0], &mut 0), if run.thorough && trees.len() > 100_000 { &short[0] } else { &exprs[0] }, &PLAIN);
  });
  let some: Vec<Tree> = trees.iter().filter(|t| size(t) <= 3).cloned().collect();
  run.pairs("names", "the same with unusual names, and expressions of up to three parts", &some, &(1..names.len()).collect::<Vec<_>>(), |t, n, rec| {
    rec.state(&(n, format!("{:?}", t)));
    paths(rec, &elem(t, &names[*n], &mut 0), &short[*n], &PLAIN);
  });
  run.each("written", "the same with white space and text in CDATA sections", &some, |t, rec| {
    rec.state(&("written", format!("{:?}", t)));
    for (refs, space, around) in [(3, 0, 0), (0, 1, 0), (0, 2, 0)] { if space == 0 || !format!("{:?}", t).contains(['4', '5', '6', '7']) { paths(rec, &elem(t, &names[0], &mut 0), &short[0], &Style { refs, space, around, ..PLAIN }); } }
  });
  run.pairs("locations", "every location in a document and close to one", &some, &(0..names.len()).collect::<Vec<_>>(), |t, n, rec| {
    let e = elem(t, &names[*n], &mut 0);
    let src = plain(&e);
    let doc = kiss_xml::parse_str(src.as_str()).unwrap();
    let mut all = vec![];
    everything("", 0, &e, &mut all);
    rec.state(&("loc", n, format!("{:?}", t)));
    let try_one = |loc: &str, rec: &mut Rec| {
      rec.case(format!("{} {}", src, loc)); rec.trace(); rec.steps(1);
      let want = all.iter().find(|a| a.0 == loc).map(|a| &a.1);
      let Some(r) = rec.no_panic("locate", || resolve_matching_node(doc.root_element(), loc)) else { return };
      rec.outcome(if r.is_some() { "found" } else { "nothing there" });
      rec.check(same(&r, want), "locate", || format!("{} is {:?}, but is resolved to {}", loc, want, show(&r)));
    };
    for (loc, thing) in &all {
      try_one(loc, rec);
      if let Thing::Element(_) = thing {
        for tail in ["/@x", "/@y", "/#text", "/a[0]", "/b[0]", "/b[1]", "/b", "/c[0]", "x", "/a[0]x", "/xa[0]", "/-b[0]", "/.b[0]", "/b[0]/b[0]", "/b[4294967296]"] { try_one(&format!("{}{}", loc, tail), rec); }
        for (from, to) in [("[0]", "[1]"), ("[0]", "[00x]"), ("/b[0]", "/x-b[0]"), ("/a[0]", "/a"), ("/a[0]", "/x.a[0]")] { if loc.contains(from) { try_one(&loc.replacen(from, to, 1), rec); } }
      }
    }
  });
  run.assume("what a position means that does not follow a name or wildcard is not specified");
}
fn size(t: &Tree) -> usize { 1 + t.1.iter().map(size).sum::<usize>() }
