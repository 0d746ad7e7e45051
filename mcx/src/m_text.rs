//! C33: header and query values.
use crate::jmodel::{path, text_ok, Ctx, Selected};
use crate::m_json::{def, variant};
use mccore::{digits, seq_at, seq_count, space_size, Rec, Run};
use pact_matching::headers::match_headers;
use pact_matching::{match_query, CoreMatchingContext, DiffConfig, HeaderMatchingContext, Mismatch};
use pact_models::matchingrules::{Category, MatchingRule, RuleLogic};
use pact_models::path_exp::DocPath;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use MatchingRule::*;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Part { Header, Query }

#[derive(Clone)]
struct Tc { ctx: Ctx, body: bool }
impl Tc {
  /// Rules of headers and queries are not marked as inherited; those of an each-value rule are selected like body rules.
  fn select(&self, at: &[String]) -> Option<Selected> { self.ctx.select(at).map(|s| Selected { cascaded: s.cascaded && self.body, ..s }) }
}

pub fn param_header(e: &str, a: &str) -> bool {
  let parse = |s: &str| -> (String, BTreeMap<String, String>) {
    let mut parts = s.split(';').map(|p| p.trim()).filter(|p| !p.is_empty());
    let main = parts.next().unwrap_or("").to_string();
    (main, parts.filter_map(|p| p.split_once('=')).map(|(k, v)| (k.trim().to_string(), v.trim().to_ascii_lowercase())).collect())
  };
  let ((em, ep), (am, ap)) = (parse(e), parse(a));
  em == am && ep.iter().all(|(k, v)| ap.get(k) == Some(v))
}

fn value_matches(part: Part, key: &str, base: &DocPath, index: usize, e: &str, a: &str, c: &Tc) -> bool {
  let (e, a, s) = match part {
    Part::Header => {
      let p = DocPath::root().join(key.to_lowercase());
      (e.trim(), a.trim(), c.select(&p.to_vec()).or_else(|| c.select(&p.join(index.to_string()).to_vec())))
    }
    Part::Query => (e, a, c.select(&base.join(index.to_string()).to_vec()))
  };
  match s {
    Some(s) => match s.logic { RuleLogic::And => s.rules.iter().all(|r| text_ok(e, a, r, s.cascaded)), RuleLogic::Or => s.rules.iter().any(|r| text_ok(e, a, r, s.cascaded)) },
    None => if part == Part::Header && ["accept", "content-type"].contains(&key.to_lowercase().as_str()) { param_header(e, a) } else { e == a }
  }
}

fn lower(part: Part, p: &DocPath) -> DocPath { if part == Part::Header { p.to_lower_case() } else { p.clone() } }

/// Do the values of one header or parameter fulfil the expected ones?
pub fn values_match(part: Part, key: &str, e: &[String], a: &[String], ctx: &Ctx) -> bool { values_match_in(part, key, e, a, ctx, false) }
pub fn values_match_in(part: Part, key: &str, e: &[String], a: &[String], ctx: &Ctx, body: bool) -> bool {
  let c = Tc { ctx: Ctx { rules: ctx.rules.iter().map(|(p, r, l)| (lower(part, p), r.clone(), *l)).collect(), strict: ctx.strict }, body };
  let p = DocPath::root().join(if part == Part::Header { key.to_lowercase() } else { key.to_string() });
  if part == Part::Header && e.is_empty() && !a.is_empty() { return false; }
  match c.select(&p.to_vec()) {
    Some(s) => {
      let ok = |r: &MatchingRule| {
        let items = |c: &Tc| e.is_empty() || (0..a.len()).all(|i| value_matches(part, key, &p.join(i.to_string()), 0, e.get(i).unwrap_or(&e[0]), &a[i], c));
        match r {
          ArrayContains(variants) => {
            let all: Vec<(usize, Tc)> = if variants.is_empty() {
              (0..e.len()).map(|i| (i, Tc { ctx: Ctx { rules: vec![(DocPath::empty(), vec![Equality], RuleLogic::And)], strict: ctx.strict }, body: true })).collect()
            } else {
              variants.iter().map(|(i, cat, _)| (*i, Tc { ctx: Ctx { rules: cat.rules.iter().map(|(p, l)| (lower(part, p), l.rules.clone(), l.rule_logic)).collect(), strict: ctx.strict }, body: true })).collect()
            };
            all.iter().all(|(i, c)| e.get(*i).map(|x| a.iter().any(|y| value_matches(part, key, &DocPath::root(), 0, x, y, c))).unwrap_or(false))
          }
          EachValue(d) => s.cascaded || items(&Tc { ctx: Ctx { rules: vec![(p.join("*"), d.rules.iter().filter_map(|r| r.as_ref().left().cloned()).collect(), RuleLogic::And)], strict: ctx.strict }, body: true }),
          r => {
            let list = match r {
              MinType(n) => s.cascaded || a.len() >= *n,
              MaxType(n) => s.cascaded || a.len() <= *n,
              MinMaxType(n, m) => s.cascaded || (a.len() >= *n && a.len() <= *m),
              Equality => e == a,
              NotEmpty => !a.is_empty(),
              Null | StatusCode(_) => false,
              _ => true,
            };
            list && items(&c)
          }
        }
      };
      match s.logic { RuleLogic::And => s.rules.iter().all(ok), RuleLogic::Or => s.rules.iter().any(ok) }
    }
    None => {
      let items = (0..e.len().max(a.len())).all(|i| i < a.len() && value_matches(part, key, &p, i, e.get(i).map(|s| s.as_str()).unwrap_or(""), &a[i], &c));
      items && (part == Part::Header || e.len() == a.len())
    }
  }
}

pub type Lists = Vec<(String, Vec<String>)>;

/// The names for which a difference is to be reported.
pub fn names(part: Part, e: Option<&Lists>, a: Option<&Lists>, ctx: &Ctx) -> BTreeSet<String> { names_in(part, e, a, ctx, false) }
/// The same for the fields of a form body, where rules are inherited.
pub fn names_in(part: Part, e: Option<&Lists>, a: Option<&Lists>, ctx: &Ctx, body: bool) -> BTreeSet<String> {
  let (e, a) = (e.cloned().unwrap_or_default(), a.cloned().unwrap_or_default());
  let same = |x: &str, y: &str| if part == Part::Header { x.to_lowercase() == y.to_lowercase() } else { x == y };
  let mut out: BTreeSet<String> = e.iter().filter(|(k, v)| match a.iter().find(|(n, _)| same(n, k)) { Some((_, w)) => !values_match_in(part, k, v, w, ctx, body), None => true }).map(|(k, _)| k.clone()).collect();
  if part == Part::Query { out.extend(a.iter().filter(|(k, _)| !e.iter().any(|(n, _)| n == k)).map(|(k, _)| k.clone())); }
  out
}

fn real(part: Part, e: Option<&Lists>, a: Option<&Lists>, ctx: &Ctx) -> HashMap<String, Vec<Mismatch>> {
  let config = if ctx.strict { DiffConfig::NoUnexpectedKeys } else { DiffConfig::AllowUnexpectedKeys };
  match part {
    Part::Header => {
      let m = |l: Option<&Lists>| l.map(|l| l.iter().cloned().collect::<HashMap<String, Vec<String>>>());
      match_headers(m(e), m(a), &HeaderMatchingContext::new(&CoreMatchingContext::new(config, &ctx.category(Category::HEADER), &HashMap::new())))
    }
    Part::Query => {
      let m = |l: Option<&Lists>| l.map(|l| l.iter().map(|(k, v)| (k.clone(), v.iter().enumerate().map(|(i, v)| if v.is_empty() && i % 2 == 1 { None } else { Some(v.clone()) }).collect())).collect::<HashMap<String, Vec<Option<String>>>>());
      match_query(m(e), m(a), &CoreMatchingContext::new(config, &ctx.category(Category::QUERY), &HashMap::new()))
    }
  }
}

fn one(rec: &mut Rec, class: &str, part: Part, e: Option<&Lists>, a: Option<&Lists>, ctx: &Ctx) {
  let lower: Vec<String> = ctx.rules.iter().map(|(p, _, _)| p.to_string()).collect();
  rec.case(format!("{:?} {:?} / {:?} {}", part, e, a, ctx.rules.iter().zip(&lower).map(|((_, r, l), p)| format!("{}: {:?}{}", p, r, if r.len() > 1 { format!(" {:?}", l) } else { String::new() })).collect::<Vec<_>>().join(", ")));
  let want = names(part, e, a, ctx);
  rec.trace(); rec.steps(1);
  let Some(got) = rec.no_panic(class, || real(part, e, a, ctx)) else { return };
  let bad: BTreeSet<String> = got.iter().filter(|(_, v)| !v.is_empty()).map(|(k, _)| k.clone()).collect();
  rec.outcome(if bad.is_empty() { "match" } else { "mismatch" });
  rec.check(bad == want, class, || format!("differs for {:?}, reported for {:?}: {:?}", want, bad, got.values().flatten().map(|m| m.description()).collect::<Vec<_>>()));
  for (k, l) in &got { for m in l { match (part, m) {
    (Part::Header, Mismatch::HeaderMismatch { key, .. }) => { rec.check(key.to_lowercase().contains(&k.to_lowercase()), "name", || format!("difference in {:?} reported for {:?}", k, key)); }
    (Part::Query, Mismatch::QueryMismatch { parameter, .. }) => { rec.check(parameter.contains(k.as_str()), "name", || format!("difference in {:?} reported for {:?}", k, parameter)); }
    (_, o) => rec.fail("kind", format!("a difference in a {:?} is reported as {}", part, o.mismatch_type())),
  } } }
}

pub fn kinds() -> Vec<MatchingRule> {
  vec![Equality, Type, MinType(1), MinType(2), MaxType(1), MinMaxType(1, 2), Regex("a".into()), Regex("[a1]".into()), Include("a".into()), Include("1".into()), Integer, Number, Null, NotEmpty, Values, Boolean, ArrayContains(vec![]), ArrayContains(vec![variant(0, vec![("$", Regex("[ab]".into()))])]), ArrayContains(vec![variant(1, vec![])]), EachValue(def(vec![Regex("[a1]".into())])), EachValue(def(vec![Type])), EachKey(def(vec![Type]))]
}

pub fn c33(run: &Run) {
  let s = |v: &str| v.to_string();
  let alpha = ["a", "b", "1", ""];
  let lists: Vec<Vec<String>> = (0..seq_count(4, 3)).map(|i| seq_at(i, 4).iter().map(|k| s(alpha[*k])).collect()).collect();
  let short: Vec<Vec<String>> = (0..seq_count(3, 3)).map(|i| seq_at(i, 3).iter().map(|k| s(["a", "b", "1"][*k])).collect()).collect();
  for part in [Part::Header, Part::Query] {
    let name = if part == Part::Header { "X-A" } else { "q" };
    let tag = if part == Part::Header { "header" } else { "query" };
    run.pairs(&format!("{}-none", tag), "every pair of value lists up to length 3 without rules", &lists, &lists, |e, a, rec| {
      rec.state(&(e, a));
      one(rec, "values", part, Some(&vec![(s(name), e.clone())]), Some(&vec![(s(name), a.clone())]), &Ctx { rules: vec![], strict: part == Part::Query });
    });
    let exprs: Vec<DocPath> = if part == Part::Header { ["X-A", "$['X-A']", "x-b", "$['X-A'][0]", "$['X-A'][1]", "$['x-a'][*]", "$['X-A'].*"].iter().map(|p| path(p)).collect() } else { ["q", "$.q", "$.r", "$.q[0]", "$.q[1]", "$.q[*]", "$.q.*", "$.Q"].iter().map(|p| path(p)).collect() };
    let kinds = kinds();
    let bases = [lists.len(), lists.len(), exprs.len()];
    run.explore(&format!("{}-one", tag), "every pair of value lists under every rule for the name, for another name and for each position", space_size(&bases), |i, rec| {
      let d = digits(i, &bases);
      rec.state(&d);
      for r in &kinds {
        one(rec, "one-rule", part, Some(&vec![(s(name), lists[d[0]].clone())]), Some(&vec![(s(name), lists[d[1]].clone())]), &Ctx { rules: vec![(exprs[d[2]].clone(), vec![r.clone()], RuleLogic::And)], strict: part == Part::Query });
      }
    });
    let few = vec![Equality, Type, MinType(2), MaxType(1), Regex("[a1]".into()), Include("a".into()), Integer, NotEmpty, Null, Values, ArrayContains(vec![]), EachValue(def(vec![Integer]))];
    let sets: Vec<Vec<(DocPath, Vec<MatchingRule>, RuleLogic)>> = {
      let mut v = vec![];
      for r in &few { for q in &few {
        for l in [RuleLogic::And, RuleLogic::Or] { v.push(vec![(exprs[0].clone(), vec![r.clone(), q.clone()], l)]); }
        v.push(vec![(exprs[3].clone(), vec![r.clone()], RuleLogic::And), (exprs[4].clone(), vec![q.clone()], RuleLogic::And)]);
        v.push(vec![(exprs[0].clone(), vec![r.clone()], RuleLogic::And), (exprs[4].clone(), vec![q.clone()], RuleLogic::And)]);
        v.push(vec![(exprs[5].clone(), vec![r.clone()], RuleLogic::And), (exprs[3].clone(), vec![q.clone()], RuleLogic::And)]);
      } }
      v
    };
    run.pairs(&format!("{}-two", tag), "every pair of value lists under every two rules: both for the name (AND and OR), for two positions, for the name and a position, for all and one position", &short, &short, |e, a, rec| {
      rec.state(&(e, a, 2));
      for set in &sets { one(rec, "two-rules", part, Some(&vec![(s(name), e.clone())]), Some(&vec![(s(name), a.clone())]), &Ctx { rules: set.clone(), strict: part == Part::Query }); }
    });
    // several names: missing, unexpected, case, and rules that must not leak
    let names_ = if part == Part::Header { ["X-A", "x-a", "X-B", "Accept", "é-É"] } else { ["q", "Q", "q[]", "a.b", "0"] };
    let vals = [None, Some(vec![]), Some(vec![s("a")]), Some(vec![s("b")]), Some(vec![s("a"), s("b")])];
    let mut maps: Vec<Option<Lists>> = vec![None];
    for i in 0..5 { for j in i..5 { for v in &vals { for w in &vals {
      let mut l: Lists = vec![];
      if let Some(v) = v { l.push((s(names_[i]), v.clone())); }
      if i != j { if let Some(w) = w { l.push((s(names_[j]), w.clone())); } } else if w.is_some() { continue; }
      if part == Part::Header && l.len() == 2 && l[0].0.to_lowercase() == l[1].0.to_lowercase() { continue; }
      maps.push(Some(l));
    } } } }
    maps.sort(); maps.dedup();
    let rulesets: Vec<Vec<(DocPath, Vec<MatchingRule>, RuleLogic)>> = vec![vec![], vec![(DocPath::root().join(names_[0]), vec![Type], RuleLogic::And)], vec![(DocPath::root().join(names_[2]), vec![Regex("b".into())], RuleLogic::And)], vec![(DocPath::root().join(names_[0]), vec![Regex("b".into())], RuleLogic::And), (DocPath::root().join(names_[4]), vec![NotEmpty], RuleLogic::And)], vec![(path("$.*"), vec![Type], RuleLogic::And)]];
    run.pairs(&format!("{}-names", tag), "every pair of sets of up to two names out of five with value lists, with rules for one, for another, and for all", &maps, &maps, |e, a, rec| {
      rec.state(&(e, a, 3));
      for r in &rulesets { for strict in [false, true] { one(rec, "names", part, e.as_ref(), a.as_ref(), &Ctx { rules: r.clone(), strict }); } }
    });
  }
  let params = ["text/plain", "text/html", "text/plain;a=1", "text/plain; a=1", " text/plain ;a = 1 ", "text/plain;a=1;b=2", "text/plain;b=2;a=1", "text/plain;a=2", "text/plain;a=X", "text/plain;a=x", "text/plain;", "text/plain;;a=1", "text/plain;a", "text/plain;a=1=2", "text/plain;a=\"1\"", ";a=1", "a=1", "", ";", "é;é=É", "text/plain;a=1, text/html"];
  let headers = ["Content-Type", "content-type", "ACCEPT", "X-A"];
  run.pairs("parameters", "every pair of media types with parameters in parameterised headers and in another one", &params, &params, |e, a, rec| {
    for h in headers { for h2 in [h.to_string(), h.to_lowercase()] { for n in [1, 2] {
      one(rec, "parameters", Part::Header, Some(&vec![(s(h), vec![s(e); n])]), Some(&vec![(h2.clone(), vec![s(a); n])]), &Ctx { rules: vec![], strict: false });
    } } }
    rec.state(&(e, a, 4));
  });
}
