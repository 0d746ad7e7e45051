//! The reference model of how a JSON document is matched: rule selection, cascading, lists, maps and values.
use pact_models::matchingrules::{Category, MatchingRule, MatchingRuleCategory, RuleList, RuleLogic};
use pact_models::path_exp::{DocPath, PathToken};
use pact_models::HttpStatus;
use serde_json::Value;
use std::collections::BTreeSet;

pub fn path(s: &str) -> DocPath { DocPath::new(s).unwrap() }

#[derive(Clone, Debug)]
pub struct Ctx { pub rules: Vec<(DocPath, Vec<MatchingRule>, RuleLogic)>, pub strict: bool }

pub struct Selected { pub rules: Vec<MatchingRule>, pub logic: RuleLogic, pub cascaded: bool }

/// Weight as the specification defines it: 2 for a name or index, 1 for a wildcard, 0 if any token does not match; times the length.
pub fn weight(p: &DocPath, at: &[String]) -> u64 {
  if p.len() > at.len() { return 0; }
  let mut w = 1;
  for (t, f) in p.tokens().iter().zip(at) {
    w *= match t {
      PathToken::Root => if f == "$" { 2 } else { 0 },
      PathToken::Field(n) => if n == f { 2 } else { 0 },
      PathToken::Index(n) => if &n.to_string() == f { 2 } else { 0 },
      PathToken::Star => 1,
      PathToken::StarIndex => if f == "[*]" || f.parse::<usize>().is_ok() { 1 } else { 0 },
    };
    if w == 0 { return 0; }
  }
  1 + w * p.len() as u64
}

pub fn is_values(r: &MatchingRule) -> bool { matches!(r, MatchingRule::Values | MatchingRule::EachValue(_)) }

impl Ctx {
  pub fn category(&self, name: Category) -> MatchingRuleCategory {
    let mut c = MatchingRuleCategory::empty(name);
    for (p, r, l) in &self.rules { c.rules.insert(p.clone(), RuleList { rules: r.clone(), rule_logic: *l, cascaded: false }); }
    c
  }
  /// The rules in force at a location: those of the most specific expression that covers it.
  pub fn select(&self, at: &[String]) -> Option<Selected> {
    let best = self.rules.iter().map(|(p, _, _)| weight(p, at)).max()?;
    if best == 0 { return None; }
    let (p, r, l) = self.rules.iter().find(|(p, _, _)| weight(p, at) == best)?;
    Some(Selected { rules: r.clone(), logic: *l, cascaded: p.len() != at.len() })
  }
  /// Two expressions of the same weight cover the location: which one wins is not specified.
  pub fn tie(&self, at: &[String]) -> bool {
    let w: Vec<u64> = self.rules.iter().map(|(p, _, _)| weight(p, at)).collect();
    let best = w.iter().max().copied().unwrap_or(0);
    best > 0 && w.iter().filter(|x| **x == best).count() > 1
  }
  pub fn direct(&self, at: &[String]) -> Vec<&MatchingRule> {
    self.rules.iter().filter(|(p, _, _)| p.len() == at.len() && weight(p, at) > 0).flat_map(|(_, r, _)| r.iter()).collect()
  }
}

#[derive(Default)]
pub struct Out { pub paths: BTreeSet<String>, pub tie: bool }

fn kind(v: &Value) -> u8 { match v { Value::Null => 0, Value::Bool(_) => 1, Value::Number(_) => 2, Value::String(_) => 3, Value::Array(_) => 4, Value::Object(_) => 5 } }
fn text(v: &Value) -> String { match v { Value::String(s) => s.clone(), v => v.to_string() } }

/// Does the value satisfy the rule, as the documentation of the rules describes it?
pub fn value_ok(e: &Value, a: &Value, r: &MatchingRule, cascaded: bool) -> bool {
  let size = |ok: &dyn Fn(usize) -> bool| kind(e) == kind(a) && match a { Value::Array(l) if !cascaded => ok(l.len()), _ => true };
  match r {
    MatchingRule::Regex(x) => regex_ok(x, &text(a)),
    MatchingRule::Include(s) => text(a).contains(s.as_str()),
    MatchingRule::Type => kind(e) == kind(a),
    MatchingRule::MinType(n) => size(&|l| l >= *n),
    MatchingRule::MaxType(n) => size(&|l| l <= *n),
    MatchingRule::MinMaxType(n, m) => size(&|l| l >= *n && l <= *m),
    MatchingRule::Equality | MatchingRule::Values => e == a,
    MatchingRule::Null => a.is_null(),
    MatchingRule::Integer => matches!(a, Value::Number(n) if !n.is_f64()),
    MatchingRule::Decimal => matches!(a, Value::Number(n) if n.is_f64()),
    MatchingRule::Number => a.is_number(),
    MatchingRule::Boolean => a.is_boolean() || a == "true" || a == "false",
    MatchingRule::NotEmpty => match a { Value::Null => false, Value::String(s) => !s.is_empty(), Value::Array(l) => !l.is_empty(), Value::Object(m) => !m.is_empty(), _ => true },
    MatchingRule::Semver => matches!(a, Value::String(s) if semver(s)),
    MatchingRule::Date(f) => pact_models::time_utils::validate_datetime(&text_plain(a), if f.is_empty() { "yyyy-MM-dd" } else { f }).is_ok(),
    MatchingRule::Time(f) => pact_models::time_utils::validate_datetime(&text_plain(a), if f.is_empty() { "HH:mm:ss" } else { f }).is_ok(),
    MatchingRule::Timestamp(f) => pact_models::time_utils::validate_datetime(&text_plain(a), if f.is_empty() { "yyyy-MM-dd'T'HH:mm:ssXXX" } else { f }).is_ok(),
    _ => true,
  }
}
/// The expression matches the whole of the text.
pub fn regex_ok(x: &str, t: &str) -> bool { regex::Regex::new(x).ok().and_then(|x| x.find(t).map(|m| m.start() == 0 && m.end() == t.len())).unwrap_or(false) }
fn text_plain(v: &Value) -> String { text(v) }

/// major.minor.patch[-pre][+build], numbers without leading zeros.
pub fn semver(s: &str) -> bool {
  let (s, build) = match s.split_once('+') { Some((s, b)) => (s, Some(b)), None => (s, None) };
  let (core, pre) = match s.split_once('-') { Some((s, p)) => (s, Some(p)), None => (s, None) };
  let num = |n: &str| !n.is_empty() && n.chars().all(|c| c.is_ascii_digit()) && (n == "0" || !n.starts_with('0')) && n.parse::<u64>().is_ok();
  let ids = |s: &str, strict: bool| s.split('.').all(|p| !p.is_empty() && p.chars().all(|c| c.is_ascii_alphanumeric() || c == '-') && (!strict || !p.chars().all(|c| c.is_ascii_digit()) || num(p)));
  let c: Vec<&str> = core.split('.').collect();
  c.len() == 3 && c.iter().all(|n| num(n)) && pre.map(|p| ids(p, true)).unwrap_or(true) && build.map(|b| ids(b, false)).unwrap_or(true)
}

pub fn status_ok(code: u64, s: &HttpStatus) -> bool {
  match s {
    HttpStatus::Information => (100..200).contains(&code),
    HttpStatus::Success => (200..300).contains(&code),
    HttpStatus::Redirect => (300..400).contains(&code),
    HttpStatus::ClientError => (400..500).contains(&code),
    HttpStatus::ServerError => (500..600).contains(&code),
    HttpStatus::StatusCodes(l) => l.iter().any(|c| *c as u64 == code),
    HttpStatus::NonError => code < 400,
    HttpStatus::Error => code >= 400,
  }
}

fn combine(out: &mut Out, logic: RuleLogic, results: Vec<Out>) {
  if results.iter().any(|r| r.tie) { out.tie = true; }
  if matches!(logic, RuleLogic::Or) && results.iter().any(|r| r.paths.is_empty()) { return; }
  for r in results { out.paths.extend(r.paths); }
}

/// The locations at which the actual document does not fulfil the expected one.
pub fn compare(p: &DocPath, e: &Value, a: &Value, c: &Ctx, out: &mut Out) {
  let at = p.to_vec();
  if c.tie(&at) { out.tie = true; }
  let here = p.to_string();
  match (e, a) {
    (Value::Object(em), Value::Object(am)) => {
      if em.is_empty() && c.strict && !am.is_empty() { out.paths.insert(here); return; }
      match c.select(&at) {
        Some(s) => {
          let results = s.rules.iter().map(|r| {
            let mut out = Out::default();
            if !s.cascaded && is_values(r) {
              let inner = match r { MatchingRule::EachValue(d) => each_value(p, d, c), _ => c.clone() };
              for (k, v) in am {
                if let Some(x) = em.get(k).or_else(|| em.values().next()) { compare(&p.join(k), x, v, &inner, &mut out); }
              }
            } else {
              if !map_ok(em, am, r, s.cascaded) { out.paths.insert(here.clone()); }
              keys(p, &at, em, am, c, &mut out);
              for (k, v) in em { if let Some(x) = am.get(k) { compare(&p.join(k), v, x, c, &mut out); } }
            }
            out
          }).collect();
          combine(out, s.logic, results);
        }
        None => {
          keys(p, &at, em, am, c, out);
          for (k, v) in em { if let Some(x) = am.get(k) { compare(&p.join(k), v, x, c, out); } }
        }
      }
    }
    (Value::Array(el), Value::Array(al)) => match c.select(&at) {
      Some(s) => {
        let results = s.rules.iter().map(|r| {
          let mut out = Out::default();
          match r {
            MatchingRule::ArrayContains(variants) => {
              let all: Vec<(usize, Ctx)> = if variants.is_empty() {
                (0..el.len()).map(|i| (i, Ctx { rules: vec![(DocPath::root(), vec![MatchingRule::Equality], RuleLogic::And)], strict: c.strict })).collect()
              } else {
                variants.iter().map(|(i, cat, _)| (*i, Ctx { rules: cat.rules.iter().map(|(p, l)| (p.clone(), l.rules.clone(), l.rule_logic)).collect(), strict: c.strict })).collect()
              };
              for (i, ctx) in all {
                let found = el.get(i).map(|x| al.iter().any(|y| { let mut o = Out::default(); compare(&DocPath::root(), x, y, &ctx, &mut o); if o.tie { out.tie = true; } o.paths.is_empty() })).unwrap_or(false);
                if !found { out.paths.insert(here.clone()); }
              }
            }
            MatchingRule::EachValue(d) => if !s.cascaded { items(p, el, al, &each_value(p, d, c), &mut out) },
            r => {
              if !list_ok(el, al, r, s.cascaded) { out.paths.insert(here.clone()); }
              items(p, el, al, c, &mut out);
            }
          }
          out
        }).collect();
        combine(out, s.logic, results);
      }
      None => {
        if el.len() != al.len() { out.paths.insert(here); }
        for (i, v) in el.iter().enumerate() {
          if let Some(x) = al.get(i) { compare(&p.join(i.to_string()), v, x, c, out); }
        }
      }
    },
    (Value::Object(_), _) | (Value::Array(_), _) => { out.paths.insert(here); }
    _ => match c.select(&at) {
      Some(s) => {
        let ok = |r: &MatchingRule| value_ok(e, a, r, s.cascaded);
        let good = match s.logic { RuleLogic::And => s.rules.iter().all(ok), RuleLogic::Or => s.rules.iter().any(ok) };
        if !good { out.paths.insert(here); }
      }
      None => if e != a { out.paths.insert(here); }
    }
  }
}

fn each_value(p: &DocPath, d: &pact_models::matchingrules::expressions::MatchingRuleDefinition, c: &Ctx) -> Ctx {
  Ctx { rules: vec![(p.join("*"), d.rules.iter().filter_map(|r| r.as_ref().left().cloned()).collect(), RuleLogic::And)], strict: c.strict }
}

fn keys(p: &DocPath, at: &[String], em: &serde_json::Map<String, Value>, am: &serde_json::Map<String, Value>, c: &Ctx, out: &mut Out) {
  let direct = c.direct(at);
  let relaxed = direct.iter().any(|r| is_values(r) || matches!(r, MatchingRule::EachKey(_)));
  if !relaxed {
    let missing = em.keys().any(|k| !am.contains_key(k));
    let extra = am.keys().any(|k| !em.contains_key(k));
    if missing || (c.strict && extra) { out.paths.insert(p.to_string()); }
  }
  if !direct.is_empty() {
    if let Some(s) = c.select(at) {
      for r in &s.rules {
        if let MatchingRule::EachKey(d) = r {
          for k in am.keys() { for r in &d.rules { if let Some(r) = r.as_ref().left() { if !text_ok("", k, r, false) { out.paths.insert(p.join(k).to_string()); } } } }
        }
      }
    }
  }
}

/// A value given as text (a header, a query parameter, a name).
pub fn text_ok(e: &str, a: &str, r: &MatchingRule, cascaded: bool) -> bool {
  match r {
    MatchingRule::Regex(x) => regex_ok(x, a),
    MatchingRule::Include(s) => a.contains(s.as_str()),
    MatchingRule::Equality | MatchingRule::Values => e == a,
    MatchingRule::Type | MatchingRule::MinType(_) | MatchingRule::MaxType(_) | MatchingRule::MinMaxType(..) => true,
    MatchingRule::Number | MatchingRule::Decimal => number_text(a).is_some(),
    MatchingRule::Integer => integer_text(a),
    MatchingRule::Boolean => a == "true" || a == "false",
    MatchingRule::NotEmpty => !a.is_empty(),
    MatchingRule::Semver => semver(a),
    MatchingRule::StatusCode(s) => a.parse::<u16>().map(|c| status_ok(c as u64, s)).unwrap_or(false),
    MatchingRule::Date(_) | MatchingRule::Time(_) | MatchingRule::Timestamp(_) => value_ok(&Value::Null, &Value::String(a.into()), r, cascaded),
    MatchingRule::EachKey(_) | MatchingRule::EachValue(_) => cascaded,
    _ => false,
  }
}
pub fn number_text(s: &str) -> Option<f64> {
  let digits = |s: &str| !s.is_empty() && s.bytes().all(|c| c.is_ascii_digit());
  let t = s.strip_prefix(['-', '+']).unwrap_or(s);
  let (mant, exp) = match t.find(['e', 'E']) { Some(i) => (&t[..i], Some(&t[i + 1..])), None => (t, None) };
  let mant_ok = match mant.split_once('.') { Some((i, f)) => (digits(i) && (f.is_empty() || digits(f))) || (i.is_empty() && digits(f)), None => digits(mant) };
  let exp_ok = exp.map(|e| digits(e.strip_prefix(['-', '+']).unwrap_or(e))).unwrap_or(true);
  if mant_ok && exp_ok { s.parse().ok() } else { None }
}
pub fn integer_text(s: &str) -> bool { let t = s.strip_prefix(['-', '+']).unwrap_or(s); !t.is_empty() && t.bytes().all(|c| c.is_ascii_digit()) }

fn items(p: &DocPath, el: &[Value], al: &[Value], c: &Ctx, out: &mut Out) {
  for i in 0..el.len().max(al.len()) {
    let Some(x) = el.get(i).or(el.first()) else { return };
    let q = p.join(i.to_string());
    match al.get(i) {
      Some(y) => compare(&q, x, y, c, out),
      None => { if c.tie(&q.to_vec()) { out.tie = true; } if c.select(&q.to_vec()).is_none() { out.paths.insert(p.to_string()); } }
    }
  }
}

fn list_ok(e: &[Value], a: &[Value], r: &MatchingRule, cascaded: bool) -> bool {
  match r {
    MatchingRule::MinType(n) => cascaded || a.len() >= *n,
    MatchingRule::MaxType(n) => cascaded || a.len() <= *n,
    MatchingRule::MinMaxType(n, m) => cascaded || (a.len() >= *n && a.len() <= *m),
    MatchingRule::Equality => e == a,
    MatchingRule::NotEmpty => !a.is_empty(),
    MatchingRule::Null | MatchingRule::StatusCode(_) => false,
    _ => true,
  }
}
fn map_ok(e: &serde_json::Map<String, Value>, a: &serde_json::Map<String, Value>, r: &MatchingRule, cascaded: bool) -> bool {
  match r {
    MatchingRule::MinType(n) => cascaded || a.len() >= *n,
    MatchingRule::MaxType(n) => cascaded || a.len() <= *n,
    MatchingRule::MinMaxType(n, m) => cascaded || (a.len() >= *n && a.len() <= *m),
    MatchingRule::Equality => e == a,
    MatchingRule::NotEmpty => !a.is_empty(),
    MatchingRule::Regex(_) | MatchingRule::Type | MatchingRule::ArrayContains(_) | MatchingRule::EachKey(_) | MatchingRule::EachValue(_) | MatchingRule::Values => true,
    _ => false,
  }
}
