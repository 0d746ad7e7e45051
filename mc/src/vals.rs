//! The alphabets of values shared by several checks.
use maplit::hashmap;
use pact_models::expression_parser::DataType;
use pact_models::generators::{Generator, UuidFormat};
use pact_models::matchingrules::expressions::{MatchingRuleDefinition, ValueType};
use pact_models::matchingrules::{MatchingRule, MatchingRuleCategory, RuleLogic};
use pact_models::path_exp::DocPath;
use pact_models::HttpStatus;
use std::collections::HashMap;

pub fn path(s: &str) -> DocPath { DocPath::new(s).unwrap() }

pub const TEXTS: &[&str] = &["", "a", "\\d+", "^a\"b\\\\c$", "é日", "a b\n\tc", "yyyy-MM-dd'T'HH:mm", "{\"x\":1}", "true", "12"];

pub fn statuses() -> Vec<HttpStatus> {
  vec![HttpStatus::Information, HttpStatus::Success, HttpStatus::Redirect, HttpStatus::ClientError, HttpStatus::ServerError,
    HttpStatus::NonError, HttpStatus::Error, HttpStatus::StatusCodes(vec![]), HttpStatus::StatusCodes(vec![200]), HttpStatus::StatusCodes(vec![0, 404, 65535])]
}

/// Rules without nested definitions.
pub fn simple_rules() -> Vec<MatchingRule> {
  use MatchingRule::*;
  let mut v = vec![Equality, Type, Number, Integer, Decimal, Null, Values, Boolean, NotEmpty, Semver];
  for n in [0usize, 1, 2, 10, usize::MAX >> 1] { v.push(MinType(n)); v.push(MaxType(n)); }
  for (a, b) in [(0, 0), (0, 1), (1, 2), (2, 1)] { v.push(MinMaxType(a, b)); }
  for t in TEXTS { v.push(Regex(t.to_string())); v.push(Include(t.to_string())); v.push(Timestamp(t.to_string())); v.push(Date(t.to_string())); v.push(Time(t.to_string())); v.push(ContentType(t.to_string())); }
  for s in statuses() { v.push(StatusCode(s)); }
  v
}

pub fn def(value: &str, rules: Vec<MatchingRule>, generator: Option<Generator>) -> MatchingRuleDefinition {
  let mut d = MatchingRuleDefinition::new(value.to_string(), ValueType::Unknown, MatchingRule::Type, generator, "".to_string());
  d.rules.clear();
  for r in rules { let one = MatchingRuleDefinition::new("".into(), ValueType::Unknown, r, None, "".into()); d.rules.extend(one.rules); }
  d
}

pub fn simple_generators() -> Vec<Generator> {
  use Generator::*;
  let mut v = vec![RandomBoolean, Uuid(None)];
  for f in [UuidFormat::Simple, UuidFormat::LowerCaseHyphenated, UuidFormat::UpperCaseHyphenated, UuidFormat::Urn] { v.push(Uuid(Some(f))); }
  for (a, b) in [(0, 10), (-5, -1), (i32::MIN, i32::MAX), (3, 3), (7, 2)] { v.push(RandomInt(a, b)); }
  for n in [0u16, 1, 10, u16::MAX] { v.push(RandomDecimal(n)); v.push(RandomHexadecimal(n)); v.push(RandomString(n)); }
  for t in TEXTS { v.push(Regex(t.to_string())); }
  for f in [None, Some("yyyy"), Some(""), Some("é'x'")] { for e in [None, Some("now + 1 day"), Some("")] {
    let (f, e) = (f.map(|s: &str| s.to_string()), e.map(|s: &str| s.to_string()));
    v.push(Date(f.clone(), e.clone())); v.push(Time(f.clone(), e.clone())); v.push(DateTime(f, e));
  } }
  for e in ["a", "", "${a}-${b}", "é\"x"] { for d in [None, Some(DataType::STRING), Some(DataType::INTEGER), Some(DataType::DECIMAL), Some(DataType::FLOAT), Some(DataType::RAW), Some(DataType::BOOLEAN)] {
    v.push(ProviderStateGenerator(e.to_string(), d));
  } }
  for (a, b) in [("", ""), ("http://x/y", ".*(/y)$"), ("é\"", "\\")] { v.push(MockServerURL(a.into(), b.into())); }
  v
}

pub fn category(name: &str, rules: Vec<(&str, MatchingRule)>) -> MatchingRuleCategory {
  let mut c = MatchingRuleCategory::empty(name);
  for (p, r) in rules { c.add_rule(path(p), r, RuleLogic::And); }
  c
}

/// Rules with nested rules and generators.
pub fn nested_rules() -> Vec<MatchingRule> {
  use MatchingRule::*;
  let mut v = vec![];
  for value in ["", "v", "é\"x\""] {
    for rules in [vec![], vec![Type], vec![Regex("\\d".into()), Include("é".into())], vec![EachKey(def("k", vec![Integer], None))]] {
      for g in [None, Some(Generator::RandomInt(1, 2)), Some(Generator::Date(Some("yyyy".into()), None))] {
        v.push(EachKey(def(value, rules.clone(), g.clone())));
        v.push(EachValue(def(value, rules.clone(), g)));
      }
    }
  }
  let none: HashMap<DocPath, Generator> = hashmap! {};
  let gens = hashmap! { path("$.a") => Generator::RandomInt(1, 9), path("$['b c'][0]") => Generator::ProviderStateGenerator("id".into(), Some(DataType::INTEGER)) };
  v.push(ArrayContains(vec![]));
  v.push(ArrayContains(vec![(0, category("body", vec![]), none.clone())]));
  v.push(ArrayContains(vec![(0, category("body", vec![("$.a", Type)]), none.clone()), (1, category("body", vec![("$['x y']", Regex("\\w".into())), ("$[*].b", MinType(1))]), gens.clone())]));
  v.push(ArrayContains(vec![(3, category("body", vec![("$.a", ArrayContains(vec![(0, category("body", vec![("$", Integer)]), none.clone())]))]), gens)]));
  v
}

pub fn all_rules() -> Vec<MatchingRule> { let mut v = simple_rules(); v.extend(nested_rules()); v }

/// One rule per kind, for combinations.
pub fn kind_rules() -> Vec<MatchingRule> {
  use MatchingRule::*;
  vec![Equality, Regex("\\d+".into()), Type, MinType(1), MaxType(2), MinMaxType(1, 2), Timestamp("yyyy-MM-dd'T'HH:mm:ss".into()), Time("HH:mm".into()), Date("yyyy-MM-dd".into()),
    Include("a".into()), Number, Integer, Decimal, Null, ContentType("image/png".into()), Values, Boolean, StatusCode(HttpStatus::Error), StatusCode(HttpStatus::StatusCodes(vec![200, 201])), NotEmpty, Semver,
    EachKey(def("", vec![Regex("a+".into())], None)), EachValue(def("", vec![Type], Some(Generator::RandomBoolean))),
    ArrayContains(vec![(0, category("body", vec![("$.a", Type)]), hashmap! {})])]
}
pub fn kind_generators() -> Vec<Generator> {
  use Generator::*;
  vec![RandomInt(1, 9), Uuid(None), Uuid(Some(UuidFormat::Urn)), RandomDecimal(4), RandomHexadecimal(4), RandomString(4), Regex("\\d".into()), Date(Some("yyyy-MM-dd".into()), Some("today + 1 day".into())),
    Time(None, None), DateTime(Some("yyyy".into()), None), RandomBoolean, ProviderStateGenerator("${id}".into(), Some(DataType::INTEGER)), MockServerURL("http://a/b".into(), ".*(/b)$".into())]
}
