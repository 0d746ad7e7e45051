//! C21: provider-state expressions and typed values.
use mccore::*;
use pact_models::expression_parser::{contains_expressions, parse_expression, DataType, DataValue, MapValueResolver};
use pact_models::generators::{generate_value_from_context, GenerateValue, Generator, NoopVariantMatcher, VariantMatcher};
use serde_json::{json, Value};
use std::collections::HashMap;

fn text(v: &Value) -> String { match v { Value::String(s) => s.clone(), Value::Null => String::new(), v => v.to_string() } }

/// `${name}` is replaced by its value, from left to right; a name runs to the next closing brace. A text that is one expression keeps the value's type.
pub fn substitute(s: &str, ctx: &HashMap<&str, Value>) -> Option<Value> {
  let c: Vec<char> = s.chars().collect();
  let (mut parts, mut lit, mut i): (Vec<Value>, String, usize) = (vec![], String::new(), 0);
  while i < c.len() {
    if c[i] == '$' && c.get(i + 1) == Some(&'{') {
      let end = (i + 2..c.len()).find(|j| c[*j] == '}')?;
      if !lit.is_empty() { parts.push(json!(lit)); lit.clear(); }
      let name: String = c[i + 2..end].iter().collect();
      if !name.is_empty() { parts.push(ctx.get(name.as_str())?.clone()); }
      i = end + 1;
    } else { lit.push(c[i]); i += 1; }
  }
  if !lit.is_empty() { parts.push(json!(lit)); }
  Some(if parts.len() == 1 { parts.remove(0) } else { json!(parts.iter().map(text).collect::<String>()) })
}

pub const TYPES: [DataType; 6] = [DataType::STRING, DataType::INTEGER, DataType::DECIMAL, DataType::FLOAT, DataType::RAW, DataType::BOOLEAN];

/// The integer part of a value as the type reads it: None if it has none.
fn integer(v: &Value, t: Option<DataType>) -> Option<i128> {
  match v {
    Value::Null => Some(0), Value::Bool(b) => Some(*b as i128),
    Value::Number(n) => n.as_u64().map(|n| n as i128).or(n.as_i64().map(|n| n as i128)).or(n.as_f64().map(|f| f.trunc()).filter(|f| f.is_finite() && f.abs() < 1e30).map(|f| f as i128)),
    Value::String(s) => match t {
      Some(DataType::BOOLEAN) => None,
      Some(DataType::DECIMAL) | Some(DataType::FLOAT) => s.parse::<f64>().ok().filter(|f| f.is_finite() && f.abs() < 1e30).map(|f| f.trunc() as i128),
      _ => s.parse::<i128>().ok(),
    },
    _ => None,
  }
}
fn float(v: &Value) -> Option<f64> {
  match v { Value::Null => Some(0.0), Value::Bool(b) => Some(*b as u8 as f64), Value::Number(n) => n.as_f64(), Value::String(s) => s.parse::<f64>().ok().filter(|f| f.is_finite()), _ => None }
}
fn boolean(v: &Value) -> Option<bool> {
  match v { Value::Null => Some(false), Value::Bool(b) => Some(*b), Value::Number(n) => n.as_f64().map(|f| f > 0.0), Value::String(s) => match s.as_str() { "true" => Some(true), "false" => Some(false), _ => None }, _ => None }
}
/// The JSON value of the requested type with the same value.
pub fn ref_json(v: &Value, t: DataType) -> Option<Value> {
  match t {
    DataType::RAW => Some(v.clone()),
    DataType::STRING => Some(json!(match v { Value::String(s) => s.clone(), v => v.to_string() })),
    DataType::INTEGER => integer(v, Some(t)).and_then(|n| if let Ok(n) = u64::try_from(n) { if v.is_f64() && n > i64::MAX as u64 { None } else { Some(json!(n)) } } else { i64::try_from(n).ok().map(|n| json!(n)) }),
    DataType::DECIMAL | DataType::FLOAT => float(v).map(|f| json!(f)),
    DataType::BOOLEAN => boolean(v).map(|b| json!(b)),
  }
}
pub fn ref_text(v: &Value, t: DataType) -> Option<String> {
  match t { DataType::RAW | DataType::STRING => Some(text(v)), DataType::DECIMAL | DataType::FLOAT => float(v).map(|f| f.to_string()), _ => ref_json(v, t).map(|v| text(&v)) }
}

pub fn values() -> Vec<Value> {
  let mut v = vec![json!(null), json!(true), json!(false), json!([]), json!({}), json!(["a", 1]), json!({"a": "b"})];
  for n in [0i64, 1, -1, 2, 42, 255, 256, 32767, 32768, 65535, 65536, 70000, -65536, i32::MAX as i64, i32::MIN as i64, i64::MAX, i64::MIN, 1 << 53, (1 << 53) + 1] { v.push(json!(n)); v.push(json!(n.to_string())); v.push(json!(n as f64)); }
  v.push(json!(u64::MAX)); v.push(json!(u64::MAX.to_string())); v.push(json!(i64::MAX as u64 + 1));
  for f in [0.5, -0.5, 1.5, 100.6, -1.5, 65535.9, 65536.1, 1e20, -1e20, 1e300, 1e-9] { v.push(json!(f)); v.push(json!(f.to_string())); }
  for s in ["", " ", "a", "é", " 1", "1 ", "+1", "+5", "--1", "1e3", "1.", ".5", "1,5", "NaN", "nan", "inf", "Infinity", "-inf", "true", "false", "TRUE", "True", "yes", "0x10", "1_000", "٣", "null", "18446744073709551616", "-9223372036854775809", "\"a\"", "\n"] { v.push(json!(s)); }
  v
}

pub fn c21(run: &Run) {
  let vals = values();
  let ctx_values = [json!("A"), json!(100), json!(-1.5), json!(true), json!(null), json!(""), json!("${b}"), json!("}"), json!(["x"]), json!({"k": "v"}), json!("é")];
  let sym = ["$", "{", "}", "a", "é"];
  let depth = if run.thorough { 9 } else { 7 };
  run.explore("substitute", "every text over $ { } a é up to a length, resolved with one known name, for every kind of value", seq_count(sym.len(), depth), |i, rec| {
    let s: String = seq_at(i, sym.len()).iter().map(|k| sym[*k]).collect();
    rec.case(format!("{:?}", s));
    rec.state(&s);
    let vs: &[Value] = if s.contains("${") { &ctx_values } else { &ctx_values[..1] };
    for v in vs {
      let ctx: HashMap<&str, Value> = [("a", v.clone()), ("$", json!("dollar")), ("é{", json!(7))].into_iter().collect();
      rec.trace();
      let want = substitute(&s, &ctx);
      rec.outcome(match &want { None => "error", Some(Value::String(_)) => "text", Some(_) => "typed" });
      match rec.no_panic("parse", || parse_expression(&s, &MapValueResolver { context: ctx.clone() })) {
        Some(got) => { rec.eq("substitute", &want, &got.ok()); }
        None => {}
      }
    }
    rec.eq("contains", &s.contains("${"), &contains_expressions(&s));
  });
  run.pairs("pieces", "every sequence of up to four pieces of text and expressions, for every pair of context values", &(0..seq_count(9, 4)).collect::<Vec<u64>>(), &ctx_values, |i, v, rec| {
    let pieces = ["${a}", "${b}", "${c}", "${}", "/", "$", "}", "x{y", "${a b.é}"];
    let s: String = seq_at(*i, 9).iter().map(|k| pieces[*k]).collect();
    rec.case(format!("{:?} a={}", s, v)); rec.trace();
    let ctx: HashMap<&str, Value> = [("a", v.clone()), ("b", json!(2)), ("a b.é", json!("Z"))].into_iter().collect();
    let want = substitute(&s, &ctx);
    if let Some(got) = rec.no_panic("parse", || parse_expression(&s, &MapValueResolver { context: ctx.clone() })) { rec.eq("substitute", &want, &got.ok()); }
    // The generator: a text without expressions is the name itself; values come from "providerState" when there is one.
    for t in std::iter::once(None).chain(TYPES.iter().map(|t| Some(*t))) {
      let raw = if s.contains("${") { want.clone() } else { ctx.get(s.as_str()).cloned() };
      let ty = t.unwrap_or(DataType::RAW);
      let wj = raw.as_ref().and_then(|r| ref_json(r, ty));
      let wt = raw.as_ref().and_then(|r| ref_text(r, ty));
      let g = Generator::ProviderStateGenerator(s.clone(), t);
      let m = NoopVariantMatcher.boxed();
      let nested: HashMap<&str, Value> = [("providerState", Value::Object(ctx.iter().map(|(k, v)| (k.to_string(), v.clone())).collect())), ("b", json!("outer"))].into_iter().collect();
      for (c, form) in [(&ctx, "plain"), (&nested, "nested")] {
        rec.steps(2);
        let got = rec.no_panic("generate", || GenerateValue::<Value>::generate_value(&g, &json!("old"), c, &m));
        if let Some(got) = got { rec.eq(&format!("generate-json-{}", form), &wj, &got.ok()); }
        let got = rec.no_panic("generate", || GenerateValue::<String>::generate_value(&g, &"old".to_string(), c, &m));
        if let Some(got) = got { rec.eq(&format!("generate-text-{}", form), &wt, &got.ok()); }
      }
      rec.eq("context", &raw, &generate_value_from_context(&s, &ctx, &t).ok().map(|d| d.wrapped));
    }
  });
  run.pairs("convert", "every value converted to every type and read as every target", &vals, &TYPES, |v, t, rec| {
    rec.case(format!("{} as {:?}", v, t)); rec.trace(); rec.steps(7);
    let d = || DataValue { wrapped: v.clone(), data_type: *t };
    let num = v.is_number() || v.is_null() || v.is_boolean();
    rec.state(&(v.to_string(), format!("{:?}", t)));
    if let Some(r) = rec.no_panic("json", || d().as_json()) { rec.outcome(if r.is_ok() { "value" } else { "error" }); rec.eq("json", &ref_json(v, *t), &r.ok()); }
    let int = integer(v, Some(*t));
    if let Some(r) = rec.no_panic("u16", || u16::try_from(d())) { rec.eq("u16", &int.and_then(|n| u16::try_from(n).ok()), &r.ok()); }
    if let Some(r) = rec.no_panic("u64", || u64::try_from(d())) { rec.eq("u64", &int.and_then(|n| u64::try_from(n).ok()), &r.ok()); }
    if let Some(r) = rec.no_panic("i64", || i64::try_from(d())) { rec.eq("i64", &int.and_then(|n| i64::try_from(n).ok()), &r.ok()); }
    if let Some(r) = rec.no_panic("f64", || f64::try_from(d())) {
      let want = match t { _ if num => float(v), DataType::BOOLEAN => None, DataType::INTEGER => integer(v, Some(*t)).filter(|n| i64::try_from(*n).is_ok()).map(|n| n as f64), _ => float(v) };
      if r.as_ref().map(|f| f.is_finite()).unwrap_or(true) { rec.eq("f64", &want, &r.ok()); }
    }
    if let Some(r) = rec.no_panic("bool", || bool::try_from(d())) { rec.eq("bool", &boolean(v), &r.ok()); }
    // The printed form is that of the value when there is one; printing never fails.
    if let Some(r) = rec.no_panic("print", || d().to_string()) { if let Some(w) = ref_text(v, *t) { rec.eq("print", &w, &r); } }
  });
  run.each("type-names", "every spelling of a data type name", &["STRING", "INTEGER", "DECIMAL", "FLOAT", "RAW", "BOOLEAN", "string", "Integer", "decimaL", "float", "raw", "boolean", "", "?", "é"], |s, rec| {
    rec.case(s.to_string()); rec.trace();
    let want = TYPES.iter().find(|t| format!("{:?}", t) == s.to_ascii_uppercase()).copied().unwrap_or(DataType::RAW);
    rec.outcome(format!("{:?}", want));
    rec.eq("type", &want, &DataType::from(json!(s)));
    let back: Value = want.into();
    rec.eq("type-json", &want, &DataType::from(back));
    for v in [json!(null), json!(1), json!({})] { rec.eq("type-other", &DataType::RAW, &DataType::from(v)); }
  });
}
