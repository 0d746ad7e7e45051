//! Generation of pact documents: every kind of interaction at every specification version, as a base document plus slots.
//! Each slot is an attribute with its alternatives; a document is the base with a set of alternatives applied. Every
//! alternative says what is put in the document that is read and what must be in the document that is written.
use pact_models::PactSpecification;
use serde_json::{json, Value};
use std::sync::OnceLock;

pub struct Alt { pub label: String, pub input: Vec<(String, Value)>, pub output: Vec<(String, Option<Value>)> }
pub struct Kind { pub name: &'static str, pub version: PactSpecification, pub list: &'static str, pub base: Value, pub base_out: Value, pub slots: Vec<Vec<Alt>> }

/// Sets (or removes) what is at a JSON pointer, creating the objects on the way.
pub fn put(doc: &mut Value, ptr: &str, v: Option<Value>) {
  let segs: Vec<String> = ptr.split('/').skip(1).map(|s| s.replace("~1", "/").replace("~0", "~")).collect();
  let mut cur = doc;
  for (i, s) in segs.iter().enumerate() {
    let last = i + 1 == segs.len();
    if let (Value::Array(a), Ok(n)) = (&mut *cur, s.parse::<usize>()) {
      while a.len() <= n { a.push(json!({})); }
      cur = cur.get_mut(n).unwrap();
      if last { *cur = v.clone().unwrap_or(Value::Null); }
      continue;
    }
    if !cur.is_object() { *cur = json!({}); }
    let m = cur.as_object_mut().unwrap();
    if last {
      match &v { Some(v) => { m.insert(s.clone(), v.clone()); } None => { m.remove(s); } }
      return;
    }
    cur = m.entry(s.clone()).or_insert_with(|| json!({}));
  }
}

/// The same in the document that is read and in the one that is written.
fn s(ptr: &str, v: Value) -> Alt { Alt { label: format!("{}={}", ptr, v), input: vec![(ptr.into(), v.clone())], output: vec![(ptr.into(), Some(v))] } }
/// Read in one form and written in another.
fn x(ptr: &str, v: Value, out: &[(&str, Option<Value>)]) -> Alt {
  Alt { label: format!("{}={}", ptr, v), input: vec![(ptr.into(), v)], output: out.iter().map(|(p, v)| (p.to_string(), v.clone())).collect() }
}
/// Several attributes at once.
fn m(parts: &[(&str, Value)]) -> Alt {
  Alt { label: parts.iter().map(|(p, v)| format!("{}={}", p, v)).collect::<Vec<_>>().join("&"), input: parts.iter().map(|(p, v)| (p.to_string(), v.clone())).collect(), output: parts.iter().map(|(p, v)| (p.to_string(), Some(v.clone()))).collect() }
}
fn mx(parts: &[(&str, Value)], out: &[(&str, Option<Value>)]) -> Alt {
  let mut a = m(parts);
  a.output = out.iter().map(|(p, v)| (p.to_string(), v.clone())).collect();
  a
}
/// The alternatives of a part, moved below another place.
fn under(prefix: &str, slots: Vec<Vec<Alt>>) -> Vec<Vec<Alt>> {
  slots.into_iter().map(|s| s.into_iter().map(|a| Alt {
    label: format!("{}{}", prefix, a.label), input: a.input.into_iter().map(|(p, v)| (format!("{}{}", prefix, p), v)).collect(), output: a.output.into_iter().map(|(p, v)| (format!("{}{}", prefix, p), v)).collect()
  }).collect()).collect()
}

fn rule(v: Value) -> Value { json!({"combine": "AND", "matchers": [v]}) }

fn descriptions(list: &str) -> Vec<Alt> {
  vec![s("/description", json!("")), s("/description", json!("é \"q\" {}")), x("/description", json!(5), &[("/description", Some(json!("5")))]),
    Alt { label: "no description".into(), input: vec![], output: vec![("/description".into(), Some(json!(if list == "messages" { "Message 0" } else { "Interaction 0" })))] }]
}

fn states_v3() -> Vec<Alt> {
  vec![s("/providerStates", json!([{"name": "s"}])), s("/providerStates", json!([{"name": ""}])),
    s("/providerStates", json!([{"name": "s", "params": {"a": 1, "b": "x", "c": [1, {"d": null}], "e": {"f": 1.5}, "g": null, "h": true, "": -3}}, {"name": "s"}])),
    s("/providerStates", json!([{"name": "t"}, {"name": "s", "params": {"a": 18446744073709551615u64}}, {"name": "t"}])),
    x("/providerStates", json!(["a", null, {"name": "b", "params": null}]), &[("/providerStates", Some(json!([{"name": "a"}, {"name": "b"}])))]),
    x("/providerState", json!("old"), &[("/providerStates", Some(json!([{"name": "old"}])))]),
    x("/provider_state", json!("older"), &[("/providerStates", Some(json!([{"name": "older"}])))]),
    x("/providerStates", json!([]), &[])]
}
fn states_v1() -> Vec<Alt> {
  vec![s("/providerState", json!("s")), s("/providerState", json!("é \"s\"")), x("/provider_state", json!("older"), &[("/providerState", Some(json!("older")))]), x("/providerState", json!(""), &[]), x("/providerState", Value::Null, &[])]
}

fn v4_common() -> Vec<Vec<Alt>> {
  vec![
    vec![s("/key", json!("k1")), s("/key", json!("")), x("/key", json!(7), &[("/key", Some(json!("7")))])],
    vec![s("/pending", json!(true)), x("/pending", json!("x"), &[])],
    vec![s("/comments", json!({"text": ["one", "two"], "testname": "t"})), s("/comments", json!({"references": {"a": {"b": "c"}}, "n": 1, "f": false})), x("/comments", json!({"a": {}, "b": [], "c": "", "d": null, "e": 0}), &[("/comments", Some(json!({"e": 0})))]), x("/comments", json!("text"), &[])],
    vec![s("/pluginConfiguration", json!({"p": {"a": {"b": [1, null]}}, "q": {}})), x("/pluginConfiguration", json!({"p": 1, "q": {"x": "y"}}), &[("/pluginConfiguration", Some(json!({"p": {}, "q": {"x": "y"}})))]), x("/pluginConfiguration", json!({}), &[])],
    vec![s("/interactionMarkup", json!({"markup": "# m\n", "markupType": "COMMON_MARK"})), s("/interactionMarkup", json!({"markup": "m", "markupType": ""})), x("/interactionMarkup", json!({"markup": "", "markupType": "HTML"}), &[])],
    vec![s("/transport", json!("grpc")), s("/transport", json!("")), x("/transport", json!(1), &[("/transport", Some(json!("1")))])],
    states_v3(),
  ]
}

pub fn v4_bodies(at: &str) -> Vec<Alt> {
  let b = |content: Value, ct: &str, enc: Value| json!({"content": content, "contentType": ct, "encoded": enc});
  let mut v: Vec<Alt> = vec![
    b(json!({"a": [1, "x", null, {"b": 1.5}]}), "application/json", json!(false)), b(json!("text"), "application/json", json!(false)), b(json!(1), "application/json;charset=utf-8", json!(false)),
    b(json!("\"\""), "application/json", json!("JSON")), b(json!("null"), "application/json", json!("JSON")), b(json!("[1, 2"), "text/plain", json!(false)), b(json!("<a>é</a>"), "application/xml", json!(false)),
    b(json!("AAH/"), "application/octet-stream", json!("base64")), b(json!("eyJh"), "application/json", json!("base64")), b(json!("a=1&b=2"), "application/x-www-form-urlencoded", json!(false)), b(json!("AAH/"), "*/*", json!("base64")),
    json!({"content": "AAH/", "contentType": "text/plain", "contentTypeHint": "BINARY", "encoded": "base64"}), json!({"content": "abc", "contentType": "text/plain", "contentTypeHint": "TEXT", "encoded": false}),
    json!({"content": ""})].into_iter().map(|v| s(at, v)).collect();
  v.push(x(at, json!({"content": "abc"}), &[(at, Some(b(json!("abc"), "text/plain", json!(false))))]));
  v.push(x(at, json!({"content": {"a": 1}}), &[(at, Some(b(json!({"a": 1}), "application/json", json!(false))))]));
  v.push(x(at, json!({"content": "<a/>", "contentType": "text/xml; charset=UTF-8", "encoded": "other"}), &[(at, Some(b(json!("<a/>"), "text/xml;charset=utf-8", json!(false))))]));
  v.push(x(at, json!({}), &[(at, None)]));
  v.push(x(at, Value::Null, &[(at, None)]));
  v
}

fn rules_v3(v4: bool, request: bool) -> Vec<Vec<Alt>> {
  let mut v = vec![
    vec![s("/matchingRules/body/$.a", rule(json!({"match": "type"}))), s("/matchingRules/body/$.a", json!({"combine": "OR", "matchers": [{"match": "regex", "regex": "\\d+"}, {"match": "null"}]})),
      s("/matchingRules/body/$['x y'][*].é", rule(json!({"match": "type", "min": 1, "max": 3}))), s("/matchingRules/body/$", rule(json!({"match": "equality"}))),
      s("/matchingRules/body/$", rule(json!({"match": "contentType", "value": "image/png"}))), s("/matchingRules/body/$.*", rule(json!({"match": "values"}))),
      x("/matchingRules/body/$.a", json!({"matchers": [{"match": "integer"}]}), &[("/matchingRules/body/$.a", Some(rule(json!({"match": "integer"}))))])],
    vec![s("/matchingRules/header/A", rule(json!({"match": "include", "value": "é"}))), s("/matchingRules/header/X-Y", json!({"combine": "AND", "matchers": [{"match": "type"}, {"match": "regex", "regex": "a"}]}))],
  ];
  if request {
    v.push(vec![s("/matchingRules/path", rule(json!({"match": "regex", "regex": "/\\w+"})))]);
    v.push(vec![s("/matchingRules/query/a", rule(json!({"match": "date", "format": "yyyy"}))), s("/matchingRules/query/x[0]", rule(json!({"match": "decimal"})))]);
  } else if v4 {
    v.push(vec![s("/matchingRules/status/$", rule(json!({"match": "statusCode", "status": "success"}))), x("/matchingRules/status", rule(json!({"match": "statusCode", "status": [200, 201]})), &[("/matchingRules/status/", Some(rule(json!({"match": "statusCode", "status": [200, 201]}))))])]);
  }
  if v4 {
    v[0].push(s("/matchingRules/body/$.v4", json!({"combine": "AND", "matchers": [{"match": "notEmpty"}, {"match": "semver"}, {"match": "boolean"}]})));
    v[0].push(s("/matchingRules/body/$.ac", rule(json!({"match": "arrayContains", "variants": [{"index": 0, "rules": {"$.a": rule(json!({"match": "type"}))}, "generators": {"$.a": {"type": "RandomInt", "min": 1, "max": 2}}}, {"index": 1, "rules": {}}]}))));
    v[0].push(s("/matchingRules/body/$.ek", json!({"combine": "AND", "matchers": [{"match": "eachKey", "value": "k", "rules": [{"match": "regex", "regex": "a"}]}, {"match": "eachValue", "value": "v", "rules": [{"match": "type"}]}]})));
  }
  v
}
fn generators(request: bool) -> Vec<Vec<Alt>> {
  let mut v = vec![
    vec![s("/generators/body/$.a", json!({"type": "RandomInt", "min": 0, "max": 10})), s("/generators/body/$['x y'][*]", json!({"type": "Date", "format": "yyyy", "expression": "+ 1 day"})), s("/generators/body/$.p", json!({"type": "ProviderState", "expression": "${a}", "dataType": "INTEGER"}))],
    vec![s("/generators/header/A", json!({"type": "Uuid"})), s("/generators/header/$['X-Y']", json!({"type": "RandomHexadecimal", "digits": 4}))],
  ];
  if request {
    v.push(vec![s("/generators/path", json!({"type": "Regex", "regex": "/\\d"}))]);
    v.push(vec![s("/generators/query/a", json!({"type": "RandomBoolean"}))]);
    v.push(vec![s("/generators/method", json!({"type": "RandomString", "size": 3}))]);
  } else {
    v.push(vec![s("/generators/status", json!({"type": "RandomDecimal", "digits": 3}))]);
  }
  v
}

fn headers_v4() -> Vec<Vec<Alt>> {
  vec![vec![s("/headers", json!({}))],
    vec![s("/headers/A", json!(["x"])), s("/headers/A", json!(["x", "y"])), s("/headers/A", json!([""])), s("/headers/A", json!([])), x("/headers/A", json!("x, y"), &[("/headers/A", Some(json!(["x", "y"])))]), x("/headers/A", json!(1), &[("/headers/A", Some(json!(["1"])))])],
    vec![s("/headers/Date", json!(["Sat, 01 Jan 2000 00:00:00 GMT"])), x("/headers/Date", json!("Sat, 01 Jan 2000 00:00:00 GMT"), &[("/headers/Date", Some(json!(["Sat, 01 Jan 2000 00:00:00 GMT"])))])],
    vec![s("/headers/é", json!(["é, \"b\""]))]]
}
fn headers_v3() -> Vec<Vec<Alt>> {
  vec![vec![s("/headers", json!({}))],
    vec![s("/headers/A", json!("x")), s("/headers/A", json!("x, y")), s("/headers/A", json!("")), x("/headers/A", json!(["x", "y"]), &[("/headers/A", Some(json!("x, y")))]), x("/headers/A", json!(1), &[("/headers/A", Some(json!("1")))])],
    vec![s("/headers/Date", json!("Sat, 01 Jan 2000 00:00:00 GMT"))],
    vec![s("/headers/é", json!("é \"b\""))]]
}
/// Bodies before V4 go with the content type header.
fn bodies_v3() -> Vec<Alt> {
  let json_t = json!("application/json");
  vec![s("/body", json!({"a": [1, "x", null, {"b": 1.5}]})), s("/body", json!([])), s("/body", json!(1)), s("/body", json!(false)), s("/body", json!("")), s("/body", Value::Null), s("/body", json!("plain text é")), s("/body", json!("<a>é</a>")),
    m(&[("/headers/Content-Type", json!("text/plain")), ("/body", json!("{\"a\": 1}"))]), m(&[("/headers/content-type", json!("text/csv")), ("/body", json!("\"a\",b\n"))]),
    m(&[("/headers/Content-Type", json_t.clone()), ("/body", json!("text"))]), m(&[("/headers/Content-Type", json_t.clone()), ("/body", json!("a\"b\\c\n"))]), m(&[("/headers/Content-Type", json_t.clone()), ("/body", json!({"a": 1}))]), m(&[("/headers/Content-Type", json!("application/json;charset=utf-8")), ("/body", json!("12"))]),
    mx(&[("/headers/Content-Type", json_t.clone()), ("/body", json!("{\"a\":1}"))], &[("/headers/Content-Type", Some(json_t.clone())), ("/body", Some(json!({"a": 1})))]),
    mx(&[("/headers/Content-Type", json_t.clone()), ("/body", json!("\"a\""))], &[("/headers/Content-Type", Some(json_t)), ("/body", Some(json!("a")))]),
    m(&[("/headers/Content-Type", json!("image/png")), ("/body", json!("AAH/"))]), mx(&[("/headers/Content-Type", json!("application/octet-stream")), ("/body", json!("YWJj"))], &[("/headers/Content-Type", Some(json!("application/octet-stream"))), ("/body", Some(json!("abc")))]), mx(&[("/headers/Content-Type", json!("application/octet-stream")), ("/body", json!("YWJjZGVm"))], &[("/headers/Content-Type", Some(json!("application/octet-stream"))), ("/body", Some(json!("abcdef")))]), m(&[("/headers/Content-Type", json!("application/octet-stream")), ("/body", json!("YWJjZA=="))]),
    m(&[("/headers/Content-Type", json!("application/x-www-form-urlencoded")), ("/body", json!("a=1&b=2"))]), m(&[("/headers/Content-Type", json!("multipart/form-data;boundary=x")), ("/body", json!("--x\r\n\r\na\r\n--x--\r\n"))]), m(&[("/headers/Content-Type", json!("nonsense")), ("/body", json!("abc"))])]
}
fn request_line() -> Vec<Vec<Alt>> {
  vec![vec![s("/method", json!("PUT")), x("/method", json!("pAtch"), &[("/method", Some(json!("PATCH")))])],
    vec![s("/path", json!("/a b/%20/é?")), s("/path", json!(""))]]
}
fn query_v3() -> Vec<Vec<Alt>> {
  vec![vec![s("/query/a", json!(["1"])), s("/query/a", json!(["1", "", "é&="])), s("/query/a", json!([null])), s("/query/a", json!([]))],
    vec![s("/query/b[0]", json!(["x"]))],
    vec![x("/query", json!("q=1&q=2&a%20b=%26"), &[("/query", Some(json!({"q": ["1", "2"], "a b": ["&"]})))])]]
}
fn query_v2() -> Vec<Vec<Alt>> { vec![vec![s("/query", json!("a=1")), s("/query", json!("a=1&a=2&b=%26")), s("/query", json!("a&b=")), x("/query", json!("b=1&a=2"), &[("/query", Some(json!("a=2&b=1")))])]] }
fn rules_v2(request: bool) -> Vec<Vec<Alt>> {
  let mut v = vec![vec![s("/matchingRules/$.body.a", json!({"match": "type"})), s("/matchingRules/$.body['x y'][*]", json!({"match": "regex", "regex": "\\d"})), s("/matchingRules/$.body", json!({"match": "type", "min": 2})),
      x("/matchingRules/$.body.a", json!({"regex": "a+"}), &[("/matchingRules/$.body.a", Some(json!({"match": "regex", "regex": "a+"})))])],
    vec![x("/matchingRules/$.headers.A", json!({"match": "regex", "regex": "x"}), &[("/matchingRules/$.headers.A", Some(json!({"match": "regex", "regex": "x"})))]), s("/matchingRules/$.headers.B", json!({"match": "type"}))]];
  if request {
    v.push(vec![s("/matchingRules/$.path", json!({"match": "regex", "regex": "/x"}))]);
    v.push(vec![s("/matchingRules/$.query.a", json!({"match": "regex", "regex": "1"}))]);
  }
  v
}
fn statuses() -> Vec<Vec<Alt>> { vec![vec![s("/status", json!(404)), s("/status", json!(0)), s("/status", json!(65535))]] }

fn metadata_slots() -> Vec<Vec<Alt>> {
  vec![vec![s("/metadata", json!({"a": "b"})), s("/metadata", json!({"topic": "text/plain", "n": 1, "l": [1, {"x": null}], "z": null, "t": true})), s("/metadata", json!({"é": ""}))]]
}
fn contents_v3() -> Vec<Alt> {
  vec![s("/contents", json!({"a": [1, "x"]})), s("/contents", json!([])), s("/contents", json!("plain text")), s("/contents", json!("")), s("/contents", Value::Null), s("/contents", json!("<a/>")),
    m(&[("/metadata/contentType", json!("application/json")), ("/contents", json!("a\"b"))]), m(&[("/metadata/contentType", json!("application/json")), ("/contents", json!({"x": 1}))]), m(&[("/metadata/contentType", json!("text/plain")), ("/contents", json!("{}"))]),
    m(&[("/metadata/contentType", json!("image/png")), ("/contents", json!("AAH/"))]), m(&[("/metadata/contentType", json!("application/octet-stream")), ("/contents", json!("YWJjZGVm"))]), m(&[("/metadata/Content-Type", json!("application/octet-stream")), ("/contents", json!("YWJjZGVm"))])]
}

pub fn kinds() -> &'static Vec<Kind> {
  static K: OnceLock<Vec<Kind>> = OnceLock::new();
  K.get_or_init(|| {
    let http = json!({"description": "d", "request": {"method": "GET", "path": "/"}, "response": {"status": 200}});
    let mut v = vec![];
    for (name, version) in [("V1", PactSpecification::V1), ("V1.1", PactSpecification::V1_1), ("V2", PactSpecification::V2)] {
      let mut slots = vec![descriptions("interactions"), states_v1()];
      let mut q = request_line(); q.extend(query_v2()); q.extend(headers_v3()); q.push(bodies_v3()); q.extend(rules_v2(true));
      let mut r = statuses(); r.extend(headers_v3()); r.push(bodies_v3()); r.extend(rules_v2(false));
      slots.extend(under("/request", q)); slots.extend(under("/response", r));
      v.push(Kind { name, version, list: "interactions", base: http.clone(), base_out: http.clone(), slots });
    }
    let mut slots = vec![descriptions("interactions"), states_v3()];
    let mut q = request_line(); q.extend(query_v3()); q.extend(headers_v3()); q.push(bodies_v3()); q.extend(rules_v3(false, true)); q.extend(generators(true));
    let mut r = statuses(); r.extend(headers_v3()); r.push(bodies_v3()); r.extend(rules_v3(false, false)); r.extend(generators(false));
    slots.extend(under("/request", q)); slots.extend(under("/response", r));
    v.push(Kind { name: "V3 HTTP", version: PactSpecification::V3, list: "interactions", base: http.clone(), base_out: http.clone(), slots });
    let mut slots = vec![descriptions("messages"), states_v3()];
    slots.push(vec![s("/metadata/a", json!("b")), s("/metadata/a", json!({"l": [1, {"x": null}], "z": null, "t": true})), s("/metadata/é", json!("")), s("/metadata/n", Value::Null)]); slots.push(contents_v3()); slots.push(rules_v3(false, true).remove(0));
    slots.push(vec![s("/matchingRules/metadata/k", rule(json!({"match": "regex", "regex": "a"})))]);
    slots.push(generators(true).remove(0)); slots.push(vec![s("/generators/metadata/k", json!({"type": "Uuid"}))]);
    v.push(Kind { name: "V3 message", version: PactSpecification::V3, list: "messages", base: json!({"description": "d"}), base_out: json!({"description": "d", "metadata": {}}), slots });
    let mut slots = vec![descriptions("interactions")]; slots.extend(v4_common());
    let mut q = request_line(); q.extend(query_v3()); q.extend(headers_v4()); q.push(v4_bodies("/body")); q.extend(rules_v3(true, true)); q.extend(generators(true));
    let mut r = statuses(); r.extend(headers_v4()); r.push(v4_bodies("/body")); r.extend(rules_v3(true, false)); r.extend(generators(false));
    slots.extend(under("/request", q)); slots.extend(under("/response", r));
    let mut base = http; base["type"] = json!("Synchronous/HTTP");
    let mut out = base.clone(); out["pending"] = json!(false);
    v.push(Kind { name: "V4 HTTP", version: PactSpecification::V4, list: "interactions", base, base_out: out, slots });
    let part = || { let mut p = metadata_slots(); let mut c = v4_bodies("/contents");
      c.push(mx(&[("/metadata/contentType", json!("application/xml")), ("/contents", json!({"content": "abc"}))], &[("/metadata/contentType", Some(json!("application/xml"))), ("/contents", Some(json!({"content": "abc", "contentType": "application/xml", "encoded": false})))]));
      c.push(m(&[("/metadata/contentType", json!("image/png")), ("/contents", json!({"content": "AAH/", "contentType": "image/gif", "encoded": "base64"}))]));
      p.push(c); p.push(rules_v3(true, true).remove(0)); p.push(vec![s("/matchingRules/metadata/k", rule(json!({"match": "regex", "regex": "a"})))]); p.push(generators(true).remove(0)); p.push(vec![s("/generators/metadata/k", json!({"type": "Uuid"}))]); p };
    let mut slots = vec![descriptions("interactions")]; slots.extend(v4_common()); slots.extend(part());
    v.push(Kind { name: "V4 message", version: PactSpecification::V4, list: "interactions", base: json!({"type": "Asynchronous/Messages", "description": "d"}), base_out: json!({"type": "Asynchronous/Messages", "description": "d", "pending": false}), slots });
    let mut slots = vec![descriptions("interactions")]; slots.extend(v4_common());
    slots.push(vec![s("/response", json!([])), s("/response/1", json!({}))]);
    slots.extend(under("/request", part())); slots.extend(under("/response/0", part())); slots.extend(under("/response/1", part()));
    let base = json!({"type": "Synchronous/Messages", "description": "d", "request": {}, "response": [{}]});
    let mut out = base.clone(); out["pending"] = json!(false);
    v.push(Kind { name: "V4 sync message", version: PactSpecification::V4, list: "interactions", base, base_out: out, slots });
    v
  })
}

/// All sets of alternatives from at most `max` different slots.
pub fn choices(k: &Kind, max: usize) -> Vec<Vec<(usize, usize)>> { slot_choices(&k.slots, max) }
pub fn slot_choices(slots: &[Vec<Alt>], max: usize) -> Vec<Vec<(usize, usize)>> {
  let mut out = vec![vec![]];
  fn go(slots: &[Vec<Alt>], from: usize, left: usize, cur: &mut Vec<(usize, usize)>, out: &mut Vec<Vec<(usize, usize)>>) {
    if left == 0 { return; }
    for s in from..slots.len() {
      for a in 0..slots[s].len() { cur.push((s, a)); out.push(cur.clone()); go(slots, s + 1, left - 1, cur, out); cur.pop(); }
    }
  }
  go(slots, 0, max, &mut vec![], &mut out);
  out
}
/// Applies a set of alternatives to what is read and what is written.
pub fn apply(slots: &[Vec<Alt>], c: &[(usize, usize)], i: &mut Value, o: &mut Value) {
  for (s, a) in c {
    let a = &slots[*s][*a];
    for (p, v) in &a.input { put(i, p, Some(v.clone())); }
    for (p, v) in &a.output { put(o, p, v.clone()); }
  }
}
/// Alternatives for what a pact has besides its interactions.
pub fn pact_slots(v4: bool) -> Vec<Vec<Alt>> {
  let names = |at: &str, default: &str| { let p = format!("/{}", at); vec![
    s(&format!("{}/name", p), json!("")), s(&format!("{}/name", p), json!("é \"q\" / {}")), x(&format!("{}/name", p), json!(5), &[(&format!("{}/name", p), Some(json!("5")))]),
    x(&p, json!({}), &[(&format!("{}/name", p), Some(json!(default)))])] };
  let models = models_version();
  let mut v = vec![names("consumer", "consumer"), names("provider", "provider"),
    vec![s("/metadata/x", json!({"a": "b", "é": ""})), s("/metadata/x", json!({}))],
    vec![x("/metadata/pactRust", json!({"ffi": "1.2", "models": "0.0.1"}), &[("/metadata/pactRust", Some(json!({"ffi": "1.2", "models": models})))]), x("/metadata/pactRust", json!({"z": "1.2"}), &[("/metadata/pactRust", Some(json!({"z": "1.2", "models": models})))])]];
  if v4 {
    v.push(vec![s("/metadata/y", json!("text")), s("/metadata/y", json!([1, null, {"a": [true]}])), s("/metadata/y", Value::Null), s("/metadata/y", json!({"n": 1.5}))]);
    v.push(vec![s("/metadata/plugins", json!([{"name": "b", "version": "1", "configuration": {"k": {"x": [1, null]}}}, {"name": "a", "version": "", "configuration": {}}])),
      x("/metadata/plugins", json!([{"name": "b", "version": "1"}]), &[("/metadata/plugins", Some(json!([{"name": "b", "version": "1", "configuration": {}}])))]), x("/metadata/plugins", json!([]), &[])]);
  }
  v
}

impl Kind {
  pub fn label(&self, c: &[(usize, usize)]) -> String { format!("{} {}", self.name, c.iter().map(|(s, a)| self.slots[*s][*a].label.clone()).collect::<Vec<_>>().join(" ")) }
  /// The interaction that is read, and the one that must be written.
  pub fn interaction(&self, c: &[(usize, usize)]) -> (Value, Value) {
    let (mut i, mut o) = (self.base.clone(), self.base_out.clone());
    for (s, a) in c {
      let a = &self.slots[*s][*a];
      if a.input.is_empty() { put(&mut i, "/description", None); }
      for (p, v) in &a.input { put(&mut i, p, Some(v.clone())); }
      for (p, v) in &a.output { put(&mut o, p, v.clone()); }
    }
    (i, o)
  }
  pub fn pact(&self, interactions: Vec<Value>) -> Value {
    let mut p = json!({"consumer": {"name": "c"}, "provider": {"name": "p"}, "metadata": {"pactSpecification": {"version": self.version.version_str()}}});
    p[self.list] = Value::Array(interactions);
    p
  }
  /// What the metadata of a written pact must have.
  pub fn pact_out(&self, interactions: Vec<Value>) -> Value {
    let mut p = self.pact(interactions);
    p["metadata"]["pactRust"] = json!({"models": models_version()});
    p
  }
}
pub fn models_version() -> String { pact_models::PACT_RUST_VERSION.unwrap_or("unknown").to_string() }
