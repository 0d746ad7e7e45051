//! C03: merging pacts keeps every interaction exactly once.
use mccore::*;
use pact_models::pact::{Pact, ReadWritePact};
use pact_models::PactSpecification;
use serde_json::{json, Value};
use crate::c_pact::{load, P};

/// What identifies an interaction within a pact of its kind.
#[derive(Clone, Debug, PartialEq)]
struct Id { kind: String, desc: String, states: Value, key: Value }
fn id_of(i: &Value, v4: bool, v2: bool) -> Id {
  let states = if v2 { i["providerState"].clone() } else { match &i["providerStates"] { Value::Array(a) if a.is_empty() => Value::Null, s => s.clone() } };
  Id { kind: if v4 { i["type"].to_string() } else { String::new() }, desc: i["description"].as_str().unwrap_or("").into(), states, key: if v4 { i["key"].clone() } else { Value::Null } }
}
fn same(a: &Id, b: &Id) -> bool {
  if a.key.is_string() && b.key.is_string() { return a.key == b.key; }
  a.kind == b.kind && a.desc == b.desc && a.states == b.states
}
/// Differences that make two interactions with the same description and states a conflict.
fn conflict(a: &Value, b: &Value) -> bool {
  a["request"]["method"] != b["request"]["method"] || a["request"]["path"] != b["request"]["path"] || a["request"]["query"] != b["request"]["query"] || a["response"]["status"] != b["response"]["status"]
}

struct Pool { name: &'static str, version: PactSpecification, list: &'static str, items: Vec<Value> }
fn st(names: &[(&str, Option<i64>)]) -> Value { Value::Array(names.iter().map(|(n, p)| match p { Some(p) => json!({"name": n, "params": {"p": p}}), None => json!({"name": n}) }).collect()) }
fn http(desc: &str, states: Value, method: &str, path: &str, query: Value, status: u16, body: Value) -> Value {
  let mut v = json!({"description": desc, "request": {"method": method, "path": path}, "response": {"status": status}});
  if !states.is_null() { if states.is_string() { v["providerState"] = states; } else { v["providerStates"] = states; } }
  if !query.is_null() { v["request"]["query"] = query; }
  if !body.is_null() { v["response"]["body"] = body; }
  v
}
fn v4(mut v: Value, kind: &str, key: Option<&str>) -> Value {
  v["type"] = json!(kind);
  if let Some(k) = key { v["key"] = json!(k); }
  v["pending"] = json!(false);
  v
}
fn pools() -> Vec<Pool> {
  let n = Value::Null;
  let plain = |d: &str, s: Value| http(d, s, "GET", "/", Value::Null, 200, Value::Null);
  let msg = |d: &str, s: Value| { let mut m = json!({"description": d, "metadata": {}, "contents": "x"}); if !s.is_null() { m["providerStates"] = s; } m };
  vec![
    Pool { name: "V3 HTTP", version: PactSpecification::V3, list: "interactions", items: vec![
      plain("a", n.clone()), plain("a", st(&[("s", None)])), plain("a", st(&[("s", Some(1))])), plain("a", st(&[("s", Some(2))])), plain("b", n.clone()), plain("a", st(&[("t", None), ("s", None)])), plain("A", n.clone()),
      http("a", n.clone(), "PUT", "/", n.clone(), 200, n.clone()), http("b", n.clone(), "GET", "/x", n.clone(), 200, n.clone()), http("a", st(&[("s", None)]), "GET", "/", json!({"q": ["1"]}), 200, n.clone()), http("a", st(&[("s", Some(1))]), "GET", "/", n.clone(), 201, n.clone())] },
    Pool { name: "V3 HTTP parts", version: PactSpecification::V3, list: "interactions", items: { let mut v = vec![plain("b", n.clone()), plain("a", n.clone()), http("a", n.clone(), "GET", "/", n.clone(), 200, json!("x"))];
      for (part, attr, val) in [("request", "headers", json!({"A": "b"})), ("response", "headers", json!({"A": "b"})), ("request", "body", json!({"a": 1})), ("request", "matchingRules", json!({"path": {"combine": "AND", "matchers": [{"match": "type"}]}})), ("response", "generators", json!({"status": {"type": "RandomInt", "min": 1, "max": 2}}))] { let mut i = plain("a", n.clone()); i[part][attr] = val; v.push(i); }
      v } },
    Pool { name: "V2 HTTP", version: PactSpecification::V2, list: "interactions", items: vec![plain("b", n.clone()), plain("a", json!("s")), plain("a", n.clone()), plain("a", json!("t")), http("a", json!("s"), "GET", "/y", n.clone(), 200, n.clone())] },
    Pool { name: "V3 message", version: PactSpecification::V3, list: "messages", items: vec![
      msg("a", n.clone()), msg("a", st(&[("s", None)])), msg("a", st(&[("s", Some(1))])), msg("b", n.clone()), msg("a", st(&[("t", None), ("s", None)])), msg("A", n.clone()), msg("a", st(&[("t", None)]))] },
    Pool { name: "V4", version: PactSpecification::V4, list: "interactions", items: vec![
      v4(plain("a", n.clone()), "Synchronous/HTTP", None), v4(plain("a", st(&[("s", None)])), "Synchronous/HTTP", None), v4(plain("a", st(&[("s", Some(1))])), "Synchronous/HTTP", None), v4(json!({"description": "a", "contents": {"content": "x", "contentType": "text/plain", "encoded": false}}), "Asynchronous/Messages", None),
      v4(json!({"description": "a", "request": {}, "response": [{}]}), "Synchronous/Messages", None), v4(plain("b", n.clone()), "Synchronous/HTTP", None), v4(plain("b", st(&[("t", None)])), "Synchronous/HTTP", None)] },
    Pool { name: "V4 keys", version: PactSpecification::V4, list: "interactions", items: vec![
      v4(plain("a", n.clone()), "Synchronous/HTTP", Some("k2")), v4(plain("a", n.clone()), "Synchronous/HTTP", Some("k1")), v4(plain("b", n.clone()), "Synchronous/HTTP", Some("k0")), v4(plain("b", st(&[("t", None)])), "Asynchronous/Messages", Some("k3")), v4(plain("c", n.clone()), "Synchronous/HTTP", None), v4(plain("b", n.clone()), "Synchronous/HTTP", None)] },
  ]
}
impl Pool {
  fn lists(&self, max: usize) -> Vec<Vec<usize>> {
    let (isv4, v2) = (self.version == PactSpecification::V4, self.version < PactSpecification::V3);
    let ids: Vec<Id> = self.items.iter().map(|i| id_of(i, isv4, v2)).collect();
    (0..seq_count(self.items.len(), max)).map(|i| seq_at(i, self.items.len())).filter(|l| (0..l.len()).all(|i| (0..i).all(|j| !same(&ids[l[i]], &ids[l[j]])))).collect()
  }
  fn doc(&self, l: &[usize], consumer: &str, provider: &str) -> Value {
    let mut d = json!({"consumer": {"name": consumer}, "provider": {"name": provider}, "metadata": {"pactSpecification": {"version": self.version.version_str()}}});
    d[self.list] = Value::Array(l.iter().map(|i| self.items[*i].clone()).collect());
    d
  }
  fn written(&self, p: &P) -> Vec<Value> { p.to_json(self.version).unwrap()[self.list].as_array().cloned().unwrap_or_default() }
}
fn cmp_docs(a: &[Value], b: &[Value]) -> bool { let s = |x: &[Value]| { let mut v: Vec<String> = x.iter().map(|i| i.to_string()).collect(); v.sort(); v }; s(a) == s(b) }

pub fn c03(run: &Run) {
  for pool in pools() {
    let max = if run.thorough && pool.items.len() < 9 { 4 } else { 3 };
    let lists = pool.lists(max);
    let (isv4, v2) = (pool.version == PactSpecification::V4, pool.version < PactSpecification::V3);
    let n = lists.len() as u64;
    let total = if run.thorough { 7 } else { 5 };
    run.explore(pool.name, &format!("every pair of lists of up to {} of {} interactions (at most {} together), in every order, merged, merged again and merged the other way", max, pool.items.len(), total), n * n, |i, rec| {
      let (la, lb) = (&lists[(i / n) as usize], &lists[(i % n) as usize]);
      if la.len() + lb.len() > total { return; }
      rec.case(format!("{} {:?} + {:?}", pool.name, la, lb));
      let (a, b) = (load(&pool.doc(la, "c", "p")).unwrap(), load(&pool.doc(lb, "c", "p")).unwrap());
      let expect_conflict = !isv4 && pool.list == "interactions" && la.iter().any(|x| lb.iter().any(|y| same(&id_of(&pool.items[*x], isv4, v2), &id_of(&pool.items[*y], isv4, v2)) && conflict(&pool.items[*x], &pool.items[*y])));
      let m = match rec.no_panic("panic", || a.merge(&*b)) { Some(m) => m, None => return };
      rec.steps(1);
      rec.check(m.is_err() == expect_conflict, "conflict", || format!("{:?}", m.as_ref().err()));
      let Ok(m) = m else { rec.outcome("conflict"); rec.trace(); return };
      if expect_conflict { return; }
      let (wa, wb, wm) = (pool.written(&a), pool.written(&b), pool.written(&m));
      rec.state(&format!("{:?}", wm));
      let ids: Vec<Id> = wm.iter().map(|i| id_of(i, isv4, v2)).collect();
      for (w, who) in [(&wa, "its own"), (&wb, "the other")] { for x in w.iter() {
        rec.check(ids.iter().any(|j| same(j, &id_of(x, isv4, v2))), "lost", || format!("an interaction of {} pact is lost: {}\n{:?}", who, x, wm));
      } }
      rec.check(wm.len() >= wa.len().max(wb.len()), "lost", || format!("{} + {} interactions become {}", wa.len(), wb.len(), wm.len()));
      for x in &wm { rec.check(wa.contains(x) || wb.contains(x), "invented", || format!("{} is in neither pact", x)); }
      for i in 0..ids.len() { for j in 0..i { rec.check(!same(&ids[i], &ids[j]) || (pool.name == "V4 keys" && (ids[i].key.is_null() != ids[j].key.is_null())), "twice", || format!("{} is there twice: {:?}", wm[i], wm)); } }
      for j in 0..wm.len() { rec.check(!wm[..j].contains(&wm[j]), "twice", || format!("{} is there twice: {:?}", wm[j], wm)); }
      for (other, what) in [(&b, "again"), (&a, "first again")] {
        match rec.no_panic("panic", || m.merge(&**other)) { Some(Ok(m2)) => { rec.check(cmp_docs(&pool.written(&m2), &wm) || ((pool.name == "V4 keys" || pool.name.ends_with("parts")) && m2.interactions().len() == wm.len()), "again", || format!("merging the {} changes {:?} to {:?}", what, wm, pool.written(&m2))); }, Some(Err(e)) => rec.fail("again", e.to_string()), None => return }
        rec.steps(1);
      }
      match rec.no_panic("panic", || m.merge(&*m)) { Some(Ok(m2)) => { rec.check(pool.written(&m2) == wm, "itself", || format!("{:?} becomes {:?}", wm, pool.written(&m2))); } Some(Err(e)) => rec.fail("itself", e.to_string()), None => return };
      match rec.no_panic("panic", || b.merge(&*a)) { Some(Ok(r)) => {
        let idr: Vec<Id> = pool.written(&r).iter().map(|i| id_of(i, isv4, v2)).collect();
        rec.check(idr.len() == ids.len() && idr.iter().all(|x| ids.iter().any(|y| same(x, y))), "other way", || format!("{:?} but {:?}", wm, pool.written(&r)));
      } Some(Err(e)) => rec.fail("other way", e.to_string()), None => return };
      rec.check(m.consumer().name == "c" && m.provider().name == "p", "names", || "names".into());
      rec.steps(3);
      rec.outcome(format!("{} interactions", wm.len()));
      rec.trace();
    });
  }
  // names
  let ps = pools();
  let names = ["c", "p", "C", ""];
  run.explore("names", "every pair of kinds x every pair of consumer and provider names", (ps.len() * ps.len() * 256) as u64, |i, rec| {
    let i = i as usize;
    let n: Vec<&str> = (0..4).map(|k| names[i >> (2 * k) & 3]).collect();
    let (x, y) = (&ps[i / 256 % ps.len()], &ps[i / 256 / ps.len()]);
    rec.case(format!("{} {:?} + {}", x.name, n, y.name));
    let (a, b) = (load(&x.doc(&[0], n[0], n[1])).unwrap(), load(&y.doc(&[0], n[2], n[3])).unwrap());
    let differ = n[0] != n[2] || n[1] != n[3];
    let Some(m) = rec.no_panic("panic", || a.merge(&*b)) else { return };
    rec.steps(1);
    // kinds that can be held by the pact they are merged into
    let fits = x.version == PactSpecification::V4 || ((x.list == "messages") == (y.list == "messages"));
    if differ { rec.check(m.is_err(), "different names", || format!("merged")); rec.outcome("different names"); }
    else if !fits { rec.check(m.is_err(), "different kinds", || format!("merged")); rec.outcome("different kinds"); }
    else { rec.outcome(if m.is_ok() { "merged" } else { "refused" }); rec.check(m.is_ok() || x.version < PactSpecification::V4, "same names", || format!("{:?}", m.err())); }
    rec.trace();
  });
  // plugins of V4 pacts
  let plugin = [json!([]), json!([{"name": "x", "version": "1", "configuration": {"a": 1}}]), json!([{"name": "x", "version": "2", "configuration": {"a": 1}}]), json!([{"name": "x", "version": "1", "configuration": {"a": {"b": "c"}}}, {"name": "y", "version": "1", "configuration": {}}]),
    json!([{"name": "x", "version": "1", "configuration": {"l": [1, 2]}}]), json!([{"name": "y", "version": "1", "configuration": {"k": {"l": [1]}}}])];
  run.explore("plugins", "every pair of plugin lists", (plugin.len() * plugin.len()) as u64, |i, rec| {
    let (x, y) = (&plugin[i as usize / plugin.len()], &plugin[i as usize % plugin.len()]);
    rec.case(format!("{} + {}", x, y));
    let doc = |p: &Value| json!({"consumer": {"name": "c"}, "provider": {"name": "p"}, "interactions": [], "metadata": {"pactSpecification": {"version": "4.0"}, "plugins": p}});
    let (a, b) = (load(&doc(x)).unwrap(), load(&doc(y)).unwrap());
    let Some(Ok(m)) = rec.no_panic("panic", || a.merge(&*b)) else { rec.fail("merge", "not merged"); return };
    let pl = |p: &dyn Pact| p.to_json(PactSpecification::V4).unwrap()["metadata"]["plugins"].as_array().cloned().unwrap_or_default();
    let pm = pl(&*m);
    for p in x.as_array().unwrap().iter().chain(y.as_array().unwrap()) { rec.check(pm.iter().filter(|q| q["name"] == p["name"] && q["version"] == p["version"]).count() == 1, "plugin", || format!("{} in {:?}", p, pm)); }
    for (o, what) in [(&b, "the other"), (&m, "itself")] {
      if let Some(Ok(m2)) = rec.no_panic("panic", || m.merge(&**o)) { rec.check(pl(&*m2) == pm, "plugin again", || format!("merging {} again: {:?} becomes {:?}", what, pm, pl(&*m2))); }
    }
    rec.state(&format!("{:?}", pm)); rec.steps(4); rec.trace(); rec.outcome(format!("{} plugins", pm.len()));
  });
}
