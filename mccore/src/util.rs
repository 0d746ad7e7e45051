//! Small helpers for building cases.
use serde_json::Value;

/// All permutations of 0..n.
pub fn permutations(n: usize) -> Vec<Vec<usize>> {
  if n == 0 { return vec![vec![]]; }
  let mut out = vec![];
  for p in permutations(n - 1) {
    for i in 0..=p.len() { let mut q = p.clone(); q.insert(i, n - 1); out.push(q); }
  }
  out
}

/// Every node of a JSON document, as JSON-pointer-like segment lists, in document order (root first).
pub fn nodes(v: &Value) -> Vec<Vec<Seg>> {
  fn go(v: &Value, at: &mut Vec<Seg>, out: &mut Vec<Vec<Seg>>) {
    out.push(at.clone());
    match v {
      Value::Object(m) => for (k, c) in m { at.push(Seg::Key(k.clone())); go(c, at, out); at.pop(); },
      Value::Array(a) => for (i, c) in a.iter().enumerate() { at.push(Seg::Idx(i)); go(c, at, out); at.pop(); },
      _ => {}
    }
  }
  let mut out = vec![]; go(v, &mut vec![], &mut out); out
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Seg { Key(String), Idx(usize) }

pub fn seg_string(path: &[Seg]) -> String {
  let mut s = String::from("$");
  for p in path { match p { Seg::Key(k) => { s.push('.'); s.push_str(k) }, Seg::Idx(i) => s.push_str(&format!("[{}]", i)) } }
  s
}
pub fn get_mut<'a>(v: &'a mut Value, path: &[Seg]) -> Option<&'a mut Value> {
  let mut cur = v;
  for p in path {
    cur = match p { Seg::Key(k) => cur.as_object_mut()?.get_mut(k)?, Seg::Idx(i) => cur.as_array_mut()?.get_mut(*i)? };
  }
  Some(cur)
}
pub fn get<'a>(v: &'a Value, path: &[Seg]) -> Option<&'a Value> {
  let mut cur = v;
  for p in path {
    cur = match p { Seg::Key(k) => cur.as_object()?.get(k)?, Seg::Idx(i) => cur.as_array()?.get(*i)? };
  }
  Some(cur)
}
