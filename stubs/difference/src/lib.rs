//! Offline stand-in for the `difference` crate: a line based LCS diff.
#[derive(Debug, Clone, PartialEq)]
pub enum Difference { Same(String), Add(String), Rem(String) }
#[derive(Debug, Clone)]
pub struct Changeset { pub diffs: Vec<Difference>, pub split: String, pub distance: i32 }
impl Changeset {
  pub fn new(orig: &str, edit: &str, split: &str) -> Changeset {
    let a: Vec<&str> = orig.split(split).collect();
    let b: Vec<&str> = edit.split(split).collect();
    let mut t = vec![vec![0usize; b.len() + 1]; a.len() + 1];
    for i in (0..a.len()).rev() { for j in (0..b.len()).rev() {
      t[i][j] = if a[i] == b[j] { t[i + 1][j + 1] + 1 } else { t[i + 1][j].max(t[i][j + 1]) };
    } }
    let (mut i, mut j, mut diffs, mut distance) = (0, 0, vec![], 0);
    fn push(d: &mut Vec<Difference>, n: Difference, sep: &str) {
      use Difference::*;
      match (d.last_mut(), &n) {
        (Some(Same(x)), Same(y)) | (Some(Add(x)), Add(y)) | (Some(Rem(x)), Rem(y)) => { x.push_str(sep); x.push_str(y); }
        _ => d.push(n)
      }
    }
    while i < a.len() || j < b.len() {
      if i < a.len() && j < b.len() && a[i] == b[j] { push(&mut diffs, Difference::Same(a[i].into()), split); i += 1; j += 1; }
      else if i < a.len() && (j >= b.len() || t[i + 1][j] >= t[i][j + 1]) { push(&mut diffs, Difference::Rem(a[i].into()), split); i += 1; distance += 1; }
      else { push(&mut diffs, Difference::Add(b[j].into()), split); j += 1; distance += 1; }
    }
    Changeset { diffs, split: split.into(), distance }
  }
}
