//! C19: date and time patterns: what they format and what they accept.
use crate::c_dates::{civil, days_from_civil};
use crate::os;
use mccore::*;
use pact_models::time_utils::{generate_string, parse_pattern, validate_datetime};

/// A local instant.
#[derive(Clone, Copy, Debug)]
pub struct Inst { y: i64, mo: i64, d: i64, h: i64, mi: i64, s: i64, ns: i64, off: i64 }
#[derive(Clone, Debug, PartialEq)]
pub enum F { L(char, usize), T(String) }
impl Inst {
  pub fn unix(&self) -> i64 { days_from_civil(self.y, self.mo, self.d) * 86400 + self.h * 3600 + self.mi * 60 + self.s - self.off }
  pub fn from_unix(t: i64, ns: i64, off: i64) -> Inst {
    let l = t + off; let (y, mo, d) = civil(l.div_euclid(86400)); let r = l.rem_euclid(86400);
    Inst { y, mo, d, h: r / 3600, mi: r / 60 % 60, s: r % 60, ns, off }
  }
  pub fn to_at(&self) -> crate::c_dates::At { crate::c_dates::At { day: days_from_civil(self.y, self.mo, self.d), ms: (self.h * 3600 + self.mi * 60 + self.s) * 1000 + self.ns / 1_000_000 } }
  pub fn of_at(a: crate::c_dates::At, ns: i64, off: i64) -> Inst { let (y, mo, d) = civil(a.day); let s = a.ms / 1000; Inst { y, mo, d, h: s / 3600, mi: s / 60 % 60, s: s % 60, ns: a.ms % 1000 * 1_000_000 + ns % 1_000_000, off } }
  pub fn ns(&self) -> i64 { self.ns }
  /// The instant in a pattern all of whose fields have a defined text.
  pub fn render(&self, p: &str) -> String { pattern(p).unwrap().iter().map(|f| text(f, self).unwrap()).collect() }
  fn weekday(&self) -> usize { (days_from_civil(self.y, self.mo, self.d) + 3).rem_euclid(7) as usize }
  fn yday(&self) -> i64 { days_from_civil(self.y, self.mo, self.d) - days_from_civil(self.y, 1, 1) + 1 }
}
const MONTHS: [&str; 12] = ["January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December"];
const DAYS: [&str; 7] = ["Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday", "Sunday"];

/// How many letters a field may have; None for letters that are not fields.
fn max_count(c: char) -> Option<usize> {
  Some(match c { 'G' | 'M' | 'L' | 'E' | 'e' | 'Q' | 'x' | 'X' | 'Z' => 5, 'a' | 'c' => 1, 'w' | 'W' | 'F' | 'd' | 'q' | 'h' | 'H' | 'k' | 'K' | 'm' | 's' | 'V' => 2, 'O' | 'z' => 4,
    'y' | 'Y' | 'u' | 'D' | 'S' | 'n' | 'A' | 'N' => usize::MAX, _ => return None })
}
pub fn pattern(p: &str) -> Option<Vec<F>> {
  let c: Vec<char> = p.chars().collect();
  let (mut out, mut i): (Vec<F>, usize) = (vec![], 0);
  while i < c.len() {
    if c[i] == '\'' {
      if c.get(i + 1) == Some(&'\'') && c.get(i + 2) != Some(&'\'') { out.push(F::T("'".into())); i += 2; continue; }
      let (mut t, mut j) = (String::new(), i + 1);
      loop {
        match c.get(j)? { '\'' if c.get(j + 1) == Some(&'\'') => { t.push('\''); j += 2; } '\'' => { break; } ch => { t.push(*ch); j += 1; } }
      }
      if t.is_empty() { t.push('\''); }
      out.push(F::T(t)); i = j + 1;
    } else if c[i].is_ascii_alphabetic() {
      let n = c[i..].iter().take_while(|x| **x == c[i]).count();
      if n > max_count(c[i])? { return None; }
      out.push(F::L(c[i], n)); i += n;
    } else if c[i].is_ascii_digit() || "{}[]".contains(c[i]) { return None; }
    else { out.push(F::T(c[i].to_string())); i += 1; }
  }
  if out.is_empty() { None } else { Some(out) }
}
fn text(f: &F, t: &Inst) -> Option<String> {
  let (c, n) = match f { F::T(s) => return Some(s.clone()), F::L(c, n) => (*c, *n) };
  let (sign, oh, om, os) = (if t.off < 0 { "-" } else { "+" }, t.off.abs() / 3600, t.off.abs() / 60 % 60, t.off.abs() % 60);
  let secs = t.h * 3600 + t.mi * 60 + t.s;
  Some(match c {
    'G' => "AD".into(),
    'y' | 'u' => if n == 2 { format!("{:02}", t.y % 100) } else { format!("{:0w$}", t.y, w = n.max(4)) },
    'D' => format!("{:03}", t.yday()),
    'M' if n > 3 => MONTHS[t.mo as usize - 1].into(), 'M' if n == 3 => MONTHS[t.mo as usize - 1][..3].into(), 'M' | 'L' => format!("{:02}", t.mo),
    'd' => format!("{:02}", t.d),
    'Q' if n == 3 => format!("Q{}", (t.mo + 2) / 3), 'Q' if n > 3 => format!("{} quarter", ["1st", "2nd", "3rd", "4th"][(t.mo as usize - 1) / 3]),
    'Q' | 'q' => format!("{:0w$}", (t.mo + 2) / 3, w = n),
    'E' if n > 3 => DAYS[t.weekday()].into(), 'E' => DAYS[t.weekday()][..3].into(),
    'e' if n > 3 => DAYS[t.weekday()].into(), 'e' if n == 3 => DAYS[t.weekday()][..3].into(), 'e' | 'c' => (t.weekday() + 1).to_string(),
    'a' => if t.h < 12 { "AM".into() } else { "PM".into() },
    'h' => format!("{:02}", (t.h + 11) % 12 + 1), 'K' => format!("{:02}", t.h % 12), 'k' => format!("{:02}", (t.h + 23) % 24 + 1), 'H' => format!("{:02}", t.h),
    'm' => format!("{:02}", t.mi), 's' => format!("{:02}", t.s),
    'S' => format!("{:09}", t.ns).chars().chain(std::iter::repeat('0')).take(n).collect(),
    'n' => format!("{:09}", t.ns), 'A' => (secs * 1000 + t.ns / 1_000_000).to_string(), 'N' => (secs * 1_000_000_000 + t.ns).to_string(),
    'X' if t.off == 0 => "Z".into(),
    'x' | 'X' => match n { 1 if om == 0 => format!("{}{:02}", sign, oh), 1 | 2 => format!("{}{:02}{:02}", sign, oh, om), 4 if os == 0 => format!("{}{:02}{:02}", sign, oh, om),
      4 => format!("{}{:02}{:02}{:02}", sign, oh, om, os), 5 if os != 0 => format!("{}{:02}:{:02}:{:02}", sign, oh, om, os), _ => format!("{}{:02}:{:02}", sign, oh, om) },
    'Z' => match n { 4 if t.off == 0 => "GMT".into(), 4 => format!("GMT{}{:02}:{:02}", sign, oh, om), 5 => format!("{}{:02}:{:02}", sign, oh, om), _ => format!("{}{:02}{:02}", sign, oh, om) },
    'O' => if n == 4 { format!("GMT{}{:02}:{:02}", sign, oh, om) } else if om == 0 { format!("GMT{}{}", sign, oh) } else { format!("GMT{}{}:{:02}", sign, oh, om) },
    'w' => { // ISO week: that of the year which the Thursday of the week lies in
      let thursday = days_from_civil(t.y, t.mo, t.d) - t.weekday() as i64 + 3; let y = civil(thursday).0;
      format!("{:02}", (thursday - days_from_civil(y, 1, 1)) / 7 + 1)
    }
    _ => return None, // week-based year, week of month, zone names
  })
}
enum V { Bad, Unsure, Ok(Option<u64>, usize) }
fn num(s: &str, max: usize, lo: u64, hi: u64) -> V {
  let n = s.bytes().take(max).take_while(|b| b.is_ascii_digit()).count();
  match s[..n].parse::<u64>() { Ok(v) if v >= lo && v <= hi => V::Ok(Some(v), n), _ => V::Bad }
}
fn digits(s: &str, max: usize) -> V { let n = s.bytes().take(max).take_while(|b| b.is_ascii_digit()).count(); if n == 0 { V::Bad } else { V::Ok(s[n.saturating_sub(18)..n].parse().ok(), n) } }
fn word(s: &str, words: &[String]) -> V {
  match words.iter().position(|w| s.len() >= w.len() && s.is_char_boundary(w.len()) && s[..w.len()].eq_ignore_ascii_case(w)) { Some(i) => V::Ok(Some(i as u64 + 1), words[i].len()), None => V::Bad }
}
fn two(s: &str, hi: u64) -> Option<(u64, usize)> { match num(s, 2, 0, hi) { V::Ok(v, n) => Some((v.unwrap(), n)), _ => None } }
/// sign hours [:] minutes [[:] seconds], greedily.
fn offset(s: &str, colon: bool, minutes: u8, seconds: bool) -> V {
  if !s.starts_with(['+', '-']) { return V::Bad; }
  let mut i = 1;
  let h = match two(&s[i..], 23) { Some((h, n)) => { i += n; h } None => return V::Bad };
  let sep = colon as usize;
  let part = |i: usize, hi| if colon && !s[i..].starts_with(':') { None } else { two(&s[i + sep..], hi).map(|(_, n)| n + sep) };
  if minutes > 0 {
    match part(i, 59) { Some(n) => { i += n; if seconds { if let Some(n) = part(i, 60) { i += n; } } } None if minutes == 2 => return V::Bad, None => {} }
  }
  if h > 18 { V::Unsure } else { V::Ok(None, i) }
}
fn accept(f: &F, s: &str) -> V {
  let (c, n) = match f { F::T(t) => return if s.starts_with(t.as_str()) { V::Ok(None, t.len()) } else { V::Bad }, F::L(c, n) => (*c, *n) };
  let low = |w: &[&str]| w.iter().map(|w| w.to_string()).collect::<Vec<_>>();
  let short = |w: &[&str]| w.iter().map(|w| w[..3].to_string()).collect::<Vec<_>>();
  let zones = ["AEST", "BST", "EST", "PST", "GMT", "CET"];
  match c {
    'G' => word(s, &low(&["AD", "BC"])),
    'y' | 'Y' | 'u' => digits(s, if n == 2 { 2 } else { n.max(4) }),
    'D' => match num(s, 3, 1, 366) { V::Ok(Some(v), _) if v > 356 => V::Unsure, v => v },
    'M' if n > 3 => word(s, &low(&MONTHS)), 'M' if n == 3 => word(s, &short(&MONTHS)), 'M' | 'L' => num(s, 2, 1, 12),
    'd' => num(s, 2, 1, 31),
    'Q' if n == 3 => word(s, &low(&["Q1", "Q2", "Q3", "Q4"])), 'Q' if n > 3 => word(s, &low(&["1st quarter", "2nd quarter", "3rd quarter", "4th quarter"])), 'Q' | 'q' => num(s, 2, 1, 4),
    'E' | 'e' if n > 3 => word(s, &low(&DAYS)), 'E' => word(s, &short(&DAYS)), 'e' if n == 3 => word(s, &short(&DAYS)), 'e' | 'c' => num(s, 1, 1, 7),
    'a' => word(s, &low(&["AM", "PM"])),
    'h' => num(s, 2, 1, 12), 'K' => num(s, 2, 0, 11), 'k' => num(s, 2, 1, 24), 'H' => num(s, 2, 0, 23), 'm' => num(s, 2, 0, 59), 's' => num(s, 2, 0, 60),
    'S' => digits(s, n),
    'n' => num(s, usize::MAX, 0, 999_999_999), 'A' => num(s, usize::MAX, 0, 86_399_999), 'N' => num(s, usize::MAX, 0, 86_399_999_999_999),
    'w' => match num(s, 2, 1, 56) { V::Ok(Some(v), _) if v > 53 => V::Unsure, v => v },
    'W' => num(s, 2, 1, 5), 'F' => num(s, 2, 0, 4),
    'X' if s.starts_with('Z') => V::Ok(None, 1),
    'x' | 'X' => match n { 1 => offset(s, false, 1, false), 2 => offset(s, false, 2, false), 3 => offset(s, true, 2, false), 4 => offset(s, false, 2, true), _ => offset(s, true, 2, true) },
    'Z' if n < 4 => offset(s, false, 2, false), 'Z' if n == 5 => offset(s, true, 2, false),
    'Z' => if s.starts_with("GMT") || s.starts_with("UTC") { match offset(&s[3..], true, 2, false) { V::Ok(_, k) => V::Ok(None, k + 3), V::Bad => V::Ok(None, 3), v => v } } else { V::Bad },
    'O' => if s.starts_with("GMT") || s.starts_with("UTC") { match offset(&s[3..], true, if n == 4 { 2 } else { 1 }, false) { V::Ok(_, k) => V::Ok(None, k + 3), v => v } } else { V::Bad },
    'z' if n < 4 => { let k = s.bytes().take(4).take_while(|b| b.is_ascii_uppercase()).count(); if zones.contains(&&s[..k]) { V::Ok(None, k) } else if k < 3 { V::Bad } else if s[..k].starts_with("QX") { V::Bad } else { V::Unsure } }
    'z' => V::Bad,
    'V' => { let k = s.bytes().take_while(|b| b.is_ascii_alphanumeric() || b"/_+-".contains(b)).count(); if ["Europe/Warsaw", "America/New_York", "America/Argentina/Buenos_Aires", "Australia/Sydney"].contains(&&s[..k]) { V::Ok(None, k) } else if s[..k].starts_with("Mars") || !s[..k].contains('/') && s[..k].chars().all(|c| !c.is_ascii_uppercase()) { V::Bad } else { V::Unsure } }
    _ => V::Bad,
  }
}
/// None if either answer would do.
pub fn valid(p: &[F], s: &str) -> Option<bool> {
  let (mut rest, mut day, mut month, mut year) = (s, None, None, None);
  for f in p {
    match accept(f, rest) {
      V::Bad => return Some(false), V::Unsure => return None,
      V::Ok(v, n) => {
        rest = &rest[n..];
        match f { F::L('d', _) => day = day.or(v), F::L('M', _) | F::L('L', _) => month = month.or(v), F::L('y' | 'Y' | 'u', _) => year = year.or(v.or(Some(0))), _ => {} }
      }
    }
  }
  if !rest.is_empty() { return Some(false); }
  if let (Some(d), Some(m)) = (day, month) {
    let y = year.unwrap_or(2000) % 400 + 2000;
    let len = match m { 2 if y % 4 == 0 && (y % 100 != 0 || y % 400 == 0) => 29, 2 => 28, 4 | 6 | 9 | 11 => 30, _ => 31 };
    if d > len { return Some(false); }
  }
  Some(true)
}
fn check_valid(rec: &mut Rec, p: &str, s: &str) {
  rec.trace(); rec.steps(1);
  let want = match pattern(p) { None => Some(false), Some(f) => valid(&f, s) };
  if let Some(got) = rec.no_panic("validate", || validate_datetime(s, p)) {
    rec.outcome(match want { None => "unspecified", Some(true) => "accepted", Some(false) => "rejected" });
    if let Some(w) = want { rec.check(w == got.is_ok(), "validate", || format!("{:?} against {:?}: expected {}, got {:?}", s, p, if w { "accepted" } else { "rejected" }, got)); }
  }
}
pub fn generate_at(p: &str, t: &Inst) -> Result<String, String> { let _g = os::At::unix(t.unix(), t.ns); generate_string(p) }
fn check_generate(rec: &mut Rec, p: &str, t: &Inst, must_validate: bool) {
  rec.trace(); rec.steps(2);
  let fields = pattern(p);
  let want: Option<Option<String>> = fields.as_ref().map(|f| f.iter().map(|f| text(f, t)).collect::<Option<Vec<_>>>().map(|v| v.concat()));
  if let Some(got) = rec.no_panic("generate", || generate_at(p, t)) {
    match (&want, &got) {
      (None, g) => { rec.outcome("bad-pattern"); rec.check(g.is_err(), "generate-bad-pattern", || format!("{:?} gave {:?}", p, g)); }
      (Some(None), _) => { rec.outcome("unsupported"); }
      (Some(Some(w)), g) => {
        rec.outcome("text");
        rec.eq("generate", &Ok(w.clone()), g);
        if let Ok(s) = g {
          let ok = rec.no_panic("validate-own", || validate_datetime(s, p));
          let v = valid(fields.as_ref().unwrap(), s);
          if let Some(ok) = ok { if must_validate || v == Some(true) { if v.is_some() { rec.check(ok.is_ok(), "validate-own", || format!("{:?} formatted with {:?} is not accepted: {:?}", s, p, ok)); } } else if v == Some(false) { rec.check(ok.is_err(), "validate-own", || format!("{:?} accepted by {:?}", s, p)); } }
        }
      }
    }
  }
}

pub fn c19(run: &Run) {
  let letters: Vec<char> = ('a'..='z').chain('A'..='Z').collect();
  let mut insts = vec![];
  for (y, mo, d) in [(2000, 1, 1), (2000, 2, 29), (2001, 3, 31), (2004, 12, 31), (2005, 1, 1), (2010, 1, 3), (1999, 7, 4), (2023, 9, 30), (2024, 5, 5), (2024, 12, 30), (1970, 1, 3), (9999, 12, 31), (2038, 1, 19), (2026, 12, 28), (2021, 4, 9), (2022, 8, 10), (2020, 10, 17), (2019, 11, 20)] {
    for (h, mi, s, ns) in [(0, 0, 0, 0), (1, 2, 3, 4_005_006), (11, 59, 59, 999_999_999), (12, 0, 0, 100_000_000), (13, 30, 9, 20_000_000), (23, 59, 59, 7)] { insts.push((y, mo, d, h, mi, s, ns)); }
  }
  let at = |x: &(i64, i64, i64, i64, i64, i64, i64), off| Inst { y: x.0, mo: x.1, d: x.2, h: x.3, mi: x.4, s: x.5, ns: x.6, off };
  let some: Vec<_> = insts.iter().step_by(if run.thorough { 5 } else { 13 }).cloned().collect();
  std::env::set_var("TZ", "UTC0");
  // Every pattern of up to three letters.
  let n = if run.thorough { 4 } else { 3 };
  run.explore("letters", "every sequence of letters up to a length: accepted as a pattern exactly when its letters are documented, and formatted as they say", seq_count(52, n), |i, rec| {
    let p: String = seq_at(i, 52).iter().map(|k| letters[*k]).collect();
    rec.case(p.clone()); rec.state(&p);
    let f = pattern(&p);
    if let Some(got) = rec.no_panic("parse", || parse_pattern(&p)) {
      rec.eq("parse", &f.as_ref().map(|f| f.len()), &got.ok().map(|t| t.len()));
    }
    if f.is_some() { for t in [&some[1], &some[4]] { check_generate(rec, &p, &at(t, 0), false); } }
  });
  let sym = ["y", "M", "d", "'", "-", " ", "o", "[", "1", "é", "%", "T"];
  let n = if run.thorough { 7 } else { 5 };
  run.explore("quoting", "every sequence of letters, quotes and other characters up to a length", seq_count(sym.len(), n), |i, rec| {
    let p: String = seq_at(i, sym.len()).iter().map(|k| sym[*k]).collect();
    rec.case(format!("{:?}", p)); rec.state(&p);
    check_generate(rec, &p, &at(&some[3], 0), false);
  });
  // Every field with every count, on every instant and zone.
  let mut fields: Vec<String> = vec![];
  for c in &letters { if let Some(m) = max_count(*c) { for n in 1..=m.min(12) { fields.push(c.to_string().repeat(n)); } if m == usize::MAX { for n in [19, 20, 21, 40] { fields.push(c.to_string().repeat(n)); } } } }
  for (tz, off) in [("UTC0", 0), ("<+05>-05:30", 19800), ("<-09>+09:30", -34200), ("<+13>-13", 46800), ("<-03>3", -10800), ("<+12>-12:45", 45900), ("<+01>-1", 3600)] {
    std::env::set_var("TZ", tz);
    run.pairs(&format!("fields{}", off), "every field with every count on every boundary instant, in this zone: the documented text, which validates", &fields, &insts, |p, t, rec| {
      rec.case(format!("{} at {:?} {}", p, t, off)); rec.state(&(p, t));
      check_generate(rec, p, &at(t, off), true);
    });
  }
  std::env::set_var("TZ", "<+05>-05:30");
  // Every pair of fields.
  let small: Vec<String> = fields.iter().filter(|f| f.len() <= 5).cloned().collect();
  let seps = ["", " ", "-", ", '", "'T'", "''", "'o''clock'", "é", "%", "%d", ":%S:"];
  run.pairs("pairs", "every pair of fields with every separator", &small, &small, |a, b, rec| {
    for s in seps { for t in &some[..some.len().min(4)] {
      let p = format!("{}{}{}", a, s, b);
      rec.case(format!("{:?} at {:?}", p, t)); rec.state(&p);
      check_generate(rec, &p, &at(t, 19800), !s.is_empty() && !s.starts_with('-') && s != "%d" && s != ":%S:" && !(s == " " && false));
    } }
  });
  // Every number against every field.
  let width = if run.thorough { 6 } else { 5 };
  let total: u64 = (1..=width).map(|w| 10u64.pow(w)).sum();
  run.explore("numbers", "every digit string up to a width against every field", total, |i, rec| {
    let (mut w, mut k) = (1usize, i);
    while k >= 10u64.pow(w as u32) { k -= 10u64.pow(w as u32); w += 1; }
    let s = format!("{:0w$}", k, w = w);
    rec.case(s.clone()); rec.state(&s);
    for p in ["y", "yy", "yyyyy", "M", "LL", "d", "D", "q", "Q", "w", "W", "F", "e", "c", "h", "H", "k", "K", "m", "s", "S", "SSS", "n", "A", "N", "Hm", "yyMM", "Mdd"] { rec.case(format!("{} ~ {}", s, p)); check_valid(rec, p, &s); }
  });
  let big = ["86399999", "86400000", "86399999999999", "86400000000000", "999999999", "1000000000", "18446744073709551615", "18446744073709551616", "99999999999999999999999999", "00000000000000000000000000001", "32767", "32768", "65536", "255", "256", "99999999999999999999", "-1", "+1", "1.0", "1e1", "١", "12é"];
  run.pairs("large", "every field against very large and odd numbers", &fields, &big, |p, s, rec| { rec.case(format!("{} ~ {}", s, p)); rec.state(&(p, s)); check_valid(rec, p, s); check_valid(rec, &format!("{} dd-MM", p), &format!("{} 29-02", s)); });
  // Names, zones and offsets.
  let mut names: Vec<String> = vec![];
  for w in MONTHS.iter().chain(DAYS.iter()).copied().chain(["AD", "BC", "AM", "PM", "Q1", "Q4", "Q0", "Q5", "1st quarter", "2nd quarter", "3rd quarter", "4th quarter", "5th quarter", "1st", "AEST", "BST", "PST", "GMT", "UTC", "QXX", "QXXX", "Europe/Warsaw", "America/New_York", "America/Argentina/Buenos_Aires", "Australia/Sydney", "Mars/Base", "Mars", "Z", "z", "", " "]) {
    for v in [w.to_string(), w.to_uppercase(), w.to_lowercase(), w.chars().take(3).collect(), w.chars().take(4).collect(), w.chars().take(2).collect(), format!("{} ", w), format!(" {}", w), format!("{}x", w), format!("{}é", w), format!("x{}", w)] { if !names.contains(&v) { names.push(v); } }
  }
  run.pairs("names", "every name, right or wrong, against every field", &fields, &names, |p, s, rec| { rec.case(format!("{:?} ~ {}", s, p)); rec.state(&(p, s)); check_valid(rec, p, s); });
  let mut offs = vec![];
  for pre in ["", "GMT", "UTC", "gmt", "Z", "A"] { for sg in ["+", "-", "", "++", "+-", "−"] { for h in ["0", "1", "7", "00", "09", "10", "11", "12", "13", "14", "18", "24", "30", "99", "", "007"] { for m in ["", "00", "30", "45", "59", "60", "99", "5", ":00", ":30", ":45", ":59", ":60", ":5", ":", ":000", "0000", "5959", "5961", ":00:00", ":59:59", ":59:61", "00:00", ":5900"] {
    offs.push(format!("{}{}{}{}", pre, sg, h, m)); } } } }
  let zf: Vec<String> = small.iter().filter(|f| "xXZOzV".contains(&f[..1])).cloned().collect();
  run.pairs("offsets", "every combination of prefix, sign, hours and minutes against every zone field", &zf, &offs, |p, s, rec| { rec.case(format!("{:?} ~ {}", s, p)); rec.state(&(p, s)); check_valid(rec, p, s); check_valid(rec, &format!("HH{}", p), &format!("10{}", s)); });
  // Days of months.
  let years = ["1", "4", "96", "00", "100", "400", "1900", "1999", "2000", "2001", "2004", "2023", "2024", "2100", "9999", "0000", "32767", "32768", "99996", "1000000"];
  let dates: Vec<(usize, i64)> = (0..years.len()).flat_map(|y| (0..14).map(move |m| (y, m))).collect();
  let forms = ["yyyy-MM-dd", "yyyyyyy-MM-dd", "yy-MM-dd", "dd/L/uuuu", "d MMM Y", "MMMM dd, yyyy", "dd.MM", "MMMdd", "yyyy-dd", "dd-MM-yyyy G", "MM dd MM", "dd MM dd", "yyyyMMdd"];
  run.pairs("dates", "every month and day of ordinary, leap and century years in every arrangement", &dates, &forms, |(y, m), p, rec| {
    for d in 0..33 {
      let mon = MONTHS.get((*m - 1).max(0) as usize).copied().unwrap_or("Movember");
      let y = years[*y];
      let s = match *p { "yyyy-MM-dd" | "yyyyyyy-MM-dd" | "yy-MM-dd" => format!("{}-{:02}-{:02}", y, m, d), "dd/L/uuuu" => format!("{:02}/{}/{}", d, m, y), "d MMM Y" => format!("{} {} {}", d, &mon[..3], y), "MMMM dd, yyyy" => format!("{} {}, {}", mon, d, y), "dd.MM" => format!("{}.{}", d, m), "MMMdd" => format!("{}{:02}", &mon[..3], d), "yyyy-dd" => format!("{}-{}", y, d), "dd-MM-yyyy G" => format!("{}-{}-{} AD", d, m, y), "MM dd MM" => format!("{} {} 1", m, d), "dd MM dd" => format!("{} {} 31", d, m), _ => format!("{:0>4}{:02}{:02}", y, m, d) };
      rec.case(format!("{} ~ {}", s, p)); rec.state(&(s.clone(), p));
      check_valid(rec, p, &s);
    }
  });
  // One character changed in a valid text.
  let pats = ["yyyy-MM-dd'T'HH:mm:ss.SSSXXX", "EEE, d MMM yyyy hh:mm:ss a Z", "yyMMddHHmmss", "G yyyy.DDD kk''K", "QQQQ e/uuuu OOOO", "EEEE dd MMMM, 'at' n"];
  let subs = ["", "0", "9", "x", " ", "é", "-", ":", "Z"];
  std::env::set_var("TZ", "UTC0");
  run.pairs("mutations", "every typical pattern's text with one character removed, replaced or inserted", &pats, &some, |p, t, rec| {
    let f = pattern(p).unwrap();
    for off in [0, 19800] {
      let s = f.iter().map(|x| text(x, &at(t, off)).unwrap()).collect::<String>();
      for j in 0..=s.len() { for c in subs { for keep in [0, 1] {
        if j == s.len() && keep == 0 { continue; }
        let m = format!("{}{}{}", &s[..j], c, &s[j + 1 - keep..]);
        rec.case(format!("{:?} ~ {}", m, p)); rec.state(&m);
        check_valid(rec, p, &m);
      } } }
    }
  });
  run.pairs("concatenation", "every pair of fields with no separator against the text of every other pair", &small, &small, |a, b, rec| {
    let p = format!("{}{}", a, b);
    let t = at(&some[5 % some.len()], 0);
    let ta = text(&F::L(a.chars().next().unwrap(), a.len()), &t).unwrap_or("2".into());
    let tb = text(&F::L(b.chars().next().unwrap(), b.len()), &t).unwrap_or("2".into());
    for s in [format!("{}{}", ta, tb), format!("{}{}", tb, ta), ta.clone(), format!("{} {}", ta, tb), format!("{}{}{}", ta, tb, tb)] { rec.case(format!("{:?} ~ {}", s, p)); rec.state(&(&p, &s)); check_valid(rec, &p, &s); }
  });
  // What the checks above leave out because it does not hold; see known_findings.txt.
  run.explore("gaps", "days at the end of the year and zone names, which validation and formatting do not agree on", 3, |i, rec| {
    rec.case(format!("gap {}", i)); rec.trace();
    match i {
      0 => { for d in 357..=366 { if validate_datetime(&d.to_string(), "D").is_err() { rec.fail_key("day-of-year 357 to 366", &format!("day {} of the year is rejected", d)); break; } } }
      1 => { for p in ["z", "V"] { let s = generate_at(p, &at(&some[0], 0)).unwrap_or_default(); if validate_datetime(&s, p).is_err() { rec.fail_key("zone names", &format!("{:?} formatted with {} is not accepted", s, p)); break; } } }
      _ => { for p in ["W", "F"] { let s = generate_at(p, &at(&some[0], 0)).unwrap_or_default(); if validate_datetime(&s, p).is_err() { rec.fail_key("week of month", &format!("{:?} formatted with {} is not accepted", s, p)); break; } } }
    }
  });
}
