//! C18: date and time expressions, against a reference grammar and calendar.
use chrono::{DateTime, Datelike, FixedOffset, TimeZone, Timelike};
use mccore::*;
use pact_models::generators::datetime_expressions::{execute_date_expression, execute_datetime_expression, execute_time_expression};

pub fn days_from_civil(y: i64, m: i64, d: i64) -> i64 {
  let y = if m <= 2 { y - 1 } else { y };
  let era = y.div_euclid(400);
  let yoe = y - era * 400;
  let doy = (153 * (m + if m > 2 { -3 } else { 9 }) + 2) / 5 + d - 1;
  era * 146097 + yoe * 365 + yoe / 4 - yoe / 100 + doy - 719468
}
pub fn civil(z: i64) -> (i64, i64, i64) {
  let z = z + 719468;
  let era = z.div_euclid(146097);
  let doe = z - era * 146097;
  let yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
  let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
  let mp = (5 * doy + 2) / 153;
  let m = if mp < 10 { mp + 3 } else { mp - 9 };
  (yoe + era * 400 + (m <= 2) as i64, m, doy - (153 * mp + 2) / 5 + 1)
}
fn month_len(y: i64, m: i64) -> i64 { let (ny, nm) = if m == 12 { (y + 1, 1) } else { (y, m + 1) }; days_from_civil(ny, nm, 1) - days_from_civil(y, m, 1) }

/// A local instant: days since 1970-01-01 and milliseconds of the day. None = out of the range that can be represented.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub struct At { pub day: i64, pub ms: i64 }
#[derive(Clone, PartialEq, Debug)]
enum Tok { Word(String), Num(u64) }

const DATE_WORDS: [&str; 48] = ["now", "today", "yesterday", "tomorrow", "+", "-", "next", "last", "days", "day", "weeks", "week", "months", "month", "years", "year", "fortnight",
  "mon", "monday", "tues", "tuesday", "wed", "wednesday", "thurs", "thursday", "fri", "friday", "sat", "saturday", "sun", "sunday",
  "jan", "january", "feb", "february", "mar", "march", "apr", "april", "may", "jun", "june", "jul", "july", "aug", "august", "sep", "september"];
const DATE_WORDS2: [&str; 6] = ["oct", "october", "nov", "november", "dec", "december"];
const TIME_WORDS: [&str; 18] = ["now", "midnight", "noon", "o'clock", "am", "pm", "+", "-", "next", "last", "hour", "hours", "minute", "minutes", "second", "seconds", "millisecond", "milliseconds"];
const DAYS: [&str; 7] = ["mon", "tues", "wed", "thurs", "fri", "sat", "sun"];
const MONTHS: [&str; 12] = ["jan", "feb", "mar", "apr", "may", "jun", "jul", "aug", "sep", "oct", "nov", "dec"];

fn tokens(s: &str, words: &[&str]) -> Option<Vec<Tok>> {
  let mut out = vec![];
  let mut rest = s;
  loop {
    rest = rest.trim_start_matches([' ', '\t', '\n', '\x0c']);
    if rest.is_empty() { return Some(out); }
    let digits = rest.bytes().take_while(|b| b.is_ascii_digit()).count();
    if digits > 0 { out.push(Tok::Num(rest[..digits].parse().ok()?)); rest = &rest[digits..]; continue; }
    let w = words.iter().filter(|w| rest.starts_with(**w)).max_by_key(|w| w.len())?;
    out.push(Tok::Word(w.to_string()));
    rest = &rest[w.len()..];
  }
}
fn word(t: &Tok) -> &str { match t { Tok::Word(w) => w, Tok::Num(_) => "" } }
fn unit(w: &str) -> String { let w = w.strip_suffix('s').filter(|u| ["day", "week", "month", "year", "hour", "minute", "second", "millisecond"].contains(u)).unwrap_or(w); w.to_string() }

/// (op, amount, unit) with op 1 or -1; `next`/`last` units that are not durations keep their name.
type Adj = (i64, u64, String);
fn durations(t: &[Tok], units: &[&str]) -> Option<Vec<Adj>> {
  t.chunks(3).map(|c| match c {
    [op, Tok::Num(n), u] if ["+", "-"].contains(&word(op)) && units.contains(&unit(word(u)).as_str()) => Some((if word(op) == "+" { 1 } else { -1 }, *n, unit(word(u)))),
    _ => None,
  }).collect()
}
fn parse_date(s: &str) -> Option<(i64, Vec<Adj>)> {
  let words: Vec<&str> = DATE_WORDS.iter().chain(DATE_WORDS2.iter()).copied().collect();
  let t = tokens(s, &words)?;
  let units = ["day", "week", "month", "year"];
  match word(t.first()?) {
    b @ ("now" | "today" | "yesterday" | "tomorrow") => Some((match b { "yesterday" => -1, "tomorrow" => 1, _ => 0 }, durations(&t[1..], &units)?)),
    b @ ("next" | "last") => {
      let w = word(t.get(1)?);
      let sign = if b == "next" { 1 } else { -1 };
      let first = if units.contains(&w) { (sign, 1, w.to_string()) } else if w == "fortnight" { (sign, 2, "week".into()) }
        else { let n = DAYS.iter().chain(MONTHS.iter()).find(|n| w.starts_with(**n) && w != "months")?; (sign, 1, n.to_string()) };
      let mut a = vec![first];
      a.extend(durations(&t[2..], &units)?);
      Some((0, a))
    }
    "+" | "-" => Some((0, durations(&t, &units)?)),
    _ => None,
  }
}
enum Base { Now, Hour(i64), Next(i64) }
fn parse_time(s: &str) -> Option<(Base, Vec<Adj>)> {
  let t = tokens(s, &TIME_WORDS)?;
  let units = ["hour", "minute", "second", "millisecond"];
  match t.first()? {
    Tok::Num(n) => {
      if word(t.get(1)?) != "o'clock" || !(1..=12).contains(n) { return None; }
      let n = *n as i64;
      let (b, k) = match t.get(2).map(word) { Some("am") => (Base::Hour(n), 3), Some("pm") => (Base::Hour(if n == 12 { 12 } else { 12 + n }), 3), _ => (Base::Next(n), 2) };
      Some((b, durations(&t[k..], &units)?))
    }
    Tok::Word(b) => match b.as_str() {
      "now" => Some((Base::Now, durations(&t[1..], &units)?)),
      "midnight" => Some((Base::Hour(0), durations(&t[1..], &units)?)),
      "noon" => Some((Base::Hour(12), durations(&t[1..], &units)?)),
      "next" | "last" => {
        let w = unit(word(t.get(1)?));
        if !units.contains(&w.as_str()) { return None; }
        let mut a = vec![(if b == "next" { 1 } else { -1 }, 1, w)];
        a.extend(durations(&t[2..], &units)?);
        Some((Base::Now, a))
      }
      "+" | "-" => Some((Base::Now, durations(&t, &units)?)),
      _ => None,
    },
  }
}
/// The years that can be represented.
fn in_range(day: i128) -> bool { day >= days_from_civil(-262143, 1, 1) as i128 && day <= days_from_civil(262142, 12, 31) as i128 }
fn shift_days(at: At, n: i128) -> Option<At> { let d = at.day as i128 + n; if !in_range(d) { None } else { Some(At { day: d as i64, ..at }) } }
fn shift_months(at: At, n: i128) -> Option<At> {
  let (y, m, d) = civil(at.day);
  let t = y as i128 * 12 + (m - 1) as i128 + n;
  if t < 12 * -262143 || t >= 12 * 262143 { return None; }
  let (ny, nm) = ((t as i64).div_euclid(12), (t as i64).rem_euclid(12) + 1);
  Some(At { day: days_from_civil(ny, nm, d.min(month_len(ny, nm))), ..at })
}
pub fn ref_date(at: At, s: &str) -> Result<At, bool> {
  if s.is_empty() { return Ok(at); }
  let (b, adj) = parse_date(s).ok_or(false)?;
  let mut at = shift_days(at, b as i128).ok_or(true)?;
  for (op, n, u) in adj {
    let k = op as i128 * n as i128;
    at = match u.as_str() {
      "day" => shift_days(at, k), "week" => shift_days(at, 7 * k), "month" => shift_months(at, k), "year" => shift_months(at, 12 * k),
      u => if let Some(w) = DAYS.iter().position(|d| *d == u) {
        let cur = (at.day + 3).rem_euclid(7); // 1970-01-01 was a Thursday
        let gap = (op * (w as i64 - cur)).rem_euclid(7);
        shift_days(at, (op * if gap == 0 { 7 } else { gap }) as i128)
      } else {
        let w = MONTHS.iter().position(|d| *d == u).unwrap() as i64 + 1;
        let (y, m, _) = civil(at.day);
        let y = if op > 0 { if w > m { y } else { y + 1 } } else if w < m { y } else { y - 1 };
        Some(At { day: days_from_civil(y, w, 1), ..at })
      },
    }.ok_or(true)?;
  }
  Ok(at)
}
pub fn ref_time(at: At, s: &str) -> Result<At, bool> {
  if s.is_empty() { return Ok(at); }
  let (b, adj) = parse_time(s).ok_or(false)?;
  let mut at = match b {
    Base::Now => at,
    Base::Hour(h) => At { ms: h % 24 * 3_600_000, ..at },
    Base::Next(h) => At { ms: if at.ms < 43_200_000 && h < 12 { 12 + h } else { h } * 3_600_000, ..at },
  };
  for (op, n, u) in adj {
    let unit: i128 = match u.as_str() { "hour" => 3_600_000, "minute" => 60_000, "second" => 1000, _ => 1 };
    let t = at.ms as i128 + op as i128 * n as i128 * unit;
    at = shift_days(At { ms: t.rem_euclid(86_400_000) as i64, ..at }, t.div_euclid(86_400_000)).ok_or(true)?;
  }
  Ok(at)
}
pub fn ref_datetime(at: At, s: &str) -> Result<At, bool> {
  match s.split_once('@') {
    Some((d, t)) => { let r = ref_date(at, d); let r2 = ref_time(r.unwrap_or(at), t); r.and_then(|_| r2) }
    None => ref_date(at, s),
  }
}
fn of(dt: &DateTime<FixedOffset>) -> At { At { day: days_from_civil(dt.year() as i64, dt.month() as i64, dt.day() as i64), ms: dt.num_seconds_from_midnight() as i64 * 1000 + (dt.nanosecond() / 1_000_000) as i64 } }
fn dt(y: i32, m: u32, d: u32, h: u32, mi: u32, s: u32, ms: u32, off: i32) -> DateTime<FixedOffset> {
  FixedOffset::east_opt(off).unwrap().with_ymd_and_hms(y, m, d, h, mi, s).unwrap() + chrono::Duration::milliseconds(ms as i64)
}
/// Close to the limits of the calendar either answer is right.
fn fuzzy(at: &At) -> bool { !in_range(at.day as i128 - 400) || !in_range(at.day as i128 + 400) }

fn one(rec: &mut Rec, what: &str, base: &DateTime<FixedOffset>, exp: &str) {
  rec.trace(); rec.steps(1);
  let at = of(base);
  let (want, got) = match what {
    "date" => (ref_date(at, exp), rec.no_panic("date", || execute_date_expression(base, exp))),
    "time" => (ref_time(at, exp), rec.no_panic("time", || execute_time_expression(base, exp))),
    _ => (ref_datetime(at, exp), rec.no_panic("datetime", || execute_datetime_expression(base, exp))),
  };
  if let Some(got) = got {
    rec.outcome(match &want { Ok(_) => "instant", Err(true) => "out-of-range", Err(false) => "rejected" });
    if want.map(|w| fuzzy(&w)).unwrap_or(false) { return; }
    match (&want, &got) {
      (Err(true), Ok(g)) if fuzzy(&of(g)) => {}
      _ => {
        rec.eq(what, &want.ok(), &got.as_ref().ok().map(of));
        if let Ok(g) = &got { rec.check(g.offset() == base.offset(), "offset", || format!("{:?} {} -> {}", exp, base, g)); }
      }
    }
  }
}

pub fn c18(run: &Run) {
  let mut bases = vec![];
  for (y, m, d) in [(2000, 1, 1), (2000, 1, 31), (2000, 2, 28), (2000, 2, 29), (2000, 3, 1), (1999, 12, 31), (2001, 2, 28), (2003, 3, 31), (1900, 2, 28), (2100, 12, 1), (2024, 7, 15), (1970, 1, 1), (2023, 10, 29), (2023, 11, 30), (1, 1, 1), (9999, 12, 31)] {
    for (h, mi, s, ms) in [(0, 0, 0, 0), (10, 0, 0, 0), (11, 59, 59, 999), (12, 0, 0, 0), (23, 59, 59, 999)] { bases.push(dt(y, m, d, h, mi, s, ms, 0)); }
  }
  for off in [36000, -43200, 20700] { bases.push(dt(2000, 2, 29, 10, 30, 15, 7, off)); bases.push(dt(1999, 12, 31, 23, 0, 0, 0, off)); }
  let some: Vec<_> = bases.iter().step_by(if run.thorough { 3 } else { 11 }).cloned().collect();
  let b0 = dt(2000, 1, 31, 10, 20, 30, 456, 0);

  // Acceptance: every token sequence.
  let dtok = ["now", "tomorrow", "+", "-", "next", "last", "1", "2", "days", "week", "month", "fortnight", "mon", "june", "?", "99999999999999999999"];
  let ttok = ["now", "midnight", "+", "-", "next", "last", "1", "13", "12", "o'clock", "am", "pm", "hour", "minutes", "day", "?"];
  let n = if run.thorough { 6 } else { 5 };
  for (what, toks) in [("date", &dtok), ("time", &ttok)] {
    run.explore(&format!("{}-tokens", what), "every sequence of tokens up to a length: accepted exactly when it is in the language, with the instant it means", seq_count(toks.len(), n), |i, rec| {
      let seq = seq_at(i, toks.len());
      let s = seq.iter().map(|k| toks[*k]).collect::<Vec<_>>().join(" ");
      rec.case(format!("{:?}", s)); rec.state(&s);
      one(rec, what, &b0, &s);
    });
  }
  // Meaning: every base and every unit with every amount, on every instant.
  let amounts = ["0", "1", "2", "3", "4", "5", "11", "12", "13", "23", "24", "25", "28", "29", "30", "31", "32", "59", "60", "61", "365", "366", "1000", "1461", "86399", "86400", "3652424",
    "262000", "1000000", "2147483647", "2147483648", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616"];
  let mut dexp: Vec<String> = ["now", "today", "yesterday", "tomorrow"].iter().map(|s| s.to_string()).collect();
  for u in ["day", "week", "month", "year", "days", "weeks", "months", "years", "hour", "monday"] { for a in amounts { for op in ["+", "-"] { dexp.push(format!("{} {} {}", op, a, u)); } } }
  for w in DATE_WORDS.iter().chain(DATE_WORDS2.iter()) { for k in ["next", "last"] { dexp.push(format!("{} {}", k, w)); } }
  run.pairs("date-meaning", "every base, unit, amount and named day or month, on every boundary date and time of day", &dexp, &bases, |e, b, rec| { rec.case(format!("{:?} from {}", e, b)); rec.state(e); one(rec, "date", b, e); one(rec, "datetime", b, e); });
  let mut texp: Vec<String> = ["now", "midnight", "noon"].iter().map(|s| s.to_string()).collect();
  for h in 0..=14 { for s in ["", " am", " pm", " am + 1 hour", " pm - 1 second", " - 1 minute"] { texp.push(format!("{} o'clock{}", h, s)); } }
  for u in ["hour", "minute", "second", "millisecond", "hours", "minutes", "seconds", "milliseconds", "day"] { for a in amounts { for op in ["+", "-"] { texp.push(format!("{} {} {}", op, a, u)); } } for k in ["next", "last"] { texp.push(format!("{} {}", k, u)); } }
  run.pairs("time-meaning", "every base, hour, unit and amount, on every boundary date and time of day", &texp, &bases, |e, b, rec| { rec.case(format!("{:?} from {}", e, b)); rec.state(e); one(rec, "time", b, e); one(rec, "datetime", b, &format!("now@{}", e)); one(rec, "datetime", b, &format!("@{}", e)); });
  // Composition: a start, then adjustments in turn.
  let starts = ["now", "yesterday", "tomorrow", "next month", "last month", "next year", "last fri", "next feb", "last dec", "next fortnight", ""];
  let adj = ["+ 1 day", "- 1 day", "+ 1 month", "- 1 month", "+ 11 months", "+ 1 year", "- 4 years", "+ 5 weeks", "- 29 days", "+ 0 days", "+1day", "+  100 months"];
  let an = if run.thorough { 3 } else { 2 };
  run.pairs("date-adjustments", "every start with every sequence of adjustments", &(0..starts.len() as u64 * seq_count(adj.len(), an)).collect::<Vec<_>>(), &some, |i, b, rec| {
    let s = std::iter::once(starts[(*i % starts.len() as u64) as usize]).chain(seq_at(*i / starts.len() as u64, adj.len()).iter().map(|k| adj[*k])).collect::<Vec<_>>().join(" ");
    rec.case(format!("{:?} from {}", s, b)); rec.state(&s);
    one(rec, "date", b, s.trim_start());
  });
  let tstarts = ["now", "midnight", "noon", "next hour", "last minute", "5 o'clock", "12 o'clock am", "12 o'clock pm", ""];
  let tadj = ["+ 1 hour", "- 1 hour", "+ 61 minutes", "- 1 second", "+ 999 milliseconds", "- 1 millisecond", "+ 25 hours", "-0 seconds", "+3minutes"];
  run.pairs("time-adjustments", "every start with every sequence of adjustments", &(0..tstarts.len() as u64 * seq_count(tadj.len(), an)).collect::<Vec<_>>(), &some, |i, b, rec| {
    let s = std::iter::once(tstarts[(*i % tstarts.len() as u64) as usize]).chain(seq_at(*i / tstarts.len() as u64, tadj.len()).iter().map(|k| tadj[*k])).collect::<Vec<_>>().join(" ");
    rec.case(format!("{:?} from {}", s, b)); rec.state(&s);
    one(rec, "time", b, s.trim_start());
  });
  // Both parts together.
  let dparts = ["", "now", "tomorrow", "yesterday ", "+ 1 day ", "next month ", "last jan - 1 day ", "+ 1", "tomorow", "now now"];
  let tparts = ["", " now", " midnight", " noon + 1 hour", " - 25 hours", "3 o'clock", " next hour", " + 1", " now now", "@", " noon@"];
  run.pairs("both", "every pair of date part and time part, right or wrong, on every base", &(0..(dparts.len() * tparts.len()) as u64).collect::<Vec<_>>(), &bases, |i, b, rec| {
    let s = format!("{}@{}", dparts[*i as usize / tparts.len()], tparts[*i as usize % tparts.len()]);
    rec.case(format!("{:?} from {}", s, b)); rec.state(&s);
    one(rec, "datetime", b, &s);
  });
  // Arbitrary text: rejected unless in the language, and always answered.
  let chars = [" ", "@", "+", "-", "1", "n", "now", "é", "👍", "\n", "\u{a0}", "\"", "{"];
  let cn = if run.thorough { 5 } else { 4 };
  run.explore("text", "every short text over awkward characters, as each kind of expression", seq_count(chars.len(), cn), |i, rec| {
    let s: String = seq_at(i, chars.len()).iter().map(|k| chars[*k]).collect();
    rec.case(format!("{:?}", s)); rec.state(&s);
    for w in ["date", "time", "datetime"] {
      if w == "datetime" && s.split_once('@').map(|(a, b)| (!a.is_empty() && a.trim().is_empty()) || (!b.is_empty() && b.trim().is_empty())).unwrap_or(false) { continue; } // a part of only blanks: unspecified
      if s.trim().is_empty() { continue; }
      one(rec, w, &b0, &s);
    }
  });
  // One character changed in a valid expression.
  let valid = ["tomorrow + 2 weeks - 1 day", "next wednesday", "last sep + 3 months", "yesterday", "now + 10 days", "next fortnight - 1 year"];
  let subs = ["", "x", " ", "1", "é", "s"];
  let sites: Vec<(usize, usize)> = valid.iter().enumerate().flat_map(|(i, v)| (0..v.len()).map(move |j| (i, j))).collect();
  run.pairs("mutations", "every valid expression with one character removed, replaced or inserted", &sites, &subs, |(i, j), c, rec| {
    for keep in [0, 1] {
      let v = valid[*i];
      let s = format!("{}{}{}", &v[..*j], c, &v[*j + 1 - keep..]);
      rec.case(format!("{:?}", s)); rec.state(&s);
      one(rec, "date", &b0, &s); one(rec, "datetime", &b0, &s);
    }
  });
}
