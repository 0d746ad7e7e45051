//! C14: matching definition strings, against a parser written from the documented grammar.
use itertools::Either;
use mccore::*;
use pact_models::generators::Generator;
use pact_models::matchingrules::expressions::{is_matcher_def, parse_matcher_def, MatchingReference, MatchingRuleDefinition, ValueType};
use pact_models::matchingrules::MatchingRule;

#[derive(Clone, Debug, PartialEq)]
enum Tok { Word(String), Str(String), Int(String), Dec(String), Sym(char) }

fn tokens(s: &str) -> Option<Vec<Tok>> {
  let c: Vec<char> = s.chars().collect();
  let (mut i, mut out) = (0, vec![]);
  while i < c.len() {
    let start = i;
    let text = |a: usize, b: usize| c[a..b].iter().collect::<String>();
    match c[i] {
      ' ' | '\t' | '\n' | '\u{c}' => { i += 1; }
      '(' | ')' | ',' | '$' => { out.push(Tok::Sym(c[i])); i += 1; }
      '\'' => {
        i += 1;
        while *c.get(i)? != '\'' { i += if c[i] == '\\' { 2 } else { 1 }; }
        out.push(Tok::Str(text(start + 1, i))); i += 1;
      }
      ch if ch.is_ascii_alphabetic() => { while i < c.len() && c[i].is_ascii_alphabetic() { i += 1; } out.push(Tok::Word(text(start, i))); }
      ch if ch.is_ascii_digit() || ch == '-' => {
        i += 1;
        while i < c.len() && c[i].is_ascii_digit() { i += 1; }
        if ch == '-' && i == start + 1 { return None; }
        if c.get(i) == Some(&'.') && c.get(i + 1).map(|c| c.is_ascii_digit()).unwrap_or(false) {
          i += 1;
          while i < c.len() && c[i].is_ascii_digit() { i += 1; }
          out.push(Tok::Dec(text(start, i)));
        } else { out.push(Tok::Int(text(start, i))); }
      }
      _ => return None,
    }
  }
  Some(out)
}

/// A string's content. A backslash that starts no documented escape stands for itself. `quote` is what an escaped quote stands for.
fn unescape(raw: &str, quote: &str) -> Result<String, bool> {
  let c: Vec<char> = raw.chars().collect();
  let (mut i, mut out) = (0, String::new());
  while i < c.len() {
    if c[i] != '\\' || i + 1 == c.len() { out.push(c[i]); i += 1; continue; }
    i += 2;
    match c[i - 1] {
      '\\' => out.push('\\'), '\'' => out.push_str(quote), 'b' => out.push('\u{8}'), 'f' => out.push('\u{c}'), 'n' => out.push('\n'), 'r' => out.push('\r'), 't' => out.push('\t'),
      'u' => {
        let hex: String = if c.get(i) == Some(&'{') {
          let end = (i..c.len()).find(|j| c[*j] == '}').ok_or(false)?;
          let h = c[i + 1..end].iter().collect(); i = end + 1; h
        } else { if i + 4 > c.len() { return Err(false); } i += 4; c[i - 4..i].iter().collect() };
        if hex.is_empty() || !hex.chars().all(|c| c.is_ascii_hexdigit()) { return Err(false); }
        let h = hex.trim_start_matches('0');
        if h.len() > 8 { return Err(false); }
        // a number that is no character: not defined
        out.push(char::from_u32(u32::from_str_radix(if h.is_empty() { "0" } else { h }, 16).unwrap()).ok_or(true)?);
      }
      ch => { out.push('\\'); out.push(ch); }
    }
  }
  Ok(out)
}

#[derive(Clone, Debug, PartialEq)]
pub struct Def { pub value: String, pub vtype: ValueType, pub rules: Vec<Rule>, pub generator: Option<Generator> }
#[derive(Clone, Debug, PartialEq)]
pub enum Rule { Is(MatchingRule), Ref(String), EachKey(Box<Def>), EachValue(Box<Def>) }

struct P<'a> { t: &'a [Tok], i: usize, undefined: bool, quote: &'a str }
type Part = (String, ValueType, Option<Generator>);
impl<'a> P<'a> {
  fn next(&mut self) -> Option<&'a Tok> { let t = self.t.get(self.i); self.i += 1; t }
  fn sym(&mut self, c: char) -> Option<()> { if self.next()? == &Tok::Sym(c) { Some(()) } else { None } }
  fn text(&mut self) -> Option<String> {
    match self.next()? { Tok::Str(s) => match unescape(s, self.quote) { Ok(s) => Some(s), Err(undefined) => { self.undefined |= undefined; None } }, _ => None }
  }
  fn from_state(&mut self) -> Option<Part> {
    self.sym('(')?; let exp = self.text()?; self.sym(',')?;
    let (v, t, _) = self.primitive(false)?; self.sym(')')?;
    let d = t.into();
    Some((v, t, Some(Generator::ProviderStateGenerator(exp, Some(d)))))
  }
  fn is_state(&self) -> bool { self.t.get(self.i) == Some(&Tok::Word("fromProviderState".into())) }
  fn primitive(&mut self, state: bool) -> Option<Part> {
    if state && self.is_state() { self.i += 1; return self.from_state(); }
    match self.t.get(self.i)? {
      Tok::Str(_) => Some((self.text()?, ValueType::String, None)),
      Tok::Int(s) => { self.i += 1; Some((s.clone(), ValueType::Integer, None)) }
      Tok::Dec(s) => { self.i += 1; Some((s.clone(), ValueType::Decimal, None)) }
      Tok::Word(w) if w == "true" || w == "false" => { self.i += 1; Some((w.clone(), ValueType::Boolean, None)) }
      Tok::Word(w) if w == "null" => { self.i += 1; Some((String::new(), ValueType::String, None)) }
      _ => None,
    }
  }
  fn number(&mut self, int: bool, t: ValueType) -> Option<Part> {
    if self.is_state() { self.i += 1; return self.from_state(); }
    match self.next()? { Tok::Int(s) => Some((s.clone(), t, None)), Tok::Dec(s) if !int => Some((s.clone(), t, None)), _ => None }
  }
  fn time(&mut self, rule: fn(String) -> MatchingRule, gen: fn(Option<String>) -> Generator) -> Option<(Part, MatchingRule)> {
    let format = self.text()?; self.sym(',')?;
    let part = if self.is_state() { self.i += 1; self.from_state()? } else { (self.text()?, ValueType::String, Some(gen(Some(format.clone())))) };
    Some((part, rule(format)))
  }
  fn exp(&mut self) -> Option<Def> {
    let w = match self.next()? { Tok::Word(w) => w.as_str(), _ => return None };
    self.sym('(')?;
    let def = |(value, vtype, generator): Part, rule: MatchingRule| Def { value, vtype, rules: vec![Rule::Is(rule)], generator };
    let none = || (String::new(), ValueType::Unknown, None);
    let d = match w {
      "notEmpty" => { let p = self.primitive(true)?; def(p, MatchingRule::NotEmpty) }
      "eachKey" => { let d = self.exp()?; Def { value: String::new(), vtype: ValueType::Unknown, rules: vec![Rule::EachKey(Box::new(d))], generator: None } }
      "eachValue" => { let d = self.exp()?; Def { value: String::new(), vtype: ValueType::Unknown, rules: vec![Rule::EachValue(Box::new(d))], generator: None } }
      "atLeast" | "atMost" => {
        let n = match self.next()? { Tok::Int(s) if !s.starts_with('-') => s, _ => return None };
        let n: usize = match n.parse() { Ok(n) => n, Err(_) => { self.undefined = true; return None } };
        def(none(), if w == "atLeast" { MatchingRule::MinType(n) } else { MatchingRule::MaxType(n) })
      }
      "matching" => match self.next()? {
        Tok::Sym('$') => { let name = self.text()?; Def { value: name.clone(), vtype: ValueType::Unknown, rules: vec![Rule::Ref(name)], generator: None } }
        Tok::Word(m) => {
          self.sym(',')?;
          match m.as_str() {
            "equalTo" => { let p = self.primitive(true)?; def(p, MatchingRule::Equality) }
            "type" => { let p = self.primitive(true)?; def(p, MatchingRule::Type) }
            "number" => { let p = self.number(false, ValueType::Number)?; def(p, MatchingRule::Number) }
            "integer" => { let p = self.number(true, ValueType::Integer)?; def(p, MatchingRule::Integer) }
            "decimal" => { let p = self.number(false, ValueType::Decimal)?; def(p, MatchingRule::Decimal) }
            "datetime" => { let (p, r) = self.time(MatchingRule::Timestamp, |f| Generator::DateTime(f, None))?; def(p, r) }
            "date" => { let (p, r) = self.time(MatchingRule::Date, |f| Generator::Date(f, None))?; def(p, r) }
            "time" => { let (p, r) = self.time(MatchingRule::Time, |f| Generator::Time(f, None))?; def(p, r) }
            "regex" => { let r = self.text()?; self.sym(',')?; let v = self.text()?; def((v, ValueType::String, None), MatchingRule::Regex(r)) }
            "include" => { let v = self.text()?; def((v.clone(), ValueType::String, None), MatchingRule::Include(v)) }
            "boolean" => match self.next()? { Tok::Word(b) if b == "true" || b == "false" => def((b.clone(), ValueType::Boolean, None), MatchingRule::Boolean), _ => return None },
            "semver" => { let v = self.text()?; if !semver(&v) { return None; } def((v, ValueType::String, None), MatchingRule::Semver) }
            "contentType" => { let c = self.text()?; self.sym(',')?; let v = self.text()?; def((v, ValueType::Unknown, None), MatchingRule::ContentType(c)) }
            _ => return None,
          }
        }
        _ => return None,
      },
      _ => return None,
    };
    self.sym(')')?;
    Some(d)
  }
}
pub fn semver(s: &str) -> bool { regex::Regex::new(r"^(0|[1-9][0-9]{0,17})\.(0|[1-9][0-9]{0,17})\.(0|[1-9][0-9]{0,17})(-((0|[1-9][0-9]*|[0-9]*[a-zA-Z-][0-9a-zA-Z-]*)(\.(0|[1-9][0-9]*|[0-9]*[a-zA-Z-][0-9a-zA-Z-]*))*))?(\+([0-9a-zA-Z-]+(\.[0-9a-zA-Z-]+)*))?$").unwrap().is_match(s) }

fn merge_types(a: ValueType, b: ValueType) -> ValueType {
  use ValueType::*;
  // text wins over everything, then the more specific kind of number (the later one of decimal and integer unless the first is decimal)
  match (a, b) {
    (String, _) | (_, String) => String,
    (Unknown, x) | (x, Unknown) => x,
    (Decimal, _) | (_, Decimal) => Decimal,
    (Integer, _) | (_, Integer) => Integer,
    (Number, _) | (_, Number) => Number,
    (Boolean, Boolean) => Boolean,
  }
}
fn merge(a: Def, b: Def) -> Def {
  Def { value: if a.value.is_empty() { b.value } else { a.value }, vtype: merge_types(a.vtype, b.vtype), rules: [a.rules, b.rules].concat(), generator: a.generator.or(b.generator) }
}

/// Err(true): the documentation does not say
pub fn reference(s: &str, quote: &str) -> Result<Def, bool> {
  let t = match tokens(s) { Some(t) => t, None => return Err(false) };
  let mut p = P { t: &t, i: 0, undefined: false, quote };
  let mut r = p.exp();
  while let (Some(d), true) = (&r, p.i < t.len()) { r = match p.sym(',').and_then(|_| p.exp()) { Some(e) => Some(merge(d.clone(), e)), None => None }; }
  r.ok_or(p.undefined)
}
fn actual(d: &MatchingRuleDefinition) -> Def {
  Def { value: d.value.clone(), vtype: d.value_type, generator: d.generator.clone(), rules: d.rules.iter().map(|r| match r {
    Either::Left(MatchingRule::EachKey(d)) => Rule::EachKey(Box::new(actual(d))),
    Either::Left(MatchingRule::EachValue(d)) => Rule::EachValue(Box::new(actual(d))),
    Either::Left(r) => Rule::Is(r.clone()),
    Either::Right(MatchingReference { name }) => Rule::Ref(name.clone()),
  }).collect() }
}

fn check(s: &str, strict: bool, rec: &mut Rec) {
  rec.steps(1);
  let exp = reference(s, "'");
  let Some(act) = rec.no_panic("panic", || parse_matcher_def(s).map_err(|e| e.to_string())) else { return };
  match (&exp, &act) {
    (Err(true), _) => {}
    (Err(false), Ok(d)) => { rec.outcome("accepted"); rec.fail("accepts what is no definition", format!("read as {:?}", d)) }
    (Err(false), Err(_)) => rec.outcome("rejected"),
    (Ok(_), Err(e)) => rec.fail("rejects a definition", e.clone()),
    (Ok(e), Ok(a)) => {
      rec.outcome("accepted");
      let got = actual(a);
      // the backslash of an escaped quote is kept: see known findings
      if &got != e && (strict || reference(s, "\\'").as_ref() != Ok(&got)) { rec.fail("wrong reading", format!("expected {:?} actual {:?}", e, got)); }
      rec.check(a.expression == s, "expression text", || format!("{:?}", a.expression));
      rec.check(a.expression() == s, "expression text", || format!("{:?}", a.expression()));
      if let Some(b) = rec.no_panic("panic", || is_matcher_def(s)) { rec.check(b, "definition not recognised", || "is_matcher_def gives false".into()); }
    }
  }
  if let Some(b) = rec.no_panic("panic", || is_matcher_def(s)) {
    let word: String = s.trim_start_matches([' ', '\t', '\n', '\u{c}']).chars().take_while(|c| c.is_ascii_alphabetic()).collect();
    if b && !["matching", "notEmpty", "eachKey", "eachValue", "atLeast", "atMost"].contains(&word.as_str()) { rec.fail("no definition but recognised", "is_matcher_def gives true"); }
  }
}

fn toks(s: &str) -> Vec<String> { s.split(' ').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect() }
fn cat(parts: &[&[String]]) -> Vec<String> { parts.concat() }

pub fn sentences(thorough: bool) -> (Vec<Vec<String>>, Vec<Vec<String>>) {
  let mut prims: Vec<Vec<String>> = ["''", "'a'", "'it-is_é{}()'", "'a,b'", "0", "1", "-1", "10", "007", "0.5", "-0.5", "10.25", "-123.456", "123456789012345678901234567890", "-99999999999999999999", "true", "false", "null"].iter().map(|s| toks(s)).collect();
  let plain = prims.clone();
  let fps = |p: &Vec<String>| cat(&[&toks("fromProviderState ( 'e$x' ,"), p, &toks(")")]);
  prims.extend(plain.iter().map(fps));
  let mut leaves: Vec<Vec<String>> = vec![];
  let wrap = |pre: &str, p: &Vec<String>| cat(&[&toks(pre), p, &toks(")")]);
  for p in &prims { for pre in ["matching ( equalTo ,", "matching ( type ,", "matching ( number ,", "matching ( integer ,", "matching ( decimal ,", "matching ( boolean ,", "matching ( datetime , 'yyyy-MM-dd' ,", "matching ( date , 'yyyy' ,", "matching ( time , '' ,", "matching ( regex , '\\d+' ,", "matching ( include ,", "matching ( semver ,", "matching ( contentType , 'a/b' ,", "notEmpty (", "matching ( $", "atLeast (", "atMost ("] { leaves.push(wrap(pre, p)); } }
  for v in ["1.0.0", "0.0.0", "1.0", "1", "01.0.0", "1.0.0-a.1+b", "1.0.0-01", "1.0.0+", "v1.0.0", " 1.0.0", "1.0.0 ", "1.0.0.0", "1.0.x", "99999999999999999.0.0"] { leaves.push(vec!["matching".into(), "(".into(), "semver".into(), ",".into(), format!("'{}'", v), ")".into()]); }
  let ok: Vec<Vec<String>> = leaves.iter().filter(|l| reference(&l.concat(), "'").is_ok()).cloned().collect();
  let mut nested = vec![];
  for l in &ok { for pre in ["eachKey (", "eachValue (", "eachValue ( eachKey (", "eachKey ( eachValue ("] { let mut n = cat(&[&toks(pre), l]); for _ in 0..toks(pre).iter().filter(|t| *t == "(").count() { n.push(")".into()); } nested.push(n); } }
  let base: Vec<Vec<String>> = ["matching(type,'a')", "matching(equalTo,1)", "matching(number,1.5)", "matching(integer,1)", "matching(decimal,1.5)", "matching(boolean,true)", "matching(date,'yyyy','2000')", "matching(regex,'a','b')", "matching($'n')", "matching(contentType,'a/b','c')", "notEmpty('x')", "notEmpty(null)", "atLeast(2)", "atMost(3)", "eachKey(matching(type,'k'))", "eachValue(matching(type,7))", "matching(type,fromProviderState('p',5))", "matching(time,'HH',fromProviderState('q','r'))", "matching(semver,'1.0.0')", "matching(include,'')", "matching(integer,fromProviderState('s',true))"].iter().map(|s| { let mut v = vec![]; let mut rest = *s; while !rest.is_empty() { let n = if rest.starts_with('\'') { rest[1..].find('\'').unwrap() + 2 } else if rest.starts_with(['(', ')', ',', '$']) { 1 } else { rest.find(['(', ')', ',']).unwrap() }; v.push(rest[..n].to_string()); rest = &rest[n..]; } v }).collect();
  let mut combos = vec![];
  for a in &base { for b in &base { combos.push(cat(&[a, &toks(","), b])); if thorough { for c in &base { combos.push(cat(&[a, &toks(","), b, &toks(","), c])); } } } }
  let all = [leaves, nested, combos].concat();
  let edit: Vec<Vec<String>> = [base, all.iter().step_by(if thorough { 3 } else { 17 }).cloned().collect()].concat();
  (all, edit)
}

pub fn c14(run: &Run) {
  let (all, edit) = sentences(run.thorough);
  run.each("sentences", "every documented form with every kind of argument, nested in eachKey and eachValue, and combined with commas; with and without spaces", &all, |t, rec| {
    let s = t.concat();
    rec.case(s.clone()); rec.state(&s);
    check(&s, false, rec);
    check(&format!(" {} ", t.join(" ")), false, rec);
    check(&t.join("\n"), false, rec);
    check(&t.join("\t\u{c}"), false, rec);
  });
  run.each("spaces", "each white space character at each single gap of every form, and inside each token", &edit, |t, rec| {
    let s = t.concat();
    rec.case(s.clone());
    for ws in [" ", "\t", "\n", "\u{c}", "\n  "] {
      let mut at = 0;
      for k in 0..=t.len() { let v = format!("{}{}{}", &s[..at], ws, &s[at..]); rec.state(&v); check(&v, false, rec); if k < t.len() { at += t[k].len(); } }
      for k in 0..t.len() { if t[k].len() > 1 { for cut in 1..t[k].len() { if t[k].is_char_boundary(cut) { let mut u = t.clone(); u[k] = format!("{}{}{}", &t[k][..cut], ws, &t[k][cut..]); check(&u.concat(), false, rec); } } } }
    }
  });
  let vocab = ["matching", "notEmpty", "eachKey", "eachValue", "atLeast", "atMost", "(", ")", ",", "$", "'a'", "''", "type", "equalTo", "number", "integer", "decimal", "datetime", "regex", "boolean", "semver", "fromProviderState", "fromProviderStates", "null", "true", "1", "-1", "1.5", ".5", "1.", "x", "#", "'", "\\", "é", "-", ".", "\"a\"", "Matching", "TYPE"];
  let edits: Vec<(usize, usize)> = edit.iter().enumerate().flat_map(|(i, t)| (0..=t.len()).map(move |k| (i, k))).collect();
  run.each("edits", "every form with any one token removed, replaced or inserted (with and without a space), doubled or swapped with its neighbour, and cut off there", &edits, |(i, k), rec| {
    let t = &edit[*i];
    rec.case(format!("{} at {}", t.concat(), k));
    let mut go = |u: &[String]| { let s = u.concat(); rec.state(&s); check(&s, false, rec); check(&u.join(" "), false, rec); };
    go(&t[..*k]);
    for v in vocab { let mut u = t.clone(); u.insert(*k, v.into()); go(&u); if *k < t.len() { let mut u = t.clone(); u[*k] = v.into(); go(&u); } }
    if *k < t.len() { let mut u = t.clone(); u.remove(*k); go(&u); let mut u = t.clone(); u.insert(*k, t[*k].clone()); go(&u); if *k + 1 < t.len() { let mut u = t.clone(); u.swap(*k, *k + 1); go(&u); } }
  });
  let words: Vec<&str> = vocab[..if run.thorough { vocab.len() } else { 32 }].to_vec();
  let n = if run.thorough { 5 } else { 4 };
  run.explore("token sequences", "every sequence of tokens up to a length, alone and after \"matching(\" or a complete definition", seq_count(words.len(), n), |i, rec| {
    let s: String = seq_at(i, words.len()).iter().map(|k| words[*k]).collect();
    rec.case(s.clone()); rec.state(&s);
    check(&s, false, rec);
    if seq_at(i, words.len()).len() < n { check(&format!("matching({}", s), false, rec); check(&format!("matching({})", s), false, rec); check(&format!("atMost(1){}", s), false, rec); }
  });
  let sym = ["'", "\\", "n", "u", "{", "}", "0", "4", "-", "+", ".", ",", ")", " ", "é", "$", "D"];
  let n = if run.thorough { 5 } else { 4 };
  run.explore("texts", "every text over quote, backslash, escape letters, digits, punctuation and non-ASCII up to a length, in each place of a definition", seq_count(sym.len(), n), |i, rec| {
    let s: String = seq_at(i, sym.len()).iter().map(|k| sym[*k]).collect();
    rec.case(format!("{:?}", s)); rec.state(&s);
    for (a, b) in [("matching(include,'", "')"), ("matching(type,'", "')"), ("matching(number,", ")"), ("matching(type,", ")"), ("matching(regex,'a", "','b')"), ("matching(date,'", "',fromProviderState('x','y'))"), ("notEmpty(fromProviderState('", "',1))"), ("matching($'", "')"), ("atLeast(1", ")"), ("atMost(1)", ""), ("", "")] { check(&format!("{}{}{}", a, s, b), false, rec); }
  });
  let hex: Vec<String> = ["0041", "00e9", "00E9", "D83D", "1F600", "110000", "0", "", "G", "00000000000041", "1F60G", "+041", " 041", "FFFFFFFFFF", "10FFFF", "DFFF"].iter().map(|s| s.to_string()).collect();
  run.each("unicode escapes", "every spelling of a unicode escape", &hex, |h, rec| {
    rec.case(h.clone());
    for e in [format!("\\u{}", h), format!("\\u{{{}}}", h), format!("\\u{{{}", h), format!("\\U{}", h)] { for s in [format!("matching(include,'{}')", e), format!("matching(type,'x{}y')", e), format!("notEmpty('{}z')", e)] { rec.state(&s); check(&s, false, rec); } }
  });
  run.each("escaped quotes", "a string with an escaped quote in each place a string can stand", &["matching(type,'it\\'s')", "matching(include,'it\\'s')", "matching($'it\\'s')"], |s, rec| { rec.case(s.to_string()); rec.state(s); check(s, true, rec); });
  let ts = [ValueType::Unknown, ValueType::String, ValueType::Number, ValueType::Integer, ValueType::Decimal, ValueType::Boolean];
  run.pairs("value types", "every pair of value types", &ts, &ts, |a, b, rec| { rec.case(format!("{:?} {:?}", a, b)); rec.state(&format!("{:?}{:?}", a, b)); rec.steps(1); rec.eq("merged type", &merge_types(*a, *b), &a.merge(*b)); });
}
