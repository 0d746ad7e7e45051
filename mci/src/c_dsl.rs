//! C68: the patterns of the consumer DSL: the example and the matching rules of a pattern are those of its parts, each at its own place.
//! C69: the builders of the consumer DSL: a pact has what was asked for, and nothing else.
use mccore::{digits, seq_at, seq_count, Rec, Run};
use pact_consumer::builders::{InteractionBuilder, MessageInteractionBuilder, RequestBuilder, ResponseBuilder, SyncMessageInteractionBuilder};
use pact_consumer::patterns::{each_key, each_value, DateTime, EachKey, EachLike, EachValue, JsonPattern, Like, ObjectMatching, Pattern, StringPattern, Term};
use pact_consumer::prelude::{HttpPartBuilder, PactBuilder};
use pact_matching::json::match_json;
use pact_matching::{CoreMatchingContext, DiffConfig};
use pact_models::bodies::OptionalBody;
use pact_models::generators::{Generator, GeneratorCategory, Generators};
use pact_models::matchingrules::{MatchingRule, MatchingRuleCategory, MatchingRules, RuleLogic};
use pact_models::pact::{read_pact, Pact};
use pact_models::path_exp::{DocPath, PathToken};
use pact_models::v4::http_parts::{HttpRequest, HttpResponse};
use pact_models::v4::message_parts::MessageContents;
use regex::Regex;
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, HashMap};

/// A pattern, as a description.
#[derive(Clone, Debug)]
enum P { J(Value), A(Vec<P>), O(Vec<(String, P)>), Like(Box<P>), Each(Box<P>, Option<usize>), Term(&'static str, &'static str), Date(&'static str, &'static str), Obj(Box<P>, Vec<R>), Key(S), Val(Box<P>) }
#[derive(Clone, Debug)]
enum R { Key(S), Val(P) }
/// A pattern of text.
#[derive(Clone, Debug)]
enum S { T(&'static str), Like(Box<S>), Term(&'static str, &'static str), Date(&'static str, &'static str) }
use P::*;
type Rules = BTreeMap<String, Vec<String>>;
fn add(out: &mut Rules, at: &[PathToken], rule: &MatchingRule) { let l = out.entry(format!("{:?}", at)).or_default(); l.push(shown(rule)); l.sort(); }
/// The text of a rule, where the order of the rules of a definition does not matter.
fn shown(rule: &MatchingRule) -> String {
  match rule {
    MatchingRule::EachKey(d) | MatchingRule::EachValue(d) => { let mut l: Vec<String> = d.rules.iter().map(|r| match r { either::Either::Left(r) => shown(r), o => format!("{:?}", o) }).collect(); l.sort(); format!("{} {:?} {:?} {:?} {:?}", rule.name(), d.value, d.value_type, d.generator, l) }
    r => format!("{:?}", r),
  }
}
fn put(at: &[PathToken], t: PathToken) -> Vec<PathToken> { let mut v = at.to_vec(); v.push(t); v }
fn definition(kind: &str, value: String, rules: Rules) -> String { let mut l: Vec<String> = rules.into_values().flatten().collect(); l.sort(); format!("{} {:?} {:?} {:?} {:?}", kind, value, pact_models::matchingrules::expressions::ValueType::String, None::<Generator>, l) }
impl S {
  fn real(&self) -> StringPattern { match self { S::T(s) => (*s).into(), S::Like(s) => Like::<StringPattern>::new(s.real()).into(), S::Term(r, e) => Term::new(Regex::new(r).unwrap(), *e).into(), S::Date(f, e) => DateTime::new(*f, *e).into() } }
  fn example(&self) -> String { match self { S::T(s) => s.to_string(), S::Like(s) => s.example(), S::Term(_, e) | S::Date(_, e) => e.to_string() } }
  fn rules(&self, at: &[PathToken], out: &mut Rules) { match self { S::T(_) => {} S::Like(s) => { add(out, at, &MatchingRule::Type); s.rules(at, out) } S::Term(r, _) => add(out, at, &MatchingRule::Regex(r.to_string())), S::Date(f, _) => add(out, at, &MatchingRule::Timestamp(f.to_string())) } }
  fn each(&self) -> String { let mut r = Rules::new(); self.rules(&[PathToken::Root], &mut r); definition("each-key", self.example(), r) }
}
fn each_of(p: &P) -> String { let mut r = Rules::new(); p.rules(&[PathToken::Root], &mut r); definition("each-value", p.example().to_string(), r) }
impl P {
  fn real(&self) -> JsonPattern {
    match self {
      J(v) => v.clone().into(), A(l) => JsonPattern::Array(l.iter().map(|p| p.real()).collect()), O(l) => l.iter().map(|(k, p)| (k.clone(), p.real())).collect::<HashMap<_, _>>().into(),
      P::Like(p) => Like::<JsonPattern>::new(p.real()).into(),
      Each(p, None) => EachLike::new(p.real()).into(), Each(p, Some(n)) => EachLike::new(p.real()).with_min_len(*n).into(),
      P::Term(r, e) => Term::new(Regex::new(r).unwrap(), *e).into(), P::Date(f, e) => DateTime::new(*f, *e).into(),
      Obj(p, l) => ObjectMatching::new(p.real(), l.iter().map(|r| match r { R::Key(s) => each_key(s.real()).into(), R::Val(p) => each_value(p.real()).into() }).collect()).into(),
      Key(_) => unreachable!(), Val(p) => JsonPattern::pattern(EachValue::new(p.real())),
    }
  }
  fn example(&self) -> Value {
    match self {
      J(v) => v.clone(), A(l) => Value::Array(l.iter().map(|p| p.example()).collect()), O(l) => Value::Object(l.iter().map(|(k, p)| (k.clone(), p.example())).collect()),
      P::Like(p) | Obj(p, _) | Val(p) => p.example(), Each(p, n) => Value::Array(vec![p.example(); n.unwrap_or(1)]), P::Term(_, e) | P::Date(_, e) => json!(e), Key(s) => json!(s.example()),
    }
  }
  fn rules(&self, at: &[PathToken], out: &mut Rules) {
    match self {
      J(_) => {}
      A(l) => for (i, p) in l.iter().enumerate() { p.rules(&put(at, PathToken::Index(i)), out) },
      O(l) => for (k, p) in l { p.rules(&put(at, PathToken::Field(k.clone())), out) },
      P::Like(p) => { add(out, at, &MatchingRule::Type); p.rules(at, out) }
      Each(p, n) => { let each = put(at, PathToken::StarIndex); add(out, at, &MatchingRule::MinType(n.unwrap_or(1))); add(out, &put(&each, PathToken::Star), &MatchingRule::Type); p.rules(&each, out) }
      P::Term(r, _) => add(out, at, &MatchingRule::Regex(r.to_string())), P::Date(f, _) => add(out, at, &MatchingRule::Timestamp(f.to_string())),
      Key(s) => out.entry(format!("{:?}", at)).or_default().push(s.each()), Val(p) => out.entry(format!("{:?}", at)).or_default().push(each_of(p)),
      Obj(p, l) => {
        for r in l { let e = out.entry(format!("{:?}", at)).or_default(); e.push(match r { R::Key(s) => s.each(), R::Val(p) => each_of(p) }); e.sort(); }
        // the rules of a value are those of every value
        if let O(l) = &**p { for (_, p) in l { p.rules(&put(at, PathToken::Star), out) } }
      }
    }
  }
  fn name(&self) -> String { format!("{:?}", self) }
}
fn found(c: &MatchingRuleCategory, rec: &mut Rec) -> Rules {
  let mut out = Rules::new();
  for (p, l) in &c.rules { if l.rules.is_empty() { continue; } for r in &l.rules { add(&mut out, p.tokens(), r); } rec.check(l.rule_logic == RuleLogic::And, "logic", || format!("the rules of {} are combined with {:?}", p, l.rule_logic));
    // its text, which is what is in a pact file, is of the same expression
    rec.check(p.tokens().is_empty() || p.tokens().contains(&PathToken::Field(String::new())) || DocPath::new(p.to_string()).map(|q| q.tokens() == p.tokens()).unwrap_or(false), "path", || format!("the text {:?} is not {:?}", p.to_string(), p.tokens())); }
  out
}
fn texts() -> Vec<S> {
  vec![S::T(""), S::T("é x"), S::Like(Box::new(S::T("a"))), S::Term("^[a-z]+$", "abc"), S::Term("\\d", "a1b"), S::Date("yyyy-MM-dd", "2000-01-31"), S::Like(Box::new(S::Term("b", "b")))]
}
fn leaves() -> Vec<P> {
  vec![J(json!(null)), J(json!(1)), J(json!("a")), J(json!({"a": [1, null]})), P::Term("^a.*", "abc"), P::Date("yyyy-MM-dd HH:mm", "2000-01-31 10:11"), A(vec![]), O(vec![])]
}
/// Every way to put patterns in another.
fn wrapped(inner: &[P], keys: &[&str]) -> Vec<P> {
  let mut out = vec![];
  let term = P::Term("\\d+", "12");
  for p in inner {
    let p = || Box::new(p.clone());
    out.push(P::Like(p())); out.push(Each(p(), None));
    for n in [0, 1, 2, 3] { out.push(Each(p(), Some(n))); }
    out.push(A(vec![*p()])); out.push(A(vec![J(json!(1)), *p()])); out.push(A(vec![term.clone(), J(json!(null)), *p()]));
    for k in keys { out.push(O(vec![(k.to_string(), *p())])); }
    out.push(O(vec![("a".into(), term.clone()), ("b".into(), *p())]));
    out.push(Val(p()));
    let one = || Box::new(O(vec![("key1".into(), *p())]));
    out.push(Obj(one(), vec![])); out.push(Obj(one(), vec![R::Key(S::Term("^[a-z]+[0-9]$", "key9"))])); out.push(Obj(one(), vec![R::Val(P::Like(p()))])); out.push(Obj(one(), vec![R::Key(S::Term("^[a-z]+[0-9]$", "key9")), R::Val(P::Like(p()))]));
    out.push(Obj(Box::new(O(vec![("key1".into(), *p()), ("key2".into(), J(json!("x")))])), vec![R::Key(S::Like(Box::new(S::T("key"))))]));
  }
  out
}
/// What an example matches cannot be said when the pattern of each value is not that of the values.
fn own(p: &P) -> bool { match p { J(_) | P::Term(..) | P::Date(..) => true, A(l) => l.iter().all(own), O(l) => l.iter().all(|(_, p)| own(p)), P::Like(p) => own(p), Each(p, _) => own(p), Val(_) | Key(_) | Obj(..) => false } }
fn pattern(p: &P, rec: &mut Rec) {
  rec.case(p.name());
  let Some(real) = rec.no_panic("panic", || p.real()) else { return };
  let want = p.example();
  rec.steps(3);
  if !rec.eq("example", &want, &real.to_example()) { return; }
  if let Value::String(s) = &want { rec.eq("bytes", &s.as_bytes().to_vec(), &real.to_example_bytes()); }
  for (base, tokens) in [(DocPath::root(), vec![PathToken::Root]), (DocPath::root().join("x"), vec![PathToken::Root, PathToken::Field("x".into())]), (DocPath::new_unwrap("$[1]"), vec![PathToken::Root, PathToken::Index(1)])] {
    let mut c = MatchingRuleCategory::empty("body");
    if rec.no_panic("panic", || real.extract_matching_rules(base.clone(), &mut c)).is_none() { return; }
    let mut want = Rules::new(); p.rules(&tokens, &mut want);
    let got = found(&c, rec);
    rec.state(&format!("{:?}", got));
    if !rec.eq("rules", &want, &got) { return; }
  }
  // rules that were there before stay
  let mut c = MatchingRuleCategory::empty("body"); c.add_rule(DocPath::root(), MatchingRule::Equality, RuleLogic::And); real.extract_matching_rules(DocPath::root(), &mut c);
  let mut want2 = Rules::new(); p.rules(&[PathToken::Root], &mut want2); add(&mut want2, &[PathToken::Root], &MatchingRule::Equality);
  let got = found(&c, rec); rec.eq("kept", &want2, &got);
  if own(p) {
    let mut c = MatchingRuleCategory::empty("body"); real.extract_matching_rules(DocPath::root(), &mut c);
    let part = HttpRequest { body: OptionalBody::Present(want.to_string().into(), Some("application/json".into()), None), ..HttpRequest::default() };
    let r = match_json(&part, &part, &CoreMatchingContext::new(DiffConfig::NoUnexpectedKeys, &c, &HashMap::new()));
    rec.check(r.is_ok(), "self", || format!("the example does not match its own rules: {:?}", r));
    rec.trace();
  }
  rec.outcome(if want2.len() > 1 { "with rules" } else { "without rules" });
}
pub fn c68(run: &Run) {
  const KEYS: [&str; 9] = ["a", "a b", "", "*", "0", "a.b", "it's", "é", "[1]"];
  let l0 = leaves();
  let l1 = wrapped(&l0, &KEYS);
  run.each("flat", "every pattern with one pattern in it", &[l0.clone(), l1.clone()].concat(), |p, rec| pattern(p, rec));
  let l2 = wrapped(&l1, &["a", "x y"]);
  run.each("nested", "every pattern with such patterns in it", &l2, |p, rec| pattern(p, rec));
  if run.thorough { let base: Vec<P> = l1.clone(); let n = wrapped(&l2[..1], &["k"]).len() as u64; let _ = base;
    run.explore("deep", "every pattern with three patterns in one another", l2.len() as u64 * n, |i, rec| { let all = wrapped(std::slice::from_ref(&l2[(i / n) as usize]), &["k"]); pattern(&all[(i % n) as usize], rec) }); }
  run.pairs("siblings", "every two patterns in one array and in one object", &l1, &l1, |a, b, rec| { if a.name().len() + b.name().len() > if run.thorough { 4000 } else { 140 } { return; } for p in [A(vec![a.clone(), b.clone()]), O(vec![("a".into(), a.clone()), ("b".into(), b.clone())])] { pattern(&p, rec) } });
  run.each("text", "every pattern of text", &texts(), |s, rec| {
    rec.case(format!("{:?}", s)); rec.steps(2); rec.state(&format!("{:?}", s));
    let real = s.real();
    rec.eq("example", &s.example(), &real.to_example()); rec.eq("bytes", &s.example().into_bytes(), &real.to_example_bytes());
    let mut c = MatchingRuleCategory::empty("path"); real.extract_matching_rules(DocPath::empty(), &mut c); let mut w = Rules::new(); s.rules(&[], &mut w); let got = found(&c, rec); rec.eq("rules", &w, &got);
    let k = EachKey::new(s.real()); rec.eq("key-example", &s.example(), &k.to_example()); let mut c = MatchingRuleCategory::empty("body"); k.extract_matching_rules(DocPath::root(), &mut c); let got = found(&c, rec);
    rec.eq("key", &BTreeMap::from([(format!("{:?}", [PathToken::Root]), vec![s.each()])]), &got);
    rec.outcome("ok");
  });
  let docs: Vec<Value> = { let small = [json!(null), json!(1), json!(""), json!([]), json!({}), json!([null]), json!({"a": null}), json!({"a": null, "b": 1})]; let mut all = small.to_vec(); for a in &small { all.push(json!([a, null])); all.push(json!({"x": a})); for b in &small { all.push(json!({"x": a, "y": [b, {"z": a, "n": null}]})); } } all };
  run.each("nulls", "null fields of every document", &docs, |d, rec| {
    fn without(v: &Value) -> Value { match v { Value::Array(l) => Value::Array(l.iter().map(without).collect()), Value::Object(m) => Value::Object(m.iter().filter(|(_, v)| !v.is_null()).map(|(k, v)| (k.clone(), v.clone())).collect()), v => v.clone() } }
    // fields of the fields of an object are documented as left alone, or not, depending on what is read: only the outermost object and what is in arrays is judged
    rec.case(d.to_string()); rec.steps(1); rec.state(&d.to_string());
    let got = pact_consumer::util::strip_null_fields(d.clone());
    rec.eq("nulls", &without(d), &got); rec.outcome("ok");
  });
}

// --- C69
#[derive(Clone, Debug)]
enum Q { Method(&'static str), Verb(&'static str), Path(S), PathState(&'static str, S), Query(&'static str, S), Header(&'static str, S), HeaderState(&'static str, &'static str, S), Type(S), Html, JsonUtf8, Body(&'static str), Body2(&'static str, &'static str), JsonBody(P), BodyMatching(S), BodyMatching2(S, &'static str), Status(u16), Named(&'static str, u16) }
#[derive(Clone, Default, Debug)]
struct Http { method: String, path: String, query: BTreeMap<String, Vec<Option<String>>>, headers: BTreeMap<String, Vec<String>>, body: Option<(Vec<u8>, Option<String>)>, rules: BTreeMap<String, Rules>, generators: BTreeMap<String, String>, status: u16 }
/// How often each kind of thing has been given; a later body or path does not say what becomes of the rules of an earlier one.
fn kind(q: &Q) -> u8 { match q { Q::Path(_) | Q::PathState(..) => 1, Q::Body(_) | Q::Body2(..) | Q::JsonBody(_) | Q::BodyMatching(_) | Q::BodyMatching2(..) => 2, _ => 0 } }
fn has_rules(q: &Q) -> bool { let mut r = Rules::new(); match q { Q::Path(s) | Q::PathState(_, s) | Q::BodyMatching(s) | Q::BodyMatching2(s, _) => s.rules(&[], &mut r), Q::JsonBody(p) => p.rules(&[], &mut r), _ => {} } !r.is_empty() || matches!(q, Q::PathState(..)) }
const SINGLE: [&str; 1] = ["date"];
impl Http {
  fn header(&mut self, n: &str, s: &S) {
    let v: Vec<String> = if SINGLE.contains(&n.to_lowercase().as_str()) { vec![s.example().trim().to_string()] } else { s.example().split(',').map(|v| v.trim().to_string()).collect() };
    self.headers.entry(n.to_lowercase()).or_default().extend(v);
    s.rules(&[PathToken::Root, PathToken::Field(n.to_string())], self.rules.entry("header".into()).or_default());
  }
  fn told(&mut self, q: &Q) {
    let generator = |e: &str| format!("{:?}", Generator::ProviderStateGenerator(e.to_string(), Some(pact_models::expression_parser::DataType::STRING)));
    match q {
      Q::Method(m) | Q::Verb(m) => self.method = m.to_string(),
      Q::Path(s) | Q::PathState(_, s) => { self.path = s.example(); s.rules(&[], self.rules.entry("path".into()).or_default()); if let Q::PathState(e, _) = q { self.generators.insert("path []".into(), generator(e)); } }
      Q::Query(k, s) => { self.query.entry(k.to_string()).or_default().push(Some(s.example())); s.rules(&[PathToken::Root, PathToken::Field(k.to_string())], self.rules.entry("query".into()).or_default()); }
      Q::Header(n, s) => self.header(n, s),
      Q::HeaderState(n, e, s) => { self.header(n, s); self.generators.insert(format!("header {:?}", [PathToken::Root, PathToken::Field(n.to_string())]), generator(e)); }
      Q::Type(s) => self.header("content-type", s), Q::Html => self.header("content-type", &S::T("text/html")), Q::JsonUtf8 => self.header("content-type", &S::Term("^application/json; charset=(utf|UTF)-8$", "application/json; charset=utf-8")),
      Q::Body(b) => self.body = Some((b.as_bytes().to_vec(), None)), Q::Body2(b, t) => self.body = Some((b.as_bytes().to_vec(), Some(t.to_string()))),
      Q::JsonBody(p) => { self.body = Some((p.example().to_string().into_bytes(), Some("application/json".into()))); p.rules(&[PathToken::Root], self.rules.entry("body".into()).or_default()); }
      Q::BodyMatching(s) => { self.body = Some((s.example().into_bytes(), Some("text/plain".into()))); s.rules(&[PathToken::Root], self.rules.entry("body".into()).or_default()); }
      Q::BodyMatching2(s, t) => { self.body = Some((s.example().into_bytes(), Some(t.to_string()))); s.rules(&[PathToken::Root], self.rules.entry("body".into()).or_default()); }
      Q::Status(n) | Q::Named(_, n) => self.status = *n,
    }
  }
  fn check(mut self, rec: &mut Rec, part: &Self) { self.rules.retain(|_, r| !r.is_empty()); rec.check(format!("{:?}", self) == format!("{:?}", part), "part", || format!("expected {:?}\n  got {:?}", self, part)); }
}
fn part<H: HttpPartBuilder>(b: &mut H, q: &Q) {
  match q {
    Q::Header(n, s) => { b.header(*n, s.real()); } Q::HeaderState(n, e, s) => { b.header_from_provider_state(*n, *e, s.real()); } Q::Type(s) => { b.content_type(s.real()); } Q::Html => { b.html(); } Q::JsonUtf8 => { b.json_utf8(); }
    Q::Body(t) => { b.body(*t); } Q::Body2(t, c) => { b.body2(*t, *c); } Q::JsonBody(p) => { b.json_body(p.real()); } Q::BodyMatching(s) => { b.body_matching(s.real()); } Q::BodyMatching2(s, t) => { b.body_matching2(s.real(), *t); }
    _ => unreachable!(),
  }
}
fn request(b: &mut RequestBuilder, q: &Q) {
  match q {
    Q::Method(m) => { b.method(*m); } Q::Verb("GET") => { b.get(); } Q::Verb("POST") => { b.post(); } Q::Verb("PUT") => { b.put(); } Q::Verb(_) => { b.delete(); }
    Q::Path(s) => { b.path(s.real()); } Q::PathState(e, s) => { b.path_from_provider_state(*e, s.real()); } Q::Query(k, s) => { b.query_param(*k, s.real()); }
    q => part(b, q),
  }
}
fn response(b: &mut ResponseBuilder, q: &Q) {
  match q { Q::Status(n) => { b.status(*n); } Q::Named(n, _) => { match *n { "ok" => b.ok(), "created" => b.created(), "no_content" => b.no_content(), "unauthorized" => b.unauthorized(), "forbidden" => b.forbidden(), _ => b.not_found() }; } q => part(b, q) }
}
fn rules_of(m: &MatchingRules, rec: &mut Rec) -> BTreeMap<String, Rules> { m.rules.iter().map(|(n, c)| (n.to_string().to_lowercase(), found(c, rec))).filter(|(_, r)| !r.is_empty()).collect() }
fn gens_of(g: &Generators) -> BTreeMap<String, String> { g.categories.iter().flat_map(|(c, m)| m.iter().map(move |(p, g)| (format!("{} {:?}", format!("{:?}", c).to_lowercase(), p.tokens()), format!("{:?}", g)))).collect() }
fn body_of(b: &OptionalBody) -> Option<(Vec<u8>, Option<String>)> { match b { OptionalBody::Missing => None, b => Some((b.value().map(|v| v.to_vec()).unwrap_or_default(), b.content_type().map(|c| c.to_string()))) } }
fn headers_of(h: &Option<HashMap<String, Vec<String>>>) -> BTreeMap<String, Vec<String>> { h.iter().flatten().map(|(k, v)| (k.to_lowercase(), v.clone())).collect() }
fn req(r: &HttpRequest, rec: &mut Rec) -> Http { Http { method: r.method.clone(), path: r.path.clone(), query: r.query.clone().unwrap_or_default().into_iter().collect(), headers: headers_of(&r.headers), body: body_of(&r.body), rules: rules_of(&r.matching_rules, rec), generators: gens_of(&r.generators), status: 0 } }
fn res(r: &HttpResponse, rec: &mut Rec) -> Http { Http { headers: headers_of(&r.headers), body: body_of(&r.body), rules: rules_of(&r.matching_rules, rec), generators: gens_of(&r.generators), status: r.status, ..Http::default() } }
fn unsaid(ops: &[&Q]) -> bool {
  [1u8, 2].iter().any(|k| { let l: Vec<&&Q> = ops.iter().filter(|q| kind(q) == *k).collect(); l.len() > 1 && l[..l.len() - 1].iter().any(|q| has_rules(q)) })
  // the rules of a name that is given in different case
  || ops.iter().any(|q| matches!(q, Q::Header("X-A", s) if !matches!(s, S::T(_))))
}
fn common() -> Vec<Q> {
  let term = || S::Term("^\\w+$", "abc");
  vec![Q::Header("x-a", S::T("1")), Q::Header("X-A", S::T("2, 3")), Q::Header("x-a", term()), Q::Header("date", S::T(" Mon, 01 Dec 2008 01:15:39 GMT")), Q::Header("x y", term()), Q::HeaderState("x-s", "${s}", S::T("9")), Q::HeaderState("x-a", "${a}", term()), Q::Type(S::T("text/plain")), Q::Type(S::Like(Box::new(S::T("text/css")))), Q::Html, Q::JsonUtf8,
    Q::Body(""), Q::Body("é"), Q::Body2("<a/>", "application/xml"), Q::Body2("a,b", "text/csv;header=absent"), Q::JsonBody(P::O(vec![("a".into(), P::Like(Box::new(J(json!(1)))))])), Q::JsonBody(J(json!("text"))), Q::JsonBody(J(json!([1, null]))), Q::BodyMatching(S::T("plain")), Q::BodyMatching(term()), Q::BodyMatching2(term(), "application/x-thing")]
}
#[derive(Clone, Debug)]
enum I { Given(&'static str), With(&'static str, Value), Comment(&'static str), Test(&'static str), Key(&'static str), Pending(bool), Transport(&'static str) }
fn shared() -> Vec<I> { vec![I::Given("s1"), I::Given("é"), I::With("s1", json!({"a": 1, "b": {"c": null}})), I::With("s2", json!({})), I::Comment("c1"), I::Comment("c2"), I::Test("t1"), I::Test("t2"), I::Key("k1"), I::Key("k2"), I::Pending(true), I::Pending(false)] }
#[derive(Default, Debug)]
struct Said { states: Vec<Value>, comments: Vec<String>, test: Option<String>, key: Option<String>, pending: bool, transport: Option<String> }
impl Said {
  fn told(&mut self, i: &I) { match i { I::Given(s) => self.states.push(json!({"name": s})), I::With(s, p) => self.states.push(if p.as_object().unwrap().is_empty() { json!({"name": s}) } else { json!({"name": s, "params": p}) }), I::Comment(c) => self.comments.push(c.to_string()), I::Test(t) => self.test = Some(t.to_string()), I::Key(k) => self.key = Some(k.to_string()), I::Pending(p) => self.pending = *p, I::Transport(t) => self.transport = Some(t.to_string()) } }
  fn written(&self) -> Value { json!({"states": self.states, "text": self.comments, "test": self.test, "key": self.key, "pending": self.pending, "transport": self.transport}) }
}
fn read(i: &Value) -> Value {
  let c = i.get("comments").cloned().unwrap_or(json!({}));
  json!({"states": i.get("providerStates").cloned().unwrap_or(json!([])), "text": c.get("text").cloned().unwrap_or(json!([])), "test": c.get("testname"), "key": i.get("key"), "pending": i.get("pending").and_then(|p| p.as_bool()).unwrap_or(false), "transport": i.get("transport")})
}
fn contents_of(c: &MessageContents, rec: &mut Rec) -> Value { json!({"body": body_of(&c.contents).map(|(b, t)| json!([String::from_utf8_lossy(&b), t])), "metadata": c.metadata.iter().collect::<BTreeMap<_, _>>(), "rules": rules_of(&c.matching_rules, rec), "generators": gens_of(&c.generators)}) }
#[derive(Clone, Debug)]
enum M { Meta(&'static str, Value), Json(P), Body(&'static [u8], Option<&'static str>), Whole(usize), From(Value), RJson(P), RBody(&'static [u8], Option<&'static str>), RWhole(usize), MetaRule(&'static str) }
#[derive(Clone, Default)]
struct Part { body: Option<(String, Option<String>)>, metadata: BTreeMap<String, Value>, rules: BTreeMap<String, Rules>, generators: BTreeMap<String, String> }
impl Part {
  fn json(&mut self, p: &P) { self.body = Some((p.example().to_string(), Some("application/json".into()))); p.rules(&[PathToken::Root], self.rules.entry("body".into()).or_default()); }
  fn raw(&mut self, b: &[u8], t: Option<&str>) { self.body = Some((String::from_utf8_lossy(b).to_string(), t.map(|t| t.to_string()))); if let Some(t) = t { self.metadata.entry("contentType".into()).or_insert(json!(t)); } }
  fn whole(&mut self, i: usize, rec: &mut Rec) { let c = whole(i); self.body = body_of(&c.contents).map(|(b, t)| (String::from_utf8_lossy(&b).to_string(), t)); self.metadata.extend(c.metadata.clone()); for (n, r) in rules_of(&c.matching_rules, rec) { let e = self.rules.entry(n).or_default(); for (k, v) in r { let l = e.entry(k).or_default(); l.extend(v); l.sort(); } } self.generators.extend(gens_of(&c.generators)); }
  fn written(mut self) -> Value { self.rules.retain(|_, r| !r.is_empty()); json!({"body": self.body.map(|(b, t)| json!([b, t])), "metadata": self.metadata, "rules": self.rules, "generators": self.generators}) }
}
fn whole(i: usize) -> MessageContents {
  let mut c = MessageContents { contents: OptionalBody::Present(format!("{{\"n\":{}}}", i).into(), Some("application/json".into()), None), metadata: HashMap::from([(format!("m{}", i), json!(i))]), ..MessageContents::default() };
  if i > 0 { c.matching_rules.add_category("body").add_rule(DocPath::new_unwrap("$.n"), MatchingRule::Integer, RuleLogic::And); c.generators.add_generator_with_subcategory(&GeneratorCategory::BODY, DocPath::new_unwrap("$.n"), Generator::RandomInt(i as i32, 9)); }
  if i > 1 { c.matching_rules.add_category("metadata").add_rule(DocPath::new_unwrap("m2"), MatchingRule::Type, RuleLogic::And); c.generators.add_generator_with_subcategory(&GeneratorCategory::METADATA, DocPath::new_unwrap("m2"), Generator::RandomBoolean); }
  c
}
fn wait<T>(f: impl std::future::Future<Output = T>) -> T { tokio::runtime::Builder::new_current_thread().build().unwrap().block_on(f) }
fn messages() -> Vec<M> {
  let like = |v: Value| P::O(vec![("a".into(), P::Like(Box::new(J(v))))]);
  vec![M::Meta("k", json!("v")), M::Meta("k", json!({"n": 1})), M::Meta("contentType", json!("text/x")), M::Json(like(json!(1))), M::Json(J(json!([1]))), M::Body(b"plain", None), M::Body(b"x,y", Some("text/csv")), M::Body(b"", Some("text/plain")), M::MetaRule("k"), M::MetaRule("a.b")]
}
fn bodies(l: &[&M], response: bool) -> bool { let k = |m: &&&M| if response { false } else { matches!(m, M::Json(_) | M::Body(..) | M::Whole(_) | M::From(_)) }; let v: Vec<&&M> = l.iter().filter(k).collect(); v.len() > 1 && v[..v.len() - 1].iter().any(|m| match m { M::Json(P::J(_)) | M::Body(..) => false, _ => true }) }
pub fn c69(run: &Run) {
  std::env::set_var("PACT_DO_NOT_TRACK", "true"); std::env::remove_var("PACT_OVERWRITE"); std::env::remove_var("PACT_OUTPUT_DIR");
  let term = || S::Term("^/\\w*$", "/abc");
  let mut rq = common(); rq.extend([Q::Method("PATCH"), Q::Method("get"), Q::Verb("GET"), Q::Verb("POST"), Q::Verb("PUT"), Q::Verb("DELETE"), Q::Path(S::T("/a b")), Q::Path(S::T("")), Q::Path(term()), Q::PathState("/x/${id}", S::T("/x/1")), Q::PathState("${p}", term()), Q::Query("q", S::T("")), Q::Query("q", S::T("1&2")), Q::Query("q", S::Term("a", "a")), Q::Query("Q", S::T("x")), Q::Query("a[b]", S::Like(Box::new(S::T("y"))))]);
  let mut rs = common(); rs.extend([Q::Status(100), Q::Status(503), Q::Named("ok", 200), Q::Named("created", 201), Q::Named("no_content", 204), Q::Named("unauthorized", 401), Q::Named("forbidden", 403), Q::Named("not_found", 404)]);
  let len = if run.thorough { 3 } else { 2 };
  run.explore("requests", "every sequence of calls on a request", seq_count(rq.len(), len), |i, rec| {
    let ops: Vec<&Q> = seq_at(i, rq.len()).iter().map(|k| &rq[*k]).collect();
    rec.case(format!("{:?}", ops)); rec.state(&i);
    if unsaid(&ops) { rec.outcome("unspecified"); return; }
    let mut b = RequestBuilder::default(); let mut want = Http { method: "GET".into(), path: "/".into(), ..Http::default() };
    for q in &ops { rec.steps(1); want.told(q); if rec.no_panic("panic", || request(&mut b, q)).is_none() { return; } }
    let got = req(&b.build_v4(), rec); want.clone().check(rec, &got);
    let v3 = b.build(); let got = Http { method: v3.method, path: v3.path, query: v3.query.unwrap_or_default().into_iter().collect(), headers: headers_of(&v3.headers), body: body_of(&v3.body), rules: rules_of(&v3.matching_rules, rec), generators: gens_of(&v3.generators), status: 0 }; want.check(rec, &got);
    rec.trace(); rec.outcome("built");
  });
  run.explore("responses", "every sequence of calls on a response", seq_count(rs.len(), len), |i, rec| {
    let ops: Vec<&Q> = seq_at(i, rs.len()).iter().map(|k| &rs[*k]).collect();
    rec.case(format!("{:?}", ops)); rec.state(&i);
    if unsaid(&ops) { rec.outcome("unspecified"); return; }
    let mut b = ResponseBuilder::default(); let mut want = Http { status: 200, ..Http::default() };
    for q in &ops { rec.steps(1); want.told(q); if rec.no_panic("panic", || response(&mut b, q)).is_none() { return; } }
    let got = res(&b.build_v4(), rec); want.clone().check(rec, &got);
    let v3 = b.build(); let got = Http { headers: headers_of(&v3.headers), body: body_of(&v3.body), rules: rules_of(&v3.matching_rules, rec), generators: gens_of(&v3.generators), status: v3.status, ..Http::default() }; want.check(rec, &got);
    rec.trace(); rec.outcome("built");
  });
  let mut inter = shared(); inter.extend([I::Transport("grpc"), I::Transport("http")]);
  let n = if run.thorough { 4 } else { 3 };
  run.explore("interactions", "every sequence of calls on an interaction, in each kind of pact", 3 * seq_count(inter.len(), n), |i, rec| {
    let which = i % 3; let ops: Vec<&I> = seq_at(i / 3, inter.len()).iter().map(|k| &inter[*k]).collect();
    if which > 0 && ops.iter().any(|o| matches!(o, I::Transport(_))) { return; }
    rec.case(format!("{} {:?}", ["http", "message", "sync"][which as usize], ops)); rec.state(&i);
    let mut said = Said::default(); for o in &ops { said.told(o); }
    rec.steps(ops.len() as u64 + 1);
    macro_rules! call { ($b:expr, $o:expr) => { match $o { I::Given(s) => { $b.given(*s); } I::With(s, p) => { $b.given_with_params(*s, p); } I::Comment(c) => { $b.comment(*c); } I::Test(t) => { $b.test_name(*t); } I::Key(k) => { $b.with_key(*k); } I::Pending(p) => { $b.pending(*p); } I::Transport(_) => {} } } }
    let mut pact = PactBuilder::new_v4("c", "p");
    match which {
      0 => { pact.interaction("d", "", |mut b: InteractionBuilder| { for o in &ops { if let I::Transport(t) = o { b.transport(*t); } else { call!(b, o) } } b }); }
      1 => { pact.message_interaction("d", |mut b: MessageInteractionBuilder| { for o in &ops { call!(b, o) } b }); }
      _ => { pact.synchronous_message_interaction("d", |mut b: SyncMessageInteractionBuilder| { for o in &ops { call!(b, o) } b }); }
    }
    let built = pact.build(); let v = built.to_json(built.specification_version()).unwrap();
    let l = v["interactions"].as_array().unwrap();
    if !rec.check(l.len() == 1, "one", || format!("{} interactions", l.len())) { return; }
    rec.eq("kind", &json!(["Synchronous/HTTP", "Asynchronous/Messages", "Synchronous/Messages"][which as usize]), &l[0]["type"]);
    rec.eq("description", &json!("d"), &l[0]["description"]);
    let mut got = read(&l[0]);
    if said.key.is_none() { got["key"] = json!(null); } // a key is made when there is none
    rec.eq("interaction", &said.written(), &got);
    rec.trace(); rec.outcome("built");
  });
  let ms = messages();
  run.explore("messages", "every sequence of calls on a message, as a V4 and as a V3 message", 2 * seq_count(ms.len(), n), |i, rec| {
    let ops: Vec<&M> = seq_at(i / 2, ms.len()).iter().map(|k| &ms[*k]).collect();
    rec.case(format!("V{} {:?}", if i % 2 == 0 { 4 } else { 3 }, ops)); rec.state(&i);
    if bodies(&ops, false) { rec.outcome("unspecified"); return; }
    let mut b = MessageInteractionBuilder::new("m"); let mut want = Part::default();
    for m in &ops { rec.steps(1); match m { M::Meta(k, v) => { b.metadata(*k, v.clone()); want.metadata.insert(k.to_string(), v.clone()); } M::Json(p) => { b.json_body(p.real()); want.json(p); } M::Body(d, t) => { b.body(d.to_vec(), t.map(|t| t.to_string())); want.raw(d, *t); } M::MetaRule(k) => { let mut p = DocPath::root(); p.push_field(*k); b.message_contents.metadata_rules.get_or_insert_with(|| MatchingRuleCategory::empty("metadata")).add_rule(p.clone(), MatchingRule::Type, RuleLogic::And); add(want.rules.entry("metadata".into()).or_default(), p.tokens(), &MatchingRule::Type); } _ => {} } }
    let got = if i % 2 == 0 { contents_of(&b.build().contents, rec) } else { let m = b.build_v3(); contents_of(&MessageContents { contents: m.contents, metadata: m.metadata, matching_rules: m.matching_rules, generators: m.generators }, rec) };
    rec.eq("message", &want.written(), &got); rec.trace(); rec.outcome("built");
  });
  let mut sm = messages(); sm.extend([M::Whole(0), M::Whole(1), M::Whole(2), M::RJson(P::O(vec![("r".into(), P::Term("\\d", "1"))])), M::RJson(J(json!(2))), M::RBody(b"out", None), M::RBody(b"out", Some("text/csv")), M::RWhole(0), M::RWhole(1), M::RWhole(2)]);
  run.explore("request messages", "every sequence of calls on a synchronous message", seq_count(sm.len(), n), |i, rec| {
    let ops: Vec<&M> = seq_at(i, sm.len()).iter().map(|k| &sm[*k]).collect();
    rec.case(format!("{:?}", ops)); rec.state(&i);
    if bodies(&ops, false) { rec.outcome("unspecified"); return; }
    let mut b = SyncMessageInteractionBuilder::new("m"); let mut want = Part::default(); let mut out: Vec<Value> = vec![];
    for m in &ops {
      rec.steps(1);
      let mut r = Part::default();
      match m {
        M::Meta(k, v) => { b.request_metadata(*k, v.clone()); want.metadata.insert(k.to_string(), v.clone()); }
        M::Json(p) => { b.request_json_body(p.real()); want.json(p); } M::Body(d, t) => { b.request_body(d.to_vec(), t.map(|t| t.to_string())); want.raw(d, *t); } M::Whole(k) => { b.request_contents(&whole(*k)); want.whole(*k, rec); }
        M::MetaRule(k) => { let mut p = DocPath::root(); p.push_field(*k); b.request_contents.metadata_rules.get_or_insert_with(|| MatchingRuleCategory::empty("metadata")).add_rule(p.clone(), MatchingRule::Type, RuleLogic::And); add(want.rules.entry("metadata".into()).or_default(), p.tokens(), &MatchingRule::Type); } 
        M::RJson(p) => { b.response_json_body(p.real()); r.json(p); out.push(r.written()); } M::RBody(d, t) => { b.response_body(d.to_vec(), t.map(|t| t.to_string())); r.raw(d, *t); out.push(r.written()); } M::RWhole(k) => { b.response_contents(&whole(*k)); r.whole(*k, rec); out.push(r.written()); }
        _ => {}
      }
    }
    let built = b.build();
    let got = contents_of(&built.request, rec); rec.eq("request", &want.written(), &got);
    let got: Vec<Value> = built.response.iter().map(|r| contents_of(r, rec)).collect(); rec.eq("responses", &out, &got);
    rec.trace(); rec.outcome("built");
  });
  let froms = [json!({}), json!({"a": 1}), json!({"pact:content-type": "application/json"}), json!({"pact:content-type": "application/json", "contents": {"a": [1]}}), json!({"pact:content-type": "application/json", "contents": [1, "x"]})];
  run.each("contents", "message contents given as a map", &froms, |f, rec| {
    rec.case(f.to_string()); rec.steps(1); rec.state(&f.to_string());
    let mut b = MessageInteractionBuilder::new("m"); wait(b.contents_from(f.clone()));
    let want = match (f.get("pact:content-type"), f.get("contents")) { (Some(_), None) => None, (Some(_), Some(c)) => Some(c.clone()), _ => Some(f.clone()) };
    let got = b.build().contents.contents; rec.eq("contents", &want, &got.value().map(|v| serde_json::from_slice(&v).unwrap_or(json!("not JSON"))));
    if want.is_some() { rec.check(got.content_type().map(|c| c.is_json()).unwrap_or(false), "contents", || format!("{:?}", got)); }
    rec.outcome("ok");
  });
  let parts = [json!({"a": 1}), json!([1]), json!(2)];
  run.explore("synchronous contents", "synchronous message contents given as a map", 4 * 5 * 2, |i, rec| {
    let d = digits(i, &[4, 5, 2]);
    let mut m = Map::new(); let mut want: (Option<Value>, Vec<Value>) = (None, vec![]);
    if d[0] > 0 { m.insert("request".into(), parts[d[0] - 1].clone()); want.0 = Some(parts[d[0] - 1].clone()); }
    match d[1] { 0 => {} 1 => { m.insert("response".into(), json!({"r": 1})); want.1 = vec![json!({"r": 1})]; } 2 => { m.insert("response".into(), json!([])); } 3 => { m.insert("response".into(), json!([{"r": 1}])); want.1 = vec![json!({"r": 1})]; } _ => { m.insert("response".into(), json!([{"r": 1}, [2]])); want.1 = vec![json!({"r": 1}), json!([2])]; } }
    if d[2] == 1 { m.insert("pact:content-type".into(), json!("application/json")); }
    let v = Value::Object(m); rec.case(v.to_string()); rec.state(&v.to_string()); rec.steps(1);
    let mut b = SyncMessageInteractionBuilder::new("m"); wait(b.contents_from(v)); let built = b.build();
    let val = |c: &MessageContents| c.contents.value().map(|v| serde_json::from_slice::<Value>(&v).unwrap_or(json!("not JSON")));
    rec.eq("request", &want.0, &val(&built.request)); rec.eq("responses", &want.1.into_iter().map(Some).collect::<Vec<_>>(), &built.response.iter().map(val).collect::<Vec<_>>()); rec.outcome("ok");
  });
  // whole pacts, and what is in their files
  let dir = std::env::temp_dir().join(format!("c69-{}", std::process::id())); std::fs::create_dir_all(&dir).unwrap();
  let many = if run.thorough { 4 } else { 3 };
  run.explore("pacts", "every sequence of interactions of every kind in a pact, its iterators and the file they leave behind", 3 * seq_count(4, many), |i, rec| {
    let which = i % 3; let ops = seq_at(i / 3, 4);
    rec.case(format!("{} {:?}", ["http", "message", "v4"][which as usize], ops)); rec.state(&i); rec.steps(ops.len() as u64);
    if (which == 0 && ops.iter().any(|o| *o > 1)) || (which == 1 && ops.iter().any(|o| *o < 2)) || (which < 2 && ops.contains(&3)) { return; }
    let own = dir.join(format!("{}", i)); let _ = std::fs::remove_dir_all(&own);
    let mut p = match which { 0 => PactBuilder::new("c é", "p"), 1 => PactBuilder::new_v3_message("c é", "p"), _ => PactBuilder::new_v4("c é", "p") };
    p.with_output_dir(&own);
    for (n, o) in ops.iter().enumerate() {
      let d = format!("{}", n);
      match o {
        0 => { p.interaction(d.as_str(), "", |mut b| { b.request.path(format!("/{}", n)); b.response.status(200 + n as u16); b }); }
        1 => { p.interaction(d.as_str(), "Synchronous/HTTP", |mut b| { b.given("s"); b.request.post().path(format!("/{}", n)); b }); }
        2 => { p.message_interaction(d.as_str(), |mut b| { b.json_body(J(json!({"n": n})).real()); b }); }
        _ => { p.synchronous_message_interaction(d.as_str(), |mut b| { b.request_json_body(J(json!({"n": n})).real()); b.response_json_body(J(json!({"r": n})).real()); b }); }
      }
    }
    let built = p.build();
    let names = |p: &dyn Pact| p.interactions().iter().map(|i| (i.description(), i.is_request_response(), i.is_message())).collect::<Vec<_>>();
    rec.eq("names", &("c é".to_string(), "p".to_string()), &(built.consumer().name, built.provider().name));
    let want: Vec<(String, bool, bool)> = ops.iter().enumerate().map(|(n, o)| (format!("{}", n), *o < 2, *o == 2)).collect();
    rec.eq("interactions", &want, &names(&*built));
    if which == 0 { rec.outcome("built"); return; }
    let asked = |k: usize| ops.iter().enumerate().filter(|(_, o)| **o == k).map(|(n, _)| (format!("{}", n), format!("{{\"n\":{}}}", n))).collect::<Vec<_>>();
    let text = |b: &OptionalBody| b.value_as_string().unwrap_or_default();
    let got = if which == 1 { let it = p.v3_messages(); rec.eq("messages", &asked(2), &it.map(|m| (m.description.clone(), text(&m.contents))).collect::<Vec<_>>()) }
      else if i % 2 == 0 { let it = p.messages(); rec.eq("messages", &asked(2), &it.map(|m| (m.description.clone(), text(&m.contents.contents))).collect::<Vec<_>>()) }
      else { let it = p.synchronous_messages(); rec.eq("messages", &asked(3), &it.map(|m| (m.description.clone(), text(&m.request.contents))).collect::<Vec<_>>()) };
    if got {
      let file = own.join(built.default_file_name());
      match read_pact(&file) { Err(e) => rec.fail("file", format!("{}: {}", file.display(), e)), Ok(r) => { let mut l = names(&*r); l.sort(); rec.eq("file", &want, &l); rec.eq("file-names", &(built.consumer().name, built.provider().name), &(r.consumer().name, r.provider().name)); } }
    }
    let _ = std::fs::remove_dir_all(&own);
    rec.trace(); rec.outcome("written");
  });
  // where the iterators are used
  let stuck = std::sync::atomic::AtomicU64::new(0);
  std::env::set_var("TOKIO_WORKER_THREADS", "1");
  run.explore_on(2, "runtimes", "iterators of messages with generators, without a runtime, on a runtime of one thread, and on a worker of a runtime", 3 * 2 * 4 * 25, |i, rec| {
    let d = digits(i, &[3, 2, 4, 25]);
    rec.case(format!("{} {} of {} ({})", ["no runtime", "one thread", "worker"][d[0]], ["messages", "synchronous messages"][d[1]], d[2], d[3])); rec.state(&(d[0], d[1], d[2])); rec.steps(1);
    if stuck.load(std::sync::atomic::Ordering::Relaxed) > 3 { return; }
    let own = dir.join(format!("r{}", i)); let to = own.clone(); let (ctx, sync, n) = (d[0], d[1] == 1, d[2]);
    let (sx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
      let given = |i: usize| { let mut c = MessageContents { contents: OptionalBody::Present(format!("{{\"n\":{}}}", 70 + i).into(), Some("application/json".into()), None), ..MessageContents::default() }; c.generators.add_generator_with_subcategory(&GeneratorCategory::BODY, DocPath::new_unwrap("$.n"), Generator::RandomInt(1, 9)); c };
      let use_it = move || mccore::quiet(move || -> Vec<Value> {
        let value = |b: &OptionalBody| b.value().and_then(|v| serde_json::from_slice::<Value>(&v).ok()).map(|v| v["n"].clone()).unwrap_or(json!(null));
        if sync {
          let mut p = PactBuilder::new_v4("c", "p"); p.with_output_dir(&to);
          for k in 0..n { p.synchronous_message_interaction(format!("{}", k), |mut b| { b.request_contents(&given(k)); b.response_contents(&given(k)); b }); }
          p.synchronous_messages().flat_map(|m| { let mut v = vec![json!(m.description), value(&m.request.contents)]; v.extend(m.response.iter().map(|r| value(&r.contents))); v }).collect()
        } else {
          let mut p = PactBuilder::new_v3_message("c", "p"); p.with_output_dir(&to);
          for k in 0..n { let g = given(k); p.message_interaction(format!("{}", k), |mut b| { b.body(g.contents.value().unwrap(), Some("application/json".into())); b.message_contents.generators = Some(g.generators.clone()); b }); }
          p.v3_messages().flat_map(|m| vec![json!(m.description), value(&m.contents)]).collect()
        }
      });
      let out = match ctx {
        0 => use_it(),
        1 => tokio::runtime::Builder::new_current_thread().build().unwrap().block_on(async move { use_it() }),
        _ => { let r = tokio::runtime::Builder::new_multi_thread().worker_threads(2).build().unwrap(); let h = r.spawn(async move { use_it() }); r.block_on(h).unwrap() }
      };
      let _ = sx.send(out);
    });
    match rx.recv_timeout(std::time::Duration::from_secs(30)) {
      Err(_) => { stuck.fetch_add(1, std::sync::atomic::Ordering::Relaxed); rec.fail("stuck", "the iterator is never given") }
      Ok(Err(e)) => rec.fail("panic", e),
      Ok(Ok(l)) => {
        let each = if sync { 3 } else { 2 };
        if rec.check(l.len() == each * n, "messages", || format!("{:?}", l)) { for k in 0..n { rec.check(l[k * each] == json!(format!("{}", k)), "order", || format!("{:?}", l)); for v in &l[k * each + 1..(k + 1) * each] { rec.check(v.as_i64().map(|v| (1..=9).contains(&v)).unwrap_or(false), "generated", || format!("{:?}", l)); } } }
        rec.outcome("given");
      }
    }
    let _ = std::fs::remove_dir_all(&own);
    rec.trace();
  });
  let _ = std::fs::remove_dir_all(&dir);
}
