//! C04: several writers and readers of one pact file, in every order of their file operations, with crashes.
use crate::ctl::{self, At, Limits, State};
use mccore::Run;
use pact_models::message_pact::MessagePact;
use pact_models::pact::{load_pact_from_json, read_pact, write_pact, Pact, ReadWritePact};
use pact_models::sync_pact::RequestResponsePact;
use pact_models::v4::pact::V4Pact;
use pact_models::PactSpecification;
use serde_json::{json, Value};
use std::path::{Path, PathBuf};

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind { V2, V3, V4, Message }
use Kind::*;
fn spec(k: Kind) -> PactSpecification { match k { V2 => PactSpecification::V2, V4 => PactSpecification::V4, _ => PactSpecification::V3 } }
fn doc(k: Kind, who: &[&str]) -> Value {
  let meta = json!({"pactSpecification": {"version": match k { V2 => "2.0.0", V4 => "4.0", _ => "3.0.0" }}});
  let item = |n: &str| match k {
    Message => json!({"description": n, "contents": "text", "metadata": {}}),
    V4 => json!({"type": "Synchronous/HTTP", "description": n, "request": {"method": "GET", "path": "/"}, "response": {"status": 200}}),
    _ => json!({"description": n, "request": {"method": "GET", "path": "/"}, "response": {"status": 200}}),
  };
  json!({"consumer": {"name": "c"}, "provider": {"name": "p"}, "metadata": meta, (if k == Message { "messages" } else { "interactions" }): who.iter().map(|n| item(n)).collect::<Vec<_>>()})
}
fn pact(k: Kind, who: &[&str]) -> Box<dyn Pact + Send + Sync + std::panic::RefUnwindSafe> { load_pact_from_json("doc", &doc(k, who)).unwrap() }

#[derive(Clone, Debug, PartialEq)]
enum Actor { Merge(&'static str), Replace(&'static str), Overwrite(&'static str), Read, ReadAs }
use Actor::*;
impl Actor {
  fn writes(&self) -> bool { matches!(self, Merge(_) | Replace(_) | Overwrite(_)) }
  fn show(&self) -> String { match self { Merge(n) => format!("writer {}", n), Replace(n) => format!("overwriting writer {}", n), Overwrite(n) => format!("overwrite_pact {}", n), Read => "reader".into(), ReadAs => "typed reader".into() } }
  fn run(&self, k: Kind, path: PathBuf) -> Box<dyn Fn() -> Vec<u8>> {
    let a = self.clone();
    Box::new(move || {
      let p = path.as_path();
      let r = mccore::quiet(|| match &a {
        Merge(n) => write_pact(pact(k, &[n]).boxed(), p, spec(k), false).map(|_| String::new()),
        Replace(n) => write_pact(pact(k, &[n]).boxed(), p, spec(k), true).map(|_| String::new()),
        Overwrite(n) => MessagePact::from_json("doc", &doc(k, &[n])).unwrap().overwrite_pact(p, spec(k)).map(|_| String::new()),
        Read => read_pact(p).and_then(|p| p.to_json(spec(k))).map(|v| v.to_string()),
        ReadAs => match k { V4 => V4Pact::read_pact(p).and_then(|p| p.to_json(spec(k))), Message => MessagePact::read_pact(p).and_then(|p| p.to_json(spec(k))), _ => RequestResponsePact::read_pact(p).and_then(|p| p.to_json(spec(k))) }.map(|v| v.to_string()),
      });
      match r { Ok(Ok(s)) => format!("ok{}", s), Ok(Err(e)) => format!("err{:#}", e), Err(e) => format!("panic{}", e) }.into_bytes()
    })
  }
}

struct Scenario { kind: Kind, initial: Option<Vec<&'static str>>, actors: Vec<Actor>, threads: bool, sub: bool, crashes: usize, shorts: usize }
impl Scenario {
  fn name(&self) -> String { format!("{:?} file {}{}: {}{}", self.kind, match &self.initial { None => "missing".into(), Some(l) => format!("with [{}]", l.join(" ")) }, if self.sub { " in a missing directory" } else { "" }, self.actors.iter().map(|a| a.show()).collect::<Vec<_>>().join(", "), if self.threads { " (threads)" } else { "" }) }
  fn path(&self, dir: &Path) -> PathBuf { if self.sub { dir.join("sub/deep/pact.json") } else { dir.join("pact.json") } }
  /// Contents after the writers in `seq`, one after another.
  fn after(&self, seq: &[usize]) -> Option<Vec<String>> { self.after_reset(seq, &[]) }
  /// The same when those of `reset` leave an empty file instead.
  fn after_reset(&self, seq: &[usize], reset: &[usize]) -> Option<Vec<String>> {
    let mut cur: Option<Vec<String>> = self.initial.as_ref().map(|l| l.iter().map(|s| s.to_string()).collect());
    for i in seq {
      if reset.contains(i) { cur = None; continue; }
      match &self.actors[*i] {
        Merge(n) => { let mut l = cur.unwrap_or_default(); if !l.contains(&n.to_string()) { l.push(n.to_string()); } l.sort(); cur = Some(l); }
        Replace(n) | Overwrite(n) => cur = Some(vec![n.to_string()]),
        _ => {}
      }
    }
    cur
  }
  /// The names in a complete pact document, if that is what it is.
  fn names(&self, b: &[u8]) -> Option<Vec<String>> {
    let v: Value = serde_json::from_slice(b).ok()?;
    let mut l: Vec<String> = v.get(if self.kind == Message { "messages" } else { "interactions" })?.as_array()?.iter().map(|i| i["description"].as_str().unwrap_or("?").to_string()).collect();
    if v["consumer"]["name"] != "c" || v["provider"]["name"] != "p" { return None; }
    l.sort(); Some(l)
  }
}
/// Every sequence without repetition of some of 0..n.
fn sequences(n: usize) -> Vec<Vec<usize>> {
  let mut out: Vec<Vec<usize>> = vec![vec![]]; let mut i = 0;
  while i < out.len() { for k in 0..n { if !out[i].contains(&k) { let mut s = out[i].clone(); s.push(k); out.push(s); } } i += 1; }
  out
}

fn judge(sc: &Scenario, s: &State, path: &[ctl::Choice], rec: &mut Log) {
  let names: Vec<String> = sc.actors.iter().map(|a| a.show()).collect();
  let names: Vec<&str> = names.iter().map(|s| s.as_str()).collect();
  let how = || ctl::show(path, &s.done, &names);
  let file = s.files.iter().find(|(k, _)| k.ends_with("pact.json")).map(|(_, v)| v.clone());
  let content = match &file { None => None, Some(b) => match sc.names(b) { Some(l) => Some(Ok(l)), None => Some(Err(String::from_utf8_lossy(b).to_string())) } };
  let ok: Vec<usize> = s.at.iter().enumerate().filter(|(i, a)| sc.actors[*i].writes() && matches!(a, At::Done(r) if r.starts_with(b"ok"))).map(|(i, _)| i).collect();
  let dead: Vec<usize> = s.at.iter().enumerate().filter(|(_, a)| **a == At::Dead).map(|(i, _)| i).collect();
  let possible: Vec<usize> = (0..sc.actors.len()).filter(|i| sc.actors[*i].writes()).collect();
  let seqs: Vec<Vec<usize>> = sequences(sc.actors.len()).into_iter().filter(|q| q.iter().all(|i| possible.contains(i))).collect();
  for (i, a) in s.at.iter().enumerate() { if let At::Done(r) = a { if r.starts_with(b"panic") { rec.fail("panic", format!("{}: {} after {}", names[i], String::from_utf8_lossy(r), how())); } } }
  let possible = |got: &Option<Vec<String>>, reset: &[usize]| seqs.iter().any(|q| ok.iter().all(|i| q.contains(i)) && sc.after_reset(q, reset) == *got);
  // some of the dead left an empty file behind
  let resets: Vec<Vec<usize>> = (1..1u32 << dead.len()).map(|m| dead.iter().enumerate().filter(|(i, _)| m >> i & 1 == 1).map(|(_, d)| *d).collect()).collect();
  let lost_by_crash = |got: &Option<Vec<String>>| resets.iter().any(|r| possible(got, r));
  match &content {
    Some(Err(text)) => {
      let mode = match dead.first().map(|i| &sc.actors[*i]) { Some(Merge(_)) if sc.initial.is_some() => "merging", Some(Merge(_)) => "creating", _ => "overwriting" };
      let msg = format!("the file is left as {:?}: {}", text.chars().take(30).collect::<String>(), how());
      if dead.is_empty() { 
        let unlocked = s.at.iter().enumerate().any(|(i, a)| sc.actors[i].writes() && matches!(a, At::Done(r) if r.starts_with(b"errCould not acquire")));
        if text.is_empty() && sc.initial.is_none() && ok.is_empty() && unlocked { rec.fail_key("writer @ a file being created: left empty without the lock".into(), msg) } else { rec.fail("torn", msg) }
      } else { rec.fail_key(format!("crash @ {}: the file is {}", mode, if text.is_empty() { "empty" } else { "torn" }), msg) }
    }
    other => {
      let got = other.clone().map(|r| r.unwrap());
if !possible(&got, &[]) { let key = if lost_by_crash(&got) { Some("crash @ merging: what the file held is lost") } else { None };
        rec.fail_as("lost", key, format!("after {:?} reported success the file holds {:?}: {}", ok.iter().map(|i| names[*i]).collect::<Vec<_>>(), got, how())); }
    }
  }
  for (i, a) in s.at.iter().enumerate() {
    let At::Done(r) = a else { continue };
    let r = String::from_utf8_lossy(r).to_string();
    if sc.actors[i].writes() {
      rec.outcome(if r.starts_with("ok") { "written" } else if r.contains("Could not acquire") { "no lock" } else { "write error" });
      // a writer that fails although nobody else died has a reason: it did not get the lock
      if r.starts_with("err") && dead.is_empty() && !r.contains("Could not acquire") { rec.fail("writer", format!("{} fails with {}: {}", names[i], r, how())); }
      continue;
    }
    if let Some(t) = r.strip_prefix("ok") {
      rec.outcome("read");
      let got = sc.names(t.as_bytes());
      if got.is_none() || !seqs.iter().any(|q| sc.after(q) == got) {
        let by_crash = got.is_some() && resets.iter().any(|r| seqs.iter().any(|q| sc.after_reset(q, r) == got));
        rec.fail_as("reader", if by_crash { Some("crash @ merging: what the file held is lost") } else { None }, format!("{} read {:?}: {}", names[i], got, how())); }
    } else if r.contains("Could not acquire") { rec.outcome("no lock"); }
    else if r.contains("No such file") && sc.initial.is_none() { rec.outcome("no file"); }
    else {
      rec.outcome("read error");
      if content.as_ref().map(|c| c.is_err()).unwrap_or(false) && !dead.is_empty() { continue; } // the torn file is reported above
      let msg = format!("{} fails with {}: {}", names[i], r, how());
      // a file that is only just being created
      if sc.initial.is_none() && dead.is_empty() && r.contains("EOF while parsing a value at line 1 column 0") { rec.fail_key("reader @ a file being created: it is still empty".into(), msg); continue; }
      if !dead.is_empty() && (r.contains("EOF while parsing") || r.contains("Failed to parse")) { rec.fail_key("crash @ reading afterwards: the file is empty or torn".into(), msg); continue; }
      rec.fail("reader", msg);
    }
  }
}

fn scenarios(thorough: bool) -> Vec<Scenario> {
  let mut out = vec![];
  let old = || Some(vec!["old"]);
  let mut add = |kind, initial: Option<Vec<&'static str>>, actors: Vec<Actor>, threads, sub, crashes, shorts| out.push(Scenario { kind, initial, actors, threads, sub, crashes, shorts });
  for k in [V3, V4] { for i in [None, old()] {
    add(k, i.clone(), vec![Merge("a"), Merge("b")], false, false, 0, 0);
    add(k, i.clone(), vec![Merge("a"), Read], false, false, 0, 0);
    add(k, i.clone(), vec![Merge("a")], false, false, 1, 1);
  } }
  for i in [None, old()] {
    add(V3, i.clone(), vec![Merge("a"), Replace("b")], false, false, 0, 0);
    add(V4, i.clone(), vec![Replace("a"), Read], false, false, 0, 0);
    add(V4, i.clone(), vec![Replace("a"), Replace("b")], false, false, 0, 0);
    add(Message, i.clone(), vec![Merge("a"), ReadAs], false, false, 0, 0);
    add(V4, i.clone(), vec![Merge("a"), ReadAs], false, false, 0, 0);
    add(V2, i.clone(), vec![Merge("a"), ReadAs], false, false, 0, 0);
    add(Message, i.clone(), vec![Overwrite("a"), Read], false, false, 0, 0);
    add(V3, i.clone(), vec![Merge("a"), Merge("b")], true, false, 0, 0);
    add(V4, i.clone(), vec![Merge("a"), Read], true, false, 0, 0);
    add(V4, i.clone(), vec![Merge("a"), Merge("b")], false, false, 1, 0);
    add(V4, i.clone(), vec![Replace("a")], false, false, 1, 1);
  }
  add(V4, None, vec![Merge("a"), Merge("b")], false, true, 0, 0);
  add(V4, old(), vec![Merge("a"), Read], false, false, 1, 0);
  if thorough { for k in [V2, V3, V4, Message] { for i in [None, old()] {
    add(k, i.clone(), vec![Merge("a"), Merge("b")], false, false, 2, 1);
    add(k, i.clone(), vec![Merge("a"), Read], false, false, 1, 1);
    add(k, i.clone(), vec![Merge("a"), Merge("b"), Read], false, false, 0, 0);
    add(k, i.clone(), vec![Merge("a"), Merge("b"), Merge("c")], false, false, 0, 0);
    add(k, i.clone(), vec![Merge("a"), Merge("b"), Merge("c")], true, false, 0, 0);
    add(k, i.clone(), vec![Replace("a"), Merge("b"), Read], true, false, 0, 0);
    if k == V4 || k == Message { add(k, i.clone(), vec![Merge("a"), Merge("b"), Read], false, false, 1, 0); }
  } } }
  out
}

/// What happened in a scenario, as found by a process of its own (which has one thread only, so that it can be copied).
struct Log(String);
impl Log {
  fn add(&mut self, what: &str, text: &str) { use std::fmt::Write; let _ = writeln!(self.0, "{} {}", what, text.replace('\n', " ")); }
  fn fail(&mut self, class: &str, msg: String) { self.add("FAIL", &format!("{}\t{}", class, msg)); }
  fn fail_as(&mut self, class: &str, key: Option<&str>, msg: String) { match key { Some(k) => self.fail_key(k.into(), msg), None => self.fail(class, msg) } }
  fn fail_key(&mut self, key: String, msg: String) { self.add("KEY", &format!("{}\t{}", key, msg)); }
  fn outcome(&mut self, o: &str) { self.add("OUTCOME", o); }
}
/// Explores one scenario and prints the log.
pub fn single(thorough: bool, i: usize) {
  let sc = &scenarios(thorough)[i];
  for k in [V2, V3, V4, Message] { let p = pact(k, &["x"]); let _ = p.merge(pact(k, &["y"]).as_ref()).and_then(|m| m.to_json(spec(k))); }
  let dir = std::env::temp_dir().join(format!("mcf-{}", std::process::id()));
  let path = sc.path(&dir);
  let initial = sc.initial.as_ref().map(|l| serde_json::to_string_pretty(&pact(sc.kind, l).to_json(spec(sc.kind)).unwrap()).unwrap());
  let reset = || {
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).unwrap();
    if let Some(t) = &initial { std::fs::write(&path, t).unwrap(); }
  };
  let actors: Vec<_> = sc.actors.iter().map(|a| a.run(sc.kind, path.clone())).collect();
  let lim = Limits { crashes: sc.crashes, shorts: sc.shorts, torn: &[0.0001, 0.5, 0.999] };
  let mut log = Log(String::new());
  let mut keys = vec![];
  let t = std::time::Instant::now();
  let r = ctl::explore(&actors, sc.threads, &lim, &dir, &reset, &mut |s, p| { log.add("TRACE", ""); judge(sc, s, p, &mut log) }, &mut |k| { keys.push(k); if keys.len() % 200 == 0 { println!("BEAT"); } });
  match r {
    Ok(c) => { log.add("STEPS", &c.transitions.to_string()); if std::env::var("MCF_SHOW").is_ok() { eprintln!("{} states {} transitions {} ends {:.1} s: {}", c.states, c.transitions, c.ends, t.elapsed().as_secs_f32(), sc.name()); } }
    Err(e) => log.fail("stuck", e),
  }
  for k in keys { log.add("STATE", &k.to_string()); }
  let _ = std::fs::remove_dir_all(&dir);
  println!("{}END", log.0);
}
pub fn c04(run: &Run) {
  let list = scenarios(run.thorough);
  let exe = std::env::current_exe().unwrap();
  run.explore("schedules", "every order of the file operations of two or three writers and readers (processes and threads), deaths at every operation and part-way through a write", list.len() as u64, |i, rec| {
    rec.case(list[i as usize].name());
    let mut child = match std::process::Command::new(&exe).args(["--scenario", if run.thorough { "thorough" } else { "quick" }, &i.to_string()]).stdout(std::process::Stdio::piped()).spawn() { Ok(c) => c, Err(e) => { rec.fail("stuck", e.to_string()); return; } };
    let mut ended = false;
    for l in std::io::BufRead::lines(std::io::BufReader::new(child.stdout.take().unwrap())) {
      let Ok(l) = l else { break };
      let (what, text) = l.split_once(' ').unwrap_or((&l, ""));
      let (key, msg) = text.split_once('\t').unwrap_or((text, ""));
      match what { "BEAT" => rec.beat(), "TRACE" => rec.trace(), "STEPS" => rec.steps(text.parse().unwrap_or(0)), "STATE" => rec.state(&(i, text)), "OUTCOME" => rec.outcome(text), "FAIL" => rec.fail(key, msg), "KEY" => rec.fail_key(key, msg), "END" => ended = true, _ => {} }
    }
    let _ = child.wait();
    if !ended { rec.fail("stuck", "the exploration of the scenario ended early"); }
  });
  run.assume("a process that dies leaves everything it wrote before with the kernel; loss of power is not explored");
}
