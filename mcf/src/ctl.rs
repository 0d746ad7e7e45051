//! Explores every order of the stopped calls of several controlled processes or threads, by running them again from
//! the start for every transition. States in which every process has seen the same and the files are the same are
//! explored once.
use crate::sys::{self, DIE, DONE, RUNNING, SHORT, SLOTS, STEP, TORN, WAITING};
use std::collections::{BTreeMap, HashSet, VecDeque};
use std::path::Path;
use std::sync::atomic::Ordering::SeqCst;

#[derive(Clone, Debug, PartialEq)]
pub struct Choice { pub who: usize, pub cmd: u32, pub arg: u64 }
#[derive(Clone, Debug, PartialEq, Hash)]
pub enum At { Stopped(String), Done(Vec<u8>), Dead }
pub type Files = BTreeMap<String, Vec<u8>>;
pub struct State { pub at: Vec<At>, pub sizes: Vec<u64>, pub key: u64, pub files: Files, pub done: Vec<Vec<String>> }

pub fn files(dir: &Path) -> Files {
  let mut out = Files::new();
  let Ok(l) = std::fs::read_dir(dir) else { return out };
  for e in l.flatten() {
    let n = e.file_name().to_string_lossy().to_string();
    if e.path().is_dir() { for (k, v) in files(&e.path()) { out.insert(format!("{}/{}", n, k), v); } out.insert(format!("{}/", n), vec![]); }
    else { out.insert(n, std::fs::read(e.path()).unwrap_or_default()); }
  }
  out
}

/// Runs the actors along `path`, and on from there as long as `visit` makes a choice. `threads`: as threads of one process.
pub fn replay(actors: &[Box<dyn Fn() -> Vec<u8>>], threads: bool, path: &[Choice], dir: &Path, reset: &dyn Fn(), visit: &mut dyn FnMut(&State) -> Option<Choice>) -> Result<(), String> {
  let sh = sys::shared();
  reset();
  let n = actors.len(); assert!(n <= SLOTS);
  for s in &sh.slots { s.state.store(RUNNING, SeqCst); s.go.store(0, SeqCst); s.hist.store(0, SeqCst); s.ops.store(0, SeqCst); s.out_len.store(0, SeqCst); }
  let mut pids = vec![];
  for i in 0..if threads { 1 } else { n } {
    let pid = unsafe { libc::fork() };
    if pid < 0 { return Err("fork".into()); }
    if pid == 0 {
      if threads {
        struct Ptr(*const dyn Fn() -> Vec<u8>); unsafe impl Send for Ptr {}
        let hs: Vec<_> = actors.iter().enumerate().map(|(i, a)| { let p = Ptr(&**a); std::thread::spawn(move || { let p = p; sys::control(i as i32); let r = unsafe { (*p.0)() }; sys::done(&r); }) }).collect();
        for h in hs { let _ = h.join(); }
      } else { sys::control(i as i32); let r = actors[i](); sys::done(&r); }
      sys::exit_now(0);
    }
    pids.push(pid);
  }
  let mut dead = vec![false; n];
  let settle = |dead: &[bool]| -> Result<(), String> {
    let start = std::time::Instant::now();
    loop {
      let e = sh.epoch.load(SeqCst);
      if (0..n).all(|i| dead[i] || sh.slots[i].state.load(SeqCst) != RUNNING) { return Ok(()); }
      sys::futex_wait(&sh.epoch, e, 200);
      if start.elapsed().as_secs() > 20 { return Err("no answer from the code under test".into()); }
    }
  };
  let op = |i: usize| String::from_utf8_lossy(&sh.slots[i].op[..sh.slots[i].op_len.load(SeqCst) as usize]).to_string();
  let mut done: Vec<Vec<String>> = vec![vec![]; n];
  let mut go = || -> Result<(), String> {
    settle(&dead)?;
    let mut at = 0;
    loop {
      let c = if at < path.len() { at += 1; path[at - 1].clone() } else {
        let at: Vec<At> = (0..n).map(|i| { let s = &sh.slots[i]; if dead[i] { At::Dead } else if s.state.load(SeqCst) == DONE { At::Done(s.out[..s.out_len.load(SeqCst) as usize].to_vec()) } else { At::Stopped(op(i)) } }).collect();
        let f = files(dir);
        // the last thing a dead process did stays part of the state, what it saw does not matter any more
        let seen: Vec<(u64, Option<String>)> = (0..n).map(|i| if dead[i] { (0, done[i].last().cloned()) } else { (sh.slots[i].hist.load(SeqCst), None) }).collect();
        let s = State { key: mccore::hash_of(&(&at, &f, &seen)), sizes: (0..n).map(|i| sh.slots[i].size.load(SeqCst)).collect(), at, files: f, done: done.clone() };
        match visit(&s) { Some(c) => c, None => return Ok(()) }
      };
      let s = &sh.slots[c.who];
      if dead[c.who] || s.state.load(SeqCst) != WAITING { return Err(format!("the run is not repeatable: {:?} of {:?}", c, path)); }
      match c.cmd { DIE => {} TORN => done[c.who].push(format!("part of a {}", op(c.who))), _ => done[c.who].push(op(c.who)) }
      s.state.store(RUNNING, SeqCst);
      s.arg.store(c.arg, SeqCst); s.go.store(c.cmd, SeqCst); sys::futex_wake(&s.go);
      if c.cmd == DIE || c.cmd == TORN {
        dead[c.who] = true;
        unsafe { let mut st = 0; libc::waitpid(pids[c.who], &mut st, 0); }
        pids[c.who] = 0;
      }
      settle(&dead)?;
    }
  };
  let r = go();
  for p in pids { if p != 0 { unsafe { libc::kill(p, libc::SIGKILL); let mut st = 0; libc::waitpid(p, &mut st, 0); } } }
  r
}

pub struct Limits { pub crashes: usize, pub shorts: usize, pub torn: &'static [f64] }
pub struct Counts { pub states: u64, pub transitions: u64, pub ends: u64 }

pub fn explore(actors: &[Box<dyn Fn() -> Vec<u8>>], threads: bool, lim: &Limits, dir: &Path, reset: &dyn Fn(), end: &mut dyn FnMut(&State, &[Choice]), state: &mut dyn FnMut(u64)) -> Result<Counts, String> {
  let mut seen = HashSet::new();
  let mut c = Counts { states: 0, transitions: 0, ends: 0 };
  let mut todo: VecDeque<Vec<Choice>> = VecDeque::new();
  todo.push_back(vec![]);
  // shortest histories first
  while let Some(mut path) = todo.pop_front() {
    let start = path.clone();
    let mut visit = |s: &State| -> Option<Choice> {
      c.transitions += 1;
      let used = |cmd: &[u32]| path.iter().filter(|c| cmd.contains(&c.cmd)).count();
      let (crashes, shorts) = (used(&[DIE, TORN]), used(&[SHORT]));
      let key = mccore::hash_of(&(s.key, crashes, shorts));
      if !seen.insert(key) { return None; }
      state(key); c.states += 1;
      let mut next: Vec<Choice> = vec![];
      for (i, a) in s.at.iter().enumerate() {
        let At::Stopped(op) = a else { continue };
        let mut add = |cmd, arg| next.push(Choice { who: i, cmd, arg });
        add(STEP, 0);
        let n = s.sizes[i];
        let parts: Vec<u64> = lim.torn.iter().map(|f| (n as f64 * f) as u64).filter(|k| *k > 0 && *k < n).collect();
        if !threads && crashes < lim.crashes { add(DIE, 0); if op == "write" { for k in &parts { add(TORN, *k); } } }
        if shorts < lim.shorts && op == "write" { for k in &parts { add(SHORT, *k); } }
      }
      if next.is_empty() { c.ends += 1; end(s, &path); return None; }
      for o in &next[1..] { let mut p = path.clone(); p.push(o.clone()); todo.push_back(p); }
      path.push(next[0].clone());
      Some(next[0].clone())
    };
    replay(actors, threads, &start, dir, reset, &mut visit)?;
  }
  Ok(c)
}
pub fn show(path: &[Choice], done: &[Vec<String>], names: &[&str]) -> String {
  let mut at = vec![0; names.len()]; let mut out: Vec<String> = vec![];
  for c in path {
    if c.cmd == DIE { out.push(format!("{} dies", names[c.who])); continue; }
    let op = done[c.who].get(at[c.who]).cloned().unwrap_or_default(); at[c.who] += 1;
    if op == "wait for a lock" { continue; }
    out.push(format!("{} {}{}", names[c.who], op, match c.cmd { TORN => format!(" ({} bytes) and dies", c.arg), SHORT => format!(" ({} bytes only)", c.arg), _ => String::new() }));
  }
  out.join("; ")
}
