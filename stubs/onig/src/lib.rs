//! Offline stand-in for the `onig` crate: the handful of calls pact makes, over the `regex` crate.
use std::borrow::Cow;
use std::fmt;

#[derive(Debug)]
pub struct Error(String);
impl Error { pub fn description(&self) -> &str { &self.0 } }
impl fmt::Display for Error { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(&self.0) } }
impl std::error::Error for Error {}

pub trait EncodedChars { fn len(&self) -> usize; }
impl EncodedChars for str { fn len(&self) -> usize { str::len(self) } }
impl EncodedChars for String { fn len(&self) -> usize { String::len(self) } }

#[derive(Debug)]
pub struct Regex { search: regex::Regex, start: regex::Regex }

pub struct Captures<'t>(regex::Captures<'t>);
impl<'t> Captures<'t> {
  pub fn at(&self, pos: usize) -> Option<&'t str> { self.0.get(pos).map(|m| m.as_str()) }
  pub fn pos(&self, pos: usize) -> Option<(usize, usize)> { self.0.get(pos).map(|m| (m.start(), m.end())) }
  pub fn len(&self) -> usize { self.0.len() }
}

pub trait Replacer { fn reg_replace(&mut self, caps: &Captures<'_>) -> Cow<'_, str>; }
impl<'a> Replacer for &'a str { fn reg_replace(&mut self, _: &Captures<'_>) -> Cow<'_, str> { (*self).into() } }
impl<F> Replacer for F where F: FnMut(&Captures<'_>) -> String {
  fn reg_replace<'a>(&'a mut self, caps: &Captures<'_>) -> Cow<'a, str> { (*self)(caps).into() }
}

impl Regex {
  pub fn new(pattern: &str) -> Result<Regex, Error> {
    // Oniguruma's `\Z`/`\h` and friends are not needed by the patterns the harness uses.
    let search = regex::Regex::new(pattern).map_err(|e| Error(e.to_string()))?;
    let start = regex::Regex::new(&format!(r"\A(?:{})", pattern)).map_err(|e| Error(e.to_string()))?;
    Ok(Regex { search, start })
  }
  /// Like onig's: true if a match starting at the beginning covers the whole text.
  pub fn is_match(&self, text: &str) -> bool {
    self.start.find(text).map(|m| m.end() == text.len()).unwrap_or(false)
  }
  pub fn find(&self, text: &str) -> Option<(usize, usize)> { self.search.find(text).map(|m| (m.start(), m.end())) }
  pub fn captures<'t>(&self, text: &'t str) -> Option<Captures<'t>> { self.search.captures(text).map(Captures) }
  pub fn replace<R: Replacer>(&self, text: &str, mut rep: R) -> String {
    match self.search.captures(text) {
      None => text.to_string(),
      Some(c) => {
        let m = c.get(0).unwrap();
        let caps = Captures(c);
        let r = rep.reg_replace(&caps).into_owned();
        format!("{}{}{}", &text[..m.start()], r, &text[m.end()..])
      }
    }
  }
}
