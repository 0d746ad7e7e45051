//! Offline stand-in for `snailquote` 0.3.1, written from its documentation.
use std::borrow::Cow;
use std::fmt;
#[derive(Debug, Clone, PartialEq)]
pub struct UnescapeError(String);
impl fmt::Display for UnescapeError { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(&self.0) } }
impl std::error::Error for UnescapeError {}

pub fn escape(s: &str) -> Cow<'_, str> {
  let (mut needs, mut single) = (false, true);
  for c in s.chars() {
    needs |= match c {
      '\'' | '\\' => { single = false; true }
      '"' | ' ' => true,
      '(' | ')' | '&' | '~' | '$' | '#' | '`' | ';' | '*' | '?' | '!' | '[' | '>' | '<' | '|' => true,
      c if c.is_whitespace() || c.is_control() => { single = false; true }
      _ => false
    };
  }
  if !needs { return Cow::from(s); }
  if single { return format!("'{}'", s).into(); }
  let mut o = String::from("\"");
  for c in s.chars() {
    match c {
      '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), ' ' => o.push(c), '$' => o.push_str("\\$"), '`' => o.push_str("\\`"),
      c if c.is_whitespace() || c.is_control() => o.extend(c.escape_default()),
      c => o.push(c)
    }
  }
  o.push('"');
  o.into()
}

pub fn unescape(s: &str) -> Result<String, UnescapeError> {
  let (mut sq, mut dq) = (false, false);
  let mut o = String::new();
  let mut it = s.chars();
  while let Some(c) = it.next() {
    if sq { if c == '\'' { sq = false } else { o.push(c) } continue; }
    if dq && c == '"' { dq = false; continue; }
    match c {
      '\'' if !dq => sq = true,
      '"' if !dq => dq = true,
      '\\' => match it.next() {
        None => return Err(UnescapeError("invalid escape".into())),
        Some('a') => o.push('\u{7}'), Some('b') => o.push('\u{8}'), Some('v') => o.push('\u{b}'), Some('f') => o.push('\u{c}'),
        Some('n') => o.push('\n'), Some('r') => o.push('\r'), Some('t') => o.push('\t'), Some('e') | Some('E') => o.push('\u{1b}'),
        Some('u') => {
          if it.next() != Some('{') { return Err(UnescapeError("invalid unicode escape".into())); }
          let h: String = it.by_ref().take_while(|c| *c != '}').collect();
          o.push(u32::from_str_radix(&h, 16).ok().and_then(char::from_u32).ok_or_else(|| UnescapeError("invalid unicode escape".into()))?);
        }
        Some(c @ ('$' | '\\' | '`' | '"' | '\'' | ' ')) => o.push(c),
        Some(c) => return Err(UnescapeError(format!("invalid escape {}", c)))
      },
      c => o.push(c)
    }
  }
  Ok(o)
}
