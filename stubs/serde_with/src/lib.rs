//! Offline stand-in for `serde_with`: only `skip_serializing_none` on structs with named fields.
use proc_macro::{Delimiter, Group, TokenStream, TokenTree};

fn fields(body: TokenStream) -> TokenStream {
  let mut out: Vec<TokenTree> = vec![];
  let mut field: Vec<TokenTree> = vec![]; let mut depth = 0;
  let mut flush = |field: &mut Vec<TokenTree>| {
    // attributes first, then the visibility, the name, a colon and the type
    let mut i = 0;
    while matches!(&field.get(i), Some(TokenTree::Punct(p)) if p.as_char() == '#') { i += 2; }
    let colon = field.iter().skip(i).position(|t| matches!(t, TokenTree::Punct(p) if p.as_char() == ':')).map(|p| p + i);
    let option = colon.map(|c| matches!(field.get(c + 1), Some(TokenTree::Ident(n)) if n.to_string() == "Option")).unwrap_or(false);
    let attrs = field.drain(..i).collect::<Vec<_>>();
    out.extend(attrs);
    if option { out.extend("#[serde(skip_serializing_if = \"Option::is_none\")]".parse::<TokenStream>().unwrap()); }
    out.append(field);
  };
  for t in body {
    let mut end = false;
    if let TokenTree::Punct(p) = &t { match p.as_char() { '<' => depth += 1, '>' => depth -= 1, ',' => end = depth == 0, _ => {} } }
    field.push(t);
    if end { flush(&mut field); }
  }
  if !field.is_empty() { flush(&mut field); }
  out.into_iter().collect()
}
#[proc_macro_attribute]
pub fn skip_serializing_none(_: TokenStream, item: TokenStream) -> TokenStream {
  item.into_iter().map(|t| match t { TokenTree::Group(g) if g.delimiter() == Delimiter::Brace => TokenTree::Group(Group::new(Delimiter::Brace, fields(g.stream()))), t => t }).collect()
}
