//! Offline stand-in for `async-trait`: the traits using it here are never made into objects, so the compiler's own
//! `async fn` in traits does.
use proc_macro::TokenStream;
#[proc_macro_attribute]
pub fn async_trait(_: TokenStream, item: TokenStream) -> TokenStream { item }
