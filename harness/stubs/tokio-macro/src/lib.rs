//! `#[tokio::main]` without the runtime: the body is polled until it is done.
extern crate proc_macro;
use proc_macro::{Delimiter, Group, TokenStream, TokenTree};
#[proc_macro_attribute]
pub fn main(_: TokenStream, item: TokenStream) -> TokenStream {
    let mut t: Vec<TokenTree> = item.into_iter().collect();
    let body = match t.pop() { Some(TokenTree::Group(g)) => g.stream(), _ => panic!("no function body") };
    let is = |t: &TokenTree, s: &str| matches!(t, TokenTree::Ident(i) if i.to_string() == s);
    if !t.iter().any(|x| is(x, "async")) { panic!("no async function") }
    let vis = if t.iter().any(|x| is(x, "pub")) { "" } else { "pub" };
    let mut out: TokenStream = vis.parse().unwrap();
    // attributes come first, then the visibility
    let mut head: Vec<TokenTree> = vec![];
    while matches!(t.first(), Some(TokenTree::Punct(p)) if p.as_char() == '#') { head.push(t.remove(0)); head.push(t.remove(0)) }
    let mut all: TokenStream = head.into_iter().collect();
    all.extend(out);
    out = all;
    out.extend(t.into_iter().filter(|x| !is(x, "async")));
    let inner: TokenStream = vec![TokenTree::Group(Group::new(Delimiter::Brace, body))].into_iter().collect();
    let mut call: TokenStream = "::tokio::runtime::block_on".parse().unwrap();
    let mut arg: TokenStream = "async move".parse().unwrap();
    arg.extend(inner);
    call.extend(vec![TokenTree::Group(Group::new(Delimiter::Parenthesis, arg))]);
    out.extend(vec![TokenTree::Group(Group::new(Delimiter::Brace, call))]);
    out
}
