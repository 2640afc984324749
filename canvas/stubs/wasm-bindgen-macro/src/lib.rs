//! A stand-in for the attribute: exported items stay as they are, imported functions do nothing.

use proc_macro::{Delimiter, Group, TokenStream, TokenTree};

#[proc_macro_attribute]
pub fn wasm_bindgen(_args: TokenStream, item: TokenStream) -> TokenStream {
    let tokens: Vec<TokenTree> = item.clone().into_iter().collect();
    let is = |i: usize, s: &str| tokens.get(i).is_some_and(|t| t.to_string() == s);
    let block = tokens.last().and_then(|t| match t {
        TokenTree::Group(g) if g.delimiter() == Delimiter::Brace => Some(g.stream()),
        _ => None,
    });
    let at = (0..tokens.len()).find(|i| is(*i, "extern"));
    match (at, block) {
        (Some(i), Some(b)) if i + 3 >= tokens.len() => imports(b),
        _ => item,
    }
}

fn imports(b: TokenStream) -> TokenStream {
    let mut out = TokenStream::new();
    let mut it = b.into_iter().peekable();
    let mut returns = false;
    while let Some(t) = it.next() {
        let s = t.to_string();
        if s == "#" {
            it.next();
            continue;
        }
        if s == "-" && it.peek().is_some_and(|n| n.to_string() == ">") {
            returns = true;
        }
        if s == ";" {
            let body: TokenStream = if returns { "unimplemented!()".parse().unwrap() } else { TokenStream::new() };
            out.extend([TokenTree::Group(Group::new(Delimiter::Brace, body))]);
            returns = false;
            continue;
        }
        if s == "fn" {
            out.extend("#[allow(unused)]".parse::<TokenStream>());
        }
        out.extend([t]);
    }
    out
}
