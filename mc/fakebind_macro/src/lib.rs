//! A `wasm_bindgen` attribute that does nothing, so that the binding layer compiles as plain Rust.
extern crate proc_macro;
use proc_macro::{Delimiter, Group, TokenStream, TokenTree};

#[proc_macro_attribute]
pub fn wasm_bindgen(_attr: TokenStream, item: TokenStream) -> TokenStream {
    strip(item)
}

/// Remove inner `#[wasm_bindgen(...)]` markers (constructor, skip, ...).
fn strip(ts: TokenStream) -> TokenStream {
    let mut out: Vec<TokenTree> = vec![];
    let mut it = ts.into_iter().peekable();
    while let Some(t) = it.next() {
        if let TokenTree::Punct(p) = &t {
            if p.as_char() == '#' {
                if let Some(TokenTree::Group(g)) = it.peek() {
                    let ours = g.delimiter() == Delimiter::Bracket
                        && matches!(g.stream().into_iter().next(), Some(TokenTree::Ident(i)) if i.to_string() == "wasm_bindgen");
                    if ours {
                        it.next();
                        continue;
                    }
                }
            }
        }
        match t {
            TokenTree::Group(g) => {
                let mut n = Group::new(g.delimiter(), strip(g.stream()));
                n.set_span(g.span());
                out.push(TokenTree::Group(n));
            }
            t => out.push(t),
        }
    }
    out.into_iter().collect()
}
