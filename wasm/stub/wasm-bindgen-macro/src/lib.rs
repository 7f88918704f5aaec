//! `#[wasm_bindgen]` for the host: leaves the item as it is; a struct or enum can become a JsValue.
use proc_macro::{Delimiter, TokenStream, TokenTree};

#[proc_macro_attribute]
pub fn wasm_bindgen(_attr: TokenStream, item: TokenStream) -> TokenStream {
    let item = strip(item);
    let mut name = None;
    let mut toks = item.clone().into_iter();
    while let Some(t) = toks.next() {
        if let TokenTree::Ident(i) = &t {
            match i.to_string().as_str() {
                "struct" | "enum" => {
                    if let Some(TokenTree::Ident(n)) = toks.next() {
                        name = Some(n.to_string());
                    }
                    break;
                }
                "impl" | "fn" | "extern" | "mod" | "trait" => break,
                _ => {}
            }
        }
    }
    let mut out = item;
    if let Some(n) = name {
        let code = format!(
            "impl ::core::convert::From<{n}> for ::wasm_bindgen::JsValue {{ fn from(v: {n}) -> Self {{ ::wasm_bindgen::JsValue::object(v) }} }}"
        );
        out.extend(code.parse::<TokenStream>().unwrap());
    }
    out
}

/// drops nested `#[wasm_bindgen(..)]` attributes
fn strip(ts: TokenStream) -> TokenStream {
    let mut out: Vec<TokenTree> = vec![];
    let mut it = ts.into_iter().peekable();
    while let Some(t) = it.next() {
        if let TokenTree::Punct(p) = &t {
            if p.as_char() == '#' {
                if let Some(TokenTree::Group(g)) = it.peek() {
                    if g.delimiter() == Delimiter::Bracket {
                        if let Some(TokenTree::Ident(i)) = g.stream().into_iter().next() {
                            if i.to_string() == "wasm_bindgen" {
                                it.next();
                                continue;
                            }
                        }
                    }
                }
            }
        }
        if let TokenTree::Group(g) = &t {
            let mut n = proc_macro::Group::new(g.delimiter(), strip(g.stream()));
            n.set_span(g.span());
            out.push(TokenTree::Group(n));
        } else {
            out.push(t);
        }
    }
    out.into_iter().collect()
}
