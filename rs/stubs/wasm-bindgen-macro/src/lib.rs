//! no-op: strips inner `#[wasm_bindgen(..)]` attributes (native targets never use them)
use proc_macro::*;
fn strip(ts: TokenStream) -> TokenStream {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut out = Vec::new();
    let mut i = 0;
    while i < v.len() {
        if let (TokenTree::Punct(p), Some(TokenTree::Group(g))) = (&v[i], v.get(i + 1)) {
            if p.as_char() == '#' && g.delimiter() == Delimiter::Bracket && g.stream().to_string().starts_with("wasm_bindgen") {
                i += 2;
                continue;
            }
        }
        match &v[i] {
            TokenTree::Group(g) => {
                let mut n = Group::new(g.delimiter(), strip(g.stream()));
                n.set_span(g.span());
                out.push(TokenTree::Group(n));
            }
            t => out.push(t.clone()),
        }
        i += 1;
    }
    out.into_iter().collect()
}
#[proc_macro_attribute]
pub fn wasm_bindgen(_a: TokenStream, item: TokenStream) -> TokenStream { strip(item) }
