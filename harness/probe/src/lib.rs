//! An attribute that shows the item it is applied to, as it is: `SHOW_TOKEN` or `SHOW_PARSER` is its text.
use proc_macro::{Delimiter, Group, Ident, Literal, Punct, Spacing, Span, TokenStream, TokenTree};

/// Remove the `#[vp ...]` attributes, that mean nothing to the compiler.
fn strip(ts: TokenStream) -> TokenStream {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut o = Vec::new();
    let mut i = 0;
    while i < v.len() {
        if let (TokenTree::Punct(p), Some(TokenTree::Group(g))) = (&v[i], v.get(i + 1)) {
            let ours = matches!(g.stream().into_iter().next(), Some(TokenTree::Ident(ref n)) if n.to_string() == "vp");
            if p.as_char() == '#' && g.delimiter() == Delimiter::Bracket && ours {
                i += 2;
                continue;
            }
        }
        o.push(match &v[i] {
            TokenTree::Group(g) => {
                let mut n = Group::new(g.delimiter(), strip(g.stream()));
                n.set_span(g.span());
                TokenTree::Group(n)
            }
            x => x.clone(),
        });
        i += 1;
    }
    o.into_iter().collect()
}

#[proc_macro_attribute]
pub fn show(_args: TokenStream, item: TokenStream) -> TokenStream {
    let text = item.to_string();
    let kind = if item.clone().into_iter().any(|t| t.to_string() == "enum") { "SHOW_TOKEN" } else { "SHOW_PARSER" };
    let sp = Span::call_site();
    let mut o = strip(item);
    let id = |s: &str| TokenTree::Ident(Ident::new(s, sp));
    let p = |c: char| TokenTree::Punct(Punct::new(c, Spacing::Alone));
    o.extend([id("pub"), id("const"), id(kind), p(':'), p('&'), id("str"), p('='), TokenTree::Literal(Literal::string(&text)), p(';')]);
    o
}
