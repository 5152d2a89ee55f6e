//! `paste!`: joins the identifiers inside `[< >]`.
use proc_macro::{Delimiter, Group, Ident, Span, TokenStream, TokenTree};

#[proc_macro]
pub fn paste(input: TokenStream) -> TokenStream {
    walk(input)
}

fn flat(s: TokenStream, out: &mut String, span: &mut Option<Span>) {
    for t in s {
        match t {
            TokenTree::Ident(i) => {
                span.get_or_insert(i.span());
                out.push_str(&i.to_string());
            }
            TokenTree::Group(g) => flat(g.stream(), out, span),
            TokenTree::Punct(_) => {}
            TokenTree::Literal(l) => out.push_str(l.to_string().trim_matches('"')),
        }
    }
}

fn walk(input: TokenStream) -> TokenStream {
    let mut res = vec![];
    for t in input {
        match t {
            TokenTree::Group(g) => {
                let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                let n = inner.len();
                let p = |t: &TokenTree, c| matches!(t, TokenTree::Punct(p) if p.as_char() == c);
                if g.delimiter() == Delimiter::Bracket && n > 2 && p(&inner[0], '<') && p(&inner[n - 1], '>') {
                    let mut name = String::new();
                    let mut span = None;
                    flat(inner[1..n - 1].iter().cloned().collect(), &mut name, &mut span);
                    res.push(TokenTree::Ident(Ident::new(&name, span.unwrap_or_else(Span::call_site))));
                } else {
                    let mut n = Group::new(g.delimiter(), walk(g.stream()));
                    n.set_span(g.span());
                    res.push(TokenTree::Group(n));
                }
            }
            t => res.push(t),
        }
    }
    res.into_iter().collect()
}
