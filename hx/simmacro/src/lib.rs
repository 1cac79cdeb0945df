//! The stand-in for `#[tokio::main]`: an async function that gives a result is run to its end, one that gives none is what a
//! thread runs, and becomes a task; where it waits in `recv()` of a channel of the standard library, the task waits.
use proc_macro::{Delimiter, Group, Ident, Punct, Spacing, Span, TokenStream, TokenTree};
fn waits(s: TokenStream) -> TokenStream {
    let t: Vec<TokenTree> = s.into_iter().collect();
    let mut o: Vec<TokenTree> = vec![];
    let is = |i: usize, w: &str| t.get(i).map(|x| x.to_string() == w).unwrap_or(false);
    for i in 0..t.len() {
        match &t[i] {
            TokenTree::Group(g) => {
                let mut n = Group::new(g.delimiter(), waits(g.stream()));
                n.set_span(g.span());
                o.push(TokenTree::Group(n));
                if i >= 2 && g.delimiter() == Delimiter::Parenthesis && g.stream().is_empty() && is(i - 1, "recv") && is(i - 2, ".") && !(is(i + 1, ".") && is(i + 2, "await")) {
                    o.push(TokenTree::Punct(Punct::new('.', Spacing::Alone)));
                    o.push(TokenTree::Ident(Ident::new("await", Span::call_site())));
                }
            }
            x => o.push(x.clone()),
        }
    }
    o.into_iter().collect()
}
#[proc_macro_attribute]
pub fn main(_: TokenStream, item: TokenStream) -> TokenStream {
    let mut t: Vec<TokenTree> = item.into_iter().collect();
    let a = t.iter().position(|x| x.to_string() == "async").expect("async fn");
    t.remove(a);
    let result = t.windows(2).any(|w| w[0].to_string() == "-" && w[1].to_string() == ">");
    let body = match t.pop() { Some(TokenTree::Group(g)) => waits(g.stream()), _ => panic!("body") };
    let call: TokenStream = if result { "crate::sim::block_on" } else { "crate::sim::thread_main" }.parse().unwrap();
    let mut inner: Vec<TokenTree> = "async move".parse::<TokenStream>().unwrap().into_iter().collect();
    inner.push(TokenTree::Group(Group::new(Delimiter::Brace, body)));
    let mut whole: Vec<TokenTree> = call.into_iter().collect();
    whole.push(TokenTree::Group(Group::new(Delimiter::Parenthesis, inner.into_iter().collect())));
    t.push(TokenTree::Group(Group::new(Delimiter::Brace, whole.into_iter().collect())));
    t.into_iter().collect()
}
