//! `#[tokio::main]`: a public function that runs the body to its end on the calling thread.
use proc_macro::{Delimiter, Group, TokenStream, TokenTree};
#[proc_macro_attribute]
pub fn main(_: TokenStream, f: TokenStream) -> TokenStream {
    let t: Vec<TokenTree> = f.into_iter().collect();
    let mut o: Vec<TokenTree> = vec![];
    let n = t.len();
    for (i, x) in t.into_iter().enumerate() {
        match x {
            TokenTree::Ident(a) if a.to_string() == "async" => { if !o.iter().any(|x| x.to_string() == "pub") { o.extend("pub".parse::<TokenStream>().unwrap()) } }
            TokenTree::Group(g) if i == n - 1 && g.delimiter() == Delimiter::Brace => {
                let mut b: TokenStream = "::tokio::vs_block_on".parse::<TokenStream>().unwrap();
                let inner = TokenStream::from_iter("async move".parse::<TokenStream>().unwrap().into_iter().chain([TokenTree::Group(g)]));
                b.extend([TokenTree::Group(Group::new(Delimiter::Parenthesis, inner))]);
                o.push(TokenTree::Group(Group::new(Delimiter::Brace, b)))
            }
            x => o.push(x),
        }
    }
    TokenStream::from_iter(o)
}
