//! Stands in for strum: `iter` of an enum without data, as its own function
//! rather than a trait's.
use proc_macro::{TokenStream, TokenTree};

#[proc_macro_derive(EnumIter, attributes(strum))]
pub fn enum_iter(item: TokenStream) -> TokenStream {
    let mut tokens = item.into_iter();
    let mut name = String::new();
    while let Some(t) = tokens.next() {
        if t.to_string() == "enum" {
            name = tokens.next().unwrap().to_string();
            break;
        }
    }
    let Some(TokenTree::Group(body)) = tokens.last() else { panic!("an enum") };
    let mut all = vec![];
    let mut fresh = true;
    for t in body.stream() {
        match t {
            TokenTree::Ident(i) if fresh => {
                all.push(format!("{name}::{i}"));
                fresh = false;
            }
            TokenTree::Punct(p) if p.as_char() == ',' => fresh = true,
            _ => (),
        }
    }
    format!("impl {name} {{ pub fn iter() -> std::vec::IntoIter<Self> {{ vec![{}].into_iter() }} }}", all.join(",")).parse().unwrap()
}
