//! Takes pieces of a source file: the named items and methods, and those of
//! the same file that they use, for files too entangled to include as a whole.
use proc_macro2::{TokenStream, TokenTree};
use quote::{quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use syn::{ImplItem, Item, ItemImpl};

/// The names in the tokens, those that are called after a dot or a path as `.name`.
fn idents(ts: TokenStream, out: &mut HashSet<String>) {
    let ts: Vec<_> = ts.into_iter().collect();
    for (k, t) in ts.iter().enumerate() {
        match t {
            TokenTree::Group(g) => idents(g.stream(), out),
            TokenTree::Ident(i) => {
                let after = k > 0 && matches!(&ts[k - 1], TokenTree::Punct(p) if matches!(p.as_char(), '.' | ':'));
                let path = k > 0 && matches!(&ts[k - 1], TokenTree::Punct(p) if p.as_char() == ':');
                let called = match ts.get(k + 1) {
                    Some(TokenTree::Group(g)) => g.delimiter() == proc_macro2::Delimiter::Parenthesis,
                    Some(TokenTree::Punct(p)) => p.as_char() == ':' || path,
                    _ => path,
                };
                if after && called {
                    out.insert(format!(".{i}"));
                }
                out.insert(i.to_string());
            }
            _ => (),
        }
    }
}
fn name_of(i: &Item) -> Option<String> {
    Some(match i {
        Item::Fn(x) => x.sig.ident.to_string(),
        Item::Struct(x) => x.ident.to_string(),
        Item::Enum(x) => x.ident.to_string(),
        Item::Const(x) => x.ident.to_string(),
        Item::Static(x) => x.ident.to_string(),
        Item::Type(x) => x.ident.to_string(),
        Item::Trait(x) => x.ident.to_string(),
        Item::Macro(x) => x.ident.as_ref()?.to_string(),
        _ => return None,
    })
}
fn self_name(i: &ItemImpl) -> Option<String> {
    match &*i.self_ty {
        syn::Type::Path(p) => Some(p.path.segments.last()?.ident.to_string()),
        _ => None,
    }
}
fn for_tests(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| a.path().is_ident("cfg") && a.to_token_stream().to_string().contains("test"))
}

/// The text of `roots` (`name`, or `Type::method`) of the file and of what they
/// use there; what is in `given` is left to the includer.
pub fn extract(file: &str, roots: &[&str], given: &[&str]) -> String {
    println!("cargo:rerun-if-changed={file}");
    let text = std::fs::read_to_string(file).unwrap_or_else(|e| panic!("{file}: {e}"));
    let file = syn::parse_file(&text).unwrap();
    let given: HashSet<&str> = given.iter().copied().collect();
    let mut free: BTreeMap<String, Vec<&Item>> = BTreeMap::new();
    // The impl block and the item of each method, by type and name.
    let mut methods: BTreeMap<(String, String), (usize, usize)> = BTreeMap::new();
    let mut impls: Vec<&ItemImpl> = vec![];
    for i in &file.items {
        if let Some(n) = name_of(i) {
            free.entry(n).or_default().push(i);
        }
        if let Item::Impl(i) = i {
            if let (Some(t), false) = (self_name(i), for_tests(&i.attrs)) {
                if i.trait_.is_none() {
                    for (k, m) in i.items.iter().enumerate() {
                        let (n, attrs) = match m {
                            ImplItem::Fn(f) => (f.sig.ident.to_string(), &f.attrs),
                            ImplItem::Const(c) => (c.ident.to_string(), &c.attrs),
                            _ => continue,
                        };
                        if !for_tests(attrs) {
                            methods.insert((t.clone(), n), (impls.len(), k));
                        }
                    }
                }
                impls.push(i);
            }
        }
    }
    let mut work: Vec<String> = roots.iter().map(|s| s.to_string()).collect();
    let mut done: BTreeSet<String> = BTreeSet::new();
    let mut words: HashSet<String> = HashSet::new();
    let mut types: BTreeSet<String> = roots.iter().filter_map(|r| r.split_once("::").map(|r| r.0.to_string())).collect();
    let mut chosen: BTreeMap<usize, BTreeSet<usize>> = BTreeMap::new();
    let mut out = TokenStream::new();
    loop {
        while let Some(w) = work.pop() {
            if !done.insert(w.clone()) {
                continue;
            }
            if let Some((t, m)) = w.split_once("::") {
                let (i, k) = *methods.get(&(t.to_string(), m.to_string())).unwrap_or_else(|| panic!("no method {w}"));
                chosen.entry(i).or_default().insert(k);
                idents(impls[i].items[k].to_token_stream(), &mut words);
                idents(impls[i].generics.to_token_stream(), &mut words);
                continue;
            }
            let items = free.get(&w).unwrap_or_else(|| panic!("no item {w}"));
            for i in items {
                idents(i.to_token_stream(), &mut words);
                i.to_tokens(&mut out);
                if matches!(i, Item::Struct(_) | Item::Enum(_)) {
                    types.insert(w.clone());
                    for i in impls.iter().filter(|i| i.trait_.is_some() && self_name(i).as_ref() == Some(&w)) {
                        idents(i.to_token_stream(), &mut words);
                        i.to_tokens(&mut out);
                    }
                }
            }
        }
        for w in &words {
            if given.contains(w.as_str()) {
                continue;
            }
            if let Some(w) = w.strip_prefix('.') {
                for t in &types {
                    let m = format!("{t}::{w}");
                    if methods.contains_key(&(t.clone(), w.to_string())) && !done.contains(&m) && !given.contains(m.as_str()) {
                        work.push(m);
                    }
                }
            } else if free.contains_key(w) && !done.contains(w) {
                work.push(w.clone());
            }
        }
        if work.is_empty() {
            break;
        }
    }
    for (i, ks) in chosen {
        let i = impls[i];
        let (g, _, wh) = (i.generics.split_for_impl().0, (), &i.generics.where_clause);
        let t = &i.self_ty;
        let items = ks.iter().map(|k| &i.items[*k]);
        out.extend(quote! { impl #g #t #wh { #(#items)* } });
    }
    out.to_string()
}

/// Writes the pieces to `name` in the build's output directory.
pub fn write(name: &str, file: &str, roots: &[&str], given: &[&str]) {
    let dir = std::env::var("OUT_DIR").unwrap();
    std::fs::write(format!("{dir}/{name}"), extract(file, roots, given)).unwrap();
}
