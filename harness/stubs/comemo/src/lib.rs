//! Stands in for comemo: a memoized function is the function.
use proc_macro::TokenStream;

#[proc_macro_attribute]
pub fn memoize(_: TokenStream, item: TokenStream) -> TokenStream {
    item
}
