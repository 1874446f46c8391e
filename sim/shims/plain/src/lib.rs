//! `#[test]` that leaves the function as it is, so that generated tests can be called.
use proc_macro::TokenStream;

#[proc_macro_attribute]
pub fn test(_: TokenStream, item: TokenStream) -> TokenStream {
    item
}
