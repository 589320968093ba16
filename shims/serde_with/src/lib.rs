//! Stand-in for `serde_with`: only `#[skip_serializing_none]`.
use proc_macro::TokenStream;
use quote::quote;
use syn::{parse_quote, Fields, ItemStruct, Type};
#[proc_macro_attribute]
pub fn skip_serializing_none(_: TokenStream, item: TokenStream) -> TokenStream {
    let mut s = syn::parse_macro_input!(item as ItemStruct);
    if let Fields::Named(n) = &mut s.fields {
        for f in n.named.iter_mut() {
            if let Type::Path(p) = &f.ty {
                if p.path.segments.last().map(|s| s.ident == "Option").unwrap_or(false) {
                    f.attrs.push(parse_quote!(#[serde(skip_serializing_if = "Option::is_none")]));
                }
            }
        }
    }
    quote!(#s).into()
}
