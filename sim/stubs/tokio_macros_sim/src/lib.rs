//! `#[tokio::main]` on the simulated runtime.
use proc_macro::TokenStream;
use quote::quote;
fn wrap(item: TokenStream, test: bool) -> TokenStream {
    let mut f = syn::parse_macro_input!(item as syn::ItemFn);
    f.sig.asyncness = None;
    let (attrs, vis, sig, body) = (&f.attrs, &f.vis, &f.sig, &f.block);
    let t = if test { quote!(#[::core::prelude::v1::test]) } else { quote!() };
    quote! { #t #(#attrs)* #vis #sig { ::tokio::__sim::block_on(async #body) } }.into()
}
#[proc_macro_attribute]
pub fn main(_: TokenStream, item: TokenStream) -> TokenStream {
    wrap(item, false)
}
#[proc_macro_attribute]
pub fn test(_: TokenStream, item: TokenStream) -> TokenStream {
    wrap(item, true)
}
