//! Stand-in for `async-trait`: async methods become methods that return a boxed future.
use proc_macro::TokenStream;
use quote::{format_ident, quote};
use syn::visit_mut::{self, VisitMut};
use syn::{FnArg, ImplItem, Item, Lifetime, ReturnType, Signature, TraitItem};

struct Elided(Vec<Lifetime>);
impl Elided {
    fn fresh(&mut self) -> Lifetime {
        let l = Lifetime::new(&format!("'life{}", self.0.len()), proc_macro2::Span::call_site());
        self.0.push(l.clone());
        l
    }
}
impl VisitMut for Elided {
    fn visit_type_reference_mut(&mut self, t: &mut syn::TypeReference) {
        if t.lifetime.is_none() {
            t.lifetime = Some(self.fresh());
        }
        visit_mut::visit_type_reference_mut(self, t);
    }
    fn visit_lifetime_mut(&mut self, l: &mut Lifetime) {
        if l.ident == "_" {
            *l = self.fresh();
        }
    }
}

fn signature(sig: &mut Signature, send: bool) {
    sig.asyncness = None;
    let mut e = Elided(vec![]);
    let mut has_self = false;
    for a in &mut sig.inputs {
        match a {
            FnArg::Receiver(r) => {
                has_self = true;
                if let Some((_, l)) = &mut r.reference {
                    if l.is_none() {
                        let f = e.fresh();
                        *l = Some(f.clone());
                        let m = &r.mutability;
                        r.ty = Box::new(syn::parse_quote!(&#f #m Self));
                    }
                }
            }
            FnArg::Typed(t) => e.visit_type_mut(&mut t.ty),
        }
    }
    let explicit: Vec<Lifetime> = sig.generics.lifetimes().map(|l| l.lifetime.clone()).collect();
    let types: Vec<_> = sig.generics.type_params().map(|t| t.ident.clone()).collect();
    let fresh = e.0;
    for l in &fresh {
        sig.generics.params.insert(0, syn::parse_quote!(#l));
    }
    sig.generics.params.insert(0, syn::parse_quote!('async_trait));
    let wc = sig.generics.make_where_clause();
    for l in fresh.iter().chain(&explicit) {
        wc.predicates.push(syn::parse_quote!(#l: 'async_trait));
    }
    for t in &types {
        wc.predicates.push(syn::parse_quote!(#t: 'async_trait));
    }
    if has_self {
        wc.predicates.push(syn::parse_quote!(Self: 'async_trait));
    }
    let out = match &sig.output {
        ReturnType::Default => quote!(()),
        ReturnType::Type(_, t) => quote!(#t),
    };
    let s = if send { quote!(+ ::core::marker::Send) } else { quote!() };
    sig.output = syn::parse_quote!(-> ::core::pin::Pin<Box<dyn ::core::future::Future<Output = #out> #s + 'async_trait>>);
}

#[proc_macro_attribute]
pub fn async_trait(args: TokenStream, item: TokenStream) -> TokenStream {
    let send = !args.to_string().contains("?Send");
    let mut item = syn::parse_macro_input!(item as Item);
    match &mut item {
        Item::Impl(i) => {
            for it in &mut i.items {
                if let ImplItem::Fn(f) = it {
                    if f.sig.asyncness.is_some() {
                        signature(&mut f.sig, send);
                        let b = &f.block;
                        f.block = syn::parse_quote!({ Box::pin(async move #b) });
                    }
                }
            }
        }
        Item::Trait(t) => {
            for it in &mut t.items {
                if let TraitItem::Fn(f) = it {
                    if f.sig.asyncness.is_some() {
                        signature(&mut f.sig, send);
                        if let Some(b) = &f.default {
                            f.default = Some(syn::parse_quote!({ Box::pin(async move #b) }));
                        }
                    }
                }
            }
        }
        _ => panic!("async_trait on traits and impls only"),
    }
    let _ = format_ident!("unused");
    quote!(#item).into()
}
