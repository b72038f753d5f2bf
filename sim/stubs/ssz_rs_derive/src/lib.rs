//! Derives of the `ssz_rs` stand-in (named-field structs and transparent enums).
use proc_macro::TokenStream;
use proc_macro2::TokenStream as T2;
use quote::quote;
use syn::{parse_macro_input, Data, DeriveInput, Fields};

struct Info<'a> {
    input: &'a DeriveInput,
    names: Vec<&'a syn::Ident>,
    tys: Vec<&'a syn::Type>,
    variants: Vec<(&'a syn::Ident, &'a syn::Type)>,
}

fn info(input: &DeriveInput) -> Info<'_> {
    let mut names = vec![];
    let mut tys = vec![];
    let mut variants = vec![];
    match &input.data {
        Data::Struct(s) => match &s.fields {
            Fields::Named(f) => {
                for x in &f.named {
                    names.push(x.ident.as_ref().unwrap());
                    tys.push(&x.ty);
                }
            }
            _ => panic!("named fields only"),
        },
        Data::Enum(e) => {
            for v in &e.variants {
                match &v.fields {
                    Fields::Unnamed(f) if f.unnamed.len() == 1 => variants.push((&v.ident, &f.unnamed[0].ty)),
                    _ => panic!("one unnamed field per variant only"),
                }
            }
        }
        _ => panic!("unions are not supported"),
    }
    Info { input, names, tys, variants }
}

fn serializable(i: &Info) -> T2 {
    let name = &i.input.ident;
    let (ig, tg, wc) = i.input.generics.split_for_impl();
    if !i.variants.is_empty() {
        let v: Vec<_> = i.variants.iter().map(|v| v.0).collect();
        let t: Vec<_> = i.variants.iter().map(|v| v.1).collect();
        return quote! {
            impl #ig ::ssz_rs::Serializable for #name #tg #wc {
                fn is_variable_size() -> bool { true }
                fn size_hint() -> usize { 0 }
            }
            impl #ig ::ssz_rs::Serialize for #name #tg #wc {
                fn serialize(&self, buffer: &mut ::std::vec::Vec<u8>) -> ::std::result::Result<usize, ::ssz_rs::SerializeError> {
                    match self { #( Self::#v(x) => ::ssz_rs::Serialize::serialize(x, buffer), )* }
                }
            }
            impl #ig ::ssz_rs::Deserialize for #name #tg #wc {
                fn deserialize(encoding: &[u8]) -> ::std::result::Result<Self, ::ssz_rs::DeserializeError> {
                    #( if let Ok(x) = <#t as ::ssz_rs::Deserialize>::deserialize(encoding) { return Ok(Self::#v(x)); } )*
                    Err(::ssz_rs::DeserializeError::NoVariant)
                }
            }
        };
    }
    let names = &i.names;
    let tys = &i.tys;
    quote! {
        impl #ig ::ssz_rs::Serializable for #name #tg #wc {
            fn is_variable_size() -> bool { false #( || <#tys as ::ssz_rs::Serializable>::is_variable_size() )* }
            fn size_hint() -> usize {
                if Self::is_variable_size() { 0 } else { 0 #( + <#tys as ::ssz_rs::Serializable>::size_hint() )* }
            }
        }
        impl #ig ::ssz_rs::Serialize for #name #tg #wc {
            fn serialize(&self, buffer: &mut ::std::vec::Vec<u8>) -> ::std::result::Result<usize, ::ssz_rs::SerializeError> {
                let mut w = ::ssz_rs::ContainerWriter::default();
                #( w.field(&self.#names)?; )*
                Ok(w.finish(buffer))
            }
        }
        impl #ig ::ssz_rs::Deserialize for #name #tg #wc {
            fn deserialize(encoding: &[u8]) -> ::std::result::Result<Self, ::ssz_rs::DeserializeError> {
                let kinds = [#( (<#tys as ::ssz_rs::Serializable>::is_variable_size(), <#tys as ::ssz_rs::Serializable>::size_hint()) ),*];
                let parts = ::ssz_rs::split_container(encoding, &kinds)?;
                let mut it = parts.into_iter();
                Ok(Self { #( #names: <#tys as ::ssz_rs::Deserialize>::deserialize(it.next().unwrap())?, )* })
            }
        }
    }
}

fn htr(i: &Info) -> T2 {
    let name = &i.input.ident;
    let (ig, tg, wc) = i.input.generics.split_for_impl();
    if !i.variants.is_empty() {
        let v: Vec<_> = i.variants.iter().map(|v| v.0).collect();
        return quote! {
            impl #ig ::ssz_rs::HashTreeRoot for #name #tg #wc {
                fn tree_node(&self) -> ::ssz_rs::simtree::Node {
                    match self { #( Self::#v(x) => ::ssz_rs::HashTreeRoot::tree_node(x), )* }
                }
            }
        };
    }
    let names = &i.names;
    quote! {
        impl #ig ::ssz_rs::HashTreeRoot for #name #tg #wc {
            fn tree_node(&self) -> ::ssz_rs::simtree::Node {
                let nodes = [#( ::ssz_rs::HashTreeRoot::tree_node(&self.#names) ),*];
                ::ssz_rs::simtree::Node::merkleize(&nodes, ::ssz_rs::simtree::depth_for(nodes.len() as u64))
            }
        }
    }
}

fn gi(i: &Info) -> T2 {
    let name = &i.input.ident;
    let (ig, tg, wc) = i.input.generics.split_for_impl();
    if !i.variants.is_empty() {
        return quote! {
            impl #ig ::ssz_rs::GeneralizedIndexable for #name #tg #wc {
                fn compute_generalized_index(_parent: usize, _path: ::ssz_rs::Path) -> ::std::result::Result<usize, ::ssz_rs::MerkleizationError> {
                    Err(::ssz_rs::MerkleizationError::InvalidPath)
                }
            }
        };
    }
    let names = &i.names;
    let tys = &i.tys;
    let n = names.len() as u64;
    let idx: Vec<usize> = (0..names.len()).collect();
    quote! {
        impl #ig ::ssz_rs::GeneralizedIndexable for #name #tg #wc {
            fn compute_generalized_index(parent: usize, path: ::ssz_rs::Path) -> ::std::result::Result<usize, ::ssz_rs::MerkleizationError> {
                let Some((head, rest)) = path.split_first() else { return Ok(parent) };
                let ::ssz_rs::PathElement::Field(f) = head else { return Err(::ssz_rs::MerkleizationError::InvalidPath) };
                let width = 1usize << ::ssz_rs::simtree::depth_for(#n);
                match f.as_str() {
                    #( stringify!(#names) => <#tys as ::ssz_rs::GeneralizedIndexable>::compute_generalized_index(parent * width + #idx, rest), )*
                    _ => Err(::ssz_rs::MerkleizationError::InvalidPath),
                }
            }
        }
    }
}

fn prove(i: &Info) -> T2 {
    let name = &i.input.ident;
    let (ig, tg, wc) = i.input.generics.split_for_impl();
    quote! { impl #ig ::ssz_rs::Prove for #name #tg #wc {} }
}

#[proc_macro_derive(Serializable, attributes(ssz))]
pub fn d1(t: TokenStream) -> TokenStream {
    let input = parse_macro_input!(t as DeriveInput);
    serializable(&info(&input)).into()
}
#[proc_macro_derive(HashTreeRoot, attributes(ssz))]
pub fn d2(t: TokenStream) -> TokenStream {
    let input = parse_macro_input!(t as DeriveInput);
    htr(&info(&input)).into()
}
#[proc_macro_derive(GeneralizedIndexable, attributes(ssz))]
pub fn d3(t: TokenStream) -> TokenStream {
    let input = parse_macro_input!(t as DeriveInput);
    gi(&info(&input)).into()
}
#[proc_macro_derive(Prove, attributes(ssz))]
pub fn d4(t: TokenStream) -> TokenStream {
    let input = parse_macro_input!(t as DeriveInput);
    prove(&info(&input)).into()
}
#[proc_macro_derive(SimpleSerialize, attributes(ssz))]
pub fn d5(t: TokenStream) -> TokenStream {
    let input = parse_macro_input!(t as DeriveInput);
    let i = info(&input);
    let (a, b, c, d) = (serializable(&i), htr(&i), gi(&i), prove(&i));
    quote! { #a #b #c #d }.into()
}
