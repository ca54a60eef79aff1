//! Stand-in for `ssz_rs_derive` (the real one is a git dependency that cannot be fetched here).
use proc_macro::TokenStream;
use quote::quote;
use syn::{parse_macro_input, Data, DeriveInput, Fields};

enum Shape {
    Struct(Vec<(syn::Ident, syn::Type)>),
    Newtype(syn::Type),
    Enum(Vec<(syn::Ident, syn::Type)>),
}

fn shape(input: &DeriveInput) -> Shape {
    match &input.data {
        Data::Struct(d) => match &d.fields {
            Fields::Named(f) => Shape::Struct(
                f.named.iter().map(|f| (f.ident.clone().unwrap(), f.ty.clone())).collect(),
            ),
            Fields::Unnamed(f) if f.unnamed.len() == 1 => Shape::Newtype(f.unnamed[0].ty.clone()),
            _ => panic!("unsupported ssz shape"),
        },
        Data::Enum(d) => Shape::Enum(
            d.variants
                .iter()
                .map(|v| match &v.fields {
                    Fields::Unnamed(f) if f.unnamed.len() == 1 => {
                        (v.ident.clone(), f.unnamed[0].ty.clone())
                    }
                    _ => panic!("unsupported ssz enum"),
                })
                .collect(),
        ),
        _ => panic!("unsupported"),
    }
}

fn serializable(input: &DeriveInput) -> proc_macro2::TokenStream {
    let name = &input.ident;
    let (ig, tg, wc) = input.generics.split_for_impl();
    match shape(input) {
        Shape::Struct(fields) => {
            let names: Vec<_> = fields.iter().map(|f| &f.0).collect();
            let tys: Vec<_> = fields.iter().map(|f| &f.1).collect();
            quote! {
                impl #ig ::ssz_rs::Sizable for #name #tg #wc {
                    fn is_variable_size() -> bool { false #(|| <#tys as ::ssz_rs::Sizable>::is_variable_size())* }
                    fn size_hint() -> usize {
                        if <Self as ::ssz_rs::Sizable>::is_variable_size() { 0 } else { 0 #(+ <#tys as ::ssz_rs::Sizable>::size_hint())* }
                    }
                }
                impl #ig ::ssz_rs::Serialize for #name #tg #wc {
                    fn serialize(&self, buffer: &mut ::std::vec::Vec<u8>) -> ::std::result::Result<usize, ::ssz_rs::SerializeError> {
                        let mut parts = ::ssz_rs::Parts::default();
                        #( parts.add(&self.#names)?; )*
                        parts.finish(buffer)
                    }
                }
                impl #ig ::ssz_rs::Deserialize for #name #tg #wc {
                    fn deserialize(encoding: &[u8]) -> ::std::result::Result<Self, ::ssz_rs::DeserializeError> {
                        let spans = ::ssz_rs::split_container(encoding, &[#((<#tys as ::ssz_rs::Sizable>::is_variable_size(), <#tys as ::ssz_rs::Sizable>::size_hint())),*])?;
                        let mut it = spans.into_iter();
                        Ok(Self { #( #names: <#tys as ::ssz_rs::Deserialize>::deserialize(it.next().unwrap())?, )* })
                    }
                }
                impl #ig ::ssz_rs::Serializable for #name #tg #wc {}
            }
        }
        Shape::Newtype(ty) => quote! {
            impl #ig ::ssz_rs::Sizable for #name #tg #wc {
                fn is_variable_size() -> bool { <#ty as ::ssz_rs::Sizable>::is_variable_size() }
                fn size_hint() -> usize { <#ty as ::ssz_rs::Sizable>::size_hint() }
            }
            impl #ig ::ssz_rs::Serialize for #name #tg #wc {
                fn serialize(&self, buffer: &mut ::std::vec::Vec<u8>) -> ::std::result::Result<usize, ::ssz_rs::SerializeError> {
                    ::ssz_rs::Serialize::serialize(&self.0, buffer)
                }
            }
            impl #ig ::ssz_rs::Deserialize for #name #tg #wc {
                fn deserialize(encoding: &[u8]) -> ::std::result::Result<Self, ::ssz_rs::DeserializeError> {
                    Ok(Self(<#ty as ::ssz_rs::Deserialize>::deserialize(encoding)?))
                }
            }
            impl #ig ::ssz_rs::Serializable for #name #tg #wc {}
        },
        Shape::Enum(vs) => {
            let names: Vec<_> = vs.iter().map(|f| &f.0).collect();
            let tys: Vec<_> = vs.iter().map(|f| &f.1).collect();
            quote! {
                impl #ig ::ssz_rs::Sizable for #name #tg #wc {
                    fn is_variable_size() -> bool { true }
                    fn size_hint() -> usize { 0 }
                }
                impl #ig ::ssz_rs::Serialize for #name #tg #wc {
                    fn serialize(&self, buffer: &mut ::std::vec::Vec<u8>) -> ::std::result::Result<usize, ::ssz_rs::SerializeError> {
                        match self { #( Self::#names(v) => ::ssz_rs::Serialize::serialize(v, buffer), )* }
                    }
                }
                impl #ig ::ssz_rs::Deserialize for #name #tg #wc {
                    fn deserialize(encoding: &[u8]) -> ::std::result::Result<Self, ::ssz_rs::DeserializeError> {
                        #( if let Ok(v) = <#tys as ::ssz_rs::Deserialize>::deserialize(encoding) { return Ok(Self::#names(v)); } )*
                        Err(::ssz_rs::DeserializeError::InvalidInput)
                    }
                }
                impl #ig ::ssz_rs::Serializable for #name #tg #wc {}
            }
        }
    }
}

fn hash_tree_root(input: &DeriveInput) -> proc_macro2::TokenStream {
    let name = &input.ident;
    let (ig, tg, wc) = input.generics.split_for_impl();
    match shape(input) {
        Shape::Struct(fields) => {
            let names: Vec<_> = fields.iter().map(|f| &f.0).collect();
            quote! {
                impl #ig ::ssz_rs::HashTreeRoot for #name #tg #wc {
                    fn hash_tree_root(&self) -> ::std::result::Result<::ssz_rs::Node, ::ssz_rs::MerkleizationError> {
                        let mut chunks: ::std::vec::Vec<::ssz_rs::Node> = ::std::vec::Vec::new();
                        #( chunks.push(::ssz_rs::HashTreeRoot::hash_tree_root(&self.#names)?); )*
                        ::ssz_rs::merkleize_nodes(&chunks, None)
                    }
                    fn is_composite_type() -> bool { true }
                }
            }
        }
        Shape::Newtype(ty) => quote! {
            impl #ig ::ssz_rs::HashTreeRoot for #name #tg #wc {
                fn hash_tree_root(&self) -> ::std::result::Result<::ssz_rs::Node, ::ssz_rs::MerkleizationError> {
                    ::ssz_rs::HashTreeRoot::hash_tree_root(&self.0)
                }
                fn is_composite_type() -> bool { <#ty as ::ssz_rs::HashTreeRoot>::is_composite_type() }
            }
        },
        Shape::Enum(vs) => {
            let names: Vec<_> = vs.iter().map(|f| &f.0).collect();
            quote! {
                impl #ig ::ssz_rs::HashTreeRoot for #name #tg #wc {
                    fn hash_tree_root(&self) -> ::std::result::Result<::ssz_rs::Node, ::ssz_rs::MerkleizationError> {
                        match self { #( Self::#names(v) => ::ssz_rs::HashTreeRoot::hash_tree_root(v), )* }
                    }
                    fn is_composite_type() -> bool { true }
                }
            }
        }
    }
}

fn gindex(input: &DeriveInput) -> proc_macro2::TokenStream {
    let name = &input.ident;
    let (ig, tg, wc) = input.generics.split_for_impl();
    match shape(input) {
        Shape::Struct(fields) => {
            let n = fields.len();
            let arms = fields.iter().enumerate().map(|(i, (id, ty))| {
                let s = id.to_string();
                quote! { #s => { let g = parent * width + #i; <#ty as ::ssz_rs::GeneralizedIndexable>::compute_generalized_index(g, rest) } }
            });
            quote! {
                impl #ig ::ssz_rs::GeneralizedIndexable for #name #tg #wc {
                    fn compute_generalized_index(parent: usize, path: &[::ssz_rs::PathElement]) -> ::std::result::Result<usize, ::ssz_rs::MerkleizationError> {
                        let Some((next, rest)) = path.split_first() else { return Ok(parent) };
                        let width: usize = (#n as usize).next_power_of_two();
                        match next {
                            ::ssz_rs::PathElement::Field(f) => match f.as_str() {
                                #( #arms )*
                                _ => Err(::ssz_rs::MerkleizationError::InvalidPathElement(next.clone())),
                            },
                            _ => Err(::ssz_rs::MerkleizationError::InvalidPathElement(next.clone())),
                        }
                    }
                }
                impl #ig ::ssz_rs::SimpleSerialize for #name #tg #wc {}
            }
        }
        Shape::Newtype(ty) => quote! {
            impl #ig ::ssz_rs::GeneralizedIndexable for #name #tg #wc {
                fn compute_generalized_index(parent: usize, path: &[::ssz_rs::PathElement]) -> ::std::result::Result<usize, ::ssz_rs::MerkleizationError> {
                    <#ty as ::ssz_rs::GeneralizedIndexable>::compute_generalized_index(parent, path)
                }
            }
            impl #ig ::ssz_rs::SimpleSerialize for #name #tg #wc {}
        },
        Shape::Enum(_) => quote! {
            impl #ig ::ssz_rs::GeneralizedIndexable for #name #tg #wc {}
            impl #ig ::ssz_rs::SimpleSerialize for #name #tg #wc {}
        },
    }
}

#[proc_macro_derive(SimpleSerialize, attributes(ssz))]
pub fn derive_simple_serialize(input: TokenStream) -> TokenStream {
    let input = parse_macro_input!(input as DeriveInput);
    let (a, b, c) = (serializable(&input), hash_tree_root(&input), gindex(&input));
    quote! { #a #b #c }.into()
}
#[proc_macro_derive(Serializable, attributes(ssz))]
pub fn derive_serializable(input: TokenStream) -> TokenStream {
    let input = parse_macro_input!(input as DeriveInput);
    serializable(&input).into()
}
#[proc_macro_derive(HashTreeRoot, attributes(ssz))]
pub fn derive_htr(input: TokenStream) -> TokenStream {
    let input = parse_macro_input!(input as DeriveInput);
    hash_tree_root(&input).into()
}
