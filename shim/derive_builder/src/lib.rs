//! Stand-in for derive_builder, which is not available offline: `#[derive(Builder)]` on a struct with named
//! fields gives a builder with a setter for each field, and `build`, which fails when a field is missing.

use proc_macro::TokenStream;
use quote::{format_ident, quote};
use syn::{parse_macro_input, Data, DeriveInput, Fields};

#[proc_macro_derive(Builder, attributes(builder))]
pub fn builder(input: TokenStream) -> TokenStream {
    let input = parse_macro_input!(input as DeriveInput);
    let name = &input.ident;
    let builder = format_ident!("{}Builder", name);
    let error = format_ident!("{}BuilderError", name);
    let fields = match &input.data {
        Data::Struct(s) => match &s.fields {
            Fields::Named(f) => f.named.iter().collect::<Vec<_>>(),
            _ => panic!("only named fields"),
        },
        _ => panic!("only structs"),
    };
    let id: Vec<_> = fields.iter().map(|f| f.ident.clone().unwrap()).collect();
    let ty: Vec<_> = fields.iter().map(|f| f.ty.clone()).collect();
    quote! {
        #[derive(Clone, Default)]
        pub struct #builder { #(#id: Option<#ty>,)* }

        #[derive(Debug)]
        pub struct #error(pub &'static str);

        impl #builder {
            #(pub fn #id(&mut self, value: impl Into<#ty>) -> &mut Self { self.#id = Some(value.into()); self })*

            pub fn build(&self) -> Result<#name, #error> {
                Ok(#name { #(#id: self.#id.clone().ok_or(#error(stringify!(#id)))?,)* })
            }
        }
    }
    .into()
}
