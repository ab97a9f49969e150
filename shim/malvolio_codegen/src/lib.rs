//! Stand-in for malvolio_codegen, which is not available offline: a twin of a struct whose fields are public.

use proc_macro::TokenStream;
use quote::{format_ident, quote};
use syn::{parse_macro_input, Data, DeriveInput, Fields};

#[proc_macro_derive(FieldsAccessibleVariant)]
pub fn fields(input: TokenStream) -> TokenStream {
    let input = parse_macro_input!(input as DeriveInput);
    let name = &input.ident;
    let twin = format_ident!("{}PubFields", name);
    let fields = match &input.data {
        Data::Struct(s) => match &s.fields {
            Fields::Named(f) => f.named.iter().collect::<Vec<_>>(),
            Fields::Unit => vec![],
            Fields::Unnamed(_) => return quote! {}.into(),
        },
        _ => return quote! {}.into(),
    };
    let id: Vec<_> = fields.iter().map(|f| f.ident.clone().unwrap()).collect();
    let ty: Vec<_> = fields.iter().map(|f| f.ty.clone()).collect();
    quote! {
        #[allow(missing_docs)]
        pub struct #twin { #(pub #id: #ty,)* }

        impl #name {
            #[allow(missing_docs)]
            pub fn into_pub_fields(self) -> #twin {
                #twin { #(#id: self.#id,)* }
            }
        }
    }
    .into()
}
