//! Stand-in for `bounded-static-derive`: `#[derive(ToStatic)]` for types with at most one
//! lifetime parameter (and any type parameters).
use proc_macro::TokenStream;
use quote::{format_ident, quote};
use syn::{parse_macro_input, Data, DeriveInput, Fields, GenericParam};

#[proc_macro_derive(ToStatic)]
pub fn derive(input: TokenStream) -> TokenStream {
    let input = parse_macro_input!(input as DeriveInput);
    let name = &input.ident;
    let mut in_params = vec![];
    let mut in_args = vec![];
    let mut out_args = vec![];
    let mut into_where = vec![];
    let mut to_where = vec![];
    for p in &input.generics.params {
        match p {
            GenericParam::Lifetime(l) => {
                let l = &l.lifetime;
                in_params.push(quote!(#l));
                in_args.push(quote!(#l));
                out_args.push(quote!('static));
            }
            GenericParam::Type(t) => {
                let t = &t.ident;
                in_params.push(quote!(#t));
                in_args.push(quote!(#t));
                out_args.push(quote!(#t::Static));
                into_where.push(quote!(#t: ::bounded_static::IntoBoundedStatic));
                to_where.push(quote!(#t: ::bounded_static::ToBoundedStatic));
            }
            GenericParam::Const(_) => panic!("const generics unsupported"),
        }
    }
    let arms = |f: &dyn Fn(&proc_macro2::TokenStream) -> proc_macro2::TokenStream| {
        let variants: Vec<(proc_macro2::TokenStream, &Fields)> = match &input.data {
            Data::Struct(s) => vec![(quote!(#name), &s.fields)],
            Data::Enum(e) => e
                .variants
                .iter()
                .map(|v| {
                    let v2 = &v.ident;
                    (quote!(#name::#v2), &v.fields)
                })
                .collect(),
            Data::Union(_) => panic!("unions unsupported"),
        };
        let mut out = vec![];
        for (path, fields) in variants {
            match fields {
                Fields::Unit => out.push(quote!(#path => #path,)),
                Fields::Named(n) => {
                    let ids: Vec<_> = n.named.iter().map(|f| f.ident.clone().unwrap()).collect();
                    let conv: Vec<_> = ids.iter().map(|i| f(&quote!(#i))).collect();
                    out.push(quote!(#path { #(#ids),* } => #path { #(#ids: #conv),* },));
                }
                Fields::Unnamed(u) => {
                    let ids: Vec<_> = (0..u.unnamed.len()).map(|i| format_ident!("f{}", i)).collect();
                    let conv: Vec<_> = ids.iter().map(|i| f(&quote!(#i))).collect();
                    out.push(quote!(#path ( #(#ids),* ) => #path ( #(#conv),* ),));
                }
            }
        }
        quote!(#(#out)*)
    };
    let into_arms = arms(&|i| quote!(::bounded_static::IntoBoundedStatic::into_static(#i)));
    let to_arms = arms(&|i| quote!(::bounded_static::ToBoundedStatic::to_static(#i)));
    quote! {
        impl<#(#in_params),*> ::bounded_static::IntoBoundedStatic for #name<#(#in_args),*> where #(#into_where),* {
            type Static = #name<#(#out_args),*>;
            fn into_static(self) -> Self::Static { match self { #into_arms } }
        }
        impl<#(#in_params),*> ::bounded_static::ToBoundedStatic for #name<#(#in_args),*> where #(#to_where),* {
            type Static = #name<#(#out_args),*>;
            fn to_static(&self) -> Self::Static { match self { #to_arms } }
        }
    }
    .into()
}
