use proc_macro::TokenStream;
use quote::quote;
use syn::{parse_macro_input, Data, DeriveInput, Expr, Fields, LitStr};

#[proc_macro_derive(FromArgs, attributes(argh))]
pub fn derive(input: TokenStream) -> TokenStream {
    let input = parse_macro_input!(input as DeriveInput);
    let name = &input.ident;
    let Data::Struct(s) = &input.data else { panic!("struct expected") };
    let Fields::Named(f) = &s.fields else { panic!("named fields expected") };
    let mut decl = Vec::new();
    let mut arms = Vec::new();
    let mut build = Vec::new();
    for field in &f.named {
        let id = field.ident.as_ref().unwrap();
        let ty = &field.ty;
        let mut default: Option<Expr> = None;
        let mut long = id.to_string().replace('_', "-");
        let mut short: Option<String> = None;
        let mut switch = false;
        for a in &field.attrs {
            if !a.path().is_ident("argh") {
                continue;
            }
            a.parse_nested_meta(|m| {
                if m.path.is_ident("default") {
                    let l: LitStr = m.value()?.parse()?;
                    default = Some(l.parse()?);
                } else if m.path.is_ident("long") {
                    let l: LitStr = m.value()?.parse()?;
                    long = l.value();
                } else if m.path.is_ident("short") {
                    let l: syn::LitChar = m.value()?.parse()?;
                    short = Some(l.value().to_string());
                } else if m.path.is_ident("switch") {
                    switch = true;
                } else if m.input.peek(syn::Token![=]) {
                    let _: Expr = m.value()?.parse()?;
                }
                Ok(())
            })
            .unwrap();
        }
        let flag = format!("--{long}");
        let sflag = short.map(|s| format!("-{s}")).unwrap_or_else(|| "\u{0}".into());
        if switch {
            decl.push(quote!(let mut #id = false;));
            arms.push(quote!(if a == #flag || a == #sflag { #id = true; continue; }));
            build.push(quote!(#id));
            continue;
        }
        let is_opt = quote!(#ty).to_string().starts_with("Option");
        let inner = if is_opt { quote!(Option<_>) } else { quote!(Option<#ty>) };
        decl.push(if is_opt { quote!(let mut #id: #ty = None;) } else { quote!(let mut #id: #inner = None;) });
        arms.push(quote!(if a == #flag || a == #sflag {
            let v = it.next().ok_or_else(|| format!("No value provided for option '{}'.", a))?;
            #id = Some(v.parse().map_err(|_| format!("Error parsing option '{}'", a))?);
            continue;
        }));
        build.push(if is_opt {
            quote!(#id)
        } else if let Some(d) = default {
            quote!(#id: #id.unwrap_or_else(|| #d))
        } else {
            quote!(#id: #id.ok_or_else(|| format!("Required option {} not provided", #flag))?)
        });
    }
    quote!(
        impl argh::FromArgs for #name {
            fn from_sim_args(args: &[String]) -> Result<Self, String> {
                #(#decl)*
                let mut it = args.iter();
                while let Some(a) = it.next() {
                    let a: &str = a.as_str();
                    #(#arms)*
                    return Err(format!("Unrecognized argument: {}", a));
                }
                Ok(#name { #(#build),* })
            }
        }
    )
    .into()
}
