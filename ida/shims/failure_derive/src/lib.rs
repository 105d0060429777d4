//! `#[derive(Fail)]` for the stand-in `failure` crate: Display from `#[fail(display = "..", args)]`, `#[fail(cause)]`.
use proc_macro::TokenStream;
use quote::{format_ident, quote};
use syn::{parse::ParseStream, punctuated::Punctuated, Data, DeriveInput, Expr, Fields, Ident, LitStr, Token};

enum Item {
    Display(LitStr, Vec<Expr>),
    Cause,
}

fn parse_fail(attrs: &[syn::Attribute]) -> Vec<Item> {
    let mut out = Vec::new();
    for a in attrs {
        if !a.path().is_ident("fail") && !a.path().is_ident("cause") {
            continue;
        }
        if a.path().is_ident("cause") {
            out.push(Item::Cause);
            continue;
        }
        let item = a
            .parse_args_with(|input: ParseStream| {
                let id: Ident = input.parse()?;
                if id == "display" {
                    input.parse::<Token![=]>()?;
                    let s: LitStr = input.parse()?;
                    let mut args = Vec::new();
                    if input.parse::<Option<Token![,]>>()?.is_some() {
                        let p: Punctuated<Expr, Token![,]> = Punctuated::parse_terminated(input)?;
                        args = p.into_iter().collect();
                    }
                    Ok(Item::Display(s, args))
                } else {
                    let _: proc_macro2::TokenStream = input.parse()?;
                    Ok(Item::Cause)
                }
            })
            .expect("fail attribute");
        out.push(item);
    }
    out
}

fn arm(path: proc_macro2::TokenStream, attrs: &[syn::Attribute], fields: &Fields) -> proc_macro2::TokenStream {
    let (pat, names): (_, Vec<Ident>) = match fields {
        Fields::Named(n) => {
            let ids: Vec<Ident> = n.named.iter().map(|f| f.ident.clone().unwrap()).collect();
            (quote!(#path { #(ref #ids),* }), ids)
        }
        Fields::Unnamed(u) => {
            let ids: Vec<Ident> = (0..u.unnamed.len()).map(|i| format_ident!("_{}", i)).collect();
            (quote!(#path ( #(ref #ids),* )), ids)
        }
        Fields::Unit => (quote!(#path), vec![]),
    };
    let disp = parse_fail(attrs).into_iter().find_map(|i| match i {
        Item::Display(s, a) => Some((s, a)),
        _ => None,
    });
    let body = match disp {
        Some((s, a)) => {
            let a = a.into_iter().map(|e| match e {
                // `_0` style positional field names arrive as paths already
                Expr::Lit(l) => quote!(#l),
                e => quote!(#e),
            });
            quote!(write!(f, #s #(, #a)*))
        }
        None => quote!(f.write_str(stringify!(#path))),
    };
    quote!(#pat => { #( let _ = #names; )* #body })
}

#[proc_macro_derive(Fail, attributes(fail, cause))]
pub fn derive_fail(input: TokenStream) -> TokenStream {
    let input: DeriveInput = syn::parse(input).unwrap();
    let name = &input.ident;
    let (ig, tg, wc) = input.generics.split_for_impl();
    let arms: Vec<_> = match &input.data {
        Data::Enum(e) => e
            .variants
            .iter()
            .map(|v| {
                let vi = &v.ident;
                arm(quote!(#name::#vi), &v.attrs, &v.fields)
            })
            .collect(),
        Data::Struct(s) => vec![arm(quote!(#name), &input.attrs, &s.fields)],
        _ => panic!("union"),
    };
    let body = if arms.is_empty() { quote!(match *self {}) } else { quote!(match *self { #(#arms)* }) };
    quote! {
        impl #ig ::failure::Fail for #name #tg #wc {}
        impl #ig ::core::fmt::Display for #name #tg #wc {
            #[allow(unused_variables)]
            fn fmt(&self, f: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result { #body }
        }
    }
    .into()
}
