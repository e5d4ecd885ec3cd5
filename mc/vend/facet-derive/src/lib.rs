//! `#[derive(Facet)]` of the stand-in `facet` crate.
use proc_macro::TokenStream;
use proc_macro2::TokenStream as TS;
use quote::{format_ident, quote};
use syn::{Attribute, Data, DeriveInput, Fields, Lit, Meta, parse_macro_input};

fn facet_attr(attrs: &[Attribute]) -> String {
    let mut s = String::new();
    for a in attrs {
        if a.path().is_ident("facet")
            && let Meta::List(l) = &a.meta
        {
            s.push_str(&l.tokens.to_string().replace(' ', ""));
            s.push(',');
        }
    }
    s
}
fn flag(s: &str, f: &str) -> bool {
    s.split(',').any(|p| p == f)
}
fn proxy(attrs: &[Attribute]) -> Option<TS> {
    let s = facet_attr(attrs);
    s.split(',')
        .find_map(|p| p.strip_prefix("proxy=").map(|p| p.parse().unwrap()))
}
fn docs(attrs: &[Attribute]) -> String {
    let mut v = Vec::new();
    for a in attrs {
        if a.path().is_ident("doc")
            && let Meta::NameValue(nv) = &a.meta
            && let syn::Expr::Lit(l) = &nv.value
            && let Lit::Str(s) = &l.lit
        {
            v.push(s.value().trim().to_string());
        }
    }
    v.join(" ").trim().to_string()
}
fn enc_one(attrs: &[Attribute], expr: TS) -> TS {
    match proxy(attrs) {
        Some(p) => quote! {{ let __p: #p = ::core::convert::From::from(#expr); ::facet::Facet::enc(&__p, __out); }},
        None => quote! { ::facet::Facet::enc(#expr, __out); },
    }
}
fn dec_one(attrs: &[Attribute], ty: &syn::Type) -> TS {
    match proxy(attrs) {
        Some(p) => quote! {{ let __p: #p = ::facet::Facet::dec(__inp)?; <#ty as ::core::convert::From<#p>>::from(__p) }},
        None => quote! { <#ty as ::facet::Facet>::dec(__inp)? },
    }
}

#[proc_macro_derive(Facet, attributes(facet))]
pub fn derive(input: TokenStream) -> TokenStream {
    let di = parse_macro_input!(input as DeriveInput);
    let name = &di.ident;
    let (ig, tg, wc) = di.generics.split_for_impl();
    let top = facet_attr(&di.attrs);
    let mut extra = TS::new();

    let (enc, dec): (TS, TS) = match &di.data {
        Data::Struct(s) => match &s.fields {
            Fields::Named(fs) => {
                let e = fs.named.iter().map(|f| {
                    let id = f.ident.as_ref().unwrap();
                    enc_one(&f.attrs, quote!(&self.#id))
                });
                let d = fs.named.iter().map(|f| {
                    let id = f.ident.as_ref().unwrap();
                    let v = dec_one(&f.attrs, &f.ty);
                    quote!(#id: #v)
                });
                (quote!(#(#e)*), quote!(Ok(Self { #(#d),* })))
            }
            Fields::Unnamed(fs) => {
                let e = fs.unnamed.iter().enumerate().map(|(i, f)| {
                    let id = syn::Index::from(i);
                    enc_one(&f.attrs, quote!(&self.#id))
                });
                let d = fs.unnamed.iter().map(|f| dec_one(&f.attrs, &f.ty));
                (quote!(#(#e)*), quote!(Ok(Self(#(#d),*))))
            }
            Fields::Unit => (quote!(), quote!(Ok(Self))),
        },
        Data::Enum(en) if flag(&top, "cow") => {
            let e = en.variants.iter().map(|v| {
                let id = &v.ident;
                quote!(Self::#id(s) => ::facet::enc_str(::core::convert::AsRef::<str>::as_ref(s), __out),)
            });
            (
                quote!(match self { #(#e)* }),
                quote!(Ok(Self::Owned(::core::convert::From::from(<::std::string::String as ::facet::Facet>::dec(__inp)?)))),
            )
        }
        Data::Enum(en) => {
            let mut es = Vec::new();
            let mut ds = Vec::new();
            let mut shows = Vec::new();
            for (i, v) in en.variants.iter().enumerate() {
                let id = &v.ident;
                let idx = i as u64;
                let doc = docs(&v.attrs);
                match &v.fields {
                    Fields::Unit => {
                        es.push(quote!(Self::#id => ::facet::put_varint(#idx, __out),));
                        ds.push(quote!(#idx => Ok(Self::#id),));
                        shows.push(quote!(Self::#id => f.write_str(#doc),));
                    }
                    Fields::Named(fs) => {
                        let ids: Vec<_> = fs.named.iter().map(|f| f.ident.clone().unwrap()).collect();
                        let e = fs.named.iter().map(|f| {
                            let id = f.ident.as_ref().unwrap();
                            enc_one(&f.attrs, quote!(#id))
                        });
                        let d = fs.named.iter().map(|f| {
                            let id = f.ident.as_ref().unwrap();
                            let v = dec_one(&f.attrs, &f.ty);
                            quote!(#id: #v)
                        });
                        es.push(quote!(Self::#id { #(#ids),* } => { ::facet::put_varint(#idx, __out); #(#e)* }));
                        ds.push(quote!(#idx => Ok(Self::#id { #(#d),* }),));
                        shows.push(quote!(Self::#id { #(#ids),* } => { #(let _ = #ids;)* write!(f, #doc) }));
                    }
                    Fields::Unnamed(fs) => {
                        let ids: Vec<_> = (0..fs.unnamed.len()).map(|i| format_ident!("f{}", i)).collect();
                        let e = fs.unnamed.iter().zip(&ids).map(|(f, id)| enc_one(&f.attrs, quote!(#id)));
                        let d = fs.unnamed.iter().map(|f| dec_one(&f.attrs, &f.ty));
                        es.push(quote!(Self::#id(#(#ids),*) => { ::facet::put_varint(#idx, __out); #(#e)* }));
                        ds.push(quote!(#idx => Ok(Self::#id(#(#d),*)),));
                        shows.push(quote!(Self::#id(..) => f.write_str(#doc),));
                    }
                }
            }
            if top.contains("derive(Error)") {
                extra = quote! {
                    impl #ig ::core::fmt::Display for #name #tg #wc {
                        fn fmt(&self, f: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result {
                            match self { #(#shows)* }
                        }
                    }
                    impl #ig ::std::error::Error for #name #tg #wc {}
                };
            }
            (
                quote!(match self { #(#es)* }),
                quote!(match ::facet::get_varint(__inp)? { #(#ds)* _ => ::facet::err("bad variant index") }),
            )
        }
        Data::Union(_) => panic!("unions are not supported"),
    };
    quote! {
        #[allow(unused_variables, unused_mut, clippy::all)]
        impl #ig ::facet::Facet for #name #tg #wc {
            fn enc(&self, __out: &mut ::std::vec::Vec<u8>) { #enc }
            fn dec(__inp: &mut &[u8]) -> ::core::result::Result<Self, ::facet::WireError> { #dec }
        }
        #extra
    }
    .into()
}
