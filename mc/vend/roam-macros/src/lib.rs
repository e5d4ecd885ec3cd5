//! Stand-in for roam's service attribute: the trait with a context argument,
//! a dispatcher that calls an implementation, and a client that calls a peer.
use proc_macro::{Delimiter, TokenStream, TokenTree};

#[proc_macro_attribute]
pub fn service(_a: TokenStream, item: TokenStream) -> TokenStream {
    let toks: Vec<TokenTree> = item.into_iter().collect();
    let at = toks.iter().position(|t| t.to_string() == "trait").expect("a trait");
    let name = toks[at + 1].to_string();
    let body = toks[at..]
        .iter()
        .find_map(|t| match t {
            TokenTree::Group(g) if g.delimiter() == Delimiter::Brace => Some(g.stream()),
            _ => None,
        })
        .expect("methods");
    let body: Vec<TokenTree> = body.into_iter().collect();
    let (mut decls, mut arms, mut calls) = (String::new(), String::new(), String::new());
    for (i, t) in body.iter().enumerate() {
        if t.to_string() != "fn" {
            continue;
        }
        let method = body[i + 1].to_string();
        let TokenTree::Group(args) = &body[i + 2] else { panic!("arguments of {method}") };
        let args = args.stream().to_string();
        let rest = args.split_once("self").expect("&self").1.trim().trim_start_matches(',').trim().trim_end_matches(',').to_string();
        let (mut names, mut types) = (vec![], vec![]);
        if !rest.is_empty() {
            for a in rest.split(',') {
                let (n, ty) = a.split_once(':').expect("a typed argument");
                names.push(n.trim().to_string());
                types.push(ty.trim().to_string());
            }
        }
        let (ns, ts): (String, String) = (names.iter().map(|n| format!("{n},")).collect(), types.iter().map(|t| format!("{t},")).collect());
        decls += &format!("async fn {method}(&self, cx: &::roam::Context, {rest});\n");
        arms += &format!(
            "\"{method}\" => {{ let ({ns}) = arg.downcast_ref::<({ts})>().expect(\"arguments\").clone(); self.0.{method}(cx, {ns}).await }}\n"
        );
        calls += &format!(
            "pub async fn {method}(&self, {rest}) -> ::core::result::Result<(), ::roam::world::Broken> {{ self.0.call(\"{method}\", ::std::format!(\"{{:?}}\", ({ns}))).await }}\n"
        );
    }
    format!(
        "#[allow(async_fn_in_trait)] pub trait {name} {{ {decls} }}
        #[derive(Clone)] pub struct {name}Dispatcher<T>(T);
        impl<T: {name}> {name}Dispatcher<T> {{ pub fn new(t: T) -> Self {{ Self(t) }} }}
        impl<T: {name}> ::roam::world::Dispatch for {name}Dispatcher<T> {{
            async fn dispatch(&self, cx: &::roam::Context, method: &str, arg: &dyn ::core::any::Any) {{
                match method {{ {arms} m => panic!(\"no method {{m}}\") }}
            }}
        }}
        #[derive(Clone)] pub struct {name}Client(::roam::world::Handle);
        impl {name}Client {{
            pub fn new(h: ::roam::world::Handle) -> Self {{ Self(h) }}
            {calls}
        }}"
    )
    .parse()
    .unwrap()
}
