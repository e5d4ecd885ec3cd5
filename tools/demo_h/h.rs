// Helpers for demonstrations on hotmeal: pages in the Rust document and in the browser stand-in.
#![allow(dead_code)]
pub use hotmeal::{Document, Patch, StrTendril};

pub fn t(s: &str) -> &'static StrTendril {
    Box::leak(Box::new(StrTendril::from(s)))
}
pub fn page(body: &str) -> Document<'static> {
    hotmeal::parse(t(&format!("<!DOCTYPE html><html><head></head><body>{body}</body></html>")))
}
pub fn inner(d: &Document) -> String {
    d.to_body_html()
}
pub fn patches(a: &str, b: &str) -> Vec<Patch<'static>> {
    let (a, b) = (Box::leak(Box::new(page(a))), Box::leak(Box::new(page(b))));
    hotmeal::diff(a, b).expect("diff")
}
/// The Rust page `a` after the diff to `b`.
pub fn patched(a: &str, b: &str) -> Result<String, String> {
    let mut p = page(a);
    p.apply_patches(patches(a, b)).map_err(|e| format!("{e:?}"))?;
    Ok(inner(&p))
}
/// The browser page `a` after the diff to `b`.
pub fn browser(a: &str, b: &str) -> Result<String, String> {
    load(a);
    hotmeal_wasm::apply_patches(&patches(a, b)).map_err(|e| format!("{e:?}"))?;
    Ok(html())
}
pub fn body() -> web_sys::HtmlElement {
    web_sys::window().unwrap().document().unwrap().body().unwrap()
}
pub fn load(a: &str) {
    body().set_inner_html(a);
}
pub fn html() -> String {
    body().inner_html()
}
pub fn fail(msg: String) -> ! {
    println!("{msg}");
    std::process::exit(1)
}
pub fn same(what: &str, a: &str, b: &str) {
    if a != b {
        fail(format!("{what}:\n  got      {a}\n  expected {b}"));
    }
}
