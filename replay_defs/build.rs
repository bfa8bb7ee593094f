//! The derive crate as an ordinary crate: its lib.rs without what only a proc-macro crate may
//! contain (the `#[proc_macro…]` functions and `extern crate proc_macro`); the other files are
//! compiled where they are.
use quote::ToTokens;
fn main() {
    let src = "/repo/ublox_derive/src";
    println!("cargo:rerun-if-changed={}", src);
    let f = syn::parse_file(&std::fs::read_to_string(format!("{}/lib.rs", src)).unwrap()).unwrap();
    let out = std::env::var("OUT_DIR").unwrap();
    let mut items = String::new();
    let mut mods = String::new();
    let is_macro = |a: &[syn::Attribute]| a.iter().any(|x| x.path.to_token_stream().to_string().starts_with("proc_macro"));
    let is_test = |a: &[syn::Attribute]| a.iter().any(|x| x.path.is_ident("cfg") && x.tokens.to_string().contains("test"));
    for i in &f.items {
        match i {
            syn::Item::ExternCrate(_) => {}
            syn::Item::Fn(x) if is_macro(&x.attrs) => {}
            syn::Item::Mod(m) if is_test(&m.attrs) => {}
            syn::Item::Mod(m) if m.content.is_none() => {
                let p = format!("{}/{}.rs", src, m.ident);
                let p = if std::path::Path::new(&p).exists() { p } else { format!("{}/{}/mod.rs", src, m.ident) };
                mods += &format!("#[path = {:?}]\nmod {};\n", p, m.ident);
            }
            i => items += &format!("{}\n", i.to_token_stream()),
        }
    }
    std::fs::write(format!("{}/lib.rs", out), format!("{}{}", mods, items)).unwrap();
}
