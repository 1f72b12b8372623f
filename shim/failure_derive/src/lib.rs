//! `#[derive(Fail)]`: Display (through Debug) + std::error::Error; the blanket impl in the
//! `failure` stand-in then provides `Fail`.
extern crate proc_macro;
use proc_macro::{TokenStream, TokenTree};

#[proc_macro_derive(Fail, attributes(fail, cause))]
pub fn derive_fail(input: TokenStream) -> TokenStream {
    let mut name = None;
    let mut it = input.into_iter();
    while let Some(t) = it.next() {
        if let TokenTree::Ident(i) = &t {
            let s = i.to_string();
            if s == "enum" || s == "struct" {
                name = Some(it.next().expect("type name").to_string());
                break;
            }
        }
    }
    let name = name.expect("derive(Fail): no type name");
    format!(
        "impl ::std::fmt::Display for {n} {{
            fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {{
                ::std::write!(f, \"{{:?}}\", self)
            }}
        }}
        impl ::std::error::Error for {n} {{}}",
        n = name
    )
    .parse()
    .unwrap()
}
