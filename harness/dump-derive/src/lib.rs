//! `#[derive(Dump)]`: the variants of an enumeration as the compiler sees them.
use quote::quote;

#[proc_macro_derive(Dump)]
pub fn dump(input: proc_macro::TokenStream) -> proc_macro::TokenStream {
    let e = syn::parse_macro_input!(input as syn::ItemEnum);
    let ident = &e.ident;
    let rows = e.variants.iter().map(|v| {
        let (i, name) = (&v.ident, v.ident.to_string());
        quote! { (#name, #ident::#i as u64) }
    });
    quote! {
        impl crate::Dump for #ident {
            fn variants() -> Vec<(&'static str, u64)> { vec![#(#rows),*] }
            fn name(code: u32) -> Option<String> { Self::try_from(code).ok().map(|v| format!("{v:?}")) }
        }
    }
    .into()
}
