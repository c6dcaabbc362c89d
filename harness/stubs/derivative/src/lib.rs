//! Stand-in for `#[derivative(Debug)]` with `#[derivative(Debug = "ignore")]`.
use proc_macro::TokenStream;
use quote::{format_ident, quote};
use syn::{Attribute, Data, DeriveInput, Fields};

fn ignored(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| {
        a.path().is_ident("derivative")
            && matches!(&a.meta, syn::Meta::List(l) if l.tokens.to_string().replace(' ', "").contains("Debug=\"ignore\""))
    })
}
fn body(name: &syn::Ident, path: proc_macro2::TokenStream, f: &Fields) -> proc_macro2::TokenStream {
    let n = name.to_string();
    match f {
        Fields::Unit => quote! { #path => f.write_str(#n), },
        Fields::Unnamed(u) => {
            let ids: Vec<_> = (0..u.unnamed.len()).map(|i| format_ident!("f{}", i)).collect();
            let used = u.unnamed.iter().zip(&ids).filter(|(x, _)| !ignored(&x.attrs)).map(|(_, i)| quote! { .field(#i) });
            quote! { #[allow(unused_variables)] #path(#(#ids),*) => f.debug_tuple(#n)#(#used)*.finish(), }
        }
        Fields::Named(nm) => {
            let ids: Vec<_> = nm.named.iter().map(|x| x.ident.clone().unwrap()).collect();
            let used = nm.named.iter().zip(&ids).filter(|(x, _)| !ignored(&x.attrs)).map(|(_, i)| {
                let s = i.to_string();
                quote! { .field(#s, #i) }
            });
            quote! { #[allow(unused_variables)] #path { #(#ids),* } => f.debug_struct(#n)#(#used)*.finish(), }
        }
    }
}
#[proc_macro_derive(Derivative, attributes(derivative))]
pub fn derive(input: TokenStream) -> TokenStream {
    let d: DeriveInput = syn::parse_macro_input!(input);
    let name = &d.ident;
    let arms: Vec<_> = match &d.data {
        Data::Enum(e) => e.variants.iter().map(|v| { let i = &v.ident; body(i, quote! { #name::#i }, &v.fields) }).collect(),
        Data::Struct(s) => vec![body(name, quote! { #name }, &s.fields)],
        Data::Union(_) => vec![],
    };
    let (ig, tg, wc) = d.generics.split_for_impl();
    quote! {
        impl #ig ::std::fmt::Debug for #name #tg #wc {
            fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result { match self { #(#arms)* } }
        }
    }
    .into()
}
