use proc_macro::TokenStream;
use quote::quote;
use syn::{parse_macro_input, Data, DeriveInput};

#[proc_macro_derive(H5Type, attributes(hdf5))]
pub fn h5type(input: TokenStream) -> TokenStream {
    let ast = parse_macro_input!(input as DeriveInput);
    let name = &ast.ident;
    let (i, t, w) = ast.generics.split_for_impl();
    let transparent = ast.attrs.iter().any(|a| {
        a.path().is_ident("repr") && quote! { #a }.to_string().contains("transparent")
    });
    let fields: Vec<_> = match &ast.data {
        Data::Struct(s) => s.fields.iter().cloned().collect(),
        _ => panic!("H5Type: struct expected"),
    };
    let body = if transparent {
        let ty = &fields[0].ty;
        quote! { <#ty as ::hdf5::H5Type>::type_descriptor() }
    } else {
        let tys = fields.iter().map(|f| &f.ty);
        let names = fields.iter().enumerate().map(|(n, f)| {
            f.ident.as_ref().map(|i| i.to_string()).unwrap_or(n.to_string())
        });
        quote! { ::hdf5::types::TypeDescriptor::Compound(vec![#((#names.to_string(), <#tys as ::hdf5::H5Type>::type_descriptor())),*]) }
    };
    quote! {
        unsafe impl #i ::hdf5::H5Type for #name #t #w {
            fn type_descriptor() -> ::hdf5::types::TypeDescriptor { #body }
        }
    }
    .into()
}
