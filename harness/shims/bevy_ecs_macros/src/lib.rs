//! Derives for the stand-in of `bevy_ecs`.
use proc_macro::TokenStream;
use quote::quote;
use syn::{parse_macro_input, parse_quote, Data, DeriveInput, Fields};

fn simple(input: TokenStream, path: proc_macro2::TokenStream) -> TokenStream {
    let mut ast = parse_macro_input!(input as DeriveInput);
    ast.generics
        .make_where_clause()
        .predicates
        .push(parse_quote! { Self: Send + Sync + 'static });
    let name = &ast.ident;
    let (i, t, w) = ast.generics.split_for_impl();
    quote! { impl #i #path for #name #t #w {} }.into()
}

#[proc_macro_derive(Component, attributes(component))]
pub fn component(input: TokenStream) -> TokenStream {
    simple(input, quote! { ::bevy_ecs::component::Component })
}

#[proc_macro_derive(Resource)]
pub fn resource(input: TokenStream) -> TokenStream {
    simple(input, quote! { ::bevy_ecs::system::Resource })
}

#[proc_macro_derive(Bundle, attributes(bundle))]
pub fn bundle(input: TokenStream) -> TokenStream {
    let ast = parse_macro_input!(input as DeriveInput);
    let name = &ast.ident;
    let (i, t, w) = ast.generics.split_for_impl();
    let fields: Vec<_> = match &ast.data {
        Data::Struct(s) => s
            .fields
            .iter()
            .enumerate()
            .map(|(n, f)| match &f.ident {
                Some(i) => quote! { #i },
                None => {
                    let n = syn::Index::from(n);
                    quote! { #n }
                }
            })
            .collect(),
        _ => panic!("Bundle: struct expected"),
    };
    quote! {
        impl #i ::bevy_ecs::bundle::Bundle for #name #t #w {
            fn insert_into(self, world: &mut ::bevy_ecs::world::World, entity: ::bevy_ecs::entity::Entity) {
                #(::bevy_ecs::bundle::Bundle::insert_into(self.#fields, world, entity);)*
            }
        }
    }
    .into()
}

fn label(input: TokenStream, tr: proc_macro2::TokenStream, id: proc_macro2::TokenStream) -> TokenStream {
    let ast = parse_macro_input!(input as DeriveInput);
    let name = &ast.ident;
    let (i, t, w) = ast.generics.split_for_impl();
    let body = match &ast.data {
        Data::Enum(e) => {
            let arms = e.variants.iter().map(|v| {
                let n = &v.ident;
                let s = n.to_string();
                let pat = match &v.fields {
                    Fields::Unit => quote! { Self::#n },
                    Fields::Unnamed(_) => quote! { Self::#n(..) },
                    Fields::Named(_) => quote! { Self::#n{..} },
                };
                quote! { #pat => #s }
            });
            quote! { match self { #(#arms),* } }
        }
        _ => {
            let s = name.to_string();
            quote! { #s }
        }
    };
    quote! {
        impl #i #tr for #name #t #w {
            fn as_str(&self) -> &'static str { #body }
            fn as_label(&self) -> #id { #id::new(::std::any::TypeId::of::<Self>(), self.as_str()) }
        }
    }
    .into()
}

#[proc_macro_derive(StageLabel)]
pub fn stage_label(input: TokenStream) -> TokenStream {
    label(
        input,
        quote! { ::bevy_ecs::schedule::StageLabel },
        quote! { ::bevy_ecs::schedule::StageLabelId },
    )
}

#[proc_macro_derive(SystemLabel)]
pub fn system_label(input: TokenStream) -> TokenStream {
    label(
        input,
        quote! { ::bevy_ecs::schedule::SystemLabel },
        quote! { ::bevy_ecs::schedule::SystemLabelId },
    )
}
