//! Stand-in for the macros of `diman`.
use std::collections::{BTreeMap, HashMap};

use proc_macro2::TokenStream;
use quote::{format_ident, quote};
use syn::parse::{Parse, ParseStream};
use syn::punctuated::Punctuated;
use syn::{Expr, Ident, ItemStruct, LitInt, LitStr, Token};

#[proc_macro_attribute]
pub fn dimension(
    _attr: proc_macro::TokenStream,
    item: proc_macro::TokenStream,
) -> proc_macro::TokenStream {
    let item: ItemStruct = syn::parse(item).unwrap();
    let name = &item.ident;
    let fields: Vec<_> = item.fields.iter().map(|f| f.ident.clone().unwrap()).collect();
    quote! {
        #[derive(Clone, Copy, PartialEq, Eq, Debug, ::std::marker::ConstParamTy)]
        #item
        #[allow(dead_code)]
        impl #name {
            pub const fn none() -> Self { Self { #(#fields: 0),* } }
            pub const fn dimension_mul(self, other: Self) -> Self {
                Self { #(#fields: self.#fields + other.#fields),* }
            }
            pub const fn dimension_div(self, other: Self) -> Self {
                Self { #(#fields: self.#fields - other.#fields),* }
            }
            pub const fn dimension_inv(self) -> Self {
                Self { #(#fields: -self.#fields),* }
            }
            pub const fn dimension_powi(self, n: i32) -> Self {
                Self { #(#fields: self.#fields * n),* }
            }
            pub const fn dimension_sqrt(self) -> Self {
                #(if self.#fields % 2 != 0 { panic!("square root of an odd dimension") })*
                Self { #(#fields: self.#fields / 2),* }
            }
            pub const fn dimension_cbrt(self) -> Self {
                #(if self.#fields % 3 != 0 { panic!("cubic root of a dimension that is no cube") })*
                Self { #(#fields: self.#fields / 3),* }
            }
        }
    }
    .into()
}

enum Body {
    Dims(Vec<(String, i32)>),
    Expr(Expr),
}

enum Entry {
    Def(Ident, Body),
    Unit(Ident, Option<String>, Body),
    Constant(Ident, Body),
}

struct System {
    quantity: Ident,
    dimension: Ident,
    entries: Vec<Entry>,
}

fn parse_body(input: ParseStream) -> syn::Result<Body> {
    if input.peek(syn::token::Brace) {
        let inner;
        syn::braced!(inner in input);
        let mut dims = vec![];
        while !inner.is_empty() {
            let n: Ident = inner.parse()?;
            inner.parse::<Token![:]>()?;
            let neg = inner.parse::<Option<Token![-]>>()?.is_some();
            let v: LitInt = inner.parse()?;
            let v: i32 = v.base10_parse()?;
            dims.push((n.to_string(), if neg { -v } else { v }));
            inner.parse::<Option<Token![,]>>()?;
        }
        Ok(Body::Dims(dims))
    } else {
        Ok(Body::Expr(input.parse()?))
    }
}

impl Parse for Entry {
    fn parse(input: ParseStream) -> syn::Result<Self> {
        let kind: Ident = input.parse()?;
        if kind == "unit" {
            let (name, symbol) = if input.peek(syn::token::Paren) {
                let inner;
                syn::parenthesized!(inner in input);
                let name: Ident = inner.parse()?;
                inner.parse::<Token![,]>()?;
                let symbol: LitStr = inner.parse()?;
                (name, Some(symbol.value()))
            } else {
                (input.parse()?, None)
            };
            input.parse::<Token![=]>()?;
            Ok(Entry::Unit(name, symbol, parse_body(input)?))
        } else {
            let name: Ident = input.parse()?;
            input.parse::<Token![=]>()?;
            let body = parse_body(input)?;
            if kind == "def" {
                Ok(Entry::Def(name, body))
            } else if kind == "constant" {
                Ok(Entry::Constant(name, body))
            } else {
                Err(syn::Error::new(kind.span(), "def, unit or constant expected"))
            }
        }
    }
}

impl Parse for System {
    fn parse(input: ParseStream) -> syn::Result<Self> {
        let quantity = input.parse()?;
        input.parse::<Token![,]>()?;
        let dimension = input.parse()?;
        input.parse::<Token![,]>()?;
        let inner;
        syn::bracketed!(inner in input);
        let entries = Punctuated::<Entry, Token![,]>::parse_terminated(&inner)?;
        input.parse::<Option<Token![,]>>()?;
        Ok(System {
            quantity,
            dimension,
            entries: entries.into_iter().collect(),
        })
    }
}

type Dims = BTreeMap<String, i32>;

fn combine(a: (f64, Dims), b: (f64, Dims), div: bool) -> (f64, Dims) {
    let mut d = a.1;
    for (k, v) in b.1 {
        let e = d.entry(k).or_insert(0);
        *e += if div { -v } else { v };
    }
    d.retain(|_, v| *v != 0);
    (if div { a.0 / b.0 } else { a.0 * b.0 }, d)
}

fn eval(e: &Expr, names: &HashMap<String, &Body>) -> (f64, Dims) {
    match e {
        Expr::Lit(l) => match &l.lit {
            syn::Lit::Float(f) => (f.base10_parse().unwrap(), Dims::new()),
            syn::Lit::Int(f) => (f.base10_parse::<f64>().unwrap(), Dims::new()),
            _ => panic!("literal"),
        },
        Expr::Paren(p) => eval(&p.expr, names),
        Expr::Group(p) => eval(&p.expr, names),
        Expr::Path(p) => {
            let n = p.path.get_ident().unwrap().to_string();
            resolve(
                names.get(&n).unwrap_or_else(|| panic!("undefined: {n}")),
                names,
            )
        }
        Expr::Binary(b) => {
            let div = match b.op {
                syn::BinOp::Mul(_) => false,
                syn::BinOp::Div(_) => true,
                _ => panic!("operator"),
            };
            combine(eval(&b.left, names), eval(&b.right, names), div)
        }
        _ => panic!("expression"),
    }
}

fn resolve(b: &Body, names: &HashMap<String, &Body>) -> (f64, Dims) {
    match b {
        Body::Dims(d) => (
            1.0,
            d.iter().filter(|x| x.1 != 0).cloned().collect(),
        ),
        Body::Expr(e) => eval(e, names),
    }
}

fn dims_tokens(dim: &Ident, d: &Dims) -> TokenStream {
    let k = d.keys().map(|k| format_ident!("{}", k));
    let v = d.values();
    quote! { #dim { #(#k: #v,)* ..#dim::none() } }
}

#[proc_macro]
pub fn unit_system(input: proc_macro::TokenStream) -> proc_macro::TokenStream {
    let sys: System = match syn::parse(input) {
        Ok(s) => s,
        Err(e) => return e.to_compile_error().into(),
    };
    let q = &sys.quantity;
    let dim = &sys.dimension;
    let mut names: HashMap<String, &Body> = HashMap::new();
    for e in &sys.entries {
        match e {
            Entry::Def(n, b) | Entry::Unit(n, _, b) => {
                names.insert(n.to_string(), b);
            }
            _ => {}
        }
    }
    let mut scalar_aliases = vec![];
    let mut vec2_aliases = vec![];
    let mut vec3_aliases = vec![];
    let mut scalar_units = vec![];
    let mut vec2_units = vec![];
    let mut vec3_units = vec![];
    let mut constants = vec![];
    let mut table = vec![];
    for e in &sys.entries {
        match e {
            Entry::Def(n, b) => {
                let (_, d) = resolve(b, &names);
                let d = dims_tokens(dim, &d);
                scalar_aliases.push(quote! { pub type #n = super::#q<::core::primitive::f64, { #d }>; });
                vec2_aliases.push(quote! { pub type #n = super::#q<::glam::DVec2, { #d }>; });
                vec3_aliases.push(quote! { pub type #n = super::#q<::glam::DVec3, { #d }>; });
            }
            Entry::Unit(n, symbol, b) => {
                let (f, d) = resolve(b, &names);
                let d = dims_tokens(dim, &d);
                let in_ = format_ident!("in_{}", n);
                scalar_units.push(quote! {
                    impl #q<::core::primitive::f64, { #d }> {
                        pub const fn #n(val: ::core::primitive::f64) -> Self { #q(val * #f) }
                        pub fn #in_(self) -> ::core::primitive::f64 { self.0 / #f }
                    }
                });
                vec2_units.push(quote! {
                    impl #q<::glam::DVec2, { #d }> {
                        pub fn #n(x: ::core::primitive::f64, y: ::core::primitive::f64) -> Self {
                            #q(::glam::DVec2::new(x * #f, y * #f))
                        }
                        pub fn #in_(self) -> ::glam::DVec2 { self.0 / #f }
                    }
                });
                vec3_units.push(quote! {
                    impl #q<::glam::DVec3, { #d }> {
                        pub fn #n(x: ::core::primitive::f64, y: ::core::primitive::f64, z: ::core::primitive::f64) -> Self {
                            #q(::glam::DVec3::new(x * #f, y * #f, z * #f))
                        }
                        pub fn #in_(self) -> ::glam::DVec3 { self.0 / #f }
                    }
                });
                if let Some(s) = symbol {
                    table.push(quote! { (#s, #f, #d) });
                }
            }
            Entry::Constant(n, b) => {
                let (f, d) = resolve(b, &names);
                let d = dims_tokens(dim, &d);
                constants.push(quote! {
                    pub const #n: #q<::core::primitive::f64, { #d }> = #q(#f);
                });
            }
        }
    }
    let runtime: TokenStream = include_str!("runtime.in")
        .replace("__Q", &q.to_string())
        .replace("__D", &dim.to_string())
        .parse()
        .unwrap();
    quote! {
        #[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
        #[repr(transparent)]
        pub struct #q<S: 'static, const D: #dim>(pub(crate) S);
        pub mod f64 { use super::#dim; #(#scalar_aliases)* }
        pub mod dvec2 { use super::#dim; #(#vec2_aliases)* }
        pub mod dvec3 { use super::#dim; #(#vec3_aliases)* }
        #(#scalar_units)*
        #(#vec2_units)*
        #(#vec3_units)*
        #(#constants)*
        #[doc(hidden)]
        pub static UNIT_TABLE: &[(&str, ::core::primitive::f64, #dim)] = &[ #(#table),* ];
        #runtime
    }
    .into()
}
