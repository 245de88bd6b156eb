//! Attribute macros of the pyo3 stand-in: wrappers around the functions, unchanged function bodies.
use proc_macro::TokenStream;
use proc_macro2::TokenStream as T2;
use quote::{format_ident, quote};
use syn::parse::{Parse, ParseStream};
use syn::punctuated::Punctuated;
use syn::{Expr, FnArg, Ident, ImplItem, ItemFn, ItemImpl, ItemStruct, Pat, ReturnType, Signature, Token, Type, parse_macro_input};

struct SigItem {
    name: Option<Ident>,
    default: Option<Expr>,
    star: bool,
    slash: bool,
}

impl Parse for SigItem {
    fn parse(i: ParseStream) -> syn::Result<Self> {
        if i.peek(Token![*]) {
            i.parse::<Token![*]>()?;
            return Ok(SigItem { name: None, default: None, star: true, slash: false });
        }
        if i.peek(Token![/]) {
            i.parse::<Token![/]>()?;
            return Ok(SigItem { name: None, default: None, star: false, slash: true });
        }
        let name: Ident = i.parse()?;
        let default = if i.peek(Token![=]) {
            i.parse::<Token![=]>()?;
            Some(i.parse()?)
        } else {
            None
        };
        Ok(SigItem { name: Some(name), default, star: false, slash: false })
    }
}

enum Opt {
    Signature(Vec<SigItem>),
    Name(String),
    Other,
}

impl Parse for Opt {
    fn parse(i: ParseStream) -> syn::Result<Self> {
        let k: Ident = syn::ext::IdentExt::parse_any(i)?;
        let value = if i.peek(Token![=]) {
            i.parse::<Token![=]>()?;
            if k == "signature" && i.peek(syn::token::Paren) {
                let c;
                syn::parenthesized!(c in i);
                return Ok(Opt::Signature(Punctuated::<SigItem, Token![,]>::parse_terminated(&c)?.into_iter().collect()));
            }
            Some(i.parse::<Expr>()?)
        } else {
            None
        };
        if k == "name" {
            if let Some(Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(s), .. })) = value {
                return Ok(Opt::Name(s.value()));
            }
        }
        Ok(Opt::Other)
    }
}

fn opts(t: T2) -> Vec<Opt> {
    syn::parse::Parser::parse2(Punctuated::<Opt, Token![,]>::parse_terminated, t).map(|p| p.into_iter().collect()).unwrap_or_default()
}

/// takes the #[pyo3(...)] attributes away and returns their options
fn take(attrs: &mut Vec<syn::Attribute>) -> Vec<Opt> {
    let mut v = vec![];
    attrs.retain(|a| {
        if a.path().is_ident("pyo3") {
            if let syn::Meta::List(l) = &a.meta {
                v.extend(opts(l.tokens.clone()));
            }
            false
        } else {
            true
        }
    });
    v
}

fn is_python(t: &Type) -> bool {
    matches!(t, Type::Path(p) if p.path.segments.last().is_some_and(|s| s.ident == "Python"))
}

/// code that parses Python arguments and calls `callee`
fn call(sig: &Signature, o: &[Opt], callee: &T2, receiver: Option<T2>, fname: &str) -> T2 {
    let items = o.iter().find_map(|x| if let Opt::Signature(v) = x { Some(v) } else { None });
    let mut formals: Vec<(Ident, Type)> = vec![];
    let mut actual: Vec<T2> = receiver.into_iter().collect();
    for a in &sig.inputs {
        let FnArg::Typed(t) = a else { continue };
        if is_python(&t.ty) {
            actual.push(quote!(py));
            continue;
        }
        let id = match &*t.pat {
            Pat::Ident(i) => i.ident.clone(),
            _ => format_ident!("a{}", formals.len()),
        };
        let v = format_ident!("__arg_{}", id);
        actual.push(quote!(#v));
        formals.push((id, (*t.ty).clone()));
    }
    let mut names = vec![];
    let mut required = vec![];
    let mut kwonly = formals.len();
    let mut posonly = 0usize;
    let mut lets = vec![];
    let order: Vec<(Ident, Option<Expr>)> = if let Some(items) = items {
        let mut v = vec![];
        for it in items {
            if it.star {
                kwonly = v.len();
            } else if it.slash {
                posonly = v.len();
            } else {
                v.push((it.name.clone().unwrap(), it.default.clone()));
            }
        }
        v
    } else {
        formals.iter().map(|(i, _)| (i.clone(), None)).collect()
    };
    for (k, (id, def)) in order.iter().enumerate() {
        let ty = &formals.iter().find(|(i, _)| i == id).unwrap_or_else(|| panic!("no parameter {id}")).1;
        let s = id.to_string();
        names.push(quote!(#s));
        required.push(def.is_none());
        let v = format_ident!("__arg_{}", id);
        let d = match def {
            Some(e) => quote!({ let d: #ty = #e; d }),
            None => quote!(unreachable!()),
        };
        lets.push(quote! {
            let #v: #ty = match __given[#k] {
                Some(o) => unsafe { ::pyo3::impl_::extract(py, o, #s)? },
                None => #d,
            };
        });
    }
    let n = names.len();
    quote! {
        let __given: [Option<::pyo3::impl_::Obj>; #n] = unsafe {
            ::pyo3::impl_::parse_args(py, args, kwargs, #fname, &[#(#names),*], &[#(#required),*], #posonly, #kwonly)?
        };
        #(#lets)*
        ::pyo3::impl_::finish(py, #callee(#(#actual),*))
    }
}

#[proc_macro_attribute]
pub fn pyfunction(attr: TokenStream, item: TokenStream) -> TokenStream {
    let mut f = parse_macro_input!(item as ItemFn);
    let mut o = opts(attr.into());
    o.extend(take(&mut f.attrs));
    let name = &f.sig.ident;
    let vis = &f.vis;
    let pyname = o.iter().find_map(|x| if let Opt::Name(n) = x { Some(n.clone()) } else { None }).unwrap_or_else(|| name.to_string());
    let c = call(&f.sig, &o, &quote!(#name), None, &pyname);
    let tramp = format_ident!("__pyo3_tramp_{}", name);
    quote! {
        #f
        #[doc(hidden)]
        unsafe extern "C" fn #tramp(_s: ::pyo3::impl_::Obj, args: ::pyo3::impl_::Obj, kwargs: ::pyo3::impl_::Obj) -> ::pyo3::impl_::Obj {
            ::pyo3::impl_::trampoline(|py| { #c })
        }
        #[doc(hidden)]
        #vis mod #name {
            pub const NAME: &str = #pyname;
            pub const FUNCTION: unsafe extern "C" fn(::pyo3::impl_::Obj, ::pyo3::impl_::Obj, ::pyo3::impl_::Obj) -> ::pyo3::impl_::Obj = super::#tramp;
        }
    }
    .into()
}

#[proc_macro]
pub fn wrap_pyfunction(item: TokenStream) -> TokenStream {
    struct A(syn::Path, Option<Expr>);
    impl Parse for A {
        fn parse(i: ParseStream) -> syn::Result<Self> {
            let p = i.parse()?;
            let e = if i.peek(Token![,]) {
                i.parse::<Token![,]>()?;
                if i.is_empty() { None } else { Some(i.parse()?) }
            } else {
                None
            };
            Ok(A(p, e))
        }
    }
    let A(p, m) = parse_macro_input!(item as A);
    let m = m.map(|e| quote!(#e)).unwrap_or(quote!(()));
    quote! {{
        let _ = &#m;
        unsafe { ::pyo3::impl_::make_function(#p::NAME, #p::FUNCTION) }
    }}
    .into()
}

#[proc_macro_attribute]
pub fn pyclass(attr: TokenStream, item: TokenStream) -> TokenStream {
    let mut s = parse_macro_input!(item as ItemStruct);
    let a: T2 = attr.into();
    let unsendable = a.to_string().contains("unsendable");
    let mut o = opts(a);
    o.extend(take(&mut s.attrs));
    let name = &s.ident;
    let pyname = o.iter().find_map(|x| if let Opt::Name(n) = x { Some(n.clone()) } else { None }).unwrap_or_else(|| name.to_string());
    quote! {
        #s
        impl ::pyo3::PyClass for #name {
            const NAME: &'static str = #pyname;
            const UNSENDABLE: bool = #unsendable;
            fn cell() -> &'static ::std::sync::OnceLock<usize> {
                static C: ::std::sync::OnceLock<usize> = ::std::sync::OnceLock::new();
                &C
            }
        }
    }
    .into()
}

#[proc_macro_attribute]
pub fn pymethods(_attr: TokenStream, item: TokenStream) -> TokenStream {
    let mut b = parse_macro_input!(item as ItemImpl);
    let ty = b.self_ty.clone();
    let mut tramps = vec![];
    let mut entries = vec![];
    for it in &mut b.items {
        let ImplItem::Fn(f) = it else { continue };
        let mut o = take(&mut f.attrs);
        f.attrs.retain(|a| {
            let keep = !["getter", "new", "staticmethod", "setter", "classmethod"].iter().any(|k| a.path().is_ident(k));
            if !keep && !a.path().is_ident("getter") {
                panic!("the stand-in does not support this kind of method");
            }
            keep
        });
        let _ = &mut o;
        let name = &f.sig.ident;
        let has_self = f.sig.receiver().is_some();
        if !has_self {
            panic!("the stand-in supports only methods that take self");
        }
        let mutable = f.sig.receiver().is_some_and(|r| r.mutability.is_some());
        let pyname = o.iter().find_map(|x| if let Opt::Name(n) = x { Some(n.clone()) } else { None }).unwrap_or_else(|| name.to_string());
        let recv = if mutable { quote!(&mut *__this) } else { quote!(&*__this) };
        let c = call(&f.sig, &o, &quote!(#ty::#name), Some(recv), &pyname);
        let tramp = format_ident!("__pyo3_method_{}", name);
        tramps.push(quote! {
            #[doc(hidden)]
            unsafe extern "C" fn #tramp(slf: ::pyo3::impl_::Obj, args: ::pyo3::impl_::Obj, kwargs: ::pyo3::impl_::Obj) -> ::pyo3::impl_::Obj {
                ::pyo3::impl_::trampoline(|py| {
                    let __this = unsafe { ::pyo3::impl_::contents::<#ty>(py, slf)? };
                    #c
                })
            }
        });
        entries.push(quote!((#pyname, #ty::#tramp as unsafe extern "C" fn(::pyo3::impl_::Obj, ::pyo3::impl_::Obj, ::pyo3::impl_::Obj) -> ::pyo3::impl_::Obj)));
    }
    quote! {
        #b
        impl #ty { #(#tramps)* }
        impl ::pyo3::impl_::Methods for #ty {
            fn methods() -> Vec<(&'static str, unsafe extern "C" fn(::pyo3::impl_::Obj, ::pyo3::impl_::Obj, ::pyo3::impl_::Obj) -> ::pyo3::impl_::Obj)> {
                vec![#(#entries),*]
            }
        }
    }
    .into()
}

#[proc_macro_attribute]
pub fn pymodule(attr: TokenStream, item: TokenStream) -> TokenStream {
    let mut f = parse_macro_input!(item as ItemFn);
    let mut o = opts(attr.into());
    o.extend(take(&mut f.attrs));
    let name = &f.sig.ident;
    let pyname = o.iter().find_map(|x| if let Opt::Name(n) = x { Some(n.clone()) } else { None }).unwrap_or_else(|| name.to_string());
    let init = format_ident!("PyInit_{}", pyname);
    let mut a = vec![];
    for p in &f.sig.inputs {
        let FnArg::Typed(t) = p else { continue };
        a.push(if is_python(&t.ty) { quote!(py) } else { quote!(&m) });
    }
    let done = if matches!(f.sig.output, ReturnType::Default) { quote!(;) } else { quote!(?;) };
    quote! {
        #f
        #[doc(hidden)]
        #[allow(non_snake_case)]
        #[unsafe(no_mangle)]
        pub unsafe extern "C" fn #init() -> ::pyo3::impl_::Obj {
            ::pyo3::impl_::trampoline(|py| {
                let m = unsafe { ::pyo3::impl_::new_module(py, #pyname)? };
                #name(#(#a),*) #done
                Ok(m.into_raw())
            })
        }
    }
    .into()
}
