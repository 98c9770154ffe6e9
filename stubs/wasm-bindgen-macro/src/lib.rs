//! `#[wasm_bindgen]`: keeps the Rust item, and registers what it exports under its JavaScript name.
use proc_macro2::{Ident, TokenStream, TokenTree};
use quote::{format_ident, quote};
use syn::{Attribute, FnArg, ForeignItem, ImplItem, Item, Pat, ReturnType, Signature, Type};

/// The words of `#[wasm_bindgen(a, b = "c", d = e)]`.
fn words(t: &TokenStream) -> Vec<(String, Option<String>)> {
    let mut out: Vec<(String, Option<String>)> = vec![];
    let mut eq = false;
    for x in t.clone() {
        match x {
            TokenTree::Punct(p) if p.as_char() == '=' => eq = true,
            TokenTree::Punct(_) => eq = false,
            TokenTree::Group(_) => {}
            x => {
                let s = x.to_string();
                let s = s.trim_start_matches("r#").trim_matches('"').to_string();
                if eq {
                    if let Some(l) = out.last_mut() {
                        l.1 = Some(s);
                    }
                } else {
                    out.push((s, None));
                }
            }
        }
    }
    out
}

#[derive(Default)]
struct Opts(Vec<(String, Option<String>)>);
impl Opts {
    fn has(&self, k: &str) -> bool {
        self.0.iter().any(|(n, _)| n == k)
    }
    fn get(&self, k: &str) -> Option<String> {
        self.0.iter().find(|(n, _)| n == k).and_then(|(_, v)| v.clone())
    }
}

/// Takes the attribute's own marks out of a list of attributes.
fn take(attrs: &mut Vec<Attribute>) -> Opts {
    let mut o = Opts::default();
    attrs.retain(|a| {
        if !a.path().is_ident("wasm_bindgen") {
            return true;
        }
        if let syn::Meta::List(l) = &a.meta {
            o.0.extend(words(&l.tokens));
        }
        false
    });
    o
}

#[proc_macro_attribute]
pub fn wasm_bindgen(attr: proc_macro::TokenStream, item: proc_macro::TokenStream) -> proc_macro::TokenStream {
    let top = Opts(words(&attr.into()));
    let item: Item = match syn::parse(item) {
        Ok(i) => i,
        Err(e) => return e.to_compile_error().into(),
    };
    match item {
        Item::Struct(s) => structure(top, s),
        Item::Impl(i) => implementation(top, i),
        Item::ForeignMod(f) => foreign(f),
        Item::Fn(f) => function(top, f),
        Item::Enum(e) => {
            let n = &e.ident;
            quote! { #e impl ::core::convert::From<#n> for ::wasm_bindgen::JsValue { fn from(e: #n) -> Self { ::wasm_bindgen::JsValue::from_f64(e as i64 as f64) } } }
        }
        i => quote! { #[allow(dead_code)] #i },
    }
    .into()
}

fn structure(_: Opts, mut s: syn::ItemStruct) -> TokenStream {
    take(&mut s.attrs);
    for f in s.fields.iter_mut() {
        take(&mut f.attrs);
    }
    let n = &s.ident;
    let name = n.to_string();
    quote! {
        #s
        impl ::core::convert::From<#n> for ::wasm_bindgen::JsValue {
            fn from(v: #n) -> Self { ::wasm_bindgen::sim::instance(#name, v) }
        }
        impl ::wasm_bindgen::sim::IntoJs for #n {
            fn into_js(self) -> ::core::result::Result<::wasm_bindgen::JsValue, ::wasm_bindgen::JsValue> { Ok(self.into()) }
        }
        impl ::wasm_bindgen::sim::FromJs for #n {
            fn from_js(v: &::wasm_bindgen::JsValue) -> ::core::result::Result<Self, ::wasm_bindgen::JsValue> { ::wasm_bindgen::sim::take_instance(v) }
        }
    }
}

/// The shim through which the simulated engine calls a Rust function.
fn shim(sig: &Signature, callee: TokenStream, class: Option<&Type>) -> TokenStream {
    let mut setup = vec![];
    let mut args = vec![];
    let mut n = 0usize;
    for a in &sig.inputs {
        match a {
            FnArg::Receiver(r) => {
                let ty = class.expect("method outside of a class");
                if r.reference.is_some() && r.mutability.is_some() {
                    setup.push(quote! { let __cell = ::wasm_bindgen::sim::cell::<#ty>(&__this)?; let mut __b = __cell.borrow_mut(); let __me = __b.as_mut().ok_or_else(::wasm_bindgen::sim::freed)?; });
                    args.push(quote! { __me });
                } else if r.reference.is_some() {
                    setup.push(quote! { let __cell = ::wasm_bindgen::sim::cell::<#ty>(&__this)?; let __b = __cell.borrow(); let __me = __b.as_ref().ok_or_else(::wasm_bindgen::sim::freed)?; });
                    args.push(quote! { __me });
                } else {
                    setup.push(quote! { let __me: #ty = ::wasm_bindgen::sim::take_instance(&__this)?; });
                    args.push(quote! { __me });
                }
            }
            FnArg::Typed(t) => {
                let v = format_ident!("__a{}", n);
                match &*t.ty {
                    Type::Reference(r) => {
                        let ty = match &*r.elem {
                            Type::Path(p) if p.path.is_ident("str") => quote! { ::std::string::String },
                            Type::Slice(s) => {
                                let e = &s.elem;
                                quote! { ::std::vec::Vec<#e> }
                            }
                            t => quote! { #t },
                        };
                        setup.push(quote! { let #v = <#ty as ::wasm_bindgen::sim::FromJs>::from_js(&::wasm_bindgen::sim::nth(&__args, #n))?; });
                        args.push(quote! { &#v });
                    }
                    ty => {
                        setup.push(quote! { let #v = <#ty as ::wasm_bindgen::sim::FromJs>::from_js(&::wasm_bindgen::sim::nth(&__args, #n))?; });
                        args.push(quote! { #v });
                    }
                }
                n += 1;
            }
        }
    }
    if sig.asyncness.is_some() {
        // the parameters move into the task
        return quote! {
            fn __shim(__this: ::wasm_bindgen::JsValue, __args: ::std::vec::Vec<::wasm_bindgen::JsValue>) -> ::core::result::Result<::wasm_bindgen::JsValue, ::wasm_bindgen::JsValue> {
                Ok(::wasm_bindgen::sim::task(async move {
                    #(#setup)*
                    let __r = #callee(#(#args),*).await;
                    ::wasm_bindgen::sim::IntoJs::into_js(__r)
                }))
            }
        };
    }
    quote! {
        fn __shim(__this: ::wasm_bindgen::JsValue, __args: ::std::vec::Vec<::wasm_bindgen::JsValue>) -> ::core::result::Result<::wasm_bindgen::JsValue, ::wasm_bindgen::JsValue> {
            let _ = (&__this, &__args);
            #(#setup)*
            let __r = #callee(#(#args),*);
            ::wasm_bindgen::sim::IntoJs::into_js(__r)
        }
    }
}

fn register(class: &str, name: &str, kind: &str, shim: TokenStream) -> TokenStream {
    let kind = Ident::new(kind, proc_macro2::Span::call_site());
    quote! {
        const _: () = {
            #shim
            extern "C" fn __register() {
                ::wasm_bindgen::sim::register(#class, #name, ::wasm_bindgen::sim::Kind::#kind, __shim);
            }
            #[used]
            #[link_section = ".init_array"]
            static __REGISTER: extern "C" fn() = __register;
        };
    }
}

fn implementation(top: Opts, mut i: syn::ItemImpl) -> TokenStream {
    take(&mut i.attrs);
    let ty = (*i.self_ty).clone();
    let class = top.get("js_class").unwrap_or_else(|| match &ty {
        Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
        _ => "?".into(),
    });
    let mut regs = vec![];
    for it in i.items.iter_mut() {
        if let ImplItem::Fn(f) = it {
            let o = take(&mut f.attrs);
            for a in f.sig.inputs.iter_mut() {
                if let FnArg::Typed(t) = a {
                    take(&mut t.attrs);
                }
            }
            if !matches!(f.vis, syn::Visibility::Public(_)) {
                continue;
            }
            let kind = if o.has("constructor") {
                "Constructor"
            } else if o.has("getter") {
                "Getter"
            } else if matches!(f.sig.inputs.first(), Some(FnArg::Receiver(_))) {
                "Method"
            } else {
                "Static"
            };
            let name = o.get("js_name").or_else(|| o.get("getter")).unwrap_or_else(|| f.sig.ident.to_string());
            let ident = &f.sig.ident;
            // `Self` means nothing in the shim
            let sig = self_type(&f.sig, &ty);
            regs.push(register(&class, &name, kind, shim(&sig, quote! { <#ty>::#ident }, Some(&ty))));
        }
    }
    quote! { #i #(#regs)* }
}

fn self_type(sig: &Signature, ty: &Type) -> Signature {
    fn go(t: TokenStream, ty: &Type) -> TokenStream {
        t.into_iter()
            .map(|x| match x {
                TokenTree::Ident(i) if i == "Self" => quote! { #ty },
                TokenTree::Group(g) => {
                    let mut n = proc_macro2::Group::new(g.delimiter(), go(g.stream(), ty));
                    n.set_span(g.span());
                    TokenTree::Group(n).into()
                }
                x => x.into(),
            })
            .collect()
    }
    syn::parse2(go(quote! { #sig }, ty)).unwrap_or_else(|_| sig.clone())
}

fn function(top: Opts, mut f: syn::ItemFn) -> TokenStream {
    take(&mut f.attrs);
    for a in f.sig.inputs.iter_mut() {
        if let FnArg::Typed(t) = a {
            take(&mut t.attrs);
        }
    }
    let name = top.get("js_name").unwrap_or_else(|| f.sig.ident.to_string());
    let ident = &f.sig.ident;
    let start = if top.has("start") { "Start" } else { "Static" };
    let r = register("", &name, start, shim(&f.sig, quote! { #ident }, None));
    quote! { #f #r }
}

fn foreign(f: syn::ItemForeignMod) -> TokenStream {
    let mut out = vec![];
    for it in f.items {
        match it {
            ForeignItem::Type(mut t) => {
                take(&mut t.attrs);
                let (vis, n, attrs) = (&t.vis, &t.ident, &t.attrs);
                out.push(quote! {
                    ::wasm_bindgen::imported_type! { #(#attrs)* #vis #n }
                });
            }
            ForeignItem::Fn(mut f) => {
                let o = take(&mut f.attrs);
                out.push(import(o, f));
            }
            ForeignItem::Static(mut s) => {
                take(&mut s.attrs);
                let (vis, n, ty) = (&s.vis, &s.ident, &s.ty);
                let name = n.to_string();
                out.push(quote! { #[allow(non_snake_case)] #vis fn #n() -> #ty { <#ty>::from(::wasm_bindgen::sim::global(#name)) } });
            }
            _ => {}
        }
    }
    quote! { #(#out)* }
}

fn import(o: Opts, f: syn::ForeignItemFn) -> TokenStream {
    let (vis, attrs) = (&f.vis, &f.attrs);
    let sig = &f.sig;
    let (ident, out) = (&sig.ident, &sig.output);
    let js = o.get("js_name").unwrap_or_else(|| ident.to_string());
    let mut params = vec![];
    let mut names = vec![];
    for a in &sig.inputs {
        if let FnArg::Typed(t) = a {
            if let Pat::Ident(p) = &*t.pat {
                names.push(p.ident.clone());
                params.push((p.ident.clone(), (*t.ty).clone()));
            }
        }
    }
    let method = o.has("method") || o.has("getter") || o.has("setter");
    let this = if method { Some(params[0].clone()) } else { None };
    let argn: Vec<_> = names.iter().skip(method as usize).collect();
    let args = quote! { ::std::vec![#(::wasm_bindgen::JsValue::from(#argn)),*] };
    let call = match (&this, o.has("getter")) {
        (Some((t, _)), true) => quote! { ::wasm_bindgen::sim::get_property(::core::convert::AsRef::<::wasm_bindgen::JsValue>::as_ref(#t), #js) },
        (Some((t, _)), false) => quote! { ::wasm_bindgen::sim::call_method(::core::convert::AsRef::<::wasm_bindgen::JsValue>::as_ref(#t), #js, #args) },
        _ => quote! { ::wasm_bindgen::sim::call_global(#js, #args) },
    };
    let is_async = sig.asyncness.is_some();
    let call = if is_async { quote! { ::wasm_bindgen::sim::settled(#call).await } } else { call };
    let unit = matches!(out, ReturnType::Default);
    let body = if o.has("catch") {
        quote! { #call.map(|v| ::wasm_bindgen::sim::ret(v)) }
    } else if unit {
        quote! { let _ = ::wasm_bindgen::sim::or_throw(#call); }
    } else {
        quote! { ::wasm_bindgen::sim::ret(::wasm_bindgen::sim::or_throw(#call)) }
    };
    let ps: Vec<_> = params.iter().skip(method as usize).map(|(n, t)| quote! { #n: #t }).collect();
    let asy = if is_async { quote! { async } } else { quote! {} };
    match this {
        Some((t, ty)) => {
            let ty = match ty {
                Type::Reference(r) => (*r.elem).clone(),
                t => t,
            };
            // the receiver is called `this`
            let rest = quote! { #(#attrs)* #vis #asy fn #ident(&self, #(#ps),*) #out { let #t = self; #body } };
            quote! { impl #ty { #rest } }
        }
        None => quote! { #(#attrs)* #vis #asy fn #ident(#(#ps),*) #out { #body } },
    }
}
