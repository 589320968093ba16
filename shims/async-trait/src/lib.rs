//! Stand-in for `async-trait`: `async fn f(..) -> T` becomes
//! `fn f<'async_trait>(..) -> Pin<Box<dyn Future<Output = T> + Send + 'async_trait>>`, every
//! elided reference lifetime being given a name that outlives `'async_trait`.
use proc_macro::TokenStream;
use quote::{format_ident, quote};
use syn::{parse_quote, FnArg, ImplItem, Item, Lifetime, ReturnType, Signature, TraitItem, Type};

struct Namer(Vec<Lifetime>);
impl Namer {
    fn fresh(&mut self) -> Lifetime {
        let l = Lifetime::new(&format!("'life{}", self.0.len()), proc_macro2::Span::call_site());
        self.0.push(l.clone());
        l
    }
    fn ty(&mut self, t: &mut Type) {
        match t {
            Type::Reference(r) => {
                if r.lifetime.is_none() { r.lifetime = Some(self.fresh()) }
                self.ty(&mut r.elem);
            }
            Type::Path(p) => for s in p.path.segments.iter_mut() {
                if let syn::PathArguments::AngleBracketed(a) = &mut s.arguments {
                    for g in a.args.iter_mut() { if let syn::GenericArgument::Type(t) = g { self.ty(t) } }
                }
            },
            Type::Tuple(t) => for e in t.elems.iter_mut() { self.ty(e) },
            Type::Paren(t) => self.ty(&mut t.elem),
            _ => {}
        }
    }
}

fn rewrite(sig: &mut Signature) -> bool {
    if sig.asyncness.take().is_none() { return false }
    let mut n = Namer(vec![]);
    for a in sig.inputs.iter_mut() {
        match a {
            FnArg::Receiver(r) => {
                if let Some((_, l)) = &mut r.reference {
                    let f = l.clone().unwrap_or_else(|| n.fresh());
                    *l = Some(f.clone());
                    let m = &r.mutability;
                    r.ty = Box::new(parse_quote!(& #f #m Self));
                } else { n.ty(&mut r.ty) }
            }
            FnArg::Typed(t) => n.ty(&mut t.ty),
        }
    }
    for l in &n.0 { sig.generics.params.push(parse_quote!(#l)) }
    sig.generics.params.push(parse_quote!('async_trait));
    {
        let w = sig.generics.make_where_clause();
        for l in &n.0 { w.predicates.push(parse_quote!(#l: 'async_trait)) }
        w.predicates.push(parse_quote!(Self: 'async_trait));
    }
    let out: Type = match &sig.output { ReturnType::Default => parse_quote!(()), ReturnType::Type(_, t) => (**t).clone() };
    sig.output = parse_quote!(-> ::core::pin::Pin<Box<dyn ::core::future::Future<Output = #out> + ::core::marker::Send + 'async_trait>>);
    true
}

#[proc_macro_attribute]
pub fn async_trait(_: TokenStream, item: TokenStream) -> TokenStream {
    let _ = format_ident!("x");
    match syn::parse_macro_input!(item as Item) {
        Item::Trait(mut t) => {
            for i in t.items.iter_mut() {
                if let TraitItem::Fn(f) = i {
                    if rewrite(&mut f.sig) { if let Some(b) = f.default.take() { f.default = Some(parse_quote!({ Box::pin(async move #b) })) } }
                }
            }
            quote!(#t).into()
        }
        Item::Impl(mut t) => {
            for i in t.items.iter_mut() {
                if let ImplItem::Fn(f) = i {
                    if rewrite(&mut f.sig) { let b = f.block.clone(); f.block = parse_quote!({ Box::pin(async move #b) }) }
                }
            }
            quote!(#t).into()
        }
        other => quote!(#other).into(),
    }
}
