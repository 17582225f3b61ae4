//! Derives without bounds on type parameters (and `RuntimeDebug`, with them).
use proc_macro2::TokenStream;
use quote::{format_ident, quote};
use syn::{Data, DeriveInput, Fields, Index, Member};

fn members(f: &Fields) -> Vec<Member> {
	match f {
		Fields::Named(n) => n.named.iter().map(|x| Member::Named(x.ident.clone().unwrap())).collect(),
		Fields::Unnamed(u) => (0..u.unnamed.len()).map(|i| Member::Unnamed(Index::from(i))).collect(),
		Fields::Unit => vec![],
	}
}
fn pat(f: &Fields, pre: &str) -> (TokenStream, Vec<syn::Ident>) {
	match f {
		Fields::Named(n) => { let names: Vec<_> = n.named.iter().map(|x| x.ident.clone().unwrap()).collect(); let v: Vec<_> = names.iter().map(|x| format_ident!("{}{}", pre, x)).collect(); (quote! { { #( #names: #v ),* } }, v) }
		Fields::Unnamed(u) => { let v: Vec<_> = (0..u.unnamed.len()).map(|i| format_ident!("{}{}", pre, i)).collect(); (quote! { ( #( #v ),* ) }, v) }
		Fields::Unit => (quote! {}, vec![]),
	}
}
/// (variant path, fields); one entry for a struct
fn variants(i: &DeriveInput) -> Vec<(TokenStream, Fields, String)> {
	match &i.data {
		Data::Struct(s) => vec![(quote! { Self }, s.fields.clone(), i.ident.to_string())],
		Data::Enum(e) => e.variants.iter().map(|v| { let id = &v.ident; (quote! { Self::#id }, v.fields.clone(), id.to_string()) }).collect(),
		Data::Union(_) => vec![],
	}
}
fn wrap(i: &DeriveInput, tr: TokenStream, bound: bool, body: TokenStream) -> TokenStream {
	let mut g = i.generics.clone();
	if bound { for p in g.type_params_mut() { p.bounds.push(syn::parse_quote!(::core::fmt::Debug)); } }
	let (ig, tg, wc) = g.split_for_impl();
	let id = &i.ident;
	quote! { #[allow(deprecated)] const _: () = { impl #ig #tr for #id #tg #wc { #body } }; }
}
pub fn clone(i: DeriveInput) -> TokenStream {
	let arms = variants(&i).into_iter().map(|(p, f, _)| { let (pt, vs) = pat(&f, "a_"); let ms = members(&f); quote! { #p #pt => #p { #( #ms: ::core::clone::Clone::clone(#vs) ),* } } }).collect::<Vec<_>>();
	let b = if arms.is_empty() { quote! { match *self {} } } else { quote! { match self { #( #arms, )* } } };
	wrap(&i, quote!(::core::clone::Clone), false, quote! { fn clone(&self) -> Self { #b } })
}
pub fn copy(i: DeriveInput) -> TokenStream { wrap(&i, quote!(::core::marker::Copy), false, quote! {}) }
pub fn eq(i: DeriveInput) -> TokenStream { wrap(&i, quote!(::core::cmp::Eq), false, quote! {}) }
pub fn partial_eq(i: DeriveInput) -> TokenStream {
	let arms = variants(&i).into_iter().map(|(p, f, _)| { let (pa, va) = pat(&f, "a_"); let (pb, vb) = pat(&f, "b_"); quote! { (#p #pa, #p #pb) => true #( && #va == #vb )* } }).collect::<Vec<_>>();
	wrap(&i, quote!(::core::cmp::PartialEq), false, quote! { #[allow(unreachable_patterns)] fn eq(&self, other: &Self) -> bool { match (self, other) { #( #arms, )* _ => false } } })
}
pub fn debug(i: DeriveInput, bound: bool) -> TokenStream {
	let arms = variants(&i).into_iter().map(|(p, f, n)| {
		let (pt, vs) = pat(&f, "a_");
		match &f {
			Fields::Named(nn) => { let names = nn.named.iter().map(|x| x.ident.as_ref().unwrap().to_string()); quote! { #p #pt => fmt.debug_struct(#n) #( .field(#names, #vs) )* .finish() } }
			Fields::Unnamed(_) => quote! { #p #pt => fmt.debug_tuple(#n) #( .field(#vs) )* .finish() },
			Fields::Unit => quote! { #p => fmt.write_str(#n) },
		}
	}).collect::<Vec<_>>();
	let b = if arms.is_empty() { quote! { match *self {} } } else { quote! { match self { #( #arms, )* } } };
	wrap(&i, quote!(::core::fmt::Debug), bound, quote! { fn fmt(&self, fmt: &mut ::core::fmt::Formatter) -> ::core::fmt::Result { #b } })
}
pub fn default(i: DeriveInput) -> TokenStream {
	let (p, f) = match &i.data {
		Data::Struct(s) => (quote!(Self), s.fields.clone()),
		Data::Enum(e) => { let v = e.variants.iter().find(|v| v.attrs.iter().any(|a| a.path().is_ident("default"))).expect("#[default] variant"); let id = &v.ident; (quote!(Self::#id), v.fields.clone()) }
		_ => panic!(),
	};
	let ms = members(&f);
	wrap(&i, quote!(::core::default::Default), false, quote! { fn default() -> Self { #p { #( #ms: ::core::default::Default::default() ),* } } })
}
