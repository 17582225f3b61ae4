//! Stand-in for FRAME's procedural macros: the pallet attribute, `construct_runtime!` and the small attributes.
extern crate proc_macro;
mod nobound;
mod pallet;
mod runtime;
use proc_macro::TokenStream;
use quote::{format_ident, quote};
use syn::{parse_macro_input, DeriveInput};

#[proc_macro_derive(CloneNoBound)] pub fn d1(i: TokenStream) -> TokenStream { nobound::clone(parse_macro_input!(i as DeriveInput)).into() }
#[proc_macro_derive(CopyNoBound)] pub fn d2(i: TokenStream) -> TokenStream { nobound::copy(parse_macro_input!(i as DeriveInput)).into() }
#[proc_macro_derive(EqNoBound)] pub fn d3(i: TokenStream) -> TokenStream { nobound::eq(parse_macro_input!(i as DeriveInput)).into() }
#[proc_macro_derive(PartialEqNoBound)] pub fn d4(i: TokenStream) -> TokenStream { nobound::partial_eq(parse_macro_input!(i as DeriveInput)).into() }
#[proc_macro_derive(DebugNoBound)] pub fn d5(i: TokenStream) -> TokenStream { nobound::debug(parse_macro_input!(i as DeriveInput), false).into() }
#[proc_macro_derive(RuntimeDebugNoBound)] pub fn d6(i: TokenStream) -> TokenStream { nobound::debug(parse_macro_input!(i as DeriveInput), false).into() }
#[proc_macro_derive(DefaultNoBound, attributes(default))] pub fn d7(i: TokenStream) -> TokenStream { nobound::default(parse_macro_input!(i as DeriveInput)).into() }
#[proc_macro_derive(RuntimeDebug)] pub fn d8(i: TokenStream) -> TokenStream { nobound::debug(parse_macro_input!(i as DeriveInput), true).into() }
#[proc_macro_derive(PalletError, attributes(codec))]
pub fn d9(i: TokenStream) -> TokenStream { let i = parse_macro_input!(i as DeriveInput); let (ig, tg, wc) = i.generics.split_for_impl(); let id = &i.ident; quote! { impl #ig ::frame_support::traits::PalletError for #id #tg #wc { const MAX_ENCODED_SIZE: usize = 4; } }.into() }

#[proc_macro_attribute]
pub fn pallet(attr: TokenStream, item: TokenStream) -> TokenStream {
	let _ = attr;
	pallet::expand(parse_macro_input!(item as syn::ItemMod)).into()
}
#[proc_macro]
pub fn construct_runtime(i: TokenStream) -> TokenStream { runtime::expand(parse_macro_input!(i as runtime::Def)).into() }

#[proc_macro_attribute]
pub fn transactional(_: TokenStream, item: TokenStream) -> TokenStream {
	let syn::ItemFn { attrs, vis, sig, block } = parse_macro_input!(item as syn::ItemFn);
	quote! { #(#attrs)* #vis #sig {
		use ::frame_support::storage::{with_transaction, TransactionOutcome};
		with_transaction(|| { let r = (|| { #block })(); if r.is_ok() { TransactionOutcome::Commit(r) } else { TransactionOutcome::Rollback(r) } })
	} }.into()
}
#[proc_macro_attribute]
pub fn require_transactional(_: TokenStream, item: TokenStream) -> TokenStream {
	let syn::ItemFn { attrs, vis, sig, block } = parse_macro_input!(item as syn::ItemFn);
	quote! { #(#attrs)* #vis #sig {
		if !::frame_support::storage::transactional::is_transactional() { return Err(::frame_support::sp_runtime::TransactionalError::NoLayer.into()); }
		#block
	} }.into()
}
#[proc_macro_attribute]
pub fn storage_alias(attr: TokenStream, item: TokenStream) -> TokenStream {
	let mut t = parse_macro_input!(item as syn::ItemType);
	let name = t.ident.clone();
	let pre = format_ident!("__{}StorageAliasPrefix", name);
	let vis = t.vis.clone();
	let mut g = t.generics.clone();
	let syn::Type::Path(p) = &mut *t.ty else { panic!("storage type") };
	let seg = p.path.segments.last_mut().unwrap();
	let syn::PathArguments::AngleBracketed(a) = &mut seg.arguments else { panic!("generic arguments") };
	let first = a.args.first().cloned().expect("prefix");
	for p in g.type_params_mut() { p.default = None; }
	let bare = matches!(&first, syn::GenericArgument::Type(syn::Type::Path(q)) if q.path.segments.len() == 1 && q.path.segments[0].arguments.is_empty() && g.type_params().all(|x| x.ident != q.path.segments[0].ident));
	let gids: Vec<_> = g.type_params().map(|x| x.ident.clone()).collect();
	let (ig, tg, wc) = g.split_for_impl();
	let body = if bare { let syn::GenericArgument::Type(syn::Type::Path(q)) = &first else { unreachable!() }; let s = q.path.segments[0].ident.to_string(); quote! { #s } } else if attr.to_string() == "dynamic" { quote! { <#first as ::frame_support::traits::Get<&'static str>>::get() } } else { quote! { <#first as ::frame_support::traits::PalletInfoAccess>::name() } };
	a.args[0] = syn::parse_quote!(#pre #tg);
	if p.path.segments.len() == 1 { let q = p.path.clone(); p.path = syn::parse_quote!(::frame_support::storage::types::#q); }
	let n = name.to_string();
	let decl = if gids.is_empty() { quote! { #vis struct #pre; } } else { quote! { #vis struct #pre<#(#gids),*>(::core::marker::PhantomData<(#(#gids,)*)>); } };
	for p in t.generics.type_params_mut() { p.bounds.clear(); p.colon_token = None; }
	t.generics.where_clause = None;
	quote! {
		#[allow(non_camel_case_types)] #decl
		impl #ig ::frame_support::traits::StorageInstance for #pre #tg #wc { fn pallet_prefix() -> &'static str { #body } const STORAGE_PREFIX: &'static str = #n; }
		#[allow(type_alias_bounds)] #t
	}.into()
}
/// `#[derive_impl(..)]` fills in defaults; only used by test mocks that are not built here.
#[proc_macro_attribute]
pub fn derive_impl(_: TokenStream, item: TokenStream) -> TokenStream { item }
