use proc_macro2::{Span, TokenStream};
use quote::{format_ident, quote, ToTokens};
use syn::*;

/// Removes and returns the `#[pallet::NAME...]` attributes.
fn take(attrs: &mut Vec<Attribute>) -> Vec<(String, Attribute)> {
	let mut out = vec![];
	attrs.retain(|a| {
		let s = &a.path().segments;
		if s.len() == 2 && s[0].ident == "pallet" { out.push((s[1].ident.to_string(), a.clone())); false } else { true }
	});
	out
}
fn item_attrs(i: &mut Item) -> Option<&mut Vec<Attribute>> {
	Some(match i { Item::Struct(x) => &mut x.attrs, Item::Enum(x) => &mut x.attrs, Item::Trait(x) => &mut x.attrs, Item::Impl(x) => &mut x.attrs, Item::Type(x) => &mut x.attrs, Item::Fn(x) => &mut x.attrs, _ => return None })
}
fn has(v: &[(String, Attribute)], n: &str) -> bool { v.iter().any(|x| x.0 == n) }

struct G { inst: bool }
impl G {
	fn ig(&self) -> TokenStream { if self.inst { quote!(<T: Config<I>, I: 'static>) } else { quote!(<T: Config>) } }
	fn tg(&self) -> TokenStream { if self.inst { quote!(<T, I>) } else { quote!(<T>) } }
	fn decl(&self) -> TokenStream { if self.inst { quote!(<T, I = ()>) } else { quote!(<T>) } }
	fn declb(&self) -> TokenStream { if self.inst { quote!(<T: Config<I>, I: 'static = ()>) } else { quote!(<T: Config>) } }
	fn ph(&self) -> TokenStream { if self.inst { quote!(::core::marker::PhantomData<(T, I)>) } else { quote!(::core::marker::PhantomData<T>) } }
	fn ci(&self) -> TokenStream { if self.inst { quote!(Config<I>) } else { quote!(Config) } }
	fn skip(&self) -> TokenStream { if self.inst { quote!(skip_type_params(T, I)) } else { quote!(skip_type_params(T)) } }
}

pub fn expand(mut m: ItemMod) -> TokenStream {
	let (_, items) = m.content.take().expect("inline module");
	let mut inst = false;
	for i in &items { if let Item::Trait(t) = i { if t.ident == "Config" && !t.generics.params.is_empty() { inst = true; } } }
	let g = G { inst };
	let (ig, tg, decl, declb, ph, ci, skip) = (g.ig(), g.tg(), g.decl(), g.declb(), g.ph(), g.ci(), g.skip());
	let fs = quote!(::frame_support);
	let is_system = items.iter().any(|i| matches!(i, Item::Type(t) if t.attrs.iter().any(|a| a.path().segments.len() == 2 && a.path().segments[1].ident == "origin")));
	let mut out = TokenStream::new();
	let mut hooks_wc = TokenStream::new();
	let (mut have_call, mut have_event, mut event_generic, mut have_hooks, mut have_error, mut have_unsigned) = (false, false, false, false, false, false);
	let (mut have_genesis, mut genesis_generic) = (false, false);
	let mut version = quote!(#fs::traits::StorageVersion::new(0));
	for mut it in items {
		let pa = item_attrs(&mut it).map(take).unwrap_or_default();
		match &mut it {
			Item::Struct(_) if has(&pa, "pallet") => {
				if let Some((_, a)) = pa.iter().find(|x| x.0 == "storage_version") { let e: Expr = a.parse_args().unwrap(); version = quote!(#e); }
				out.extend(quote! {
					pub struct Pallet #decl (#ph);
					impl #ig ::core::clone::Clone for Pallet #tg { fn clone(&self) -> Self { Pallet(::core::marker::PhantomData) } }
					impl #ig ::core::cmp::PartialEq for Pallet #tg { fn eq(&self, _: &Self) -> bool { true } }
					impl #ig ::core::cmp::Eq for Pallet #tg {}
					impl #ig ::core::fmt::Debug for Pallet #tg { fn fmt(&self, f: &mut ::core::fmt::Formatter) -> ::core::fmt::Result { f.write_str("Pallet") } }
				});
			}
			Item::Trait(t) if has(&pa, "config") => {
				for i in t.items.iter_mut() { match i { TraitItem::Type(x) => { take(&mut x.attrs); } TraitItem::Fn(x) => { take(&mut x.attrs); } TraitItem::Const(x) => { take(&mut x.attrs); } _ => {} } }
				out.extend(it.to_token_stream());
			}
			Item::Impl(x) if has(&pa, "hooks") => { have_hooks = true; hooks_wc = x.generics.where_clause.to_token_stream(); out.extend(it.to_token_stream()); }
			Item::Impl(_) if has(&pa, "validate_unsigned") => { have_unsigned = true; out.extend(it.to_token_stream()); }
			Item::Impl(_) if has(&pa, "genesis_build") => out.extend(it.to_token_stream()),
			Item::Impl(x) if has(&pa, "extra_constants") => {
				for i in x.items.iter_mut() { if let ImplItem::Fn(f) = i { take(&mut f.attrs); } }
				out.extend(it.to_token_stream());
			}
			Item::Impl(x) if has(&pa, "call") => { have_call = true; out.extend(call(x, &g)); }
			Item::Fn(f) if has(&pa, "type_value") => {
				let (vis, name, gen, blk) = (&f.vis, &f.sig.ident, &f.sig.generics, &f.block);
				let ReturnType::Type(_, ty) = &f.sig.output else { panic!("type_value needs a type") };
				let ids: Vec<_> = gen.type_params().map(|p| p.ident.clone()).collect();
				let (gi, gt, gw) = gen.split_for_impl();
				out.extend(if ids.is_empty() { quote! { #[allow(non_camel_case_types)] #vis struct #name; } } else { quote! { #[allow(non_camel_case_types)] #vis struct #name<#(#ids),*>(::core::marker::PhantomData<(#(#ids,)*)>); } });
				out.extend(quote! { impl #gi #fs::traits::Get<#ty> for #name #gt #gw { fn get() -> #ty #blk } });
			}
			Item::Enum(e) if has(&pa, "error") => { have_error = true; out.extend(error(e, &g)); }
			Item::Enum(e) if has(&pa, "event") => {
				have_event = true;
				event_generic = !e.generics.params.is_empty();
				if event_generic {
					let phx = if e.generics.params.len() > 1 { quote!(::core::marker::PhantomData<(T, I)>) } else { quote!(::core::marker::PhantomData<T>) };
					e.variants.push(parse_quote!(#[doc(hidden)] #[codec(skip)] __Ignore(#phx, #fs::Never)));
				}
				let (egi, egt, egw) = e.generics.split_for_impl();
				let bounds = if event_generic { quote!(#[codec(encode_bound())] #[codec(decode_bound())] #[scale_info(#skip, capture_docs = "never")]) } else { quote!() };
				let _ = (&egi, &egt, &egw);
				out.extend(quote! {
					#[derive(#fs::CloneNoBound, #fs::EqNoBound, #fs::PartialEqNoBound, #fs::RuntimeDebugNoBound, #fs::__private::codec::Encode, #fs::__private::codec::Decode, #fs::__private::scale_info::TypeInfo)]
					#[codec(crate = #fs::__private::codec)] #bounds
					#[scale_info(crate = #fs::__private::scale_info)]
					#e
				});
				if let Some((_, a)) = pa.iter().find(|x| x.0 == "generate_deposit") {
					let sig: TokenStream = a.parse_args().unwrap();
					let et = if event_generic { quote!(Event #tg) } else { quote!(Event) };
					out.extend(quote! { impl #ig Pallet #tg { #[allow(dead_code)] #sig(event: #et) {
						let event = <<T as #ci>::RuntimeEvent as From<#et>>::from(event);
						let event = <<T as #ci>::RuntimeEvent as Into<<T as ::frame_system::Config>::RuntimeEvent>>::into(event);
						<::frame_system::Pallet<T>>::deposit_event(event)
					} } });
				}
			}
			Item::Struct(s) if has(&pa, "genesis_config") => {
				have_genesis = true;
				genesis_generic = !s.generics.params.is_empty();
				s.attrs.retain(|a| !a.path().is_ident("serde"));
				for f in s.fields.iter_mut() { f.attrs.retain(|a| !a.path().is_ident("serde")); }
				out.extend(s.to_token_stream());
				let gt = if genesis_generic { tg.clone() } else { quote!() };
				if genesis_generic { out.extend(quote! { impl #ig #fs::sp_runtime::BuildStorage for GenesisConfig #gt { fn assimilate_storage(&self, s: &mut #fs::sp_runtime::Storage) -> ::core::result::Result<(), String> { #fs::sp_io::execute_on_storage(s, || <Self as #fs::traits::BuildGenesisConfig>::build(self)); Ok(()) } } }); }
				else { out.extend(quote! { impl #fs::sp_runtime::BuildStorage for GenesisConfig { fn assimilate_storage(&self, s: &mut #fs::sp_runtime::Storage) -> ::core::result::Result<(), String> { #fs::sp_io::execute_on_storage(s, || <Self as #fs::traits::BuildGenesisConfig>::build(self)); Ok(()) } } }); }
			}
			Item::Type(t) if has(&pa, "storage") => out.extend(storage(t, &pa, &g)),
			_ => out.extend(it.to_token_stream()),
		}
	}
	let _ = (have_error, genesis_generic);
	if !have_call { out.extend(call_enum(&[], &g, &quote!())); }
	let ev = if !have_event { quote!(#fs::NoEvent<Pallet #tg>) } else if event_generic { quote!(Event #tg) } else { quote!(Event) };
	let ev_alias = if have_event && !event_generic { if inst { quote!(<(T, I) as #fs::Always<Event>>::Out) } else { quote!(<T as #fs::Always<Event>>::Out) } } else { quote!(#ev) };
	let instances = if inst { quote!(#[doc(hidden)] pub use #fs::instances::*;) } else { quote!() };
	let bn = quote!(::frame_system::pallet_prelude::BlockNumberFor<T>);
	if !have_hooks { out.extend(quote! { impl #ig #fs::traits::Hooks<#bn> for Pallet #tg {} }); }
	if !have_unsigned {
		out.extend(quote! { impl #ig #fs::unsigned::ValidateUnsigned for Pallet #tg { type Call = Call #tg; fn validate_unsigned(_: #fs::sp_runtime::transaction_validity::TransactionSource, _: &Call #tg) -> #fs::sp_runtime::transaction_validity::TransactionValidity { Err(#fs::sp_runtime::transaction_validity::UnknownTransaction::NoUnsignedValidator.into()) } } });
	}
	let _ = have_genesis;
	let cn = "CARGO_PKG_NAME"; let _ = cn;
	let _ = is_system; let _ = declb;
	out.extend(quote! {
		impl #ig #fs::traits::PalletInfoAccess for Pallet #tg {
			fn index() -> usize { <<T as ::frame_system::Config>::PalletInfo as #fs::traits::PalletInfo>::index::<Self>().expect("pallet is part of the runtime") }
			fn name() -> &'static str { <<T as ::frame_system::Config>::PalletInfo as #fs::traits::PalletInfo>::name::<Self>().expect("pallet is part of the runtime") }
			fn name_hash() -> [u8; 16] { #fs::sp_io::hashing::twox_128(Self::name().as_bytes()) }
			fn module_name() -> &'static str { env!("CARGO_PKG_NAME") }
			fn crate_version() -> #fs::traits::CrateVersion { #fs::traits::CrateVersion::default() }
		}
		impl #ig #fs::traits::GetStorageVersion for Pallet #tg {
			type CurrentStorageVersion = #fs::traits::StorageVersion;
			fn current_storage_version() -> #fs::traits::StorageVersion { #version }
			fn on_chain_storage_version() -> #fs::traits::StorageVersion { #fs::traits::StorageVersion::get::<Self>() }
		}
		impl #ig #fs::traits::OnGenesis for Pallet #tg { fn on_genesis() { let v: #fs::traits::StorageVersion = #version; v.put::<Self>(); } }
		#instances
		#[doc(hidden)] pub type __PalletEvent #decl = #ev_alias;
		#[doc(hidden)] pub type __PalletCall #decl = Call #tg;
		impl #ig #fs::PalletParts for Pallet #tg { type Event = #ev; type Call = Call #tg; }
		impl #ig #fs::traits::OnInitialize<#bn> for Pallet #tg #hooks_wc { fn on_initialize(n: #bn) -> #fs::weights::Weight { <Self as #fs::traits::Hooks<#bn>>::on_initialize(n) } }
		impl #ig #fs::traits::OnFinalize<#bn> for Pallet #tg #hooks_wc { fn on_finalize(n: #bn) { <Self as #fs::traits::Hooks<#bn>>::on_finalize(n) } }
		impl #ig #fs::traits::OnIdle<#bn> for Pallet #tg #hooks_wc { fn on_idle(n: #bn, w: #fs::weights::Weight) -> #fs::weights::Weight { <Self as #fs::traits::Hooks<#bn>>::on_idle(n, w) } }
		impl #ig #fs::traits::OnRuntimeUpgrade for Pallet #tg #hooks_wc { fn on_runtime_upgrade() -> #fs::weights::Weight { <Self as #fs::traits::Hooks<#bn>>::on_runtime_upgrade() } }
		impl #ig #fs::traits::OffchainWorker<#bn> for Pallet #tg #hooks_wc { fn offchain_worker(n: #bn) { <Self as #fs::traits::Hooks<#bn>>::offchain_worker(n) } }
		impl #ig #fs::traits::IntegrityTest for Pallet #tg #hooks_wc { fn integrity_test() { <Self as #fs::traits::Hooks<#bn>>::integrity_test() } }
	});
	let (attrs, vis, id) = (&m.attrs, &m.vis, &m.ident);
	quote! { #(#attrs)* #[allow(non_camel_case_types, type_alias_bounds, unused_imports)] #vis mod #id { #out } }
}

fn error(e: &ItemEnum, g: &G) -> TokenStream {
	let (ig, tg, decl, ph, skip) = (g.ig(), g.tg(), g.decl(), g.ph(), g.skip());
	let fs = quote!(::frame_support);
	let (attrs, vis, vs) = (&e.attrs, &e.vis, &e.variants);
	let generic = if e.generics.params.len() > 0 { (ig, tg, decl) } else { panic!("Error needs generics") };
	let (ig, tg, decl) = generic;
	let names = e.variants.iter().map(|v| { let id = &v.ident; let s = id.to_string(); let p = match &v.fields { Fields::Unit => quote!(), Fields::Unnamed(_) => quote!((..)), Fields::Named(_) => quote!({ .. }) }; quote! { Self::#id #p => #s } });
	quote! {
		#(#attrs)*
		#[derive(#fs::__private::codec::Encode, #fs::__private::codec::Decode, #fs::__private::scale_info::TypeInfo)]
		#[codec(crate = #fs::__private::codec)] #[codec(encode_bound())] #[codec(decode_bound())]
		#[scale_info(#skip, capture_docs = "never")] #[scale_info(crate = #fs::__private::scale_info)]
		#vis enum Error #decl { #[doc(hidden)] #[codec(skip)] __Ignore(#ph, #fs::Never), #vs }
		impl #ig Error #tg { #[doc(hidden)] pub fn as_str(&self) -> &'static str { match self { Self::__Ignore(_, _) => unreachable!(), #( #names, )* } } }
		impl #ig ::core::fmt::Debug for Error #tg { fn fmt(&self, f: &mut ::core::fmt::Formatter) -> ::core::fmt::Result { f.write_str(self.as_str()) } }
		impl #ig From<Error #tg> for &'static str { fn from(e: Error #tg) -> &'static str { e.as_str() } }
		impl #ig From<Error #tg> for #fs::sp_runtime::DispatchError {
			fn from(err: Error #tg) -> Self {
				use #fs::__private::codec::Encode;
				let index = <<T as ::frame_system::Config>::PalletInfo as #fs::traits::PalletInfo>::index::<Pallet #tg>().expect("pallet is part of the runtime") as u8;
				let mut encoded = err.encode(); encoded.resize(4, 0);
				#fs::sp_runtime::DispatchError::Module(#fs::sp_runtime::ModuleError { index, error: encoded.try_into().expect("resized"), message: Some(err.as_str()) })
			}
		}
	}
}

struct C { name: Ident, attrs: Vec<Attribute>, args: Vec<(Ident, Type, bool)>, weight: TokenStream, index: Option<TokenStream>, post: bool }

fn call(x: &mut ItemImpl, g: &G) -> TokenStream {
	let mut calls = vec![];
	for i in x.items.iter_mut() {
		let ImplItem::Fn(f) = i else { continue };
		let pa = take(&mut f.attrs);
		if !matches!(f.vis, Visibility::Public(_)) && pa.is_empty() { continue }
		let weight = pa.iter().find(|a| a.0 == "weight").map(|a| a.1.parse_args::<TokenStream>().unwrap()).unwrap_or(quote!(::frame_support::weights::Weight::zero()));
		let index = pa.iter().find(|a| a.0 == "call_index").map(|a| a.1.parse_args::<TokenStream>().unwrap());
		let mut args = vec![];
		for a in f.sig.inputs.iter_mut().skip(1) {
			let FnArg::Typed(t) = a else { panic!("call argument") };
			let compact = has(&take(&mut t.attrs), "compact");
			let Pat::Ident(p) = &*t.pat else { panic!("call argument name") };
			args.push((p.ident.clone(), (*t.ty).clone(), compact));
		}
		let out = f.sig.output.to_token_stream().to_string();
		let blk = &f.block;
		f.block = parse_quote!({ ::frame_support::storage::with_storage_layer(|| #blk) });
		calls.push(C { name: f.sig.ident.clone(), attrs: f.attrs.iter().filter(|a| a.path().is_ident("cfg")).cloned().collect(), args, weight, index, post: out.contains("PostInfo") });
	}
	let wc = &x.generics.where_clause;
	let e = call_enum(&calls, g, &quote!(#wc));
	quote! { #x #e }
}

fn call_enum(calls: &[C], g: &G, wc: &TokenStream) -> TokenStream {
	let (ig, tg, declb, ph, skip) = (g.ig(), g.tg(), g.declb(), g.ph(), g.skip());
	let fs = quote!(::frame_support);
	let vs: Vec<_> = calls.iter().map(|c| {
		let (n, at) = (&c.name, &c.attrs);
		let fields = c.args.iter().map(|(i, t, k)| { let i = bare(i); if *k { quote!(#[codec(compact)] #i: #t) } else { quote!(#i: #t) } });
		let ix = c.index.as_ref().map(|x| quote!(#[codec(index = #x)]));
		quote! { #(#at)* #ix #n { #(#fields),* } }
	}).collect();
	let disp: Vec<_> = calls.iter().map(|c| { let n = &c.name; let a: Vec<_> = c.args.iter().map(|x| bare(&x.0)).collect(); let _ = c.post; quote! { Self::#n { #(#a),* } => <Pallet #tg>::#n(origin, #(#a),*).map(Into::into).map_err(Into::into) } }).collect();
	let wts: Vec<_> = calls.iter().map(|c| { let (n, w) = (&c.name, &c.weight); let a: Vec<_> = c.args.iter().map(|x| { let o = &x.0; let b = bare(o); if *o == b { quote!(#b) } else { quote!(#b: #o) } }).collect(); quote! { Self::#n { #(#a),* } => { #fs::dispatch::info_of(#w) } } }).collect();
	let names: Vec<_> = calls.iter().map(|c| { let n = &c.name; let s = n.to_string(); quote! { Self::#n { .. } => #s } }).collect();
	let all: Vec<_> = calls.iter().map(|c| c.name.to_string()).collect();
	let news: Vec<_> = calls.iter().map(|c| { let n = &c.name; let f = format_ident!("new_call_variant_{}", n); let a: Vec<_> = c.args.iter().map(|x| bare(&x.0)).collect(); let t: Vec<_> = c.args.iter().map(|x| &x.1).collect(); quote! { #[doc(hidden)] pub fn #f(#(#a: #t),*) -> Self { Self::#n { #(#a),* } } } }).collect();
	quote! {
		#[derive(#fs::RuntimeDebugNoBound, #fs::CloneNoBound, #fs::EqNoBound, #fs::PartialEqNoBound, #fs::__private::codec::Encode, #fs::__private::codec::Decode, #fs::__private::scale_info::TypeInfo)]
		#[codec(crate = #fs::__private::codec)] #[codec(encode_bound())] #[codec(decode_bound())]
		#[scale_info(#skip, capture_docs = "never")] #[scale_info(crate = #fs::__private::scale_info)]
		pub enum Call #declb { #[doc(hidden)] #[codec(skip)] __Ignore(#ph, #fs::Never), #(#vs),* }
		impl #ig Call #tg #wc { #(#news)* }
		impl #ig #fs::traits::UnfilteredDispatchable for Call #tg #wc {
			type RuntimeOrigin = ::frame_system::pallet_prelude::OriginFor<T>;
			#[allow(unused_variables)]
			fn dispatch_bypass_filter(self, origin: Self::RuntimeOrigin) -> #fs::dispatch::DispatchResultWithPostInfo { match self { #(#disp,)* Self::__Ignore(_, _) => unreachable!() } }
		}
		impl #ig #fs::dispatch::GetDispatchInfo for Call #tg #wc {
			#[allow(unused_variables)]
			fn get_dispatch_info(&self) -> #fs::dispatch::DispatchInfo { match self { #(#wts,)* Self::__Ignore(_, _) => unreachable!() } }
		}
		impl #ig #fs::traits::GetCallName for Call #tg #wc {
			fn get_call_name(&self) -> &'static str { match self { #(#names,)* Self::__Ignore(_, _) => unreachable!() } }
			fn get_call_names() -> &'static [&'static str] { &[#(#all),*] }
		}
		impl #ig #fs::dispatch::Callable<T> for Pallet #tg #wc { type RuntimeCall = Call #tg; }
	}
}
/// the call field is named without leading underscores
fn bare(i: &Ident) -> Ident { i.clone() }

fn storage(t: &mut ItemType, pa: &[(String, Attribute)], g: &G) -> TokenStream {
	let (tg,) = (g.tg(),);
	let ig = g.ig();
	let fs = quote!(::frame_support);
	let name = t.ident.clone();
	let pre = format_ident!("_GeneratedPrefixForStorage{}", name);
	let vis = t.vis.clone();
	let Type::Path(p) = &mut *t.ty else { panic!("storage type") };
	let seg = p.path.segments.last_mut().unwrap();
	let kind = seg.ident.to_string();
	let PathArguments::AngleBracketed(a) = &mut seg.arguments else { panic!("storage arguments") };
	a.args[0] = parse_quote!(#pre #tg);
	let args: Vec<GenericArgument> = a.args.iter().cloned().collect();
	let n = pa.iter().find(|x| x.0 == "storage_prefix").map(|x| x.1.parse_args::<LitStr>().unwrap().value()).unwrap_or(name.to_string());
	let (decl, ph) = (g.decl(), g.ph());
	let mut out = quote! {
		#[doc(hidden)] #vis struct #pre #decl (#ph);
		impl #ig #fs::traits::StorageInstance for #pre #tg {
			fn pallet_prefix() -> &'static str { <<T as ::frame_system::Config>::PalletInfo as #fs::traits::PalletInfo>::name::<Pallet #tg>().expect("pallet is part of the runtime") }
			const STORAGE_PREFIX: &'static str = #n;
		}
	};
	if kind == "CountedStorageMap" {
		let cn = format!("CounterFor{}", n);
		out.extend(quote! { impl #ig #fs::storage::types::CountedStorageMapInstance for #pre #tg { const COUNTER_PREFIX: &'static str = #cn; } });
	}
	out.extend(t.to_token_stream());
	if let Some((_, ga)) = pa.iter().find(|x| x.0 == "getter") {
		let sig = ga.parse_args_with(|i: parse::ParseStream| { let v: Visibility = if i.peek(Token![fn]) { parse_quote!(pub) } else { i.parse()? }; i.parse::<Token![fn]>()?; let id: Ident = i.parse()?; Ok((v, id)) }).unwrap();
		let fname = sig.1;
		let (vi, keys): (usize, Vec<usize>) = match kind.as_str() { "StorageValue" => (1, vec![]), "StorageMap" | "CountedStorageMap" => (3, vec![2]), "StorageDoubleMap" => (5, vec![2, 4]), "StorageNMap" => (2, vec![]), k => panic!("storage {k}") };
		let v = &args[vi];
		let opt = match args.get(vi + 1) { Some(q) => q.to_token_stream().to_string().contains("OptionQuery"), None => true };
		let ret = if opt { quote!(::core::option::Option<#v>) } else { quote!(#v) };
		let st = quote!(#name::#tg);
		let (params, pass): (Vec<_>, Vec<_>) = keys.iter().enumerate().map(|(i, k)| { let id = Ident::new(&format!("k{i}"), Span::call_site()); let kt = &args[*k]; let kg = Ident::new(&format!("KArg{i}"), Span::call_site()); ((quote!(#id: #kg), quote!(#kg: #fs::__private::codec::EncodeLike<#kt>)), quote!(#id)) }).unzip();
		let (params, gens): (Vec<_>, Vec<_>) = params.into_iter().unzip();
		if kind == "StorageNMap" {
			let kt = &args[1];
			out.extend(quote! { impl #ig Pallet #tg { pub fn #fname<KArg>(key: KArg) -> #ret where KArg: #fs::storage::types::EncodeLikeTuple<<#kt as #fs::storage::types::KeyGenerator>::KArg> + #fs::storage::types::TupleToEncodedIter { #st::get(key) } } });
		} else {
			out.extend(quote! { impl #ig Pallet #tg { pub fn #fname<#(#gens),*>(#(#params),*) -> #ret { #st::get(#(#pass),*) } } });
		}
	}
	out
}
