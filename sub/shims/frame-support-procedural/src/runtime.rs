use proc_macro2::TokenStream;
use quote::{format_ident, quote};
use syn::parse::{Parse, ParseStream};
use syn::*;

struct P { name: Ident, path: Path, inst: Option<Ident>, index: Option<LitInt> }
pub struct Def { name: Ident, pallets: Vec<P> }

impl Parse for Def {
	fn parse(i: ParseStream) -> Result<Self> {
		let _: Visibility = i.parse()?;
		if i.peek(Token![enum]) { i.parse::<Token![enum]>()?; } else { i.parse::<Token![struct]>()?; }
		let name: Ident = i.parse()?;
		while !i.peek(token::Brace) { i.parse::<proc_macro2::TokenTree>()?; }
		let c; braced!(c in i);
		let mut pallets = vec![];
		while !c.is_empty() {
			let _ = c.call(Attribute::parse_outer)?;
			let pname: Ident = c.parse()?;
			c.parse::<Token![:]>()?;
			let mut segs: punctuated::Punctuated<PathSegment, Token![::]> = Default::default();
			let lead: Option<Token![::]> = c.parse()?;
			let mut inst = None;
			loop {
				if c.peek(token::Brace) { let b; braced!(b in c); let _: TokenStream = b.parse()?; break; }
				if c.peek(Token![<]) { c.parse::<Token![<]>()?; inst = Some(c.parse::<Ident>()?); c.parse::<Token![>]>()?; }
				else { let id = if c.peek(Token![crate]) { c.parse::<Token![crate]>()?; format_ident!("crate") } else if c.peek(Token![self]) { c.parse::<Token![self]>()?; format_ident!("self") } else if c.peek(Token![super]) { c.parse::<Token![super]>()?; format_ident!("super") } else { c.parse::<Ident>()? }; segs.push(PathSegment::from(id)); }
				if c.peek(Token![::]) { c.parse::<Token![::]>()?; } else { break; }
			}
			// `exclude_parts { .. }` / `use_parts { .. }`
			if c.peek(Ident) { let _: Ident = c.parse()?; let b; braced!(b in c); let _: TokenStream = b.parse()?; }
			let index = if c.peek(Token![=]) { c.parse::<Token![=]>()?; Some(c.parse()?) } else { None };
			pallets.push(P { name: pname, path: Path { leading_colon: lead, segments: segs }, inst, index });
			if c.peek(Token![,]) { c.parse::<Token![,]>()?; }
		}
		Ok(Def { name, pallets })
	}
}

pub fn expand(d: Def) -> TokenStream {
	let rt = &d.name;
	let fs = quote!(::frame_support);
	let names: Vec<_> = d.pallets.iter().map(|p| &p.name).collect();
	let paths: Vec<_> = d.pallets.iter().map(|p| &p.path).collect();
	let pal: Vec<_> = d.pallets.iter().map(|p| { let pa = &p.path; match &p.inst { Some(i) => quote!(#pa::Pallet<#rt, #pa::#i>), None => quote!(#pa::Pallet<#rt>) } }).collect();
	let _ = &paths;
	let part = |n: &str| -> Vec<TokenStream> { d.pallets.iter().map(|p| { let (pa, n) = (&p.path, format_ident!("{}", n)); match &p.inst { Some(i) => quote!(#pa::#n<#rt, #pa::#i>), None => quote!(#pa::#n<#rt>) } }).collect() };
	let (evs, calls) = (part("__PalletEvent"), part("__PalletCall"));
	let mut next = 0u64;
	let idx: Vec<u64> = d.pallets.iter().map(|p| { let i = p.index.as_ref().map(|x| x.base10_parse().unwrap()).unwrap_or(next); next = i + 1; i }).collect();
	let idx8: Vec<u8> = idx.iter().map(|x| *x as u8).collect();
	let idxu: Vec<usize> = idx.iter().map(|x| *x as usize).collect();
	let strs: Vec<_> = names.iter().map(|n| n.to_string()).collect();
	let sysn = &d.pallets.iter().find(|p| p.path.segments.last().unwrap().ident == "frame_system" || p.path.segments.last().unwrap().ident == "system").expect("System pallet").name;
	let others: Vec<_> = d.pallets.iter().zip(&pal).filter(|(p, _)| p.name != *sysn).map(|(_, t)| t.clone()).collect();
	quote! {
		#[derive(Clone, Copy, PartialEq, Eq, #fs::sp_runtime::RuntimeDebug)]
		pub struct #rt;
		impl #fs::__private::scale_info::TypeInfo for #rt { type Identity = Self; fn type_info() -> #fs::__private::scale_info::Type { #fs::trivial_type_info("Runtime") } }
		#( pub type #names = #pal; )*
		pub type AllPalletsWithSystem = ( #( #names, )* );
		pub type AllPalletsWithoutSystem = ( #( #others, )* );
		#[doc(hidden)] pub type __SystemAccountId = <#rt as ::frame_system::Config>::AccountId;
		#[doc(hidden)] #[allow(non_snake_case)]
		mod __rt_imports {}

		#[derive(Clone, PartialEq, Eq, #fs::__private::codec::Encode, #fs::__private::codec::Decode, #fs::sp_runtime::RuntimeDebug)]
		#[codec(crate = #fs::__private::codec)]
		#[allow(non_camel_case_types)]
		pub enum RuntimeEvent { #( #[codec(index = #idx8)] #names(#evs), )* }
		impl #fs::__private::scale_info::TypeInfo for RuntimeEvent { type Identity = Self; fn type_info() -> #fs::__private::scale_info::Type { #fs::trivial_type_info("RuntimeEvent") } }
		#( impl From<#evs> for RuntimeEvent { fn from(x: #evs) -> Self { RuntimeEvent::#names(x) } }
		   impl TryInto<#evs> for RuntimeEvent { type Error = (); fn try_into(self) -> Result<#evs, ()> { #[allow(unreachable_patterns)] match self { RuntimeEvent::#names(x) => Ok(x), _ => Err(()) } } } )*

		#[derive(Clone, PartialEq, Eq, #fs::__private::codec::Encode, #fs::__private::codec::Decode, #fs::sp_runtime::RuntimeDebug)]
		#[codec(crate = #fs::__private::codec)]
		#[allow(non_camel_case_types)]
		pub enum RuntimeCall { #( #[codec(index = #idx8)] #names(#calls), )* }
		impl #fs::__private::scale_info::TypeInfo for RuntimeCall { type Identity = Self; fn type_info() -> #fs::__private::scale_info::Type { #fs::trivial_type_info("RuntimeCall") } }
		#( impl From<#calls> for RuntimeCall { fn from(x: #calls) -> Self { RuntimeCall::#names(x) } }
		   impl #fs::traits::IsSubType<#calls> for RuntimeCall { fn is_sub_type(&self) -> Option<&#calls> { #[allow(unreachable_patterns)] match self { RuntimeCall::#names(x) => Some(x), _ => None } } } )*
		impl #fs::traits::UnfilteredDispatchable for RuntimeCall {
			type RuntimeOrigin = RuntimeOrigin;
			fn dispatch_bypass_filter(self, o: RuntimeOrigin) -> #fs::dispatch::DispatchResultWithPostInfo { match self { #( RuntimeCall::#names(c) => #fs::traits::UnfilteredDispatchable::dispatch_bypass_filter(c, o), )* } }
		}
		impl #fs::sp_runtime::traits::Dispatchable for RuntimeCall {
			type RuntimeOrigin = RuntimeOrigin;
			type Config = Self;
			type Info = #fs::dispatch::DispatchInfo;
			type PostInfo = #fs::dispatch::PostDispatchInfo;
			fn dispatch(self, o: RuntimeOrigin) -> #fs::dispatch::DispatchResultWithPostInfo {
				if !<RuntimeOrigin as #fs::traits::OriginTrait>::filter_call(&o, &self) { return Err(::frame_system::Error::<#rt>::CallFiltered.into()); }
				#fs::traits::UnfilteredDispatchable::dispatch_bypass_filter(self, o)
			}
		}
		impl #fs::dispatch::GetDispatchInfo for RuntimeCall { fn get_dispatch_info(&self) -> #fs::dispatch::DispatchInfo { match self { #( RuntimeCall::#names(c) => c.get_dispatch_info(), )* } } }
		impl #fs::dispatch::CheckIfFeeless for RuntimeCall { type Origin = RuntimeOrigin; fn is_feeless(&self, _: &RuntimeOrigin) -> bool { false } }
		impl #fs::traits::GetCallMetadata for RuntimeCall {
			fn get_module_names() -> &'static [&'static str] { &[#(#strs),*] }
			fn get_call_names(m: &str) -> &'static [&'static str] { match m { #( #strs => <#calls as #fs::traits::GetCallName>::get_call_names(), )* _ => &[] } }
			fn get_call_metadata(&self) -> #fs::traits::CallMetadata { match self { #( RuntimeCall::#names(c) => #fs::traits::CallMetadata { pallet_name: #strs, function_name: #fs::traits::GetCallName::get_call_name(c) }, )* } }
		}
		impl #fs::unsigned::ValidateUnsigned for RuntimeCall {
			type Call = RuntimeCall;
			fn pre_dispatch(c: &RuntimeCall) -> Result<(), #fs::sp_runtime::transaction_validity::TransactionValidityError> { match c { #( RuntimeCall::#names(c) => <#pal as #fs::unsigned::ValidateUnsigned>::pre_dispatch(c), )* } }
			fn validate_unsigned(s: #fs::sp_runtime::transaction_validity::TransactionSource, c: &RuntimeCall) -> #fs::sp_runtime::transaction_validity::TransactionValidity { match c { #( RuntimeCall::#names(c) => <#pal as #fs::unsigned::ValidateUnsigned>::validate_unsigned(s, c), )* } }
		}
		impl #fs::unsigned::ValidateUnsigned for #rt {
			type Call = RuntimeCall;
			fn pre_dispatch(c: &RuntimeCall) -> Result<(), #fs::sp_runtime::transaction_validity::TransactionValidityError> { <RuntimeCall as #fs::unsigned::ValidateUnsigned>::pre_dispatch(c) }
			fn validate_unsigned(s: #fs::sp_runtime::transaction_validity::TransactionSource, c: &RuntimeCall) -> #fs::sp_runtime::transaction_validity::TransactionValidity { <RuntimeCall as #fs::unsigned::ValidateUnsigned>::validate_unsigned(s, c) }
		}

		#[derive(Clone, PartialEq, Eq, #fs::__private::codec::Encode, #fs::__private::codec::Decode, #fs::sp_runtime::RuntimeDebug, #fs::__private::codec::MaxEncodedLen)]
		#[codec(crate = #fs::__private::codec)]
		#[allow(non_camel_case_types)]
		pub enum OriginCaller { system(::frame_system::RawOrigin<__SystemAccountId>), Void(#fs::Never) }
		impl #fs::__private::scale_info::TypeInfo for OriginCaller { type Identity = Self; fn type_info() -> #fs::__private::scale_info::Type { #fs::trivial_type_info("OriginCaller") } }
		impl From<::frame_system::RawOrigin<__SystemAccountId>> for OriginCaller { fn from(x: ::frame_system::RawOrigin<__SystemAccountId>) -> Self { OriginCaller::system(x) } }
		impl TryFrom<OriginCaller> for ::frame_system::RawOrigin<__SystemAccountId> { type Error = OriginCaller; fn try_from(x: OriginCaller) -> Result<Self, OriginCaller> { match x { OriginCaller::system(r) => Ok(r), o => Err(o) } } }
		impl #fs::traits::CallerTrait<__SystemAccountId> for OriginCaller {
			fn into_system(self) -> Option<::frame_system::RawOrigin<__SystemAccountId>> { match self { OriginCaller::system(x) => Some(x), _ => None } }
			fn as_system_ref(&self) -> Option<&::frame_system::RawOrigin<__SystemAccountId>> { match self { OriginCaller::system(x) => Some(x), _ => None } }
		}
		#[derive(Clone)]
		pub struct RuntimeOrigin { pub caller: OriginCaller, filter: ::std::rc::Rc<Box<dyn Fn(&RuntimeCall) -> bool>> }
		impl ::core::fmt::Debug for RuntimeOrigin { fn fmt(&self, f: &mut ::core::fmt::Formatter) -> ::core::fmt::Result { write!(f, "Origin({:?})", self.caller) } }
		impl RuntimeOrigin {
			pub fn none() -> Self { ::frame_system::RawOrigin::None.into() }
			pub fn root() -> Self { ::frame_system::RawOrigin::Root.into() }
			pub fn signed(by: __SystemAccountId) -> Self { ::frame_system::RawOrigin::Signed(by).into() }
		}
		impl From<OriginCaller> for RuntimeOrigin { fn from(caller: OriginCaller) -> Self {
			let root = matches!(caller, OriginCaller::system(::frame_system::RawOrigin::Root));
			let f: Box<dyn Fn(&RuntimeCall) -> bool> = if root { Box::new(|_| true) } else { Box::new(<<#rt as ::frame_system::Config>::BaseCallFilter as #fs::traits::Contains<RuntimeCall>>::contains) };
			RuntimeOrigin { caller, filter: ::std::rc::Rc::new(f) }
		} }
		impl From<::frame_system::RawOrigin<__SystemAccountId>> for RuntimeOrigin { fn from(x: ::frame_system::RawOrigin<__SystemAccountId>) -> Self { OriginCaller::system(x).into() } }
		impl From<Option<__SystemAccountId>> for RuntimeOrigin { fn from(x: Option<__SystemAccountId>) -> Self { ::frame_system::RawOrigin::from(x).into() } }
		impl From<RuntimeOrigin> for Result<::frame_system::RawOrigin<__SystemAccountId>, RuntimeOrigin> { fn from(o: RuntimeOrigin) -> Self { match o.caller { OriginCaller::system(x) => Ok(x), _ => Err(o) } } }
		impl #fs::traits::OriginTrait for RuntimeOrigin {
			type Call = RuntimeCall; type PalletsOrigin = OriginCaller; type AccountId = __SystemAccountId;
			fn add_filter(&mut self, filter: impl Fn(&RuntimeCall) -> bool + 'static) { let f = self.filter.clone(); self.filter = ::std::rc::Rc::new(Box::new(move |c| f(c) && filter(c))); }
			fn reset_filter(&mut self) { self.filter = ::std::rc::Rc::new(Box::new(<<#rt as ::frame_system::Config>::BaseCallFilter as #fs::traits::Contains<RuntimeCall>>::contains)); }
			fn set_caller_from(&mut self, other: impl Into<Self>) { self.caller = other.into().caller; }
			fn set_caller(&mut self, c: OriginCaller) { self.caller = c; }
			fn filter_call(&self, c: &RuntimeCall) -> bool { match self.caller { OriginCaller::system(::frame_system::RawOrigin::Root) => true, _ => (self.filter)(c) } }
			fn caller(&self) -> &OriginCaller { &self.caller }
			fn into_caller(self) -> OriginCaller { self.caller }
			fn try_with_caller<R>(self, f: impl FnOnce(OriginCaller) -> Result<R, OriginCaller>) -> Result<R, Self> { let filter = self.filter.clone(); match f(self.caller) { Ok(r) => Ok(r), Err(caller) => Err(RuntimeOrigin { caller, filter }) } }
			fn none() -> Self { Self::none() } fn root() -> Self { Self::root() } fn signed(by: __SystemAccountId) -> Self { Self::signed(by) }
			fn as_system_ref(&self) -> Option<&::frame_system::RawOrigin<__SystemAccountId>> { #fs::traits::CallerTrait::as_system_ref(&self.caller) }
		}

		pub struct PalletInfo;
		impl #fs::traits::PalletInfo for PalletInfo {
			fn index<P: 'static>() -> Option<usize> { let t = ::core::any::TypeId::of::<P>(); #( if t == ::core::any::TypeId::of::<#pal>() { return Some(#idxu); } )* None }
			fn name<P: 'static>() -> Option<&'static str> { let t = ::core::any::TypeId::of::<P>(); #( if t == ::core::any::TypeId::of::<#pal>() { return Some(#strs); } )* None }
		}
		#fs::uninhabited_reason!(RuntimeHoldReason); #fs::uninhabited_reason!(RuntimeFreezeReason); #fs::uninhabited_reason!(RuntimeTask); #fs::uninhabited_reason!(RuntimeLockId); #fs::uninhabited_reason!(RuntimeSlashReason);
	}
}
