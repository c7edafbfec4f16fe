//! `construct_runtime!`
use proc_macro2::{Ident, TokenStream};
use quote::{format_ident, quote};
use syn::parse::{Parse, ParseStream};
use syn::punctuated::Punctuated;
use syn::*;

struct PalletDecl {
	cfgs: Vec<Attribute>,
	name: Ident,
	path: Path,
	instance: Option<Ident>,
	parts: Vec<(Ident, bool)>,
	index: Option<u8>,
}
struct Decl {
	name: Ident,
	pallets: Vec<PalletDecl>,
}
impl Parse for PalletDecl {
	fn parse(i: ParseStream) -> Result<Self> {
		let cfgs = i.call(Attribute::parse_outer)?;
		let name: Ident = i.parse()?;
		i.parse::<Token![:]>()?;
		// path segments until `::<` or `::{`
		let mut segs: Punctuated<PathSegment, Token![::]> = Punctuated::new();
		let leading = i.peek(Token![::]);
		if leading {
			i.parse::<Token![::]>()?;
		}
		let first: Ident = i.call(<Ident as ext::IdentExt>::parse_any)?;
		segs.push(first.into());
		let mut instance = None;
		let mut parts: Vec<(Ident, bool)> = vec![];
		let mut explicit = false;
		loop {
			if i.peek(Token![<]) {
				i.parse::<Token![<]>()?;
				instance = Some(i.parse()?);
				i.parse::<Token![>]>()?;
				continue
			}
			if !i.peek(Token![::]) {
				break
			}
			i.parse::<Token![::]>()?;
			if i.peek(Token![<]) {
				i.parse::<Token![<]>()?;
				instance = Some(i.parse()?);
				i.parse::<Token![>]>()?;
			} else if i.peek(token::Brace) {
				explicit = true;
				let c;
				braced!(c in i);
				while !c.is_empty() {
					let p: Ident = c.call(<Ident as ext::IdentExt>::parse_any)?;
					let gen = c.peek(Token![<]);
					if gen {
						c.parse::<Token![<]>()?;
						while !c.peek(Token![>]) {
							c.parse::<proc_macro2::TokenTree>()?;
						}
						c.parse::<Token![>]>()?;
					}
					parts.push((p, gen));
					if c.peek(Token![,]) {
						c.parse::<Token![,]>()?;
					}
				}
				break
			} else {
				let s: Ident = i.parse()?;
				segs.push(s.into());
			}
		}
		if !explicit {
			for p in ["Pallet", "Call", "Storage"] {
				parts.push((format_ident!("{}", p), false));
			}
			parts.push((format_ident!("Event"), true));
		}
		let index = if i.peek(Token![=]) {
			i.parse::<Token![=]>()?;
			Some(i.parse::<LitInt>()?.base10_parse()?)
		} else {
			None
		};
		Ok(PalletDecl { cfgs, name, path: Path { leading_colon: None, segments: segs }, instance, parts, index })
	}
}
impl Parse for Decl {
	fn parse(i: ParseStream) -> Result<Self> {
		i.call(Attribute::parse_outer)?;
		i.parse::<Visibility>()?;
		if i.peek(Token![enum]) {
			i.parse::<Token![enum]>()?;
		} else {
			i.parse::<Token![struct]>()?;
		}
		let name: Ident = i.parse()?;
		if i.peek(Token![where]) {
			while !i.peek(token::Brace) {
				i.parse::<proc_macro2::TokenTree>()?;
			}
		}
		let c;
		braced!(c in i);
		let pallets = Punctuated::<PalletDecl, Token![,]>::parse_terminated(&c)?.into_iter().collect();
		Ok(Decl { name, pallets })
	}
}

pub fn expand(i: TokenStream) -> Result<TokenStream> {
	let d: Decl = parse2(i)?;
	let rt = &d.name;
	let mut next = 0u8;
	let mut info = vec![];
	for p in &d.pallets {
		let idx = p.index.unwrap_or(next);
		next = idx.wrapping_add(1);
		info.push((p, idx));
	}
	let has = |p: &PalletDecl, part: &str| p.parts.iter().any(|x| x.0 == part);
	let gen = |p: &PalletDecl, part: &str| p.parts.iter().any(|x| x.0 == part && x.1);
	let inst = |p: &PalletDecl| match &p.instance {
		Some(x) => {
			let path = &p.path;
			quote!(, #path::#x)
		},
		None => quote!(),
	};
	let mut aliases = vec![];
	let mut pinfo = vec![];
	let (mut ev, mut ev_from, mut call, mut call_from, mut orig, mut orig_from, mut freeze, mut freeze_from, mut hold, mut hold_from) =
		(vec![], vec![], vec![], vec![], vec![], vec![], vec![], vec![], vec![], vec![]);
	let (mut call_info, mut call_disp, mut call_name, mut call_cname, mut call_names, mut modnames) = (vec![], vec![], vec![], vec![], vec![], vec![]);
	let mut call_idx = vec![];
	let mut vu = vec![];
	let mut all = vec![];
	let mut all_wo = vec![];
	let mut gen_cfg = vec![];
	let mut gen_init = vec![];
	for (p, idx) in &info {
		let (name, path, cfgs) = (&p.name, &p.path, &p.cfgs);
		let ins = inst(p);
		let sname = name.to_string();
		let is_sys = path.segments.last().unwrap().ident == "frame_system";
		aliases.push(quote!(#(#cfgs)* #[allow(dead_code)] pub type #name = #path::Pallet<#rt #ins>;));
		pinfo.push(quote! { #(#cfgs)* if t == ::core::any::TypeId::of::<#name>() { return Some((#idx as usize, #sname)) } });
		if cfgs.is_empty() {
			all.push(quote!(#name));
			if !is_sys {
				all_wo.push(quote!(#name));
			}
		}
		if has(p, "Event") {
			let t = if gen(p, "Event") { quote!(#path::Event<#rt #ins>) } else { quote!(#path::Event) };
			ev.push(quote!(#(#cfgs)* #[codec(index = #idx)] #name(#t)));
			ev_from.push(quote! {
				#(#cfgs)* impl From<#t> for RuntimeEvent { fn from(x: #t) -> Self { RuntimeEvent::#name(x) } }
				#(#cfgs)* impl TryInto<#t> for RuntimeEvent { type Error = (); fn try_into(self) -> Result<#t, ()> { match self { RuntimeEvent::#name(x) => Ok(x), #[allow(unreachable_patterns)] _ => Err(()) } } }
			});
		}
		if has(p, "Call") {
			let t = quote!(::sdk::frame_support::dispatch::CallableCallFor<#name, #rt>);
			call.push(quote!(#(#cfgs)* #[codec(index = #idx)] #name(#t)));
			call_from.push(quote! {
				#(#cfgs)* impl From<#t> for RuntimeCall { fn from(x: #t) -> Self { RuntimeCall::#name(x) } }
				#(#cfgs)* impl ::sdk::frame_support::traits::IsSubType<#t> for RuntimeCall { fn is_sub_type(&self) -> Option<&#t> { match self { RuntimeCall::#name(x) => Some(x), #[allow(unreachable_patterns)] _ => None } } }
			});
			call_info.push(quote!(#(#cfgs)* RuntimeCall::#name(x) => x.get_dispatch_info(),));
			call_disp.push(quote!(#(#cfgs)* RuntimeCall::#name(x) => ::sdk::frame_support::traits::UnfilteredDispatchable::dispatch_bypass_filter(x, origin),));
			call_name.push(quote!(#(#cfgs)* RuntimeCall::#name(x) => ::sdk::frame_support::traits::CallMetadata { function_name: x.get_call_name(), pallet_name: #sname },));
			call_cname.push(quote!(#(#cfgs)* #sname => <#t as ::sdk::frame_support::dispatch::GetCallName>::get_call_names(),));
			call_idx.push(quote!(#(#cfgs)* RuntimeCall::#name(x) => (#idx, x.get_call_index()),));
			call_names.push(quote!());
			modnames.push(quote!(#sname));
		}
		if has(p, "Origin") || is_sys {
			let t = if is_sys {
				quote!(::sdk::frame_system::RawOrigin<<#rt as ::sdk::frame_system::Config>::AccountId>)
			} else if p.instance.is_some() {
				quote!(#path::Origin<#rt #ins>)
			} else if gen(p, "Origin") {
				quote!(#path::Origin<#rt>)
			} else {
				quote!(#path::Origin)
			};
			let v = if is_sys { format_ident!("system") } else { name.clone() };
			orig.push(quote!(#(#cfgs)* #[codec(index = #idx)] #v(#t)));
			orig_from.push(quote! {
				#(#cfgs)* impl From<#t> for OriginCaller { fn from(x: #t) -> Self { OriginCaller::#v(x) } }
				#(#cfgs)* impl From<#t> for RuntimeOrigin { fn from(x: #t) -> Self { OriginCaller::#v(x).into() } }
				#(#cfgs)* impl TryFrom<OriginCaller> for #t { type Error = OriginCaller; fn try_from(x: OriginCaller) -> Result<Self, OriginCaller> { match x { OriginCaller::#v(y) => Ok(y), #[allow(unreachable_patterns)] o => Err(o) } } }
				#(#cfgs)* impl From<RuntimeOrigin> for Result<#t, RuntimeOrigin> { fn from(v: RuntimeOrigin) -> Self { match v.caller { OriginCaller::#v(y) => Ok(y), #[allow(unreachable_patterns)] c => Err(RuntimeOrigin { caller: c, filter: v.filter }) } } }
			});
		}
		if has(p, "FreezeReason") {
			freeze.push(quote!(#[codec(index = #idx)] #name(#path::FreezeReason)));
			freeze_from.push(quote!(impl From<#path::FreezeReason> for RuntimeFreezeReason { fn from(x: #path::FreezeReason) -> Self { RuntimeFreezeReason::#name(x) } }));
		}
		if has(p, "HoldReason") {
			hold.push(quote!(#[codec(index = #idx)] #name(#path::HoldReason)));
			hold_from.push(quote!(impl From<#path::HoldReason> for RuntimeHoldReason { fn from(x: #path::HoldReason) -> Self { RuntimeHoldReason::#name(x) } }));
		}
		if has(p, "ValidateUnsigned") {
			vu.push(quote! {
				#(#cfgs)* RuntimeCall::#name(x) => return <#name as ::sdk::sp_runtime::traits::ValidateUnsigned>::validate_unsigned(source, x),
			});
		}
		if has(p, "Config") && cfgs.is_empty() {
			let cname = format_ident!("{}Config", name);
			let ct = if p.instance.is_some() { quote!(#path::GenesisConfig<#rt #ins>) } else if gen(p, "Config") { quote!(#path::GenesisConfig<#rt>) } else { quote!(#path::GenesisConfig) };
			let field = format_ident!("{}", snake(&sname));
			gen_cfg.push(quote!(pub #field: #ct));
			gen_init.push(quote!(::sdk::sp_runtime::BuildStorage::assimilate_storage(&self.#field, s)?;));
			aliases.push(quote!(#[allow(dead_code)] pub type #cname = #ct;));
		}
	}
	let vu_pre: Vec<_> = info
		.iter()
		.filter(|(p, _)| has(p, "ValidateUnsigned"))
		.map(|(p, _)| {
			let (name, cfgs) = (&p.name, &p.cfgs);
			quote!(#(#cfgs)* RuntimeCall::#name(x) => return <#name as ::sdk::sp_runtime::traits::ValidateUnsigned>::pre_dispatch(x),)
		})
		.collect();
	let system = &info.iter().find(|(p, _)| p.path.segments.last().unwrap().ident == "frame_system").expect("System pallet").0.name;
	let _ = system;
	Ok(quote! {
		#[derive(Clone, Copy, PartialEq, Eq, Debug, ::sdk::scale_info::TypeInfo)]
		pub struct #rt;
		#(#aliases)*
		pub struct PalletInfo;
		impl ::sdk::frame_support::traits::PalletInfo for PalletInfo {
			fn lookup(t: ::core::any::TypeId) -> Option<(usize, &'static str)> { #(#pinfo)* None }
		}
		#[derive(Clone, PartialEq, Eq, Debug, ::sdk::codec::Encode, ::sdk::codec::Decode, ::sdk::scale_info::TypeInfo)]
		#[allow(clippy::large_enum_variant)]
		pub enum RuntimeEvent { #(#ev,)* }
		#(#ev_from)*
		#[derive(Clone, PartialEq, Eq, Debug, ::sdk::codec::Encode, ::sdk::codec::Decode, ::sdk::scale_info::TypeInfo)]
		#[allow(clippy::large_enum_variant)]
		pub enum RuntimeCall { #(#call,)* }
		#(#call_from)*
		impl ::sdk::frame_support::dispatch::GetDispatchInfo for RuntimeCall {
			fn get_dispatch_info(&self) -> ::sdk::frame_support::dispatch::DispatchInfo { #[allow(unused_imports)] use ::sdk::frame_support::dispatch::GetDispatchInfo as _; match self { #(#call_info)* } }
		}
		impl ::sdk::frame_support::traits::GetCallMetadata for RuntimeCall {
			fn get_call_metadata(&self) -> ::sdk::frame_support::traits::CallMetadata { #[allow(unused_imports)] use ::sdk::frame_support::dispatch::GetCallName as _; match self { #(#call_name)* } }
			fn get_module_names() -> &'static [&'static str] { &[#(#modnames),*] }
			fn get_call_names(module: &str) -> &'static [&'static str] { match module { #(#call_cname)* _ => &[] } }
			fn get_call_indices(&self) -> (u8, u8) { #[allow(unused_imports)] use ::sdk::frame_support::dispatch::GetCallIndex as _; match self { #(#call_idx)* } }
		}
		impl ::sdk::frame_support::traits::UnfilteredDispatchable for RuntimeCall {
			type RuntimeOrigin = RuntimeOrigin;
			fn dispatch_bypass_filter(self, origin: RuntimeOrigin) -> ::sdk::frame_support::dispatch::DispatchResultWithPostInfo { match self { #(#call_disp)* } }
		}
		impl ::sdk::sp_runtime::traits::Dispatchable for RuntimeCall {
			type RuntimeOrigin = RuntimeOrigin;
			type Config = RuntimeCall;
			type Info = ::sdk::frame_support::dispatch::DispatchInfo;
			type PostInfo = ::sdk::frame_support::dispatch::PostDispatchInfo;
			fn dispatch(self, origin: RuntimeOrigin) -> ::sdk::frame_support::dispatch::DispatchResultWithPostInfo {
				if !<RuntimeOrigin as ::sdk::frame_support::traits::OriginTrait>::filter_call(&origin, &self) {
					return Err(::sdk::frame_system::Error::<#rt>::CallFiltered.into())
				}
				::sdk::frame_support::traits::UnfilteredDispatchable::dispatch_bypass_filter(self, origin)
			}
		}
		#[derive(Clone, PartialEq, Eq, Debug, ::sdk::codec::Encode, ::sdk::codec::Decode, ::sdk::codec::MaxEncodedLen, ::sdk::scale_info::TypeInfo)]
		#[allow(non_camel_case_types)]
		pub enum OriginCaller { #(#orig,)* #[allow(dead_code)] Void(::sdk::frame_support::Void) }
		#[derive(Clone)]
		pub struct RuntimeOrigin { pub caller: OriginCaller, pub filter: ::std::rc::Rc<Box<dyn Fn(&RuntimeCall) -> bool + 'static>> }
		impl ::core::fmt::Debug for RuntimeOrigin { fn fmt(&self, f: &mut ::core::fmt::Formatter) -> ::core::fmt::Result { f.debug_struct("Origin").field("caller", &self.caller).finish() } }
		impl From<OriginCaller> for RuntimeOrigin {
			fn from(caller: OriginCaller) -> Self {
				let mut o = RuntimeOrigin { caller, filter: ::std::rc::Rc::new(Box::new(|_| true)) };
				<RuntimeOrigin as ::sdk::frame_support::traits::OriginTrait>::reset_filter(&mut o);
				o
			}
		}
		impl From<Option<<#rt as ::sdk::frame_system::Config>::AccountId>> for RuntimeOrigin {
			fn from(x: Option<<#rt as ::sdk::frame_system::Config>::AccountId>) -> Self { ::sdk::frame_system::RawOrigin::from(x).into() }
		}
		impl From<::sdk::frame_support::Void> for OriginCaller { fn from(_: ::sdk::frame_support::Void) -> Self { unreachable!() } }
		#(#orig_from)*
		impl ::sdk::frame_support::traits::CallerTrait<<#rt as ::sdk::frame_system::Config>::AccountId> for OriginCaller {
			fn into_system(self) -> Option<::sdk::frame_system::RawOrigin<<#rt as ::sdk::frame_system::Config>::AccountId>> { match self { OriginCaller::system(x) => Some(x), _ => None } }
			fn as_system_ref(&self) -> Option<&::sdk::frame_system::RawOrigin<<#rt as ::sdk::frame_system::Config>::AccountId>> { match self { OriginCaller::system(x) => Some(x), _ => None } }
		}
		impl ::sdk::frame_support::traits::OriginTrait for RuntimeOrigin {
			type Call = RuntimeCall;
			type PalletsOrigin = OriginCaller;
			type AccountId = <#rt as ::sdk::frame_system::Config>::AccountId;
			fn add_filter(&mut self, filter: impl Fn(&RuntimeCall) -> bool + 'static) { let f = self.filter.clone(); self.filter = ::std::rc::Rc::new(Box::new(move |c| f(c) && filter(c))); }
			fn reset_filter(&mut self) {
				let filter = |c: &RuntimeCall| <<#rt as ::sdk::frame_system::Config>::BaseCallFilter as ::sdk::frame_support::traits::Contains<RuntimeCall>>::contains(c);
				self.filter = ::std::rc::Rc::new(Box::new(filter));
				if let OriginCaller::system(::sdk::frame_system::RawOrigin::Root) = &self.caller { self.filter = ::std::rc::Rc::new(Box::new(|_| true)); }
			}
			fn set_caller_from(&mut self, other: impl Into<Self>) { self.caller = other.into().caller; }
			fn filter_call(&self, call: &RuntimeCall) -> bool { match self.caller { OriginCaller::system(::sdk::frame_system::RawOrigin::Root) => true, _ => (self.filter)(call) } }
			fn caller(&self) -> &OriginCaller { &self.caller }
			fn into_caller(self) -> OriginCaller { self.caller }
			fn try_with_caller<R>(mut self, f: impl FnOnce(OriginCaller) -> Result<R, OriginCaller>) -> Result<R, Self> { match f(self.caller) { Ok(r) => Ok(r), Err(c) => { self.caller = c; Err(self) } } }
			fn none() -> Self { ::sdk::frame_system::RawOrigin::None.into() }
			fn root() -> Self { ::sdk::frame_system::RawOrigin::Root.into() }
			fn signed(by: Self::AccountId) -> Self { ::sdk::frame_system::RawOrigin::Signed(by).into() }
		}
		impl RuntimeOrigin {
			#[allow(dead_code)] pub fn none() -> Self { <Self as ::sdk::frame_support::traits::OriginTrait>::none() }
			#[allow(dead_code)] pub fn root() -> Self { <Self as ::sdk::frame_support::traits::OriginTrait>::root() }
			#[allow(dead_code)] pub fn signed(by: <#rt as ::sdk::frame_system::Config>::AccountId) -> Self { <Self as ::sdk::frame_support::traits::OriginTrait>::signed(by) }
		}
		#[derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Debug, ::sdk::codec::Encode, ::sdk::codec::Decode, ::sdk::codec::MaxEncodedLen, ::sdk::scale_info::TypeInfo)]
		pub enum RuntimeFreezeReason { #(#freeze,)* }
		#(#freeze_from)*
		#[derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Debug, ::sdk::codec::Encode, ::sdk::codec::Decode, ::sdk::codec::MaxEncodedLen, ::sdk::scale_info::TypeInfo)]
		pub enum RuntimeHoldReason { #(#hold,)* }
		#(#hold_from)*
		#[derive(Clone, PartialEq, Eq, Debug, ::sdk::codec::Encode, ::sdk::codec::Decode, ::sdk::scale_info::TypeInfo)]
		pub enum RuntimeTask {}
		#[allow(dead_code)]
		pub type AllPalletsWithSystem = (#(#all,)*);
		#[allow(dead_code)]
		pub type AllPalletsWithoutSystem = (#(#all_wo,)*);
		#[allow(dead_code)]
		#[derive(Default)]
		pub struct RuntimeGenesisConfig { #(#gen_cfg,)* }
		impl ::sdk::sp_runtime::BuildStorage for RuntimeGenesisConfig {
			fn assimilate_storage(&self, s: &mut ::sdk::sp_core::storage::Storage) -> Result<(), String> { #(#gen_init)* Ok(()) }
		}
		impl ::sdk::sp_runtime::traits::ValidateUnsigned for #rt {
			type Call = RuntimeCall;
			fn pre_dispatch(call: &RuntimeCall) -> Result<(), ::sdk::sp_runtime::transaction_validity::TransactionValidityError> {
				#[allow(unreachable_patterns)]
				match call { #(#vu_pre)* _ => {} }
				Err(::sdk::sp_runtime::transaction_validity::UnknownTransaction::NoUnsignedValidator.into())
			}
			fn validate_unsigned(source: ::sdk::sp_runtime::transaction_validity::TransactionSource, call: &RuntimeCall) -> ::sdk::sp_runtime::transaction_validity::TransactionValidity {
				#[allow(unused_variables)] let source = source;
				#[allow(unreachable_patterns)]
				match call { #(#vu)* _ => {} }
				Err(::sdk::sp_runtime::transaction_validity::UnknownTransaction::NoUnsignedValidator.into())
			}
		}
	})
}
fn snake(s: &str) -> String {
	let mut o = String::new();
	for (i, c) in s.chars().enumerate() {
		if c.is_uppercase() {
			if i > 0 {
				o.push('_');
			}
			o.extend(c.to_lowercase());
		} else {
			o.push(c)
		}
	}
	o
}
fn screaming(s: &str) -> String {
	snake(s).to_uppercase()
}
struct Param {
	attrs: Vec<Attribute>,
	vis: Visibility,
	kind: u8,
	name: Ident,
	generics: Generics,
	ty: Type,
	val: Expr,
}
impl Parse for Param {
	fn parse(i: ParseStream) -> Result<Self> {
		let attrs = i.call(Attribute::parse_outer)?;
		let vis: Visibility = i.parse()?;
		let kind = if i.peek(Token![const]) {
			i.parse::<Token![const]>()?;
			0
		} else if i.peek(Token![static]) {
			i.parse::<Token![static]>()?;
			1
		} else {
			2
		};
		let name = i.parse()?;
		let generics = i.parse()?;
		i.parse::<Token![:]>()?;
		let ty = i.parse()?;
		i.parse::<Token![=]>()?;
		let val = i.parse()?;
		i.parse::<Token![;]>()?;
		Ok(Param { attrs, vis, kind, name, generics, ty, val })
	}
}
pub fn parameter_types(i: TokenStream) -> Result<TokenStream> {
	struct L(Vec<Param>);
	impl Parse for L {
		fn parse(i: ParseStream) -> Result<Self> {
			let mut v = vec![];
			while !i.is_empty() {
				v.push(i.parse()?)
			}
			Ok(L(v))
		}
	}
	let L(ps) = parse2(i)?;
	let mut out = vec![];
	for Param { attrs, vis, kind, name, generics, ty, val } in ps {
		let (ig, tg, _) = generics.split_for_impl();
		let mut g2 = generics.clone();
		g2.params.push(parse_quote!(_I: From<#ty>));
		let (ig2, _, _) = g2.split_for_impl();
		let params: Vec<Ident> = generics.type_params().map(|p| p.ident.clone()).collect();
		let body = if params.is_empty() { quote!(;) } else { quote!((::core::marker::PhantomData<(#(#params,)*)>);) };
		let common = quote! {
			impl #ig2 ::sdk::frame_support::traits::Get<_I> for #name #tg { fn get() -> _I { _I::from(Self::get()) } }
			impl #ig ::sdk::frame_support::traits::TypedGet for #name #tg { type Type = #ty; fn get() -> #ty { Self::get() } }
		};
		let doc = &attrs;
		out.push(match kind {
			0 => quote! { #(#doc)* #vis struct #name #generics #body impl #ig #name #tg { #[allow(unused)] pub const fn get() -> #ty { #val } } #common },
			1 => {
				let tl = format_ident!("{}", screaming(&name.to_string()));
				quote! {
					::std::thread_local! { #vis static #tl: ::std::cell::RefCell<#ty> = ::std::cell::RefCell::new(#val); }
					#(#doc)* #vis struct #name #body
					#[allow(unused)]
					impl #name {
						pub fn get() -> #ty { #tl.with(|v| v.borrow().clone()) }
						pub fn set(t: #ty) { #tl.with(|v| *v.borrow_mut() = t) }
						pub fn mutate<R, F: FnOnce(&mut #ty) -> R>(f: F) -> R { let mut c = Self::get(); let r = f(&mut c); Self::set(c); r }
					}
					#common
				}
			},
			_ => quote! { #(#doc)* #vis struct #name #generics #body impl #ig #name #tg { #[allow(unused)] pub fn get() -> #ty { #val } } #common },
		});
	}
	Ok(quote!(#(#out)*))
}
