//! Procedural macros of the mini FRAME: just enough of the real ones to compile the pallets of /repo unmodified.
use proc_macro::TokenStream;
mod construct;
mod derive;
mod pallet;
mod rtapi;

macro_rules! derives {
	($($fnname:ident, $name:ident, [$($attr:ident),*], $f:path;)*) => {$(
		#[proc_macro_derive($name, attributes($($attr),*))]
		pub fn $fnname(i: TokenStream) -> TokenStream {
			let d = syn::parse_macro_input!(i as syn::DeriveInput);
			$f(d).into()
		}
	)*}
}
derives! {
	d_encode, Encode, [codec], derive::encode;
	d_decode, Decode, [codec], derive::decode;
	d_mel, MaxEncodedLen, [codec], derive::mel;
	d_compact_as, CompactAs, [codec], derive::compact_as;
	d_typeinfo, TypeInfo, [scale_info, codec], derive::type_info;
	d_rdebug, RuntimeDebug, [], derive::debug_bound;
	d_debug, DebugNoBound, [], derive::debug_nobound;
	d_rdebugnb, RuntimeDebugNoBound, [], derive::debug_nobound;
	d_clone, CloneNoBound, [], derive::clone_nobound;
	d_eq, EqNoBound, [], derive::eq_nobound;
	d_peq, PartialEqNoBound, [], derive::partial_eq_nobound;
	d_default, DefaultNoBound, [default], derive::default_nobound;
	d_palleterror, PalletError, [codec], derive::pallet_error;
	d_passbyinner, PassByInner, [], derive::nothing;
	d_passbycodec, PassByCodec, [], derive::nothing;
	d_passbyenum, PassByEnum, [], derive::nothing;
}

#[proc_macro_attribute]
pub fn pallet(_a: TokenStream, i: TokenStream) -> TokenStream {
	let m = syn::parse_macro_input!(i as syn::ItemMod);
	match pallet::expand(m) {
		Ok(t) => t.into(),
		Err(e) => e.to_compile_error().into(),
	}
}
#[proc_macro]
pub fn construct_runtime(i: TokenStream) -> TokenStream {
	match construct::expand(i.into()) {
		Ok(t) => t.into(),
		Err(e) => e.to_compile_error().into(),
	}
}
#[proc_macro_attribute]
pub fn storage_alias(_a: TokenStream, i: TokenStream) -> TokenStream {
	let m = syn::parse_macro_input!(i as syn::ItemType);
	pallet::storage_alias(m).into()
}
#[proc_macro_attribute]
pub fn bitflags(_a: TokenStream, i: TokenStream) -> TokenStream {
	let m = syn::parse_macro_input!(i as syn::ItemEnum);
	derive::bitflags(m).into()
}
/// Attribute that does nothing.
#[proc_macro_attribute]
pub fn passthrough(_a: TokenStream, i: TokenStream) -> TokenStream {
	i
}
#[proc_macro_attribute]
pub fn transactional(_a: TokenStream, i: TokenStream) -> TokenStream {
	let mut f = syn::parse_macro_input!(i as syn::ItemFn);
	let b = f.block;
	f.block = Box::new(syn::parse_quote!({ ::sdk::io::with_transaction_result(|| #b) }));
	quote::quote!(#f).into()
}
#[proc_macro_attribute]
pub fn serial(_a: TokenStream, i: TokenStream) -> TokenStream {
	let mut f = syn::parse_macro_input!(i as syn::ItemFn);
	let b = f.block;
	f.block = Box::new(syn::parse_quote!({ let _serial_guard = ::sdk::serial_lock(); #b }));
	quote::quote!(#f).into()
}
#[proc_macro]
pub fn decl_runtime_apis(i: TokenStream) -> TokenStream {
	rtapi::decl(i.into()).unwrap_or_else(|e| e.to_compile_error()).into()
}
#[proc_macro]
pub fn impl_runtime_apis(i: TokenStream) -> TokenStream {
	rtapi::imp(i.into()).unwrap_or_else(|e| e.to_compile_error()).into()
}
#[proc_macro]
pub fn mock_impl_runtime_apis(i: TokenStream) -> TokenStream {
	rtapi::mock(i.into()).unwrap_or_else(|e| e.to_compile_error()).into()
}
#[proc_macro]
pub fn parameter_types(i: TokenStream) -> TokenStream {
	construct::parameter_types(i.into()).unwrap_or_else(|e| e.to_compile_error()).into()
}
#[proc_macro_attribute]
pub fn rpc(_a: TokenStream, i: TokenStream) -> TokenStream {
	rtapi::rpc(i.into()).unwrap_or_else(|e| e.to_compile_error()).into()
}
#[proc_macro_attribute]
pub fn tokio_test(_a: TokenStream, i: TokenStream) -> TokenStream {
	rtapi::tokio_test(i.into()).unwrap_or_else(|e| e.to_compile_error()).into()
}
