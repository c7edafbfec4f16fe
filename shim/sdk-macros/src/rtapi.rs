//! `decl_runtime_apis!` and friends: a runtime API is a trait whose methods take the block to run at and may fail; and
//! the attribute `rpc` of jsonrpsee: the server half of an RPC trait.
use proc_macro2::TokenStream;
use quote::{format_ident, quote};
use syn::*;

/// Only documentation survives.
fn docs(a: &[Attribute]) -> Vec<Attribute> {
	a.iter().filter(|a| a.path().is_ident("doc") || a.path().is_ident("cfg")).cloned().collect()
}
fn call_error(s: &mut Signature, hash: TokenStream) {
	if s.receiver().is_none() {
		s.inputs.insert(0, parse_quote!(&self));
	}
	s.inputs.insert(1, parse_quote!(_at: #hash));
	let r = match &s.output {
		ReturnType::Default => quote!(()),
		ReturnType::Type(_, t) => quote!(#t),
	};
	s.output = parse_quote!(-> ::std::result::Result<#r, ::sdk::sp_api::ApiError>);
}
pub fn decl(i: TokenStream) -> Result<TokenStream> {
	let f: File = parse2(i)?;
	let mut out = quote!();
	for it in f.items {
		let Item::Trait(mut t) = it else { return Err(Error::new_spanned(it, "trait expected")) };
		t.attrs = docs(&t.attrs);
		t.generics.params.insert(0, parse_quote!(Block: ::sdk::sp_runtime::traits::Block));
		for x in &mut t.items {
			if let TraitItem::Fn(m) = x {
				m.attrs = docs(&m.attrs);
				call_error(&mut m.sig, quote!(<Block as ::sdk::sp_runtime::traits::Block>::Hash));
			}
		}
		out.extend(quote!(#t));
	}
	Ok(out)
}
/// Every implementation becomes one of the declared trait, for the type it names.
fn imp_for(i: TokenStream) -> Result<TokenStream> {
	let f: File = parse2(i)?;
	let mut out = quote!();
	for it in f.items {
		let Item::Impl(mut t) = it else { return Err(Error::new_spanned(it, "impl expected")) };
		let Some((_, path, _)) = &t.trait_ else { return Err(Error::new_spanned(&t, "trait impl expected")) };
		let PathArguments::AngleBracketed(a) = &path.segments.last().unwrap().arguments else { return Err(Error::new_spanned(path, "block expected")) };
		let block = a.args[0].clone();
		for x in &mut t.items {
			if let ImplItem::Fn(m) = x {
				m.attrs = docs(&m.attrs);
				call_error(&mut m.sig, quote!(<#block as ::sdk::sp_runtime::traits::Block>::Hash));
				let ReturnType::Type(_, r) = &m.sig.output else { unreachable!() };
				let r = r.clone();
				let b = &m.block;
				m.block = match &*r {
					Type::Path(p) => {
						let PathArguments::AngleBracketed(a) = &p.path.segments.last().unwrap().arguments else { unreachable!() };
						let inner = &a.args[0];
						parse_quote!({ let run = || -> #inner #b; ::std::result::Result::Ok(run()) })
					},
					_ => unreachable!(),
				};
			}
		}
		out.extend(quote!(#t));
	}
	Ok(out)
}
pub fn imp(i: TokenStream) -> Result<TokenStream> {
	imp_for(i)
}
pub fn mock(i: TokenStream) -> Result<TokenStream> {
	imp_for(i)
}
pub fn rpc(t: TokenStream) -> Result<TokenStream> {
	let mut t: ItemTrait = parse2(t)?;
	t.attrs = docs(&t.attrs);
	t.ident = format_ident!("{}Server", t.ident);
	for x in &mut t.items {
		if let TraitItem::Fn(m) = x {
			m.attrs = docs(&m.attrs);
		}
	}
	Ok(quote!(#t))
}
pub fn tokio_test(f: TokenStream) -> Result<TokenStream> {
	let mut f: ItemFn = parse2(f)?;
	f.sig.asyncness = None;
	let b = f.block;
	f.block = Box::new(parse_quote!({ ::sdk::tokio::block_on(async #b) }));
	Ok(quote!(#[test] #f))
}
