//! `#[frame_support::pallet]`
use proc_macro2::{Ident, Span, TokenStream};
use quote::{format_ident, quote, ToTokens};
use syn::punctuated::Punctuated;
use syn::*;

fn pattr(attrs: &[Attribute], name: &str) -> Option<Attribute> {
	attrs
		.iter()
		.find(|a| a.path().segments.len() == 2 && a.path().segments[0].ident == "pallet" && a.path().segments[1].ident == name)
		.cloned()
}
fn has(attrs: &[Attribute], name: &str) -> bool {
	pattr(attrs, name).is_some()
}
fn strip(attrs: &mut Vec<Attribute>) {
	attrs.retain(|a| !(a.path().segments.len() == 2 && a.path().segments[0].ident == "pallet"));
}
fn docs_only(attrs: &[Attribute]) -> Vec<Attribute> {
	attrs.iter().filter(|a| a.path().is_ident("doc") || a.path().is_ident("cfg")).cloned().collect()
}

pub struct StorageParts {
	pub query: TokenStream,
	pub keys: Vec<Type>,
}
/// Rewrites the generics of a storage alias; returns the key types and query result.
pub fn storage_type(ty: &mut Type, prefix: &TokenStream) -> Result<(String, StorageParts)> {
	let Type::Path(tp) = ty else { return Err(Error::new(Span::call_site(), "storage type")) };
	let seg = tp.path.segments.last_mut().unwrap();
	let kind = seg.ident.to_string();
	let PathArguments::AngleBracketed(ab) = &mut seg.arguments else {
		return Err(Error::new(Span::call_site(), "storage generics"))
	};
	// named form: StorageMap<Hasher = X, Key = Y, Value = Z, QueryKind = Q, OnEmpty = E>
	let named = ab.args.iter().any(|a| matches!(a, GenericArgument::AssocType(_)));
	if named {
		let get = |n: &str| {
			ab.args.iter().find_map(|a| match a {
				GenericArgument::AssocType(t) if t.ident == n => Some(t.ty.clone()),
				_ => None,
			})
		};
		let mut order: Vec<Type> = vec![];
		let names: &[&str] = match kind.as_str() {
			"StorageValue" => &["Value"],
			"StorageMap" | "CountedStorageMap" => &["Hasher", "Key", "Value"],
			"StorageDoubleMap" => &["Hasher1", "Key1", "Hasher2", "Key2", "Value"],
			_ => &["Key", "Value"],
		};
		for n in names {
			order.push(get(n).ok_or_else(|| Error::new(Span::call_site(), "missing storage generic"))?);
		}
		if let Some(q) = get("QueryKind") {
			order.push(q);
			if let Some(e) = get("OnEmpty") {
				order.push(e)
			}
		}
		let mut args: Punctuated<GenericArgument, Token![,]> = Punctuated::new();
		args.push(parse_quote!(#prefix));
		for t in order {
			args.push(GenericArgument::Type(t));
		}
		ab.args = args;
	} else {
		let first = ab.args.first_mut().unwrap();
		*first = parse_quote!(#prefix);
	}
	let tys: Vec<Type> = ab
		.args
		.iter()
		.filter_map(|a| match a {
			GenericArgument::Type(t) => Some(t.clone()),
			_ => None,
		})
		.collect();
	let (keys, vi): (Vec<Type>, usize) = match kind.as_str() {
		"StorageValue" => (vec![], 1),
		"StorageMap" | "CountedStorageMap" => (vec![tys[2].clone()], 3),
		"StorageDoubleMap" => (vec![tys[2].clone(), tys[4].clone()], 5),
		"StorageNMap" | "CountedStorageNMap" => (vec![tys[1].clone()], 2),
		k => return Err(Error::new(Span::call_site(), format!("unsupported storage kind {k}"))),
	};
	let value = tys[vi].clone();
	let query = match tys.get(vi + 1) {
		None => quote!(Option<#value>),
		Some(q) => {
			let s = q.to_token_stream().to_string();
			if s.ends_with("ValueQuery") {
				quote!(#value)
			} else if s.ends_with("OptionQuery") {
				quote!(Option<#value>)
			} else {
				quote!(<#q as ::sdk::frame_support::storage::types::QueryKindTrait<#value, ::sdk::frame_support::traits::GetDefault>>::Query)
			}
		},
	};
	Ok((kind, StorageParts { query, keys }))
}

pub fn storage_alias(mut t: ItemType) -> TokenStream {
	// #[storage_alias] type Foo<T: Config> = StorageMap<Pallet<T>, ...>;
	let name = t.ident.clone();
	let sname = name.to_string();
	let prefix = format_ident!("{}AliasPrefix", name);
	let g = t.generics.clone();
	let (ig, tg, wc) = g.split_for_impl();
	let params: Vec<Ident> = g.type_params().map(|p| p.ident.clone()).collect();
	let vis = t.vis.clone();
	let Type::Path(tp) = &*t.ty else { return quote!(compile_error!("storage_alias")) };
	let PathArguments::AngleBracketed(ab) = &tp.path.segments.last().unwrap().arguments else { return quote!(compile_error!("storage_alias")) };
	let first = ab.args.first().unwrap().clone();
	let pp = match &first {
		GenericArgument::Type(Type::Path(p)) if p.path.segments.last().unwrap().arguments.is_none() && p.path.get_ident().map_or(false, |i| !params.contains(i)) => {
			let s = p.path.get_ident().unwrap().to_string();
			quote!(#s)
		},
		GenericArgument::Type(ty) => quote!(<#ty as ::sdk::frame_support::traits::PalletInfoAccess>::name()),
		_ => return quote!(compile_error!("storage_alias")),
	};
	if let Err(e) = storage_type(&mut t.ty, &quote!(#prefix #tg)) {
		return e.to_compile_error()
	}
	// bounds are not allowed on aliases; keep them as written (a lint at most)
	quote! {
		#[allow(dead_code, missing_docs)]
		#vis struct #prefix #ig (::core::marker::PhantomData<(#(#params,)*)>) #wc;
		impl #ig ::sdk::frame_support::traits::StorageInstance for #prefix #tg #wc {
			fn pallet_prefix() -> &'static str { #pp }
			const STORAGE_PREFIX: &'static str = #sname;
		}
		#[allow(type_alias_bounds)]
		#t
	}
}

struct CallArg {
	name: Ident,
	ty: Type,
	compact: bool,
}
struct CallFn {
	name: Ident,
	index: u8,
	weight: Expr,
	args: Vec<CallArg>,
	docs: Vec<Attribute>,
	cfgs: Vec<Attribute>,
	ret_post: bool,
}

pub fn expand(mut m: ItemMod) -> Result<TokenStream> {
	let Some((_, items)) = m.content.take() else {
		return Err(Error::new_spanned(&m.ident, "pallet module must be inline"))
	};
	let mut out: Vec<TokenStream> = vec![];
	let mut instance = false;
	// is the pallet instantiable?
	for it in &items {
		if let Item::Trait(t) = it {
			if has(&t.attrs, "config") && t.generics.type_params().count() > 0 {
				instance = true
			}
		}
	}
	let (ig, ug, cfg): (TokenStream, TokenStream, TokenStream) = if instance {
		(quote!(T: Config<I>, I: 'static), quote!(T, I), quote!(Config<I>))
	} else {
		(quote!(T: Config), quote!(T), quote!(Config))
	};
	let dug = if instance { quote!(T, I = ()) } else { quote!(T) };
	let _ = dug;
	let mut have = std::collections::BTreeSet::new();
	let mut storage_version = quote!(::sdk::frame_support::traits::NoStorageVersionSet);
	let mut has_sv = false;
	let mut calls: Vec<CallFn> = vec![];
	let mut errors: Vec<(Ident, u8, Fields, Vec<Attribute>)> = vec![];
	let mut storages: Vec<Ident> = vec![];
	for it in items {
		match it {
			Item::Trait(mut t) if has(&t.attrs, "config") => {
				strip(&mut t.attrs);
				for ti in t.items.iter_mut() {
					match ti {
						TraitItem::Type(x) => strip(&mut x.attrs),
						TraitItem::Const(x) => strip(&mut x.attrs),
						TraitItem::Fn(x) => strip(&mut x.attrs),
						_ => {},
					}
				}
				out.push(quote!(#t));
			},
			Item::Struct(mut s) if has(&s.attrs, "pallet") => {
				if let Some(a) = pattr(&s.attrs, "storage_version") {
					let e: Expr = a.parse_args()?;
					storage_version = quote!(#e);
					has_sv = true;
				}
				strip(&mut s.attrs);
				let vis = &s.vis;
				let at = &s.attrs;
				let gens = if instance { quote!(<T, I = ()>) } else { quote!(<T>) };
				let ph = if instance { quote!((T, I)) } else { quote!((T,)) };
				out.push(quote! {
					#(#at)*
					#[derive(::sdk::CloneNoBound, ::sdk::EqNoBound, ::sdk::PartialEqNoBound, ::sdk::RuntimeDebugNoBound)]
					#vis struct Pallet #gens (::core::marker::PhantomData<#ph>);
				});
			},
			Item::Type(mut t) if has(&t.attrs, "storage") => {
				let name = t.ident.clone();
				storages.push(name.clone());
				let getter = match pattr(&t.attrs, "getter") {
					Some(a) => Some(a.parse_args_with(|p: parse::ParseStream| {
						p.parse::<Token![fn]>()?;
						p.parse::<Ident>()
					})?),
					None => None,
				};
				let pname = match pattr(&t.attrs, "storage_prefix") {
					Some(a) => match &a.meta {
						Meta::NameValue(nv) => nv.value.to_token_stream(),
						_ => name.to_string().to_token_stream(),
					},
					None => name.to_string().to_token_stream(),
				};
				let cfgs: Vec<_> = t.attrs.iter().filter(|a| a.path().is_ident("cfg")).cloned().collect();
				strip(&mut t.attrs);
				let prefix = format_ident!("_GeneratedPrefixForStorage{}", name);
				let (kind, parts) = storage_type(&mut t.ty, &quote!(#prefix<#ug>))?;
				let vis = &t.vis;
				let pgens = if instance { quote!(<T, I = ()>) } else { quote!(<T>) };
				let ph = if instance { quote!((T, I)) } else { quote!((T,)) };
				let (sig, gens) = (&t.generics, t.generics.split_for_impl().1);
				let _ = sig;
				out.push(quote! {
					#(#cfgs)*
					#[doc(hidden)]
					#[allow(missing_docs)]
					pub struct #prefix #pgens (::core::marker::PhantomData<#ph>);
					#(#cfgs)*
					impl<#ig> ::sdk::frame_support::traits::StorageInstance for #prefix<#ug> {
						fn pallet_prefix() -> &'static str {
							<<T as ::sdk::frame_system::Config>::PalletInfo as ::sdk::frame_support::traits::PalletInfo>::name::<Pallet<#ug>>().expect("No name found for the pallet in the runtime!")
						}
						const STORAGE_PREFIX: &'static str = #pname;
					}
					#[allow(type_alias_bounds)]
					#t
				});
				let _ = vis;
				if let Some(gname) = getter {
					let q = &parts.query;
					let body = match (kind.as_str(), parts.keys.len()) {
						("StorageNMap", _) | ("CountedStorageNMap", _) => {
							let k = &parts.keys[0];
							quote! {
								pub fn #gname<KArg>(key: KArg) -> #q where
									KArg: ::sdk::frame_support::storage::types::EncodeLikeTuple<<#k as ::sdk::frame_support::storage::types::KeyGenerator>::KArg> + ::sdk::frame_support::storage::types::TupleToEncodedIter,
								{ <#name #gens>::get(key) }
							}
						},
						(_, 0) => quote!(pub fn #gname() -> #q { <#name #gens>::get() }),
						(_, 1) => {
							let k = &parts.keys[0];
							quote!(pub fn #gname<KArg: ::sdk::codec::EncodeLike<#k>>(k: KArg) -> #q { <#name #gens>::get(k) })
						},
						_ => {
							let (k1, k2) = (&parts.keys[0], &parts.keys[1]);
							quote!(pub fn #gname<KArg1: ::sdk::codec::EncodeLike<#k1>, KArg2: ::sdk::codec::EncodeLike<#k2>>(k1: KArg1, k2: KArg2) -> #q { <#name #gens>::get(k1, k2) })
						},
					};
					out.push(quote! { #(#cfgs)* #[allow(missing_docs)] impl<#ig> Pallet<#ug> { #body } });
				}
			},
			Item::Fn(mut f) if has(&f.attrs, "type_value") => {
				strip(&mut f.attrs);
				let name = &f.sig.ident;
				let g = &f.sig.generics;
				let (gi, gt, gw) = g.split_for_impl();
				let params: Vec<Ident> = g.type_params().map(|p| p.ident.clone()).collect();
				let ReturnType::Type(_, ret) = &f.sig.output else { return Err(Error::new_spanned(name, "type_value")) };
				let b = &f.block;
				let vis = &f.vis;
				let docs = docs_only(&f.attrs);
				let sg = if params.is_empty() { quote!() } else { quote!(<#(#params),*>) };
				out.push(quote! {
					#(#docs)* #[allow(missing_docs)]
					#vis struct #name #sg (::core::marker::PhantomData<((), #(#params,)*)>);
					impl #gi ::sdk::frame_support::traits::Get<#ret> for #name #gt #gw { fn get() -> #ret #b }
				});
			},
			Item::Enum(mut e) if has(&e.attrs, "event") => {
				have.insert("event");
				let dep = pattr(&e.attrs, "generate_deposit");
				strip(&mut e.attrs);
				let generic = e.generics.type_params().count() > 0;
				let (ei, et, ew) = {
					let g = e.generics.clone();
					let (a, b, c) = g.split_for_impl();
					(quote!(#a), quote!(#b), quote!(#c))
				};
				if generic {
					let ps: Vec<Ident> = e.generics.type_params().map(|p| p.ident.clone()).collect();
					e.variants.push(parse_quote!(#[doc(hidden)] #[codec(skip)] __Ignore(::core::marker::PhantomData<(#(#ps,)*)>, ::sdk::frame_support::Never)));
				}
				out.push(quote! {
					#[derive(::sdk::CloneNoBound, ::sdk::EqNoBound, ::sdk::PartialEqNoBound, ::sdk::RuntimeDebugNoBound, ::sdk::codec::Encode, ::sdk::codec::Decode, ::sdk::scale_info::TypeInfo)]
					#[allow(missing_docs)]
					#e
					impl #ei From<Event #et> for () #ew { fn from(_: Event #et) {} }
				});
				if let Some(a) = dep {
					let (vis, fname): (Visibility, Ident) = a.parse_args_with(|p: parse::ParseStream| {
						let v: Visibility = p.parse()?;
						p.parse::<Token![fn]>()?;
						Ok((v, p.parse()?))
					})?;
					let cfgt = if instance { quote!(Config<I>) } else { quote!(Config) };
					out.push(quote! {
						impl<#ig> Pallet<#ug> {
							#[allow(missing_docs, dead_code)]
							#vis fn #fname(event: Event #et) {
								let event = <<T as #cfgt>::RuntimeEvent as From<Event #et>>::from(event);
								let event = <<T as #cfgt>::RuntimeEvent as Into<<T as ::sdk::frame_system::Config>::RuntimeEvent>>::into(event);
								<::sdk::frame_system::Pallet<T>>::deposit_event(event)
							}
						}
					});
				}
			},
			Item::Enum(mut e) if has(&e.attrs, "error") => {
				have.insert("error");
				strip(&mut e.attrs);
				let mut i = 0u8;
				for v in e.variants.iter() {
					errors.push((v.ident.clone(), i, v.fields.clone(), docs_only(&v.attrs)));
					i += 1;
				}
				let gens = if instance { quote!(<T, I = ()>) } else { quote!(<T>) };
				let _ = gens;
				let ps: Vec<Ident> = e.generics.type_params().map(|p| p.ident.clone()).collect();
				e.variants.push(parse_quote!(#[doc(hidden)] #[codec(skip)] __Ignore(::core::marker::PhantomData<(#(#ps,)*)>, ::sdk::frame_support::Never)));
				let names = errors.iter().map(|x| &x.0);
				let names2 = errors.iter().map(|x| &x.0);
				let strs = errors.iter().map(|x| x.0.to_string());
				let idx = errors.iter().map(|x| x.1);
				let eg = e.generics.split_for_impl().1;
				let ei = e.generics.split_for_impl().0;
				out.push(quote! {
					#[derive(::sdk::codec::Encode, ::sdk::codec::Decode, ::sdk::scale_info::TypeInfo)]
					#[allow(missing_docs)]
					#e
					impl #ei ::core::fmt::Debug for Error #eg { fn fmt(&self, f: &mut ::core::fmt::Formatter) -> ::core::fmt::Result { f.write_str(self.as_str()) } }
					impl #ei Error #eg {
						#[doc(hidden)]
						pub fn as_str(&self) -> &'static str { match self { #(Self::#names { .. } => #strs,)* Self::__Ignore(..) => unreachable!() } }
						#[doc(hidden)]
						pub fn __index(&self) -> u8 { match self { #(Self::#names2 { .. } => #idx,)* Self::__Ignore(..) => unreachable!() } }
					}
					impl #ei From<Error #eg> for &'static str { fn from(e: Error #eg) -> &'static str { e.as_str() } }
					impl<#ig> From<Error #eg> for ::sdk::sp_runtime::DispatchError {
						fn from(e: Error #eg) -> Self {
							let index = <<T as ::sdk::frame_system::Config>::PalletInfo as ::sdk::frame_support::traits::PalletInfo>::index::<Pallet<#ug>>().expect("Every active module has an index in the runtime; qed") as u8;
							let mut enc = ::sdk::codec::Encode::encode(&e);
							enc.resize(4, 0);
							::sdk::sp_runtime::DispatchError::Module(::sdk::sp_runtime::ModuleError { index, error: [enc[0], enc[1], enc[2], enc[3]], message: Some(e.as_str()) })
						}
					}
				});
			},
			Item::Enum(mut e) if has(&e.attrs, "composite_enum") => {
				strip(&mut e.attrs);
				out.push(quote! {
					#[derive(Copy, Clone, Eq, PartialEq, PartialOrd, Ord, Debug, ::sdk::codec::Encode, ::sdk::codec::Decode, ::sdk::codec::MaxEncodedLen, ::sdk::scale_info::TypeInfo)]
					#e
				});
			},
			Item::Impl(mut im) if has(&im.attrs, "hooks") => {
				have.insert("hooks");
				strip(&mut im.attrs);
				out.push(quote!(#im));
			},
			Item::Impl(mut im) if has(&im.attrs, "call") => {
				have.insert("call");
				strip(&mut im.attrs);
				let mut next = 0u8;
				for ii in im.items.iter_mut() {
					let ImplItem::Fn(f) = ii else { continue };
					let wa = pattr(&f.attrs, "weight").ok_or_else(|| Error::new_spanned(&f.sig.ident, "missing #[pallet::weight]"))?;
					let weight: Expr = wa.parse_args()?;
					let index = match pattr(&f.attrs, "call_index") {
						Some(a) => a.parse_args::<LitInt>()?.base10_parse::<u8>()?,
						None => next,
					};
					next = index.wrapping_add(1);
					let mut args = vec![];
					for a in f.sig.inputs.iter_mut().skip(1) {
						let FnArg::Typed(pt) = a else { continue };
						let compact = has(&pt.attrs, "compact");
						strip(&mut pt.attrs);
						let Pat::Ident(pi) = &*pt.pat else { return Err(Error::new_spanned(&pt.pat, "call arg")) };
						args.push(CallArg { name: pi.ident.clone(), ty: (*pt.ty).clone(), compact });
					}
					let ret = f.sig.output.to_token_stream().to_string();
					let cfgs = f.attrs.iter().filter(|a| a.path().is_ident("cfg")).cloned().collect();
					calls.push(CallFn {
						name: f.sig.ident.clone(),
						index,
						weight,
						args,
						docs: docs_only(&f.attrs).into_iter().filter(|a| a.path().is_ident("doc")).collect(),
						cfgs,
						ret_post: ret.contains("WithPostInfo"),
					});
					strip(&mut f.attrs);
					let body = &f.block;
					let ret = match &f.sig.output {
						ReturnType::Type(_, t) => quote!(#t),
						_ => quote!(()),
					};
					f.block = parse_quote!({ ::sdk::io::with_call_layer(move || -> #ret #body) });
				}
				out.push(quote!(#[allow(deprecated)] #im));
			},
			Item::Struct(mut s) if has(&s.attrs, "genesis_config") => {
				have.insert("genesis_config");
				strip(&mut s.attrs);
				for f in s.fields.iter_mut() {
					f.attrs.retain(|a| !a.path().is_ident("serde"));
				}
				s.attrs.retain(|a| !a.path().is_ident("serde"));
				out.push(quote!(#s));
			},
			Item::Enum(mut s) if has(&s.attrs, "genesis_config") => {
				strip(&mut s.attrs);
				out.push(quote!(#s));
			},
			Item::Impl(mut im) if has(&im.attrs, "genesis_build") => {
				strip(&mut im.attrs);
				let (gi, _, gw) = im.generics.split_for_impl();
				let st = &im.self_ty;
				out.push(quote! {
					#im
					impl #gi ::sdk::sp_runtime::BuildStorage for #st #gw {
						fn assimilate_storage(&self, s: &mut ::sdk::sp_core::storage::Storage) -> Result<(), String> {
							::sdk::io::BasicExternalities::execute_with_storage(s, || ::sdk::frame_support::traits::BuildGenesisConfig::build(self));
							Ok(())
						}
					}
				});
			},
			mut other => {
				match &mut other {
					Item::Impl(x) => strip(&mut x.attrs),
					Item::Enum(x) => strip(&mut x.attrs),
					Item::Struct(x) => strip(&mut x.attrs),
					Item::Type(x) => strip(&mut x.attrs),
					Item::Fn(x) => strip(&mut x.attrs),
					Item::Const(x) => strip(&mut x.attrs),
					Item::Use(x) => strip(&mut x.attrs),
					_ => {},
				}
				out.push(quote!(#other));
			},
		}
	}
	// hooks
	let bn = quote!(::sdk::frame_system::pallet_prelude::BlockNumberFor<T>);
	if !have.contains("hooks") {
		out.push(quote!(impl<#ig> ::sdk::frame_support::traits::Hooks<#bn> for Pallet<#ug> {}));
	}
	out.push(quote! {
		impl<#ig> ::sdk::frame_support::traits::OnInitialize<#bn> for Pallet<#ug> {
			fn on_initialize(n: #bn) -> ::sdk::frame_support::weights::Weight { <Self as ::sdk::frame_support::traits::Hooks<#bn>>::on_initialize(n) }
		}
		impl<#ig> ::sdk::frame_support::traits::OnFinalize<#bn> for Pallet<#ug> {
			fn on_finalize(n: #bn) { <Self as ::sdk::frame_support::traits::Hooks<#bn>>::on_finalize(n) }
		}
		impl<#ig> ::sdk::frame_support::traits::OnIdle<#bn> for Pallet<#ug> {
			fn on_idle(n: #bn, w: ::sdk::frame_support::weights::Weight) -> ::sdk::frame_support::weights::Weight { <Self as ::sdk::frame_support::traits::Hooks<#bn>>::on_idle(n, w) }
		}
		impl<#ig> ::sdk::frame_support::traits::OnRuntimeUpgrade for Pallet<#ug> {
			fn on_runtime_upgrade() -> ::sdk::frame_support::weights::Weight { <Self as ::sdk::frame_support::traits::Hooks<#bn>>::on_runtime_upgrade() }
		}
		impl<#ig> ::sdk::frame_support::traits::OffchainWorker<#bn> for Pallet<#ug> {
			fn offchain_worker(n: #bn) { <Self as ::sdk::frame_support::traits::Hooks<#bn>>::offchain_worker(n) }
		}
		impl<#ig> ::sdk::frame_support::traits::IntegrityTest for Pallet<#ug> {
			fn integrity_test() { <Self as ::sdk::frame_support::traits::Hooks<#bn>>::integrity_test() }
		}
		impl<#ig> ::sdk::frame_support::traits::PalletInfoAccess for Pallet<#ug> {
			fn index() -> usize { <<T as ::sdk::frame_system::Config>::PalletInfo as ::sdk::frame_support::traits::PalletInfo>::index::<Self>().expect("pallet index") }
			fn name() -> &'static str { <<T as ::sdk::frame_system::Config>::PalletInfo as ::sdk::frame_support::traits::PalletInfo>::name::<Self>().expect("pallet name") }
		}
	});
	let svty = if has_sv { quote!(::sdk::frame_support::traits::StorageVersion) } else { quote!(::sdk::frame_support::traits::NoStorageVersionSet) };
	out.push(quote! {
		impl<#ig> ::sdk::frame_support::traits::GetStorageVersion for Pallet<#ug> {
			type CurrentStorageVersion = #svty;
			fn current_storage_version() -> #svty { #[allow(clippy::useless_conversion)] { #storage_version.into() } }
			fn on_chain_storage_version() -> ::sdk::frame_support::traits::StorageVersion { ::sdk::frame_support::traits::StorageVersion::get::<Self>() }
		}
	});
	out.push(if has_sv {
		quote!(impl<#ig> ::sdk::frame_support::traits::OnGenesis for Pallet<#ug> { fn on_genesis() { let v: ::sdk::frame_support::traits::StorageVersion = #storage_version; v.put::<Self>() } })
	} else {
		quote!(impl<#ig> ::sdk::frame_support::traits::OnGenesis for Pallet<#ug> { fn on_genesis() {} })
	});
	// calls
	let egens = if instance { quote!(<T: Config<I>, I: 'static = ()>) } else { quote!(<T: Config>) };
	let ph = if instance { quote!((T, I)) } else { quote!((T,)) };
	let _ = &cfg;
	let vdef = calls.iter().map(|c| {
		let (n, docs, cfgs, idx) = (&c.name, &c.docs, &c.cfgs, c.index);
		let fs = c.args.iter().map(|a| {
			let (an, ty) = (&a.name, &a.ty);
			let at = if a.compact { quote!(#[codec(compact)]) } else { quote!() };
			quote!(#at #an: #ty)
		});
		quote!(#(#docs)* #(#cfgs)* #[codec(index = #idx)] #n { #(#fs),* })
	});
	let weigh = calls.iter().map(|c| {
		let (n, cfgs, w) = (&c.name, &c.cfgs, &c.weight);
		let an: Vec<_> = c.args.iter().map(|a| &a.name).collect();
		let at: Vec<_> = c.args.iter().map(|a| &a.ty).collect();
		quote! { #(#cfgs)* Self::#n { #(#an),* } => {
			let __base = #w;
			let __weight = <dyn ::sdk::frame_support::dispatch::WeighData<(#(&#at,)*)>>::weigh_data(&__base, (#(#an,)*));
			let __class = <dyn ::sdk::frame_support::dispatch::ClassifyDispatch<(#(&#at,)*)>>::classify_dispatch(&__base, (#(#an,)*));
			let __pays = <dyn ::sdk::frame_support::dispatch::PaysFee<(#(&#at,)*)>>::pays_fee(&__base, (#(#an,)*));
			::sdk::frame_support::dispatch::DispatchInfo { weight: __weight, class: __class, pays_fee: __pays }
		} }
	});
	let names = calls.iter().map(|c| {
		let (n, cfgs, s) = (&c.name, &c.cfgs, c.name.to_string());
		quote!(#(#cfgs)* Self::#n { .. } => #s,)
	});
	let allnames: Vec<String> = calls.iter().map(|c| c.name.to_string()).collect();
	let allidx: Vec<u8> = calls.iter().map(|c| c.index).collect();
	let idxs = calls.iter().map(|c| {
		let (n, cfgs, s) = (&c.name, &c.cfgs, c.index);
		quote!(#(#cfgs)* Self::#n { .. } => #s,)
	});
	let disp = calls.iter().map(|c| {
		let (n, cfgs) = (&c.name, &c.cfgs);
		let an: Vec<_> = c.args.iter().map(|a| &a.name).collect();
		let conv = if c.ret_post { quote!() } else { quote!(.map(Into::into).map_err(Into::into)) };
		quote!(#(#cfgs)* Self::#n { #(#an),* } => <Pallet<#ug>>::#n(origin, #(#an),*) #conv,)
	});
	let ctors = calls.iter().map(|c| {
		let (n, cfgs) = (&c.name, &c.cfgs);
		let fname = format_ident!("new_call_variant_{}", n);
		let an: Vec<_> = c.args.iter().map(|a| &a.name).collect();
		let at: Vec<_> = c.args.iter().map(|a| &a.ty).collect();
		quote!(#(#cfgs)* #[doc(hidden)] pub fn #fname(#(#an: #at),*) -> Self { Self::#n { #(#an),* } })
	});
	out.push(quote! {
		#[derive(::sdk::CloneNoBound, ::sdk::EqNoBound, ::sdk::PartialEqNoBound, ::sdk::RuntimeDebugNoBound, ::sdk::codec::Encode, ::sdk::codec::Decode, ::sdk::scale_info::TypeInfo)]
		#[allow(non_camel_case_types, missing_docs, deprecated)]
		pub enum Call #egens {
			#[doc(hidden)]
			#[codec(skip)]
			__Ignore(::core::marker::PhantomData<#ph>, ::sdk::frame_support::Never),
			#(#vdef,)*
		}
		#[allow(missing_docs, deprecated)]
		impl<#ig> Call<#ug> { #(#ctors)* }
		#[allow(deprecated, unused_variables, clippy::all)]
		impl<#ig> ::sdk::frame_support::dispatch::GetDispatchInfo for Call<#ug> {
			fn get_dispatch_info(&self) -> ::sdk::frame_support::dispatch::DispatchInfo { match self { #(#weigh)* Self::__Ignore(..) => unreachable!() } }
		}
		#[allow(deprecated)]
		impl<#ig> ::sdk::frame_support::dispatch::GetCallName for Call<#ug> {
			fn get_call_name(&self) -> &'static str { match self { #(#names)* Self::__Ignore(..) => unreachable!() } }
			fn get_call_names() -> &'static [&'static str] { &[#(#allnames),*] }
		}
		#[allow(deprecated)]
		impl<#ig> ::sdk::frame_support::dispatch::GetCallIndex for Call<#ug> {
			fn get_call_index(&self) -> u8 { match self { #(#idxs)* Self::__Ignore(..) => unreachable!() } }
			fn get_call_indices() -> &'static [u8] { &[#(#allidx),*] }
		}
		#[allow(deprecated)]
		impl<#ig> ::sdk::frame_support::traits::UnfilteredDispatchable for Call<#ug> {
			type RuntimeOrigin = ::sdk::frame_system::pallet_prelude::OriginFor<T>;
			fn dispatch_bypass_filter(self, origin: Self::RuntimeOrigin) -> ::sdk::frame_support::dispatch::DispatchResultWithPostInfo {
				match self { #(#disp)* Self::__Ignore(..) => unreachable!() }
			}
		}
		impl<#ig> ::sdk::frame_support::dispatch::Callable<T> for Pallet<#ug> { type RuntimeCall = Call<#ug>; }
	});
	let (attrs, vis, ident) = (&m.attrs, &m.vis, &m.ident);
	Ok(quote! { #(#attrs)* #[allow(unused_imports)] #vis mod #ident { #(#out)* } })
}
