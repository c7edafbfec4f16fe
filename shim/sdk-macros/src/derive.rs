use proc_macro2::{Ident, Span, TokenStream, TokenTree};
use quote::{format_ident, quote, ToTokens};
use syn::*;

/// attributes codec(...) of a field or variant: (compact, skip, index)
pub struct CodecAttr {
	pub compact: bool,
	pub skip: bool,
	pub index: Option<Expr>,
}
pub fn codec_attr(attrs: &[Attribute]) -> CodecAttr {
	let mut r = CodecAttr { compact: false, skip: false, index: None };
	for a in attrs {
		if !a.path().is_ident("codec") {
			continue
		}
		let _ = a.parse_nested_meta(|m| {
			if m.path.is_ident("compact") {
				r.compact = true
			} else if m.path.is_ident("skip") {
				r.skip = true
			} else if m.path.is_ident("index") {
				r.index = Some(m.value()?.parse()?)
			} else if m.input.peek(Token![=]) {
				let _: Expr = m.value()?.parse()?;
			} else if m.input.peek(token::Paren) {
				let c;
				parenthesized!(c in m.input);
				let _: TokenStream = c.parse()?;
			}
			Ok(())
		});
	}
	r
}
/// mel_bound(..) / encode_bound / decode_bound predicates
fn explicit_bound(attrs: &[Attribute], what: &str) -> Option<TokenStream> {
	let mut r = None;
	for a in attrs {
		if !a.path().is_ident("codec") {
			continue
		}
		let _ = a.parse_nested_meta(|m| {
			let hit = m.path.is_ident(what);
			if m.input.peek(token::Paren) {
				let c;
				parenthesized!(c in m.input);
				let t: TokenStream = c.parse()?;
				if hit {
					r = Some(t)
				}
			} else if m.input.peek(Token![=]) {
				let _: Expr = m.value()?.parse()?;
			}
			Ok(())
		});
	}
	r
}
fn mentions(ts: TokenStream, ids: &[Ident]) -> bool {
	ts.into_iter().any(|t| match t {
		TokenTree::Ident(i) => ids.iter().any(|x| *x == i),
		TokenTree::Group(g) => mentions(g.stream(), ids),
		_ => false,
	})
}
fn type_params(g: &Generics) -> Vec<Ident> {
	g.type_params().map(|p| p.ident.clone()).collect()
}
pub fn all_fields(d: &Data) -> Vec<Field> {
	match d {
		Data::Struct(s) => s.fields.iter().cloned().collect(),
		Data::Enum(e) => e
			.variants
			.iter()
			.filter(|v| !codec_attr(&v.attrs).skip)
			.flat_map(|v| v.fields.iter().cloned().collect::<Vec<_>>())
			.collect(),
		_ => vec![],
	}
}
fn where_for(d: &DeriveInput, what: &str, tr: TokenStream) -> Generics {
	let mut g = d.generics.clone();
	let wc = g.make_where_clause();
	if let Some(t) = explicit_bound(&d.attrs, what) {
		let w: WhereClause = parse2(quote!(where #t)).unwrap();
		wc.predicates.extend(w.predicates);
		return g
	}
	let ids = type_params(&d.generics);
	for f in all_fields(&d.data) {
		let a = codec_attr(&f.attrs);
		let ty = &f.ty;
		if a.skip || !mentions(ty.to_token_stream(), &ids) || mentions(ty.to_token_stream(), &[d.ident.clone()]) {
			continue
		}
		if a.compact {
			wc.predicates.push(parse_quote!(#ty: ::sdk::codec::HasCompact));
			if what == "mel_bound" {
				wc.predicates.push(parse_quote!(<#ty as ::sdk::codec::HasCompact>::Type: ::sdk::codec::MaxEncodedLen));
			}
		} else {
			wc.predicates.push(parse_quote!(#ty: #tr));
		}
	}
	g
}
fn field_names(fs: &Fields) -> Vec<Ident> {
	fs.iter()
		.enumerate()
		.map(|(i, f)| f.ident.clone().unwrap_or_else(|| format_ident!("f{}", i)))
		.collect()
}
/// A pattern binding all fields with a prefix.
pub fn pat(path: TokenStream, fs: &Fields, pre: &str) -> (TokenStream, Vec<Ident>) {
	let binds: Vec<Ident> = field_names(fs).iter().map(|i| format_ident!("{}_{}", pre, i)).collect();
	match fs {
		Fields::Named(n) => {
			let names = n.named.iter().map(|f| f.ident.as_ref().unwrap());
			(quote!(#path { #(#names: #binds),* }), binds)
		},
		Fields::Unnamed(_) => (quote!(#path(#(#binds),*)), binds),
		Fields::Unit => (quote!(#path), binds),
	}
}
fn enc_field(f: &Field, e: &Ident) -> TokenStream {
	let a = codec_attr(&f.attrs);
	let ty = &f.ty;
	if a.skip {
		quote!(let _ = #e;)
	} else if a.compact {
		quote!({
			#[allow(clippy::useless_conversion)]
			let c = <<<#ty as ::sdk::codec::HasCompact>::Type as ::sdk::codec::EncodeAsRef<'_, #ty>>::RefType as From<&#ty>>::from(#e);
			::sdk::codec::Encode::encode_to(&c, dest);
		})
	} else {
		quote!(::sdk::codec::Encode::encode_to(#e, dest);)
	}
}
fn dec_field(f: &Field) -> TokenStream {
	let a = codec_attr(&f.attrs);
	let ty = &f.ty;
	if a.skip {
		quote!(Default::default())
	} else if a.compact {
		quote!(<<#ty as ::sdk::codec::HasCompact>::Type as ::sdk::codec::Decode>::decode(input)?.into())
	} else {
		quote!(<#ty as ::sdk::codec::Decode>::decode(input)?)
	}
}
fn mel_field(f: &Field) -> TokenStream {
	let a = codec_attr(&f.attrs);
	let ty = &f.ty;
	if a.skip {
		quote!(0)
	} else if a.compact {
		quote!(<<#ty as ::sdk::codec::HasCompact>::Type as ::sdk::codec::MaxEncodedLen>::max_encoded_len())
	} else {
		quote!(<#ty as ::sdk::codec::MaxEncodedLen>::max_encoded_len())
	}
}
fn variants(e: &DataEnum) -> Vec<(Variant, TokenStream)> {
	let mut next = quote!(0u64);
	let mut out = vec![];
	let mut base: TokenStream = quote!(0u64);
	let mut off = 0u64;
	let _ = &mut next;
	for v in e.variants.iter() {
		let a = codec_attr(&v.attrs);
		if a.skip {
			continue
		}
		if let Some((_, d)) = &v.discriminant {
			base = quote!((#d) as u64);
			off = 0;
		}
		let idx = match a.index {
			Some(i) => quote!(((#i) as u64)),
			None => quote!((#base + #off)),
		};
		off += 1;
		out.push((v.clone(), idx));
	}
	out
}
pub fn encode(d: DeriveInput) -> TokenStream {
	let g = where_for(&d, "encode_bound", quote!(::sdk::codec::Encode));
	let (ig, tg, wc) = g.split_for_impl();
	let name = &d.ident;
	let body = match &d.data {
		Data::Struct(s) => {
			let (p, b) = pat(quote!(Self), &s.fields, "b");
			let es = s.fields.iter().zip(&b).map(|(f, e)| enc_field(f, e));
			quote!(let #p = self; #(#es)*)
		},
		Data::Enum(e) => {
			let arms = variants(e).into_iter().map(|(v, idx)| {
				let id = &v.ident;
				let (p, b) = pat(quote!(Self::#id), &v.fields, "b");
				let es = v.fields.iter().zip(&b).map(|(f, e)| enc_field(f, e));
				quote!(#p => { dest.push_byte(#idx as u8); #(#es)* })
			});
			quote!(match self { #(#arms)* _ => {} })
		},
		_ => quote!(),
	};
	quote! {
		const _: () = {
			#[allow(deprecated, unused_variables, unreachable_patterns, unused_imports)]
			impl #ig ::sdk::codec::Encode for #name #tg #wc {
				fn encode_to<__W: ::sdk::codec::Output + ?Sized>(&self, dest: &mut __W) { use ::sdk::codec::Output as _; #body }
			}
			impl #ig ::sdk::codec::EncodeLike for #name #tg #wc {}
		};
	}
}
pub fn decode(d: DeriveInput) -> TokenStream {
	let g = where_for(&d, "decode_bound", quote!(::sdk::codec::Decode));
	let (ig, tg, wc) = g.split_for_impl();
	let name = &d.ident;
	let build = |path: TokenStream, fs: &Fields| match fs {
		Fields::Named(n) => {
			let names = n.named.iter().map(|f| f.ident.clone().unwrap());
			let vs = n.named.iter().map(dec_field);
			quote!(#path { #(#names: #vs),* })
		},
		Fields::Unnamed(n) => {
			let vs = n.unnamed.iter().map(dec_field);
			quote!(#path(#(#vs),*))
		},
		Fields::Unit => quote!(#path),
	};
	let body = match &d.data {
		Data::Struct(s) => {
			let b = build(quote!(Self), &s.fields);
			quote!(Ok(#b))
		},
		Data::Enum(e) => {
			let arms = variants(e).into_iter().map(|(v, idx)| {
				let id = &v.ident;
				let b = build(quote!(Self::#id), &v.fields);
				quote!(if __x == (#idx) { return Ok(#b) })
			});
			let nm = name.to_string();
			quote!(let __x = input.read_byte()? as u64; #(#arms)* Err(concat!("Could not decode `", #nm, "`, variant doesn't exist").into()))
		},
		_ => quote!(),
	};
	quote! {
		#[allow(deprecated, unused_variables, unreachable_code)]
		impl #ig ::sdk::codec::Decode for #name #tg #wc {
			fn decode<__I: ::sdk::codec::Input>(input: &mut __I) -> Result<Self, ::sdk::codec::Error> { #body }
		}
	}
}
pub fn mel(d: DeriveInput) -> TokenStream {
	let g = where_for(&d, "mel_bound", quote!(::sdk::codec::MaxEncodedLen));
	// also requires Encode
	let mut g2 = g.clone();
	if explicit_bound(&d.attrs, "mel_bound").is_some() {
		for p in where_for(&DeriveInput { attrs: vec![], ..d.clone() }, "x", quote!(::sdk::codec::Encode)).where_clause.into_iter().flat_map(|w| w.predicates) {
			g2.make_where_clause().predicates.push(p);
		}
	}
	let (ig, tg, wc) = g2.split_for_impl();
	let name = &d.ident;
	let body = match &d.data {
		Data::Struct(s) => {
			let es = s.fields.iter().map(mel_field);
			quote!(0usize #(+ #es)*)
		},
		Data::Enum(e) => {
			let arms = e.variants.iter().filter(|v| !codec_attr(&v.attrs).skip).map(|v| {
				let es = v.fields.iter().map(mel_field);
				quote!(m = m.max(0usize #(+ #es)*);)
			});
			quote!({ let mut m = 0usize; #(#arms)* m + 1 })
		},
		_ => quote!(0),
	};
	quote! {
		#[allow(deprecated, unused_mut)]
		impl #ig ::sdk::codec::MaxEncodedLen for #name #tg #wc { fn max_encoded_len() -> usize { #body } }
	}
}
pub fn compact_as(d: DeriveInput) -> TokenStream {
	let (ig, tg, wc) = d.generics.split_for_impl();
	let name = &d.ident;
	let f = all_fields(&d.data).into_iter().next().unwrap();
	let ty = &f.ty;
	let (acc, mk) = match &f.ident {
		Some(i) => (quote!(#i), quote!(Self { #i: x })),
		None => (quote!(0), quote!(Self(x))),
	};
	quote! {
		impl #ig ::sdk::codec::CompactAs for #name #tg #wc { type As = #ty; fn encode_as(&self) -> &#ty { &self.#acc } fn decode_from(x: #ty) -> Result<Self, ::sdk::codec::Error> { Ok(#mk) } }
		impl #ig From<::sdk::codec::Compact<#name #tg>> for #name #tg #wc { fn from(x: ::sdk::codec::Compact<#name #tg>) -> Self { x.0 } }
	}
}
pub fn type_info(d: DeriveInput) -> TokenStream {
	let (ig, tg, wc) = d.generics.split_for_impl();
	let name = &d.ident;
	let nm = name.to_string();
	quote! {
		#[allow(deprecated)]
		impl #ig ::sdk::scale_info::TypeInfo for #name #tg #wc {
			type Identity = ();
			fn type_info() -> ::sdk::scale_info::Type { ::sdk::scale_info::Type::named(#nm) }
		}
	}
}
pub fn nothing(_d: DeriveInput) -> TokenStream {
	quote!()
}
fn debug_impl(d: &DeriveInput, g: &Generics) -> TokenStream {
	let (ig, tg, wc) = g.split_for_impl();
	let name = &d.ident;
	let one = |path: TokenStream, nm: String, fs: &Fields| {
		let (p, b) = pat(path, fs, "b");
		let body = match fs {
			Fields::Named(n) => {
				let names = n.named.iter().map(|f| f.ident.as_ref().unwrap().to_string());
				quote!(f.debug_struct(#nm)#(.field(#names, #b))*.finish())
			},
			Fields::Unnamed(_) => quote!(f.debug_tuple(#nm)#(.field(#b))*.finish()),
			Fields::Unit => quote!(f.write_str(#nm)),
		};
		quote!(#p => #body)
	};
	let body = match &d.data {
		Data::Struct(s) => {
			let a = one(quote!(Self), name.to_string(), &s.fields);
			quote!(match self { #a })
		},
		Data::Enum(e) => {
			let arms = e.variants.iter().map(|v| {
				let id = &v.ident;
				one(quote!(Self::#id), id.to_string(), &v.fields)
			});
			quote!(match *self { #(ref #arms,)* })
		},
		_ => quote!(),
	};
	// `ref` patterns on whole variants are not valid syntax; match on the reference instead
	let body = match &d.data {
		Data::Enum(e) => {
			let arms = e.variants.iter().map(|v| {
				let id = &v.ident;
				one(quote!(Self::#id), id.to_string(), &v.fields)
			});
			if e.variants.is_empty() {
				quote!(match *self {})
			} else {
				quote!(match self { #(#arms,)* })
			}
		},
		_ => body,
	};
	quote! {
		#[allow(deprecated)]
		impl #ig ::core::fmt::Debug for #name #tg #wc { fn fmt(&self, f: &mut ::core::fmt::Formatter) -> ::core::fmt::Result { #body } }
	}
}
pub fn debug_nobound(d: DeriveInput) -> TokenStream {
	debug_impl(&d, &d.generics)
}
pub fn debug_bound(d: DeriveInput) -> TokenStream {
	let mut g = d.generics.clone();
	for p in g.type_params_mut() {
		p.bounds.push(parse_quote!(::core::fmt::Debug));
	}
	debug_impl(&d, &g)
}
pub fn clone_nobound(d: DeriveInput) -> TokenStream {
	let (ig, tg, wc) = d.generics.split_for_impl();
	let name = &d.ident;
	let one = |path: TokenStream, fs: &Fields| {
		let (p, b) = pat(path.clone(), fs, "b");
		let mk = match fs {
			Fields::Named(n) => {
				let names = n.named.iter().map(|f| f.ident.as_ref().unwrap());
				quote!(#path { #(#names: ::core::clone::Clone::clone(#b)),* })
			},
			Fields::Unnamed(_) => quote!(#path(#(::core::clone::Clone::clone(#b)),*)),
			Fields::Unit => quote!(#path),
		};
		quote!(#p => #mk)
	};
	let body = match &d.data {
		Data::Struct(s) => {
			let a = one(quote!(Self), &s.fields);
			quote!(match self { #a })
		},
		Data::Enum(e) => {
			let arms = e.variants.iter().map(|v| {
				let id = &v.ident;
				one(quote!(Self::#id), &v.fields)
			});
			if e.variants.is_empty() {
				quote!(match *self {})
			} else {
				quote!(match self { #(#arms,)* })
			}
		},
		_ => quote!(),
	};
	quote!(#[allow(deprecated)] impl #ig ::core::clone::Clone for #name #tg #wc { fn clone(&self) -> Self { #body } })
}
pub fn eq_nobound(d: DeriveInput) -> TokenStream {
	let (ig, tg, wc) = d.generics.split_for_impl();
	let name = &d.ident;
	quote!(#[allow(deprecated)] impl #ig ::core::cmp::Eq for #name #tg #wc {})
}
pub fn partial_eq_nobound(d: DeriveInput) -> TokenStream {
	let (ig, tg, wc) = d.generics.split_for_impl();
	let name = &d.ident;
	let one = |path: TokenStream, fs: &Fields| {
		let (p, b) = pat(path.clone(), fs, "b");
		let (q, c) = pat(path, fs, "c");
		quote!((#p, #q) => true #(&& #b == #c)*)
	};
	let body = match &d.data {
		Data::Struct(s) => {
			let a = one(quote!(Self), &s.fields);
			quote!(match (self, other) { #a })
		},
		Data::Enum(e) => {
			let arms = e.variants.iter().map(|v| {
				let id = &v.ident;
				one(quote!(Self::#id), &v.fields)
			});
			quote!(match (self, other) { #(#arms,)* _ => false })
		},
		_ => quote!(),
	};
	quote!(#[allow(deprecated, unreachable_patterns)] impl #ig ::core::cmp::PartialEq for #name #tg #wc { fn eq(&self, other: &Self) -> bool { #body } })
}
pub fn default_nobound(d: DeriveInput) -> TokenStream {
	let (ig, tg, wc) = d.generics.split_for_impl();
	let name = &d.ident;
	let mk = |path: TokenStream, fs: &Fields| match fs {
		Fields::Named(n) => {
			let names = n.named.iter().map(|f| f.ident.as_ref().unwrap());
			quote!(#path { #(#names: Default::default()),* })
		},
		Fields::Unnamed(n) => {
			let v = n.unnamed.iter().map(|_| quote!(Default::default()));
			quote!(#path(#(#v),*))
		},
		Fields::Unit => quote!(#path),
	};
	let body = match &d.data {
		Data::Struct(s) => mk(quote!(Self), &s.fields),
		Data::Enum(e) => {
			let v = e
				.variants
				.iter()
				.find(|v| v.attrs.iter().any(|a| a.path().is_ident("default")))
				.expect("#[default] variant");
			let id = &v.ident;
			mk(quote!(Self::#id), &v.fields)
		},
		_ => quote!(),
	};
	quote!(impl #ig ::core::default::Default for #name #tg #wc { fn default() -> Self { #body } })
}
pub fn pallet_error(d: DeriveInput) -> TokenStream {
	let (ig, tg, wc) = d.generics.split_for_impl();
	let name = &d.ident;
	quote!(impl #ig ::sdk::frame_support::traits::PalletError for #name #tg #wc { const MAX_ENCODED_SIZE: usize = 4; })
}
pub fn bitflags(mut e: ItemEnum) -> TokenStream {
	let name = e.ident.clone();
	let mut repr = Ident::new("u8", Span::call_site());
	for a in &e.attrs {
		if a.path().is_ident("repr") {
			if let Ok(i) = a.parse_args::<Ident>() {
				repr = i
			}
		}
	}
	// implicit discriminants: powers of two, as enumflags2
	let mut k = 0u32;
	for v in e.variants.iter_mut() {
		if v.discriminant.is_none() {
			let lit = LitInt::new(&format!("{}", 1u128 << k), Span::call_site());
			v.discriminant = Some((Default::default(), parse_quote!(#lit)));
			k += 1;
		}
	}
	if !e.attrs.iter().any(|a| a.path().is_ident("repr")) {
		e.attrs.push(parse_quote!(#[repr(u8)]));
	}
	let vs: Vec<_> = e.variants.iter().map(|v| v.ident.clone()).collect();
	quote! {
		#e
		impl ::sdk::enumflags2::RawFlag for #name {
			type Numeric = #repr;
			const EMPTY_BITS: #repr = 0;
			const ALL_BITS: #repr = 0 #(| (#name::#vs as #repr))*;
			const FLAG_LIST: &'static [#name] = &[#(#name::#vs),*];
			fn bits(self) -> #repr { self as #repr }
		}
		impl ::sdk::enumflags2::BitFlag for #name {}
		impl ::core::ops::BitOr for #name { type Output = ::sdk::enumflags2::BitFlags<#name>; fn bitor(self, o: Self) -> Self::Output { ::sdk::enumflags2::BitFlags::from(self) | o } }
	}
}
