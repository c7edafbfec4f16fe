//! Storage items over `io::storage`.
use crate::codec::{Decode, Encode, EncodeAppend, EncodeLike, FullCodec, FullEncode};
use crate::frame_support::traits::{Get, GetDefault, StorageInstance};
use crate::hashing::*;
use crate::io::storage as raw;
use std::marker::PhantomData;

// ---- hashers ----
pub trait Hashable: Sized {
	fn blake2_128(&self) -> [u8; 16];
	fn blake2_256(&self) -> [u8; 32];
	fn blake2_128_concat(&self) -> Vec<u8>;
	fn twox_128(&self) -> [u8; 16];
	fn twox_256(&self) -> [u8; 32];
	fn twox_64_concat(&self) -> Vec<u8>;
	fn identity(&self) -> Vec<u8>;
}
impl<T: crate::codec::Codec> Hashable for T {
	fn blake2_128(&self) -> [u8; 16] {
		self.using_encoded(blake2_128)
	}
	fn blake2_256(&self) -> [u8; 32] {
		self.using_encoded(blake2_256)
	}
	fn blake2_128_concat(&self) -> Vec<u8> {
		self.using_encoded(Blake2_128Concat::hash)
	}
	fn twox_128(&self) -> [u8; 16] {
		self.using_encoded(twox_128)
	}
	fn twox_256(&self) -> [u8; 32] {
		self.using_encoded(twox_256)
	}
	fn twox_64_concat(&self) -> Vec<u8> {
		self.using_encoded(Twox64Concat::hash)
	}
	fn identity(&self) -> Vec<u8> {
		self.encode()
	}
}
pub trait StorageHasher: 'static {
	type Output: AsRef<[u8]>;
	fn hash(x: &[u8]) -> Self::Output;
	fn max_len<K: crate::codec::MaxEncodedLen>() -> usize {
		K::max_encoded_len() + 32
	}
}
pub trait ReversibleStorageHasher: StorageHasher {
	fn reverse(x: &[u8]) -> &[u8];
}
macro_rules! hasher {
	($($n:ident [$o:ty] $x:ident => $e:expr;)*) => {$(
		#[derive(Clone, Copy, Debug, PartialEq, Eq)]
		pub struct $n;
		impl StorageHasher for $n { type Output = $o; fn hash($x: &[u8]) -> $o { $e } }
	)*}
}
hasher! {
	Blake2_128 [[u8; 16]] x => blake2_128(x);
	Blake2_256 [[u8; 32]] x => blake2_256(x);
	Twox128 [[u8; 16]] x => twox_128(x);
	Twox256 [[u8; 32]] x => twox_256(x);
	Identity [Vec<u8>] x => x.to_vec();
	Twox64Concat [Vec<u8>] x => [&twox_64(x)[..], x].concat();
	Blake2_128Concat [Vec<u8>] x => [&blake2_128(x)[..], x].concat();
}
impl ReversibleStorageHasher for Identity {
	fn reverse(x: &[u8]) -> &[u8] {
		x
	}
}
impl ReversibleStorageHasher for Twox64Concat {
	fn reverse(x: &[u8]) -> &[u8] {
		x.get(8..).unwrap_or(&[])
	}
}
impl ReversibleStorageHasher for Blake2_128Concat {
	fn reverse(x: &[u8]) -> &[u8] {
		x.get(16..).unwrap_or(&[])
	}
}
pub fn storage_prefix(pallet: &[u8], item: &[u8]) -> [u8; 32] {
	let mut o = [0u8; 32];
	o[..16].copy_from_slice(&twox_128(pallet));
	o[16..].copy_from_slice(&twox_128(item));
	o
}
fn base<P: StorageInstance>() -> Vec<u8> {
	storage_prefix(P::pallet_prefix().as_bytes(), P::STORAGE_PREFIX.as_bytes()).to_vec()
}
pub mod unhashed {
	use super::*;
	pub fn get<T: Decode>(k: &[u8]) -> Option<T> {
		raw::get(k).and_then(|v| match T::decode(&mut &v[..]) {
			Ok(x) => Some(x),
			Err(e) => {
				log::error!("Corrupted state at {:?}: {:?}", k, e);
				None
			},
		})
	}
	pub fn put<T: Encode + ?Sized>(k: &[u8], v: &T) {
		v.using_encoded(|b| raw::set(k, b))
	}
	pub fn exists(k: &[u8]) -> bool {
		raw::exists(k)
	}
	pub fn kill(k: &[u8]) {
		raw::clear(k)
	}
	pub fn take<T: Decode>(k: &[u8]) -> Option<T> {
		let v = get(k);
		if v.is_some() {
			kill(k)
		}
		v
	}
	pub fn get_or_default<T: Decode + Default>(k: &[u8]) -> T {
		get(k).unwrap_or_default()
	}
	pub fn get_or<T: Decode>(k: &[u8], d: T) -> T {
		get(k).unwrap_or(d)
	}
	pub fn get_or_else<T: Decode, F: FnOnce() -> T>(k: &[u8], f: F) -> T {
		get(k).unwrap_or_else(f)
	}
	pub fn take_or_default<T: Decode + Default>(k: &[u8]) -> T {
		take(k).unwrap_or_default()
	}
	pub fn take_or<T: Decode>(k: &[u8], d: T) -> T {
		take(k).unwrap_or(d)
	}
	pub fn take_or_else<T: Decode, F: FnOnce() -> T>(k: &[u8], f: F) -> T {
		take(k).unwrap_or_else(f)
	}
	pub fn contains_prefixed_key(p: &[u8]) -> bool {
		!raw::keys_with_prefix(p).is_empty()
	}
	pub fn kill_prefix(p: &[u8], limit: Option<u32>) -> crate::io::KillStorageResult {
		let r = clear_prefix(p, limit);
		match r.maybe_cursor {
			None => crate::io::KillStorageResult::AllRemoved(r.backend),
			Some(_) => crate::io::KillStorageResult::SomeRemaining(r.backend),
		}
	}
	pub fn get_raw(k: &[u8]) -> Option<Vec<u8>> {
		raw::get(k)
	}
	pub fn put_raw(k: &[u8], v: &[u8]) {
		raw::set(k, v)
	}
	pub fn clear_prefix(p: &[u8], limit: Option<u32>) -> MultiRemovalResults {
		let (c, n) = raw::clear_prefix(p, limit);
		MultiRemovalResults { maybe_cursor: c, backend: n, unique: n, loops: n }
	}
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct MultiRemovalResults {
	pub maybe_cursor: Option<Vec<u8>>,
	pub backend: u32,
	pub unique: u32,
	pub loops: u32,
}
pub fn with_storage_layer<R, E: From<crate::sp_runtime::DispatchError>>(f: impl FnOnce() -> Result<R, E>) -> Result<R, E> {
	crate::io::with_transaction_result(f)
}
pub use crate::sp_runtime::TransactionOutcome;
pub use types::Key;
pub fn with_transaction<T, E>(f: impl FnOnce() -> TransactionOutcome<Result<T, E>>) -> Result<T, E> {
	raw::start_transaction();
	match f() {
		TransactionOutcome::Commit(r) => {
			raw::commit_transaction();
			r
		},
		TransactionOutcome::Rollback(r) => {
			raw::rollback_transaction();
			r
		},
	}
}
pub mod transactional {
	pub use super::{with_storage_layer, with_transaction};
}
pub struct PrefixIterator<T> {
	prefix: Vec<u8>,
	prev: Vec<u8>,
	drain: bool,
	f: Box<dyn Fn(&[u8], &[u8]) -> Option<T>>,
}
impl<T> PrefixIterator<T> {
	fn new(prefix: Vec<u8>, f: impl Fn(&[u8], &[u8]) -> Option<T> + 'static) -> Self {
		PrefixIterator { prev: prefix.clone(), prefix, drain: false, f: Box::new(f) }
	}
	/// continue after the given storage key
	fn from(mut self, key: Vec<u8>) -> Self {
		self.prev = key;
		self
	}
	pub fn last_raw_key(&self) -> &[u8] {
		&self.prev
	}
	pub fn set_last_raw_key(&mut self, k: Vec<u8>) {
		self.prev = k
	}
	pub fn prefix(&self) -> &[u8] {
		&self.prefix
	}
	pub fn drain(mut self) -> Self {
		self.drain = true;
		self
	}
}
impl<T> Iterator for PrefixIterator<T> {
	type Item = T;
	fn next(&mut self) -> Option<T> {
		loop {
			let k = raw::next_key(&self.prev).filter(|k| k.starts_with(&self.prefix))?;
			let v = raw::get(&k)?;
			self.prev = k;
			if self.drain {
				raw::clear(&self.prev)
			}
			if let Some(x) = (self.f)(&self.prev[self.prefix.len()..], &v) {
				return Some(x)
			}
		}
	}
}
pub type KeyPrefixIterator<T> = PrefixIterator<T>;

pub mod types {
	pub use super::*;
	pub trait QueryKindTrait<V, OnEmpty> {
		type Query;
		fn from_opt(v: Option<V>) -> Self::Query;
		fn to_opt(q: Self::Query) -> Option<V>;
	}
	pub struct OptionQuery;
	impl<V, O> QueryKindTrait<V, O> for OptionQuery {
		type Query = Option<V>;
		fn from_opt(v: Option<V>) -> Option<V> {
			v
		}
		fn to_opt(q: Option<V>) -> Option<V> {
			q
		}
	}
	pub struct ValueQuery;
	impl<V, O: Get<V>> QueryKindTrait<V, O> for ValueQuery {
		type Query = V;
		fn from_opt(v: Option<V>) -> V {
			v.unwrap_or_else(O::get)
		}
		fn to_opt(q: V) -> Option<V> {
			Some(q)
		}
	}
	fn mutate_q<V: FullCodec, Q: QueryKindTrait<V, O>, O, R, E>(k: &[u8], f: impl FnOnce(&mut Q::Query) -> Result<R, E>) -> Result<R, E> {
		let mut q = Q::from_opt(unhashed::get(k));
		let r = f(&mut q)?;
		match Q::to_opt(q) {
			Some(v) => unhashed::put(k, &v),
			None => unhashed::kill(k),
		}
		Ok(r)
	}
	fn mutate_x<V: FullCodec, R, E>(k: &[u8], f: impl FnOnce(&mut Option<V>) -> Result<R, E>) -> Result<R, E> {
		let mut q: Option<V> = unhashed::get(k);
		let r = f(&mut q)?;
		match q {
			Some(v) => unhashed::put(k, &v),
			None => unhashed::kill(k),
		}
		Ok(r)
	}
	type Inf = std::convert::Infallible;
	fn inf<T>(r: Result<T, Inf>) -> T {
		match r {
			Ok(x) => x,
			Err(e) => match e {},
		}
	}
	/// append one item to an encoded vector
	fn append_raw<I: Encode>(k: &[u8], item: I) {
		raw::append(k, item.encode())
	}
	/// item type of an appendable collection
	pub trait StorageAppend<Item> {}
	impl<T> StorageAppend<T> for Vec<T> {}
	pub trait TryAppend<Item> {
		fn bound() -> usize;
	}
	impl<T, S: Get<u32>> TryAppend<T> for crate::frame_support::BoundedVec<T, S> {
		fn bound() -> usize {
			S::get() as usize
		}
	}
	fn encoded_len(k: &[u8]) -> Option<usize> {
		raw::get(k).and_then(|v| <crate::codec::Compact<u32> as Decode>::decode(&mut &v[..]).ok().map(|c| c.0 as usize))
	}

	// ---- value ----
	pub struct StorageValue<P, V, Q = OptionQuery, O = GetDefault>(PhantomData<(P, V, Q, O)>);
	impl<P: StorageInstance, V: FullCodec, Q: QueryKindTrait<V, O>, O> StorageValue<P, V, Q, O> {
		pub fn hashed_key() -> Vec<u8> {
			base::<P>()
		}
		pub fn storage_value_final_key() -> [u8; 32] {
			base::<P>().try_into().unwrap()
		}
		pub fn exists() -> bool {
			raw::exists(&base::<P>())
		}
		pub fn get() -> Q::Query {
			Q::from_opt(unhashed::get(&base::<P>()))
		}
		pub fn try_get() -> Result<V, ()> {
			unhashed::get(&base::<P>()).ok_or(())
		}
		pub fn put<A: EncodeLike<V>>(v: A) {
			unhashed::put(&base::<P>(), &v)
		}
		pub fn set(q: Q::Query) {
			match Q::to_opt(q) {
				Some(v) => unhashed::put(&base::<P>(), &v),
				None => unhashed::kill(&base::<P>()),
			}
		}
		pub fn kill() {
			unhashed::kill(&base::<P>())
		}
		pub fn take() -> Q::Query {
			Q::from_opt(unhashed::take(&base::<P>()))
		}
		pub fn mutate<R>(f: impl FnOnce(&mut Q::Query) -> R) -> R {
			inf(mutate_q::<V, Q, O, R, Inf>(&base::<P>(), |q| Ok(f(q))))
		}
		pub fn try_mutate<R, E>(f: impl FnOnce(&mut Q::Query) -> Result<R, E>) -> Result<R, E> {
			mutate_q::<V, Q, O, R, E>(&base::<P>(), f)
		}
		pub fn mutate_exists<R>(f: impl FnOnce(&mut Option<V>) -> R) -> R {
			inf(mutate_x::<V, R, Inf>(&base::<P>(), |q| Ok(f(q))))
		}
		pub fn try_mutate_exists<R, E>(f: impl FnOnce(&mut Option<V>) -> Result<R, E>) -> Result<R, E> {
			mutate_x::<V, R, E>(&base::<P>(), f)
		}
		pub fn append<I: Encode>(item: I)
		where
			V: StorageAppend<I>,
		{
			append_raw(&base::<P>(), item)
		}
		pub fn try_append<I: Encode>(item: I) -> Result<(), ()>
		where
			V: TryAppend<I>,
		{
			let k = base::<P>();
			if encoded_len(&k).unwrap_or(0) < <V as TryAppend<I>>::bound() {
				append_raw(&k, item);
				Ok(())
			} else {
				Err(())
			}
		}
		pub fn decode_len() -> Option<usize> {
			encoded_len(&base::<P>())
		}
		pub fn translate<Old: Decode>(f: impl FnOnce(Option<Old>) -> Option<V>) -> Result<Option<V>, ()> {
			let k = base::<P>();
			let old = match raw::get(&k) {
				Some(b) => Some(Old::decode(&mut &b[..]).map_err(|_| ())?),
				None => None,
			};
			let n = f(old);
			match &n {
				Some(v) => unhashed::put(&k, v),
				None => unhashed::kill(&k),
			}
			Ok(n)
		}
	}

	fn translate_all<Old: Decode, V: FullCodec>(prefix: &[u8], mut f: impl FnMut(Old) -> Option<V>) {
		for k in raw::keys_with_prefix(prefix) {
			if let Some(v) = unhashed::get::<Old>(&k) {
				match f(v) {
					Some(n) => unhashed::put(&k, &n),
					None => unhashed::kill(&k),
				}
			}
		}
	}
	fn swap_raw(a: &[u8], b: &[u8]) {
		let (x, y) = (raw::get(a), raw::get(b));
		match x {
			Some(x) => raw::set(b, &x),
			None => raw::clear(b),
		}
		match y {
			Some(y) => raw::set(a, &y),
			None => raw::clear(a),
		}
	}
	macro_rules! keyed_ops {
		([$($kg:ident : $kt:ident $kn:ident),*], $key:expr) => {
			pub fn hashed_key_for<$($kg: EncodeLike<$kt>),*>($($kn: $kg),*) -> Vec<u8> { $key }
			pub fn contains_key<$($kg: EncodeLike<$kt>),*>($($kn: $kg),*) -> bool { raw::exists(&$key) }
			pub fn get<$($kg: EncodeLike<$kt>),*>($($kn: $kg),*) -> Q::Query { Q::from_opt(unhashed::get(&$key)) }
			pub fn try_get<$($kg: EncodeLike<$kt>),*>($($kn: $kg),*) -> Result<V, ()> { unhashed::get(&$key).ok_or(()) }
			pub fn insert<$($kg: EncodeLike<$kt>,)* A: EncodeLike<V>>($($kn: $kg,)* v: A) { unhashed::put(&$key, &v) }
			pub fn set<$($kg: EncodeLike<$kt>),*>($($kn: $kg,)* q: Q::Query) { match Q::to_opt(q) { Some(v) => unhashed::put(&$key, &v), None => unhashed::kill(&$key) } }
			pub fn remove<$($kg: EncodeLike<$kt>),*>($($kn: $kg),*) { unhashed::kill(&$key) }
			pub fn take<$($kg: EncodeLike<$kt>),*>($($kn: $kg),*) -> Q::Query { Q::from_opt(unhashed::take(&$key)) }
			pub fn mutate<$($kg: EncodeLike<$kt>,)* R, F: FnOnce(&mut Q::Query) -> R>($($kn: $kg,)* f: F) -> R { inf(mutate_q::<V, Q, O, R, Inf>(&$key, |q| Ok(f(q)))) }
			pub fn try_mutate<$($kg: EncodeLike<$kt>,)* R, E, F: FnOnce(&mut Q::Query) -> Result<R, E>>($($kn: $kg,)* f: F) -> Result<R, E> { mutate_q::<V, Q, O, R, E>(&$key, f) }
			pub fn mutate_exists<$($kg: EncodeLike<$kt>,)* R, F: FnOnce(&mut Option<V>) -> R>($($kn: $kg,)* f: F) -> R { inf(mutate_x::<V, R, Inf>(&$key, |q| Ok(f(q)))) }
			pub fn try_mutate_exists<$($kg: EncodeLike<$kt>,)* R, E, F: FnOnce(&mut Option<V>) -> Result<R, E>>($($kn: $kg,)* f: F) -> Result<R, E> { mutate_x::<V, R, E>(&$key, f) }
			pub fn append<Item: Encode, $($kg: EncodeLike<$kt>),*>($($kn: $kg,)* item: Item) where V: StorageAppend<Item> { append_raw(&$key, item) }
			pub fn try_append<$($kg: EncodeLike<$kt>,)* Item: Encode>($($kn: $kg,)* item: Item) -> Result<(), ()> where V: TryAppend<Item> {
				let k = $key;
				if encoded_len(&k).unwrap_or(0) < <V as TryAppend<Item>>::bound() { append_raw(&k, item); Ok(()) } else { Err(()) }
			}
			pub fn decode_len<$($kg: EncodeLike<$kt>),*>($($kn: $kg),*) -> Option<usize> { encoded_len(&$key) }
			pub fn decode_non_dedup_len<$($kg: EncodeLike<$kt>),*>($($kn: $kg),*) -> Option<usize> { encoded_len(&$key) }
			pub fn mutate_extant<$($kg: EncodeLike<$kt>,)* R: Default, F: FnOnce(&mut V) -> R>($($kn: $kg,)* f: F) -> R {
				inf(mutate_x::<V, R, Inf>(&$key, |q| Ok(match q { Some(v) => f(v), None => R::default() })))
			}
			pub fn translate_values<Old: Decode, F: FnMut(Old) -> Option<V>>(f: F) { translate_all(&base::<P>(), f) }
			pub fn iter_values() -> PrefixIterator<V> { PrefixIterator::new(base::<P>(), |_, v| V::decode(&mut &v[..]).ok()) }
			pub fn clear(limit: u32, _c: Option<&[u8]>) -> MultiRemovalResults { unhashed::clear_prefix(&base::<P>(), Some(limit)) }
			pub fn remove_all(limit: Option<u32>) { unhashed::clear_prefix(&base::<P>(), limit); }
			pub fn final_prefix() -> Vec<u8> { base::<P>() }
		}
	}
	fn cat(parts: &[&[u8]]) -> Vec<u8> {
		parts.concat()
	}
	fn hk<H: StorageHasher, K: Encode>(k: &K) -> H::Output {
		k.using_encoded(H::hash)
	}
	// ---- map ----
	pub struct StorageMap<P, H, K, V, Q = OptionQuery, O = GetDefault, M = GetDefault>(PhantomData<(P, H, K, V, Q, O, M)>);
	impl<P: StorageInstance, H: StorageHasher, K: FullEncode, V: FullCodec, Q: QueryKindTrait<V, O>, O, M> StorageMap<P, H, K, V, Q, O, M> {
		keyed_ops!([KA: K k], cat(&[&base::<P>(), hk::<H, KA>(&k).as_ref()]));
		pub fn swap<A: EncodeLike<K>, B: EncodeLike<K>>(a: A, b: B) {
			let (a, b) = (Self::hashed_key_for(a), Self::hashed_key_for(b));
			swap_raw(&a, &b)
		}
		pub fn migrate_key<Old: StorageHasher, A: EncodeLike<K>>(a: A) -> Option<V> {
			let old = cat(&[&base::<P>(), hk::<Old, A>(&a).as_ref()]);
			let v: Option<V> = unhashed::take(&old);
			if let Some(v) = &v {
				unhashed::put(&Self::hashed_key_for(a), v)
			}
			v
		}
		pub fn extend<A: EncodeLike<K>, B: EncodeLike<V>>(it: impl IntoIterator<Item = (A, B)>) {
			it.into_iter().for_each(|(k, v)| Self::insert(k, v))
		}
	}
	impl<P: StorageInstance, H: ReversibleStorageHasher, K: FullCodec, V: FullCodec, Q: QueryKindTrait<V, O>, O, M> StorageMap<P, H, K, V, Q, O, M> {
		pub fn iter() -> PrefixIterator<(K, V)> {
			PrefixIterator::new(base::<P>(), |k, v| Some((K::decode(&mut H::reverse(k)).ok()?, V::decode(&mut &v[..]).ok()?)))
		}
		pub fn iter_keys() -> PrefixIterator<K> {
			PrefixIterator::new(base::<P>(), |k, _| K::decode(&mut H::reverse(k)).ok())
		}
		pub fn iter_from(k: Vec<u8>) -> PrefixIterator<(K, V)> {
			Self::iter().from(k)
		}
		pub fn iter_from_key(k: impl EncodeLike<K>) -> PrefixIterator<(K, V)> {
			Self::iter().from(Self::hashed_key_for(k))
		}
		pub fn iter_keys_from(k: Vec<u8>) -> PrefixIterator<K> {
			Self::iter_keys().from(k)
		}
		pub fn iter_keys_from_key(k: impl EncodeLike<K>) -> PrefixIterator<K> {
			Self::iter_keys().from(Self::hashed_key_for(k))
		}
		pub fn drain() -> PrefixIterator<(K, V)> {
			Self::iter().drain()
		}
		pub fn translate<Old: Decode, F: FnMut(K, Old) -> Option<V>>(mut f: F) {
			for k in raw::keys_with_prefix(&base::<P>()) {
				let key = K::decode(&mut H::reverse(&k[32..])).unwrap();
				let v: Old = unhashed::get(&k).unwrap();
				match f(key, v) {
					Some(n) => unhashed::put(&k, &n),
					None => unhashed::kill(&k),
				}
			}
		}
	}
	// ---- counted map ----
	pub struct CountedStorageMap<P, H, K, V, Q = OptionQuery, O = GetDefault, M = GetDefault>(PhantomData<(P, H, K, V, Q, O, M)>);
	impl<P: StorageInstance, H: StorageHasher, K: FullEncode, V: FullCodec, Q: QueryKindTrait<V, O>, O, M> CountedStorageMap<P, H, K, V, Q, O, M> {
		fn ckey() -> Vec<u8> {
			storage_prefix(P::pallet_prefix().as_bytes(), format!("CounterFor{}", P::STORAGE_PREFIX).as_bytes()).to_vec()
		}
		fn k<A: EncodeLike<K>>(a: &A) -> Vec<u8> {
			cat(&[&base::<P>(), hk::<H, A>(a).as_ref()])
		}
		pub fn count() -> u32 {
			unhashed::get(&Self::ckey()).unwrap_or(0)
		}
		fn adjust<R>(k: &[u8], f: impl FnOnce() -> R) -> R {
			let a = raw::exists(k);
			let r = f();
			let b = raw::exists(k);
			if a != b {
				let n = Self::count();
				unhashed::put(&Self::ckey(), &(if b { n.saturating_add(1) } else { n.saturating_sub(1) }));
			}
			r
		}
		pub fn hashed_key_for<A: EncodeLike<K>>(a: A) -> Vec<u8> {
			Self::k(&a)
		}
		pub fn initialize_counter() -> u32 {
			let n = raw::keys_with_prefix(&base::<P>()).len() as u32;
			unhashed::put(&Self::ckey(), &n);
			n
		}
		pub fn set<A: EncodeLike<K>>(a: A, q: Q::Query) {
			let k = Self::k(&a);
			Self::adjust(&k, || match Q::to_opt(q) {
				Some(v) => unhashed::put(&k, &v),
				None => unhashed::kill(&k),
			})
		}
		pub fn swap<A: EncodeLike<K>, B: EncodeLike<K>>(a: A, b: B) {
			swap_raw(&Self::k(&a), &Self::k(&b))
		}
		pub fn try_append<A: EncodeLike<K>, Item: Encode>(a: A, item: Item) -> Result<(), ()>
		where
			V: TryAppend<Item>,
		{
			let k = Self::k(&a);
			if encoded_len(&k).unwrap_or(0) < <V as TryAppend<Item>>::bound() {
				Self::adjust(&k, || append_raw(&k, item));
				Ok(())
			} else {
				Err(())
			}
		}
		pub fn decode_len<A: EncodeLike<K>>(a: A) -> Option<usize> {
			encoded_len(&Self::k(&a))
		}
		pub fn clear(limit: u32, _c: Option<&[u8]>) -> MultiRemovalResults {
			let r = unhashed::clear_prefix(&base::<P>(), Some(limit));
			match r.maybe_cursor {
				None => unhashed::kill(&Self::ckey()),
				Some(_) => unhashed::put(&Self::ckey(), &Self::count().saturating_sub(r.unique)),
			}
			r
		}
		pub fn remove_all() {
			unhashed::put(&Self::ckey(), &0u32);
			unhashed::clear_prefix(&base::<P>(), None);
		}
		pub fn contains_key<A: EncodeLike<K>>(a: A) -> bool {
			raw::exists(&Self::k(&a))
		}
		pub fn get<A: EncodeLike<K>>(a: A) -> Q::Query {
			Q::from_opt(unhashed::get(&Self::k(&a)))
		}
		pub fn try_get<A: EncodeLike<K>>(a: A) -> Result<V, ()> {
			unhashed::get(&Self::k(&a)).ok_or(())
		}
		pub fn insert<A: EncodeLike<K>, B: EncodeLike<V>>(a: A, v: B) {
			let k = Self::k(&a);
			Self::adjust(&k, || unhashed::put(&k, &v))
		}
		pub fn remove<A: EncodeLike<K>>(a: A) {
			let k = Self::k(&a);
			Self::adjust(&k, || unhashed::kill(&k))
		}
		pub fn take<A: EncodeLike<K>>(a: A) -> Q::Query {
			let k = Self::k(&a);
			Q::from_opt(Self::adjust(&k, || unhashed::take(&k)))
		}
		pub fn mutate<A: EncodeLike<K>, R>(a: A, f: impl FnOnce(&mut Q::Query) -> R) -> R {
			let k = Self::k(&a);
			Self::adjust(&k, || inf(mutate_q::<V, Q, O, R, Inf>(&k, |q| Ok(f(q)))))
		}
		pub fn try_mutate<A: EncodeLike<K>, R, E>(a: A, f: impl FnOnce(&mut Q::Query) -> Result<R, E>) -> Result<R, E> {
			let k = Self::k(&a);
			Self::adjust(&k, || mutate_q::<V, Q, O, R, E>(&k, f))
		}
		pub fn mutate_exists<A: EncodeLike<K>, R>(a: A, f: impl FnOnce(&mut Option<V>) -> R) -> R {
			let k = Self::k(&a);
			Self::adjust(&k, || inf(mutate_x::<V, R, Inf>(&k, |q| Ok(f(q)))))
		}
		pub fn try_mutate_exists<A: EncodeLike<K>, R, E>(a: A, f: impl FnOnce(&mut Option<V>) -> Result<R, E>) -> Result<R, E> {
			let k = Self::k(&a);
			Self::adjust(&k, || mutate_x::<V, R, E>(&k, f))
		}
		pub fn iter_values() -> PrefixIterator<V> {
			PrefixIterator::new(base::<P>(), |_, v| V::decode(&mut &v[..]).ok())
		}
	}
	impl<P: StorageInstance, H: ReversibleStorageHasher, K: FullCodec, V: FullCodec, Q: QueryKindTrait<V, O>, O, M> CountedStorageMap<P, H, K, V, Q, O, M> {
		pub fn iter() -> PrefixIterator<(K, V)> {
			PrefixIterator::new(base::<P>(), |k, v| Some((K::decode(&mut H::reverse(k)).ok()?, V::decode(&mut &v[..]).ok()?)))
		}
		pub fn iter_keys() -> PrefixIterator<K> {
			PrefixIterator::new(base::<P>(), |k, _| K::decode(&mut H::reverse(k)).ok())
		}
		pub fn drain() -> impl Iterator<Item = (K, V)> {
			Self::iter().drain().inspect(|_| unhashed::put(&Self::ckey(), &Self::count().saturating_sub(1)))
		}
	}
	// ---- double map ----
	pub struct StorageDoubleMap<P, H1, K1, H2, K2, V, Q = OptionQuery, O = GetDefault, M = GetDefault>(PhantomData<(P, H1, K1, H2, K2, V, Q, O, M)>);
	impl<P: StorageInstance, H1: StorageHasher, K1: FullEncode, H2: StorageHasher, K2: FullEncode, V: FullCodec, Q: QueryKindTrait<V, O>, O, M> StorageDoubleMap<P, H1, K1, H2, K2, V, Q, O, M> {
		keyed_ops!([KA: K1 k1, KB: K2 k2], cat(&[&base::<P>(), hk::<H1, KA>(&k1).as_ref(), hk::<H2, KB>(&k2).as_ref()]));
		fn p1<A: EncodeLike<K1>>(a: &A) -> Vec<u8> {
			cat(&[&base::<P>(), hk::<H1, A>(a).as_ref()])
		}
		pub fn iter_prefix_values<A: EncodeLike<K1>>(a: A) -> PrefixIterator<V> {
			PrefixIterator::new(Self::p1(&a), |_, v| V::decode(&mut &v[..]).ok())
		}
		pub fn clear_prefix<A: EncodeLike<K1>>(a: A, limit: u32, _c: Option<&[u8]>) -> MultiRemovalResults {
			unhashed::clear_prefix(&Self::p1(&a), Some(limit))
		}
		pub fn remove_prefix<A: EncodeLike<K1>>(a: A, limit: Option<u32>) {
			unhashed::clear_prefix(&Self::p1(&a), limit);
		}
		pub fn contains_prefix<A: EncodeLike<K1>>(a: A) -> bool {
			unhashed::contains_prefixed_key(&Self::p1(&a))
		}
		pub fn swap<A: EncodeLike<K1>, B: EncodeLike<K2>, C: EncodeLike<K1>, D: EncodeLike<K2>>(a: A, b: B, c: C, d: D) {
			swap_raw(&Self::hashed_key_for(a, b), &Self::hashed_key_for(c, d))
		}
	}
	impl<P: StorageInstance, H1: ReversibleStorageHasher, K1: FullCodec, H2: ReversibleStorageHasher, K2: FullCodec, V: FullCodec, Q: QueryKindTrait<V, O>, O, M> StorageDoubleMap<P, H1, K1, H2, K2, V, Q, O, M> {
		pub fn iter_prefix<A: EncodeLike<K1>>(a: A) -> PrefixIterator<(K2, V)> {
			PrefixIterator::new(Self::p1(&a), |k, v| Some((K2::decode(&mut H2::reverse(k)).ok()?, V::decode(&mut &v[..]).ok()?)))
		}
		pub fn iter_key_prefix<A: EncodeLike<K1>>(a: A) -> PrefixIterator<K2> {
			PrefixIterator::new(Self::p1(&a), |k, _| K2::decode(&mut H2::reverse(k)).ok())
		}
		pub fn iter_prefix_from<A: EncodeLike<K1>>(a: A, from: Vec<u8>) -> PrefixIterator<(K2, V)> {
			Self::iter_prefix(a).from(from)
		}
		pub fn iter_key_prefix_from<A: EncodeLike<K1>>(a: A, from: Vec<u8>) -> PrefixIterator<K2> {
			Self::iter_key_prefix(a).from(from)
		}
		pub fn iter_from(k: Vec<u8>) -> PrefixIterator<(K1, K2, V)> {
			Self::iter().from(k)
		}
		pub fn iter_keys_from(k: Vec<u8>) -> PrefixIterator<(K1, K2)> {
			Self::iter_keys().from(k)
		}
		pub fn translate<Old: Decode, F: FnMut(K1, K2, Old) -> Option<V>>(mut f: F) {
			for k in raw::keys_with_prefix(&base::<P>()) {
				let mut r = H1::reverse(&k[32..]);
				let k1 = K1::decode(&mut r).unwrap();
				let k2 = K2::decode(&mut H2::reverse(r)).unwrap();
				match f(k1, k2, unhashed::get(&k).unwrap()) {
					Some(n) => unhashed::put(&k, &n),
					None => unhashed::kill(&k),
				}
			}
		}
		pub fn drain_prefix<A: EncodeLike<K1>>(a: A) -> PrefixIterator<(K2, V)> {
			Self::iter_prefix(a).drain()
		}
		pub fn iter() -> PrefixIterator<(K1, K2, V)> {
			PrefixIterator::new(base::<P>(), |k, v| {
				let mut r = H1::reverse(k);
				let k1 = K1::decode(&mut r).ok()?;
				let k2 = K2::decode(&mut H2::reverse(r)).ok()?;
				Some((k1, k2, V::decode(&mut &v[..]).ok()?))
			})
		}
		pub fn iter_keys() -> PrefixIterator<(K1, K2)> {
			PrefixIterator::new(base::<P>(), |k, _| {
				let mut r = H1::reverse(k);
				let k1 = K1::decode(&mut r).ok()?;
				Some((k1, K2::decode(&mut H2::reverse(r)).ok()?))
			})
		}
		pub fn drain() -> PrefixIterator<(K1, K2, V)> {
			Self::iter().drain()
		}
	}
	// ---- n map ----
	pub struct Key<H, K>(PhantomData<(H, K)>);
	pub type NMapKey<H, K> = Key<H, K>;
	pub trait KeyGenerator {
		type KArg: Encode;
		type Key;
		fn final_key_parts(parts: &[Vec<u8>]) -> Vec<u8>;
		fn decode_key(b: &mut &[u8]) -> Option<Self::Key>;
	}
	pub trait EncodeLikeTuple<T> {}
	pub trait TupleToEncodedIter {
		fn to_encoded_iter(&self) -> std::vec::IntoIter<Vec<u8>>;
	}
	pub trait HasKeyPrefix<P>: KeyGenerator {
		type Suffix;
		fn decode_suffix(b: &mut &[u8]) -> Option<Self::Suffix>;
	}
	fn dec1<H: ReversibleStorageHasher, K: Decode>(b: &mut &[u8]) -> Option<K> {
		let mut r = H::reverse(b);
		let k = K::decode(&mut r).ok()?;
		*b = r;
		Some(k)
	}
	macro_rules! nkeys {
		($($h:ident $k:ident $a:ident $i:tt),*) => {
			impl<$($h: ReversibleStorageHasher, $k: FullCodec),*> KeyGenerator for ($(Key<$h, $k>,)*) {
				type KArg = ($($k,)*);
				type Key = ($($k,)*);
				fn final_key_parts(parts: &[Vec<u8>]) -> Vec<u8> {
					let mut o = vec![];
					$(if let Some(p) = parts.get($i) { o.extend_from_slice($h::hash(p).as_ref()); })*
					o
				}
				fn decode_key(b: &mut &[u8]) -> Option<Self::Key> { Some(($(dec1::<$h, $k>(b)?,)*)) }
			}
			impl<$($a: EncodeLike<$k>, $k: Encode),*> EncodeLikeTuple<($($k,)*)> for ($($a,)*) {}
			impl<'a, $($a: EncodeLike<$k>, $k: Encode),*> EncodeLikeTuple<($($k,)*)> for &'a ($($a,)*) {}
			impl<$($a: Encode),*> TupleToEncodedIter for ($($a,)*) { fn to_encoded_iter(&self) -> std::vec::IntoIter<Vec<u8>> { vec![$(self.$i.encode()),*].into_iter() } }
			impl<'a, $($a: Encode),*> TupleToEncodedIter for &'a ($($a,)*) { fn to_encoded_iter(&self) -> std::vec::IntoIter<Vec<u8>> { vec![$(self.$i.encode()),*].into_iter() } }
		}
	}
	nkeys!(H0 K0 A0 0);
	nkeys!(H0 K0 A0 0, H1 K1 A1 1);
	nkeys!(H0 K0 A0 0, H1 K1 A1 1, H2 K2 A2 2);
	nkeys!(H0 K0 A0 0, H1 K1 A1 1, H2 K2 A2 2, H3 K3 A3 3);
	macro_rules! prefixes {
		([$($h:ident $k:ident),*], [$($pk:ident),*], $suffix:ty, $b:ident => $dec:expr) => {
			impl<$($h: ReversibleStorageHasher, $k: FullCodec),*> HasKeyPrefix<($($pk,)*)> for ($(Key<$h, $k>,)*) {
				type Suffix = $suffix;
				fn decode_suffix($b: &mut &[u8]) -> Option<$suffix> { $dec }
			}
		}
	}
	prefixes!([H0 K0, H1 K1], [K0], K1, b => dec1::<H1, K1>(b));
	prefixes!([H0 K0, H1 K1, H2 K2], [K0], (K1, K2), b => Some((dec1::<H1, K1>(b)?, dec1::<H2, K2>(b)?)));
	prefixes!([H0 K0, H1 K1, H2 K2], [K0, K1], K2, b => dec1::<H2, K2>(b));
	prefixes!([H0 K0, H1 K1, H2 K2, H3 K3], [K0], (K1, K2, K3), b => Some((dec1::<H1, K1>(b)?, dec1::<H2, K2>(b)?, dec1::<H3, K3>(b)?)));
	prefixes!([H0 K0, H1 K1, H2 K2, H3 K3], [K0, K1], (K2, K3), b => Some((dec1::<H2, K2>(b)?, dec1::<H3, K3>(b)?)));
	prefixes!([H0 K0, H1 K1, H2 K2, H3 K3], [K0, K1, K2], K3, b => dec1::<H3, K3>(b));
	pub struct StorageNMap<P, G, V, Q = OptionQuery, O = GetDefault, M = GetDefault>(PhantomData<(P, G, V, Q, O, M)>);
	impl<P: StorageInstance, G: KeyGenerator, V: FullCodec, Q: QueryKindTrait<V, O>, O, M> StorageNMap<P, G, V, Q, O, M> {
		fn k(k: impl TupleToEncodedIter) -> Vec<u8> {
			let parts: Vec<_> = k.to_encoded_iter().collect();
			cat(&[&base::<P>(), &G::final_key_parts(&parts)])
		}
		pub fn contains_key<A: EncodeLikeTuple<G::KArg> + TupleToEncodedIter>(a: A) -> bool {
			raw::exists(&Self::k(a))
		}
		pub fn get<A: EncodeLikeTuple<G::KArg> + TupleToEncodedIter>(a: A) -> Q::Query {
			Q::from_opt(unhashed::get(&Self::k(a)))
		}
		pub fn try_get<A: EncodeLikeTuple<G::KArg> + TupleToEncodedIter>(a: A) -> Result<V, ()> {
			unhashed::get(&Self::k(a)).ok_or(())
		}
		pub fn insert<A: EncodeLikeTuple<G::KArg> + TupleToEncodedIter, B: EncodeLike<V>>(a: A, v: B) {
			unhashed::put(&Self::k(a), &v)
		}
		pub fn set<A: EncodeLikeTuple<G::KArg> + TupleToEncodedIter>(a: A, q: Q::Query) {
			inf(mutate_q::<V, Q, O, (), Inf>(&Self::k(a), |x| {
				*x = q;
				Ok(())
			}))
		}
		pub fn remove<A: EncodeLikeTuple<G::KArg> + TupleToEncodedIter>(a: A) {
			unhashed::kill(&Self::k(a))
		}
		pub fn take<A: EncodeLikeTuple<G::KArg> + TupleToEncodedIter>(a: A) -> Q::Query {
			Q::from_opt(unhashed::take(&Self::k(a)))
		}
		pub fn mutate<A: EncodeLikeTuple<G::KArg> + TupleToEncodedIter, R>(a: A, f: impl FnOnce(&mut Q::Query) -> R) -> R {
			inf(mutate_q::<V, Q, O, R, Inf>(&Self::k(a), |q| Ok(f(q))))
		}
		pub fn try_mutate<A: EncodeLikeTuple<G::KArg> + TupleToEncodedIter, R, E>(a: A, f: impl FnOnce(&mut Q::Query) -> Result<R, E>) -> Result<R, E> {
			mutate_q::<V, Q, O, R, E>(&Self::k(a), f)
		}
		pub fn hashed_key_for<A: EncodeLikeTuple<G::KArg> + TupleToEncodedIter>(a: A) -> Vec<u8> {
			Self::k(a)
		}
		pub fn mutate_exists<A: EncodeLikeTuple<G::KArg> + TupleToEncodedIter, R, F: FnOnce(&mut Option<V>) -> R>(a: A, f: F) -> R {
			inf(mutate_x::<V, R, Inf>(&Self::k(a), |q| Ok(f(q))))
		}
		pub fn try_mutate_exists<A: EncodeLikeTuple<G::KArg> + TupleToEncodedIter, R, E, F: FnOnce(&mut Option<V>) -> Result<R, E>>(a: A, f: F) -> Result<R, E> {
			mutate_x::<V, R, E>(&Self::k(a), f)
		}
		pub fn mutate_extant<A: EncodeLikeTuple<G::KArg> + TupleToEncodedIter, R: Default, F: FnOnce(&mut V) -> R>(a: A, f: F) -> R {
			Self::mutate_exists(a, |q| q.as_mut().map(f).unwrap_or_default())
		}
		pub fn append<Item: Encode, A: EncodeLikeTuple<G::KArg> + TupleToEncodedIter>(a: A, item: Item)
		where
			V: StorageAppend<Item>,
		{
			append_raw(&Self::k(a), item)
		}
		pub fn try_append<A: EncodeLikeTuple<G::KArg> + TupleToEncodedIter, Item: Encode>(a: A, item: Item) -> Result<(), ()>
		where
			V: TryAppend<Item>,
		{
			let k = Self::k(a);
			if encoded_len(&k).unwrap_or(0) < <V as TryAppend<Item>>::bound() {
				append_raw(&k, item);
				Ok(())
			} else {
				Err(())
			}
		}
		pub fn decode_len<A: EncodeLikeTuple<G::KArg> + TupleToEncodedIter>(a: A) -> Option<usize> {
			encoded_len(&Self::k(a))
		}
		pub fn swap<A: EncodeLikeTuple<G::KArg> + TupleToEncodedIter, B: EncodeLikeTuple<G::KArg> + TupleToEncodedIter>(a: A, b: B) {
			swap_raw(&Self::k(a), &Self::k(b))
		}
		pub fn clear(limit: u32, _c: Option<&[u8]>) -> MultiRemovalResults {
			unhashed::clear_prefix(&base::<P>(), Some(limit))
		}
		pub fn remove_all(limit: Option<u32>) {
			unhashed::clear_prefix(&base::<P>(), limit);
		}
		pub fn remove_prefix<A: TupleToEncodedIter>(a: A, limit: Option<u32>)
		where
			G: HasKeyPrefix<A>,
		{
			unhashed::clear_prefix(&Self::k(a), limit);
		}
		pub fn contains_prefix<A: TupleToEncodedIter>(a: A) -> bool
		where
			G: HasKeyPrefix<A>,
		{
			unhashed::contains_prefixed_key(&Self::k(a))
		}
		pub fn iter_key_prefix<A>(a: A) -> PrefixIterator<<G as HasKeyPrefix<A>>::Suffix>
		where
			G: HasKeyPrefix<A>,
			A: TupleToEncodedIter,
		{
			PrefixIterator::new(Self::k(a), |k, _| <G as HasKeyPrefix<A>>::decode_suffix(&mut &k[..]))
		}
		pub fn drain_prefix<A>(a: A) -> PrefixIterator<(<G as HasKeyPrefix<A>>::Suffix, V)>
		where
			G: HasKeyPrefix<A>,
			A: TupleToEncodedIter,
		{
			Self::iter_prefix(a).drain()
		}
		pub fn translate_values<Old: Decode, F: FnMut(Old) -> Option<V>>(f: F) {
			translate_all(&base::<P>(), f)
		}
		pub fn translate<Old: Decode, F: FnMut(G::Key, Old) -> Option<V>>(mut f: F) {
			for k in raw::keys_with_prefix(&base::<P>()) {
				match f(G::decode_key(&mut &k[32..]).unwrap(), unhashed::get(&k).unwrap()) {
					Some(n) => unhashed::put(&k, &n),
					None => unhashed::kill(&k),
				}
			}
		}
		pub fn iter_from(k: Vec<u8>) -> PrefixIterator<(G::Key, V)> {
			Self::iter().from(k)
		}
		pub fn iter_prefix<A>(a: A) -> PrefixIterator<(<G as HasKeyPrefix<A>>::Suffix, V)>
		where
			G: HasKeyPrefix<A>,
			A: TupleToEncodedIter,
		{
			PrefixIterator::new(Self::k(a), |k, v| Some((<G as HasKeyPrefix<A>>::decode_suffix(&mut &k[..])?, V::decode(&mut &v[..]).ok()?)))
		}
		pub fn iter_prefix_values<A>(a: A) -> PrefixIterator<V>
		where
			G: HasKeyPrefix<A>,
			A: TupleToEncodedIter,
		{
			PrefixIterator::new(Self::k(a), |_, v| V::decode(&mut &v[..]).ok())
		}
		pub fn clear_prefix<A: TupleToEncodedIter>(a: A, limit: u32, _c: Option<&[u8]>) -> MultiRemovalResults
		where
			G: HasKeyPrefix<A>,
		{
			unhashed::clear_prefix(&Self::k(a), Some(limit))
		}
		pub fn iter() -> PrefixIterator<(G::Key, V)> {
			PrefixIterator::new(base::<P>(), |k, v| Some((G::decode_key(&mut &k[..])?, V::decode(&mut &v[..]).ok()?)))
		}
		pub fn iter_keys_from(k: Vec<u8>) -> PrefixIterator<G::Key> {
			Self::iter_keys().from(k)
		}
		pub fn iter_keys() -> PrefixIterator<G::Key> {
			PrefixIterator::new(base::<P>(), |k, _| G::decode_key(&mut &k[..]))
		}
		pub fn iter_values() -> PrefixIterator<V> {
			PrefixIterator::new(base::<P>(), |_, v| V::decode(&mut &v[..]).ok())
		}
		pub fn drain() -> PrefixIterator<(G::Key, V)> {
			Self::iter().drain()
		}
	}
	// prefixes, as the generator traits expose them
	macro_rules! gen_traits { ($tr:ident, [$($g:tt)*], $t:ty, $p:ident) => {
		impl<$($g)*> super::generator::$tr for $t {
			fn pallet_prefix() -> &'static [u8] { $p::pallet_prefix().as_bytes() }
			fn storage_prefix() -> &'static [u8] { $p::STORAGE_PREFIX.as_bytes() }
			fn prefix_hash() -> [u8; 32] { super::storage_prefix($p::pallet_prefix().as_bytes(), $p::STORAGE_PREFIX.as_bytes()) }
		}
	} }
	gen_traits!(StorageValue, [P: StorageInstance, V, Q, O], StorageValue<P, V, Q, O>, P);
	gen_traits!(StorageMap, [P: StorageInstance, H, K, V, Q, O, M], StorageMap<P, H, K, V, Q, O, M>, P);
	gen_traits!(StorageDoubleMap, [P: StorageInstance, H1, K1, H2, K2, V, Q, O, M], StorageDoubleMap<P, H1, K1, H2, K2, V, Q, O, M>, P);
	#[allow(unused)]
	fn _uses<T: EncodeAppend>() {}
}
pub mod generator {
	macro_rules! g { ($($n:ident),*) => {$(
		pub trait $n {
			fn pallet_prefix() -> &'static [u8];
			fn storage_prefix() -> &'static [u8];
			fn prefix_hash() -> [u8; 32];
		}
	)*} }
	g!(StorageValue, StorageMap, StorageDoubleMap);
}
pub use types::{CountedStorageMap, StorageDoubleMap, StorageMap, StorageNMap, StorageValue};

pub mod child {
	use super::*;
	pub use crate::sp_core::storage::ChildInfo;
	use crate::io::default_child_storage as c;
	pub fn get_raw(i: &ChildInfo, k: &[u8]) -> Option<Vec<u8>> {
		c::get(i.storage_key(), k)
	}
	pub fn put_raw(i: &ChildInfo, k: &[u8], v: &[u8]) {
		c::set(i.storage_key(), k, v)
	}
	pub fn kill(i: &ChildInfo, k: &[u8]) {
		c::clear(i.storage_key(), k)
	}
	pub fn exists(i: &ChildInfo, k: &[u8]) -> bool {
		c::exists(i.storage_key(), k)
	}
	pub fn get<T: Decode>(i: &ChildInfo, k: &[u8]) -> Option<T> {
		get_raw(i, k).and_then(|v| T::decode(&mut &v[..]).ok())
	}
	pub fn put<T: Encode>(i: &ChildInfo, k: &[u8], v: &T) {
		put_raw(i, k, &v.encode())
	}
	pub fn get_or_default<T: Decode + Default>(i: &ChildInfo, k: &[u8]) -> T {
		get(i, k).unwrap_or_default()
	}
	pub fn get_or<T: Decode>(i: &ChildInfo, k: &[u8], d: T) -> T {
		get(i, k).unwrap_or(d)
	}
	pub fn get_or_else<T: Decode, F: FnOnce() -> T>(i: &ChildInfo, k: &[u8], f: F) -> T {
		get(i, k).unwrap_or_else(f)
	}
	pub fn take<T: Decode>(i: &ChildInfo, k: &[u8]) -> Option<T> {
		let r = get(i, k);
		if r.is_some() {
			kill(i, k)
		}
		r
	}
	pub fn take_or_default<T: Decode + Default>(i: &ChildInfo, k: &[u8]) -> T {
		take(i, k).unwrap_or_default()
	}
	pub fn take_or<T: Decode>(i: &ChildInfo, k: &[u8], d: T) -> T {
		take(i, k).unwrap_or(d)
	}
	pub fn kill_storage(i: &ChildInfo, limit: Option<u32>) -> crate::io::KillStorageResult {
		let r = clear_storage(i, limit, None);
		match r.maybe_cursor {
			None => crate::io::KillStorageResult::AllRemoved(r.backend),
			Some(_) => crate::io::KillStorageResult::SomeRemaining(r.backend),
		}
	}
	pub fn len(i: &ChildInfo, k: &[u8]) -> Option<u32> {
		get_raw(i, k).map(|v| v.len() as u32)
	}
	pub fn clear_storage(i: &ChildInfo, limit: Option<u32>, _c: Option<&[u8]>) -> MultiRemovalResults {
		let ks = c::keys(i.storage_key());
		let n = limit.map_or(ks.len(), |l| (l as usize).min(ks.len()));
		for k in &ks[..n] {
			c::clear(i.storage_key(), k)
		}
		MultiRemovalResults { maybe_cursor: ks.get(n).cloned(), backend: n as u32, unique: n as u32, loops: n as u32 }
	}
}
pub struct ChildTriePrefixIterator<T> {
	child: child::ChildInfo,
	prefix: Vec<u8>,
	prev: Vec<u8>,
	first: bool,
	drain: bool,
	f: fn(&[u8], &[u8]) -> Option<T>,
}
impl<T: Decode + Sized> ChildTriePrefixIterator<(Vec<u8>, T)> {
	pub fn with_prefix(c: &child::ChildInfo, prefix: &[u8]) -> Self {
		ChildTriePrefixIterator {
			child: c.clone(),
			prefix: prefix.to_vec(),
			prev: prefix.to_vec(),
			first: true,
			drain: false,
			f: |k, v| Some((k.to_vec(), T::decode(&mut &v[..]).ok()?)),
		}
	}
}
impl<K: Decode, T: Decode> ChildTriePrefixIterator<(K, T)> {
	pub fn with_prefix_over_key<H: ReversibleStorageHasher>(c: &child::ChildInfo, prefix: &[u8]) -> Self {
		ChildTriePrefixIterator {
			child: c.clone(),
			prefix: prefix.to_vec(),
			prev: prefix.to_vec(),
			first: true,
			drain: false,
			f: |k, v| Some((K::decode(&mut H::reverse(k)).ok()?, T::decode(&mut &v[..]).ok()?)),
		}
	}
}
impl<T> ChildTriePrefixIterator<T> {
	pub fn drain(mut self) -> Self {
		self.drain = true;
		self
	}
}
impl<T> Iterator for ChildTriePrefixIterator<T> {
	type Item = T;
	fn next(&mut self) -> Option<T> {
		use crate::io::default_child_storage as c;
		loop {
			let id = self.child.storage_key().to_vec();
			let k = if self.first && c::exists(&id, &self.prefix) {
				Some(self.prefix.clone())
			} else {
				c::next_key(&id, &self.prev).filter(|k| k.starts_with(&self.prefix))
			}?;
			self.first = false;
			let v = c::get(&id, &k)?;
			self.prev = k;
			if self.drain {
				c::clear(&id, &self.prev)
			}
			if let Some(x) = (self.f)(&self.prev[self.prefix.len()..], &v) {
				return Some(x)
			}
		}
	}
}
