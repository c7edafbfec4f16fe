//! Bounded collections.
use crate::codec::*;
use crate::frame_support::traits::Get;
use crate::scale_info::{Type, TypeInfo};
use std::collections::{BTreeMap, BTreeSet};
use std::marker::PhantomData;
use std::ops::{Deref, Index, IndexMut};

macro_rules! bvec {
	($n:ident, $strict:expr) => {
		pub struct $n<T, S>(Vec<T>, PhantomData<S>);
		unsafe impl<T: Send, S> Send for $n<T, S> {}
		unsafe impl<T: Sync, S> Sync for $n<T, S> {}
		impl<T: Clone, S> Clone for $n<T, S> {
			fn clone(&self) -> Self {
				Self(self.0.clone(), PhantomData)
			}
		}
		impl<T: std::fmt::Debug, S: Get<u32>> std::fmt::Debug for $n<T, S> {
			fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
				f.debug_tuple(stringify!($n)).field(&self.0).field(&S::get()).finish()
			}
		}
		impl<T, S> Default for $n<T, S> {
			fn default() -> Self {
				Self(vec![], PhantomData)
			}
		}
		impl<T: PartialEq, S, S2> PartialEq<$n<T, S2>> for $n<T, S> {
			fn eq(&self, o: &$n<T, S2>) -> bool {
				self.0 == o.0
			}
		}
		impl<T: PartialEq, S> PartialEq<Vec<T>> for $n<T, S> {
			fn eq(&self, o: &Vec<T>) -> bool {
				&self.0 == o
			}
		}
		impl<'a, T: PartialEq, S> PartialEq<&'a [T]> for $n<T, S> {
			fn eq(&self, o: &&'a [T]) -> bool {
				&self.0[..] == *o
			}
		}
		impl<T: Eq, S> Eq for $n<T, S> {}
		impl<T: PartialOrd, S> PartialOrd for $n<T, S> {
			fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
				self.0.partial_cmp(&o.0)
			}
		}
		impl<T: Ord, S> Ord for $n<T, S> {
			fn cmp(&self, o: &Self) -> std::cmp::Ordering {
				self.0.cmp(&o.0)
			}
		}
		impl<T: std::hash::Hash, S> std::hash::Hash for $n<T, S> {
			fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
				self.0.hash(h)
			}
		}
		impl<T, S> Deref for $n<T, S> {
			type Target = Vec<T>;
			fn deref(&self) -> &Vec<T> {
				&self.0
			}
		}
		impl<T, S> AsRef<Vec<T>> for $n<T, S> {
			fn as_ref(&self) -> &Vec<T> {
				&self.0
			}
		}
		impl<T, S> AsRef<[T]> for $n<T, S> {
			fn as_ref(&self) -> &[T] {
				&self.0
			}
		}
		impl<T, S> AsMut<[T]> for $n<T, S> {
			fn as_mut(&mut self) -> &mut [T] {
				&mut self.0
			}
		}
		impl<T, S, I: std::slice::SliceIndex<[T]>> Index<I> for $n<T, S> {
			type Output = I::Output;
			fn index(&self, i: I) -> &I::Output {
				&self.0[i]
			}
		}
		impl<T, S, I: std::slice::SliceIndex<[T]>> IndexMut<I> for $n<T, S> {
			fn index_mut(&mut self, i: I) -> &mut I::Output {
				&mut self.0[i]
			}
		}
		impl<T, S> IntoIterator for $n<T, S> {
			type Item = T;
			type IntoIter = std::vec::IntoIter<T>;
			fn into_iter(self) -> Self::IntoIter {
				self.0.into_iter()
			}
		}
		impl<'a, T, S> IntoIterator for &'a $n<T, S> {
			type Item = &'a T;
			type IntoIter = std::slice::Iter<'a, T>;
			fn into_iter(self) -> Self::IntoIter {
				self.0.iter()
			}
		}
		impl<'a, T, S> IntoIterator for &'a mut $n<T, S> {
			type Item = &'a mut T;
			type IntoIter = std::slice::IterMut<'a, T>;
			fn into_iter(self) -> Self::IntoIter {
				self.0.iter_mut()
			}
		}
		impl<T, S> From<$n<T, S>> for Vec<T> {
			fn from(b: $n<T, S>) -> Vec<T> {
				b.0
			}
		}
		impl<T, S: Get<u32>> TryFrom<Vec<T>> for $n<T, S> {
			type Error = Vec<T>;
			fn try_from(v: Vec<T>) -> Result<Self, Vec<T>> {
				if v.len() <= S::get() as usize {
					Ok(Self(v, PhantomData))
				} else {
					Err(v)
				}
			}
		}
		impl<T: Encode, S> Encode for $n<T, S> {
			fn size_hint(&self) -> usize {
				self.0.size_hint()
			}
			fn encode_to<W: Output + ?Sized>(&self, d: &mut W) {
				self.0.encode_to(d)
			}
		}
		impl<T: Encode, S> EncodeLike for $n<T, S> {}
		impl<T: Encode, S> EncodeLike<Vec<T>> for $n<T, S> {}
		impl<T: Decode, S: Get<u32>> Decode for $n<T, S> {
			fn decode<I: Input>(i: &mut I) -> Result<Self, Error> {
				let v: Vec<T> = Vec::decode(i)?;
				if $strict && v.len() > S::get() as usize {
					return Err(concat!(stringify!($n), " exceeds its limit").into())
				}
				Ok(Self(v, PhantomData))
			}
		}
		impl<T: MaxEncodedLen, S: Get<u32>> MaxEncodedLen for $n<T, S> {
			fn max_encoded_len() -> usize {
				Compact(S::get()).encode().len().saturating_add((S::get() as usize).saturating_mul(T::max_encoded_len()))
			}
		}
		impl<T: TypeInfo, S> TypeInfo for $n<T, S> {
			type Identity = Self;
			fn type_info() -> Type {
				Type::named(stringify!($n))
			}
		}
		impl<T: serde::Serialize, S> serde::Serialize for $n<T, S> {
			fn serialize<Z: serde::Serializer>(&self, s: Z) -> Result<Z::Ok, Z::Error> {
				self.0.serialize(s)
			}
		}
		impl<'de, T: serde::Deserialize<'de>, S: Get<u32>> serde::Deserialize<'de> for $n<T, S> {
			fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
				let v = Vec::<T>::deserialize(d)?;
				Self::try_from(v).map_err(|_| serde::de::Error::custom("out of bounds"))
			}
		}
		impl<T, S> $n<T, S> {
			pub const fn new() -> Self {
				Self(Vec::new(), PhantomData)
			}
			pub fn into_inner(self) -> Vec<T> {
				self.0
			}
			pub fn remove(&mut self, i: usize) -> T {
				self.0.remove(i)
			}
			pub fn swap_remove(&mut self, i: usize) -> T {
				self.0.swap_remove(i)
			}
			pub fn retain<F: FnMut(&T) -> bool>(&mut self, f: F) {
				self.0.retain(f)
			}
			pub fn drain<R: std::ops::RangeBounds<usize>>(&mut self, r: R) -> std::vec::Drain<'_, T> {
				self.0.drain(r)
			}
			pub fn iter_mut(&mut self) -> std::slice::IterMut<'_, T> {
				self.0.iter_mut()
			}
			pub fn last_mut(&mut self) -> Option<&mut T> {
				self.0.last_mut()
			}
			pub fn get_mut<I: std::slice::SliceIndex<[T]>>(&mut self, i: I) -> Option<&mut I::Output> {
				self.0.get_mut(i)
			}
			pub fn truncate(&mut self, n: usize) {
				self.0.truncate(n)
			}
			pub fn pop(&mut self) -> Option<T> {
				self.0.pop()
			}
			pub fn clear(&mut self) {
				self.0.clear()
			}
			pub fn sort(&mut self)
			where
				T: Ord,
			{
				self.0.sort()
			}
			pub fn sort_by<F: FnMut(&T, &T) -> std::cmp::Ordering>(&mut self, f: F) {
				self.0.sort_by(f)
			}
			pub fn sort_by_key<K: Ord, F: FnMut(&T) -> K>(&mut self, f: F) {
				self.0.sort_by_key(f)
			}
			pub fn sort_by_cached_key<K: Ord, F: FnMut(&T) -> K>(&mut self, f: F) {
				self.0.sort_by_cached_key(f)
			}
			pub fn as_mut_slice(&mut self) -> &mut [T] {
				&mut self.0
			}
			pub fn as_slice(&self) -> &[T] {
				&self.0
			}
		}
		impl<'a, T, S> From<&'a $n<T, S>> for &'a [T] {
			fn from(b: &'a $n<T, S>) -> &'a [T] {
				&b.0
			}
		}
		impl<T, S: Get<u32>> $n<T, S> {
			pub fn bound() -> usize {
				S::get() as usize
			}
			pub fn is_full(&self) -> bool {
				self.0.len() >= Self::bound()
			}
			pub fn with_bounded_capacity(c: usize) -> Self {
				Self(Vec::with_capacity(c.min(Self::bound())), PhantomData)
			}
			pub fn truncate_from(mut v: Vec<T>) -> Self {
				v.truncate(Self::bound());
				Self(v, PhantomData)
			}
			pub fn unchecked_from(v: Vec<T>) -> Self {
				Self(v, PhantomData)
			}
			pub fn try_push(&mut self, t: T) -> Result<(), T> {
				if self.0.len() < Self::bound() {
					self.0.push(t);
					Ok(())
				} else {
					Err(t)
				}
			}
			pub fn force_push(&mut self, t: T) {
				self.try_push(t).ok().expect("bounded vector is full")
			}
			pub fn try_insert(&mut self, i: usize, t: T) -> Result<(), T> {
				if self.0.len() < Self::bound() {
					self.0.insert(i, t);
					Ok(())
				} else {
					Err(t)
				}
			}
			pub fn try_extend(&mut self, it: impl IntoIterator<Item = T> + ExactSizeIterator) -> Result<(), ()> {
				if self.0.len().saturating_add(it.len()) <= Self::bound() {
					self.0.extend(it);
					Ok(())
				} else {
					Err(())
				}
			}
			pub fn try_append(&mut self, o: &mut Vec<T>) -> Result<(), ()> {
				if self.0.len().saturating_add(o.len()) <= Self::bound() {
					self.0.append(o);
					Ok(())
				} else {
					Err(())
				}
			}
			pub fn try_mutate(mut self, mut f: impl FnMut(&mut Vec<T>)) -> Option<Self> {
				f(&mut self.0);
				(self.0.len() <= Self::bound()).then(|| self)
			}
			pub fn with_max_capacity() -> Self {
				Self::with_bounded_capacity(Self::bound())
			}
			pub fn try_from_iter(it: impl ExactSizeIterator + Iterator<Item = T>) -> Result<Self, ()> {
				Self::try_from(it.collect::<Vec<_>>()).map_err(|_| ())
			}
			pub fn try_rotate_left(&mut self, m: usize) -> Result<(), ()> {
				(m <= self.0.len()).then(|| self.0.rotate_left(m)).ok_or(())
			}
			pub fn try_rotate_right(&mut self, m: usize) -> Result<(), ()> {
				(m <= self.0.len()).then(|| self.0.rotate_right(m)).ok_or(())
			}
			pub fn bounded_resize(&mut self, size: usize, value: T)
			where
				T: Clone,
			{
				self.0.resize(size.min(Self::bound()), value)
			}
			/// keep the left side, dropping the rightmost item when full
			pub fn force_insert_keep_left(&mut self, index: usize, element: T) -> Result<Option<T>, ()> {
				if Self::bound() < index || self.0.len() < index || Self::bound() == 0 || (Self::bound() == index && self.is_full()) {
					return Err(())
				}
				let removed = if self.is_full() { self.0.pop() } else { None };
				self.0.insert(index, element);
				Ok(removed)
			}
			/// keep the right side, dropping the leftmost item when full
			pub fn force_insert_keep_right(&mut self, index: usize, mut element: T) -> Result<Option<T>, ()> {
				if Self::bound() == 0 || self.0.len() < index {
					return Err(())
				}
				if self.is_full() {
					if index == 0 {
						return Err(())
					}
					std::mem::swap(&mut self.0[0], &mut element);
					self.0[0..index].rotate_left(1);
					Ok(Some(element))
				} else {
					self.0.insert(index, element);
					Ok(None)
				}
			}
			pub fn map<F: FnMut(T) -> O, O>(self, f: F) -> $n<O, S> {
				$n(self.0.into_iter().map(f).collect(), PhantomData)
			}
			pub fn try_map<F: FnMut(T) -> Result<O, E>, O, E>(self, f: F) -> Result<$n<O, S>, E> {
				Ok($n(self.0.into_iter().map(f).collect::<Result<Vec<_>, E>>()?, PhantomData))
			}
			pub fn try_collect<I: IntoIterator<Item = T>>(it: I) -> Result<Self, Vec<T>> {
				Self::try_from(it.into_iter().collect::<Vec<_>>())
			}
		}
	};
}
bvec!(BoundedVec, true);
bvec!(WeakBoundedVec, false);
impl<T, S: Get<u32>> WeakBoundedVec<T, S> {
	pub fn force_from(v: Vec<T>, _s: Option<&'static str>) -> Self {
		Self(v, PhantomData)
	}
}
impl<T, S: Get<u32>, const N: usize> TryFrom<[T; N]> for BoundedVec<T, S> {
	type Error = ();
	fn try_from(v: [T; N]) -> Result<Self, ()> {
		Self::try_from(Vec::from(v)).map_err(|_| ())
	}
}
impl<T: PartialEq, S, const N: usize> PartialEq<[T; N]> for BoundedVec<T, S> {
	fn eq(&self, o: &[T; N]) -> bool {
		self.0[..] == o[..]
	}
}
impl<T: Encode, S: Get<u32>> DecodeLength for BoundedVec<T, S> {
	fn len(s: &[u8]) -> Result<usize, Error> {
		<Vec<T> as DecodeLength>::len(s)
	}
}
pub trait TryCollect<C> {
	type Error;
	fn try_collect(self) -> Result<C, Self::Error>;
}
impl<I: ExactSizeIterator + Iterator, S: Get<u32>> TryCollect<BoundedVec<I::Item, S>> for I {
	type Error = &'static str;
	fn try_collect(self) -> Result<BoundedVec<I::Item, S>, &'static str> {
		BoundedVec::try_from(self.collect::<Vec<_>>()).map_err(|_| "iterator length too big")
	}
}

pub struct BoundedBTreeMap<K, V, S>(BTreeMap<K, V>, PhantomData<S>);
pub struct BoundedBTreeSet<K, S>(BTreeSet<K>, PhantomData<S>);
unsafe impl<K: Send, V: Send, S> Send for BoundedBTreeMap<K, V, S> {}
unsafe impl<K: Sync, V: Sync, S> Sync for BoundedBTreeMap<K, V, S> {}
unsafe impl<K: Send, S> Send for BoundedBTreeSet<K, S> {}
unsafe impl<K: Sync, S> Sync for BoundedBTreeSet<K, S> {}
macro_rules! btree {
	([$($g:tt)*] $n:ty, $inner:ty, $name:expr, [$($clone:tt)*], [$($eq:tt)*], [$($dbg:tt)*], [$($enc:tt)*], [$($dec:tt)*], [$($ti:tt)*]) => {
		impl<$($clone)*> Clone for $n { fn clone(&self) -> Self { Self(self.0.clone(), PhantomData) } }
		impl<$($eq)*> PartialEq for $n { fn eq(&self, o: &Self) -> bool { self.0 == o.0 } }
		impl<$($eq)*> Eq for $n where $inner: Eq {}
		impl<$($dbg)*> std::fmt::Debug for $n { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { self.0.fmt(f) } }
		impl<$($g)*> Deref for $n { type Target = $inner; fn deref(&self) -> &$inner { &self.0 } }
		impl<$($g)*> AsRef<$inner> for $n { fn as_ref(&self) -> &$inner { &self.0 } }
		impl<$($g)*> Default for $n { fn default() -> Self { Self(Default::default(), PhantomData) } }
		impl<$($g)*> From<$n> for $inner { fn from(x: $n) -> $inner { x.0 } }
		impl<$($enc)*> Encode for $n { fn encode_to<W: Output + ?Sized>(&self, d: &mut W) { self.0.encode_to(d) } }
		impl<$($enc)*> EncodeLike for $n {}
		impl<$($dec)*> Decode for $n { fn decode<I: Input>(i: &mut I) -> Result<Self, Error> {
			let m: $inner = Decode::decode(i)?;
			if m.len() > S::get() as usize { return Err("bounded collection exceeds its limit".into()) }
			Ok(Self(m, PhantomData))
		} }
		impl<$($ti)*> TypeInfo for $n { type Identity = Self; fn type_info() -> Type { Type::named($name) } }
	}
}
btree!([K: Ord, V, S] BoundedBTreeMap<K, V, S>, BTreeMap<K, V>, "BoundedBTreeMap", [K: Clone, V: Clone, S], [K: PartialEq, V: PartialEq, S], [K: std::fmt::Debug, V: std::fmt::Debug, S], [K: Encode, V: Encode, S], [K: Decode + Ord, V: Decode, S: Get<u32>], [K, V, S]);
btree!([K: Ord, S] BoundedBTreeSet<K, S>, BTreeSet<K>, "BoundedBTreeSet", [K: Clone, S], [K: PartialEq, S], [K: std::fmt::Debug, S], [K: Encode, S], [K: Decode + Ord, S: Get<u32>], [K, S]);
impl<K: MaxEncodedLen, V: MaxEncodedLen, S: Get<u32>> MaxEncodedLen for BoundedBTreeMap<K, V, S> {
	fn max_encoded_len() -> usize {
		Compact(S::get()).encode().len() + S::get() as usize * (K::max_encoded_len() + V::max_encoded_len())
	}
}
impl<K: MaxEncodedLen, S: Get<u32>> MaxEncodedLen for BoundedBTreeSet<K, S> {
	fn max_encoded_len() -> usize {
		Compact(S::get()).encode().len() + S::get() as usize * K::max_encoded_len()
	}
}
impl<K: Ord, V, S> BoundedBTreeMap<K, V, S> {
	pub fn new() -> Self {
		Self(BTreeMap::new(), PhantomData)
	}
	pub fn into_inner(self) -> BTreeMap<K, V> {
		self.0
	}
	pub fn get_mut<Q: Ord + ?Sized>(&mut self, k: &Q) -> Option<&mut V>
	where
		K: std::borrow::Borrow<Q>,
	{
		self.0.get_mut(k)
	}
	pub fn remove<Q: Ord + ?Sized>(&mut self, k: &Q) -> Option<V>
	where
		K: std::borrow::Borrow<Q>,
	{
		self.0.remove(k)
	}
	pub fn iter_mut(&mut self) -> std::collections::btree_map::IterMut<'_, K, V> {
		self.0.iter_mut()
	}
	pub fn retain<F: FnMut(&K, &mut V) -> bool>(&mut self, f: F) {
		self.0.retain(f)
	}
	pub fn remove_entry<Q: Ord + ?Sized>(&mut self, k: &Q) -> Option<(K, V)>
	where
		K: std::borrow::Borrow<Q>,
	{
		self.0.remove_entry(k)
	}
	pub fn values_mut(&mut self) -> std::collections::btree_map::ValuesMut<'_, K, V> {
		self.0.values_mut()
	}
	pub fn pop_first(&mut self) -> Option<(K, V)> {
		self.0.pop_first()
	}
	pub fn clear(&mut self) {
		self.0.clear()
	}
}
impl<K: Ord, V, S: Get<u32>> BoundedBTreeMap<K, V, S> {
	pub fn bound() -> usize {
		S::get() as usize
	}
	pub fn try_insert(&mut self, k: K, v: V) -> Result<Option<V>, (K, V)> {
		if self.0.len() < Self::bound() || self.0.contains_key(&k) {
			Ok(self.0.insert(k, v))
		} else {
			Err((k, v))
		}
	}
	pub fn try_mutate(mut self, mut f: impl FnMut(&mut BTreeMap<K, V>)) -> Option<Self> {
		f(&mut self.0);
		(self.0.len() <= Self::bound()).then(|| self)
	}
}
impl<K: Ord, V, S: Get<u32>> TryFrom<BTreeMap<K, V>> for BoundedBTreeMap<K, V, S> {
	type Error = ();
	fn try_from(m: BTreeMap<K, V>) -> Result<Self, ()> {
		(m.len() <= Self::bound()).then(|| Self(m, PhantomData)).ok_or(())
	}
}
impl<K: Ord, V, S> IntoIterator for BoundedBTreeMap<K, V, S> {
	type Item = (K, V);
	type IntoIter = std::collections::btree_map::IntoIter<K, V>;
	fn into_iter(self) -> Self::IntoIter {
		self.0.into_iter()
	}
}
impl<'a, K: Ord, V, S> IntoIterator for &'a BoundedBTreeMap<K, V, S> {
	type Item = (&'a K, &'a V);
	type IntoIter = std::collections::btree_map::Iter<'a, K, V>;
	fn into_iter(self) -> Self::IntoIter {
		self.0.iter()
	}
}
impl<K: Ord, S: Get<u32>> BoundedBTreeSet<K, S> {
	pub fn new() -> Self {
		Self(BTreeSet::new(), PhantomData)
	}
	pub fn try_insert(&mut self, k: K) -> Result<bool, K> {
		if self.0.len() < S::get() as usize || self.0.contains(&k) {
			Ok(self.0.insert(k))
		} else {
			Err(k)
		}
	}
	pub fn remove<Q: Ord + ?Sized>(&mut self, k: &Q) -> bool
	where
		K: std::borrow::Borrow<Q>,
	{
		self.0.remove(k)
	}
	pub fn take<Q: Ord + ?Sized>(&mut self, k: &Q) -> Option<K>
	where
		K: std::borrow::Borrow<Q>,
	{
		self.0.take(k)
	}
	pub fn bound() -> usize {
		S::get() as usize
	}
	pub fn is_full(&self) -> bool {
		self.0.len() >= Self::bound()
	}
	pub fn into_inner(self) -> BTreeSet<K> {
		self.0
	}
	pub fn retain<F: FnMut(&K) -> bool>(&mut self, f: F) {
		self.0.retain(f)
	}
	pub fn clear(&mut self) {
		self.0.clear()
	}
	pub fn try_mutate(mut self, mut f: impl FnMut(&mut BTreeSet<K>)) -> Option<Self> {
		f(&mut self.0);
		(self.0.len() <= Self::bound()).then(|| self)
	}
}
impl<K: Ord, S> IntoIterator for BoundedBTreeSet<K, S> {
	type Item = K;
	type IntoIter = std::collections::btree_set::IntoIter<K>;
	fn into_iter(self) -> Self::IntoIter {
		self.0.into_iter()
	}
}
impl<'a, K: Ord, S> IntoIterator for &'a BoundedBTreeSet<K, S> {
	type Item = &'a K;
	type IntoIter = std::collections::btree_set::Iter<'a, K>;
	fn into_iter(self) -> Self::IntoIter {
		self.0.iter()
	}
}
impl<K: Ord, S: Get<u32>> TryFrom<BTreeSet<K>> for BoundedBTreeSet<K, S> {
	type Error = ();
	fn try_from(m: BTreeSet<K>) -> Result<Self, ()> {
		(m.len() <= S::get() as usize).then(|| Self(m, PhantomData)).ok_or(())
	}
}
