//! the storage types against a plain map, one operation at a time
use crate::frame_support::{pallet_prelude::*, traits::*, *};
use crate::io::TestExternalities as Ext;
struct P1;
impl StorageInstance for P1 {
	fn pallet_prefix() -> &'static str {
		"Api"
	}
	const STORAGE_PREFIX: &'static str = "One";
}
type M = StorageMap<P1, Twox64Concat, u16, u32>;
type MV = StorageMap<P1, Blake2_128Concat, u16, u32, ValueQuery>;
type MB = StorageMap<P1, Twox64Concat, u16, BoundedVec<u8, ConstU32<2>>, ValueQuery>;
type D = StorageDoubleMap<P1, Twox64Concat, u8, Blake2_128Concat, u16, u32>;
type N = StorageNMap<P1, (NMapKey<Twox64Concat, u8>, NMapKey<Twox64Concat, u16>), u32>;
type C = CountedStorageMap<P1, Twox64Concat, u16, u32>;
#[test]
fn maps() {
	Ext::new_empty().execute_with(|| {
		M::insert(1, 10);
		M::insert(2, 20);
		assert_eq!(M::mutate_extant(1, |v| { *v += 1; *v }), 11);
		assert_eq!(M::mutate_extant(9, |v| *v), 0);
		assert!(!M::contains_key(9));
		M::swap(1, 2);
		assert_eq!((M::get(1), M::get(2)), (Some(20), Some(11)));
		M::translate_values(|v: u32| (v != 11).then(|| v + 1));
		assert_eq!((M::get(1), M::get(2)), (Some(21), None));
		M::extend([(3u16, 3u32), (4, 4)]);
		let all: Vec<_> = M::iter().collect();
		let from: Vec<_> = M::iter_from_key(all[0].0).collect();
		assert_eq!(from, all[1..].to_vec());
		assert_eq!(M::iter_keys_from(M::hashed_key_for(all[0].0)).count(), 2);
		M::remove_all(None);
		assert_eq!(M::iter().count(), 0);
		M::insert(7, 70);
		assert_eq!(MV::migrate_key::<Twox64Concat, _>(7), Some(70));
		assert_eq!(MV::get(7), 70);
		assert_eq!(MV::take(7), 70);
		assert!(MB::try_append(1, 5u8).is_ok() && MB::try_append(1, 6u8).is_ok() && MB::try_append(1, 7u8).is_err());
		assert_eq!(MB::decode_len(1), Some(2));
		MB::remove(1);
	});
}
#[test]
fn double_and_n() {
	Ext::new_empty().execute_with(|| {
		D::insert(1, 2, 12);
		D::insert(1, 3, 13);
		D::insert(2, 2, 22);
		D::swap(1, 2, 2, 2);
		assert_eq!((D::get(1, 2), D::get(2, 2)), (Some(22), Some(12)));
		assert!(D::contains_prefix(1) && !D::contains_prefix(3));
		let p: Vec<_> = D::iter_prefix(1).collect();
		assert_eq!(D::iter_prefix_from(1, D::hashed_key_for(1, p[0].0)).collect::<Vec<_>>(), p[1..].to_vec());
		assert_eq!(D::iter_key_prefix_from(1, D::hashed_key_for(1, p[0].0)).count(), 1);
		D::translate(|_, k2, v: u32| (k2 == 2).then(|| v * 2));
		assert_eq!((D::get(1, 2), D::get(1, 3), D::get(2, 2)), (Some(44), None, Some(24)));
		assert_eq!(D::mutate_extant(1, 2, |v| *v), 44);
		let _ = D::clear(9, None);
		N::insert((1, 2), 12);
		N::insert((1, 3), 13);
		assert_eq!(N::mutate_exists((1, 2), |v| v.take()), Some(12));
		assert_eq!(N::try_mutate_exists::<_, (), (), _>((1, 3), |v| { *v = None; Err(()) }), Err(()));
		assert_eq!(N::get((1, 3)), Some(13));
		N::insert((2, 1), 21);
		assert_eq!(N::iter_key_prefix((1,)).collect::<Vec<_>>(), vec![3]);
		assert!(N::contains_prefix((2,)));
		N::swap((1, 3), (2, 1));
		assert_eq!(N::drain_prefix((1,)).collect::<Vec<_>>(), vec![(3, 21)]);
		N::translate(|_, v: u32| Some(v + 1));
		assert_eq!(N::get((2, 1)), Some(14));
		assert_eq!(N::hashed_key_for((2, 1)).len(), 32 + 9 + 10);
	});
}
#[test]
fn counted() {
	Ext::new_empty().execute_with(|| {
		C::set(1, Some(1));
		C::set(2, Some(2));
		C::set(2, None);
		C::insert(3, 3);
		assert_eq!(C::count(), 2);
		C::swap(1, 9);
		assert_eq!((C::count(), C::get(9)), (2, Some(1)));
		assert_eq!(C::drain().count(), 2);
		assert_eq!(C::count(), 0);
		C::insert(3, 3);
		C::remove_all();
		assert_eq!((C::count(), C::iter().count()), (0, 0));
	});
}
#[test]
fn bounded() {
	type B = BoundedVec<u8, ConstU32<3>>;
	let mut b: B = bounded_vec![3, 1, 2];
	b.sort_by_key(|x| *x);
	assert_eq!(b.force_insert_keep_left(0, 0), Ok(Some(3)));
	assert_eq!(b.force_insert_keep_right(1, 9), Ok(Some(0)));
	assert_eq!(b.as_slice(), &[9, 1, 2]);
	let m = b.clone().map(|x| x as u16 + 1);
	assert_eq!(m.to_vec(), vec![10, 2, 3]);
	assert_eq!(Some(1u8).defensive_ok_or(()), Ok(1));
	let mut s: BoundedBTreeSet<u8, ConstU32<1>> = bounded_btree_set![1];
	assert_eq!(s.try_insert(2), Err(2));
	s.retain(|_| false);
	assert!(!s.is_full());
}
