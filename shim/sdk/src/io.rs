//! Storage host functions over an in-memory state with transactional layers.
use crate::sp_core::storage::Storage;
use std::any::{Any, TypeId};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::ops::Bound;
use std::rc::Rc;

pub type Map = BTreeMap<Vec<u8>, Vec<u8>>;
#[derive(Clone, Default, PartialEq, Eq, Debug)]
pub struct State {
	pub top: Map,
	pub child: BTreeMap<Vec<u8>, Map>,
	/// pending off-chain index writes
	pub index: BTreeMap<Vec<u8>, Option<Vec<u8>>>,
}
enum Undo {
	Top(Vec<u8>, Option<Vec<u8>>),
	Child(Vec<u8>, Vec<u8>, Option<Vec<u8>>),
	Index(Vec<u8>, Option<Option<Vec<u8>>>),
}
#[derive(Default)]
pub struct Ext {
	pub state: State,
	undo: Vec<Undo>,
	marks: Vec<usize>,
	pub extensions: Rc<RefCell<HashMap<TypeId, Box<dyn Any>>>>,
	pub reads: u64,
}
thread_local! { static EXT: RefCell<Option<Ext>> = RefCell::new(None); }
fn with<R>(f: impl FnOnce(&mut Ext) -> R) -> R {
	EXT.with(|e| f(e.borrow_mut().as_mut().expect("storage accessed outside of externalities")))
}
pub fn is_active() -> bool {
	EXT.with(|e| e.borrow().is_some())
}
impl Ext {
	fn set(&mut self, k: Vec<u8>, v: Option<Vec<u8>>) {
		let old = match v {
			Some(v) => self.state.top.insert(k.clone(), v),
			None => self.state.top.remove(&k),
		};
		if !self.marks.is_empty() {
			self.undo.push(Undo::Top(k, old))
		}
	}
	fn child_set(&mut self, c: &[u8], k: Vec<u8>, v: Option<Vec<u8>>) {
		let old = match v {
			Some(v) => self.state.child.entry(c.to_vec()).or_default().insert(k.clone(), v),
			None => match self.state.child.get_mut(c) {
				Some(m) => {
					let o = m.remove(&k);
					if m.is_empty() {
						self.state.child.remove(c);
					}
					o
				},
				None => None,
			},
		};
		if !self.marks.is_empty() {
			self.undo.push(Undo::Child(c.to_vec(), k, old))
		}
	}
	fn index_set(&mut self, k: Vec<u8>, v: Option<Vec<u8>>) {
		let old = self.state.index.insert(k.clone(), v);
		if !self.marks.is_empty() {
			self.undo.push(Undo::Index(k, old))
		}
	}
	fn rollback(&mut self, to: usize) {
		let marks = std::mem::take(&mut self.marks);
		while self.undo.len() > to {
			match self.undo.pop().unwrap() {
				Undo::Top(k, v) => self.set(k, v),
				Undo::Child(c, k, v) => self.child_set(&c, k, v),
				Undo::Index(k, Some(v)) => {
					self.state.index.insert(k, v);
				},
				Undo::Index(k, None) => {
					self.state.index.remove(&k);
				},
			}
		}
		self.marks = marks;
	}
}
pub mod storage {
	use super::*;
	pub fn get(k: &[u8]) -> Option<Vec<u8>> {
		with(|e| {
			e.reads += 1;
			e.state.top.get(k).cloned()
		})
	}
	pub fn exists(k: &[u8]) -> bool {
		with(|e| e.state.top.contains_key(k))
	}
	pub fn set(k: &[u8], v: &[u8]) {
		with(|e| e.set(k.to_vec(), Some(v.to_vec())))
	}
	pub fn clear(k: &[u8]) {
		with(|e| e.set(k.to_vec(), None))
	}
	pub fn next_key(k: &[u8]) -> Option<Vec<u8>> {
		with(|e| e.state.top.range::<[u8], _>((Bound::Excluded(k), Bound::Unbounded)).next().map(|x| x.0.clone()))
	}
	pub fn keys_with_prefix(p: &[u8]) -> Vec<Vec<u8>> {
		with(|e| e.state.top.range::<[u8], _>((Bound::Included(p), Bound::Unbounded)).take_while(|(k, _)| k.starts_with(p)).map(|(k, _)| k.clone()).collect())
	}
	pub fn clear_prefix(p: &[u8], limit: Option<u32>) -> (Option<Vec<u8>>, u32) {
		let ks = keys_with_prefix(p);
		let n = limit.map_or(ks.len(), |l| (l as usize).min(ks.len()));
		for k in &ks[..n] {
			clear(k)
		}
		(ks.get(n).cloned(), n as u32)
	}
	pub fn root() -> Vec<u8> {
		with(|e| crate::hashing::blake2b(32, format!("{:?}", (&e.state.top, &e.state.child)).as_bytes()))
	}
	pub fn append(k: &[u8], v: Vec<u8>) {
		let mut cur: Vec<u8> = get(k).unwrap_or_default();
		let n = <crate::codec::Compact<u32> as crate::codec::Decode>::decode(&mut &cur[..]).map(|c| c.0).unwrap_or(0);
		let hdr = crate::codec::Encode::encode(&crate::codec::Compact(n));
		let body = if cur.is_empty() { vec![] } else { cur.split_off(hdr.len()) };
		let mut out = crate::codec::Encode::encode(&crate::codec::Compact(n + 1));
		out.extend(body);
		out.extend(v);
		set(k, &out);
	}
	pub fn start_transaction() {
		with(|e| {
			let n = e.undo.len();
			e.marks.push(n)
		})
	}
	pub fn rollback_transaction() {
		with(|e| {
			let m = e.marks.pop().expect("transaction");
			e.rollback(m)
		})
	}
	pub fn commit_transaction() {
		with(|e| {
			e.marks.pop().expect("transaction");
			if e.marks.is_empty() {
				e.undo.clear()
			}
		})
	}
	pub fn transaction_depth() -> usize {
		with(|e| e.marks.len())
	}
}
/// what killing a prefix did
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum KillStorageResult {
	AllRemoved(u32),
	SomeRemaining(u32),
}
pub mod default_child_storage {
	use super::*;
	pub fn get(c: &[u8], k: &[u8]) -> Option<Vec<u8>> {
		with(|e| e.state.child.get(c).and_then(|m| m.get(k)).cloned())
	}
	pub fn exists(c: &[u8], k: &[u8]) -> bool {
		get(c, k).is_some()
	}
	pub fn set(c: &[u8], k: &[u8], v: &[u8]) {
		with(|e| e.child_set(c, k.to_vec(), Some(v.to_vec())))
	}
	pub fn clear(c: &[u8], k: &[u8]) {
		with(|e| e.child_set(c, k.to_vec(), None))
	}
	pub fn next_key(c: &[u8], k: &[u8]) -> Option<Vec<u8>> {
		with(|e| e.state.child.get(c).and_then(|m| m.range::<[u8], _>((Bound::Excluded(k), Bound::Unbounded)).next().map(|x| x.0.clone())))
	}
	pub fn keys(c: &[u8]) -> Vec<Vec<u8>> {
		with(|e| e.state.child.get(c).map(|m| m.keys().cloned().collect()).unwrap_or_default())
	}
}
pub mod offchain_index {
	use super::*;
	pub fn set(k: &[u8], v: &[u8]) {
		with(|e| e.index_set(k.to_vec(), Some(v.to_vec())))
	}
	pub fn clear(k: &[u8]) {
		with(|e| e.index_set(k.to_vec(), None))
	}
}
pub use crate::offchain::host as offchain;
pub mod hashing {
	pub use crate::hashing::*;
}
pub mod logging {
	pub fn max_level() -> log::LevelFilter {
		log::LevelFilter::Off
	}
}
pub fn extension<T: Any, R>(f: impl FnOnce(&mut T) -> R) -> Option<R> {
	let x = EXT.with(|e| e.borrow().as_ref().map(|e| e.extensions.clone()))?;
	let mut m = x.borrow_mut();
	let b = m.get_mut(&TypeId::of::<T>())?;
	Some(f(b.downcast_mut::<T>().unwrap()))
}
/// Runs a dispatch in its own storage layer: rolled back when it fails (or panics).
pub fn with_transaction_result<R, E>(f: impl FnOnce() -> Result<R, E>) -> Result<R, E> {
	struct Guard(bool);
	impl Drop for Guard {
		fn drop(&mut self) {
			if self.0 {
				storage::rollback_transaction()
			}
		}
	}
	storage::start_transaction();
	let mut g = Guard(true);
	let r = f();
	if r.is_ok() {
		g.0 = false;
		storage::commit_transaction();
	}
	r
}
pub fn with_call_layer<R, E>(f: impl FnOnce() -> Result<R, E>) -> Result<R, E> {
	with_transaction_result(f)
}
fn enter<R>(ext: Ext, f: impl FnOnce() -> R) -> (std::thread::Result<R>, Ext) {
	let prev = EXT.with(|e| e.borrow_mut().replace(ext));
	let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
	let mut ext = EXT
		.with(|e| match prev {
			Some(p) => e.borrow_mut().replace(p),
			None => e.borrow_mut().take(),
		})
		.unwrap();
	if !ext.marks.is_empty() {
		let m = ext.marks[0];
		ext.rollback(m);
		ext.marks.clear();
	}
	ext.undo.clear();
	(r, ext)
}
#[derive(Default)]
pub struct TestExternalities {
	ext: Option<Ext>,
	pub db: crate::offchain::testing::TestPersistentOffchainDB,
}
pub type TestExternalitiesBasic = TestExternalities;
impl TestExternalities {
	pub fn new(s: Storage) -> Self {
		let mut e = Ext::default();
		e.state.top = s.top;
		for (k, c) in s.children_default {
			e.state.child.insert(k, c.data);
		}
		TestExternalities { ext: Some(e), db: Default::default() }
	}
	pub fn new_empty() -> Self {
		Self::new(Storage::default())
	}
	pub fn from_state(state: State) -> Self {
		TestExternalities { ext: Some(Ext { state, ..Default::default() }), db: Default::default() }
	}
	fn ext(&mut self) -> &mut Ext {
		self.ext.get_or_insert_with(Ext::default)
	}
	pub fn state(&mut self) -> &State {
		&self.ext().state
	}
	pub fn into_state(mut self) -> State {
		std::mem::take(&mut self.ext().state)
	}
	pub fn set_state(&mut self, s: State) {
		self.ext().state = s
	}
	pub fn execute_with<R>(&mut self, f: impl FnOnce() -> R) -> R {
		let ext = std::mem::take(self.ext());
		let (r, ext) = enter(ext, f);
		self.ext = Some(ext);
		match r {
			Ok(r) => r,
			Err(p) => std::panic::resume_unwind(p),
		}
	}
	pub fn register_extension<E: Any>(&mut self, e: E) {
		self.ext().extensions.borrow_mut().insert(TypeId::of::<E>(), Box::new(e));
	}
	pub fn persist_offchain_overlay(&mut self) {
		let i = std::mem::take(&mut self.ext().state.index);
		self.db.apply(i);
	}
	pub fn offchain_db(&self) -> crate::offchain::testing::TestPersistentOffchainDB {
		self.db.clone()
	}
	pub fn commit_all(&mut self) -> Result<(), &'static str> {
		Ok(())
	}
}
impl From<Storage> for TestExternalities {
	fn from(s: Storage) -> Self {
		Self::new(s)
	}
}
pub struct BasicExternalities;
impl BasicExternalities {
	pub fn execute_with_storage<R>(s: &mut Storage, f: impl FnOnce() -> R) -> R {
		let mut t = TestExternalities::new(std::mem::take(s));
		let r = t.execute_with(f);
		let st = t.into_state();
		s.top = st.top;
		for (k, m) in st.child {
			s.children_default.insert(k, crate::sp_core::storage::StorageChild { data: m });
		}
		r
	}
	pub fn new_empty() -> TestExternalities {
		TestExternalities::new_empty()
	}
}
/// The state of the running externalities, for explorers.
pub fn snapshot() -> State {
	with(|e| e.state.clone())
}
pub fn restore(s: State) {
	with(|e| {
		e.state = s;
		e.undo.clear();
		e.marks.clear();
	})
}
pub fn with_state<R>(f: impl FnOnce(&State) -> R) -> R {
	with(|e| f(&e.state))
}
