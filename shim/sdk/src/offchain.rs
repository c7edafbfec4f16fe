//! Off-chain workers: local storage, locks, HTTP (scripted), time.
use crate::codec::{Decode, Encode};
use std::collections::BTreeMap;
use parking_lot::RwLock;
use std::sync::{Arc, Mutex};
pub const STORAGE_PREFIX: &[u8] = b"storage";
type Db = BTreeMap<Vec<u8>, Vec<u8>>;
fn full(p: &[u8], k: &[u8]) -> Vec<u8> {
	[p, k].concat()
}
pub trait OffchainStorage {
	fn set(&mut self, prefix: &[u8], key: &[u8], value: &[u8]);
	fn remove(&mut self, prefix: &[u8], key: &[u8]);
	fn get(&self, prefix: &[u8], key: &[u8]) -> Option<Vec<u8>>;
	fn compare_and_set(&mut self, prefix: &[u8], key: &[u8], old: Option<&[u8]>, new: &[u8]) -> bool;
}
#[derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Debug, Encode, Decode, Default)]
pub struct Timestamp(pub u64);
#[derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Debug, Encode, Decode, Default)]
pub struct Duration(pub u64);
impl Duration {
	pub const fn from_millis(m: u64) -> Self {
		Duration(m)
	}
	pub fn millis(&self) -> u64 {
		self.0
	}
}
impl Timestamp {
	pub const fn from_unix_millis(m: u64) -> Self {
		Timestamp(m)
	}
	pub fn add(&self, d: Duration) -> Timestamp {
		Timestamp(self.0.saturating_add(d.0))
	}
	pub fn sub(&self, d: Duration) -> Timestamp {
		Timestamp(self.0.saturating_sub(d.0))
	}
	pub fn diff(&self, o: &Self) -> Duration {
		Duration(self.0.saturating_sub(o.0))
	}
	pub fn unix_millis(&self) -> u64 {
		self.0
	}
}
pub mod testing {
	use super::*;
	#[derive(Clone, Default, Debug)]
	pub struct TestPersistentOffchainDB {
		pub persistent: Arc<Mutex<Db>>,
	}
	impl TestPersistentOffchainDB {
		pub fn new() -> Self {
			Self::default()
		}
		pub fn apply(&self, changes: BTreeMap<Vec<u8>, Option<Vec<u8>>>) {
			let mut d = self.persistent.lock().unwrap();
			for (k, v) in changes {
				let k = full(STORAGE_PREFIX, &k);
				match v {
					Some(v) => d.insert(k, v),
					None => d.remove(&k),
				};
			}
		}
		pub fn snapshot(&self) -> Db {
			self.persistent.lock().unwrap().clone()
		}
		pub fn restore(&self, d: Db) {
			*self.persistent.lock().unwrap() = d
		}
	}
	impl OffchainStorage for TestPersistentOffchainDB {
		fn set(&mut self, p: &[u8], k: &[u8], v: &[u8]) {
			self.persistent.lock().unwrap().insert(full(p, k), v.to_vec());
		}
		fn remove(&mut self, p: &[u8], k: &[u8]) {
			self.persistent.lock().unwrap().remove(&full(p, k));
		}
		fn get(&self, p: &[u8], k: &[u8]) -> Option<Vec<u8>> {
			self.persistent.lock().unwrap().get(&full(p, k)).cloned()
		}
		fn compare_and_set(&mut self, p: &[u8], k: &[u8], old: Option<&[u8]>, new: &[u8]) -> bool {
			let mut d = self.persistent.lock().unwrap();
			let k = full(p, k);
			if d.get(&k).map(|v| &v[..]) == old {
				d.insert(k, new.to_vec());
				true
			} else {
				false
			}
		}
	}
	#[derive(Clone, Debug, Default, PartialEq, Eq)]
	pub struct PendingRequest {
		pub method: String,
		pub uri: String,
		pub meta: Vec<u8>,
		pub headers: Vec<(String, String)>,
		pub body: Vec<u8>,
		pub sent: bool,
		pub response: Option<Vec<u8>>,
		pub response_headers: Vec<(String, String)>,
		pub read: usize,
	}
	#[derive(Default, Debug)]
	pub struct OffchainState {
		pub expected_requests: std::collections::VecDeque<PendingRequest>,
		pub persistent_storage: TestPersistentOffchainDB,
		pub timestamp: Timestamp,
		pub code: Option<u16>,
		pub fail: bool,
	}
	impl OffchainState {
		pub fn expect_request(&mut self, r: PendingRequest) {
			self.expected_requests.push_back(r)
		}
	}
	#[derive(Clone)]
	pub struct TestOffchainExt(pub Arc<RwLock<OffchainState>>);
	impl TestOffchainExt {
		pub fn new() -> (Self, Arc<RwLock<OffchainState>>) {
			Self::with_offchain_db(Default::default())
		}
		pub fn with_offchain_db(db: TestPersistentOffchainDB) -> (Self, Arc<RwLock<OffchainState>>) {
			let s = Arc::new(RwLock::new(OffchainState { persistent_storage: db, ..Default::default() }));
			(TestOffchainExt(s.clone()), s)
		}
	}
}
pub struct OffchainDbExt(pub testing::TestOffchainExt);
impl OffchainDbExt {
	pub fn new(e: testing::TestOffchainExt) -> Self {
		OffchainDbExt(e)
	}
}
pub struct OffchainWorkerExt(pub testing::TestOffchainExt);
impl OffchainWorkerExt {
	pub fn new(e: testing::TestOffchainExt) -> Self {
		OffchainWorkerExt(e)
	}
}
fn db<R>(f: impl FnOnce(&mut testing::TestPersistentOffchainDB) -> R) -> R {
	crate::io::extension::<OffchainDbExt, _>(|e| f(&mut e.0 .0.write().persistent_storage)).expect("off-chain database extension")
}
fn worker<R>(f: impl FnOnce(&mut testing::OffchainState) -> R) -> R {
	crate::io::extension::<OffchainWorkerExt, _>(|e| f(&mut e.0 .0.write())).expect("off-chain worker extension")
}
/// Stops or interrupts a worker between two of its accesses to the outside, for explorers.
pub mod control {
	use std::cell::{Cell, RefCell};
	type Hook = Box<dyn FnMut(usize)>;
	thread_local! {
		static HOOK: RefCell<Option<Hook>> = const { RefCell::new(None) };
		static N: Cell<usize> = const { Cell::new(0) };
		static DEAD: Cell<bool> = const { Cell::new(false) };
	}
	/// What a worker that was stopped here unwinds with.
	pub struct Stopped;
	/// Calls `hook(i)` before the i-th access to off-chain storage that `f` makes; returns how many it made.
	/// The hook is off while it runs itself.
	pub fn with_hook<R>(hook: impl FnMut(usize) + 'static, f: impl FnOnce() -> R) -> (R, usize) {
		HOOK.with(|h| *h.borrow_mut() = Some(Box::new(hook)));
		N.with(|n| n.set(0));
		struct Reset;
		impl Drop for Reset {
			fn drop(&mut self) {
				HOOK.with(|h| *h.borrow_mut() = None);
				DEAD.with(|d| d.set(false));
			}
		}
		let _r = Reset;
		let r = f();
		(r, N.with(|n| n.get()))
	}
	/// As when the process ends here: nothing the worker does any more (while unwinding) has an effect.
	pub fn stop() -> ! {
		DEAD.with(|d| d.set(true));
		std::panic::panic_any(Stopped)
	}
	pub fn dead() -> bool {
		DEAD.with(|d| d.get())
	}
	pub(super) fn tick() {
		if dead() {
			return
		}
		if let Some(mut h) = HOOK.with(|h| h.borrow_mut().take()) {
			let i = N.with(|n| n.replace(n.get() + 1));
			let at = i + 1;
			h(i);
			N.with(|n| n.set(at));
			HOOK.with(|x| *x.borrow_mut() = Some(h));
		}
	}
}
pub mod host {
	use super::*;
	pub fn timestamp() -> Timestamp {
		worker(|w| w.timestamp)
	}
	pub fn sleep_until(t: Timestamp) {
		worker(|w| w.timestamp = w.timestamp.max(t))
	}
	pub fn local_storage_get(k: &[u8]) -> Option<Vec<u8>> {
		control::tick();
		db(|d| d.get(STORAGE_PREFIX, k))
	}
	pub fn local_storage_set(k: &[u8], v: &[u8]) {
		control::tick();
		if !control::dead() {
			db(|d| d.set(STORAGE_PREFIX, k, v))
		}
	}
	pub fn local_storage_clear(k: &[u8]) {
		control::tick();
		if !control::dead() {
			db(|d| d.remove(STORAGE_PREFIX, k))
		}
	}
	pub fn local_storage_compare_and_set(k: &[u8], old: Option<Vec<u8>>, new: &[u8]) -> bool {
		control::tick();
		!control::dead() && db(|d| d.compare_and_set(STORAGE_PREFIX, k, old.as_deref(), new))
	}
}
pub mod storage {
	use super::*;
	#[derive(Clone, Debug, PartialEq, Eq)]
	pub enum StorageRetrievalError {
		Undecodable,
	}
	#[derive(Clone, Debug, PartialEq, Eq)]
	pub enum MutateStorageError<T, E> {
		ConcurrentModification(T),
		ValueFunctionFailed(E),
	}
	pub struct StorageValueRef<'a> {
		key: std::borrow::Cow<'a, [u8]>,
	}
	impl<'a> StorageValueRef<'a> {
		pub fn persistent(key: &'a [u8]) -> Self {
			Self { key: key.into() }
		}
		pub fn local(key: &'a [u8]) -> Self {
			Self { key: key.into() }
		}
		pub fn set(&self, v: &impl Encode) {
			host::local_storage_set(&self.key, &v.encode())
		}
		pub fn clear(&mut self) {
			host::local_storage_clear(&self.key)
		}
		pub fn get<T: Decode>(&self) -> Result<Option<T>, StorageRetrievalError> {
			host::local_storage_get(&self.key).map(|v| T::decode(&mut &v[..]).map_err(|_| StorageRetrievalError::Undecodable)).transpose()
		}
		pub fn mutate<T: Encode + Decode, E, F: FnOnce(Result<Option<T>, StorageRetrievalError>) -> Result<T, E>>(&self, f: F) -> Result<T, MutateStorageError<T, E>> {
			let raw = host::local_storage_get(&self.key);
			let restored = raw.as_ref().map(|v| T::decode(&mut &v[..]).map_err(|_| StorageRetrievalError::Undecodable)).transpose();
			let v = f(restored).map_err(MutateStorageError::ValueFunctionFailed)?;
			if host::local_storage_compare_and_set(&self.key, raw, &v.encode()) {
				Ok(v)
			} else {
				Err(MutateStorageError::ConcurrentModification(v))
			}
		}
	}
}
pub mod storage_lock {
	use super::storage::*;
	use super::*;
	use crate::sp_runtime::traits::BlockNumberProvider;
	use std::fmt::Debug;
	const STORAGE_LOCK_DEFAULT_EXPIRY_DURATION: Duration = Duration::from_millis(20_000);
	const STORAGE_LOCK_DEFAULT_EXPIRY_BLOCKS: u32 = 4;
	const STORAGE_LOCK_PER_CHECK_ITERATION_SNOOZE_MIN: Duration = Duration::from_millis(10);
	const STORAGE_LOCK_PER_CHECK_ITERATION_SNOOZE_MAX: Duration = Duration::from_millis(100);
	pub trait Lockable: Sized {
		type Deadline: Sized + Decode + Encode + Clone;
		fn deadline(&self) -> Self::Deadline;
		fn has_expired(d: &Self::Deadline) -> bool;
		fn snooze(_: &Self::Deadline) {
			host::sleep_until(host::timestamp().add(STORAGE_LOCK_PER_CHECK_ITERATION_SNOOZE_MAX))
		}
	}
	#[derive(Debug, Copy, Clone)]
	pub struct Time {
		expiration_duration: Duration,
	}
	impl Default for Time {
		fn default() -> Self {
			Self { expiration_duration: STORAGE_LOCK_DEFAULT_EXPIRY_DURATION }
		}
	}
	impl Lockable for Time {
		type Deadline = Timestamp;
		fn deadline(&self) -> Timestamp {
			host::timestamp().add(self.expiration_duration)
		}
		fn has_expired(d: &Timestamp) -> bool {
			host::timestamp() > *d
		}
		fn snooze(d: &Timestamp) {
			let now = host::timestamp();
			let remaining = now.diff(d);
			let snooze = remaining.clamp(STORAGE_LOCK_PER_CHECK_ITERATION_SNOOZE_MIN, STORAGE_LOCK_PER_CHECK_ITERATION_SNOOZE_MAX);
			host::sleep_until(now.add(snooze));
		}
	}
	#[derive(Debug, Copy, Clone, PartialEq, Eq, Encode, Decode)]
	pub struct BlockAndTimeDeadline<N: Encode + Decode> {
		pub block_number: N,
		pub timestamp: Timestamp,
	}
	#[derive(Debug)]
	pub struct BlockAndTime<B: BlockNumberProvider> {
		expiration_block_number_offset: u32,
		expiration_duration: Duration,
		_p: std::marker::PhantomData<B>,
	}
	impl<B: BlockNumberProvider> Default for BlockAndTime<B> {
		fn default() -> Self {
			Self { expiration_block_number_offset: STORAGE_LOCK_DEFAULT_EXPIRY_BLOCKS, expiration_duration: STORAGE_LOCK_DEFAULT_EXPIRY_DURATION, _p: Default::default() }
		}
	}
	impl<B: BlockNumberProvider> Clone for BlockAndTime<B> {
		fn clone(&self) -> Self {
			Self { expiration_block_number_offset: self.expiration_block_number_offset, expiration_duration: self.expiration_duration, _p: Default::default() }
		}
	}
	impl<B: BlockNumberProvider> Lockable for BlockAndTime<B> {
		type Deadline = BlockAndTimeDeadline<B::BlockNumber>;
		fn deadline(&self) -> Self::Deadline {
			use crate::arith::Saturating;
			BlockAndTimeDeadline {
				block_number: <B as BlockNumberProvider>::current_block_number().saturating_add(self.expiration_block_number_offset.into()),
				timestamp: host::timestamp().add(self.expiration_duration),
			}
		}
		fn has_expired(d: &Self::Deadline) -> bool {
			host::timestamp() > d.timestamp && <B as BlockNumberProvider>::current_block_number() > d.block_number
		}
		fn snooze(d: &Self::Deadline) {
			Time::snooze(&d.timestamp)
		}
	}
	pub struct StorageLock<'a, L = Time> {
		value_ref: StorageValueRef<'a>,
		lockable: L,
	}
	impl<'a, L: Lockable + Default> StorageLock<'a, L> {
		pub fn new(key: &'a [u8]) -> Self {
			Self::with_lockable(key, L::default())
		}
	}
	impl<'a, L: Lockable> StorageLock<'a, L> {
		pub fn with_lockable(key: &'a [u8], lockable: L) -> Self {
			Self { value_ref: StorageValueRef::persistent(key), lockable }
		}
		fn try_lock_inner(&self, new: L::Deadline) -> Result<(), L::Deadline> {
			let r = self.value_ref.mutate(|s: Result<Option<L::Deadline>, StorageRetrievalError>| match s {
				Ok(None) => Ok(new),
				Ok(Some(d)) if L::has_expired(&d) => Ok(new),
				Ok(Some(d)) => Err(d),
				Err(_) => Ok(new),
			});
			match r {
				Ok(_) => Ok(()),
				Err(MutateStorageError::ConcurrentModification(d)) => Err(d),
				Err(MutateStorageError::ValueFunctionFailed(d)) => Err(d),
			}
		}
		fn extend_active_lock(&mut self) -> Result<L::Deadline, ()> {
			let r = self.value_ref.mutate(|s: Result<Option<L::Deadline>, StorageRetrievalError>| match s {
				Ok(Some(d)) if !L::has_expired(&d) => Ok(self.lockable.deadline()),
				_ => Err(()),
			});
			r.map_err(|_| ())
		}
		pub fn try_lock(&mut self) -> Result<StorageLockGuard<'a, '_, L>, L::Deadline> {
			self.try_lock_inner(self.lockable.deadline())?;
			Ok(StorageLockGuard { lock: Some(self) })
		}
		pub fn lock(&mut self) -> StorageLockGuard<'a, '_, L> {
			while let Err(d) = self.try_lock_inner(self.lockable.deadline()) {
				L::snooze(&d);
			}
			StorageLockGuard { lock: Some(self) }
		}
		fn unlock(&mut self) {
			self.value_ref.clear()
		}
	}
	pub struct StorageLockGuard<'a, 'b, L: Lockable> {
		lock: Option<&'b mut StorageLock<'a, L>>,
	}
	impl<'a, 'b, L: Lockable> StorageLockGuard<'a, 'b, L> {
		pub fn forget(mut self) {
			self.lock.take();
		}
		pub fn extend_lock(&mut self) -> Result<L::Deadline, ()> {
			match &mut self.lock {
				Some(l) => l.extend_active_lock(),
				None => Err(()),
			}
		}
	}
	impl<'a, 'b, L: Lockable> Drop for StorageLockGuard<'a, 'b, L> {
		fn drop(&mut self) {
			if let Some(l) = self.lock.take() {
				l.unlock()
			}
		}
	}
	impl<'a> StorageLock<'a, Time> {
		pub fn with_deadline(key: &'a [u8], d: Duration) -> Self {
			Self::with_lockable(key, Time { expiration_duration: d })
		}
	}
	impl<'a, B: BlockNumberProvider> StorageLock<'a, BlockAndTime<B>> {
		pub fn with_block_and_time_deadline(key: &'a [u8], blocks: u32, d: Duration) -> Self {
			Self::with_lockable(key, BlockAndTime { expiration_block_number_offset: blocks, expiration_duration: d, _p: Default::default() })
		}
		pub fn with_block_deadline(key: &'a [u8], blocks: u32) -> Self {
			Self::with_block_and_time_deadline(key, blocks, STORAGE_LOCK_DEFAULT_EXPIRY_DURATION)
		}
	}
}
pub mod http {
	use super::*;
	#[derive(Clone, PartialEq, Eq, Debug, Encode, Decode)]
	pub enum Error {
		DeadlineReached,
		IoError,
		Unknown,
	}
	pub type HttpResult = Result<Response, Error>;
	#[derive(Clone, Debug)]
	pub struct Request {
		method: String,
		url: String,
		headers: Vec<(String, String)>,
		body: Vec<u8>,
	}
	impl Request {
		pub fn post<B: AsRef<[u8]>>(url: &str, body: Vec<B>) -> Self {
			let mut b = vec![];
			for x in &body {
				b.extend_from_slice(x.as_ref())
			}
			Request { method: "POST".into(), url: url.into(), headers: vec![], body: b }
		}
		pub fn add_header(mut self, n: &str, v: &str) -> Self {
			self.headers.push((n.into(), v.into()));
			self
		}
		pub fn deadline(self, _: Timestamp) -> Self {
			self
		}
		pub fn send(self) -> Result<PendingReq, ()> {
			if worker(|w| w.fail) {
				return Err(())
			}
			Ok(PendingReq(self))
		}
	}
	pub struct PendingReq(Request);
	impl PendingReq {
		pub fn try_wait(self, _: impl Into<Option<Timestamp>>) -> Result<HttpResult, PendingReq> {
			let me = &self.0;
			let r = worker(|w| {
				let Some(p) = w.expected_requests.front().cloned() else { return None };
				assert_eq!((&p.method, &p.uri, &p.body), (&me.method, &me.url, &me.body), "unexpected off-chain request");
				w.expected_requests.pop_front();
				Some((w.code.unwrap_or(200), p.response))
			});
			match r {
				None => Err(self),
				Some((code, Some(b))) => Ok(Ok(Response { code, body: b })),
				Some((_, None)) => Ok(Err(Error::IoError)),
			}
		}
		pub fn wait(self) -> HttpResult {
			self.try_wait(None).unwrap_or(Err(Error::DeadlineReached))
		}
	}
	pub struct Response {
		pub code: u16,
		body: Vec<u8>,
	}
	impl Response {
		pub fn body(&self) -> impl Iterator<Item = u8> + Clone + '_ {
			self.body.iter().cloned()
		}
	}
}
