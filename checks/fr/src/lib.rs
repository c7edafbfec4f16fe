//! Running the real pallets from one explored state to the next.
pub use mc;
pub use sdk;
pub use sdk::io::State as Io;
use sdk::io::TestExternalities;
use std::hash::Hasher;

/// Runs `f` on a copy of the storage and returns the storage it leaves behind.
pub fn run<R>(st: &Io, f: impl FnOnce() -> R) -> (R, Io) {
	let mut t = TestExternalities::from_state(st.clone());
	let r = t.execute_with(f);
	(r, t.into_state())
}
/// Runs `f` on a copy of the storage and forgets what it wrote.
pub fn peek<R>(st: &Io, f: impl FnOnce() -> R) -> R {
	run(st, f).0
}
fn h(seed: u64, st: &Io) -> u64 {
	let mut h = std::collections::hash_map::DefaultHasher::new();
	h.write_u64(seed);
	use std::hash::Hash;
	st.top.hash(&mut h);
	st.child.hash(&mut h);
	st.index.hash(&mut h);
	h.finish()
}
/// A 128-bit fingerprint of the whole storage.
pub fn key(st: &Io) -> u128 {
	(h(1, st) as u128) << 64 | h(2, st) as u128
}
/// The storage prefix of one item of a pallet.
pub fn prefix(pallet: &str, item: &str) -> Vec<u8> {
	[sdk::sp_core::twox_128(pallet.as_bytes()), sdk::sp_core::twox_128(item.as_bytes())].concat()
}
/// As `key`, leaving out the items under the given prefixes.
pub fn key_without(st: &Io, out: &[Vec<u8>]) -> u128 {
	let f = |seed: u64| {
		use std::hash::Hash;
		let mut h = std::collections::hash_map::DefaultHasher::new();
		h.write_u64(seed);
		for (k, v) in st.top.iter() {
			if !out.iter().any(|p| k.starts_with(p)) {
				k.hash(&mut h);
				v.hash(&mut h);
			}
		}
		st.child.hash(&mut h);
		h.finish()
	};
	(f(1) as u128) << 64 | f(2) as u128
}
pub fn mix(k: u128, x: impl std::hash::Hash) -> u128 {
	let f = |s: u64| {
		let mut h = std::collections::hash_map::DefaultHasher::new();
		h.write_u64(s);
		h.write_u128(k);
		x.hash(&mut h);
		h.finish()
	};
	(f(3) as u128) << 64 | f(4) as u128
}

/// `frame_system` and `pallet_balances` for a check's own runtime `Test` (accounts are u64, blocks u32, balances u64).
#[macro_export]
macro_rules! base_runtime {
	(account = $acc:ty, balance = $bal:ty, ed = $ed:expr, freezes = $fr:expr) => {
		pub type AccountId = $acc;
		pub type Balance = $bal;
		pub type Block = frame_system::mocking::MockBlockU32<Test>;
		impl frame_system::Config for Test {
			type RuntimeOrigin = RuntimeOrigin;
			type RuntimeCall = RuntimeCall;
			type Nonce = u32;
			type Hash = $crate::sdk::sp_core::H256;
			type Hashing = $crate::sdk::sp_runtime::traits::BlakeTwo256;
			type AccountId = AccountId;
			type Lookup = $crate::sdk::sp_runtime::traits::IdentityLookup<Self::AccountId>;
			type RuntimeEvent = RuntimeEvent;
			type Block = Block;
			type BlockHashCount = $crate::sdk::frame_support::traits::ConstU32<250>;
			type BlockWeights = ();
			type BlockLength = ();
			type Version = ();
			type PalletInfo = PalletInfo;
			type AccountData = pallet_balances::AccountData<$bal>;
			type OnNewAccount = ();
			type OnKilledAccount = ();
			type DbWeight = ();
			type RuntimeTask = RuntimeTask;
			type BaseCallFilter = $crate::sdk::frame_support::traits::Everything;
			type SystemWeightInfo = ();
			type SS58Prefix = ();
			type OnSetCode = ();
			type MaxConsumers = $crate::sdk::frame_support::traits::ConstU32<16>;
		}
		$crate::sdk::frame_support::parameter_types! {
			pub const Ed: $bal = $ed;
			pub const NFreezes: u32 = $fr;
		}
		impl pallet_balances::Config for Test {
			type Balance = $bal;
			type DustRemoval = ();
			type RuntimeEvent = RuntimeEvent;
			type ExistentialDeposit = Ed;
			type AccountStore = frame_system::Pallet<Test>;
			type MaxLocks = $crate::sdk::frame_support::traits::ConstU32<10>;
			type MaxReserves = ();
			type ReserveIdentifier = [u8; 8];
			type WeightInfo = ();
			type FreezeIdentifier = RuntimeFreezeReason;
			type MaxFreezes = NFreezes;
			type MaxHolds = $crate::sdk::frame_support::traits::ConstU32<0>;
			type RuntimeHoldReason = ();
			type RuntimeFreezeReason = ();
		}
	};
}
