// Included once per runtime: accounts, transactions, the chain at its start.
pub use fr::{peek, run as on, Io};
pub use mc::{must, Run};
pub use rt::{Runtime, RuntimeCall, RuntimeOrigin, Executive, UncheckedExtrinsic};
pub use sdk::codec::{Decode, Encode};
pub use sdk::frame_support::dispatch::{GetDispatchInfo, Pays};
pub use sdk::frame_support::traits::{Contains, GetCallMetadata, InstanceFilter};
pub use sdk::sp_core::{ecdsa, ed25519, sr25519, Pair};
pub use sdk::sp_runtime::{MultiAddress, MultiSignature};
pub use common_primitives::node::{AccountId, Balance};

/// The n-th signer: most are of the usual kind, the third and the fourth use the other kinds of keys.
fn seed(n: usize) -> String {
	format!("//signer{n}")
}
pub fn account(n: usize) -> AccountId {
	use sdk::sp_runtime::traits::IdentifyAccount;
	static KNOWN: std::sync::OnceLock<Vec<AccountId>> = std::sync::OnceLock::new();
	let make = |n: usize| match n {
		2 => sdk::sp_runtime::MultiSigner::Ecdsa(ecdsa::Pair::from_string(&seed(n), None).unwrap().public()).into_account(),
		1 => sdk::sp_runtime::MultiSigner::Ed25519(ed25519::Pair::from_string(&seed(n), None).unwrap().public()).into_account(),
		_ => sdk::sp_runtime::MultiSigner::Sr25519(sr25519::Pair::from_string(&seed(n), None).unwrap().public()).into_account(),
	};
	KNOWN.get_or_init(|| (0..16).map(make).collect()).get(n).cloned().unwrap_or_else(|| make(n))
}
pub fn sign(n: usize, m: &[u8]) -> MultiSignature {
	match n {
		2 => MultiSignature::Ecdsa(ecdsa::Pair::from_string(&seed(n), None).unwrap().sign(m)),
		1 => MultiSignature::Ed25519(ed25519::Pair::from_string(&seed(n), None).unwrap().sign(m)),
		_ => MultiSignature::Sr25519(sr25519::Pair::from_string(&seed(n), None).unwrap().sign(m)),
	}
}
/// <Bytes> payloads are what wallets sign.
pub fn wrapped<P: Encode>(p: &P) -> Vec<u8> {
	[&b"<Bytes>"[..], &p.encode(), b"</Bytes>"].concat()
}
/// `Pallet.call` of a runtime call.
pub fn name(c: &RuntimeCall) -> String {
	let m = c.get_call_metadata();
	format!("{}.{}", m.pallet_name, m.function_name)
}
/// Every call of the runtime, with the smallest arguments there are.
pub fn every_call() -> Vec<RuntimeCall> {
	let mut out = vec![];
	for p in 0..=255u8 {
		for c in 0..=255u8 {
			// enumerations whose first variant is not numbered 0 are found by trying other fillings
			for fill in [0u8, 1, 2, 4] {
				let mut b = vec![p, c];
				b.extend(std::iter::repeat(fill).take(if fill == 0 { 400 } else { 4000 }));
				if let Ok(Ok(x)) = mc::catch(|| RuntimeCall::decode(&mut &b[..])) {
					out.push(x);
					break
				}
			}
		}
	}
	out
}
pub fn extra(nonce: u32, tip: Balance) -> rt::SignedExtra {
	use sdk::frame_system as fs;
	(
		fs::CheckNonZeroSender::new(),
		fs::CheckSpecVersion::new(),
		fs::CheckTxVersion::new(),
		fs::CheckGenesis::new(),
		fs::CheckEra::from(sdk::sp_runtime::generic::Era::immortal()),
		common::extensions::check_nonce::CheckNonce::from(nonce),
		fs::CheckWeight::new(),
		pallet_frequency_tx_payment::ChargeFrqTransactionPayment::from(tip),
		pallet_msa::CheckFreeExtrinsicUse::new(),
		pallet_handles::handles_signed_extension::HandlesSignedExtension::new(),
	)
}
/// A transaction of signer `n` (to be built on the state it is meant for).
pub fn tx(n: usize, nonce: u32, tip: Balance, call: RuntimeCall) -> UncheckedExtrinsic {
	let e = extra(nonce, tip);
	let p = sdk::frame_executive::payload(&call, &e).expect("payload");
	UncheckedExtrinsic::new_signed(call, MultiAddress::Id(account(n)), sign(n, &p), e)
}
/// The chain after block 1 began: `rich` accounts hold a lot.
pub fn genesis(rich: &[usize]) -> Io {
	use sdk::frame_support::traits::BuildGenesisConfig;
	on(&Io::default(), || {
		<sdk::frame_system::GenesisConfig<Runtime> as BuildGenesisConfig>::build(&Default::default());
		rt::Executive::initialize_block(1, Default::default());
		for n in rich {
			give(*n, 1_000_000_000_000);
		}
	})
	.1
}
/// Sets a balance.
pub fn give(n: usize, b: Balance) {
	sdk::pallet_balances::Pallet::<Runtime>::force_set_balance(RuntimeOrigin::root(), MultiAddress::Id(account(n)), b).expect("balance");
}
pub fn total(n: usize) -> Balance {
	use sdk::frame_support::traits::Currency;
	sdk::pallet_balances::Pallet::<Runtime>::total_balance(&account(n))
}
pub fn nonce(n: usize) -> u32 {
	sdk::frame_system::Account::<Runtime>::get(account(n)).nonce
}
pub fn capacity(msa: u64) -> Option<(Balance, Balance, Balance, u32)> {
	pallet_capacity::CapacityLedger::<Runtime>::get(msa).map(|c| (c.remaining_capacity, c.total_tokens_staked, c.total_capacity_issued, c.last_replenished_epoch))
}
/// What lies outside the given items (a pallet, or an item of a pallet).
pub fn rest(st: &Io, out: &[(&str, &str)]) -> u128 {
	let p: Vec<Vec<u8>> = out
		.iter()
		.map(|(a, b)| if b.is_empty() { sdk::sp_core::twox_128(a.as_bytes()).to_vec() } else { fr::prefix(a, b) })
		.collect();
	fr::key_without(st, &p)
}
