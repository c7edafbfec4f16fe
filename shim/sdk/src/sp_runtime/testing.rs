//! Test doubles.
use super::*;
#[derive(PartialEq, Eq, Clone, Debug, Encode, Decode, TypeInfo)]
pub struct TestXt<Call, Extra> {
	pub signature: Option<(u64, Extra)>,
	pub call: Call,
}
impl<Call, Extra> TestXt<Call, Extra> {
	pub fn new(call: Call, signature: Option<(u64, Extra)>) -> Self {
		Self { call, signature }
	}
}
impl<Call, Extra> traits::Extrinsic for TestXt<Call, Extra> {
	type Call = Call;
	type SignaturePayload = (u64, Extra);
	fn is_signed(&self) -> Option<bool> {
		Some(self.signature.is_some())
	}
	fn new(c: Call, s: Option<(u64, Extra)>) -> Option<Self> {
		Some(TestXt { signature: s, call: c })
	}
}
pub type Header = generic::Header<u64, traits::BlakeTwo256>;
pub type Block<Xt> = generic::Block<Header, Xt>;
pub struct UintAuthorityId(pub u64);
