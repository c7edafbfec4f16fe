//! frame_support::dispatch
use crate::codec::{Decode, Encode, MaxEncodedLen};
pub use crate::codec::Codec;
use crate::frame_support::weights::Weight;
pub use crate::frame_support::Parameter;
pub use crate::frame_system::RawOrigin;
use crate::scale_info::TypeInfo;
pub use crate::sp_runtime::{traits::Dispatchable, DispatchError, DispatchResult};
pub use std::marker::PhantomData;

pub type DispatchResultWithPostInfo = crate::sp_runtime::DispatchResultWithInfo<PostDispatchInfo>;
pub type DispatchErrorWithPostInfo = crate::sp_runtime::DispatchErrorWithPostInfo<PostDispatchInfo>;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Encode, Decode, TypeInfo, Default)]
pub enum Pays {
	#[default]
	Yes,
	No,
}
impl From<Pays> for PostDispatchInfo {
	fn from(p: Pays) -> Self {
		Self { actual_weight: None, pays_fee: p }
	}
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Encode, Decode, TypeInfo, Default, serde::Serialize, serde::Deserialize)]
pub enum DispatchClass {
	#[default]
	Normal,
	Operational,
	Mandatory,
}
impl DispatchClass {
	pub fn all() -> &'static [DispatchClass] {
		&[DispatchClass::Normal, DispatchClass::Operational, DispatchClass::Mandatory]
	}
	pub fn non_mandatory() -> &'static [DispatchClass] {
		&[DispatchClass::Normal, DispatchClass::Operational]
	}
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Encode, Decode, TypeInfo, Default)]
pub struct DispatchInfo {
	pub weight: Weight,
	pub class: DispatchClass,
	pub pays_fee: Pays,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Encode, Decode, TypeInfo, Default)]
pub struct PostDispatchInfo {
	pub actual_weight: Option<Weight>,
	pub pays_fee: Pays,
}
impl PostDispatchInfo {
	pub fn calc_unspent(&self, i: &DispatchInfo) -> Weight {
		i.weight - self.calc_actual_weight(i)
	}
	pub fn calc_actual_weight(&self, i: &DispatchInfo) -> Weight {
		match self.actual_weight {
			Some(w) => w.min(i.weight),
			None => i.weight,
		}
	}
	pub fn pays_fee(&self, i: &DispatchInfo) -> Pays {
		if i.pays_fee == Pays::No || self.pays_fee == Pays::No {
			Pays::No
		} else {
			Pays::Yes
		}
	}
}
impl From<()> for PostDispatchInfo {
	fn from(_: ()) -> Self {
		Default::default()
	}
}
impl From<Option<Weight>> for PostDispatchInfo {
	fn from(w: Option<Weight>) -> Self {
		Self { actual_weight: w, pays_fee: Default::default() }
	}
}
impl From<(Option<Weight>, Pays)> for PostDispatchInfo {
	fn from((w, p): (Option<Weight>, Pays)) -> Self {
		Self { actual_weight: w, pays_fee: p }
	}
}
pub fn extract_actual_weight(r: &DispatchResultWithPostInfo, i: &DispatchInfo) -> Weight {
	match r {
		Ok(p) => p,
		Err(e) => &e.post_info,
	}
	.calc_actual_weight(i)
}
pub trait WithPostDispatchInfo {
	fn with_weight(self, w: Weight) -> DispatchErrorWithPostInfo;
}
impl<T: Into<DispatchError>> WithPostDispatchInfo for T {
	fn with_weight(self, w: Weight) -> DispatchErrorWithPostInfo {
		DispatchErrorWithPostInfo { post_info: PostDispatchInfo { actual_weight: Some(w), pays_fee: Default::default() }, error: self.into() }
	}
}
pub trait GetDispatchInfo {
	fn get_dispatch_info(&self) -> DispatchInfo;
}
impl GetDispatchInfo for () {
	fn get_dispatch_info(&self) -> DispatchInfo {
		Default::default()
	}
}
pub trait GetCallName {
	fn get_call_names() -> &'static [&'static str];
	fn get_call_name(&self) -> &'static str;
}
pub trait GetCallIndex {
	fn get_call_indices() -> &'static [u8];
	fn get_call_index(&self) -> u8;
}
pub trait UnfilteredDispatchable {
	type RuntimeOrigin;
	fn dispatch_bypass_filter(self, o: Self::RuntimeOrigin) -> DispatchResultWithPostInfo;
}
pub trait Callable<T> {
	type RuntimeCall: UnfilteredDispatchable + crate::codec::Codec + Clone + PartialEq + Eq;
}
pub type CallableCallFor<A, R> = <A as Callable<R>>::RuntimeCall;
pub trait WeighData<T> {
	fn weigh_data(&self, t: T) -> Weight;
}
pub trait ClassifyDispatch<T> {
	fn classify_dispatch(&self, t: T) -> DispatchClass;
}
pub trait PaysFee<T> {
	fn pays_fee(&self, _t: T) -> Pays;
}
macro_rules! wd { ($($t:ty, $s:ident => $w:expr, $c:expr, $p:expr;)*) => {$(
	impl<T> WeighData<T> for $t { fn weigh_data(&self, _: T) -> Weight { let $s = self; $w } }
	impl<T> ClassifyDispatch<T> for $t { fn classify_dispatch(&self, _: T) -> DispatchClass { #[allow(unused)] let $s = self; $c } }
	impl<T> PaysFee<T> for $t { fn pays_fee(&self, _: T) -> Pays { #[allow(unused)] let $s = self; $p } }
)*} }
wd! {
	Weight, s => *s, DispatchClass::Normal, Pays::Yes;
	(Weight, DispatchClass, Pays), s => s.0, s.1, s.2;
	(Weight, DispatchClass), s => s.0, s.1, Pays::Yes;
	(Weight, Pays), s => s.0, DispatchClass::Normal, s.1;
	u64, s => Weight::from_parts(*s, 0), DispatchClass::Normal, Pays::Yes;
	(u64, DispatchClass, Pays), s => Weight::from_parts(s.0, 0), s.1, s.2;
	(u64, DispatchClass), s => Weight::from_parts(s.0, 0), s.1, Pays::Yes;
	(u64, Pays), s => Weight::from_parts(s.0, 0), DispatchClass::Normal, s.1;
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Default, Encode, Decode, TypeInfo)]
pub struct PerDispatchClass<T> {
	pub normal: T,
	pub operational: T,
	pub mandatory: T,
}
impl<T> PerDispatchClass<T> {
	pub fn new(f: impl Fn(DispatchClass) -> T) -> Self {
		Self { normal: f(DispatchClass::Normal), operational: f(DispatchClass::Operational), mandatory: f(DispatchClass::Mandatory) }
	}
	pub fn get(&self, c: DispatchClass) -> &T {
		match c {
			DispatchClass::Normal => &self.normal,
			DispatchClass::Operational => &self.operational,
			DispatchClass::Mandatory => &self.mandatory,
		}
	}
	pub fn get_mut(&mut self, c: DispatchClass) -> &mut T {
		match c {
			DispatchClass::Normal => &mut self.normal,
			DispatchClass::Operational => &mut self.operational,
			DispatchClass::Mandatory => &mut self.mandatory,
		}
	}
}
#[allow(unused)]
fn _u<T: MaxEncodedLen>() {}
pub trait OneOrMany<T> {
	type Iter: Iterator<Item = T>;
	fn into_iter(self) -> Self::Iter;
}
impl OneOrMany<DispatchClass> for DispatchClass {
	type Iter = std::iter::Once<DispatchClass>;
	fn into_iter(self) -> Self::Iter {
		std::iter::once(self)
	}
}
impl<'a> OneOrMany<DispatchClass> for &'a [DispatchClass] {
	type Iter = std::iter::Cloned<std::slice::Iter<'a, DispatchClass>>;
	fn into_iter(self) -> Self::Iter {
		self.iter().cloned()
	}
}
