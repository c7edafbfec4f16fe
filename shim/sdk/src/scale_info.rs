//! Type metadata: names only.
pub use sdk_macros::TypeInfo;
pub mod prelude {
	pub use std::*;
}
#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Type {
	pub name: String,
}
impl Type {
	pub fn named(n: &str) -> Self {
		Type { name: n.into() }
	}
	pub fn builder() -> TypeBuilder {
		TypeBuilder::default()
	}
}
#[derive(Default)]
pub struct TypeBuilder(String);
impl TypeBuilder {
	pub fn path(mut self, p: Path) -> Self {
		self.0 = p.0;
		self
	}
	pub fn type_params(self, _: Vec<TypeParameter>) -> Self {
		self
	}
	pub fn composite<F>(self, _: F) -> Type {
		Type { name: self.0 }
	}
}
pub struct Path(String);
impl Path {
	pub fn new(n: &str, _m: &str) -> Self {
		Path(n.into())
	}
}
pub struct MetaType(pub Type);
pub fn meta_type<T: ?Sized>() -> MetaType {
	MetaType(Type::named(std::any::type_name::<T>()))
}
pub struct TypeParameter;
impl TypeParameter {
	pub fn new(_n: &str, _t: Option<MetaType>) -> Self {
		TypeParameter
	}
}
pub mod build {
	pub struct Fields;
	impl Fields {
		pub fn unnamed() -> Self {
			Fields
		}
		pub fn field(self, f: impl Fn(FieldBuilder) -> FieldBuilder) -> Self {
			f(FieldBuilder);
			self
		}
	}
	pub struct FieldBuilder;
	impl FieldBuilder {
		pub fn ty<T: ?Sized>(self) -> Self {
			self
		}
		pub fn type_name(self, _: &str) -> Self {
			self
		}
	}
}
pub trait TypeInfo {
	type Identity: ?Sized;
	fn type_info() -> Type;
}
pub trait StaticTypeInfo: TypeInfo + 'static {}
impl<T: TypeInfo + 'static> StaticTypeInfo for T {}
macro_rules! ti { ($($t:ty),*) => {$(impl TypeInfo for $t { type Identity = Self; fn type_info() -> Type { Type::named(stringify!($t)) } })*} }
ti!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, bool, char, String, str, ());
macro_rules! tg { ($([$($g:tt)*] $t:ty;)*) => {$(impl<$($g)*> TypeInfo for $t { type Identity = Self; fn type_info() -> Type { Type::named(stringify!($t)) } })*} }
tg! {
	[T: TypeInfo] Option<T>; [T: TypeInfo] Vec<T>; [T: TypeInfo] [T]; [T: TypeInfo, const N: usize] [T; N]; [T: TypeInfo, E: TypeInfo] Result<T, E>;
	[T: TypeInfo + ?Sized] Box<T>; [T] std::marker::PhantomData<T>; [K: TypeInfo, V: TypeInfo] std::collections::BTreeMap<K, V>; [K: TypeInfo] std::collections::BTreeSet<K>;
	['a, T: TypeInfo + ?Sized] &'a T; [T] crate::codec::Compact<T>;
	[A: TypeInfo] (A,); [A: TypeInfo, B: TypeInfo] (A, B); [A: TypeInfo, B: TypeInfo, C: TypeInfo] (A, B, C); [A: TypeInfo, B: TypeInfo, C: TypeInfo, D: TypeInfo] (A, B, C, D);
	[A: TypeInfo, B: TypeInfo, C: TypeInfo, D: TypeInfo, F: TypeInfo] (A, B, C, D, F); [A: TypeInfo, B: TypeInfo, C: TypeInfo, D: TypeInfo, F: TypeInfo, G: TypeInfo] (A, B, C, D, F, G); [A: TypeInfo, B: TypeInfo, C: TypeInfo, D: TypeInfo, F: TypeInfo, G: TypeInfo, H: TypeInfo] (A, B, C, D, F, G, H); [A: TypeInfo, B: TypeInfo, C: TypeInfo, D: TypeInfo, F: TypeInfo, G: TypeInfo, H: TypeInfo, I: TypeInfo] (A, B, C, D, F, G, H, I); [A: TypeInfo, B: TypeInfo, C: TypeInfo, D: TypeInfo, F: TypeInfo, G: TypeInfo, H: TypeInfo, I: TypeInfo, J: TypeInfo] (A, B, C, D, F, G, H, I, J); [A: TypeInfo, B: TypeInfo, C: TypeInfo, D: TypeInfo, F: TypeInfo, G: TypeInfo, H: TypeInfo, I: TypeInfo, J: TypeInfo, K: TypeInfo] (A, B, C, D, F, G, H, I, J, K); [A: TypeInfo, B: TypeInfo, C: TypeInfo, D: TypeInfo, F: TypeInfo, G: TypeInfo, H: TypeInfo, I: TypeInfo, J: TypeInfo, K: TypeInfo, L: TypeInfo] (A, B, C, D, F, G, H, I, J, K, L); [A: TypeInfo, B: TypeInfo, C: TypeInfo, D: TypeInfo, F: TypeInfo, G: TypeInfo, H: TypeInfo, I: TypeInfo, J: TypeInfo, K: TypeInfo, L: TypeInfo, M: TypeInfo] (A, B, C, D, F, G, H, I, J, K, L, M);
}
