//! sp_api: runtime APIs are plain traits here.
use crate::sp_runtime::traits::Block as BlockT;
pub use sdk_macros::{decl_runtime_apis, impl_runtime_apis, mock_impl_runtime_apis};
pub use crate::codec;
#[derive(Debug)]
pub enum ApiError {
	FailedToDecodeReturnValue { function: &'static str, error: crate::codec::Error },
	FailedToConvertParameter { function: &'static str, parameter: &'static str, error: crate::codec::Error },
	Application(Box<dyn std::error::Error + Send + Sync>),
	StateBackendIsNotTrie,
	UnknownBlock(String),
}
impl std::fmt::Display for ApiError {
	fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
		write!(f, "{:?}", self)
	}
}
impl std::error::Error for ApiError {}
pub struct ApiRef<'a, T>(T, std::marker::PhantomData<&'a ()>);
impl<'a, T> From<T> for ApiRef<'a, T> {
	fn from(t: T) -> Self {
		ApiRef(t, std::marker::PhantomData)
	}
}
impl<'a, T> std::ops::Deref for ApiRef<'a, T> {
	type Target = T;
	fn deref(&self) -> &T {
		&self.0
	}
}
impl<'a, T> std::ops::DerefMut for ApiRef<'a, T> {
	fn deref_mut(&mut self) -> &mut T {
		&mut self.0
	}
}
pub trait ApiExt<B: BlockT> {}
pub trait ProvideRuntimeApi<B: BlockT> {
	type Api;
	fn runtime_api(&self) -> ApiRef<Self::Api>;
}
