//! Stand-ins for the parts of the node SDK that development-mode block sealing talks to. Every effect is recorded in a
//! thread-local [`World`]; time, imported transactions, block production and the poll order of merged streams are the
//! explorer's to choose.
#![allow(clippy::all)]
pub mod cli;
pub mod sealing;
pub mod service;
pub mod time;
pub mod world;

pub mod futures {
	pub use crate::stream_select;
	pub use real_futures::*;
}
/// The order in which merged streams are polled is random in the original: here it is a choice of the explorer.
#[macro_export]
macro_rules! stream_select {
	($($s:expr),+ $(,)?) => { $crate::world::Merged::new(vec![$( Box::pin($s) as ::std::pin::Pin<Box<dyn $crate::futures::Stream<Item = _> + Send>> ),+]) };
}
