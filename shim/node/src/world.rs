use real_futures::{channel::mpsc, Stream};
use std::{
	cell::RefCell,
	pin::Pin,
	task::{Context, Poll, Waker},
	time::Duration,
};

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Ev {
	Seal { tag: Option<u32>, parent: Option<u32>, create_empty: bool, finalize: bool, ready: usize },
	Finalize { tag: Option<u32>, hash: u32, justification: Option<([u8; 4], Vec<u8>)> },
}
pub struct Timer {
	pub waker: Option<Waker>,
	pub due: Duration,
	pub period: Duration,
}
#[derive(Default)]
pub struct World {
	/// transactions ready in the pool
	pub ready: usize,
	/// where the pool announces imported transactions
	pub import: Vec<mpsc::UnboundedSender<u32>>,
	pub now: Duration,
	pub timers: Vec<Timer>,
	pub log: Vec<Ev>,
	/// making a block takes until `release`
	pub slow: bool,
	pub building: bool,
	pub build_waker: Option<Waker>,
	/// poll merged streams back to front
	pub flip: bool,
	pub tasks: Vec<(String, Pin<Box<dyn std::future::Future<Output = ()> + Send>>)>,
	pub authority: bool,
	pub offchain: bool,
	pub new_partial_dev: Vec<bool>,
	pub network_started: bool,
	pub rpc_built: Vec<Box<dyn std::any::Any>>,
	/// tags of senders in use: the explorer's receivers are told which command their answer belongs to
	pub made: u32,
}
thread_local! { static W: RefCell<World> = RefCell::new(World::default()) }
pub fn with<R>(f: impl FnOnce(&mut World) -> R) -> R {
	W.with(|w| f(&mut w.borrow_mut()))
}
pub fn reset() -> World {
	W.with(|w| std::mem::take(&mut *w.borrow_mut()))
}
pub fn advance(d: Duration) {
	let wakers: Vec<Waker> = with(|w| {
		w.now += d;
		let now = w.now;
		w.timers.iter_mut().filter(|t| t.due <= now).filter_map(|t| t.waker.take()).collect()
	});
	wakers.into_iter().for_each(|w| w.wake());
}
pub fn import() {
	let s = with(|w| {
		w.ready += 1;
		w.import.clone()
	});
	for s in s {
		let _ = s.unbounded_send(0);
	}
}
pub fn release() {
	let k = with(|w| {
		w.building = false;
		w.build_waker.take()
	});
	if let Some(k) = k {
		k.wake()
	}
}

pub struct Merged<T>(Vec<(Pin<Box<dyn Stream<Item = T> + Send>>, bool)>);
impl<T> Merged<T> {
	pub fn new(v: Vec<Pin<Box<dyn Stream<Item = T> + Send>>>) -> Self {
		Merged(v.into_iter().map(|s| (s, false)).collect())
	}
}
impl<T> Stream for Merged<T> {
	type Item = T;
	fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<T>> {
		let flip = with(|w| w.flip);
		let n = self.0.len();
		for i in 0..n {
			let i = if flip { n - 1 - i } else { i };
			let (s, done) = &mut self.0[i];
			if *done {
				continue
			}
			match s.as_mut().poll_next(cx) {
				Poll::Ready(Some(x)) => return Poll::Ready(Some(x)),
				Poll::Ready(None) => *done = true,
				Poll::Pending => {},
			}
		}
		if self.0.iter().all(|x| x.1) {
			Poll::Ready(None)
		} else {
			Poll::Pending
		}
	}
}
