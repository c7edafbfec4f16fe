//! `tokio::time` on the explorer's clock.
use crate::world::{with, Timer};
pub use std::time::Duration;
use std::{
	future::Future,
	ops::{Add, Sub},
	pin::Pin,
	task::{Context, Poll},
};
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Instant(pub Duration);
impl Instant {
	pub fn now() -> Self {
		Instant(with(|w| w.now))
	}
	pub fn elapsed(&self) -> Duration {
		with(|w| w.now).saturating_sub(self.0)
	}
	pub fn duration_since(&self, o: Instant) -> Duration {
		self.0.saturating_sub(o.0)
	}
}
impl Add<Duration> for Instant {
	type Output = Instant;
	fn add(self, d: Duration) -> Instant {
		Instant(self.0 + d)
	}
}
impl Sub<Instant> for Instant {
	type Output = Duration;
	fn sub(self, d: Instant) -> Duration {
		self.0.saturating_sub(d.0)
	}
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
pub enum MissedTickBehavior {
	#[default]
	Burst,
	Delay,
	Skip,
}
pub struct Interval {
	i: usize,
	missed: MissedTickBehavior,
}
pub fn interval(period: Duration) -> Interval {
	interval_at(Instant::now(), period)
}
pub fn interval_at(start: Instant, period: Duration) -> Interval {
	assert!(period > Duration::ZERO, "`period` must be non-zero.");
	with(|w| {
		w.timers.push(Timer { waker: None, due: start.0, period });
		Interval { i: w.timers.len() - 1, missed: Default::default() }
	})
}
impl Interval {
	pub fn set_missed_tick_behavior(&mut self, m: MissedTickBehavior) {
		self.missed = m
	}
	pub fn period(&self) -> Duration {
		with(|w| w.timers[self.i].period)
	}
	pub fn poll_tick(&mut self, cx: &mut Context<'_>) -> Poll<Instant> {
		with(|w| {
			let now = w.now;
			let t = &mut w.timers[self.i];
			if now < t.due {
				t.waker = Some(cx.waker().clone());
				return Poll::Pending
			}
			let at = t.due;
			t.due = match self.missed {
				MissedTickBehavior::Burst => at + t.period,
				MissedTickBehavior::Delay => now + t.period,
				MissedTickBehavior::Skip => {
					let mut d = at;
					while d <= now {
						d += t.period
					}
					d
				},
			};
			Poll::Ready(Instant(at))
		})
	}
	pub async fn tick(&mut self) -> Instant {
		std::future::poll_fn(|cx| self.poll_tick(cx)).await
	}
	pub fn reset(&mut self) {
		with(|w| {
			let now = w.now;
			let t = &mut w.timers[self.i];
			t.due = now + t.period;
		})
	}
}
pub struct Sleep(usize);
impl Future for Sleep {
	type Output = ();
	fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
		with(|w| {
			let now = w.now;
			let t = &mut w.timers[self.0];
			if now >= t.due {
				return Poll::Ready(())
			}
			t.waker = Some(cx.waker().clone());
			Poll::Pending
		})
	}
}
pub fn sleep(d: Duration) -> Sleep {
	sleep_until(Instant::now() + d)
}
pub fn sleep_until(i: Instant) -> Sleep {
	with(|w| {
		w.timers.push(Timer { waker: None, due: i.0, period: Duration::MAX });
		Sleep(w.timers.len() - 1)
	})
}
