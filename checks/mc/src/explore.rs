//! Explicit-state breadth-first exploration, level by level, on all cores.
use crate::{threads, Run};
use serde_json::json;
use std::collections::HashSet;
use std::fmt::Debug;
use std::sync::Mutex;
use std::time::Instant;

/// A violation found by one step.
pub struct Bad {
	pub key: String,
	pub what: String,
}
pub fn bad<T>(key: impl Into<String>, what: impl Into<String>) -> Result<T, Bad> {
	Err(Bad { key: key.into(), what: what.into() })
}
#[macro_export]
macro_rules! must {
	($c:expr, $key:expr, $($w:tt)*) => {
		if !($c) {
			// what another property says must not hide what this one says later
			let key: String = $key.into();
			if $crate::current(&key) {
				return $crate::bad(key, format!($($w)*))
			}
		}
	};
}

pub trait System: Sync {
	type State: Clone + Send + Sync;
	type Action: Clone + Debug + Send + Sync;
	fn init(&self) -> Vec<Self::State>;
	/// What identifies a state (a hash of everything that determines the future).
	fn key(&self, s: &Self::State) -> u128;
	fn actions(&self, s: &Self::State) -> Vec<Self::Action>;
	/// Runs the real code and the reference model; checks everything; None when the action leads nowhere new.
	fn step(&self, s: &Self::State, a: &Self::Action) -> Result<Option<Self::State>, Bad>;
	/// Checks made once per distinct state.
	fn check(&self, _s: &Self::State) -> Result<(), Bad> {
		Ok(())
	}
	fn describe(&self, _s: &Self::State) -> serde_json::Value {
		json!(null)
	}
}

#[derive(Clone, Copy)]
pub struct Bounds {
	pub depth: usize,
	pub max_states: usize,
	pub secs: u64,
}

pub struct Outcome {
	pub states: u64,
	pub transitions: u64,
	pub depth: usize,
	pub complete: bool,
}

struct Node<A> {
	parent: u32,
	act: Option<A>,
}

/// Explores; every distinct violation key is reported to `run` with the shortest action sequence leading to it.
pub fn explore<S: System>(run: &Run, name: &str, sys: &S, b: Bounds) -> Outcome {
	let t0 = Instant::now();
	let mut nodes: Vec<Node<S::Action>> = vec![];
	let nshard = 64usize;
	let seen: Vec<Mutex<HashSet<u128>>> = (0..nshard).map(|_| Mutex::new(HashSet::new())).collect();
	let mut frontier: Vec<(u32, S::State)> = vec![];
	let trace = |nodes: &Vec<Node<S::Action>>, mut i: u32, last: Option<&S::Action>| -> Vec<String> {
		let mut v: Vec<String> = last.iter().map(|a| format!("{a:?}")).collect();
		loop {
			let n = &nodes[i as usize];
			match &n.act {
				Some(a) => v.push(format!("{a:?}")),
				None => break,
			}
			i = n.parent;
		}
		v.reverse();
		v
	};
	for s in sys.init() {
		let k = sys.key(&s);
		if seen[k as usize % nshard].lock().unwrap().insert(k) {
			nodes.push(Node { parent: 0, act: None });
			if let Err(x) = sys.check(&s) {
				if run.mine(&x.key) {
				run.fail(&x.key, format!("{name}: {} in the initial state", x.what), json!({"system": name, "trace": []}));
				}
			}
			frontier.push((nodes.len() as u32 - 1, s));
		}
	}
	let (mut states, mut trans) = (frontier.len() as u64, 0u64);
	let mut depth = 0;
	let mut complete = true;
	while !frontier.is_empty() {
		if depth >= b.depth {
			complete = false;
			break
		}
		if states as usize >= b.max_states || t0.elapsed().as_secs() >= b.secs {
			complete = false;
			break
		}
		let n = frontier.len();
		let next = std::sync::atomic::AtomicUsize::new(0);
		let out: Mutex<Vec<(u32, S::Action, S::State)>> = Mutex::new(vec![]);
		let bads: Mutex<Vec<(u32, S::Action, Bad)>> = Mutex::new(vec![]);
		let count = std::sync::atomic::AtomicU64::new(0);
		let cut = std::sync::atomic::AtomicBool::new(false);
		let slots: Vec<_> = (0..threads().min(n)).map(|_| crate::Busy::new()).collect();
		let done = std::sync::atomic::AtomicBool::new(false);
		std::thread::scope(|sc| {
			let watch = sc.spawn(|| {
				while !done.load(std::sync::atomic::Ordering::Relaxed) {
					std::thread::park_timeout(std::time::Duration::from_secs(1));
					let Some(w) = slots.iter().find_map(|b| b.stuck(crate::STUCK_STEP)) else { continue };
					let (id, s) = &frontier[(w >> 16) as usize];
					let tr = trace(&nodes, *id, sys.actions(s).get((w & 0xffff) as usize));
					run.give_up("hang", format!("{name}: the code under test does not come back after {}", tr.join("; ")), json!({"system": name, "trace": tr}));
				}
			});
			let mut workers = vec![];
			for slot in &slots {
				let (out, bads, count, cut, next, frontier, seen, t0) = (&out, &bads, &count, &cut, &next, &frontier, &seen, &t0);
				workers.push(sc.spawn(move || {
					let mut local = vec![];
					loop {
						let lo = next.fetch_add(16, std::sync::atomic::Ordering::Relaxed);
						if lo >= n {
							break
						}
						if t0.elapsed().as_secs() >= b.secs {
							cut.store(true, std::sync::atomic::Ordering::Relaxed);
							break
						}
						for i in lo..(lo + 16).min(n) {
							let (id, s) = &frontier[i];
							for (k, a) in sys.actions(s).into_iter().enumerate() {
								slot.begin((i as u64) << 16 | k as u64 & 0xffff);
								count.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
								let r = crate::catch(|| sys.step(s, &a)).unwrap_or_else(|p| bad(format!("panic-{}", action_name(&a)), format!("panicked: {p}")));
								match r {
									Err(x) if !run.mine(&x.key) => {},
									Err(x) => bads.lock().unwrap().push((*id, a, x)),
									Ok(None) => {},
									Ok(Some(t)) => {
										let k = sys.key(&t);
										if seen[k as usize % nshard].lock().unwrap().insert(k) {
											match crate::catch(|| sys.check(&t)).unwrap_or_else(|p| bad("panic-check", p)) {
												Err(x) if run.mine(&x.key) => bads.lock().unwrap().push((*id, a.clone(), x)),
												_ => local.push((*id, a, t)),
											}
										}
									},
								}
								slot.end();
							}
						}
					}
					out.lock().unwrap().append(&mut local);
				}));
			}
			let ends: Vec<_> = workers.into_iter().map(|w| w.join()).collect();
			done.store(true, std::sync::atomic::Ordering::Relaxed);
			watch.thread().unpark();
			if let Some(Err(p)) = ends.into_iter().find(|e| e.is_err()) {
				std::panic::resume_unwind(p)
			}
		});
		trans += count.into_inner();
		let mut bads = bads.into_inner().unwrap();
		bads.sort_by_key(|x| x.0);
		for (id, a, x) in bads.iter() {
			let tr = trace(&nodes, *id, Some(a));
			run.fail(&x.key, format!("{name}: {} after {}", x.what, tr.join("; ")), json!({"system": name, "what": x.what, "trace": tr}));
		}
		let next_level = out.into_inner().unwrap();
		frontier = Vec::with_capacity(next_level.len());
		for (p, a, s) in next_level {
			nodes.push(Node { parent: p, act: Some(a) });
			frontier.push((nodes.len() as u32 - 1, s));
		}
		states += frontier.len() as u64;
		depth += 1;
		if cut.into_inner() {
			complete = false;
			break
		}
		if run.fresh() > 8 {
			complete = false;
			break
		}
	}
	// a few full traces as samples
	if let Some((id, s)) = frontier.first() {
		run.sample(json!({"system": name, "trace": trace(&nodes, *id, None), "state": sys.describe(s)}));
	} else if let Some(i) = nodes.len().checked_sub(1) {
		run.sample(json!({"system": name, "trace": trace(&nodes, i as u32, None)}));
	}
	run.state(states);
	run.trans(trans);
	run.trace(trans);
	run.note(&format!("explored:{name}"), json!({"states": states, "transitions": trans, "depth": depth, "all_reachable_states_within_alphabet": complete, "secs": t0.elapsed().as_secs_f64()}));
	Outcome { states, transitions: trans, depth, complete }
}
pub fn action_name<A: Debug>(a: &A) -> String {
	format!("{a:?}").chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect()
}
