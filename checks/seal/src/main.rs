//! Block sealing of a development node (C36). The real sealing loop (`block_sealing.rs`) runs under an explorer that owns
//! time, the transaction pool, the operator's commands, the duration of block making and the order in which the merged
//! streams are polled; every sequence of these up to a length is executed. The record of what reached the sealing engine must
//! be an interleaving of the operator's commands (in order) with one seal per imported transaction or elapsed tick.
use clap::{CommandFactory, FromArgMatches, ValueEnum};
use cli_opt::SealingMode;
use frequency_service::rpc::{Built, Sink};
use nodekit::{
	futures::{channel::oneshot, task::ArcWake},
	sealing::sc_consensus_manual_seal::{CreatedBlock, EngineCommand, Error as SealError, Tagged},
	service::{Configuration, DenyUnsafe, Hash},
	world::{self, with, Ev},
};
use serde_json::json;
use std::{
	collections::HashSet,
	sync::{
		atomic::{AtomicBool, Ordering::SeqCst},
		Arc,
	},
	task::{Context, Poll},
	time::Duration,
};

type Run = mc::Run;
#[derive(Clone, Debug)]
struct Cfg {
	mode: SealingMode,
	interval: u16,
	empty: bool,
	authority: bool,
	offchain: bool,
	slow: bool,
	/// started through the command line
	argv: Option<Vec<String>>,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Act {
	Import,
	/// the pool loses its transactions (included elsewhere, or dropped)
	Drain,
	/// seconds pass
	Pass(u16),
	Seal { create_empty: bool, finalize: bool, parent: bool },
	Finalize { justified: bool },
	/// the node runs; merged streams are polled in this order
	Go { flip: bool },
	/// the block being made is done
	Made,
}
#[derive(Clone, Debug)]
enum Cmd {
	Seal { tag: u32, create_empty: bool, finalize: bool, parent: Option<u32> },
	Finalize { tag: u32, hash: u32, justification: Option<Vec<u8>> },
}
struct Flag(AtomicBool);
impl ArcWake for Flag {
	fn wake_by_ref(a: &Arc<Self>) {
		a.0.store(true, SeqCst)
	}
}
enum Answer {
	Seal(u32, oneshot::Receiver<Result<CreatedBlock<Hash>, SealError>>),
	Fin(u32, oneshot::Receiver<Result<(), SealError>>),
}
struct Node {
	tasks: Vec<std::pin::Pin<Box<dyn std::future::Future<Output = ()> + Send>>>,
	sink: Option<Sink>,
	flag: Arc<Flag>,
	queue: Vec<Cmd>,
	auto: usize,
	/// commands that may have been carried out already
	at: HashSet<(usize, usize)>,
	ticks: u64,
	/// transactions taken by the block in the making
	making: Option<usize>,
	seen: usize,
	answers: Vec<Answer>,
	next: u32,
	started: Duration,
}
fn hash(n: u32) -> Hash {
	let mut h = Hash::default();
	h.0[28..].copy_from_slice(&n.to_be_bytes());
	h
}
fn start(c: &Cfg) -> Result<Node, String> {
	world::reset();
	with(|w| {
		w.authority = c.authority;
		w.slow = c.slow;
		w.offchain = c.offchain;
	});
	match &c.argv {
		None => drop(
			frequency_service::block_sealing::frequency_dev_sealing(Configuration::of_world(), c.mode, c.interval, c.empty).map_err(|e| e.to_string())?,
		),
		Some(argv) => {
			// as `SubstrateCli::from_args` does
			let m = frequency_cli::cli::Cli::command().version("0").try_get_matches_from(argv).map_err(|e| format!("rejected: {:?}", e.kind()))?;
			let cli = frequency_cli::cli::Cli::from_arg_matches(&m).map_err(|e| format!("rejected: {:?}", e.kind()))?;
			frequency_cli::run_as_localchain::run_as_localchain(cli).map_err(|e| format!("{e:?}"))?
		},
	}
	let (tasks, built) = with(|w| (std::mem::take(&mut w.tasks), std::mem::take(&mut w.rpc_built)));
	let mut sinks = vec![];
	for b in built {
		let b = b.downcast::<Built>().map_err(|_| "foreign RPC".to_string())?;
		if b.offchain_db != c.offchain {
			return Err(format!("the RPC {} the off-chain database", if b.offchain_db { "has" } else { "lacks" }))
		}
		sinks.push((b.deny_unsafe, b.command_sink));
	}
	if sinks.iter().map(|s| s.0).collect::<Vec<_>>() != [DenyUnsafe::Yes, DenyUnsafe::No] {
		return Err("the RPC does not see which calls are safe".into())
	}
	let sink = sinks.pop().and_then(|s| s.1);
	Ok(Node {
		tasks: tasks.into_iter().map(|t| t.1).collect(),
		sink,
		flag: Arc::new(Flag(AtomicBool::new(true))),
		queue: vec![],
		auto: 0,
		at: [(0, 0)].into(),
		ticks: 0,
		making: None,
		seen: 0,
		answers: vec![],
		next: 1,
		started: with(|w| w.now),
	})
}
fn enabled(n: &Node, c: &Cfg, a: Act) -> bool {
	match a {
		Act::Go { .. } => n.flag.0.load(SeqCst),
		Act::Made => with(|w| w.building),
		Act::Pass(_) => c.mode == SealingMode::Interval,
		Act::Drain => with(|w| w.ready > 0),
		Act::Seal { .. } | Act::Finalize { .. } => n.sink.is_some(),
		Act::Import => true,
	}
}
fn send(n: &mut Node, c: EngineCommand<Hash>) -> Result<(), String> {
	n.sink.as_mut().unwrap().try_send(c).map_err(|e| format!("the node does not take commands: {e}"))
}
fn step(n: &mut Node, c: &Cfg, a: Act) -> Result<(), String> {
	match a {
		Act::Import => {
			world::import();
			if c.mode == SealingMode::Instant && c.authority {
				n.auto += 1;
			}
		},
		Act::Drain => with(|w| w.ready = 0),
		Act::Pass(s) => world::advance(Duration::from_secs(s.into())),
		Act::Made => world::release(),
		Act::Seal { create_empty, finalize, parent } => {
			let tag = n.next;
			n.next += 1;
			let parent = parent.then_some(1000 + tag);
			let (tx, rx) = oneshot::channel();
			send(n, EngineCommand::SealNewBlock { create_empty, finalize, parent_hash: parent.map(hash), sender: Some(Tagged { tag, tx }) })?;
			n.answers.push(Answer::Seal(tag, rx));
			n.queue.push(Cmd::Seal { tag, create_empty, finalize, parent });
		},
		Act::Finalize { justified } => {
			let tag = n.next;
			n.next += 1;
			let justification = justified.then(|| vec![tag as u8, 7]);
			let (tx, rx) = oneshot::channel();
			send(n, EngineCommand::FinalizeBlock { hash: hash(2000 + tag), sender: Some(Tagged { tag, tx }), justification: justification.clone() })?;
			n.answers.push(Answer::Fin(tag, rx));
			n.queue.push(Cmd::Finalize { tag, hash: 2000 + tag, justification });
		},
		Act::Go { flip } => {
			n.flag.0.store(false, SeqCst);
			let (mut ready, busy) = with(|w| {
				w.flip = flip;
				(w.ready, w.building)
			});
			let waker = nodekit::futures::task::waker(n.flag.clone());
			let mut cx = Context::from_waker(&waker);
			let mut i = 0;
			while i < n.tasks.len() {
				match n.tasks[i].as_mut().poll(&mut cx) {
					Poll::Ready(()) => drop(n.tasks.remove(i)),
					Poll::Pending => i += 1,
				}
			}
			// what has become due
			if c.mode == SealingMode::Interval && c.authority {
				let t = (with(|w| w.now) - n.started).as_secs() / c.interval as u64 + 1;
				n.auto += (t - n.ticks) as usize;
				n.ticks = t;
			}
			let (log, building) = with(|w| (w.log[n.seen..].to_vec(), w.building));
			n.seen += log.len();
			if let Some(taken) = n.making {
				if busy {
					return if log.is_empty() { Ok(()) } else { Err(format!("{:?} while a block is still being made", log[0])) }
				}
				ready -= taken.min(ready);
				n.making = None;
			}
			judge(n, c, &log, ready, building)?;
		},
	}
	Ok(())
}
/// Is `log` an order in which the outstanding commands can have been carried out, nothing left over?
fn judge(n: &mut Node, c: &Cfg, log: &[Ev], mut ready: usize, building: bool) -> Result<(), String> {
	let auto_empty = c.mode == SealingMode::Instant || c.empty;
	let idle = |m: usize, ready: usize| ready == 0 && matches!(n.queue.get(m), Some(Cmd::Seal { create_empty: false, .. }));
	let close = |s: HashSet<(usize, usize)>, ready: usize| {
		let (mut out, mut todo) = (HashSet::new(), s.into_iter().collect::<Vec<_>>());
		while let Some((m, a)) = todo.pop() {
			if out.insert((m, a)) {
				if idle(m, ready) {
					todo.push((m + 1, a))
				}
				if a < n.auto && !auto_empty && ready == 0 {
					todo.push((m, a + 1))
				}
			}
		}
		out
	};
	let mut at: HashSet<(usize, usize)> = close(n.at.clone(), ready);
	for (k, e) in log.iter().enumerate() {
		let mut to = HashSet::new();
		for &(m, a) in &at {
			match (e, n.queue.get(m)) {
				(Ev::Seal { tag: Some(t), parent: p, create_empty: x, finalize: f, .. }, Some(Cmd::Seal { tag, create_empty, finalize, parent }))
					if (t, p, x, f) == (tag, parent, create_empty, finalize) =>
				{
					to.insert((m + 1, a));
				},
				(Ev::Finalize { tag: Some(t), hash: h, justification: j }, Some(Cmd::Finalize { tag, hash, justification }))
					if t == tag && h == hash && *j == justification.clone().map(|x| (*b"manl", x)) =>
				{
					to.insert((m + 1, a));
				},
				_ => {},
			}
			if a < n.auto && *e == (Ev::Seal { tag: None, parent: None, create_empty: auto_empty, finalize: true, ready }) {
				to.insert((m, a + 1));
			}
		}
		if to.is_empty() {
			return Err(format!("{e:?} (action {k} of {log:?}) is not due: operator's commands {:?}, {} automatic, {ready} transactions ready", n.queue, n.auto))
		}
		if let Ev::Seal { create_empty, ready: r, .. } = e {
			if *r != ready {
				return Err(format!("harness: {r} ready, expected {ready}"))
			}
			if k + 1 == log.len() && building {
				n.making = Some(ready);
			} else if *create_empty || ready > 0 {
				ready = 0;
			}
		}
		at = if n.making.is_some() { to } else { close(to, ready) };
	}
	if building {
		// judged further once the block is made
		n.at = at;
		return Ok(())
	}
	let all = (n.queue.len(), n.auto);
	if !at.contains(&all) {
		return Err(format!("after {log:?} something due was not done: operator's commands {:?}, {} automatic, {ready} ready; done at most {at:?}", n.queue, n.auto))
	}
	n.queue.clear();
	n.auto = 0;
	n.at = [(0, 0)].into();
	Ok(())
}
fn settle(n: &mut Node, c: &Cfg) -> Result<(), String> {
	let mut k = 0;
	while n.flag.0.load(SeqCst) || with(|w| w.building) {
		k += 1;
		if k > 200 {
			return Err("the node never comes to rest".into())
		}
		if n.flag.0.load(SeqCst) {
			step(n, c, Act::Go { flip: false })?;
		} else {
			step(n, c, Act::Made)?;
		}
	}
	if !c.authority {
		return if n.seen > 0 || n.sink.is_some() { Err("a node that is no authority makes blocks".into()) } else { Ok(()) }
	}
	let t = if c.mode == SealingMode::Interval { (with(|w| w.now) - n.started).as_secs() / c.interval as u64 + 1 - n.ticks } else { 0 };
	if !n.queue.is_empty() || n.auto > 0 || t > 0 {
		return Err(format!("the node rests although {:?}, {} automatic seals and {t} ticks are due", n.queue, n.auto))
	}
	// the operator's answers
	let log = with(|w| w.log.clone());
	for a in n.answers.drain(..) {
		match a {
			Answer::Seal(tag, mut rx) => {
				let done = log.iter().any(|e| matches!(e, Ev::Seal { tag: Some(t), .. } if *t == tag));
				match rx.try_recv() {
					Ok(Some(Ok(b))) if done && b.tag == tag => {},
					Ok(Some(Err(_))) | Err(_) => {},
					x => return Err(format!("command {tag} is answered {x:?}")),
				}
			},
			Answer::Fin(tag, mut rx) =>
				if !matches!(rx.try_recv(), Ok(Some(Ok(())))) {
					return Err(format!("finalisation {tag} is not confirmed"))
				},
		}
	}
	Ok(())
}
fn exec(c: &Cfg, acts: &[Act]) -> Result<bool, String> {
	let mut n = start(c)?;
	for a in acts {
		if !enabled(&n, c, *a) {
			return Ok(false)
		}
		step(&mut n, c, *a)?;
	}
	settle(&mut n, c)?;
	Ok(true)
}
fn alphabet(c: &Cfg) -> Vec<Act> {
	let mut v = vec![Act::Import, Act::Drain, Act::Go { flip: false }];
	if c.authority {
		v.extend([
			Act::Go { flip: true },
			Act::Seal { create_empty: true, finalize: true, parent: false },
			Act::Seal { create_empty: false, finalize: false, parent: true },
			Act::Seal { create_empty: false, finalize: true, parent: false },
			Act::Seal { create_empty: true, finalize: false, parent: true },
			Act::Finalize { justified: true },
			Act::Finalize { justified: false },
		]);
	}
	if c.mode == SealingMode::Interval {
		v.push(Act::Pass(1));
		if c.interval > 1 {
			v.push(Act::Pass(c.interval));
		}
	}
	if c.slow {
		v.push(Act::Made)
	}
	v
}
/// Every sequence of enabled actions up to `depth` (each one re-executed from the start, as the real code cannot be copied).
fn walk(r: &Run, c: &Cfg, depth: usize) {
	let abc = alphabet(c);
	let firsts: Vec<Vec<Act>> = abc.iter().flat_map(|a| abc.iter().map(move |b| vec![*a, *b])).collect();
	fn go(r: &Run, c: &Cfg, abc: &[Act], pre: &mut Vec<Act>, depth: usize) {
		if r.fresh() > 3 {
			return
		}
		match mc::catch(|| exec(c, pre)).unwrap_or_else(|p| Err(format!("panics: {p}"))) {
			Ok(false) => return,
			Ok(true) => {
				r.trace(1);
				r.trans(pre.len() as u64);
				r.eval(1);
			},
			Err(e) => {
				r.fail(&format!("sealing-{}", c.mode.to_string().to_lowercase()), format!("{c:?}: after {pre:?}: {e}"), json!({ "config": format!("{c:?}"), "actions": format!("{pre:?}"), "what": e }));
				return
			},
		}
		if depth == 0 {
			return
		}
		for a in abc {
			pre.push(*a);
			go(r, c, abc, pre, depth - 1);
			pre.pop();
		}
	}
	mc::par(firsts.len(), |i| {
		let mut f = firsts[i].clone();
		go(r, c, &abc, &mut f, depth.saturating_sub(2));
	});
	for a in std::iter::once(vec![]).chain(abc.iter().map(|a| vec![*a])) {
		go(r, c, &abc, &mut a.clone(), 0);
	}
}
const MODES: [SealingMode; 3] = [SealingMode::Instant, SealingMode::Manual, SealingMode::Interval];
fn base(mode: SealingMode) -> Cfg {
	Cfg { mode, interval: 1, empty: false, authority: true, offchain: false, slow: false, argv: None }
}
fn sealing(r: &Run) {
	let mut n = 0;
	for mode in MODES {
		for empty in [false, true] {
			for slow in [false, true] {
				for interval in [1u16, 2] {
					if interval == 2 && mode != SealingMode::Interval {
						continue
					}
					let c = Cfg { empty, slow, interval, offchain: slow, ..base(mode) };
					walk(r, &c, mc::pick(6, 7));
					n += 1;
				}
			}
			walk(r, &Cfg { empty, authority: false, ..base(mode) }, 5);
			n += 1;
		}
	}
	r.note("node configurations", json!(n));
}
fn text(r: &Run) {
	for m in MODES {
		let want = match m {
			SealingMode::Instant => "instant",
			SealingMode::Manual => "manual",
			SealingMode::Interval => "interval",
		};
		let shown = m.to_string();
		r.ok(shown.to_lowercase() == want, "mode-text", || format!("{m:?} is shown as {shown}"));
		let name = m.to_possible_value().map(|v| v.get_name().to_string());
		r.ok(name.as_deref() == Some(want), "mode-name", || format!("{m:?} is chosen by {name:?}"));
		r.ok(SealingMode::from_str(&shown, true) == Ok(m), "mode-round-trip", || format!("{shown} does not name {m:?}"));
		// every spelling in upper and lower case, and every text one edit away
		for bits in 0..1u32 << want.len() {
			let s: String = want.chars().enumerate().map(|(i, c)| if bits >> i & 1 == 1 { c.to_ascii_uppercase() } else { c }).collect();
			r.eval(1);
			r.ok(SealingMode::from_str(&s, true) == Ok(m), "mode-spelling", || format!("{s} does not name {m:?}"));
			r.ok(SealingMode::from_str(&s, false).ok() == (bits == 0).then_some(m), "mode-exact", || format!("{s} (exact) gives {:?}", SealingMode::from_str(&s, false)));
		}
		let cs: Vec<char> = want.chars().collect();
		for i in 0..=cs.len() {
			for x in ('a'..='z').chain(['-', ' ', '_', '0']) {
				let mut edits = vec![[&cs[..i], &[x], &cs[i..]].concat()];
				if i < cs.len() {
					edits.push([&cs[..i], &[x], &cs[i + 1..]].concat());
					edits.push([&cs[..i], &cs[i + 1..]].concat());
				}
				for e in edits {
					let s: String = e.iter().collect();
					if s != want {
						r.eval(1);
						r.ok(SealingMode::from_str(&s, true).is_err(), "mode-lenient", || format!("{s} is taken for {:?}", SealingMode::from_str(&s, true)));
					}
				}
			}
		}
	}
	let all: Vec<_> = SealingMode::value_variants().to_vec();
	r.ok(all == MODES, "mode-list", || format!("the modes offered are {all:?}"));
	for a in MODES {
		for b in MODES {
			r.ok((a == b) == (a.to_string() == b.to_string()), "mode-distinct", || format!("{a:?} and {b:?} look alike"));
		}
	}
}
/// Everything the command line can say about sealing.
fn command_line(r: &Run) {
	let modes = [None, Some("instant"), Some("manual"), Some("interval"), Some("Instant"), Some("never"), Some("")];
	let intervals = [None, Some("1"), Some("2"), Some("12"), Some("300"), Some("65535"), Some("0"), Some("65536"), Some("-1"), Some("x")];
	let mut jobs = vec![];
	for (mi, m) in modes.iter().enumerate() {
		for i in intervals {
			for empty in [false, true] {
				for eq in [true, false] {
					let mut argv = vec!["frequency".to_string(), "--dev".into()];
					let mut put = |k: &str, v: &str| {
						if eq {
							argv.push(format!("--{k}={v}"))
						} else {
							argv.push(format!("--{k}"));
							argv.push(v.into());
						}
					};
					if let Some(m) = m {
						put("sealing", m)
					}
					if let Some(i) = i {
						put("sealing-interval", i)
					}
					if empty {
						argv.push("--sealing-create-empty-blocks".into())
					}
					let mode = [Some(SealingMode::Instant), Some(SealingMode::Instant), Some(SealingMode::Manual), Some(SealingMode::Interval), None, None, None][mi];
					let secs = match i {
						None => Some(12),
						Some(t) => t.parse::<u16>().ok().filter(|x| *x > 0),
					};
					jobs.push((argv, mode, secs, empty));
				}
			}
		}
	}
	r.note("command lines", json!(jobs.len()));
	mc::par(jobs.len(), |i| {
		let (argv, mode, secs, empty) = &jobs[i];
		match (mode, secs) {
			(Some(mode), Some(secs)) => {
				let c = Cfg { interval: *secs, empty: *empty, argv: Some(argv.clone()), ..base(*mode) };
				let (s, abc) = (*secs, [Act::Import, Act::Drain, Act::Go { flip: false }, Act::Pass(*secs), Act::Pass(1), Act::Seal { create_empty: false, finalize: false, parent: true }]);
				let go = Act::Go { flip: false };
				let mut runs: Vec<Vec<Act>> = vec![vec![go, Act::Import, go, Act::Pass(s), go, Act::Import, Act::Pass(s), go, Act::Pass(s.max(2) - 1), go, Act::Pass(s)]];
				for a in abc {
					for b in abc {
						for d in abc {
							runs.push(vec![a, b, d, go]);
						}
					}
				}
				for acts in runs {
					let acts: Vec<Act> = acts.into_iter().filter(|a| *mode == SealingMode::Interval || !matches!(a, Act::Pass(_))).collect();
					match mc::catch(|| exec(&c, &acts)).unwrap_or_else(|p| Err(format!("panics: {p}"))) {
						Ok(x) => {
							r.eval(1);
							r.trace(x as u64)
						},
						Err(e) => r.fail("command-line", format!("{argv:?}: after {acts:?}: {e}"), json!({"argv": argv, "actions": format!("{acts:?}"), "what": e})),
					}
				}
			},
			_ => {
				let c = Cfg { argv: Some(argv.clone()), ..base(SealingMode::Manual) };
				r.eval(1);
				match mc::catch(|| start(&c).map(drop)) {
					Ok(Err(e)) if e.starts_with("rejected") => {},
					x => r.fail("command-line-accepts", format!("{argv:?} is not rejected: {x:?}"), json!({ "argv": argv })),
				}
			},
		}
	});
	// the flags of old releases stop the node rather than choosing a mode
	for flags in [vec!["--instant-sealing"], vec!["--manual-sealing"], vec!["--manual-sealing", "--instant-sealing"], vec!["--instant-sealing", "--sealing=manual"], vec!["--manual-sealing", "--sealing=interval"], vec![]] {
		let out = std::process::Command::new(std::env::current_exe().unwrap()).env("SEAL_CHILD", "1").args(&flags).output();
		r.eval(1);
		let ok = match &out {
			Ok(o) => (o.status.code() == Some(1) && o.stdout.is_empty()) != flags.is_empty() && (flags.is_empty() == (o.status.code() == Some(0) && o.stdout == b"running\n")),
			Err(_) => false,
		};
		r.ok(ok, "deprecated-flags", || format!("with {flags:?} the node gives {out:?}"));
	}
}
fn child() {
	let argv: Vec<String> = std::env::args().collect();
	let c = Cfg { argv: Some(argv), ..base(SealingMode::Manual) };
	match start(&c) {
		Ok(_) => println!("running"),
		Err(e) => {
			eprintln!("{e}");
			std::process::exit(3)
		},
	}
}
fn c36(r: &Run) {
	text(r);
	command_line(r);
	sealing(r);
}
fn main() {
	if std::env::var_os("SEAL_CHILD").is_some() {
		return child()
	}
	mc::quiet_panics();
	mc::main_with(&[("C36", c36)]);
}
