//! Common machinery of the checks: evidence, verdicts, known findings and an explicit-state explorer.
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::path::PathBuf;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::Mutex;
use std::time::Instant;

pub mod explore;
pub use explore::*;

pub fn verif_dir() -> PathBuf {
	PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()))
}
pub fn thorough() -> bool {
	std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough")
}
pub fn pick<T>(quick: T, deep: T) -> T {
	if thorough() {
		deep
	} else {
		quick
	}
}
pub fn threads() -> usize {
	std::thread::available_parallelism().map_or(4, |n| n.get())
}

/// One check of one property.
pub struct Run {
	pub id: String,
	start: Instant,
	pub states: AtomicU64,
	pub transitions: AtomicU64,
	pub traces: AtomicU64,
	pub evaluations: AtomicU64,
	samples: Mutex<Vec<Value>>,
	viol: Mutex<BTreeMap<String, (String, Value)>>,
	nviol: AtomicU64,
	extra: Mutex<serde_json::Map<String, Value>>,
	known: HashMap<String, String>,
}

impl Run {
	pub fn new(id: &str) -> Self {
		let mut known = HashMap::new();
		// lines:  finding: property=C13 key=<key> <what fails>
		if let Ok(s) = std::fs::read_to_string(verif_dir().join("known_findings.txt")) {
			for l in s.lines() {
				let Some(rest) = l.strip_prefix("finding: property=") else { continue };
				let Some((p, rest)) = rest.split_once(' ') else { continue };
				let Some(rest) = rest.strip_prefix("key=") else { continue };
				let (k, what) = rest.split_once(' ').unwrap_or((rest, ""));
				if p == id {
					known.insert(k.to_string(), what.to_string());
				}
			}
		}
		Run {
			id: id.into(),
			start: Instant::now(),
			states: 0.into(),
			transitions: 0.into(),
			traces: 0.into(),
			evaluations: 0.into(),
			samples: Mutex::new(vec![]),
			viol: Mutex::new(BTreeMap::new()),
			nviol: 0.into(),
			extra: Mutex::new(Default::default()),
			known,
		}
	}
	pub fn state(&self, n: u64) {
		self.states.fetch_add(n, Relaxed);
	}
	pub fn trans(&self, n: u64) {
		self.transitions.fetch_add(n, Relaxed);
	}
	pub fn trace(&self, n: u64) {
		self.traces.fetch_add(n, Relaxed);
	}
	pub fn eval(&self, n: u64) {
		self.evaluations.fetch_add(n, Relaxed);
	}
	pub fn sample(&self, v: Value) {
		let mut s = self.samples.lock().unwrap();
		if s.len() < 12 {
			s.push(v)
		}
	}
	pub fn note(&self, k: &str, v: impl Into<Value>) {
		self.extra.lock().unwrap().insert(k.into(), v.into());
	}
	/// A monitor's key may name the properties it speaks for (`C30:sum`, `C30,C32:x`); without a name it speaks for all.
	pub fn mine(&self, key: &str) -> bool {
		speaks_for(key, &self.id)
	}
	/// Reports one failure. `key` names the cause (one report is kept per key).
	pub fn fail(&self, key: &str, what: impl Into<String>, replay: Value) {
		if !self.mine(key) {
			return
		}
		let key = match key.split_once(':') {
			Some((p, k)) if p.starts_with('C') && p[1..].starts_with(|c: char| c.is_ascii_digit()) => k,
			_ => key,
		};
		self.nviol.fetch_add(1, Relaxed);
		self.viol.lock().unwrap().entry(key.to_string()).or_insert_with(|| (what.into(), replay));
	}
	pub fn ok(&self, cond: bool, key: &str, what: impl FnOnce() -> String) -> bool {
		if !cond {
			let w = what();
			self.fail(key, w.clone(), json!({ "what": w }));
		}
		cond
	}
	pub fn failed(&self) -> bool {
		self.viol.lock().unwrap().keys().any(|k| !self.known.contains_key(k))
	}
	pub fn failures(&self) -> u64 {
		self.nviol.load(Relaxed)
	}
	/// Number of distinct failures that are not known findings.
	pub fn fresh(&self) -> usize {
		self.viol.lock().unwrap().keys().filter(|k| !self.known.contains_key(*k)).count()
	}
	pub fn is_known(&self, key: &str) -> bool {
		self.known.contains_key(key)
	}
	/// Reports what there is and ends the check, whatever is still running.
	pub fn give_up(&self, key: &str, what: impl Into<String>, replay: Value) -> ! {
		if !key.is_empty() {
			self.fail(key, what, replay);
		}
		std::process::exit(if self.finish() { 0 } else { 1 })
	}
	/// Writes the evidence and prints the verdict; returns whether the property held.
	pub fn finish(&self) -> bool {
		let dir = verif_dir();
		let viol = self.viol.lock().unwrap().clone();
		let mut bad = vec![];
		let mut seen_known = vec![];
		for (k, (w, r)) in &viol {
			if let Some(text) = self.known.get(k) {
				println!("KNOWN-FINDING: property={} key={} {}", self.id, k, text);
				seen_known.push(json!({"key": k, "observed": w}));
			} else {
				bad.push((k.clone(), w.clone(), r.clone()));
			}
		}
		let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
		let mut cov = serde_json::Map::new();
		// where inputs are enumerated rather than states searched, each input is one state of the space and runs the real code
		let n = self.evaluations.load(Relaxed);
		let or = |x: &AtomicU64| match x.load(Relaxed) {
			0 => n,
			x => x,
		};
		cov.insert("states".into(), or(&self.states).into());
		cov.insert("transitions".into(), self.transitions.load(Relaxed).into());
		cov.insert("traces_validated_against_impl".into(), or(&self.traces).into());
		cov.insert("evaluations".into(), self.evaluations.load(Relaxed).into());
		let s = self.samples.lock().unwrap().clone();
		cov.insert("samples".into(), s.into());
		cov.insert("known_findings_observed".into(), seen_known.into());
		cov.insert("violations".into(), bad.iter().map(|(k, w, _)| json!({"key": k, "what": w})).collect::<Vec<_>>().into());
		for (k, v) in self.extra.lock().unwrap().clone() {
			cov.insert(k, v);
		}
		let ev = json!({
			"property": self.id,
			"tier": if thorough() { "thorough" } else { "quick" },
			"seed": seed,
			"level": "model_checking",
			"coverage": cov,
			"wall_s": self.start.elapsed().as_secs_f64(),
		});
		let _ = std::fs::create_dir_all(dir.join("evidence"));
		std::fs::write(dir.join("evidence").join(format!("{}.json", self.id)), serde_json::to_string_pretty(&ev).unwrap() + "\n").expect("evidence");
		if bad.is_empty() {
			println!(
				"OK property={} states={} transitions={} traces={} evaluations={} wall={:.1}s",
				self.id,
				ev["coverage"]["states"],
				ev["coverage"]["transitions"],
				ev["coverage"]["traces_validated_against_impl"],
				ev["coverage"]["evaluations"],
				self.start.elapsed().as_secs_f64()
			);
			return true
		}
		let rd = dir.join("build").join("replay");
		let _ = std::fs::create_dir_all(&rd);
		for (n, (k, w, r)) in bad.iter().enumerate() {
			if n >= 10 {
				println!("... and {} more", bad.len() - n);
				break
			}
			let p = rd.join(format!("{}-{}.json", self.id, n));
			let _ = std::fs::write(&p, serde_json::to_string_pretty(&json!({"property": self.id, "key": k, "what": w, "replay": r})).unwrap());
			println!("VIOLATION property={} replay={} key={} {}", self.id, p.display(), k, w);
		}
		false
	}
}

/// Runs the checks named on the command line (property ids).
fn speaks_for(key: &str, id: &str) -> bool {
	match key.split_once(':') {
		Some((p, _)) if p.starts_with('C') && p[1..].starts_with(|c: char| c.is_ascii_digit()) => p.split(',').any(|x| x == id),
		_ => true,
	}
}
static CURRENT: std::sync::RwLock<String> = std::sync::RwLock::new(String::new());
/// Whether the property being checked is one the key speaks for.
pub fn current(key: &str) -> bool {
	let c = CURRENT.read().unwrap();
	c.is_empty() || speaks_for(key, &c)
}
pub fn main_with(checks: &[(&str, fn(&Run))]) {
	let want: Vec<String> = std::env::args().skip(1).filter(|a| !a.starts_with('-')).collect();
	let mut ok = true;
	let mut ran = 0;
	for (id, f) in checks {
		if want.is_empty() || want.iter().any(|w| w == id) {
			ran += 1;
			*CURRENT.write().unwrap() = id.to_string();
			let run: &'static Run = Box::leak(Box::new(Run::new(id)));
			let done = std::sync::Arc::new(std::sync::atomic::AtomicBool::new(false));
			let watch = {
				let done = done.clone();
				std::thread::spawn(move || {
					while !done.load(Relaxed) {
						std::thread::park_timeout(std::time::Duration::from_secs(1));
						if !thorough() {
							if let Some(i) = BUSY.lock().unwrap().iter().filter(|b| std::sync::Arc::strong_count(b) > 1).find_map(|b| b.stuck(STUCK_INPUT)) {
								run.give_up("hang", format!("the code under test does not come back from input {i} of the enumeration"), json!({ "input": i }));
							}
							// a violation that was found is reported in time even if the rest of the search is slow
							if run.start.elapsed().as_secs() > 700 && run.fresh() > 0 {
								run.give_up("", "", json!({}));
							}
						}
					}
				})
			};
			if let Err(p) = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&run))) {
				run.fail("panic", format!("the code under test panicked: {}", panic_text(&p)), json!({}));
			}
			done.store(true, Relaxed);
			watch.thread().unpark();
			let _ = watch.join();
			ok &= run.finish();
		}
	}
	if ran == 0 {
		eprintln!("no such check: {want:?}");
		std::process::exit(2);
	}
	std::process::exit(if ok { 0 } else { 1 });
}
pub fn panic_text(p: &Box<dyn std::any::Any + Send>) -> String {
	p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_else(|| "?".into())
}
/// Silences the default panic message (panics of the code under test are results here).
pub fn quiet_panics() {
	std::panic::set_hook(Box::new(|_| {}));
}
pub fn catch<R>(f: impl FnOnce() -> R) -> Result<R, String> {
	std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|p| panic_text(&p))
}

/// How long the real code may take for one step of an exploration and for one input of an enumeration (most take less than a millisecond).
pub const STUCK_STEP: u64 = 120;
const STUCK_INPUT: u64 = 400;
/// What a thread is busy with, and since when.
pub struct Busy {
	since: AtomicU64,
	what: AtomicU64,
}
static BUSY: Mutex<Vec<std::sync::Arc<Busy>>> = Mutex::new(vec![]);
fn now() -> u64 {
	static T: std::sync::OnceLock<Instant> = std::sync::OnceLock::new();
	T.get_or_init(Instant::now).elapsed().as_secs() + 1
}
impl Busy {
	pub fn new() -> std::sync::Arc<Self> {
		std::sync::Arc::new(Busy { since: 0.into(), what: 0.into() })
	}
	pub fn begin(&self, what: u64) {
		self.what.store(what, Relaxed);
		self.since.store(now(), Relaxed);
	}
	pub fn end(&self) {
		self.since.store(0, Relaxed);
	}
	pub fn stuck(&self, secs: u64) -> Option<u64> {
		let since = self.since.load(Relaxed);
		(since > 0 && now() > since + secs).then(|| self.what.load(Relaxed))
	}
}

/// Runs `f(i)` for every i of 0..n on all cores.
pub fn par(n: usize, f: impl Fn(usize) + Sync) {
	let next = AtomicU64::new(0);
	std::thread::scope(|s| {
		let hs: Vec<_> = (0..threads().min(n.max(1)))
			.map(|_| {
				s.spawn(|| {
					let busy = Busy::new();
					BUSY.lock().unwrap().push(busy.clone());
					loop {
						let i = next.fetch_add(1, Relaxed) as usize;
						if i >= n {
							break
						}
						busy.begin(i as u64);
						f(i);
						busy.end();
					}
				})
			})
			.collect();
		for h in hs {
			if let Err(p) = h.join() {
				std::panic::resume_unwind(p)
			}
		}
	});
	BUSY.lock().unwrap().retain(|b| std::sync::Arc::strong_count(b) > 1);
}

/// Every string of length 0..=n over the alphabet.
pub fn strings<T: Clone>(alpha: &[T], n: usize) -> Vec<Vec<T>> {
	let mut all = vec![vec![]];
	let mut from = 0;
	for _ in 0..n {
		let to = all.len();
		for i in from..to {
			for a in alpha {
				let mut s = all[i].clone();
				s.push(a.clone());
				all.push(s);
			}
		}
		from = to;
	}
	all
}
pub fn distinct<T: std::hash::Hash + Eq>(i: impl IntoIterator<Item = T>) -> usize {
	i.into_iter().collect::<HashSet<_>>().len()
}
