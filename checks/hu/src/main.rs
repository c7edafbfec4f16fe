//! C01..C04: exhaustive enumeration of the input spaces of the handle utilities against independent oracles.
use handles_utils::suffix::{generate_seed, generate_unique_suffixes};
use handles_utils::*;
use mc::*;
use serde_json::json;
use std::collections::{BTreeMap, HashMap};
use unicode_normalization::{char::is_combining_mark, UnicodeNormalization};

fn main() {
	quiet_panics();
	main_with(&[("C01", c01), ("C02", c02), ("C03", c03), ("C04", c04)]);
}

// ---------------------------------------------------------------- C01
fn xxh64(data: &[u8]) -> u64 {
	const P: [u64; 5] = [11400714785074694791, 14029467366897019727, 1609587929392839161, 9650029242287828579, 2870177450012600261];
	let rd8 = |b: &[u8]| u64::from_le_bytes(b[..8].try_into().unwrap());
	let round = |a: u64, x: u64| a.wrapping_add(x.wrapping_mul(P[1])).rotate_left(31).wrapping_mul(P[0]);
	let mut d = data;
	let mut h = if d.len() >= 32 {
		let mut v = [P[0].wrapping_add(P[1]), P[1], 0, 0u64.wrapping_sub(P[0])];
		while d.len() >= 32 {
			for i in 0..4 {
				v[i] = round(v[i], rd8(&d[8 * i..]));
			}
			d = &d[32..];
		}
		let mut h = v[0].rotate_left(1).wrapping_add(v[1].rotate_left(7)).wrapping_add(v[2].rotate_left(12)).wrapping_add(v[3].rotate_left(18));
		for x in v {
			h = (h ^ round(0, x)).wrapping_mul(P[0]).wrapping_add(P[3]);
		}
		h
	} else {
		P[4]
	};
	h = h.wrapping_add(data.len() as u64);
	while d.len() >= 8 {
		h = (h ^ round(0, rd8(d))).rotate_left(27).wrapping_mul(P[0]).wrapping_add(P[3]);
		d = &d[8..];
	}
	if d.len() >= 4 {
		let x = u32::from_le_bytes(d[..4].try_into().unwrap()) as u64;
		h = (h ^ x.wrapping_mul(P[0])).rotate_left(23).wrapping_mul(P[1]).wrapping_add(P[2]);
		d = &d[4..];
	}
	for &b in d {
		h = (h ^ (b as u64).wrapping_mul(P[4])).rotate_left(11).wrapping_mul(P[0]);
	}
	h ^= h >> 33;
	h = h.wrapping_mul(P[1]);
	h ^= h >> 29;
	h = h.wrapping_mul(P[2]);
	h ^ (h >> 32)
}
/// Permuted congruential generator with the increment oorandom uses.
struct Pcg {
	state: u64,
	inc: u64,
}
impl Pcg {
	fn new(seed: u64) -> Self {
		let mut p = Pcg { state: 0, inc: 1442695040888963407u64.wrapping_shl(1) | 1 };
		p.next();
		p.state = p.state.wrapping_add(seed);
		p.next();
		p
	}
	fn next(&mut self) -> u32 {
		let s = self.state;
		self.state = s.wrapping_mul(6364136223846793005).wrapping_add(self.inc);
		((((s >> 18) ^ s) >> 27) as u32).rotate_right((s >> 59) as u32)
	}
	fn below(&mut self, lo: u32, hi: u32) -> u32 {
		let n = hi - lo;
		let mut m = self.next() as u64 * n as u64;
		let mut left = m as u32;
		if left < n {
			let t = n.wrapping_neg() % n;
			while left < t {
				m = self.next() as u64 * n as u64;
				left = m as u32;
			}
		}
		lo + (m >> 32) as u32
	}
}
fn reference(min: u16, max: u16, base: &str) -> Vec<u16> {
	if min > max {
		return vec![]
	}
	let mut seed = base.as_bytes().to_vec();
	seed.extend([0; 4]);
	let mut r = Pcg::new(xxh64(&seed));
	let mut v: Vec<u16> = (min..=max).collect();
	let mut out = vec![];
	for i in (min as u32..=max as u32).rev() {
		let j = r.below(min as u32, i + 1);
		v.swap((i - min as u32) as usize, (j - min as u32) as usize);
		out.push(v[(i - min as u32) as usize]);
	}
	out
}
fn one_range(run: &Run, min: u16, max: u16, base: &str, deep: bool) {
	let call = |f: &dyn Fn() -> Vec<u16>| catch(f);
	run.trans(1);
	run.trace(1);
	let id = || format!("generate_unique_suffixes({min}, {max}, {base:?})");
	let got = match call(&|| generate_unique_suffixes(min, max, base).collect()) {
		Ok(v) => v,
		Err(p) => return run.fail("panic", format!("{} panicked: {p}", id()), json!({"min":min,"max":max,"base":base})),
	};
	run.state(got.len() as u64);
	let n = if min > max { 0 } else { (max - min) as usize + 1 };
	let mut seen = vec![false; n];
	let mut okp = got.len() == n;
	for &x in &got {
		if x < min || x > max || std::mem::replace(&mut seen[(x - min) as usize], true) {
			okp = false;
			break
		}
	}
	if !okp {
		run.fail("not-a-permutation", format!("{} yields {} elements: {:?}", id(), got.len(), &got[..got.len().min(24)]), json!({"min":min,"max":max,"base":base,"got":got.iter().take(200).collect::<Vec<_>>()}));
	}
	let want = reference(min, max, base);
	if got != want {
		run.fail("order-changed", format!("{} is no longer the published order: {:?}, want {:?}", id(), &got[..got.len().min(12)], &want[..want.len().min(12)]), json!({"min":min,"max":max,"base":base}));
	}
	if deep {
		// every way of reading element k
		let again: Vec<u16> = generate_unique_suffixes(min, max, base).collect();
		run.ok(again == got, "not-a-function", || format!("{} differs between two calls", id()));
		for k in 0..=n {
			let want = got.get(k).copied();
			run.ok(generate_unique_suffixes(min, max, base).nth(k) == want, "nth", || format!("{}.nth({k})", id()));
			let mut it = generate_unique_suffixes(min, max, base);
			let head: Vec<u16> = it.by_ref().take(k).collect();
			let tail: Vec<u16> = it.collect();
			run.ok(head == got[..k.min(n)] && tail == got[k.min(n)..], "resumed", || format!("{} read as {k} and the rest", id()));
			run.ok(generate_unique_suffixes(min, max, base).skip(k).step_by(3).collect::<Vec<_>>() == got[k.min(n)..].iter().copied().step_by(3).collect::<Vec<_>>(), "stepped", || format!("{} stepped from {k}", id()));
			run.eval(3);
		}
	}
}
fn c01(run: &Run) {
	let alpha = ['a', 'b', '0', 'é', '.', 'ж'];
	let bases: Vec<String> = strings(&alpha, pick(2, 3)).into_iter().map(|s| s.into_iter().collect()).collect();
	let width: u32 = pick(24, 48);
	// all sub-ranges of windows at both ends of the domain, around powers of two, and the runtime's own
	let windows: Vec<u16> = vec![0, 1, 100 - width as u16, 256 - width as u16 / 2, 32768 - width as u16 / 2, u16::MAX - width as u16 + 1];
	par(bases.len(), |b| {
		let base = &bases[b];
		run.ok(generate_seed(base) == generate_seed(&base.clone()), "seed", || "seed".into());
		for &w in &windows {
			for lo in 0..width {
				for hi in lo..width {
					one_range(run, w + lo as u16, w + hi as u16, base, b < 8 && (hi - lo) < 10);
				}
			}
		}
	});
	run.sample(json!({"range": [10, 99], "base": "a", "first": generate_unique_suffixes(10, 99, "a").take(10).collect::<Vec<_>>()}));
	// the ranges a runtime uses, for many bases
	let many: Vec<String> = strings(&['a', 'm', 'z', '0', '5', 'é', 'ה', '漢'], pick(4, 5)).into_iter().map(|s| s.into_iter().collect()).collect();
	par(many.len(), |i| {
		one_range(run, 10, 99, &many[i], false);
		one_range(run, 1, 99, &many[i], false);
		one_range(run, 0, 9, &many[i], false);
	});
	// longer bases: every length up to 40 bytes
	let long: Vec<String> = (0..=40usize).flat_map(|n| ["x".repeat(n), (0..n).map(|k| (b'a' + (k % 26) as u8) as char).collect()]).collect();
	par(long.len(), |i| {
		one_range(run, 10, 99, &long[i], true);
		one_range(run, 0, 999, &long[i], false);
	});
	// whole domain
	let full = ["", "a", "alice", "0123", "日本語"];
	let ranges = [(0, u16::MAX), (1, u16::MAX), (0, u16::MAX - 1), (100, 9999), (1000, 65534), (32767, u16::MAX)];
	par(full.len() * ranges.len(), |i| {
		let (lo, hi) = ranges[i % ranges.len()];
		one_range(run, lo, hi, full[i / ranges.len()], false);
	});
	one_range(run, 5, 4, "a", false);
	one_range(run, u16::MAX, 0, "a", false);
	run.note("bounds", format!("all sub-ranges of {} windows of width {width} x {} bases, runtime ranges x {} bases, whole u16 domain x {} bases", windows.len(), bases.len(), many.len(), full.len()));
}

// ---------------------------------------------------------------- C02
fn ref_split(s: &str) -> Option<(String, u16)> {
	let i = s.find('.')?;
	let (base, rest) = (&s[..i], &s[i + 1..]);
	// one delimiter, then decimal digits (one plus sign and leading zeros are tolerated)
	let digits = rest.strip_prefix('+').unwrap_or(rest);
	if digits.is_empty() || !digits.bytes().all(|b| b.is_ascii_digit()) {
		return None
	}
	let mut v = 0u32;
	for b in digits.bytes() {
		v = v * 10 + (b - b'0') as u32;
		if v > u16::MAX as u32 {
			return None
		}
	}
	Some((base.to_string(), v as u16))
}
fn split_one(run: &Run, s: &str) {
	run.state(1);
	run.trans(1);
	run.trace(1);
	match catch(|| split_display_name(s)) {
		Err(p) => run.fail("panic", format!("split_display_name({s:?}) panicked: {p}"), json!({ "input": s })),
		Ok(got) => {
			let want = ref_split(s);
			if got != want {
				run.fail("split", format!("split_display_name({s:?}) = {got:?}, want {want:?}"), json!({ "input": s }))
			}
		},
	}
}
fn c02(run: &Run) {
	let alpha = ['a', '.', '0', '1', '9', '6', '5', '3', '-', '+', ' ', 'é', '٣', '\u{0}', '。'];
	let all: Vec<String> = strings(&alpha, pick(5, 6)).into_iter().map(|s| s.into_iter().collect()).collect();
	par(64, |t| {
		for i in (t..all.len()).step_by(64) {
			split_one(run, &all[i])
		}
	});
	// longer digit strings around the u16 boundary, with every delimiter count
	for n in (0..=70_000u32).chain([99_999, 100_000, 655_350, 655_360, 1 << 20, u32::MAX]) {
		for (pre, post) in [("ab.", ""), ("ab.0", ""), ("ab..", ""), ("ab.", "."), ("ab.", " "), (".", ""), ("", ""), ("a.b.", "")] {
			split_one(run, &format!("{pre}{n}{post}"));
		}
	}
	run.ok(HANDLE_DELIMITER == '.', "delimiter", || "the delimiter changed".into());
	// joining then splitting is the identity: every suffix, many bases
	let bases: Vec<String> = strings(&['a', 'Z', '0', '-', '+', ' ', 'é', '漢', '\u{1F600}'], 3).into_iter().map(|s| s.into_iter().collect()).collect();
	par(bases.len(), |b| {
		let base = &bases[b];
		let step = if b < 12 { 1 } else { pick(211, 13) };
		for s in (0..=u16::MAX).step_by(step).chain([9, 10, 99, 100, 9999, 10000, u16::MAX]) {
			let d = format!("{base}{HANDLE_DELIMITER}{s}");
			run.trans(1);
			if split_display_name(&d) != Some((base.clone(), s)) {
				run.fail("roundtrip", format!("split_display_name({d:?}) = {:?}", split_display_name(&d)), json!({ "input": d }))
			}
		}
	});
	// every code point as the whole base, inside the base, and next to the suffix digits
	let cps = codepoints();
	par(64, |t| {
		for c in cps.iter().skip(t).step_by(64) {
			for s in [format!("{c}.42"), format!("a{c}b.7"), format!("ab.{c}7"), format!("ab.7{c}"), format!("ab{c}42")] {
				split_one(run, &s);
			}
		}
	});
	run.sample(json!({"ab.65535": format!("{:?}", split_display_name("ab.65535")), "ab.65536": format!("{:?}", split_display_name("ab.65536"))}));
	run.note("bounds", "all strings of length <= 5 (6 thorough) over 15 symbols, every code point in 5 contexts, every u16 suffix");
}

// ---------------------------------------------------------------- C03
fn codepoints() -> Vec<char> {
	(0..=0x10ffffu32).filter_map(char::from_u32).collect()
}
const RANGES: [(u32, u32); 21] = [
	(0x0020, 0x007F), (0x0080, 0x00FF), (0x0100, 0x017F), (0x0370, 0x03FF), (0x0400, 0x04FF), (0x0500, 0x052F), (0x0590, 0x05FF),
	(0x0600, 0x06FF), (0x0900, 0x097F), (0x0980, 0x09FF), (0x0E00, 0x0E7F), (0x1100, 0x11FF), (0x1E00, 0x1EFF), (0x1F00, 0x1FFF),
	(0x3040, 0x309F), (0x30A0, 0x30FF), (0x3400, 0x4DBF), (0x4E00, 0x9FFF), (0xAC00, 0xD7AF), (0xF900, 0xFAFF), (0xFB50, 0xFDFF),
];
const BLOCKED: &str = "\"#%(),.:;<>@\\`{}";
const RESERVED: [&str; 8] = ["admin", "everyone", "all", "administrator", "mod", "moderator", "here", "channel"];
fn permitted(c: char) -> bool {
	RANGES.iter().any(|(a, b)| (*a..=*b).contains(&(c as u32)))
}
fn validators(run: &Run, s: &str) {
	run.state(1);
	run.trans(3);
	run.trace(1);
	let want = (s.chars().any(|c| BLOCKED.contains(c)), s.chars().all(permitted), RESERVED.contains(&s));
	match catch(|| (contains_blocked_characters(s), consists_of_supported_unicode_character_sets(s), is_reserved_handle(s))) {
		Err(p) => run.fail("panic", format!("validators({s:?}) panicked: {p}"), json!({ "input": s })),
		Ok(got) => {
			run.ok(got.0 == want.0, "blocked", || format!("contains_blocked_characters({s:?}) = {}", got.0));
			// the known truncation of code points to 16 bits, and nothing else
			let truncated = s.chars().all(|c| RANGES.iter().any(|(a, b)| (*a..=*b).contains(&(c as u32 & 0xffff))));
			run.ok(got.1 == want.1, if got.1 == truncated { "charset-truncated" } else { "charset" }, || format!("consists_of_supported_unicode_character_sets({s:?} = {:?}) = {}", s.chars().map(|c| c as u32).collect::<Vec<_>>(), got.1));
			run.ok(got.2 == want.2, "reserved", || format!("is_reserved_handle({s:?}) = {}", got.2));
		},
	}
}
fn c03(run: &Run) {
	let cps = codepoints();
	// every code point alone, first, last, in the middle, doubled, behind a permitted and behind a forbidden neighbour
	par(64, |t| {
		for &c in cps.iter().skip(t).step_by(64) {
			let b = |v: &[char]| validators(run, &v.iter().collect::<String>());
			b(&[c]);
			b(&[c, 'a']);
			b(&['a', c]);
			b(&['a', c, 'b']);
			b(&[c, c]);
			b(&['\u{1F600}', c]);
			b(&[c, '.']);
			b(&['a', 'b', 'c', 'd', 'e', 'f', 'g', 'h', 'i', 'j', 'k', 'l', 'm', 'n', 'o', 'p', 'q', 'r', 's', c]);
		}
	});
	// all short strings over the interesting characters
	let alpha: Vec<char> = BLOCKED.chars().chain(['a', 'Z', '0', '-', '_', '!', '\u{1f}', '\u{20}', '\u{17f}', '\u{180}', '\u{fdff}', '\u{fe00}', '\u{20041}']).collect();
	let all: Vec<String> = strings(&alpha, pick(3, 4)).into_iter().map(|s| s.into_iter().collect()).collect();
	par(64, |t| {
		for s in all.iter().skip(t).step_by(64) {
			validators(run, s);
		}
	});
	// every one-edit neighbour of every reserved word, and every case variation
	for w in RESERVED {
		validators(run, w);
		let ch: Vec<char> = w.chars().collect();
		for i in 0..=ch.len() {
			for c in (' '..='~').chain(['é', 'а', '\u{200b}', '\u{0}']) {
				let mut x = ch.clone();
				x.insert(i, c);
				validators(run, &x.iter().collect::<String>());
				if i < ch.len() {
					let mut x = ch.clone();
					x[i] = c;
					validators(run, &x.iter().collect::<String>());
				}
			}
			if i < ch.len() {
				let mut x = ch.clone();
				x.remove(i);
				validators(run, &x.iter().collect::<String>());
			}
			for j in i..=ch.len() {
				validators(run, &ch[i..j].iter().collect::<String>());
			}
		}
		for m in 0..1u32 << ch.len().min(13) {
			let x: String = ch.iter().enumerate().map(|(i, c)| if m >> i & 1 == 1 { c.to_ascii_uppercase() } else { *c }).collect();
			validators(run, &x);
		}
		for v in RESERVED {
			validators(run, &format!("{w}{v}"));
		}
	}
	for s in strings(&['a', 'l', 'm', 'o', 'd', 'h', 'e', 'r', 'n', 'i'], pick(5, 6)) {
		validators(run, &s.into_iter().collect::<String>());
	}
	run.sample(json!({"supplementary U+20041 permitted": consists_of_supported_unicode_character_sets("\u{20041}")}));
	run.note("bounds", "every Unicode scalar value in 8 contexts; all strings of length <= 3 (4) over 29 symbols; all one-edit neighbours and case variants of reserved words");
}

// ---------------------------------------------------------------- C04
fn c04(run: &Run) {
	let repo = std::env::var("REPO_DIR").unwrap_or_else(|_| "/repo".into());
	let table = std::fs::read_to_string(format!("{repo}/pallets/handles/src/handles-utils/src/data/confusable_characters.txt")).expect("confusables");
	// published classes restricted to permitted characters
	let mut map: HashMap<char, char> = HashMap::new();
	let mut classes: BTreeMap<char, Vec<char>> = BTreeMap::new();
	for l in table.lines() {
		let mut ch = l.chars();
		let Some(h) = ch.next() else { continue };
		if !permitted(h) {
			continue
		}
		for g in ch.filter(|g| permitted(*g)) {
			map.insert(g, h);
			classes.entry(h).or_default().push(g);
		}
	}
	run.note("confusable_classes", classes.len());
	run.note("confusable_characters", map.len());
	let cps = codepoints();
	let can = |s: &str| convert_to_canonical(s);
	let marks: Vec<char> = cps.iter().copied().filter(|c| is_combining_mark(*c)).collect();
	run.note("combining_marks", marks.len());
	let oracle = |s: &str| -> String {
		s.chars()
			.filter(|c| !c.is_whitespace())
			.nfkd()
			.filter(|c| !is_combining_mark(*c))
			.map(|c| map.get(&c).copied().unwrap_or(c))
			.map(|c| c.to_ascii_lowercase())
			.collect()
	};
	let ctx = ["", "a", "0", "é", "ב", "漢"];
	par(64, |t| {
		for &c in cps.iter().skip(t).step_by(64) {
			let s = c.to_string();
			run.state(1);
			let base = can(&s);
			// characters outside the published ranges can never be part of a handle, so only their effect on the others matters
			let known = s.nfkd().all(permitted);
			if known {
				let want = oracle(&s);
				run.ok(base == want, "canonical", || format!("canonical(U+{:04X}) = {base:?}, want {want:?}", c as u32));
			}
			for p in ctx {
				for q in ctx {
					run.trans(1);
					run.trace(1);
					let got = can(&format!("{p}{s}{q}"));
					let want = format!("{}{}{}", can(p), base, can(q));
					run.ok(got == want, "character-by-character", || format!("canonical({p:?}+U+{:04X}+{q:?}) = {got:?}, want {want:?}", c as u32));
				}
			}
			let d = strip_diacriticals(&s);
			run.ok(strip_diacriticals(&d) == d, "strip-idempotent", || format!("strip_diacriticals is not idempotent on U+{:04X}", c as u32));
			run.ok(d == s.nfkd().filter(|c| !is_combining_mark(*c)).collect::<String>(), "strip", || format!("strip_diacriticals(U+{:04X}) = {d:?}", c as u32));
			// white space
			let w = strip_unicode_whitespace(&format!("a{s}b"));
			run.ok(w == if c.is_whitespace() { "ab".to_string() } else { format!("a{s}b") }, "whitespace", || format!("strip_unicode_whitespace around U+{:04X} = {w:?}", c as u32));
			// precomposed spelling equals decomposed spelling
			let (nfd, nfc): (String, String) = (s.nfd().collect(), s.nfc().collect());
			run.ok(can(&nfd) == base && can(&nfc) == base, "normal-forms", || format!("U+{:04X}: composed and decomposed spellings differ", c as u32));
		}
	});
	// added diacritics: every mark on every letter that heads a class and on ASCII
	let letters: Vec<char> = (' '..='~').chain(classes.keys().copied()).chain(['é', 'Ж', 'ก', '가', 'あ']).collect();
	par(marks.len(), |i| {
		for l in &letters {
			run.trans(1);
			let (a, b) = (can(&format!("x{l}{}y", marks[i])), can(&format!("x{l}y")));
			run.ok(a == b, "diacritic", || format!("canonical(x{l}U+{:04X}y) = {a:?}, without the mark {b:?}", marks[i] as u32));
		}
	});
	// confusables: members of a class that decomposition leaves alone share the canonical form of the head
	let alone = |c: char| {
		let mut n = std::iter::once(c).nfkd();
		n.next() == Some(c) && n.next().is_none() && !is_combining_mark(c) && !c.is_whitespace()
	};
	let plain = |c: char| map.get(&c).map_or(true, |h| *h == c);
	for (h, ms) in &classes {
		for m in ms {
			// listed more than once: the table itself is ambiguous
			let heads = classes.iter().filter(|(_, v)| v.contains(m)).count();
			if heads > 1 {
				run.note(&format!("ambiguous U+{:04X}", *m as u32), heads);
				continue
			}
			run.trans(1);
			let r = replace_confusables(&m.to_string());
			run.ok(r == h.to_string(), "replace", || format!("replace_confusables(U+{:04X}) = {r:?}, published as {h:?}", *m as u32));
			if alone(*m) && alone(*h) && plain(*h) {
				for (p, q) in [("", ""), ("ab", "c"), ("é", "0"), ("0", "о")] {
					let (a, b) = (can(&format!("{p}{m}{q}")), can(&format!("{p}{h}{q}")));
					run.ok(a == b, "confusable", || format!("canonical of {p}U+{:04X}{q} is {a:?}, of {p}{h}{q} {b:?}", *m as u32));
				}
			}
		}
	}
	for &c in &cps {
		if !map.contains_key(&c) && permitted(c) {
			let r = replace_confusables(&c.to_string());
			run.ok(r == c.to_string(), "replace-other", || format!("replace_confusables(U+{:04X}) = {r:?} although it is no confusable", c as u32));
		}
	}
	// letter case
	for c in 'a'..='z' {
		for (p, q) in [("", ""), ("x", "y"), ("é", "0")] {
			run.trans(1);
			let (a, b) = (can(&format!("{p}{c}{q}")), can(&format!("{p}{}{q}", c.to_ascii_uppercase())));
			run.ok(a == b, &format!("case-{c}"), || format!("canonical({p}{c}{q}) = {a:?} but canonical({p}{}{q}) = {b:?}", c.to_ascii_uppercase()));
		}
	}
	// all short strings over a mixed alphabet
	let alpha = ['a', 'B', 'o', 'L', '1', 'é', 'е', '\u{301}', '\u{5b0}', ' ', '\u{3000}', 'ﬁ', 'ß', '가', '-', '\u{ff21}'];
	let all: Vec<String> = strings(&alpha, pick(4, 5)).into_iter().map(|s| s.into_iter().collect()).collect();
	par(64, |t| {
		for s in all.iter().skip(t).step_by(64) {
			run.state(1);
			run.trans(1);
			run.trace(1);
			let (got, want) = (can(s), oracle(s));
			run.ok(got == want, "canonical-string", || format!("canonical({s:?}) = {got:?}, want {want:?}"));
		}
	});
	run.sample(json!({"Ｈéllｏ": can("Ｈéllｏ")}));
	run.note("bounds", "every Unicode scalar value in 36 contexts; every combining mark on ~1000 letters; every published confusable; all strings of length <= 4 (5) over 16 symbols");
}
