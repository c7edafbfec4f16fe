//! C35: the Avro helpers on every schema of a bounded grammar, every record over small value domains, and every
//! truncation / single-byte corruption of what they produce.
use apache_avro::{types::Value, Schema};
use helpers_lite::avro::*;
use mc::*;
use serde_json::{json, Value as J};
use std::collections::HashMap;

fn main() {
	quiet_panics();
	apache_avro::max_allocation_bytes(1 << 16);
	main_with(&[("C35", c35)]);
}

/// (schema, values of the type)
fn types(depth: usize, n: &mut usize) -> Vec<(J, Vec<Value>)> {
	let mut v: Vec<(J, Vec<Value>)> = vec![
		(json!("null"), vec![Value::Null]),
		(json!("boolean"), vec![Value::Boolean(false), Value::Boolean(true)]),
		(json!("int"), vec![Value::Int(0), Value::Int(i32::MIN), Value::Int(i32::MAX)]),
		(json!("long"), vec![Value::Long(-1), Value::Long(i64::MIN), Value::Long(i64::MAX)]),
		(json!("float"), vec![Value::Float(1.5)]),
		(json!("double"), vec![Value::Double(-2.25)]),
		(json!("bytes"), vec![Value::Bytes(vec![]), Value::Bytes(vec![0, 255])]),
		(json!("string"), vec![Value::String(String::new()), Value::String("é漢".into())]),
	];
	*n += 1;
	v.push((json!({"type":"fixed","size":2,"name":format!("F{n}")}), vec![Value::Fixed(2, vec![7, 8])]));
	*n += 1;
	v.push((json!({"type":"enum","symbols":["A","B"],"name":format!("E{n}")}), vec![Value::Enum(0, "A".into()), Value::Enum(1, "B".into())]));
	if depth > 0 {
		let inner = types(depth - 1, n);
		for (s, vals) in &inner {
			v.push((json!({"type":"array","items":s}), vec![Value::Array(vec![]), Value::Array(vals.clone())]));
			v.push((json!({"type":"map","values":s}), vec![Value::Map(HashMap::new()), Value::Map([("k".to_string(), vals[0].clone())].into())]));
			if !s.is_array() && s != "null" {
				v.push((json!(["null", s]), vec![Value::Union(0, Box::new(Value::Null)), Value::Union(1, Box::new(vals[0].clone()))]));
			}
		}
		*n += 1;
		v.push((
			json!({"type":"record","name":format!("R{n}"),"fields":[{"name":"x","type":"int"},{"name":"y","type":"string"}]}),
			vec![Value::Record(vec![("x".into(), Value::Int(5)), ("y".into(), Value::String("q".into()))])],
		));
	}
	v
}

fn accept(run: &Run, raw: &str, must: Option<bool>) {
	run.state(1);
	run.trans(3);
	run.trace(1);
	let Ok(want) = catch(|| Schema::parse_str(raw).map(|s| { s.canonical_form(); s })) else {
		return run.fail("library-panics", format!("the Avro library panics on {raw}, and so do the helpers"), json!({ "schema": raw }))
	};
	let r = catch(|| {
		let f = fingerprint_raw_schema(raw);
		let v = validate_raw_avro_schema(&raw.as_bytes().to_vec());
		let t = translate_schema(raw.as_bytes().to_vec());
		(f, v, t)
	});
	let (f, v, t) = match r {
		Err(p) => return run.fail("panic-schema", format!("schema helpers panicked on {raw}: {p}"), json!({ "schema": raw })),
		Ok(x) => x,
	};
	if let Some(m) = must {
		run.ok(want.is_ok() == m, "library", || format!("the Avro library's verdict on {raw} changed"));
	}
	run.ok(f.is_ok() == want.is_ok(), "fingerprint-verdict", || format!("fingerprint_raw_schema({raw}) ok={}, the schema is valid={}", f.is_ok(), want.is_ok()));
	run.ok(v.is_ok() == want.is_ok(), "validate-verdict", || format!("validate_raw_avro_schema({raw}) ok={}, the schema is valid={}", v.is_ok(), want.is_ok()));
	run.ok(t.is_ok() == want.is_ok(), "translate-verdict", || format!("translate_schema({raw}) ok={}, the schema is valid={}", t.is_ok(), want.is_ok()));
	if let Err(e) = v {
		run.ok(matches!(e, AvroError::InvalidSchema(_)), "validate-error", || format!("validate_raw_avro_schema({raw}) fails with {e:?}"));
	}
	if let (Ok((s, bytes)), Ok(w)) = (f, want) {
		run.ok(s == w, "fingerprint-schema", || format!("fingerprint_raw_schema({raw}) returns another schema: {s:?}"));
		run.ok(bytes == w.canonical_form().into_bytes(), "fingerprint-bytes", || format!("fingerprint_raw_schema({raw}) serialises as {}", String::from_utf8_lossy(&bytes)));
		// the library must be able to read its own canonical form for the helpers to do so
		match catch(|| Schema::parse_str(&w.canonical_form())) {
			Ok(Ok(_)) => {},
			_ => return run.fail("library-panics", format!("the Avro library cannot read back its canonical form of {raw}"), json!({ "schema": raw })),
		}
		match catch(|| translate_schema(bytes.clone())) {
			Ok(Ok(b)) => {
				// (an empty namespace: the library's canonical form is not a fixed point)
				run.ok(raw.contains(r#""namespace":"""#) || b.canonical_form() == w.canonical_form(), "translate-roundtrip", || format!("{raw} comes back from storage as {}", b.canonical_form()));
				run.ok(Schema::parse_str(&w.canonical_form()).map_or(false, |x| x == b), "translate-schema", || format!("{raw} comes back from storage as {b:?}"));
			},
			x => run.fail("translate-roundtrip", format!("{raw} does not come back from storage: {x:?}"), json!({ "schema": raw })),
		}
		if let Ok(t) = t {
			run.ok(t == w, "translate", || format!("translate_schema({raw}) returns another schema"));
		}
	}
}

fn record(run: &Run, raw: &str, schema: &Schema, names: &[String], map: &HashMap<String, Value>, expect: Option<bool>) {
	run.trans(2);
	run.trace(1);
	run.state(1);
	let what = || format!("record {map:?} for {raw}");
	if catch(|| apache_avro::to_avro_datum(schema, Value::Record(names.iter().map(|n| (n.clone(), map.get(n).cloned().unwrap_or(Value::Null))).collect())).is_ok()).is_err() {
		return // the library itself panics (one name used for two types)
	}
	let Ok(r) = catch(|| populate_schema_and_serialize(schema, map)) else { return run.fail("panic-populate", format!("{}: panicked", what()), json!({"schema": raw})) };
	// the record in schema order; fields that were not given are null, names that are no fields do not count
	let want = Value::Record(names.iter().map(|n| (n.clone(), map.get(n).cloned().unwrap_or(Value::Null))).collect());
	let datum = apache_avro::to_avro_datum(schema, want.clone());
	let valid = datum.is_ok();
	if let Some(e) = expect {
		run.ok(valid == e, "library-record", || format!("{}: the library's verdict changed", what()));
	}
	match (r, datum) {
		(Ok(b), Ok(w)) => {
			run.ok(b == w || has_map(&want), "populate-bytes", || format!("{}: wrong bytes", what()));
			match catch(|| get_schema_data_map(&b, schema)) {
				Ok(Ok(m)) => {
					let mut full: HashMap<String, Value> = names.iter().map(|n| (n.clone(), Value::Null)).collect();
					for (k, v) in map {
						if names.contains(k) {
							full.insert(k.clone(), v.clone());
						}
					}
					// a bare value written to a union reads back wrapped
					let same = m.len() == full.len() && full.iter().all(|(k, v)| m.get(k).map_or(false, |g| g == v || matches!(g, Value::Union(_, b) if **b == *v)));
					run.ok(same, "readback", || format!("{} reads back as {m:?}", what()));
				},
				x => run.fail("readback", format!("{} does not read back: {x:?}", what()), json!({"schema": raw})),
			}
			for cut in 0..b.len() {
				decode(run, raw, schema, &b[..cut].to_vec());
			}
			for i in 0..b.len().min(24) {
				for x in [0u8, 1, 2, 0x7f, 0x80, 0xff] {
					let mut c = b.clone();
					c[i] = x;
					// huge lengths make the library allocate: keep them out
					if x < 0x7f {
						decode(run, raw, schema, &c);
					}
				}
			}
		},
		(Err(_), Err(_)) => {},
		(Ok(b), Err(e)) => run.fail("populate-accepts", format!("{}: accepted as {b:?} although invalid ({e})", what()), json!({"schema": raw})),
		(Err(e), Ok(_)) => run.fail("populate-rejects", format!("{}: rejected with {e}", what()), json!({"schema": raw})),
	}
}
fn has_map(v: &Value) -> bool {
	match v {
		Value::Map(m) => m.len() > 1,
		Value::Record(f) => f.iter().any(|x| has_map(&x.1)),
		Value::Array(a) => a.iter().any(has_map),
		Value::Union(_, b) => has_map(b),
		_ => false,
	}
}
fn decode(run: &Run, raw: &str, schema: &Schema, b: &Vec<u8>) {
	run.eval(1);
	let want = match catch(|| apache_avro::from_avro_datum(schema, &mut std::io::Cursor::new(b), None)) {
		Ok(x) => x,
		Err(_) => return, // a panic inside the Avro library itself
	};
	match (catch(|| get_schema_data_map(b, schema)), want) {
		(Err(p), _) => run.fail("panic-decode", format!("get_schema_data_map({b:?}) for {raw} panicked: {p}"), json!({"schema": raw, "bytes": b})),
		(Ok(Ok(m)), Ok(Value::Record(w))) => {
			let w: HashMap<String, Value> = w.into_iter().collect();
			run.ok(format!("{:?}", sorted(&m)) == format!("{:?}", sorted(&w)), "decode", || format!("get_schema_data_map({b:?}) for {raw} = {m:?}, want {w:?}"));
		},
		(Ok(Err(_)), Err(_)) => {},
		(Ok(Err(e)), Ok(v)) => {
			run.ok(!matches!(v, Value::Record(_)), "decode-rejects", || format!("get_schema_data_map({b:?}) for {raw} fails: {e}"));
			run.ok(matches!(e, AvroError::InvalidRecords()), "decode-error", || format!("get_schema_data_map({b:?}) for the non-record {raw} fails with {e:?}"));
		},
		(Ok(Ok(m)), w) => run.fail("decode-accepts", format!("get_schema_data_map({b:?}) for {raw} = {m:?}, the library says {w:?}"), json!({"schema": raw, "bytes": b})),
	}
}
fn sorted(m: &HashMap<String, Value>) -> Vec<(String, String)> {
	let mut v: Vec<_> = m.iter().map(|(k, v)| (k.clone(), norm(v))).collect();
	v.sort();
	v
}
fn norm(v: &Value) -> String {
	match v {
		Value::Map(m) => format!("{:?}", sorted(m)),
		Value::Record(f) => format!("{:?}", f.iter().map(|(k, v)| (k, norm(v))).collect::<Vec<_>>()),
		Value::Array(a) => format!("{:?}", a.iter().map(norm).collect::<Vec<_>>()),
		Value::Union(i, b) => format!("U{i}{}", norm(b)),
		v => format!("{v:?}"),
	}
}

fn c35(run: &Run) {
	let mut n = 0;
	let ty = types(pick(1, 2), &mut n);
	run.note("types", ty.len());
	// 1. schemas
	par(ty.len(), |i| {
		let raw = ty[i].0.to_string();
		accept(run, &raw, Some(true));
		// every truncation and every deletion of one character
		for k in 0..raw.len() {
			if raw.is_char_boundary(k) {
				accept(run, &raw[..k], None);
				let mut s = raw.clone();
				s.remove(k);
				accept(run, &s, None);
			}
		}
		for x in ["{", "}", "[", "x", "\"", ",", " null"] {
			accept(run, &format!("{raw}{x}"), None);
			accept(run, &format!("{x}{raw}"), None);
		}
	});
	for raw in [
		"", " ", "{}", "[]", "0", "null", "true", "\"foo\"", r#"{"type":"record"}"#, r#"{"type":"record","name":"A"}"#,
		r#"{"type":"record","name":"A","fields":{}}"#, r#"{"type":"record","name":"1A","fields":[]}"#, r#"{"type":"enum","name":"A"}"#,
		r#"{"type":"enum","name":"A","symbols":["A","A"]}"#, r#"{"type":"enum","name":"A","symbols":["1"]}"#, r#"{"type":"fixed","name":"A"}"#,
		r#"{"type":"fixed","name":"A","size":-1}"#, r#"{"type":"array"}"#, r#"{"type":"map"}"#, r#"["int","int"]"#, r#"["null",["null"]]"#,
		r#"{"type":"record","name":"A","fields":[{"name":"a"}]}"#, r#"{"type":"record","name":"A","fields":[{"type":"int"}]}"#,
		r#"{"type":"record","name":"A","fields":[{"name":"a","type":"int"},{"name":"a","type":"int"}]}"#, r#"{"type":"record","name":"A","fields":[{"name":"a","type":"B"}]}"#,
		r#"{"type":"record","name":"A","fields":[{"name":"a","type":["null","A"],"default":null}]}"#, r#"{"name":"A","type":{"type":"int"}}"#,
		r#"{"type":"record","namespace":"n.s","name":"A","aliases":["B"],"doc":"d","fields":[]}"#, r#"{"type":"int","logicalType":"date"}"#,
		r#"{"type":"bytes","logicalType":"decimal","precision":4,"scale":2}"#, r#"{"type":"string","logicalType":"uuid"}"#, "nonsense", "\u{feff}\"int\"",
	] {
		accept(run, raw, None);
	}
	// names and attributes of records
	for name in ["A", "a.B", "_x", "é", "", "a-b", "9", "a..b"] {
		for ns in [None, Some("n"), Some("n.m"), Some(""), Some("é")] {
			for f in ["f", "", "1", "é", "a.b"] {
				let mut s = json!({"type":"record","name":name,"fields":[{"name":f,"type":"int","doc":"x","order":"ignore","default":1}]});
				if let Some(ns) = ns {
					s["namespace"] = ns.into();
				}
				accept(run, &s.to_string(), None);
			}
		}
	}
	// byte strings that are not UTF-8: all of length <= 2 and each byte inside a valid schema
	let good = br#""int""#.to_vec();
	let bytes = |b: Vec<u8>| {
		run.state(1);
		let Ok(utf) = catch(|| std::str::from_utf8(&b).ok().map(|s| Schema::parse_str(s).is_ok()).unwrap_or(false)) else { return };
		match catch(|| (validate_raw_avro_schema(&b), translate_schema(b.clone()))) {
			Err(p) => run.fail("panic-bytes", format!("schema helpers panicked on {b:?}: {p}"), json!({ "bytes": b })),
			Ok((v, t)) => {
				run.ok(v.is_ok() == utf, "bytes-validate", || format!("validate_raw_avro_schema({b:?}) = {v:?}"));
				run.ok(t.is_ok() == utf, "bytes-translate", || format!("translate_schema({b:?}) ok={}", t.is_ok()));
				if std::str::from_utf8(&b).is_err() {
					run.ok(matches!(v, Err(AvroError::InvalidSchema(_))) && matches!(t, Err(AvroError::InvalidSchema(_))), "bytes-error", || format!("non-UTF-8 {b:?} is not reported as an invalid schema"));
				}
			},
		}
	};
	for a in 0..=255u8 {
		bytes(vec![a]);
		for b in 0..=255u8 {
			bytes(vec![a, b]);
		}
		for i in 0..=good.len() {
			let mut g = good.clone();
			g.insert(i, a);
			bytes(g.clone());
			if i < good.len() {
				let mut g = good.clone();
				g[i] = a;
				bytes(g);
			}
		}
	}
	// 2. records: every pair of field types, every combination of values, every subset of fields, an unknown name
	let pairs: Vec<(usize, usize)> = (0..ty.len()).flat_map(|a| (0..ty.len()).map(move |b| (a, b))).filter(|(a, b)| thorough() && ty.len() < 200 || *a < 10 || *b < 10 || a == b).collect();
	par(pairs.len(), |k| {
		let (a, b) = pairs[k];
		if a == b && (ty[a].0.to_string().contains("\"name\"")) {
			return
		}
		let raw = json!({"type":"record","name":"Top","fields":[{"name":"a","type":ty[a].0},{"name":"b","type":ty[b].0}]}).to_string();
		let Ok(schema) = Schema::parse_str(&raw) else { return };
		accept(run, &raw, Some(true));
		let names = vec!["a".to_string(), "b".to_string()];
		for va in &ty[a].1 {
			for vb in &ty[b].1 {
				let full: HashMap<String, Value> = [("a".to_string(), va.clone()), ("b".to_string(), vb.clone())].into();
				record(run, &raw, &schema, &names, &full, Some(true));
			}
		}
		let (va, vb) = (&ty[a].1[0], &ty[b].1[0]);
		let m = |x: &[(&str, &Value)]| x.iter().map(|(k, v)| (k.to_string(), (*v).clone())).collect::<HashMap<_, _>>();
		record(run, &raw, &schema, &names, &m(&[]), None);
		record(run, &raw, &schema, &names, &m(&[("a", va)]), None);
		record(run, &raw, &schema, &names, &m(&[("b", vb)]), None);
		record(run, &raw, &schema, &names, &m(&[("a", va), ("b", vb), ("zz", va)]), Some(true));
		record(run, &raw, &schema, &names, &m(&[("A", va), ("b", vb)]), None);
		// values of another type
		record(run, &raw, &schema, &names, &m(&[("a", vb), ("b", va)]), None);
	});
	// records of 0..4 fields, every subset of fields given
	for n in 0..=4usize {
		let names: Vec<String> = (0..n).map(|i| format!("f{i}")).collect();
		for opt in 0..1u32 << n {
			let fields: Vec<J> = names.iter().enumerate().map(|(i, f)| if opt >> i & 1 == 1 { json!({"name":f,"type":["null","int"],"default":null}) } else { json!({"name":f,"type":"int","default":3}) }).collect();
			let raw = json!({"type":"record","name":"T","fields":fields}).to_string();
			let schema = Schema::parse_str(&raw).unwrap();
			for given in 0..1u32 << n {
				let map: HashMap<String, Value> = names.iter().enumerate().filter(|(i, _)| given >> i & 1 == 1).map(|(i, f)| (f.clone(), if opt >> i & 1 == 1 { Value::Union(1, Box::new(Value::Int(i as i32))) } else { Value::Int(i as i32) })).collect();
				record(run, &raw, &schema, &names, &map, None);
			}
		}
	}
	// 3. schemas that are no records
	for (s, vals) in &ty {
		let raw = s.to_string();
		let Ok(schema) = Schema::parse_str(&raw) else { continue };
		if matches!(schema, Schema::Record { .. }) {
			continue
		}
		run.trans(1);
		match catch(|| populate_schema_and_serialize(&schema, &HashMap::from([("a".to_string(), Value::Int(1))]))) {
			Ok(Err(AvroError::InvalidSchema(_))) => {},
			x => run.fail("populate-non-record", format!("populate_schema_and_serialize for {raw}: {x:?}"), json!({ "schema": raw })),
		}
		for v in vals {
			if let Ok(b) = apache_avro::to_avro_datum(&schema, v.clone()) {
				decode(run, &raw, &schema, &b);
			}
		}
		decode(run, &raw, &schema, &vec![]);
	}
	// 4. the container writer: what it writes reads back, compressed with snappy
	let raw = r#"{"type":"record","name":"T","fields":[{"name":"a","type":"string"}]}"#;
	let schema = Schema::parse_str(raw).unwrap();
	for k in 1..5usize {
		let mut w = get_schema_data_writer(&schema);
		let vals: Vec<Value> = (0..k).map(|i| Value::Record(vec![("a".into(), Value::String("z".repeat(i * 7)))])).collect();
		for v in &vals {
			w.append(v.clone()).unwrap();
		}
		let b = w.into_inner().unwrap();
		let back: Vec<Value> = apache_avro::Reader::new(&b[..]).unwrap().map(|x| x.unwrap()).collect();
		run.ok(back == vals, "writer", || format!("the writer's {k} records read back as {back:?}"));
		run.ok(b.windows(6).any(|w| w == b"snappy"), "codec", || "the container is not written with snappy".into());
		run.trans(1);
	}
	run.sample(json!({"schema": ty[ty.len() - 1].0.to_string()}));
	run.note("bounds", "every type of a grammar of depth 1 (2), its truncations, deletions and junk; every pair of field types with all values, subsets of fields; every truncation and 4 corruptions per byte of the binary; all byte strings of length <= 2 and one-byte edits");
}
