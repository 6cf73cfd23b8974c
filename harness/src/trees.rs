//! Suites about tree values and their JSON and CBOR forms, and about the
//! notations of the layout language.
use crate::{
	ast::{self, Layout, Pat, Style, Val},
	exec::{self, guarded, Front},
	gen::Gen,
	proj,
	rng::Rng,
};
use rdf_types::generator;
use serde_json::{json, Value as J};
use treeldr_layouts::{abs, LayoutRegistry, Prelude, Value};

/* JSON documents: k in null, bool, num (s: as written), str, arr, obj */

const SAFE: &[&str] = &[
	"0", "-0", "1", "-1", "7", "10", "-20", "100", "0.5", "-2.75", "1.50", "3.125", "0.0", "9007199254740993", "18446744073709551615",
	"-9223372036854775808", "9223372036854775808", "-1.0", "4294967296",
];
const EXP: &[&str] = &["1e2", "1E+2", "5e-1", "25e-1", "1.5e1", "-1.25E2", "0e5", "12e0", "-75e-2", "0e99999999999", "-0.0E-99999999999"];
const SHORT: &[&str] = &["0.1", "-0.3", "3.14", "1e-3", "0.0012", "2.5e-7", "123456.789", "1.10"];
const ANY: &[&str] = &[
	"18446744073709551616", "-9223372036854775809", "0.12345678901234567890123", "100000000000000000000000000000000",
	"-0.000000000000000000000000000001", "1e25", "3e-20", "1.00000000000000000000001",
];
const STR: &[&str] = &["", "a", "b", "key", "\"", "\\", "a\"b\\c", "é", "日本", "\u{1F600}", "null", "1", "a b", "/"];

fn jnode(k: &str, s: impl Into<String>, c: Vec<Val>) -> Val {
	Val { k: k.into(), s: s.into(), c }
}

/// level 2: any path can read it exactly; 1: not the binary ones; 0: exact ones only.
pub fn doc(r: &mut Rng, d: usize, level: usize) -> Val {
	match r.below(if d == 0 { 5 } else { 8 }) {
		0 => jnode("unit", "", vec![]),
		1 => jnode("bool", if r.chance(50) { "true" } else { "false" }, vec![]),
		2 | 3 => {
			let pools: &[&[&str]] = match level {
				2 => &[SAFE, EXP],
				1 => &[SAFE, EXP, SHORT],
				_ => &[SAFE, EXP, SHORT, ANY],
			};
			let p = *r.pick(pools);
			jnode("num", *r.pick(p), vec![])
		}
		4 => jnode("str", *r.pick(STR), vec![]),
		5 | 6 => jnode("list", "", (0..r.below(4)).map(|_| doc(r, d - 1, level)).collect()),
		_ => {
			let mut c = Vec::new();
			for _ in 0..r.below(4) {
				c.push(jnode("str", *r.pick(STR), vec![]));
				c.push(doc(r, d - 1, level));
			}
			jnode("map", "", c)
		}
	}
}

fn ws(r: &mut Rng, o: &mut String) {
	if r.chance(15) {
		o.push_str(*r.pick(&[" ", "\n", "\t", "  ", "\r\n"]));
	}
}

fn write_str(r: &mut Rng, s: &str, o: &mut String) {
	o.push('"');
	for ch in s.chars() {
		match ch {
			'"' => o.push_str("\\\""),
			'\\' => o.push_str("\\\\"),
			'/' if r.chance(50) => o.push_str("\\/"),
			c if r.chance(20) || c.is_control() => {
				for u in c.encode_utf16(&mut [0; 2]) {
					o.push_str(&format!("\\u{u:04x}"));
				}
			}
			c => o.push(c),
		}
	}
	o.push('"');
}

pub fn write_doc(r: &mut Rng, v: &Val, o: &mut String) {
	ws(r, o);
	match v.k.as_str() {
		"unit" => o.push_str("null"),
		"bool" | "num" => o.push_str(&v.s),
		"str" => write_str(r, &v.s, o),
		"list" => {
			o.push('[');
			for (i, x) in v.c.iter().enumerate() {
				if i > 0 {
					o.push(',');
				}
				write_doc(r, x, o);
			}
			ws(r, o);
			o.push(']');
		}
		_ => {
			o.push('{');
			for (i, kv) in v.c.chunks(2).enumerate() {
				if i > 0 {
					o.push(',');
				}
				ws(r, o);
				write_str(r, &kv[0].s, o);
				ws(r, o);
				o.push(':');
				write_doc(r, &kv[1], o);
			}
			ws(r, o);
			o.push('}');
		}
	}
	ws(r, o);
}

/// Any tree value.
fn tree(r: &mut Rng, d: usize, odd: bool) -> Val {
	const NUM: &[&str] = &[
		"0", "1", "-1", "0.5", "-2.75", "0.1", "-0.3", "123456.789", "255", "256", "-129", "9223372036854775807", "-9223372036854775808",
		"18446744073709551615", "10", "100", "-0.125", "4294967296", "1000000",
	];
	const ODD: &[&str] =
		&["1/3", "-2/7", "18446744073709551616", "-18446744073709551616", "-18446744073709551615", "100000000000000000000000000000", "-9223372036854775809", "0.12345678901234567891"];
	match r.below(if d == 0 { 5 } else { 8 }) {
		0 => Val::unit(),
		1 => Val::sc("bool", if r.chance(50) { "true" } else { "false" }),
		2 | 3 => Val::sc("num", if odd && r.chance(40) { *r.pick(ODD) } else { *r.pick(NUM) }),
		4 if odd && r.chance(40) => Val::sc("bytes", *r.pick(&["", "00", "ff00", "0a0b0c"])),
		4 => Val::str(*r.pick(STR)),
		5 | 6 => Val::list((0..r.below(4)).map(|_| tree(r, d - 1, odd)).collect()),
		_ => {
			let mut m = Val { k: "map".into(), ..Default::default() };
			for _ in 0..r.below(4) {
				let k = if odd && r.chance(25) { tree(r, 1, true) } else { Val::str(*r.pick(STR)) };
				m.c.push(k);
				let v = tree(r, d - 1, odd);
				m.c.push(v);
			}
			// A value has one entry per key.
			proj::value(&proj::to_value(&m))
		}
	}
}

pub fn json_case(r: &mut Rng) -> J {
	let level = r.below(3);
	let d = doc(r, 3, level);
	let mut text = String::new();
	write_doc(r, &d, &mut text);
	let odd = r.chance(40);
	json!({ "op": "json", "level": level, "doc": d, "text": text, "value": tree(r, 3, odd) })
}

/// A number whose exponent has more than 32 bits.
pub fn json_huge() -> J {
	let n = "1e9999999999";
	json!({ "op": "json", "case": "json/huge-exponent", "level": 0, "doc": jnode("num", n, vec![]), "text": n, "value": Val::unit() })
}

/// A JSON value, numbers as they are written.
pub fn from_json_syntax(v: &json_syntax::Value) -> Val {
	use json_syntax::Value as V;
	match v {
		V::Null => jnode("unit", "", vec![]),
		V::Boolean(b) => jnode("bool", b.to_string(), vec![]),
		V::Number(n) => jnode("num", n.as_str(), vec![]),
		V::String(s) => jnode("str", s.as_str(), vec![]),
		V::Array(a) => jnode("list", "", a.iter().map(from_json_syntax).collect()),
		V::Object(o) => {
			let mut c = Vec::new();
			for e in o.iter() {
				c.push(Val::str(e.key.as_str()));
				c.push(from_json_syntax(&e.value));
			}
			jnode("map", "", c)
		}
	}
}

fn from_serde(v: &J) -> Val {
	match v {
		J::Null => jnode("unit", "", vec![]),
		J::Bool(b) => jnode("bool", b.to_string(), vec![]),
		J::Number(n) => jnode("num", n.to_string(), vec![]),
		J::String(s) => jnode("str", s.as_str(), vec![]),
		J::Array(a) => jnode("list", "", a.iter().map(from_serde).collect()),
		J::Object(o) => {
			let mut c = Vec::new();
			for (k, v) in o {
				c.push(Val::str(k.as_str()));
				c.push(from_serde(v));
			}
			jnode("map", "", c)
		}
	}
}

/// CBOR: as values, with "tag" (s: the tag) and "float" (s: decimal) nodes.
pub fn from_cbor(v: &serde_cbor::Value) -> Val {
	use serde_cbor::Value as V;
	match v {
		V::Null => jnode("unit", "", vec![]),
		V::Bool(b) => jnode("bool", b.to_string(), vec![]),
		V::Integer(i) => jnode("num", i.to_string(), vec![]),
		V::Float(f) => jnode("float", f.to_string(), vec![]),
		V::Bytes(b) => jnode("bytes", proj::hex(b), vec![]),
		V::Text(s) => jnode("str", s.as_str(), vec![]),
		V::Array(a) => jnode("list", "", a.iter().map(from_cbor).collect()),
		V::Map(m) => {
			let mut c = Vec::new();
			for (k, v) in m {
				c.push(from_cbor(k));
				c.push(from_cbor(v));
			}
			jnode("map", "", c)
		}
		V::Tag(t, v) => jnode("tag", t.to_string(), vec![from_cbor(v)]),
		_ => jnode("hidden", "", vec![]),
	}
}

fn non_json(e: treeldr_layouts::value::NonJsonValue) -> J {
	use treeldr_layouts::value::NonJsonValue as E;
	exec::err(match e {
		E::Number(_) => "Number",
		E::ByteString(_) => "ByteString",
		E::NonStringKey(_) => "NonStringKey",
	})
}

fn ok(v: Val) -> J {
	json!({ "st": "ok", "e": "", "v": v })
}

pub fn json_run(mut c: J) -> J {
	use json_syntax::{Parse, Print, TryFromJson};
	let text = c["text"].as_str().unwrap().to_owned();
	let level = c["level"].as_u64().unwrap();
	let value = proj::to_value(&serde_json::from_value(c["value"].clone()).unwrap());
	let none = json!({ "st": "skip", "e": "" });
	c["in"] = json!({
		"js": guarded(|| ok(proj::value(&Value::from(json_syntax::Value::parse_str(&text).unwrap().0)))),
		// json-syntax (a dependency) miscounts empty objects.
		"tf": if text.split_whitespace().collect::<String>().contains("{}") { none.clone() } else { guarded(|| {
			let (json, map) = json_syntax::Value::parse_str(&text).unwrap();
			ok(proj::value(&Value::try_from_json(&json, &map).unwrap()))
		}) },
		"sv": if level < 1 { none.clone() } else { guarded(|| {
			ok(proj::value(&Value::from(serde_json::from_str::<J>(&text).unwrap())))
		}) },
		"sd": if level < 2 { none.clone() } else { guarded(|| {
			ok(proj::value(&serde_json::from_str::<Value>(&text).unwrap()))
		}) },
	});
	c["out"] = json!({
		"js": guarded(|| match json_syntax::Value::try_from(value.clone()) {
			Ok(v) => ok(from_json_syntax(&v)),
			Err(e) => non_json(e),
		}),
		"sv": guarded(|| match J::try_from(value.clone()) {
			Ok(v) => ok(from_serde(&v)),
			Err(e) => non_json(e),
		}),
		"ser": guarded(|| match serde_json::to_value(&value) {
			Ok(v) => ok(from_serde(&v)),
			Err(_) => exec::err("serialize"),
		}),
		"back": guarded(|| match json_syntax::Value::try_from(value.clone()) {
			Ok(v) => ok(proj::value(&Value::from(json_syntax::Value::parse_str(&v.compact_print().to_string()).unwrap().0))),
			Err(e) => non_json(e),
		}),
		"disp": guarded(|| json!({ "st": "ok", "e": "", "s": value.to_string() })),
		"cbor": guarded(|| ok(from_cbor(&value.clone().into()))),
		"cback": guarded(|| {
			let bytes = serde_cbor::to_vec(&value).unwrap();
			ok(proj::value(&serde_cbor::from_slice::<Value>(&bytes).unwrap()))
		}),
	});
	c
}

/* CBOR, with the tags of the layouts */

pub fn cbor_case(r: &mut Rng) -> J {
	let lo = *r.pick(&[0, 0, 0, 30]);
	let graphs = r.chance(20);
	let mut g = Gen::new(r.fork(), lo, graphs);
	g.tags = true;
	let ls = g.registry();
	let v = g.root_value(&ls);
	json!({ "op": "cbor", "layouts": ls, "value": v })
}

/// What is built can be written, and read again.
fn enc(v: serde_cbor::Value) -> J {
	// What is built can be written, and read again.
	let bytes = match serde_cbor::to_vec(&v) {
		Ok(b) => b,
		Err(_) => return exec::err("unencodable"),
	};
	match serde_cbor::from_slice::<serde_cbor::Value>(&bytes) {
		Ok(w) if w == v => ok(from_cbor(&v)),
		Ok(_) => exec::err("re-read differently"),
		Err(_) => exec::err("unreadable"),
	}
}

/// The outcome of a tagged conversion.
pub fn tagged(r: Result<serde_cbor::Value, treeldr_layouts::value::cbor::InvalidTag>) -> J {
	use treeldr_layouts::value::cbor::InvalidTag;
	match r {
		Ok(v) => enc(v),
		Err(InvalidTag::NonLiteral) => exec::err("NonLiteral"),
		Err(InvalidTag::Value(_)) => exec::err("Value"),
		Err(InvalidTag::Type(_)) => exec::err("Type"),
	}
}

pub fn cbor_run(mut c: J) -> J {
	let ls: Vec<Layout> = serde_json::from_value(c["layouts"].clone()).unwrap();
	let v: Val = serde_json::from_value(c["value"].clone()).unwrap();
	let dash = || json!({ "st": "skip", "e": "" });
	c["hy"] = dash();
	c["tagged"] = dash();
	c["plain"] = dash();
	c["untyped"] = dash();
	c["reg"] = json!([]);
	c["refs"] = json!([]);
	let b = match exec::build(&ls, Style::default(), Front::Serde) {
		Ok(b) => b,
		Err(e) => {
			c["built"] = e;
			return c;
		}
	};
	c["built"] = json!({ "st": "ok", "e": "" });
	c["reg"] = proj::registry(&b.layouts);
	c["refs"] = json!(b.refs.iter().map(|r| proj::term(r.id())).collect::<Vec<_>>());
	let Some((q, ins)) = exec::dehydrate(&b, 0, &v).1 else { return c };
	let Some(tv) = exec::hydrate_typed(&b, 0, &q, &Pat::none(), &ins) else { return c };
	c["hy"] = json!({ "st": "ok", "e": "", "v": proj::typed(&tv) });
	c["tagged"] = guarded(|| tagged(tv.clone().try_into_tagged_serde_cbor(b.layouts.with(Prelude))));
	c["plain"] = guarded(|| enc(tv.clone().into()));
	c["untyped"] = guarded(|| enc(tv.clone().into_untyped().into()));
	c
}

/* The front ends of the layout language */

pub fn front_case(r: &mut Rng) -> J {
	let lo = *r.pick(&[0, 10, 40]);
	let mut g = Gen::new(r.fork(), lo, true);
	g.weird = r.chance(30);
	let mut ls = g.registry();
	let i = r.below(ls.len());
	let l = ls.swap_remove(i);
	json!({
		"op": "front", "layouts": [l],
		"style": [r.chance(50), r.chance(25), r.chance(25)],
		"break": if r.chance(30) { r.range(1, 9) } else { 0 }, "at": r.below(50),
	})
}

/// Makes a layout text wrong (in a place chosen by `at`); None: it has no such place.
fn spoil(j: &mut J, how: u64, at: u64) -> bool {
	// All the layout objects.
	fn collect<'a>(j: &'a mut J, out: &mut Vec<&'a mut serde_json::Map<String, J>>, path: &str) {
		match j {
			J::Object(o) => {
				if o.contains_key("type") && path != "lit" && !o.contains_key("value") {
					let o2: *mut serde_json::Map<String, J> = o;
					// The parent is only used when no child is.
					out.push(unsafe { &mut *o2 });
				}
				for (k, v) in o.iter_mut() {
					if !matches!(k.as_str(), "const" | "extra" | "prefixes" | "dataset") {
						collect(v, out, k);
					}
				}
			}
			J::Array(a) => {
				for v in a {
					collect(v, out, path);
				}
			}
			_ => {}
		}
	}
	let mut all = Vec::new();
	collect(j, &mut all, "");
	if all.is_empty() {
		return false;
	}
	let n = all.len();
	let o = all.swap_remove(at as usize % n);
	match how {
		1 => {
			o.insert("unknown".into(), json!(1));
		}
		2 => {
			o.insert("type".into(), json!("nothing"));
		}
		3 => {
			o.remove("type");
		}
		4 => {
			o.insert("dataset".into(), json!([["_:self", "http://e.x/p"]]));
		}
		5 => {
			o.insert("base".into(), json!(5));
		}
		6 => {
			o.insert("prefixes".into(), json!("ex"));
		}
		7 => {
			o.insert("dataset".into(), json!([["_:self", "http://e.x/p", { "value": "x", "type": "http://e.x/t", "more": 1 }]]));
		}
		8 => {
			o.insert("dataset".into(), json!([["_:self", "http://e.x/p", "http://e.x/o", null, "http://e.x/o"]]));
		}
		_ => {
			o.insert("id".into(), json!(["http://e.x/a"]));
		}
	}
	true
}

pub fn front_run(mut c: J) -> J {
	let ls: Vec<Layout> = serde_json::from_value(c["layouts"].clone()).unwrap();
	let s: Vec<bool> = serde_json::from_value(c["style"].clone()).unwrap();
	let st = Style { one: s[0], explicit: s[1], wrap: s[2] };
	let mut j = ast::layout_json(&ls[0], st);
	let how = c["break"].as_u64().unwrap();
	let spoiled = how > 0 && spoil(&mut j, how, c["at"].as_u64().unwrap());
	let text = j.to_string();
	let mut runs = Vec::new();
	for via in ["serde", "tracked", "again", "again-tracked"] {
		if via.ends_with("tracked") && text.contains("{}") {
			continue;
		}
		let (mut reg, mut refs) = (json!([]), json!([]));
		let mut skip = false;
		let built = guarded(|| {
			let parsed = match via {
				"serde" => exec::parse_text(&text, Front::Serde),
				"tracked" => exec::parse_text(&text, Front::Tracked),
				_ => exec::parse_text(&text, Front::Serde).and_then(|l| {
					let again = serde_json::to_string(&l).map_err(|e| e.to_string())?;
					if via == "again" {
						exec::parse_text(&again, Front::Serde)
					} else if again.contains("{}") {
						skip = true;
						Ok(l)
					} else {
						exec::parse_text(&again, Front::Tracked)
					}
				}),
			};
			let p = match parsed {
				Ok(p) => p,
				Err(e) => return json!({ "st": "parse-err", "e": "parse", "m": e }),
			};
			let mut builder = abs::Builder::new();
			match p.build_with_context(&mut builder.with_generator_mut(generator::Blank::new())) {
				Ok(r) => {
					reg = proj::registry(&builder.build());
					refs = json!([proj::term(r.id())]);
					json!({ "st": "ok", "e": "" })
				}
				Err(e) => exec::err(exec::build_error(&e)),
			}
		});
		if !skip {
			runs.push(json!({ "via": via, "built": built, "reg": reg, "refs": refs }));
		}
	}
	c["spoiled"] = json!(spoiled);
	c["text"] = json!(text);
	c["runs"] = json!(runs);
	c
}

/* Numbers */

/// A numeral, sometimes wrong; or a fraction.
fn numeral(r: &mut Rng) -> String {
	let digits = |r: &mut Rng, n: usize| -> String {
		let z = r.chance(30);
		(0..n).map(|_| if z { *r.pick(&['0', '0', '5', '1']) } else { (b'0' + r.below(10) as u8) as char }).collect()
	};
	if r.chance(15) {
		let p = r.range(0, 400) as i64 - 200;
		let q = *r.pick(&[1, 2, 3, 4, 5, 6, 7, 8, 10, 12, 16, 25, 30, 40, 64, 125, 128, 625]);
		return format!("{p}/{q}");
	}
	if r.chance(12) {
		return (*r.pick(&[
			"9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775807", "-9223372036854775809",
			"18446744073709551615", "18446744073709551616", "-18446744073709551615", "0", "-0", "-0.0", "1e0", "9007199254740993",
			"4294967295", "4294967296", "-4294967296", "1e-7", "1e21", "1E+20", "0.1", "123456789.987654321", "0e9", "-1e1",
		]))
		.to_owned();
	}
	let mut s = String::new();
	s.push_str(*r.pick(&["", "", "-", "-", "+"]));
	let n = r.below(6) + if r.chance(10) { 18 } else { 0 };
	s.push_str(&digits(r, n));
	if r.chance(50) {
		s.push('.');
		let n = r.below(6);
		s.push_str(&digits(r, n));
	}
	if r.chance(30) {
		s.push_str(*r.pick(&["e", "E"]));
		s.push_str(*r.pick(&["", "", "-", "+"]));
		s.push_str(&r.below(12).to_string());
	}
	if r.chance(8) {
		let at = r.below(s.len() + 1);
		s.insert_str(at, *r.pick(&[".", "e", "-", "+", " ", "_", "x", "0", ",", "E"]));
	}
	// Exponents are kept small.
	match s.split_once(['e', 'E']) {
		Some((m, e)) if e.parse::<i64>().is_ok_and(|e| e.abs() > 30) => m.to_owned(),
		_ => s,
	}
}

pub fn num_case(r: &mut Rng) -> J {
	let a = numeral(r);
	let b = if r.chance(30) && !a.contains(['/', 'e', 'E']) {
		// The same, perhaps, written in another way.
		match r.below(4) {
			0 => format!("{a}0"),
			1 => format!("{a}e0"),
			2 => a.replacen('-', "-0", 1),
			_ => a.clone(),
		}
	} else {
		numeral(r)
	};
	json!({ "op": "num", "a": a, "b": b })
}

fn number(s: &str) -> Option<treeldr_layouts::value::Number> {
	use treeldr_layouts::value::Number;
	match s.split_once('/') {
		Some((p, q)) => {
			let n = |s: &str| -> Option<_> { Some(Number::from(s.parse::<i64>().ok()?).into_big_rational()) };
			let q = n(q)?;
			if Number::new(q.clone()) == Number::from(0u8) {
				return None;
			}
			Some(Number::from(n(p)? / q))
		}
		None => Number::from_decimal_str(s),
	}
}

pub fn num_run(mut c: J) -> J {
	use treeldr_layouts::value::{NativeNumber, Number};
	let show = |s: &str| {
		guarded(|| match number(s) {
			None => exec::err("not a number"),
			Some(n) => {
				// Whatever can hold the number gives it back.
				let mut same = Vec::new();
				macro_rules! int {
					($($t:ty),*) => { $(if let Ok(i) = s.parse::<$t>() { same.push(Number::from(i) == n); })* };
				}
				int!(u8, u16, u32, u64, i8, i16, i32, i64);
				let f = n.to_f64();
				let back = Number::try_from(f).map(|m| m.decimal_representation().unwrap_or_default()).unwrap_or_else(|_| "?".into());
				same.push(Number::try_from(f64::NAN).is_err() && Number::try_from(f32::INFINITY).is_err() && Number::try_from(f64::NEG_INFINITY).is_err());
				same.push(Number::try_from(f as f32).map(|m| m.to_f64() == (f as f32) as f64).unwrap_or(!(f as f32).is_finite()));
				same.push(n.is_integer() == n.as_integer().is_some());
				same.push(Number::new(n.as_big_rational().clone()) == n);
				json!({
					"st": "ok", "e": "", "dec": n.decimal_representation().into_iter().collect::<Vec<_>>(), "disp": n.to_string(),
					"int": n.as_integer().map(|i| i.to_string()).into_iter().collect::<Vec<_>>(),
					"native": match n.as_native() {
						NativeNumber::U64(x) => x.to_string(),
						NativeNumber::I64(x) => x.to_string(),
						NativeNumber::F64(x) => x.to_string(),
					},
					"float": f.to_string(), "back": back, "same": same,
				})
			}
		})
	};
	let (a, b) = (c["a"].as_str().unwrap().to_owned(), c["b"].as_str().unwrap().to_owned());
	c["ra"] = show(&a);
	c["rb"] = show(&b);
	c["cmp"] = guarded(|| match (number(&a), number(&b)) {
		(Some(a), Some(b)) => {
			let o = a.cmp(&b);
			// The order of values is that of their numbers.
			let v = |n: &Number| Value::Literal(treeldr_layouts::value::Literal::Number(n.clone()));
			let agree = (a == b) == o.is_eq() && a.partial_cmp(&b) == Some(o) && v(&a).cmp(&v(&b)) == o && (v(&a) == v(&b)) == o.is_eq();
			json!({ "st": "ok", "e": if o.is_eq() { "=" } else if o.is_lt() { "<" } else { ">" }, "agree": agree })
		}
		_ => exec::err("-"),
	});
	c
}
