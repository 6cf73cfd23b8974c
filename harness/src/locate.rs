//! Faulty layout texts: what the parsers say of them, and where.
//!
//! A case: a JSON document (a layout text, with changes anywhere).  The
//! document is printed here, fragment by fragment, so that where each fragment
//! is does not depend on the JSON parser.
use crate::{
	ast::{self, Style},
	exec,
	gen::Gen,
	rng::Rng,
};
use serde_json::{json, Value as J};
use treeldr_layouts::abs::syntax::{self, Error, ErrorHint, ExpectedType};

/// A JSON document: duplicated keys, and the order of entries, are kept.
#[derive(Clone)]
pub struct D {
	/// Its kind.
	t: &'static str,
	/// A string, or the notation of a number or boolean.
	s: String,
	/// The items of an array, the values of an object.
	a: Vec<D>,
	/// The keys of an object.
	k: Vec<String>,
}

const KINDS: [&str; 6] = ["null", "boolean", "number", "string", "array", "object"];

fn d(t: &'static str, s: &str) -> D {
	D { t, s: s.to_owned(), a: Vec::new(), k: Vec::new() }
}

impl D {
	fn from_json(j: &J) -> D {
		match j {
			J::Null => d("null", ""),
			J::Bool(b) => d("boolean", &b.to_string()),
			J::Number(n) => d("number", &n.to_string()),
			J::String(s) => d("string", s),
			J::Array(a) => D { a: a.iter().map(D::from_json).collect(), ..d("array", "") },
			J::Object(o) => D {
				a: o.values().map(D::from_json).collect(),
				k: o.keys().cloned().collect(),
				..d("object", "")
			},
		}
	}

	/// How it is written in cases.
	fn to_case(&self) -> J {
		json!({ "t": self.t, "s": self.s, "a": self.a.iter().map(D::to_case).collect::<Vec<_>>(), "k": self.k })
	}

	fn from_case(j: &J) -> D {
		D {
			t: KINDS.iter().find(|k| j["t"] == **k).unwrap(),
			s: j["s"].as_str().unwrap().to_owned(),
			a: j["a"].as_array().unwrap().iter().map(D::from_case).collect(),
			k: serde_json::from_value(j["k"].clone()).unwrap(),
		}
	}

	fn count(&self) -> usize {
		1 + self.a.iter().map(D::count).sum::<usize>()
	}

	/// The n-th node.
	fn node(&mut self, n: &mut usize) -> Option<&mut D> {
		if *n == 0 {
			return Some(self);
		}
		*n -= 1;
		self.a.iter_mut().find_map(|x| x.node(n))
	}

	/// Removes the entries that are empty objects.
	fn no_empty(&mut self) {
		self.a.iter_mut().for_each(D::no_empty);
		if self.t == "object" {
			let keep: Vec<bool> = self.a.iter().map(|v| v.t != "object" || !v.a.is_empty()).collect();
			let mut i = keep.iter();
			self.a.retain(|_| *i.next().unwrap());
			let mut i = keep.iter();
			self.k.retain(|_| *i.next().unwrap());
		}
	}

	fn empty_object(&self) -> bool {
		(self.t == "object" && self.a.is_empty()) || self.a.iter().any(D::empty_object)
	}
}

/// Prints a document, and where each fragment of it starts.
struct Printer {
	text: String,
	line: usize,
	col: usize,
	/// Line and column of fragments: values, and entries and keys of objects.
	pos: Vec<(usize, usize)>,
	wide: bool,
}

impl Printer {
	fn put(&mut self, s: &str) {
		for c in s.chars() {
			if c == '\n' {
				self.line += 1;
				self.col = 1;
			} else {
				self.col += 1;
			}
			self.text.push(c);
		}
	}

	fn mark(&mut self) -> usize {
		self.pos.push((self.line, self.col));
		self.pos.len() - 1
	}

	fn sep(&mut self, depth: usize) {
		if self.wide {
			self.put("\n");
			self.put(&"  ".repeat(depth));
		}
	}

	/// Returns the annotated document.
	fn value(&mut self, v: &D, depth: usize) -> J {
		let o = self.mark();
		let (mut e, mut a) = (Vec::new(), Vec::new());
		match v.t {
			"null" => self.put("null"),
			"string" => self.put(&J::String(v.s.clone()).to_string()),
			"array" => {
				self.put("[");
				for (i, x) in v.a.iter().enumerate() {
					if i > 0 {
						self.put(",");
						if !self.wide || i % 2 == 1 {
							self.put(" ");
						} else {
							self.sep(depth + 1);
						}
					}
					a.push(self.value(x, depth + 1));
				}
				self.put("]");
			}
			"object" => {
				self.put("{");
				for (i, x) in v.a.iter().enumerate() {
					if i > 0 {
						self.put(",");
					}
					self.sep(depth + 1);
					self.mark();
					let ko = self.mark();
					self.put(&J::String(v.k[i].clone()).to_string());
					self.put(if self.wide { ": " } else { ":" });
					let x = self.value(x, depth + 1);
					e.push(json!({ "k": v.k[i], "o": ko, "v": x }));
				}
				self.sep(depth);
				self.put("}");
			}
			_ => self.put(&v.s),
		}
		json!({ "t": v.t, "s": v.s, "o": o, "e": e, "a": a })
	}
}

const STRS: [&str; 36] = [
	"http://e.x/a", "ex:a", "a", "", "x y", "_:x", "_:", "_:self", "_: a", "%zz", "1:b", "a:b:c", "<a>", "#a", "//h/p", "?q", "a#b#c", "http://",
	"en", "fr-CA", "e n", "(a", "a)", "[a", "a\\", "a|b", "[a-c]+", "[^", "record", "sum", "unit", "nothing", "list", "string", "Record", "\u{e9}",
];
const KEYS: [&str; 34] = [
	"type", "base", "prefixes", "id", "input", "intro", "dataset", "extra", "fields", "variants", "node", "head", "tail", "item", "items", "rest",
	"value", "layout", "graph", "property", "required", "const", "resource", "datatype", "pattern", "language", "unknown", "Type", "", "types", "layouts",
	"ex", "http://e.x/k", "x y",
];

fn any(r: &mut Rng, depth: usize) -> D {
	match r.below(if depth == 0 { 10 } else { 14 }) {
		0 => d("null", ""),
		1 => d("boolean", *r.pick(&["true", "false"])),
		2 => d("number", *r.pick(&["0", "1", "-7", "1.5", "1e3", "9223372036854775807", "9223372036854775808", "18446744073709551616"])),
		3..=9 => {
			let s = *r.pick(&STRS);
			d("string", s)
		}
		10 | 11 => {
			let n = r.below(5);
			D { a: (0..n).map(|_| any(r, depth - 1)).collect(), ..d("array", "") }
		}
		_ => {
			let n = r.range(1, 3);
			D { a: (0..n).map(|_| any(r, depth - 1)).collect(), k: (0..n).map(|_| (*r.pick(&KEYS)).to_owned()).collect(), ..d("object", "") }
		}
	}
}

/// A literal, or a typed string, that may be wrong.
fn literal(r: &mut Rng) -> D {
	let mut o = d("object", "");
	let mut put = |k: &str, v: D| {
		o.k.push(k.to_owned());
		o.a.push(v);
	};
	if r.chance(90) {
		put("value", if r.chance(90) { d("string", "x") } else { any(r, 0) });
	}
	if r.chance(60) {
		let l = *r.pick(&["en", "fr-CA", "e n", "", "en-", "a1", "toolonglang", "en-toolonglang", "en-GB", "1"]);
		put("language", if r.chance(90) { d("string", l) } else { any(r, 0) });
	} else if r.chance(70) {
		let t = *r.pick(&["http://e.x/t", "a", "x y", "_:t", "#t"]);
		put("type", if r.chance(90) { d("string", t) } else { any(r, 0) });
	}
	if r.chance(10) {
		put(*r.pick(&KEYS), any(r, 0));
	}
	if o.a.is_empty() {
		o.k.push("value".into());
		o.a.push(d("string", ""));
	}
	o
}

/// A pattern, as it should be, of one or several fragments.
fn fine(r: &mut Rng) -> D {
	let of = |k: &[(&str, &str)]| D { a: k.iter().map(|(_, v)| d("string", v)).collect(), k: k.iter().map(|(k, _)| (*k).to_owned()).collect(), ..d("object", "") };
	match r.below(6) {
		0 => of(&[("value", "x"), ("type", "http://e.x/t")]),
		1 => of(&[("value", "x"), ("language", "en")]),
		2 => of(&[("value", "x")]),
		3 => d("string", "_:self"),
		_ => d("string", "http://e.x/o"),
	}
}

/// Patterns of which one at most is wrong.
fn patterns(r: &mut Rng, n: usize) -> D {
	let mut a: Vec<D> = (0..n).map(|_| fine(r)).collect();
	if n > 0 && r.chance(80) {
		// More often the last.
		let i = if r.chance(60) { n - 1 } else { r.below(n) };
		a[i] = if r.chance(60) { d("string", *r.pick(&["x y", "_: a", "%zz", "[", "1:b"])) } else { literal(r) };
	}
	D { a, ..d("array", "") }
}

/// A value for an entry, of the kind it should have, that may be wrong.
fn entry(r: &mut Rng, key: &str) -> D {
	match key {
		"type" => d("string", *r.pick(&["record", "sum", "list", "set", "tuple", "id", "unit", "union", "intersection", "Set", "bool", ""])),
		"pattern" => d("string", *r.pick(&["(a", "a)", "[a", "a\\", "[^", "a|b)", "([)]", "[]", "[^]]", "(a(b)", "(((", "a\\)", "[a\\]", "[a-]", "[a--]", "[\\]]", "()", "x"])),
		"extra" => D {
			a: vec![match r.below(4) {
				0 => literal(r),
				1 => d("boolean", "true"),
				_ => d("number", *r.pick(&["0", "-1", "1.0", "0.5", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "1E3", "1e-3", "12345678901234567890123"])),
			}],
			k: vec![(*r.pick(&["ex:a", "http://e.x/a", "x y", "%", "_:x"])).to_owned()],
			..d("object", "")
		},
		"required" => d(*r.pick(&["boolean", "string"]), "true"),
		"dataset" if r.chance(60) => {
			let m = r.range(1, 3);
			let a = (0..m)
				.map(|i| {
					let n = if r.chance(60) { 4 } else { 3 };
					if i + 1 == m { patterns(r, n) } else { D { a: (0..n).map(|_| fine(r)).collect(), ..d("array", "") } }
				})
				.collect();
			D { a, ..d("array", "") }
		}
		"input" if r.chance(50) => {
			let n = r.range(1, 4);
			patterns(r, n)
		}
		"dataset" => {
			let n = r.range(2, 5);
			let a = (0..n).map(|_| if r.chance(40) { literal(r) } else { d("string", *r.pick(&["_:self", "ex:p", "http://e.x/o", "x y"])) }).collect();
			D { a: vec![D { a, ..d("array", "") }], ..d("array", "") }
		}
		"input" | "intro" => {
			let n = r.range(1, 3);
			let a = (0..n).map(|_| if r.chance(20) { literal(r) } else { d("string", *r.pick(&["self", "value", "_:self", "x y"])) }).collect();
			D { a, ..d("array", "") }
		}
		"prefixes" => D { a: vec![any(r, 0)], k: vec!["ex".to_owned()], ..d("object", "") },
		"base" | "id" | "datatype" | "language" => d("string", *r.pick(&["http://e.x/a", "ex:a", "x y", "%zz", "1:b", "_:x", "[", "\u{e9}"])),
		_ if r.chance(50) => literal(r),
		_ => d("string", *r.pick(&["_:self", "ex:p", "x y", "_:", "_:value", "%zz"])),
	}
}

fn mutate(r: &mut Rng, doc: &mut D) {
	let mut n = r.below(doc.count());
	let mut x = doc.node(&mut n).unwrap();
	// An entry of the object, or one more.
	if r.chance(50) {
		for _ in 0..4 {
			if x.t == "object" {
				break;
			}
			let mut n = r.below(doc.count());
			x = doc.node(&mut n).unwrap();
		}
		if x.t == "object" {
			let ty = x.k.iter().position(|k| k == "type").map_or(String::new(), |i| x.a[i].s.clone());
			let key = match ty.as_str() {
				_ if r.chance(12) => "dataset",
				_ if x.k.iter().any(|k| k == "layout") && r.chance(40) => "input",
				"string" | "id" if r.chance(50) => "pattern",
				"" => *r.pick(&KEYS),
				_ if r.chance(30) => "extra",
				_ => *r.pick(&KEYS),
			};
			let (i, key) = match x.k.iter().position(|k| k == key) {
				Some(i) => (i, key.to_owned()),
				None if x.a.is_empty() || r.chance(50) => (x.a.len(), key.to_owned()),
				None => {
					let i = r.below(x.a.len());
					(i, x.k[i].clone())
				}
			};
			let v = entry(r, &key);
			if i < x.a.len() {
				x.a[i] = v;
			} else {
				x.a.push(v);
				x.k.push(key);
			}
			return;
		}
	}
	let how = r.below(10);
	let i = if x.a.is_empty() { 0 } else { r.below(x.a.len()) };
	match (x.t, how) {
		("object", 0..=1) => {
			let k = (*r.pick(&KEYS)).to_owned();
			let at = r.below(x.a.len() + 1);
			x.a.insert(at, any(r, 2));
			x.k.insert(at, k);
		}
		("object", 2) if x.a.len() > 1 => {
			x.a.remove(i);
			x.k.remove(i);
		}
		("object", 3) if !x.a.is_empty() => {
			let (v, k) = (if r.chance(50) { x.a[i].clone() } else { any(r, 1) }, x.k[i].clone());
			let at = r.below(x.a.len() + 1);
			x.a.insert(at, v);
			x.k.insert(at, k);
		}
		("object", 4) if !x.a.is_empty() => x.k[i] = (*r.pick(&KEYS)).to_owned(),
		("object", 5) if x.a.len() > 1 => {
			let j = r.below(x.a.len());
			x.a.swap(i, j);
			x.k.swap(i, j);
		}
		("object", 6..=7) if !x.a.is_empty() => x.a[i] = any(r, 2),
		("array", 0) => {
			let at = r.below(x.a.len() + 1);
			x.a.insert(at, any(r, 1));
		}
		("array", 4..=5) if x.a.len() == 3 => x.a.extend([d("string", "_:self"), any(r, 1)]),
		("array", 1..=2) if !x.a.is_empty() => {
			x.a.remove(i);
		}
		("array", 3) if !x.a.is_empty() => {
			let y = x.a[i].clone();
			x.a.push(y);
		}
		("string", 0..=4) => {
			x.s = (*r.pick(&STRS)).to_owned();
		}
		("string", 6..=7) => *x = literal(r),
		("string", 5) => x.s.push_str(*r.pick(&["s", " ", "#", "[", "\u{e9}", "/.", "%"])),
		(_, 9) => {
			let y = x.clone();
			*x = D { a: vec![y], ..d("array", "") };
		}
		_ => *x = any(r, 2),
	}
}

pub fn case(r: &mut Rng) -> J {
	let lo = *r.pick(&[0, 10, 40]);
	let mut g = Gen::new(r.fork(), lo, true);
	g.weird = r.chance(30);
	let mut ls = g.registry();
	let i = r.below(ls.len());
	let st = Style { one: r.chance(50), explicit: r.chance(25), wrap: r.chance(25) };
	let mut doc = D::from_json(&ast::layout_json(&ls.swap_remove(i), st));
	if r.chance(90) {
		doc.no_empty();
	}
	for _ in 0..r.below(4) {
		mutate(r, &mut doc);
	}
	json!({ "op": "loc", "input": doc.to_case(), "wide": r.chance(70), "tool": std::env::var("TLDR_BIN").is_ok() && r.chance(25) })
}

fn fault(k: &str, at: usize, key: &str, exp: Vec<String>, found: &str, other: usize) -> J {
	json!({ "k": k, "at": at, "key": key, "exp": exp, "found": found, "other": other })
}

fn kinds(k: json_syntax::KindSet) -> Vec<String> {
	k.into_iter().map(|k| k.to_string()).collect()
}

fn error(e: &Error) -> J {
	match e {
		Error::Unexpected { expected, found, .. } => fault("Unexpected", e.position(), "", kinds(*expected), &found.to_string(), 0),
		Error::MissingRequiredEntry { key, .. } => fault("MissingRequiredEntry", e.position(), key, vec![], "", 0),
		Error::DuplicateEntry { key, .. } => {
			let other = e.hints().iter().find_map(ErrorHint::position).unwrap_or(0);
			fault("DuplicateEntry", e.position(), key, vec![], "", other)
		}
		Error::UnexpectedEntry { key, .. } => fault("UnexpectedEntry", e.position(), key, vec![], "", 0),
		Error::MissingType(_) => fault("MissingType", e.position(), "", vec![], "", 0),
		Error::InvalidType { expected, found, .. } => {
			let exp = match expected {
				ExpectedType::One(t) => vec![t.to_string()],
				ExpectedType::Many(t) => t.iter().map(|t| t.to_string()).collect(),
			};
			fault("InvalidType", e.position(), "", exp, found, 0)
		}
		Error::InvalidRegex(_, m) => fault("InvalidRegex", e.position(), &m.to_string(), vec![], "", 0),
		Error::InvalidPattern(_, s) => fault("InvalidPattern", e.position(), s, vec![], "", 0),
		Error::InvalidLangTag(_, s) => fault("InvalidLangTag", e.position(), s, vec![], "", 0),
		Error::InvalidCompactIri(_, s) => fault("InvalidCompactIri", e.position(), s, vec![], "", 0),
		Error::MissingQuadPattern(_) => fault("MissingQuadPattern", e.position(), "", vec![], "", 0),
		Error::TooManyQuadPatterns(_) => fault("TooManyQuadPatterns", e.position(), "", vec![], "", 0),
		Error::ExpectedInteger(_, n) => fault("ExpectedInteger", e.position(), n.as_str(), vec![], "", 0),
		Error::IntegerOverflow(_, n) => fault("IntegerOverflow", e.position(), n.as_str(), vec![], "", 0),
	}
}

/// Text without the escape sequences of terminals.
fn plain(s: &str) -> String {
	let mut out = String::new();
	let mut chars = s.chars();
	while let Some(c) = chars.next() {
		if c == '\u{1b}' {
			chars.find(|c| c.is_ascii_alphabetic());
		} else {
			out.push(c);
		}
	}
	out
}

/// What the tool says of the text.
fn tool(text: &str) -> J {
	let (rc, out, err) = crate::cli::load(text);
	let err = plain(&err);
	let at = err
		.lines()
		.find_map(|l| l.split_once("l0.json:"))
		.and_then(|(_, p)| p.trim().split_once(':'))
		.and_then(|(l, c)| Some((l.parse::<usize>().ok()?, c.parse::<usize>().ok()?)))
		.unwrap_or((0, 0));
	// The messages of labels, after underlines.
	let lines: Vec<&str> = err
		.lines()
		.filter_map(|l| l.split_once('│').map(|l| l.1))
		.map(|l| l.trim_start_matches([' ', '│', '╰', '─', '^', '-', '\'']))
		.collect();
	let notes: Vec<&str> = err.lines().filter_map(|l| l.trim().strip_prefix("= ")).collect();
	let also = err.lines().filter(|l| l.ends_with("- also defined here")).count();
	json!({ "st": "run", "rc": rc, "silent": out, "says": !err.is_empty(), "line": at.0, "col": at.1, "lines": lines, "notes": notes, "also": also })
}

pub fn run(mut c: J) -> J {
	let doc = D::from_case(&c["input"]);
	let mut p = Printer { text: String::new(), line: 1, col: 1, pos: Vec::new(), wide: c["wide"] == true };
	c["doc"] = p.value(&doc, 0);
	c["pos"] = json!(p.pos);
	let text = p.text;
	let skip = json!({ "st": "skip" });
	c["tool_res"] = skip.clone();
	c["text"] = json!(text);
	let mut read = None;
	c["serde"] = exec::guarded(|| match serde_json::from_str::<syntax::Layout>(&text) {
		Ok(l) => {
			read = Some(l);
			json!({ "st": "ok", "m": "" })
		}
		Err(e) => json!({ "st": "err", "m": e.to_string() }),
	});
	c["same"] = json!(true);
	c["tracked"] = skip;
	// The JSON parser miscounts empty objects.
	if !doc.empty_object() {
		let mut same = true;
		c["tracked"] = exec::guarded(|| {
			use json_syntax::{Parse, TryFromJson};
			let (v, m) = json_syntax::Value::parse_str(&text).unwrap();
			match syntax::Layout::try_from_json(&v, &m) {
				Ok(l) => {
					same = read.as_ref().map_or(true, |r| *r == l);
					json!({ "st": "ok" })
				}
				Err(e) => json!({ "st": "err", "e": error(&e), "m": e.to_string() }),
			}
		});
		c["same"] = json!(same);
		if c["tool"] == true {
			c["tool_res"] = tool(&text);
		}
	}
	c
}
