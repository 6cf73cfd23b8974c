//! The command line tool, run as a process of its own.
//!
//! A case: the layout files and how they are given, the command and its
//! options, and what is sent to its standard input.  The outcome: the exit
//! status and what it writes, parsed here by independent parsers.
use crate::{
    ast::Layout,
	ast::{self, Pat, Quad, Style, Val},
	exec::{self, Front},
	gen::{self, Gen},
	proj,
	rng::Rng,
	trees,
};
use serde_json::{json, Value as J};
use std::io::Write;
use std::path::PathBuf;
use std::process::{Command, Stdio};

const TLDR: &str = "https://treeldr.org/prelude#";

fn repeats(q: &Quad) -> bool {
	(0..4).any(|i| (0..i).any(|j| q[i] == q[j]))
}

fn all_nums(v: &Val, f: &dyn Fn(&str) -> bool) -> bool {
	(v.k != "num" || f(&v.s)) && v.c.iter().all(|x| all_nums(x, f))
}

fn has(v: &Val, k: &str) -> bool {
	v.k == k || v.c.iter().any(|x| has(x, k))
}

fn str_keys(v: &Val) -> bool {
	(v.k != "map" || v.c.chunks(2).all(|kv| kv[0].k == "str")) && v.c.iter().all(str_keys)
}

/// Has a JSON notation.
fn jsonable(v: &Val) -> bool {
	!has(v, "bytes") && str_keys(v) && all_nums(v, &|s| !s.contains('/') && !s.starts_with('+'))
}

/// Has an obvious CBOR notation.
fn cborable(v: &Val) -> bool {
	all_nums(v, &|s| s.parse::<i64>().is_ok())
}

fn to_cbor(v: &Val) -> serde_cbor::Value {
	use serde_cbor::Value as V;
	match v.k.as_str() {
		"unit" => V::Null,
		"bool" => V::Bool(v.s == "true"),
		"num" => V::Integer(v.s.parse::<i64>().unwrap().into()),
		"bytes" => V::Bytes(proj::unhex(&v.s)),
		"str" => V::Text(v.s.clone()),
		"list" => V::Array(v.c.iter().map(to_cbor).collect()),
		_ => V::Map(v.c.chunks(2).map(|kv| (to_cbor(&kv[0]), to_cbor(&kv[1]))).collect()),
	}
}

/* N-Quads */

fn write_lit(r: &mut Rng, s: &str, o: &mut String) {
	o.push('"');
	for ch in s.chars() {
		match ch {
			'"' => o.push_str("\\\""),
			'\\' => o.push_str("\\\\"),
			'\n' => o.push_str("\\n"),
			'\r' => o.push_str("\\r"),
			'\t' => o.push_str("\\t"),
			c if r.chance(5) && (c as u32) < 0x10000 => o.push_str(&format!("\\u{:04X}", c as u32)),
			c => o.push(c),
		}
	}
	o.push('"');
}

fn write_term(r: &mut Rng, t: &Pat, o: &mut String) {
	match t.k.as_str() {
		"iri" => o.push_str(&format!("<{}>", t.v)),
		"blank" => o.push_str(&t.v),
		"lit" => {
			write_lit(r, &t.v, o);
			if t.t != "http://www.w3.org/2001/XMLSchema#string" || r.chance(50) {
				o.push_str(&format!("^^<{}>", t.t));
			}
		}
		_ => {
			write_lit(r, &t.v, o);
			o.push_str(&format!("@{}", t.t));
		}
	}
}

fn write_quads(r: &mut Rng, d: &[Quad]) -> String {
	let mut o = String::new();
	for q in d {
		if r.chance(5) {
			o.push_str("# a comment\n");
		}
		for t in q.iter().filter(|t| t.k != "none") {
			write_term(r, t, &mut o);
			o.push_str(if r.chance(10) { "  " } else { " " });
		}
		o.push_str(".\n");
		if r.chance(5) {
			o.push('\n');
		}
	}
	o
}

fn parse_quads(text: &str) -> Option<Vec<Quad>> {
	let mut out = Vec::new();
	let c: Vec<char> = text.chars().collect();
	let mut i = 0;
	let mut terms: Vec<Pat> = Vec::new();
	while i < c.len() {
		match c[i] {
			' ' | '\n' | '\t' | '\r' => i += 1,
			'#' => {
				while i < c.len() && c[i] != '\n' {
					i += 1
				}
			}
			'.' => {
				i += 1;
				if terms.len() == 3 {
					terms.push(Pat::none());
				}
				out.push(<Quad>::try_from(std::mem::take(&mut terms)).ok()?);
			}
			'<' => {
				let e = (i..c.len()).find(|&j| c[j] == '>')?;
				terms.push(Pat::iri(c[i + 1..e].iter().collect::<String>()));
				i = e + 1;
			}
			'_' => {
				let e = (i..c.len()).find(|&j| c[j].is_whitespace()).unwrap_or(c.len());
				terms.push(Pat::new("blank", c[i..e].iter().collect::<String>(), ""));
				i = e;
			}
			'"' => {
				let mut s = String::new();
				i += 1;
				while *c.get(i)? != '"' {
					if c[i] == '\\' {
						i += 1;
						match c.get(i)? {
							'n' => s.push('\n'),
							'r' => s.push('\r'),
							't' => s.push('\t'),
							'b' => s.push('\u{8}'),
							'f' => s.push('\u{c}'),
							u @ ('u' | 'U') => {
								let n = if *u == 'u' { 4 } else { 8 };
								let h: String = c.get(i + 1..i + 1 + n)?.iter().collect();
								s.push(char::from_u32(u32::from_str_radix(&h, 16).ok()?)?);
								i += n;
							}
							x => s.push(*x),
						}
					} else {
						s.push(c[i]);
					}
					i += 1;
				}
				i += 1;
				if c.get(i) == Some(&'^') {
					let e = (i..c.len()).find(|&j| c[j] == '>')?;
					terms.push(Pat::new("lit", s, c[i + 3..e].iter().collect::<String>()));
					i = e + 1;
				} else if c.get(i) == Some(&'@') {
					let e = (i..c.len()).find(|&j| c[j].is_whitespace()).unwrap_or(c.len());
					terms.push(Pat::new("lang", s, c[i + 1..e].iter().collect::<String>()));
					i = e;
				} else {
					terms.push(Pat::new("lit", s, "http://www.w3.org/2001/XMLSchema#string"));
				}
			}
			_ => return None,
		}
	}
	if terms.is_empty() {
		Some(out)
	} else {
		None
	}
}

/* Cases */

fn strip_suffix(r: &mut Rng, s: &str) -> String {
	let n = s.chars().count();
	s.chars().take(r.below(n.max(1))).collect()
}

/// Puts in something that JSON does not have.
fn spoil(r: &mut Rng, v: &mut Val) {
	if (v.k == "list" || v.k == "map") && !v.c.is_empty() && r.chance(80) {
		let mut i = r.below(v.c.len());
		if v.k == "map" && i % 2 == 0 && r.chance(50) {
			i += 1;
		}
		if v.k == "map" && i % 2 == 0 {
			v.c[i] = Val::sc("num", *r.pick(&["1", "-7", "0"]));
		} else {
			spoil(r, &mut v.c[i]);
		}
	} else {
		*v = Val::sc("bytes", *r.pick(&["", "00", "0a0b"]));
	}
}

pub fn case(r: &mut Rng) -> J {
	loop {
		if let Some(c) = try_case(r) {
			return c;
		}
	}
}

fn try_case(r: &mut Rng) -> Option<J> {
	let lo = *r.pick(&[0, 0, 0, 10, 40]);
	let graphs = r.chance(40);
	let mut g = Gen::new(r.fork(), lo, graphs);
	g.dense = r.chance(30);
	g.tags = r.chance(25);
	let mut ls = g.registry();
	if r.chance(12) {
		// A layout of the prelude, defined otherwise.
		let text: String = ls.iter().map(|l| ast::layout_json(l, Style::default()).to_string()).collect();
		let used: Vec<&str> = ["string", "id", "boolean", "integer", "unit", "u8"].into_iter().filter(|n| text.contains(&format!("{TLDR}{n}\""))).collect();
		let name = if used.is_empty() { "string" } else { *r.pick(&used) };
		let mut l = Layout { t: name.into(), id: Some(format!("{TLDR}{name}")), ..Default::default() };
		match name {
			"string" => l.datatype = Some("http://e.x/dt".into()),
			"integer" | "u8" => {
				l.t = "number".into();
				l.datatype = Some("http://www.w3.org/2001/XMLSchema#long".into());
			}
			_ => l.dataset = Some(vec![vec![Pat::var("self"), Pat::iri("http://e.x/is"), Pat::iri(format!("http://e.x/{name}"))]]),
		}
		ls.push(l);
	}
	let mut all = ls.clone();
	if r.chance(12) {
		// Something else, that may define a layout again.
		let mut h = Gen::new(r.fork(), 0, graphs);
		let more = h.registry();
		all.extend(more.into_iter().take(r.range(1, 2)));
	}
	// Which files are main ones: the others are included.
	let mut main: Vec<bool> = all.iter().enumerate().map(|(i, _)| if i == 0 { !r.chance(5) } else { r.chance(7) }).collect();
	if r.chance(3) {
		main.iter_mut().for_each(|m| *m = false);
	}
	let mut order: Vec<usize> = (0..all.len()).collect();
	for i in (1..order.len()).rev() {
		order.swap(i, r.below(i + 1));
	}
	let st = Style { one: r.chance(50), explicit: r.chance(25), wrap: r.chance(25) };
	let mut files = Vec::new();
	for &i in &order {
		let text = ast::layout_json(&all[i], st).to_string();
		// json-syntax (a dependency) miscounts empty objects.
		if text.contains("{}") {
			return None;
		}
		files.push(json!({ "layout": all[i], "main": main[i], "text": text, "st": "ok", "long": r.chance(30) }));
	}
	if r.chance(6) && !files.is_empty() {
		let k = r.below(files.len());
		match r.below(3) {
			0 => files[k]["st"] = json!("missing"),
			1 => {
				let t = strip_suffix(r, files[k]["text"].as_str().unwrap());
				files[k]["text"] = json!(t);
				files[k]["st"] = json!("json");
			}
			_ => {
				files[k]["text"] = json!(*r.pick(&["[1]", "5", "{\"type\":\"nothing\"}", "{\"type\":\"record\",\"fields\":3}", "{\"input\":[\"a\"]}"]));
				files[k]["st"] = json!("layout");
			}
		}
	}
	let cmd = *r.pick(&["hydrate", "hydrate", "hydrate", "hydrate", "hydrate", "hydrate", "hydrate", "dehydrate", "dehydrate", "dehydrate", "tree", "rdf", "none"]);
	let ids: Vec<String> = exec::build(&ls, Style::default(), Front::Serde)
		.ok()
		.map(|b| b.refs.iter().filter_map(|t| Some(t.id().as_iri()?.as_str().to_owned())).collect())
		.unwrap_or_default();
	let layout = if (ids.first().is_some() && r.chance(45)) || r.chance(5) {
		match r.below(20) {
			0 => format!("{TLDR}{}", *r.pick(&["string", "id", "boolean", "integer", "unit", "u8", "xx"])),
			1 => "http://e.x/unknown".into(),
			2 => "_:unknown".into(),
			3 | 4 if !ids.is_empty() => r.pick(&ids).clone(),
			_ => ids.first().cloned().unwrap_or_else(|| "http://e.x/unknown".into()),
		}
	} else {
		String::new()
	};
	let tree = |r: &mut Rng| if r.chance(70) { "json" } else { "cbor" };
	let (mut inp, out) = match cmd {
		"hydrate" => ("nq", tree(r)),
		"dehydrate" => (tree(r), "nq"),
		"tree" => (tree(r), tree(r)),
		"rdf" => ("nq", "nq"),
		_ => ("", ""),
	};
	let (mut doc, mut d, mut ins) = (Val::unit(), vec![], vec![]);
	match cmd {
		"hydrate" | "rdf" => {
			if let Ok(b) = exec::build(&ls, Style::default(), Front::Serde) {
				for _ in 0..4 {
					let v = g.root_value(&ls);
					if let (_, Some((q, i))) = exec::dehydrate(&b, 0, &v) {
						d = q;
						ins = i;
						break;
					}
				}
			}
			if ins.is_empty() || r.chance(5) {
				d = g.any_dataset(r.range(0, 6));
				ins = (0..gen::input_names(&ls[0]).len())
					.map(|_| if d.is_empty() { Pat::iri("http://e.x/s") } else { r.pick(&d)[0].clone() })
					.collect();
			}
			if r.chance(35) {
				g.mutate(&mut d);
			}
			if r.chance(4) {
				ins.pop();
			}
			// Subjects are given as IRIs or blank identifiers.
			if ins.iter().any(|t| t.k != "iri" && t.k != "blank") {
				return None;
			}
			// A dependency's indexed datasets lose quads that repeat a resource.
			if cmd == "hydrate" && d.iter().any(repeats) {
				return None;
			}
		}
		"dehydrate" => doc = if r.chance(5) { g.junk(2) } else { g.root_value(&ls) },
		"tree" => {
			doc = trees::doc(r, 3, 0);
			if inp == "cbor" && r.chance(30) {
				spoil(r, &mut doc);
			}
		}
		_ => {}
	}
	if inp == "json" && !jsonable(&doc) {
		inp = "cbor";
	}
	if inp == "cbor" && !cborable(&doc) {
		if !jsonable(&doc) {
			return None;
		}
		inp = "json";
	}
	if inp == "cbor" {
		// A value has one entry per key.
		doc = proj::value(&proj::to_value(&doc));
	}
	let mut stdin = match inp {
		"json" => {
			let mut t = String::new();
			trees::write_doc(r, &doc, &mut t);
			t.into_bytes()
		}
		"cbor" => serde_cbor::to_vec(&to_cbor(&doc)).unwrap(),
		"nq" => {
			let mut t = d.clone();
			if r.chance(10) && !t.is_empty() {
				let q = r.pick(&t).clone();
				t.push(q);
			}
			write_quads(r, &t).into_bytes()
		}
		_ => vec![],
	};
	let mut badin = false;
	if r.chance(4) && !inp.is_empty() {
		badin = true;
		match inp {
			"json" => stdin = (*r.pick(&["", "[1", "{\"a\":}", "nul", "[1,]", "1 2", "\"abc"])).into(),
			"cbor" => {
				stdin = (*r.pick(&[&[][..], &[0x82, 0x01], &[0x63, 0x61], &[0xa1, 0x61, 0x61], &[0x1c]])).to_vec();
			}
			_ => stdin = (*r.pick(&["<http://e.x/s> <http://e.x/p> .\n", "<http://e.x/s> <http://e.x/p> \"x\n", "a b c .\n", "<http://e.x/s> <http://e.x/p> <http://e.x/o>\n"])).into(),
		}
	}
	let usage = if r.chance(3) { r.range(1, 3) } else { 0 };
	// Files given after the options, formats by their other names...
	let alias = r.below(4);
	Some(json!({
		"op": "cli", "files": files, "noprelude": r.chance(10), "cmd": cmd, "layout": layout,
		"in": inp, "out": out, "pretty": r.chance(30), "doc": doc,
		"dataset": d.iter().map(proj::quad_json).collect::<Vec<_>>(),
		"inputs": ins, "stdin": proj::hex(&stdin), "badin": badin, "usage": usage, "alias": alias,
		"arglong": r.chance(40),
	}))
}

fn fmt(f: &str, alias: u64) -> &'static str {
	match (f, alias % 4) {
		("json", 0 | 1) => "json",
		("json", _) => "application/json",
		("cbor", 0 | 1) => "cbor",
		("cbor", _) => "application/cbor",
		(_, 0) => "n-quads",
		(_, 1) => "nquads",
		(_, 2) => "nq",
		_ => "application/n-quads",
	}
}

fn scratch() -> PathBuf {
	use std::sync::atomic::{AtomicU64, Ordering};
	static N: AtomicU64 = AtomicU64::new(0);
	let d = std::env::temp_dir().join(format!("tldr-cli-{}-{}", std::process::id(), N.fetch_add(1, Ordering::SeqCst)));
	std::fs::create_dir_all(&d).unwrap();
	d
}

/// Only loads a layout file: status, whether it writes nothing, diagnostics.
pub fn load(text: &str) -> (i32, bool, String) {
	let bin = std::env::var("TLDR_BIN").expect("TLDR_BIN");
	let dir = scratch();
	let p = dir.join("l0.json");
	std::fs::write(&p, text).unwrap();
	let o = Command::new(&bin)
		.arg(&p)
		.current_dir(&dir)
		.env("RUST_BACKTRACE", "0")
		.stdin(Stdio::null())
		.output()
		.expect("tldr");
	std::fs::remove_dir_all(&dir).unwrap();
	(o.status.code().unwrap_or(-1), o.stdout.is_empty(), String::from_utf8_lossy(&o.stderr).into_owned())
}

pub fn run(mut c: J) -> J {
	let bin = std::env::var("TLDR_BIN").expect("TLDR_BIN");
	let dir = scratch();
	let s = |j: &J| j.as_str().unwrap().to_owned();
	let mut args: Vec<String> = Vec::new();
	let mut opts: Vec<String> = Vec::new();
	for (i, f) in c["files"].as_array().unwrap().iter().enumerate() {
		let p = dir.join(format!("l{i}.json"));
		if f["st"] != "missing" {
			std::fs::write(&p, s(&f["text"])).unwrap();
		}
		let p = p.to_string_lossy().into_owned();
		if f["main"] == true {
			args.push(p);
		} else {
			opts.push(if f["long"] == true { "--include".into() } else { "-i".into() });
			opts.push(p);
		}
	}
	let long = c["arglong"] == true;
	if c["noprelude"] == true {
		opts.push(if long { "--no-prelude".into() } else { "-n".into() });
	}
	if long {
		opts.extend(std::mem::take(&mut args));
		args = opts;
	} else {
		args.extend(opts);
	}
	let cmd = s(&c["cmd"]);
	let alias = c["alias"].as_u64().unwrap();
	let usage = c["usage"].as_u64().unwrap();
	match cmd.as_str() {
		"none" => {}
		"tree" | "rdf" => args.extend(["convert".into(), cmd.clone()]),
		_ => args.push(cmd.clone()),
	}
	if cmd != "none" {
		let (i, o) = (s(&c["in"]), s(&c["out"]));
		let default = |f: &str, tree: bool| if tree { f == "json" } else { f == "nq" };
		if !(default(&i, matches!(cmd.as_str(), "tree" | "dehydrate")) && alias == 0) {
			args.extend([if long { "--input" } else { "-i" }.to_owned(), fmt(&i, alias).to_owned()]);
		}
		if !(default(&o, matches!(cmd.as_str(), "tree" | "hydrate")) && alias == 0) {
			args.extend([if long { "--output" } else { "-o" }.to_owned(), fmt(&o, alias).to_owned()]);
		}
		if matches!(cmd.as_str(), "hydrate" | "dehydrate") {
			if c["layout"] != "" {
				args.extend([if long { "--layout" } else { "-l" }.to_owned(), s(&c["layout"])]);
			}
		}
		if matches!(cmd.as_str(), "hydrate" | "tree") && c["pretty"] == true {
			args.push(if long { "--pretty" } else { "-p" }.into());
		}
		if cmd == "hydrate" {
			for t in c["inputs"].as_array().unwrap() {
				args.push(s(&t["v"]));
			}
		}
	}
	match usage {
		1 => args.push("--no-such-option".into()),
		2 if cmd == "hydrate" || cmd == "dehydrate" => args.extend(["--layout".into(), "not an iri".into(), "--layout".into(), "no".into()]),
		2 => args.push("--layout".into()),
		3 => args.extend(["-o".into(), "yaml".into()]),
		_ => {}
	}
	let stdin = proj::unhex(c["stdin"].as_str().unwrap());
	let mut ch = Command::new(&bin)
		.args(&args)
		.current_dir(&dir)
		.env("RUST_BACKTRACE", "0")
		.stdin(Stdio::piped())
		.stdout(Stdio::piped())
		.stderr(Stdio::piped())
		.spawn()
		.expect("tldr");
	let mut si = ch.stdin.take().unwrap();
	let h = std::thread::spawn(move || {
		let _ = si.write_all(&stdin);
	});
	let o = ch.wait_with_output().unwrap();
	h.join().unwrap();
	std::fs::remove_dir_all(&dir).unwrap();
	let rc = o.status.code().unwrap_or(-1);
	let mut res = json!({
		"rc": rc, "silent": o.stdout.is_empty(), "says": !o.stderr.is_empty(), "wf": true,
		"err": String::from_utf8_lossy(&o.stderr).chars().take(300).collect::<String>(),
		"v": Val::unit(), "q": [],
	});
	if rc == 0 && usage == 0 {
		let text = String::from_utf8(o.stdout.clone());
		match c["out"].as_str().unwrap() {
			"json" => match text.ok().and_then(|t| { use json_syntax::Parse; json_syntax::Value::parse_str(&t).ok() }) {
				Some((v, _)) => res["v"] = json!(trees::from_json_syntax(&v)),
				None => res["wf"] = json!(false),
			},
			"cbor" => match serde_cbor::from_slice::<serde_cbor::Value>(&o.stdout) {
				Ok(v) => res["v"] = json!(trees::from_cbor(&v)),
				Err(_) => res["wf"] = json!(false),
			},
			"nq" => match text.ok().and_then(|t| parse_quads(&t)) {
				Some(q) => res["q"] = json!(q.iter().map(proj::quad_json).collect::<Vec<_>>()),
				None => res["wf"] = json!(false),
			},
			_ => {}
		}
	}
	c["args"] = json!(args);
	c["res"] = res;
	c
}
