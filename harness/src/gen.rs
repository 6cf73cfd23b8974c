//! Random layouts, values and datasets.
//!
//! `loose = 0` produces *faithful* layouts: every component has a link of its
//! own, variants are told apart both by their values and by their data, so
//! that values survive a round trip. The higher `loose`, the more often the
//! generator departs from that discipline.
use crate::{
	ast::{Comp, Fmt, LRef, Layout, Pat, Quad, Val},
	rng::Rng,
};

pub const EX: &str = "https://ex.org/";
pub const XSD: &str = "http://www.w3.org/2001/XMLSchema#";
pub const RDF: &str = "http://www.w3.org/1999/02/22-rdf-syntax-ns#";

pub const TLDR: &str = "https://treeldr.org/prelude#";

/// The other types of numbers and texts of XML Schema.
const NUMBERS: &[&str] = &[
	"nonPositiveInteger", "negativeInteger", "nonNegativeInteger", "positiveInteger", "long", "int", "short", "byte", "unsignedLong",
	"unsignedInt", "unsignedShort", "unsignedByte", "integer",
];
const TEXTS: &[&str] = &[
	"string", "normalizedString", "token", "token", "language", "Name", "NCName", "NMTOKEN", "anyURI", "dateTime", "date", "time",
	"duration", "gYear", "QName",
];

/// The layouts of the prelude: name, type, datatype, shape.
pub const PRELUDE: [(&str, &str, &str, Shape); 12] = [
	("unit", "unit", "", Shape::Other),
	("boolean", "boolean", "", Shape::Bool),
	("u8", "number", "unsignedByte", Shape::Num),
	("u16", "number", "unsignedShort", Shape::Num),
	("u32", "number", "unsignedInt", Shape::Num),
	("u64", "number", "unsignedLong", Shape::Num),
	("i8", "number", "byte", Shape::Num),
	("i16", "number", "short", Shape::Num),
	("i32", "number", "int", Shape::Num),
	("i64", "number", "long", Shape::Num),
	("string", "string", "", Shape::Str),
	("id", "id", "", Shape::Other),
];

fn prelude(id: &str) -> Layout {
	let (_, t, d, _) = PRELUDE.iter().find(|p| p.0 == id).unwrap();
	let mut l = Layout { t: (*t).into(), ..Default::default() };
	if *t == "number" {
		l.datatype = Some(format!("{XSD}{d}"));
	}
	l
}

pub struct Gen {
	pub r: Rng,
	pub loose: usize,
	/// Named graphs allowed.
	pub graphs: bool,
	n: usize,
	/// Named layouts one can refer to, with their shapes.
	pub named: Vec<(String, Shape, Vec<String>)>,
	/// The next compound layout has several inputs.
	wide: bool,
	/// Many fields, items or variants in the next compound layout.
	big: bool,
	/// A long list in the next value.
	long: bool,
	/// A deep chain of values, of that length.
	deep: usize,
	/// Unique suffix for ids in values.
	ids: usize,
	/// Unusual base IRIs, prefixes and relative IRIs.
	pub weird: bool,
	/// The property whose local name is empty is taken.
	no_local: bool,
	/// CBOR tags on most layouts.
	pub tags: bool,
	/// Small layouts where everything may coincide.
	pub dense: bool,
	/// What the root layout has to be: "", "sum", "list", "lit".
	pub focus: &'static str,
}

/// What values look like, to keep sums unambiguous.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Shape {
	Bool,
	Num,
	Str,
	/// A record with at least one required key of its own.
	Rec,
	/// An ordered list or a non empty tuple.
	Seq,
	Other,
}

#[derive(Clone, Copy, Default)]
pub struct Sc {
	base: bool,
	pfx: bool,
}

impl Gen {
	pub fn new(r: Rng, loose: usize, graphs: bool) -> Self {
		Self { r, loose, graphs, n: 0, named: vec![], wide: false, big: false, long: false, deep: 0, ids: 0, weird: false, no_local: false, tags: false, dense: false, focus: "" }
	}

	pub fn is_loose(&mut self) -> bool {
		self.loose > 0 && self.r.chance(self.loose)
	}

	fn fresh(&mut self) -> usize {
		self.n += 1;
		self.n
	}

	/// Some notation for `s` (below EX) in scope.
	pub fn iri(&mut self, s: &str, sc: Sc) -> String {
		if self.weird && self.r.chance(40) {
			return match self.r.below(11) {
				9 => "ex:".to_owned(),
				10 => format!("ex:/{s}"),
				0 if sc.base => format!("../{s}"),
				1 if sc.base => format!("#{s}"),
				2 if sc.base => format!("?{s}"),
				3 if sc.base => format!("/{s}/./x/../y"),
				4 if sc.base => format!("//h.org/{s}"),
				5 => format!("ex:{s}"),
				6 => format!("b:{s}"),
				7 => format!("b2:{s}#f"),
				8 if sc.base && self.r.chance(20) => String::new(),
				_ if sc.base || self.r.chance(10) => s.to_owned(),
				_ => format!("{EX}{s}"),
			};
		}
		match self.r.below(3) {
			0 if sc.base => s.to_owned(),
			1 if sc.pfx => format!("ex:{s}"),
			_ => format!("{EX}{s}"),
		}
	}

	fn prop(&mut self, sc: Sc) -> Pat {
		let s = if !self.no_local && self.r.chance(4) {
			// The prefix (or base) itself.
			self.no_local = !self.is_loose();
			String::new()
		} else if self.is_loose() {
			format!("p{}", self.r.below(3))
		} else {
			format!("p{}", 10 + self.fresh())
		};
		Pat::iri(self.iri(&s, sc))
	}

	pub fn graph_iri(&mut self, sc: Sc) -> Pat {
		let s = format!("g{}", self.r.below(2));
		Pat::iri(self.iri(&s, sc))
	}

	fn class(&mut self, sc: Sc) -> Pat {
		let s = if self.is_loose() { format!("C{}", self.r.below(3)) } else { format!("C{}", 10 + self.fresh()) };
		Pat::iri(self.iri(&s, sc))
	}

	/// The layouts of one registry; the first is the root.
	pub fn registry(&mut self) -> Vec<Layout> {
		let mut out = Vec::new();
		let mut k = *self.r.pick(&[0, 0, 0, 1, 1, 2]);
		if !self.dense {
			self.long = self.r.chance(3);
			if self.r.chance(2) {
				self.deep = self.r.range(8, 30);
				k = 1;
			}
		}
		for i in 0..k {
			let id = format!("{EX}L{i}");
			// A record may refer to itself through an optional field.
			self.wide = self.r.chance(15);
			let (mut l, shape) = if self.dense {
				(self.dense(1, Sc::default(), None), Shape::Other)
			} else {
				match self.deep {
					0 => self.layout(2, Sc::default(), None),
					_ => (self.record(1, Sc::default(), false), Shape::Rec),
				}
			};
			if matches!(l.t.as_str(), "always" | "never") {
				continue;
			}
			l.id = Some(id.clone());
			if l.t == "record" && (self.r.chance(40) || self.deep > 0) {
				let p = self.prop(Sc::default());
				let c = Comp {
					name: Some("next".into()),
					property: Some(p),
					value: Fmt { layout: LRef::Ref { v: id.clone() }, ..Default::default() },
					..Default::default()
				};
				if input_names(&l).len() == 1 {
					l.fields.get_or_insert_with(Vec::new).push(c);
				}
			}
			self.named.push((id, shape, input_names(&l)));
			out.push(l);
		}
		self.wide = self.r.chance(12);
		self.big = !self.dense && self.r.chance(3);
		let root = self.root();
		self.wide = false;
		self.big = false;
		let at = if self.deep > 0 { out.len() } else { 0 };
		out.insert(at, root);
		if self.r.chance(30) {
			self.recursive_sum(&mut out);
		}
		if self.loose > 0 && self.r.chance(4) {
			self.named.push((format!("{EX}Missing"), Shape::Other, vec!["self".into()]));
		}
		out
	}

	/// Adds to a sum a variant that refers to a layout of the registry (itself,
	/// one it is part of…), for the same resource or another one.
	fn recursive_sum(&mut self, out: &mut [Layout]) {
		let sums: Vec<usize> = (0..out.len()).filter(|i| out[*i].t == "sum" && out[*i].variants.is_some()).collect();
		if sums.is_empty() {
			return;
		}
		let i = *self.r.pick(&sums);
		let vars: Vec<String> = input_names(&out[i]);
		let targets: Vec<String> = out
			.iter()
			.filter(|l| input_names(l).len() == 1 && l.t != "always" && l.t != "never")
			.filter_map(|l| l.id.clone())
			.filter(|id| self.named.iter().any(|n| n.0 == *id))
			.collect();
		if targets.is_empty() || vars.is_empty() {
			return;
		}
		let target = match out[i].id.clone() {
			Some(id) if targets.contains(&id) && self.r.chance(60) => id,
			_ => self.r.pick(&targets).clone(),
		};
		let mut c = Comp {
			name: Some("zz".into()),
			value: Fmt { layout: LRef::Ref { v: target }, ..Default::default() },
			..Default::default()
		};
		let v = self.r.pick(&vars).clone();
		if self.r.chance(60) {
			c.intro = Some(vec![]);
			c.value.input = Some(vec![Pat::var(v)]);
		} else {
			let p = self.prop(Sc::default());
			c.intro = Some(vec!["value".into()]);
			c.value.input = Some(vec![Pat::var("value")]);
			c.dataset = Some(vec![vec![Pat::var(v), p, Pat::var("value")]]);
		}
		out[i].variants.as_mut().unwrap().push(c);
	}

	fn root(&mut self) -> Layout {
		let sc = Sc::default();
		if self.dense {
			let d = self.r.range(1, 2);
			return match self.focus {
				"sum" => self.dense(d, sc, Some("sum")),
				"list" => {
					let k = *self.r.pick(&["list", "tuple", "set"]);
					self.dense(d, sc, Some(k))
				}
				"lit" => self.dense(0, sc, None),
				_ => {
					let k = *self.r.pick(&["record", "sum", "list", "set", "tuple", "record"]);
					self.dense(d, sc, Some(k))
				}
			};
		}
		match self.focus {
			"sum" => {
				let l = self.sum(3, sc);
				if self.r.chance(30) {
					// A sum in a field: what fails stays inside.
					let mut rec = self.record(1, sc, false);
					let p = self.prop(sc);
					if input_names(&rec) == ["self"] {
						rec.fields.get_or_insert_with(Vec::new).push(Comp {
							name: Some("sum".into()),
							property: Some(p),
							value: Fmt { layout: LRef::Def { l: Box::new(l) }, ..Default::default() },
							..Default::default()
						});
					}
					return rec;
				}
				l
			}
			"list" => match self.r.below(6) {
				0 | 1 => self.tuple(2, sc),
				2 => self.set(2, sc),
				_ => self.list(2, sc),
			},
			"lit" => {
				let t = *self.r.pick(&["boolean", "number", "number", "number", "string", "bytes", "bytes", "id", "unit"]);
				let l = self.literal(t, sc);
				if self.r.chance(30) {
					let mut rec = Layout { t: "record".into(), ..Default::default() };
					let p = self.prop(sc);
					rec.fields = Some(vec![Comp {
						name: Some("x".into()),
						property: Some(p),
						value: Fmt { layout: LRef::Def { l: Box::new(l) }, ..Default::default() },
						..Default::default()
					}]);
					return rec;
				}
				l
			}
			_ => self.layout(3, sc, None).0,
		}
	}

	pub fn header(&mut self, l: &mut Layout, sc: Sc) -> Sc {
		let sc = self.scope(l, sc);
		if self.r.chance(if self.tags { 60 } else { 12 }) {
			let mut e = Vec::new();
			if self.r.chance(if self.tags { 85 } else { 15 }) {
				let v = match self.r.below(12) {
					0 if self.is_loose() => Pat::new("int", "-1", ""),
					1 if self.is_loose() => Pat::new("str", "7", ""),
					2 if self.is_loose() => Pat::new("lit", "x", format!("{XSD}unsignedLong")),
					3 if self.is_loose() => Pat::new("lit", "18446744073709551616", format!("{XSD}unsignedLong")),
					4 if self.is_loose() => Pat::new("bool", "true", ""),
					5 => Pat::new("lit", "18446744073709551615", format!("{XSD}unsignedLong")),
					6 => Pat::new("lit", "70000", format!("{XSD}unsignedInt")),
					7 => Pat::new("lit", "5", format!("{XSD}unsignedByte")),
					8 if self.is_loose() => Pat::new("lit", "5", format!("{XSD}integer")),
					_ => Pat::new("int", self.r.pick(&["0", "1", "42", "255", "256", "65536", "4294967296"]).to_string(), ""),
				};
				e.push(("https://schema.treeldr.org/cbor#tag".to_owned(), v));
			}
			for i in 0..self.r.below(3) {
				let k = self.iri(&format!("e{i}"), sc);
				// Which of two names of the same property wins is left open.
				let bare = |k: &str| k.is_empty() || k.ends_with([':', '/', '#']);
				if e.iter().any(|x| x.0 == k || bare(&x.0) && bare(&k)) {
					continue;
				}
				let v = match self.r.below(5) {
					0 => Pat::new("bool", self.r.pick(&["true", "false"]).to_string(), ""),
					1 => Pat::new(
						"int",
						self.r
							.pick(&[
								"0", "1", "255", "256", "65535", "65536", "4294967295", "4294967296", "-1", "-128", "-129", "-32768", "-32769",
								"-2147483648", "-2147483649", "9223372036854775807", "-9223372036854775808",
							])
							.to_string(),
						"",
					),
					2 => Pat::new("str", self.string(), ""),
					3 => Pat::new("lit", self.string(), self.iri("dt", sc)),
					_ => Pat::new("lit", "12", format!("{XSD}integer")),
				};
				e.push((k, v));
			}
			l.extra = Some(e);
		}
		sc
	}

	fn scope(&mut self, l: &mut Layout, sc: Sc) -> Sc {
		let mut inner = sc;
		if self.weird && self.r.chance(60) {
			if self.r.chance(60) {
				let exsub = if sc.pfx { "ex:sub/" } else { EX };
				let sub = if sc.base || self.r.chance(10) { "sub/" } else { EX };
				let b = *self.r.pick(&[EX, "https://ex.org/dir/", "https://o.org/x/y?z", sub, exsub, "https://ex.org/a/b/../c/"]);
				l.base = Some(b.into());
				inner.base = true;
			}
			if self.r.chance(60) {
				let n = self.r.range(1, 3);
				let names = ["ex", "b", "b2"];
				l.prefixes = Some(
					(0..n)
						.map(|i| {
							let exsub = if sc.pfx { "ex:sub/" } else { "https://h.org/" };
							let rel = if sc.base || self.r.chance(5) { "rel/" } else { "https://r.org/" };
							let v = *self.r.pick(&[EX, "https://ex.org/dir#", exsub, rel, "https://o.org/?q="]);
							(names[i].to_owned(), v.to_owned())
						})
						.collect(),
				);
				inner.pfx = true;
			}
			return inner;
		}
		if self.r.chance(25) {
			l.base = Some(EX.into());
			inner.base = true;
		}
		if self.r.chance(25) {
			l.prefixes = Some(vec![("ex".into(), EX.into())]);
			inner.pfx = true;
		}
		inner
	}

	/// A literal layout of the given shape.
	fn literal(&mut self, t: &str, sc: Sc) -> Layout {
		let wide = std::mem::take(&mut self.wide);
		let mut l = Layout { t: t.into(), ..Default::default() };
		let sc = self.header(&mut l, sc);
		if wide {
			let n = if t == "unit" { self.r.below(3) } else { 2 };
			let mut vars: Vec<String> = ["self", "b"][..n].iter().map(|s| s.to_string()).collect();
			self.r.shuffle(&mut vars);
			l.input = Some(vars);
			if n == 2 && self.r.chance(60) {
				let p = self.prop(sc);
				l.dataset = Some(vec![vec![Pat::var("self"), p, Pat::var("b")]]);
			}
		}
		match t {
			"boolean" => {
				if self.r.chance(30) {
					l.datatype = Some(format!("{XSD}boolean"));
				}
				if self.is_loose() && self.r.chance(15) {
					l.datatype = Some(self.iri("bool", sc));
				}
			}
			"number" => {
				l.datatype = Some(format!("{XSD}{}", self.r.pick(&["decimal", "integer", "int", "unsignedByte", "decimal"])));
				if self.r.chance(20) {
					l.datatype = Some(format!("{XSD}{}", self.r.pick(NUMBERS)));
				}
				if self.is_loose() && self.r.chance(20) {
					l.datatype = Some(format!("{XSD}{}", self.r.pick(&["double", "date", "float"])));
				}
			}
			"string" => {
				if self.r.chance(30) {
					l.datatype = Some(self.iri("txt", sc));
				} else if self.r.chance(15) {
					l.datatype = Some(format!("{XSD}{}", self.r.pick(TEXTS)));
				} else if self.is_loose() && self.r.chance(20) {
					l.datatype = Some(format!("{XSD}{}", self.r.pick(&["integer", "boolean", "decimal"])));
				}
			}
			"bytes" => {
				l.datatype = Some(format!("{XSD}{}", self.r.pick(&["hexBinary", "base64Binary", "hexBinary", "base64Binary"])));
				if self.is_loose() && self.r.chance(10) {
					l.datatype = Some(format!("{XSD}string"));
				}
			}
			"unit" => l.cst = Some(self.constant(2)),
			_ => {}
		}
		if wide {
			if t != "unit" && self.r.chance(70) {
				l.resource = Some(Pat::var("self"));
			}
			return l;
		}
		// The literal one hop away from the input.
		if t != "unit" && t != "id" && self.r.chance(15) {
			let p = self.prop(sc);
			l.intro = Some(vec!["x".into()]);
			l.dataset = Some(vec![vec![Pat::var("self"), p, Pat::var("x")]]);
			l.resource = Some(Pat::var("x"));
		} else if self.r.chance(10) && t != "unit" {
			l.resource = Some(Pat::var("self"));
		} else if self.r.chance(10) && t == "unit" {
			let c = self.class(sc);
			l.dataset = Some(vec![vec![Pat::var("self"), Pat::iri(format!("{RDF}type")), c]]);
		}
		if self.is_loose() && self.r.chance(10) && t != "unit" {
			l.resource = Some(self.any_pat(&["self".into()], sc));
		}
		l
	}

	pub fn constant(&mut self, d: usize) -> Val {
		match self.r.below(if d == 0 { 4 } else { 7 }) {
			0 | 4 => Val::unit(),
			1 => Val::sc("bool", if self.r.chance(50) { "true" } else { "false" }),
			2 => Val::sc("num", self.r.pick(&["0", "1", "-2", "3.5"]).to_string()),
			3 => Val::str(self.string()),
			5 => {
				let n = self.r.below(3);
				Val::list((0..n).map(|_| self.constant(d - 1)).collect())
			}
			_ => {
				let n = self.r.below(3);
				Val::map((0..n).map(|i| (format!("k{i}"), self.constant(d - 1))).collect())
			}
		}
	}

	pub fn string(&mut self) -> String {
		self.r.pick(&["", "a", "b", "hello world", "é\u{1F600}", "1", "true", "https://ex.org/x", "\"q\"\n", " two  spaces ", "\t", "EN-us", "2024-02-29"]).to_string()
	}

	pub fn number(&mut self, integer: bool) -> String {
		if integer {
			self.r.pick(&["0", "1", "7", "42", "255", "100"]).to_string()
		} else if self.r.chance(25) {
			// Any decimal, or a binary fraction.
			let sign = if self.r.chance(40) { "-" } else { "" };
			if self.r.chance(50) {
				let (a, b) = (self.r.below(24), self.r.range(1, 24));
				let mut d = |n: usize| (0..n).map(|_| char::from(b'0' + self.r.below(10) as u8)).collect::<String>();
				let (ip, fp) = (d(a), d(b));
				let n = format!("{sign}{}.{}", if ip.is_empty() { "0" } else { &ip }, fp);
				crate::proj::rational(&crate::proj::to_rational(&n))
			} else {
				let k = self.r.range(1, 90) as u32;
				let n = num_bigint::BigInt::from(self.r.range(1, 1000));
				let q = num_rational::BigRational::new(if sign.is_empty() { n } else { -n }, num_bigint::BigInt::from(2).pow(k));
				crate::proj::rational(&q)
			}
		} else {
			self.r
				.pick(&["0", "1", "-1", "0.5", "-1.5", "10", "0.1", "123456789012345678901234567890", "-0.001", "3.14"])
				.to_string()
		}
	}

	fn any_pat(&mut self, vars: &[String], sc: Sc) -> Pat {
		match self.r.below(10) {
			0..=5 if !vars.is_empty() => Pat::var(self.r.pick(vars).clone()),
			6 if self.r.chance(10) => Pat::var("nope"),
			7 => Pat::new("lit", self.string(), format!("{XSD}string")),
			8 if self.r.chance(50) => Pat::new("lang", self.string(), *self.r.pick(&["en", "fr"])),
			_ => {
				let s = format!("{}{}", self.r.pick(&["p", "a", "C", "g"]), self.r.below(3));
				Pat::iri(self.iri(&s, sc))
			}
		}
	}

	pub fn any_quad(&mut self, vars: &[String], sc: Sc) -> Vec<Pat> {
		let mut q = vec![self.any_pat(vars, sc), self.any_pat(vars, sc), self.any_pat(vars, sc)];
		if self.r.chance(70) {
			q[1] = self.prop(sc);
		}
		if self.graphs && self.r.chance(20) {
			q.push(if self.r.chance(60) { self.graph_iri(sc) } else { self.any_pat(vars, sc) });
		}
		q
	}

	/// A layout, and the shape of its values. `want`: the shape must be this.
	pub fn layout(&mut self, depth: usize, sc: Sc, want: Option<Shape>) -> (Layout, Shape) {
		let shape = want.unwrap_or_else(|| {
			if depth == 0 {
				*self.r.pick(&[Shape::Bool, Shape::Num, Shape::Str, Shape::Other])
			} else {
				*self.r.pick(&[
					Shape::Bool,
					Shape::Num,
					Shape::Str,
					Shape::Rec,
					Shape::Rec,
					Shape::Rec,
					Shape::Seq,
					Shape::Seq,
					Shape::Other,
					Shape::Other,
				])
			}
		});
		let l = match shape {
			Shape::Bool => self.literal("boolean", sc),
			Shape::Num => self.literal("number", sc),
			Shape::Str => self.literal("string", sc),
			Shape::Rec => self.record(depth, sc, true),
			Shape::Seq => match self.r.below(3) {
				0 => self.tuple(depth, sc),
				_ => self.list(depth, sc),
			},
			Shape::Other => {
				if depth == 0 {
					let t = *self.r.pick(&["id", "unit", "unit", "bytes"]);
					if self.is_loose() && self.r.chance(20) {
						let t = *self.r.pick(&["always", "never", "bytes"]);
						if t == "bytes" {
							return (self.literal(t, sc), shape);
						}
						return (Layout { t: t.into(), ..Default::default() }, shape);
					}
					if self.weird && self.is_loose() && self.r.chance(20) {
						let mut l = Layout { t: self.r.pick(&["union", "intersection"]).to_string(), ..Default::default() };
						self.header(&mut l, sc);
						return (l, shape);
					}
					self.literal(t, sc)
				} else {
					match self.r.below(5) {
						0 => self.record(depth, sc, false),
						1 | 2 => self.sum(depth, sc),
						3 => self.set(depth, sc),
						_ => {
							let t = *self.r.pick(&["id", "unit", "bytes"]);
							self.literal(t, sc)
						}
					}
				}
			}
		};
		let mut l = l;
		if depth < 3 && self.r.chance(6) {
			let k = self.fresh();
			l.id = Some(self.iri(&format!("N{k}"), sc));
		}
		(l, shape)
	}

	/// A reference to a layout with one input, whose values have that shape.
	fn lref(&mut self, depth: usize, sc: Sc, want: Option<Shape>, wide: bool) -> (LRef, Shape, Vec<String>) {
		let loose = self.is_loose();
		let c: Vec<_> = self
			.named
			.iter()
			.filter(|(_, s, n)| want.map_or(true, |w| w == *s) && (wide || loose || n.len() == 1))
			.cloned()
			.collect();
		if !c.is_empty() && self.r.chance(25) {
			let (id, s, n) = self.r.pick(&c).clone();
			let v = match id.strip_prefix(EX) {
				Some(x) => self.iri(&x.to_owned(), sc),
				None => id,
			};
			return (LRef::Ref { v }, s, n);
		}
		if self.r.chance(7) {
			let c: Vec<_> = PRELUDE.iter().filter(|(_, _, _, s)| want.map_or(true, |w| w == *s)).collect();
			if !c.is_empty() {
				let (id, _, _, s) = **self.r.pick(&c);
				return (LRef::Ref { v: format!("{TLDR}{id}") }, s, vec!["self".into()]);
			}
		}
		self.wide = wide && self.r.chance(20);
		let (l, s) = self.layout(depth.saturating_sub(1), sc, want);
		self.wide = false;
		let n = input_names(&l);
		(LRef::Def { l: Box::new(l) }, s, n)
	}

	/// Inputs, intros and discriminant of a compound layout; returns the
	/// variables in scope and the main subject.
	fn compound(&mut self, t: &str, sc: Sc) -> (Layout, Sc, Vec<String>, String) {
		let wide = std::mem::take(&mut self.wide);
		let mut l = Layout { t: t.into(), ..Default::default() };
		let sc = self.header(&mut l, sc);
		let mut vars = vec!["self".to_owned()];
		let mut subject = "self".to_owned();
		let mut ds = Vec::new();
		if wide {
			let n = self.r.range(2, 3);
			vars = ["self", "b", "c"][..n].iter().map(|s| s.to_string()).collect();
			self.r.shuffle(&mut vars);
			l.input = Some(vars.clone());
			if self.r.chance(60) {
				let p = self.prop(sc);
				let (a, b) = (self.r.pick(&vars).clone(), self.r.pick(&vars).clone());
				ds.push(vec![Pat::var(a), p, Pat::var(b)]);
			}
			if self.r.chance(25) && t != "list" {
				subject = self.r.pick(&vars).clone();
			}
		} else if self.is_loose() && self.r.chance(15) {
			let n = self.r.below(4);
			vars = ["self", "b", "c"][..n.min(3)].iter().map(|s| s.to_string()).collect();
			if self.r.chance(50) {
				self.r.shuffle(&mut vars);
			}
			l.input = Some(vars.clone());
			if !vars.is_empty() {
				subject = self.r.pick(&vars).clone();
			}
		} else if self.r.chance(15) {
			l.input = Some(vars.clone());
		}
		if self.r.chance(25) && !vars.is_empty() {
			let c = self.class(sc);
			ds.push(vec![Pat::var(subject.clone()), Pat::iri(format!("{RDF}type")), c]);
		}
		if self.r.chance(25) && !vars.is_empty() {
			// Hops: the components may hang on an intermediate resource.
			let hubs = *self.r.pick(&[1, 1, 2, 3]);
			let mut names: Vec<String> = ["hub", "hib", "hob"][..hubs].iter().map(|s| s.to_string()).collect();
			let (mut from, star) = (subject.clone(), self.r.chance(50));
			for h in &names {
				let p = self.prop(sc);
				ds.push(vec![Pat::var(from.clone()), p, Pat::var(h.clone())]);
				if !star {
					from = h.clone();
				}
			}
			if self.r.chance(50) || t == "list" {
				subject = self.r.pick(&names).clone();
			}
			self.r.shuffle(&mut names);
			vars.extend(names.clone());
			l.intro = Some(names);
		}
		if self.r.chance(8) && !vars.is_empty() {
			// A variable predicate, told apart by its objects.
			let n = self.r.range(1, 2);
			for _ in 0..n {
				let c = self.class(sc);
				let s = if self.r.chance(60) { subject.clone() } else { self.r.pick(&vars).clone() };
				ds.push(vec![Pat::var(s), Pat::var("pv"), c]);
			}
			l.intro.get_or_insert_with(Vec::new).push("pv".into());
			vars.push("pv".into());
		}
		if self.is_loose() && self.r.chance(20) {
			let q = self.any_quad(&vars, sc);
			ds.push(q);
		}
		if self.r.chance(30) {
			self.r.shuffle(&mut ds);
		}
		if !ds.is_empty() || self.r.chance(5) {
			l.dataset = Some(ds);
		}
		(l, sc, vars, subject)
	}

	/// The inputs to give a layout: `value` as "self", and others.
	fn inputs(&mut self, names: &[String], value: &str, vars: &[String], sc: Sc) -> Vec<Pat> {
		names
			.iter()
			.map(|n| {
				if n == "self" {
					Pat::var(value)
				} else if self.r.chance(25) || vars.is_empty() {
					let s = format!("k{}", self.r.below(2));
					Pat::iri(self.iri(&s, sc))
				} else if self.r.chance(15) {
					Pat::var(value)
				} else {
					Pat::var(self.r.pick(vars).clone())
				}
			})
			.collect()
	}

	/// A component linked to `subject`.
	fn comp(&mut self, depth: usize, sc: Sc, vars: &[String], subject: &str, want: Option<Shape>) -> Comp {
		let (layout, shape, names) = self.lref(depth, sc, want, true);
		let mut c = Comp { value: Fmt { layout, ..Default::default() }, ..Default::default() };
		let p = self.prop(sc);
		let s = Pat::var(subject);
		let v = Pat::var("value");
		let first_input = vars.first().map(|v| v.as_str()) == Some(subject);
		let graphs = self.graphs && (self.focus != "graph" || self.r.chance(60));
		let pick = if graphs && self.focus == "graph" { 6 + self.r.below(3) } else { self.r.below(14) };
		match pick {
			0..=3 if first_input => {
				c.property = Some(p);
				if self.r.chance(20) {
					// More resources, after the object of the property.
					let q = self.prop(sc);
					c.intro = Some(vec!["value".into(), "more".into()]);
					c.dataset = Some(vec![vec![v, q, Pat::var("more")]]);
				} else if self.r.chance(15) {
					let q = self.prop(sc);
					c.intro = Some(vec!["mid".into(), "value".into()]);
					c.dataset = Some(vec![vec![Pat::var("mid"), q, v]]);
				}
			}
			4 | 12 => {
				// Two hops.
				let q = self.prop(sc);
				let mut intro = vec!["value".to_owned(), "mid".to_owned()];
				if self.r.chance(50) {
					intro.reverse();
				}
				c.intro = Some(intro);
				c.dataset = Some(vec![vec![s, p, Pat::var("mid")], vec![Pat::var("mid"), q, v]]);
			}
			5 if shape == Shape::Rec => c.dataset = Some(vec![vec![v, p, s]]),
			6 if graphs => {
				let g = self.graph_iri(sc);
				c.dataset = Some(vec![vec![s, p, v, g]]);
			}
			7 if graphs => {
				let g = self.graph_iri(sc);
				c.dataset = Some(vec![vec![s, p, v]]);
				c.value.graph = Some(if self.r.chance(35) { Pat::none() } else { g });
			}
			8 if graphs => {
				// The sub value in a graph of its own.
				let q = self.prop(sc);
				let r = self.prop(sc);
				let mid = Pat::var("mid");
				c.intro = Some(vec!["value".into(), "mid".into(), "g".into()]);
				if self.r.chance(30) {
					// The graph variable is bound by the graph it is in.
					c.dataset = Some(vec![vec![s, p, mid.clone()], vec![mid, q, v, Pat::var("g")]]);
				} else {
					c.dataset =
						Some(vec![vec![s, p, mid.clone()], vec![mid.clone(), q, v], vec![mid, r, Pat::var("g")]]);
				}
				if self.r.chance(80) {
					c.value.graph = Some(Pat::var("g"));
				}
			}
			9 => {
				c.intro = Some(vec!["w".into()]);
				c.dataset = Some(vec![vec![s, p, Pat::var("w")]]);
				c.value.input = Some(vec![Pat::var("w")]);
			}
			10 if self.r.chance(50) => {
				// A variable predicate.
				let k = self.class(sc);
				c.intro = Some(vec!["pr".into(), "value".into()]);
				c.dataset = Some(vec![vec![s.clone(), Pat::var("pr"), v], vec![Pat::var("pr"), p, k]]);
			}
			_ => {
				c.dataset = Some(vec![vec![s, p, v.clone()]]);
				if self.r.chance(30) {
					c.value.input = Some(vec![v]);
				}
			}
		}
		if names.len() != 1 || names[0] != "self" {
			let value = if pick == 9 { "w" } else { "value" };
			let mut vs = vars.to_vec();
			if pick != 9 && c.intro.as_ref().map_or(false, |i| i.len() > 1) {
				vs.extend(c.intro.clone().unwrap());
			}
			c.value.input = Some(self.inputs(&names, value, &vs, sc));
		}
		if self.is_loose() {
			let mut vs = vars.to_vec();
			vs.extend(c.intro.clone().unwrap_or_else(|| vec!["value".into()]));
			match self.r.below(9) {
				0 => {
					let q = self.any_quad(&vs, sc);
					c.dataset.get_or_insert_with(Vec::new).push(q);
				}
				1 => c.value.input = Some(vec![self.any_pat(&vs, sc)]),
				2 => c.value.input = Some(vec![Pat::var("value"), Pat::var(subject)]),
				3 if self.graphs => c.value.graph = Some(self.any_pat(&vs, sc)),
				4 if self.r.chance(30) => c.value.input = Some(vec![]),
				5 => c.dataset = Some(vec![]),
				6 => {
					// Shadowing.
					c.intro = Some(vec!["value".into(), "self".into()]);
				}
				_ => {}
			}
		}
		c
	}

	fn record(&mut self, depth: usize, sc: Sc, distinct: bool) -> Layout {
		let (mut l, sc, vars, subject) = self.compound("record", sc);
		let mut fields = Vec::new();
		let big = std::mem::take(&mut self.big);
		let (n, depth) = match big {
			true => (self.r.range(6, 18), 0),
			false => (self.r.below(4) + usize::from(distinct), depth),
		};
		for i in 0..n {
			let mut c = self.comp(depth, sc, &vars, &subject, None);
			let name = if big { format!("k{i}") } else if i == 0 && distinct { format!("f{}", self.fresh()) } else { ["x", "y", "z", "名 x"][i.min(3)].to_owned() };
			c.name = Some(name);
			if (i == 0 && distinct) || self.r.chance(20) {
				c.required = Some(true);
			} else if self.r.chance(10) {
				c.required = Some(false);
			}
			fields.push(c);
		}
		if self.r.chance(30) && vars.first().map(String::as_str) == Some("self") {
			let mut idl = self.literal("id", sc);
			if !self.is_loose() {
				idl.resource = None;
			}
			fields.push(Comp {
				name: Some("id".into()),
				intro: Some(vec![]),
				required: Some(true),
				value: Fmt { layout: LRef::Def { l: Box::new(idl) }, input: Some(vec![Pat::var("self")]), graph: None },
				..Default::default()
			});
		}
		if !fields.is_empty() || self.r.chance(50) {
			l.fields = Some(fields);
		}
		l
	}

	fn sum(&mut self, depth: usize, sc: Sc) -> Layout {
		let (mut l, sc, vars, subject) = self.compound("sum", sc);
		if std::mem::take(&mut self.big) || self.r.chance(4) {
			// An enumeration: each variant is a constant.
			let n = self.r.range(2, 14);
			let mut names: Vec<_> = (0..n).map(|i| format!("v{i}")).collect();
			names.sort();
			let p = self.prop(sc);
			let vs = names.into_iter().map(|name| {
				let class = self.iri(&format!("C{name}"), sc);
				let unit = Layout { t: "unit".into(), cst: Some(Val::str(name.clone())), ..Default::default() };
				Comp {
					dataset: Some(vec![vec![Pat::var(subject.clone()), p.clone(), Pat::iri(class)]]),
					intro: Some(vec![]),
					value: Fmt { layout: LRef::Def { l: Box::new(unit) }, input: Some(vec![Pat::var(subject.clone())]), graph: None },
					name: Some(name),
					..Default::default()
				}
			});
			l.variants = Some(vs.collect());
			return l;
		}
		let mut shapes = vec![Shape::Bool, Shape::Num, Shape::Str, Shape::Rec, Shape::Seq];
		self.r.shuffle(&mut shapes);
		let mut n = self.r.range(1, 3);
		if self.is_loose() && self.r.chance(10) {
			n = 0;
		}
		let tagged = self.r.chance(50);
		let mut vs = Vec::new();
		for (i, s) in shapes.iter().take(n).enumerate() {
			let want = if self.is_loose() { None } else { Some(*s) };
			let mut c = match self.r.below(3) {
				0 => {
					// On the same resource.
					let (layout, _, names) = self.lref(depth, sc, want, true);
					let mut c = Comp { value: Fmt { layout, ..Default::default() }, ..Default::default() };
					if names.len() != 1 || vars.first().map(String::as_str) != Some("self") || subject != "self" {
						c.value.input = Some(self.inputs(&names, &subject, &vars, sc));
					}
					if self.graphs && self.r.chance(20) {
						c.value.graph = Some(if self.r.chance(30) { Pat::none() } else { self.graph_iri(sc) });
					}
					if tagged {
						let t = self.class(sc);
						c.dataset = Some(vec![vec![Pat::var(subject.clone()), Pat::iri(format!("{RDF}type")), t]]);
					}
					c
				}
				_ => {
					let mut c = self.comp(depth, sc, &vars, &subject, want);
					if let Some(p) = c.property.take() {
						c.dataset = Some(vec![vec![Pat::var(subject.clone()), p, Pat::var("value")]]);
					}
					if c.intro.is_none() {
						c.intro = Some(vec!["value".into()]);
					}
					if c.value.input.is_none() {
						c.value.input = Some(vec![Pat::var("value")]);
					}
					c
				}
			};
			c.name = Some(format!("v{i}"));
			c.required = None;
			vs.push(c);
		}
		l.variants = Some(vs);
		l
	}

	fn set(&mut self, depth: usize, sc: Sc) -> Layout {
		let (mut l, sc, vars, subject) = self.compound("set", sc);
		let mut c = self.comp(depth, sc, &vars, &subject, None);
		c.required = None;
		l.item = Some(Box::new(c));
		l
	}

	fn tuple(&mut self, depth: usize, sc: Sc) -> Layout {
		let (mut l, sc, vars, subject) = self.compound("tuple", sc);
		let (n, depth) = match std::mem::take(&mut self.big) {
			true => (self.r.range(6, 14), 0),
			false => (self.r.range(1, 3), depth),
		};
		let mut items = Vec::new();
		for _ in 0..n {
			let mut c = self.comp(depth, sc, &vars, &subject, None);
			c.required = None;
			items.push(c);
		}
		if self.is_loose() && self.r.chance(10) {
			items.clear();
		}
		l.items = Some(items);
		l
	}

	fn list(&mut self, depth: usize, sc: Sc) -> Layout {
		let (mut l, sc, vars, subject) = self.compound("list", sc);
		let (layout, _, _) = self.lref(depth, sc, None, false);
		let is_bool = matches!(&layout, LRef::Def { l } if l.t == "always" || l.t == "never");
		let mut c = Comp { value: Fmt { layout, ..Default::default() }, ..Default::default() };
		match self.r.below(4) {
			0 | 1 if !is_bool => c.bare = Some(true),
			2 => {
				// The quads are the usual ones, whatever the rest says.
				if self.graphs && self.r.chance(40) {
					c.value.graph = Some(if self.r.chance(30) { Pat::none() } else { self.graph_iri(sc) });
				}
				match self.r.below(6) {
					0 => {
						c.intro = Some(vec!["x".into()]);
						c.value.input = Some(vec![Pat::var("x")]);
					}
					1 => c.intro = Some(vec!["note".into(), "value".into()]),
					2 => c.value.input = Some(vec![Pat::var("value")]),
					_ => {}
				}
			}
			_ => {
				let (first, rest) = (self.prop(sc), self.prop(sc));
				let h = if self.r.chance(50) { "head" } else { "cur" };
				let t = if self.r.chance(50) { "rest" } else { "nxt" };
				if h != "head" {
					c.head = Some(h.into());
				}
				if t != "rest" {
					c.rest = Some(t.into());
				}
				let mut ds = vec![
					vec![Pat::var(h), first, Pat::var("value")],
					vec![Pat::var(h), rest, Pat::var(t)],
				];
				if self.graphs && self.r.chance(30) {
					let g = self.graph_iri(sc);
					for q in &mut ds {
						q.push(g.clone());
					}
				}
				if self.r.chance(20) {
					c.intro = Some(vec!["value".into()]);
				} else if self.r.chance(20) {
					let q = self.prop(sc);
					ds.push(vec![Pat::var(h), q, Pat::var("note")]);
					let mut i = vec!["value".to_owned(), "note".to_owned()];
					if self.r.chance(50) {
						i.reverse();
					}
					c.intro = Some(i);
				}
				if self.is_loose() && self.r.chance(40) {
					let mut vs = vars.clone();
					vs.extend([h.to_owned(), t.to_owned(), "value".into()]);
					let q = self.any_quad(&vs, sc);
					if self.r.chance(50) {
						ds.pop();
					}
					ds.push(q);
				}
				c.dataset = Some(ds);
				if self.r.chance(50) {
					l.tail = Some(Pat::iri(self.iri("end", sc)));
				}
				if self.graphs && self.r.chance(20) {
					c.value.graph = Some(if self.r.chance(30) { Pat::none() } else { self.graph_iri(sc) });
				}
			}
		}
		l.node = Some(Box::new(c));
		if subject != "self" || vars.first().map(String::as_str) != Some("self") {
			l.head = Some(Pat::var(subject));
		} else if self.r.chance(15) {
			l.head = Some(Pat::var("self"));
		}
		if self.is_loose() {
			match self.r.below(6) {
				0 => l.head = Some(self.any_pat(&vars, sc)),
				1 => l.tail = Some(self.any_pat(&vars, sc)),
				_ => {}
			}
		}
		l
	}

	/* Values */

	/// How many items a list or set has.
	fn len(&mut self, depth: usize) -> usize {
		match depth {
			0 => 0,
			_ if std::mem::take(&mut self.long) => self.r.range(12, 45),
			_ if self.r.chance(8) => self.r.below(8),
			_ => self.r.below(4),
		}
	}

	/// A value of the layout.
	/// A value of the first layout, not too large to be decided quickly.
	pub fn root_value(&mut self, reg: &[Layout]) -> Val {
		for depth in [4, 4, 3, 2] {
			let v = self.value(reg, &reg[0], depth);
			if v.size() <= 160 {
				return v;
			}
		}
		self.value(reg, &reg[0], 1)
	}

	pub fn value(&mut self, reg: &[Layout], l: &Layout, depth: usize) -> Val {
		if self.loose > 0 && self.r.chance(4) {
			return self.junk(1);
		}
		match l.t.as_str() {
			"boolean" => Val::sc("bool", if self.r.chance(50) { "true" } else { "false" }),
			"number" => {
				let d = l.datatype.as_deref().unwrap_or("");
				let int = !d.ends_with("decimal") && !(self.loose > 0 && self.r.chance(20));
				let v = self.number(int);
				Val::sc("num", v)
			}
			"string" => Val::str(self.string()),
			"bytes" if self.r.chance(40) => {
				let n = self.r.below(12);
				let s: String = (0..n).map(|_| format!("{:02x}", self.r.below(256))).collect();
				Val::sc("bytes", s)
			}
			"bytes" => Val::sc("bytes", *self.r.pick(&["", "00", "00ff", "0102fe", "deadbeef", "ffffffffffff", "3ef7be"])),
			"id" => {
				self.ids += 1;
				if self.loose > 0 && self.r.chance(20) {
					let s = self.string();
					return Val::str(s);
				}
				let k = if self.loose > 0 && self.r.chance(30) { self.r.below(3) } else { 100 + self.ids };
				Val::str(format!("{EX}a{k}"))
			}
			"unit" => l.cst.clone().unwrap_or_else(Val::unit),
			"record" => {
				let mut kv = Vec::new();
				for c in l.fields.iter().flatten() {
					let req = c.required.unwrap_or(false);
					let present = if self.deep > 1 && c.name.as_deref() == Some("next") {
						true
					} else if req { !(self.loose > 0 && self.r.chance(5)) } else { depth > 0 && self.r.chance(70) };
					if present {
						kv.push((c.name.clone().unwrap(), self.fmt_value(reg, &c.value, depth)));
					}
				}
				if self.loose > 0 && self.r.chance(5) {
					kv.push(("extra".into(), Val::unit()));
				}
				Val::map(kv)
			}
			"sum" => match l.variants.as_deref() {
				Some(vs) if !vs.is_empty() => {
					let c = self.r.pick(vs).clone();
					self.fmt_value(reg, &c.value, depth)
				}
				_ => Val::unit(),
			},
			"set" => {
				let c = l.item.as_ref().unwrap();
				let n = self.len(depth);
				Val::list((0..n).map(|_| self.fmt_value(reg, &c.value, depth)).collect())
			}
			"list" => {
				let c = l.node.as_ref().unwrap();
				let n = self.len(depth);
				Val::list((0..n).map(|_| self.fmt_value(reg, &c.value, depth)).collect())
			}
			"tuple" => {
				let mut vs: Vec<Val> =
					l.items.iter().flatten().map(|c| self.fmt_value(reg, &c.value, depth)).collect();
				if self.loose > 0 && self.r.chance(10) {
					if self.r.chance(50) {
						vs.pop();
					} else {
						vs.push(Val::unit());
					}
				}
				Val::list(vs)
			}
			_ => self.junk(1),
		}
	}

	fn fmt_value(&mut self, reg: &[Layout], f: &Fmt, depth: usize) -> Val {
		match &f.layout {
			LRef::Def { l } => self.value(reg, l, depth.saturating_sub(1)),
			LRef::Ref { v } => {
				if let Some(id) = v.strip_prefix(TLDR) {
					let l = prelude(id);
					return self.value(reg, &l, depth.saturating_sub(1));
				}
				let name = v.trim_start_matches(EX).trim_start_matches("ex:");
				match reg.iter().find(|l| l.id.as_deref() == Some(&format!("{EX}{name}"))) {
					Some(l) if self.deep > 0 => {
						self.deep -= 1;
						self.value(reg, l, 2)
					}
					// Recursive sums.
					Some(_) if depth == 0 && self.r.chance(50) => self.junk(1),
					Some(l) => self.value(reg, l, depth.saturating_sub(1)),
					None => Val::unit(),
				}
			}
		}
	}

	/// Any value.
	pub fn junk(&mut self, d: usize) -> Val {
		match self.r.below(if d == 0 { 6 } else { 8 }) {
			0 => Val::unit(),
			1 => Val::sc("bool", "true"),
			2 => Val::sc("num", self.r.pick(&["1", "0.5", "1/3", "-2/7"]).to_string()),
			3 | 4 => {
				let s = self.string();
				Val::str(s)
			}
			5 => Val::sc("bytes", "0a"),
			6 => {
				let n = self.r.below(3);
				Val::list((0..n).map(|_| self.junk(d - 1)).collect())
			}
			_ => {
				let n = self.r.below(3);
				Val::map((0..n).map(|i| (["x", "y", "id"][i].to_owned(), self.junk(d - 1))).collect())
			}
		}
	}

	/* Datasets */

	pub fn any_term(&mut self) -> Pat {
		match self.r.below(11) {
			0..=3 => Pat::iri(format!("{EX}{}{}", self.r.pick(&["a", "p", "C", "g"]), self.r.below(3))),
			4 | 5 => Pat::new("blank", format!("_:{}", self.r.pick(&["x", "y", "0", "input0"])), ""),
			6 => Pat::new("lit", self.string(), format!("{XSD}string")),
			7 => Pat::new(
				"lit",
				*self.r.pick(&["1", "01", "-1.50", "+7", ".5", "5.", "abc", "", "1e3", " 1"]),
				format!("{XSD}{}", self.r.pick(&["decimal", "integer", "int", "double"])),
			),
			8 if self.r.chance(30) => Pat::new(
				"lit",
				*self.r.pick(&["", "00ff", "00FF", "0", "xy", "AP8="]),
				format!("{XSD}{}", self.r.pick(&["hexBinary", "base64Binary"])),
			),
			8 => Pat::new("lit", *self.r.pick(&["true", "false", "1", "0", "TRUE", "yes"]), format!("{XSD}boolean")),
			9 => Pat::new("lang", self.string(), *self.r.pick(&["en", "fr"])),
			_ => Pat::iri(format!("{RDF}nil")),
		}
	}

	fn any_graph(&mut self) -> Pat {
		if self.graphs && self.r.chance(40) {
			Pat::iri(format!("{EX}g{}", self.r.below(2)))
		} else {
			Pat::none()
		}
	}

	pub fn any_dataset(&mut self, n: usize) -> Vec<Quad> {
		let mut d = Vec::new();
		for _ in 0..n {
			let q = [
				self.any_term(),
				Pat::iri(if self.r.chance(20) {
					format!("{RDF}{}", self.r.pick(&["type", "first", "rest"]))
				} else {
					format!("{EX}p{}", self.r.below(3))
				}),
				self.any_term(),
				self.any_graph(),
			];
			if !d.contains(&q) {
				d.push(q);
			}
		}
		d
	}

	/// A few local edits.
	pub fn mutate(&mut self, d: &mut Vec<Quad>) {
		let n = if self.r.chance(60) { 1 } else { self.r.range(2, 3) };
		for _ in 0..n {
			if d.is_empty() {
				d.extend(self.any_dataset(2));
				continue;
			}
			let terms: Vec<Pat> = d.iter().flat_map(|q| q[..3].to_vec()).collect();
			let i = self.r.below(d.len());
			match self.r.below(13) {
				11 | 12 if d[i][2].k == "lit" => {
					// The same literal, more or less.
					let o = &mut d[i][2];
					match self.r.below(9) {
						0 => o.v = format!("0{}", o.v),
						1 => o.v = format!("+{}", o.v),
						2 => o.v = format!("-{}", o.v),
						3 => o.v = if o.v.contains('.') { format!("{}0", o.v) } else { format!("{}.0", o.v) },
						4 => o.v = o.v.to_uppercase(),
						5 => o.v.push(*self.r.pick(&[' ', '=', 'x', '.', '0'])),
						6 => o.t = format!("{XSD}{}", self.r.pick(&["string", "decimal", "integer", "boolean", "hexBinary", "base64Binary", "long"])),
						7 => *o = Pat::new("lang", o.v.clone(), "en"),
						_ => {
							o.v.pop();
						}
					}
				}
				0 => {
					d.remove(i);
				}
				2 => {
					// The same statement about something else.
					let mut q = d[i].clone();
					q[2] = self.any_term();
					d.push(q);
				}
				3 => {
					let mut q = d[i].clone();
					let k = *self.r.pick(&[0, 2]);
					q[k] = self.r.pick(&terms).clone();
					d.push(q);
				}
				4 => d[i][2] = self.any_term(),
				5 => {
					let g = self.any_graph();
					d[i][3] = g;
				}
				6 => {
					let g = self.any_graph();
					let mut q = d[i].clone();
					q[3] = g;
					d.push(q);
				}
				8 => {
					// Another predicate, or the same one on another subject.
					let p = self.r.pick(d)[1].clone();
					let mut q = d[i].clone();
					q[1] = p;
					if self.r.chance(50) {
						d[i] = q;
					} else {
						d.push(q);
					}
				}
				9 => {
					// Move a graph.
					let g = d[i][3].clone();
					let h = if self.r.chance(50) { self.r.pick(d)[3].clone() } else { self.any_graph() };
					for q in d.iter_mut() {
						if q[3] == g {
							q[3] = h.clone();
						}
					}
				}
				7 => {
					// Merge two terms.
					let (a, b) = (self.r.pick(&terms).clone(), self.r.pick(&terms).clone());
					for q in d.iter_mut() {
						for t in q[..3].iter_mut() {
							if *t == a {
								*t = b.clone();
							}
						}
					}
				}
				_ => {
					let n = self.r.range(1, 3);
					d.extend(self.any_dataset(n));
				}
			}
		}
		d.sort();
		d.dedup();
		let r = &mut self.r;
		r.shuffle(d);
	}
}

pub fn input_names(l: &Layout) -> Vec<String> {
	l.input.clone().unwrap_or_else(|| vec!["self".into()])
}
