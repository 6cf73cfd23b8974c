//! The abstract syntax shared with the specification (`Syntax.tla`), and its
//! two concrete JSON notations.
use serde::{Deserialize, Serialize};
use serde_json::{json, Map, Value as J};

macro_rules! node {
	($(#[$m:meta])* $name:ident { $($f:ident : $t:ty),* ; $($of:ident : $ot:ty),* }) => {
		#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Default)]
		pub struct $name {
			$(pub $f: $t,)*
			$(#[serde(default, skip_serializing_if = "Option::is_none")] pub $of: Option<$ot>,)*
		}
	};
}

node!(Layout { t: String ;
	base: String, prefixes: Vec<(String, String)>, id: String,
	input: Vec<String>, intro: Vec<String>, dataset: Vec<Vec<Pat>>,
	fields: Vec<Comp>, variants: Vec<Comp>, item: Box<Comp>, items: Vec<Comp>, node: Box<Comp>,
	head: Pat, tail: Pat, datatype: String, resource: Pat, cst: Val, pattern: String, extra: Vec<(String, Pat)>
});

node!(Comp { value: Fmt ;
	name: String, intro: Vec<String>, dataset: Vec<Vec<Pat>>, property: Pat, required: bool,
	head: String, rest: String, bare: bool
});

node!(Fmt { layout: LRef ; input: Vec<Pat>, graph: Pat });

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
#[serde(tag = "k", rename_all = "lowercase")]
pub enum LRef {
	Ref { v: String },
	Def { l: Box<Layout> },
}

impl Default for LRef {
	fn default() -> Self {
		Self::Ref { v: String::new() }
	}
}

/// A pattern ("var", "iri", "lit", "lang") or a term ("iri", "blank", "lit",
/// "lang", "none").
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize, Default)]
pub struct Pat {
	pub k: String,
	pub v: String,
	pub t: String,
}

impl Pat {
	pub fn new(k: &str, v: impl Into<String>, t: impl Into<String>) -> Self {
		Self { k: k.into(), v: v.into(), t: t.into() }
	}
	pub fn var(v: impl Into<String>) -> Self {
		Self::new("var", v, "")
	}
	pub fn iri(v: impl Into<String>) -> Self {
		Self::new("iri", v, "")
	}
	pub fn none() -> Self {
		Self::new("none", "", "")
	}
}

/// A tree value: k in unit, bool, num, bytes, str, list, map (c: keys and
/// values, alternating).
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize, Default)]
pub struct Val {
	pub k: String,
	pub s: String,
	pub c: Vec<Val>,
}

impl Val {
	/// How many values there are in this one.
	pub fn size(&self) -> usize {
		1 + self.c.iter().map(Val::size).sum::<usize>()
	}
	pub fn unit() -> Self {
		Self { k: "unit".into(), ..Default::default() }
	}
	pub fn sc(k: &str, s: impl Into<String>) -> Self {
		Self { k: k.into(), s: s.into(), c: vec![] }
	}
	pub fn str(s: impl Into<String>) -> Self {
		Self::sc("str", s)
	}
	pub fn list(c: Vec<Val>) -> Self {
		Self { k: "list".into(), s: String::new(), c }
	}
	pub fn map(kv: Vec<(String, Val)>) -> Self {
		let mut m = Self { k: "map".into(), ..Default::default() };
		for (k, v) in kv {
			m.c.push(Val::str(k));
			m.c.push(v);
		}
		m
	}
}

pub type Term = Pat;
pub type Quad = [Term; 4];

/// How the optional notations are written out.
#[derive(Clone, Copy, Default)]
pub struct Style {
	/// Write a list of one variable as a bare string.
	pub one: bool,
	/// Write the default values explicitly.
	pub explicit: bool,
	/// Write `{ "layout": L }` for a value that is just L.
	pub wrap: bool,
}

fn names(v: &[String], st: Style) -> J {
	if v.len() == 1 && st.one {
		json!(v[0])
	} else {
		json!(v)
	}
}

pub fn pat_json(p: &Pat) -> J {
	match p.k.as_str() {
		"var" => json!(format!("_:{}", p.v)),
		"iri" => json!(p.v),
		"lit" => json!({ "value": p.v, "type": p.t }),
		"lang" => json!({ "value": p.v, "language": p.t }),
		k => panic!("not a pattern: {k}"),
	}
}

fn pats(v: &[Pat], st: Style) -> J {
	if v.len() == 1 && st.one {
		pat_json(&v[0])
	} else {
		J::Array(v.iter().map(pat_json).collect())
	}
}

fn quads(v: &[Vec<Pat>]) -> J {
	J::Array(v.iter().map(|q| J::Array(q.iter().map(pat_json).collect())).collect())
}

fn ref_json(r: &LRef, st: Style) -> J {
	match r {
		LRef::Ref { v } => json!(v),
		LRef::Def { l } => layout_json(l, st),
	}
}

fn fmt_json(f: &Fmt, st: Style, dflt: &str) -> J {
	let is_bool = matches!(&f.layout, LRef::Def { l } if l.t == "always" || l.t == "never");
	if f.input.is_none() && f.graph.is_none() && !st.wrap && !st.explicit && !is_bool {
		return ref_json(&f.layout, st);
	}
	let mut o = Map::new();
	o.insert("layout".into(), ref_json(&f.layout, st));
	match &f.input {
		Some(i) => {
			o.insert("input".into(), pats(i, st));
		}
		None if st.explicit => {
			o.insert("input".into(), pats(&[Pat::var(dflt)], st));
		}
		None => {}
	}
	if let Some(g) = &f.graph {
		o.insert("graph".into(), if g.k == "none" { J::Null } else { pat_json(g) });
	}
	J::Object(o)
}

fn comp_json(c: &Comp, st: Style, dflt: &str, has_intro_default: bool) -> J {
	let mut o = Map::new();
	match &c.intro {
		Some(i) => {
			o.insert("intro".into(), names(i, st));
		}
		None if st.explicit => {
			o.insert("intro".into(), if has_intro_default { names(&["value".into()], st) } else { json!([]) });
		}
		None => {}
	}
	if let Some(h) = &c.head {
		o.insert("head".into(), json!(h));
	}
	if let Some(h) = &c.rest {
		o.insert("rest".into(), json!(h));
	}
	o.insert("value".into(), fmt_json(&c.value, st, dflt));
	if let Some(d) = &c.dataset {
		o.insert("dataset".into(), quads(d));
	}
	if let Some(p) = &c.property {
		o.insert("property".into(), pat_json(p));
	}
	match c.required {
		Some(r) => {
			o.insert("required".into(), json!(r));
		}
		None => {}
	}
	J::Object(o)
}

pub fn val_json(v: &Val) -> J {
	match v.k.as_str() {
		"unit" => J::Null,
		"bool" => json!(v.s == "true"),
		"num" => serde_json::from_str(&v.s).unwrap(),
		"str" => json!(v.s),
		"list" => J::Array(v.c.iter().map(val_json).collect()),
		"map" => {
			let mut o = Map::new();
			for kv in v.c.chunks(2) {
				o.insert(kv[0].s.clone(), val_json(&kv[1]));
			}
			J::Object(o)
		}
		k => panic!("no JSON for {k}"),
	}
}

fn ext_json(p: &Pat) -> J {
	match p.k.as_str() {
		"bool" => json!(p.v == "true"),
		"int" => json!(p.v.parse::<i64>().unwrap()),
		"str" => json!(p.v),
		_ => json!({ "value": p.v, "type": p.t }),
	}
}

pub fn layout_json(l: &Layout, st: Style) -> J {
	match l.t.as_str() {
		"always" => return json!(true),
		"never" => return json!(false),
		_ => {}
	}
	let mut o = Map::new();
	o.insert("type".into(), json!(l.t));
	if let Some(b) = &l.base {
		o.insert("base".into(), json!(b));
	}
	if let Some(p) = &l.prefixes {
		o.insert("prefixes".into(), J::Object(p.iter().map(|(a, b)| (a.clone(), json!(b))).collect()));
	}
	if let Some(i) = &l.id {
		o.insert("id".into(), json!(i));
	}
	match &l.input {
		Some(i) => {
			o.insert("input".into(), names(i, st));
		}
		None if st.explicit => {
			o.insert("input".into(), names(&["self".into()], st));
		}
		None => {}
	}
	match &l.intro {
		Some(i) => {
			o.insert("intro".into(), names(i, st));
		}
		None if st.explicit => {
			o.insert("intro".into(), json!([]));
		}
		None => {}
	}
	match &l.dataset {
		Some(d) => {
			o.insert("dataset".into(), quads(d));
		}
		None if st.explicit => {
			o.insert("dataset".into(), json!([]));
		}
		None => {}
	}
	if let Some(e) = &l.extra {
		o.insert("extra".into(), J::Object(e.iter().map(|(k, v)| (k.clone(), ext_json(v))).collect()));
	}
	if let Some(f) = &l.fields {
		o.insert(
			"fields".into(),
			J::Object(f.iter().map(|c| (c.name.clone().unwrap(), comp_json(c, st, "value", true))).collect()),
		);
	}
	if let Some(f) = &l.variants {
		o.insert(
			"variants".into(),
			J::Object(f.iter().map(|c| (c.name.clone().unwrap(), comp_json(c, st, "self", false))).collect()),
		);
	}
	if let Some(c) = &l.item {
		o.insert("item".into(), comp_json(c, st, "value", true));
	}
	if let Some(f) = &l.items {
		o.insert("items".into(), J::Array(f.iter().map(|c| comp_json(c, st, "value", true)).collect()));
	}
	if let Some(c) = &l.node {
		o.insert(
			"node".into(),
			if c.bare == Some(true) { ref_json(&c.value.layout, st) } else { comp_json(c, st, "value", true) },
		);
	}
	if let Some(p) = &l.head {
		o.insert("head".into(), pat_json(p));
	}
	if let Some(p) = &l.tail {
		o.insert("tail".into(), pat_json(p));
	}
	match &l.datatype {
		Some(d) => {
			o.insert("datatype".into(), json!(d));
		}
		None if st.explicit && l.t == "boolean" => {
			o.insert("datatype".into(), json!("http://www.w3.org/2001/XMLSchema#boolean"));
		}
		None if st.explicit && l.t == "string" => {
			o.insert("datatype".into(), json!("http://www.w3.org/2001/XMLSchema#string"));
		}
		None => {}
	}
	if let Some(p) = &l.resource {
		o.insert("resource".into(), pat_json(p));
	}
	if let Some(v) = &l.cst {
		if l.t == "unit" && (v.k != "unit" || st.explicit) {
			o.insert("const".into(), val_json(v));
		}
	}
	if let Some(p) = &l.pattern {
		o.insert("pattern".into(), json!(p));
	}
	J::Object(o)
}
