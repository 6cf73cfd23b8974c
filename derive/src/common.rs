
use rdf_types::{
	dataset::BTreeDataset,
	interpretation::{Indexed, ResourceIndex},
	vocabulary::IndexVocabulary,
	Quad, Term,
};
use serde_json::{json, Value as J};
use std::collections::{BTreeMap, BTreeSet};
use tldr_verif::{
	ast::{Pat, Val},
	exec::{self, guarded},
	gen::{Gen, EX},
	interp::{name, quads, World},
	proj,
	rng::Rng,
	run,
	scan::Scan,
};
use treeldr::{DeserializeError, DeserializeLd, RdfContext, RdfContextMut, SerializeLd};

const RDF: &[&str] = &[
	"http://www.w3.org/1999/02/22-rdf-syntax-ns#first",
	"http://www.w3.org/1999/02/22-rdf-syntax-ns#rest",
	"http://www.w3.org/1999/02/22-rdf-syntax-ns#nil",
];
const XSD: &str = "http://www.w3.org/2001/XMLSchema#";

/// A Rust value and the tree that it stands for.
trait Model: Sized {
	fn arb(r: &mut Rng) -> Val;
	fn make(v: &Val) -> Self;
	fn show(&self) -> Val;
}

fn variant(name: &str, v: Val) -> Val {
	Val { k: "variant".into(), s: name.into(), c: vec![v] }
}

fn field<'a>(v: &'a Val, name: &str) -> Option<&'a Val> {
	v.c.chunks(2).find(|kv| kv[0].s == name).map(|kv| &kv[1])
}

impl Model for () {
	fn arb(_: &mut Rng) -> Val {
		Val::unit()
	}
	fn make(_: &Val) -> Self {}
	fn show(&self) -> Val {
		Val::unit()
	}
}

impl Model for String {
	fn arb(r: &mut Rng) -> Val {
		Val::str(*r.pick(&["", "x", "true", "12", "a b", "é\n", "https://ex.org/s"]))
	}
	fn make(v: &Val) -> Self {
		v.s.clone()
	}
	fn show(&self) -> Val {
		Val::str(self.clone())
	}
}

impl Model for bool {
	fn arb(r: &mut Rng) -> Val {
		Val::sc("bool", if r.chance(50) { "true" } else { "false" })
	}
	fn make(v: &Val) -> Self {
		v.s == "true"
	}
	fn show(&self) -> Val {
		Val::sc("bool", self.to_string())
	}
}

macro_rules! int {
	($($t:ty),*) => {
		$(impl Model for $t {
			fn arb(r: &mut Rng) -> Val {
				let n = match r.below(6) {
					0 => <$t>::MIN,
					1 => <$t>::MAX,
					2 => r.next() as $t,
					_ => r.below(12) as $t,
				};
				Val::sc("num", n.to_string())
			}
			fn make(v: &Val) -> Self {
				v.s.parse().unwrap()
			}
			fn show(&self) -> Val {
				Val::sc("num", self.to_string())
			}
		})*
	};
}

int!(i8, u8, i16, u16, i32, u32, i64, u64);

impl Model for rdf_types::Id {
	fn arb(r: &mut Rng) -> Val {
		Val::str(format!("{EX}{}", r.pick(&["n0", "n1", "c0", "T"])))
	}
	fn make(v: &Val) -> Self {
		match v.s.strip_prefix("_:") {
			Some(_) => Self::Blank(rdf_types::BlankIdBuf::new(v.s.clone()).unwrap()),
			None => Self::Iri(iref::IriBuf::new(v.s.clone()).unwrap()),
		}
	}
	fn show(&self) -> Val {
		Val::str(self.to_string())
	}
}

/// Byte string, written in hexadecimal.
pub struct Hex(Vec<u8>);

impl std::fmt::Display for Hex {
	fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
		self.0.iter().try_for_each(|b| write!(f, "{b:02x}"))
	}
}

impl treeldr::de::FromRdfLiteral for Hex {
	fn from_rdf_literal(value: &str) -> Result<Self, treeldr::de::InvalidLiteral> {
		let c: Option<Vec<u8>> = value.chars().map(|c| c.to_digit(16).map(|d| d as u8)).collect();
		match c {
			Some(c) if c.len() % 2 == 0 => Ok(Self(c.chunks(2).map(|c| c[0] << 4 | c[1]).collect())),
			_ => Err(treeldr::de::InvalidLiteral(value.to_owned())),
		}
	}
}

impl Model for Hex {
	fn arb(r: &mut Rng) -> Val {
		Val::sc("bytes", *r.pick(&["", "00", "0aff", "abcdef01"]))
	}
	fn make(v: &Val) -> Self {
		match <Self as treeldr::de::FromRdfLiteral>::from_rdf_literal(&v.s) {
			Ok(x) => x,
			Err(_) => unreachable!(),
		}
	}
	fn show(&self) -> Val {
		Val::sc("bytes", self.to_string())
	}
}

/// How many items a list has.
fn len(r: &mut Rng) -> usize {
	if r.chance(20) {
		r.below(8)
	} else {
		r.below(4)
	}
}

pub struct Entry {
	name: &'static str,
	nin: usize,
	/// The layouts it stands for: itself, and those it refers to.
	layouts: &'static [&'static str],
	/// The resources that its layouts name, other than in the data.
	consts: &'static [&'static str],
	/// All the resources that they name.
	iris: &'static [&'static str],
	arb: fn(&mut Rng) -> Val,
	ser: fn(&mut World, &Val, &[ResourceIndex], Option<&ResourceIndex>, &mut BTreeDataset<ResourceIndex>) -> J,
	de: fn(&World, &Scan<ResourceIndex>, &[ResourceIndex], Option<&ResourceIndex>) -> J,
}

fn ser<T: Model + SerializeLd<N, IndexVocabulary, Indexed>, const N: usize>(
	w: &mut World,
	v: &Val,
	ins: &[ResourceIndex],
	g: Option<&ResourceIndex>,
	out: &mut BTreeDataset<ResourceIndex>,
) -> J {
	guarded(|| {
		let v = T::make(v);
		let ins: &[ResourceIndex; N] = ins.try_into().unwrap();
		let mut rdf = RdfContextMut::new(&mut w.v, &mut w.i);
		match v.serialize_ld_with(&mut rdf, ins, g, out) {
			Ok(()) => json!({ "st": "ok", "e": "" }),
			Err(_) => exec::err("Error"),
		}
	})
}

fn de<T: Model + DeserializeLd<N, IndexVocabulary, Indexed>, const N: usize>(
	w: &World,
	d: &Scan<ResourceIndex>,
	ins: &[ResourceIndex],
	g: Option<&ResourceIndex>,
) -> J {
	use DeserializeError as E;
	guarded(|| {
		let ins: &[ResourceIndex; N] = ins.try_into().unwrap();
		match T::deserialize_ld_with(RdfContext::new(&w.v, &w.i), d, g, ins) {
			Ok(v) => json!({ "st": "ok", "e": "", "v": v.show() }),
			Err(E::MissingField(f)) => exec::err(format!("MissingData/Key/{f}")),
			Err(E::DataAmbiguity | E::AmbiguousId | E::AmbiguousLiteralValue) => exec::err("ambiguous"),
			Err(_) => exec::err("missing"),
		}
	})
}

fn entry(name: &str) -> &'static Entry {
	types::ENTRIES.iter().find(|e| e.name == name).unwrap()
}

fn new_case(op: &str, e: &Entry) -> J {
	let ls: Vec<J> = e
		.layouts
		.iter()
		.map(|n| serde_json::from_str(types::LAYOUTS.iter().find(|l| l.0 == *n).unwrap().1).unwrap())
		.collect();
	json!({ "op": op, "type": e.name, "layouts": ls })
}

fn pick_entry(r: &mut Rng) -> &'static Entry {
	r.pick(types::ENTRIES)
}

fn any_graph(r: &mut Rng, ins: &[Pat]) -> Pat {
	match r.below(6) {
		0 | 1 => Pat::iri(format!("{EX}g{}", r.below(2))),
		2 => Pat::new("blank", "_:graph", ""),
		3 if !ins.is_empty() => ins[0].clone(),
		_ => Pat::none(),
	}
}

/* Serialization */

fn ser_case(r: &mut Rng) -> J {
	let e = pick_entry(r);
	let mut c = new_case("ders", e);
	let inputs: Vec<Pat> = (0..e.nin)
		.map(|i| match r.below(6) {
			0 => Pat::iri(format!("{EX}in{i}")),
			1 => Pat::iri(format!("{EX}c0")),
			2 => Pat::new("blank", "_:shared", ""),
			_ => Pat::new("blank", format!("_:in{i}"), ""),
		})
		.collect();
	c["value"] = json!((e.arb)(r));
	c["graph"] = json!(any_graph(r, &inputs));
	c["inputs"] = json!(inputs);
	c
}

fn ser_run(mut c: J) -> J {
	let e = entry(c["type"].as_str().unwrap());
	let mut w = World::empty();
	let graph: Pat = serde_json::from_value(c["graph"].clone()).unwrap();
	let inputs: Vec<Pat> = serde_json::from_value(c["inputs"].clone()).unwrap();
	let value: Val = serde_json::from_value(c["value"].clone()).unwrap();
	let ins: Vec<ResourceIndex> = inputs.iter().map(|t| w.resource(t)).collect();
	let g = if graph.k == "none" { None } else { Some(w.resource(&graph)) };
	for k in e.iris.iter().chain(RDF) {
		w.resource(&Pat::iri(*k));
	}
	let names = w.names();
	let before: Vec<BTreeSet<Pat>> = (0..w.i.len()).map(|k| w.terms(&ResourceIndex::from(k))).collect();
	let mut out = BTreeDataset::new();
	let res = (e.ser)(&mut w, &value, &ins, g.as_ref(), &mut out);
	c["de"] = res;
	if c["de"]["st"] == "ok" {
		let mut used: BTreeSet<ResourceIndex> = ins.iter().cloned().collect();
		let mut q = Vec::new();
		let n = |r: &ResourceIndex| name(&names, r);
		for Quad(s, p, o, g) in out {
			used.extend([s, p, o]);
			used.extend(g);
			q.push(proj::quad_json(&[n(&s), n(&p), n(&o), g.as_ref().map(n).unwrap_or_else(Pat::none)]));
		}
		let mut a = Vec::new();
		for r in used {
			for t in w.terms(&r) {
				if !before.get(usize::from(r)).is_some_and(|b| b.contains(&t)) {
					a.push(json!([n(&r), t]));
				}
			}
		}
		c["de"]["q"] = json!(q);
		c["de"]["a"] = json!(a);
	}
	c
}

/* Deserialization */

fn de_case(r: &mut Rng) -> J {
	let e = pick_entry(r);
	let mut c = new_case("derd", e);
	// What some value gives.
	let mut s = ser_case(r);
	while s["type"] != e.name {
		s = {
			let mut s = new_case("ders", e);
			let inputs: Vec<Pat> = (0..e.nin).map(|i| if r.chance(30) { Pat::iri(format!("{EX}c0")) } else { Pat::new("blank", format!("_:in{i}"), "") }).collect();
			s["value"] = json!((e.arb)(r));
			s["graph"] = json!(any_graph(r, &inputs));
			s["inputs"] = json!(inputs);
			s
		};
	}
	let s = ser_run(s);
	let mut ins: Vec<Pat> = serde_json::from_value(s["inputs"].clone()).unwrap();
	let mut graph: Pat = serde_json::from_value(s["graph"].clone()).unwrap();
	let mut d = vec![];
	let mut alias: Vec<(Pat, Pat)> = vec![];
	if s["de"]["st"] == "ok" {
		d = quads(&s["de"]["q"]);
		alias = serde_json::from_value(s["de"]["a"].clone()).unwrap();
	}
	// Literals may be resources of their own.
	let mut rename: BTreeMap<Pat, Pat> = BTreeMap::new();
	let direct = r.below(100);
	alias.retain(|(a, t)| {
		if a.k == "blank" && !rename.contains_key(a) && r.chance(direct) {
			rename.insert(a.clone(), t.clone());
			false
		} else {
			true
		}
	});
	let map = |t: &mut Pat| {
		if let Some(b) = rename.get(t) {
			*t = b.clone();
		}
	};
	d.iter_mut().for_each(|q| q.iter_mut().for_each(map));
	ins.iter_mut().for_each(map);
	alias.iter_mut().for_each(|a| map(&mut a.0));
	map(&mut graph);
	let mut g = Gen::new(r.fork(), 0, r.chance(50));
	if r.chance(55) {
		g.mutate(&mut d);
	}
	// xsd-types does not read a negative zero as an unsigned integer.
	for t in d.iter_mut().flatten().filter(|t| t.t.starts_with(&format!("{XSD}unsigned"))) {
		if t.v.starts_with('-') && t.v[1..].chars().all(|c| c == '0') {
			t.v.remove(0);
		}
	}
	if r.chance(8) {
		graph = any_graph(r, &ins);
	}
	let mut all: Vec<Pat> = d.iter().flat_map(|q| q.iter().cloned()).chain(ins.iter().cloned()).filter(|t| t.k != "none").collect();
	all.sort();
	all.dedup();
	if r.chance(25) && !all.is_empty() {
		let res = if !alias.is_empty() && r.chance(60) { r.pick(&alias).0.clone() } else { r.pick(&all).clone() };
		let near = alias.iter().find(|a| a.0 == res).map(|a| a.1.clone()).unwrap_or(res.clone());
		let t = match r.below(5) {
			0 => Pat::iri(format!("{EX}alias{}", r.below(3))),
			1 => Pat::new("lang", "x", "en"),
			2 => Pat::new("lit", *r.pick(&["1", "true", "zz", "0a", "", "-1", "300"]), format!("{XSD}{}", *r.pick(&["string", "boolean", "int", "byte", "hexBinary", "unsignedShort", "long"]))),
			_ if near.k == "lit" => Pat::new("lit", *r.pick(&["1", "01", "true", "0", "zz", "0A", "x"]), near.t.clone()),
			_ => Pat::new("lit", "x", format!("{XSD}string")),
		};
		if t != res {
			alias.push((res, t));
		}
	}
	alias.sort();
	alias.dedup();
	r.shuffle(&mut d);
	c["dataset"] = json!(d.iter().map(proj::quad_json).collect::<Vec<_>>());
	c["graph"] = json!(graph);
	c["inputs"] = json!(ins);
	c["alias"] = json!(alias);
	c
}

fn de_run(mut c: J) -> J {
	let e = entry(c["type"].as_str().unwrap());
	let mut w = World::empty();
	let d = quads(&c["dataset"]);
	let graph: Pat = serde_json::from_value(c["graph"].clone()).unwrap();
	let inputs: Vec<Pat> = serde_json::from_value(c["inputs"].clone()).unwrap();
	let alias: Vec<(Pat, Pat)> = serde_json::from_value(c["alias"].clone()).unwrap();
	let ds: Scan<ResourceIndex> = d
		.iter()
		.map(|q| {
			let g = if q[3].k == "none" { None } else { Some(w.resource(&q[3])) };
			Quad(w.resource(&q[0]), w.resource(&q[1]), w.resource(&q[2]), g)
		})
		.collect();
	let g = if graph.k == "none" { None } else { Some(w.resource(&graph)) };
	let ins: Vec<ResourceIndex> = inputs.iter().map(|t| w.resource(t)).collect();
	for k in e.consts {
		w.resource(&Pat::iri(*k));
	}
	w.resource(&Pat::iri(RDF[2]));
	for (o, t) in &alias {
		let o = w.resource(o);
		w.assign(&o, t);
	}
	c["hy"] = (e.de)(&w, &ds, &ins, g.as_ref());
	c
}

fn case(suite: &str, seed: u64, i: u64) -> J {
	let tag: u64 = suite.bytes().fold(7, |a, b| a.wrapping_mul(131).wrapping_add(b as u64));
	let mut r = Rng::new(seed ^ tag.rotate_left(17) ^ i.wrapping_mul(0x2545_F491_4F6C_DD1D));
	let mut j = match suite {
		"ders" | "gens" => ser_run(ser_case(&mut r)),
		"derd" | "gend" => de_run(de_case(&mut r)),
		"gen" => other::run(other::case(&mut r)),
		"genc" => other::tool_run(other::tool_case(&mut r)),
		s => panic!("unknown suite {s}"),
	};
	j["case"] = json!(format!("{suite}/{seed}/{i}"));
	j
}

fn replay(c: J) -> J {
	if c["op"] == "gen" {
		other::run(c)
	} else if c["op"] == "genc" {
		other::tool_run(c)
	} else if c["op"] == "ders" {
		ser_run(c)
	} else {
		de_run(c)
	}
}

fn main() {
	let _: Option<Term> = None;
	run::main(case, replay)
}
