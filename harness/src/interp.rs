//! The general forms of hydration and dehydration: resources that are not
//! terms, with any number of terms each; inputs and graph of the caller's
//! choice; the options of the simplified form.
use crate::{
	ast::{self, Layout, Pat, Quad as AQuad, Style, Val},
	exec::{self, guarded, Front},
	gen::{self, Gen},
	more::interp_term,
	proj,
	rng::Rng,
	scan::Scan,
	trees,
};
use rdf_types::{
	dataset::BTreeDataset,
	generator,
	interpretation::{
		Indexed, LiteralInterpretationMut, ResourceIndex, ReverseIriInterpretation, ReverseIriInterpretationMut, ReverseLiteralInterpretation,
		ReverseLiteralInterpretationMut, TermInterpretationMut,
	},
	vocabulary::{IndexVocabulary, IriVocabulary, IriVocabularyMut, LiteralVocabulary, LiteralVocabularyMut},
	LiteralType, LiteralTypeRef, Quad, Term,
};
use serde_json::{json, Value as J};
use std::collections::{BTreeMap, BTreeSet};
use treeldr_layouts::{
	abs,
	distill::{de, hy, RdfContextMut},
	layout::LayoutType,
	LayoutRegistry, Layouts, Prelude, Ref,
};

const XSD: &str = "http://www.w3.org/2001/XMLSchema#";

pub struct World {
	pub v: IndexVocabulary,
	pub i: Indexed,
	pub layouts: Layouts<ResourceIndex>,
	pub prelude: Layouts<ResourceIndex>,
	pub refs: Vec<Ref<LayoutType, ResourceIndex>>,
}

impl World {
	pub fn empty() -> Self {
		Self { v: IndexVocabulary::new(), i: Indexed::new(), layouts: Layouts::new(), prelude: Layouts::new(), refs: vec![] }
	}

	pub fn new(ls: &[Layout]) -> Result<Self, J> {
		let mut v = IndexVocabulary::new();
		let mut i = Indexed::new();
		let mut builder = abs::Builder::<ResourceIndex>::new();
		let mut refs = Vec::new();
		let mut prelude = Layouts::new();
		let j = guarded(|| {
			// Before or after the layouts that refer to it.
			if ls.len() % 2 == 0 {
				prelude = Prelude::build_with(&mut v, &mut i);
			}
			for l in ls {
				let text = ast::layout_json(l, Style::default()).to_string();
				let p = match exec::parse_text(&text, Front::Serde) {
					Ok(p) => p,
					Err(e) => return json!({ "st": "parse-err", "e": "parse", "m": e }),
				};
				match p.build_with_interpretation(&mut v, &mut i, &mut builder) {
					Ok(r) => refs.push(r),
					Err(e) => return exec::err(exec::build_error(&e)),
				}
			}
			if ls.len() % 2 != 0 {
				prelude = Prelude::build_with(&mut v, &mut i);
			}
			json!({ "st": "ok", "e": "" })
		});
		if j["st"] == "ok" {
			Ok(Self { layouts: builder.build(), prelude, v, i, refs })
		} else {
			Err(j)
		}
	}

	pub fn resource(&mut self, t: &Pat) -> ResourceIndex {
		match proj::to_term(t) {
			Term::Id(id) => self.i.interpret_owned_lexical_term(&mut self.v, Term::Id(id)),
			Term::Literal(l) => {
				let x = self.literal(l);
				self.i.interpret_literal(x)
			}
		}
	}

	fn literal(&mut self, l: rdf_types::Literal) -> <IndexVocabulary as LiteralVocabulary>::Literal {
		let ty = match l.type_ {
			LiteralType::Any(i) => LiteralType::Any(self.v.insert_owned(i)),
			LiteralType::LangString(t) => LiteralType::LangString(t),
		};
		self.v.insert_owned_literal(rdf_types::Literal::new(l.value, ty))
	}

	pub fn assign(&mut self, r: &ResourceIndex, t: &Pat) {
		match t.k.as_str() {
			"iri" => {
				let x = self.v.insert_owned(iref::IriBuf::new(t.v.clone()).unwrap());
				self.i.assign_iri(r, x);
			}
			"lit" | "lang" => {
				let Term::Literal(l) = proj::to_term(t) else { unreachable!() };
				let x = self.literal(l);
				self.i.assign_literal(r, x);
			}
			_ => {}
		}
	}

	/// IRIs and literals of a resource.
	pub fn terms(&self, r: &ResourceIndex) -> BTreeSet<Pat> {
		let mut out: BTreeSet<Pat> = self.i.iris_of(r).map(|i| Pat::iri(self.v.iri(i).unwrap().to_string())).collect();
		for l in self.i.literals_of(r) {
			let l = self.v.literal(l).unwrap();
			out.insert(match l.type_ {
				LiteralTypeRef::Any(t) => Pat::new("lit", l.value, self.v.iri(t).unwrap().to_string()),
				LiteralTypeRef::LangString(t) => Pat::new("lang", l.value, t.to_string()),
			});
		}
		out
	}

	/// A name for each of the resources, as they are now.
	pub fn names(&self) -> Vec<Pat> {
		(0..self.i.len()).map(|k| interp_term(&self.v, &self.i, &ResourceIndex::from(k))).collect()
	}
}

pub fn name(names: &[Pat], r: &ResourceIndex) -> Pat {
	let k = usize::from(*r);
	names.get(k).cloned().unwrap_or_else(|| Pat::new("blank", format!("_:r{k}"), ""))
}

pub fn quads(j: &J) -> Vec<AQuad> {
	j.as_array()
		.unwrap()
		.iter()
		.map(|q| ["s", "p", "o", "g"].map(|k| serde_json::from_value(q[k].clone()).unwrap()))
		.collect()
}

/* Hydration */

pub fn hy_case(r: &mut Rng) -> J {
	let lo = *r.pick(&[0, 0, 10, 25]);
	let graphs = r.chance(40);
	let mut g = Gen::new(r.fork(), lo, graphs);
	g.dense = r.chance(50);
	g.focus = *r.pick(&["", "lit", "lit", "lit", "list", "sum"]);
	g.tags = r.chance(30);
	let tags = g.tags;
	let ls = g.registry();
	let (mut d, mut ins) = (vec![], vec![]);
	if let Ok(b) = exec::build(&ls, Style::default(), Front::Serde) {
		for _ in 0..4 {
			let v = g.root_value(&ls);
			if let (_, Some((q, i))) = exec::dehydrate(&b, 0, &v) {
				d = q;
				ins = i;
				break;
			}
		}
	}
	if ins.is_empty() {
		d = g.any_dataset(r.range(0, 6));
		ins = (0..gen::input_names(&ls[0]).len())
			.map(|_| if d.is_empty() { g.any_term() } else { r.pick(&d)[0].clone() })
			.collect();
	}
	if r.chance(25) {
		g.mutate(&mut d);
	}
	let graph = if graphs && r.chance(20) { Pat::iri(format!("{}g{}", gen::EX, r.below(2))) } else { Pat::none() };
	if graph.k != "none" && r.chance(70) {
		for q in &mut d {
			if q[3].k == "none" {
				q[3] = graph.clone();
			}
		}
	}
	// Literals (and some IRIs) become terms of anonymous resources.
	let mut alias: Vec<(Pat, Pat)> = Vec::new();
	let mut opaque: BTreeMap<Pat, Pat> = BTreeMap::new();
	let mut all: Vec<Pat> = d.iter().flat_map(|q| q.iter().cloned()).chain(ins.iter().cloned()).collect();
	all.sort();
	all.dedup();
	for t in &all {
		if (t.k == "lit" || t.k == "lang") && r.chance(60) {
			let b = Pat::new("blank", format!("_:o{}", opaque.len()), "");
			alias.push((b.clone(), t.clone()));
			opaque.insert(t.clone(), b);
		}
	}
	let map = |t: &mut Pat| {
		if let Some(b) = opaque.get(t) {
			*t = b.clone();
		}
	};
	d.iter_mut().for_each(|q| q.iter_mut().for_each(map));
	ins.iter_mut().for_each(map);
	let mut all: Vec<Pat> = d.iter().flat_map(|q| q.iter().cloned()).chain(ins.iter().cloned()).filter(|t| t.k != "none").collect();
	all.sort();
	all.dedup();
	// More terms.
	if !all.is_empty() {
		for _ in 0..r.below(4) {
			let res = if !alias.is_empty() && r.chance(50) { r.pick(&alias).0.clone() } else { r.pick(&all).clone() };
			let near = alias.iter().find(|a| a.0 == res).map(|a| a.1.clone()).unwrap_or(res.clone());
			let t = match r.below(6) {
				0 => Pat::iri(format!("{}alias{}", gen::EX, r.below(3))),
				1 => Pat::new("lang", "x", "en"),
				2 => Pat::new("lit", *r.pick(&["1", "true", "zz", "0a", ""]), format!("{XSD}{}", *r.pick(&["string", "boolean", "integer", "decimal", "hexBinary", "byte"]))),
				3 if near.k == "lit" => Pat::new("lit", *r.pick(&["1", "01", "true", "0", "zz", "0A"]), near.t.clone()),
				4 if near.k == "lit" => Pat::new("lit", near.v.clone(), format!("{}dt{}", gen::EX, r.below(2))),
				_ => g.any_term(),
			};
			if t.k != "blank" && t != res {
				alias.push((res, t));
			}
		}
		// Other names for datatypes.
		if r.chance(30) {
			let mut types: Vec<String> = all.iter().chain(alias.iter().map(|a| &a.1)).filter(|t| t.k == "lit").map(|t| t.t.clone()).collect();
			types.sort();
			types.dedup();
			if !types.is_empty() {
				let t = r.pick(&types).clone();
				let u = if r.chance(50) { format!("{}dt{}", gen::EX, r.below(2)) } else { r.pick(&types).clone() };
				if u != t {
					alias.push((Pat::iri(t.clone()), Pat::iri(u.clone())));
					if r.chance(60) {
						for a in alias.iter_mut() {
							if a.1.k == "lit" && a.1.t == t && r.chance(70) {
								a.1.t = u.clone();
							}
						}
					}
				}
			}
		}
	}
	alias.sort();
	alias.dedup();
	for i in (1..d.len()).rev() {
		d.swap(i, r.below(i + 1));
	}
	json!({ "op": "hyi", "layouts": ls, "dataset": d.iter().map(proj::quad_json).collect::<Vec<_>>(),
		"graph": graph, "inputs": ins, "alias": alias, "tags": tags })
}

fn build(c: &mut J) -> Option<(World, Vec<Layout>)> {
	let ls: Vec<Layout> = serde_json::from_value(c["layouts"].clone()).unwrap();
	c["reg"] = json!([]);
	c["refs"] = json!([]);
	match World::new(&ls) {
		Ok(w) => {
			let names = w.names();
			c["built"] = json!({ "st": "ok", "e": "" });
			c["reg"] = proj::registry_with(&w.layouts, &|r| name(&names, r));
			c["refs"] = json!(w.refs.iter().map(|r| name(&names, r.id())).collect::<Vec<_>>());
			Some((w, ls))
		}
		Err(e) => {
			c["built"] = e;
			None
		}
	}
}

pub fn hy_run(mut c: J) -> J {
	c["hy"] = exec::err("-");
	let Some((mut w, _)) = build(&mut c) else { return c };
	let d = quads(&c["dataset"]);
	let graph: Pat = serde_json::from_value(c["graph"].clone()).unwrap();
	let inputs: Vec<Pat> = serde_json::from_value(c["inputs"].clone()).unwrap();
	let alias: Vec<(Pat, Pat)> = serde_json::from_value(c["alias"].clone()).unwrap();
	let ds: Scan<ResourceIndex> = d
		.iter()
		.map(|q| {
			let g = if q[3].k == "none" { None } else { Some(w.resource(&q[3])) };
			Quad(w.resource(&q[0]), w.resource(&q[1]), w.resource(&q[2]), g)
		})
		.collect();
	let g = if graph.k == "none" { None } else { Some(w.resource(&graph)) };
	let ins: Vec<ResourceIndex> = inputs.iter().map(|t| w.resource(t)).collect();
	let owners: Vec<ResourceIndex> = alias.iter().map(|(r, _)| w.resource(r)).collect();
	let names = w.names();
	for (r, (_, t)) in owners.iter().zip(&alias) {
		w.assign(r, t);
	}
	let mut tagged = json!({ "st": "skip", "e": "" });
	c["hy"] = guarded(|| match hy::hydrate_with(&w.v, &w.i, w.layouts.with(&w.prelude), &ds, g.as_ref(), &w.refs[0], &ins) {
		Ok(v) => {
			if c["tags"] == true {
				tagged = trees::tagged(v.clone().try_into_tagged_serde_cbor_with(&w.v, &w.i, w.layouts.with(&w.prelude)));
			}
			json!({ "st": "ok", "e": "", "v": proj::typed_with(&v, &|r| name(&names, r)), "u": proj::value(&v.into_untyped()) })
		}
		Err(e) => exec::err(exec::hy_error(&e)),
	});
	c["tagged"] = tagged;
	c
}

/* Dehydration */

pub fn de_case(r: &mut Rng) -> J {
	let lo = *r.pick(&[0, 0, 10, 40]);
	let graphs = r.chance(50);
	let mut g = Gen::new(r.fork(), lo, graphs);
	g.dense = r.chance(40);
	g.focus = *r.pick(&["", "lit", "list", "sum", "graph"]);
	let ls = g.registry();
	let v = if r.chance(5) { g.junk(2) } else { g.root_value(&ls) };
	let mut n = gen::input_names(&ls[0]).len();
	if r.chance(4) {
		n = r.below(4);
	}
	let inputs: Vec<Pat> = (0..n)
		.map(|i| match r.below(6) {
			0 => Pat::iri(format!("{}in{i}", gen::EX)),
			1 => g.any_term(),
			2 => Pat::new("blank", "_:shared", ""),
			_ => Pat::new("blank", format!("_:in{i}"), ""),
		})
		.collect();
	let graph = match r.below(6) {
		0 | 1 => Pat::iri(format!("{}g{}", gen::EX, r.below(2))),
		2 => Pat::new("blank", "_:graph", ""),
		3 if n > 0 => inputs[0].clone(),
		_ => Pat::none(),
	};
	json!({ "op": "dei", "layouts": ls, "value": v, "inputs": inputs, "graph": graph })
}

pub fn de_run(mut c: J) -> J {
	c["de"] = exec::err("-");
	let Some((mut w, _)) = build(&mut c) else { return c };
	let graph: Pat = serde_json::from_value(c["graph"].clone()).unwrap();
	let inputs: Vec<Pat> = serde_json::from_value(c["inputs"].clone()).unwrap();
	let value: Val = serde_json::from_value(c["value"].clone()).unwrap();
	let value = proj::to_value(&value);
	let ins: Vec<ResourceIndex> = inputs.iter().map(|t| w.resource(t)).collect();
	let g = if graph.k == "none" { None } else { Some(w.resource(&graph)) };
	let names = w.names();
	let before: Vec<BTreeSet<Pat>> = (0..w.i.len()).map(|k| w.terms(&ResourceIndex::from(k))).collect();
	let mut out = BTreeDataset::new();
	let res = guarded(|| {
		let mut rdf = RdfContextMut::new(&mut w.v, &mut w.i);
		match de::dehydrate_with(&mut rdf, w.layouts.with(&w.prelude), &value, g.as_ref(), &w.refs[0], &ins, &mut out) {
			Ok(()) => json!({ "st": "ok", "e": "" }),
			Err(e) => exec::err(exec::de_error(&e)),
		}
	});
	c["de"] = res;
	if c["de"]["st"] == "ok" {
		let mut used: BTreeSet<ResourceIndex> = ins.iter().cloned().collect();
		let mut q = Vec::new();
		for Quad(s, p, o, g) in out {
			used.extend([s, p, o]);
			used.extend(g);
			let n = |r: &ResourceIndex| name(&names, r);
			q.push(proj::quad_json(&[n(&s), n(&p), n(&o), g.as_ref().map(n).unwrap_or_else(Pat::none)]));
		}
		let mut a = Vec::new();
		for r in used {
			for t in w.terms(&r) {
				if !before.get(usize::from(r)).is_some_and(|b| b.contains(&t)) {
					a.push(json!([name(&names, &r), t]));
				}
			}
		}
		c["de"]["q"] = json!(q);
		c["de"]["a"] = json!(a);
	}
	c
}

/* Options of the simplified form */

pub fn opt_case(r: &mut Rng) -> J {
	let lo = *r.pick(&[0, 0, 10]);
	let graphs = r.chance(30);
	let mut g = Gen::new(r.fork(), lo, graphs);
	g.dense = r.chance(50);
	let mut ls = g.registry();
	if r.chance(15) {
		let t = if r.chance(80) { "always" } else { "never" };
		ls = vec![Layout { t: t.into(), ..Default::default() }];
	}
	let v = g.root_value(&ls);
	json!({ "op": "opt", "layouts": ls, "value": v, "count": if r.chance(50) { r.below(4) as i64 } else { -1 },
		"iris": r.chance(50), "prefix": *r.pick(&["", "", "x", "node_"]), "offset": r.below(3) })
}

fn in_iri(i: usize) -> Term {
	Term::iri(iref::IriBuf::new(format!("https://ex.org/input/{i}")).unwrap())
}

pub fn opt_run(mut c: J) -> J {
	let ls: Vec<Layout> = serde_json::from_value(c["layouts"].clone()).unwrap();
	let value: Val = serde_json::from_value(c["value"].clone()).unwrap();
	c["reg"] = json!([]);
	c["refs"] = json!([]);
	c["de"] = exec::err("-");
	c["same"] = json!(true);
	let b = match exec::build(&ls, Style::default(), Front::Serde) {
		Ok(b) => b,
		Err(e) => {
			c["built"] = e;
			return c;
		}
	};
	c["built"] = json!({ "st": "ok", "e": "" });
	c["reg"] = proj::registry(&b.layouts);
	c["refs"] = json!(b.refs.iter().map(|r| proj::term(r.id())).collect::<Vec<_>>());
	let once = || {
		guarded(|| {
			let mut o = de::Options::default();
			if let Ok(n) = u32::try_from(c["count"].as_i64().unwrap()) {
				o = o.with_input_count(n);
			}
			if c["iris"] == true {
				o = o.with_input_term_generator(in_iri);
			}
			let o = o.with_generator(generator::Blank::new_full(c["prefix"].as_str().unwrap().to_owned(), c["offset"].as_u64().unwrap() as usize));
			match de::dehydrate(b.layouts.with(Prelude), &proj::to_value(&value), &b.refs[0], o) {
				Ok((d, ins)) => json!({ "st": "ok", "e": "",
					"q": d.into_iter().map(|q| proj::quad_json(&proj::quad(&q))).collect::<Vec<_>>(),
					"ins": ins.iter().map(proj::term).collect::<Vec<_>>() }),
				Err(e) => exec::err(exec::de_error(&e)),
			}
		})
	};
	let de = once();
	let again: Vec<J> = (0..2).map(|_| once()).collect();
	// An error is any of those that are there.
	c["same"] = json!(again.iter().all(|a| if de["st"] == "ok" { *a == de } else { a["st"] == de["st"] }));
	c["de"] = de;
	c
}
