//! Suites about the parts below and around the distillation: pattern
//! matching, layout builders, registries.
use crate::{
	ast::{self, Pat, Quad as AQuad},
	exec::{self, guarded},
	gen::{self, EX, TLDR, XSD},
	proj,
	rng::Rng,
	scan::Scan,
};
use rdf_types::{generator, Quad, Term};
use serde_json::{json, Value as J};
use treeldr_layouts::{
	abs, layout::LayoutType, matching, pattern::Substitution, Layout, LayoutRegistry, Layouts, Matching, Pattern,
	Prelude, PresetLayout, Ref,
};

/* Matching */

#[derive(Clone)]
enum P {
	V(usize),
	T(Pat),
}

fn pj(p: &P) -> J {
	match p {
		P::V(x) => json!({ "var": true, "x": x + 1, "r": Pat::new("unb", "", "") }),
		P::T(t) => json!({ "var": false, "x": 0, "r": t }),
	}
}

fn pfrom(j: &J) -> P {
	if j["var"].as_bool().unwrap() {
		P::V(j["x"].as_u64().unwrap() as usize - 1)
	} else {
		P::T(serde_json::from_value(j["r"].clone()).unwrap())
	}
}

fn universe() -> Vec<Pat> {
	vec![
		Pat::iri(format!("{EX}a")),
		Pat::iri(format!("{EX}b")),
		Pat::new("blank", "_:x", ""),
		Pat::new("lit", "a", format!("{XSD}string")),
		Pat::new("lang", "a", "en"),
	]
}

pub fn match_case(r: &mut Rng) -> J {
	let u = universe();
	let k = if r.chance(50) { 2 } else { r.range(1, u.len()) };
	let u = &u[..k];
	let dense = r.chance(60);
	let nv = r.range(0, 4);
	let target: Vec<Pat> = (0..nv).map(|_| r.pick(u).clone()).collect();
	let init: Vec<Pat> = (0..nv)
		.map(|i| {
			if r.chance(25) {
				if r.chance(80) { target[i].clone() } else { r.pick(u).clone() }
			} else {
				Pat::new("unb", "", "")
			}
		})
		.collect();
	let np = *r.pick(&[0, 1, 1, 2, 2, 2, 3, 3, 4]);
	let mut pats: Vec<[P; 4]> = Vec::new();
	let mut d: Vec<AQuad> = Vec::new();
	for _ in 0..np {
		let one = |r: &mut Rng| if nv > 0 && r.chance(if dense { 80 } else { 60 }) { P::V(r.below(nv)) } else { P::T(r.pick(u).clone()) };
		let mut q = [one(r), one(r), one(r), P::T(Pat::none())];
		if r.chance(40) {
			q[3] = one(r);
		}
		if r.chance(80) {
			let t = |p: &P| match p {
				P::V(x) => target[*x].clone(),
				P::T(t) => t.clone(),
			};
			d.push([t(&q[0]), t(&q[1]), t(&q[2]), t(&q[3])]);
		}
		pats.push(q);
	}
	for _ in 0..r.below(if dense { 14 } else { 7 }) {
		let mut q: AQuad = [r.pick(u).clone(), r.pick(u).clone(), r.pick(u).clone(), Pat::none()];
		if r.chance(40) {
			q[3] = r.pick(u).clone();
		}
		if !d.is_empty() && r.chance(50) {
			// Close to a quad that matches.
			let mut near = r.pick(&d).clone();
			let i = r.below(4);
			near[i] = if i == 3 && r.chance(50) { Pat::none() } else { r.pick(u).clone() };
			q = near;
		}
		d.push(q);
	}
	d.sort();
	d.dedup();
	r.shuffle(&mut d);
	json!({
		"op": "match", "init": init,
		"pats": pats.iter().map(|q| json!({ "s": pj(&q[0]), "p": pj(&q[1]), "o": pj(&q[2]), "g": pj(&q[3]) })).collect::<Vec<_>>(),
		"dataset": d.iter().map(proj::quad_json).collect::<Vec<_>>(),
	})
}

pub fn quads_of(c: &J) -> Vec<AQuad> {
	c.as_array()
		.unwrap()
		.iter()
		.map(|q| ["s", "p", "o", "g"].map(|k| serde_json::from_value(q[k].clone()).unwrap()))
		.collect()
}

macro_rules! matcher {
	($name:ident, $Matching:ident, $Sub:ident, $Pattern:ident, $cause:expr) => {
		fn $name(init: &[Option<Term>], pats: &[Quad<$Pattern<Term>>], d: &Scan) -> J {
			let mut sub = $Sub::new();
			for t in init {
				sub.push(t.clone());
			}
			let n = sub.len();
			let show = |s: &$Sub<Term>| -> J {
				if s.len() != n {
					return json!("length");
				}
				json!((0..n).map(|i| s.get(i).map(proj::term).unwrap_or_else(|| Pat::new("unb", "", ""))).collect::<Vec<_>>())
			};
			let it = || {
				pats.iter().map(|q| {
					Quad(q.0.as_ref(), q.1.as_ref(), q.2.as_ref(), q.3.as_ref().map(|g| g.as_ref()))
				})
			};
			let all: Vec<J> = $Matching::new(d, sub.clone(), it()).map(|s| show(&s)).collect();
			let uniq = match $Matching::new(d, sub.clone(), it()).into_unique() {
				Ok(Some(s)) => json!({ "st": "some", "s": show(&s) }),
				Ok(None) => json!({ "st": "none" }),
				Err(e) => json!({ "st": ($cause)(e) }),
			};
			let req = match $Matching::new(d, sub, it()).into_required_unique() {
				Ok(s) => json!({ "st": "some", "s": show(&s) }),
				Err(e) => json!({ "st": ($cause)(e) }),
			};
			json!({ "st": "ok", "all": all, "uniq": uniq, "req": req })
		}
	};
}

matcher!(run_layouts, Matching, Substitution, Pattern, |e| match e {
	matching::Error::Ambiguity => "amb",
	matching::Error::Empty => "empty",
});

mod rs {
	pub use treeldr::{de::Matching, pattern::Substitution, Pattern};
}
use rs::{Matching as RsMatching, Pattern as RsPattern, Substitution as RsSubstitution};
matcher!(
	run_rs,
	RsMatching,
	RsSubstitution,
	RsPattern,
	|e| match treeldr::DeserializeError::from(e) {
		treeldr::DeserializeError::DataAmbiguity => "amb",
		treeldr::DeserializeError::MissingData => "empty",
		_ => "?",
	}
);

pub fn match_run(mut c: J) -> J {
	let init: Vec<Pat> = serde_json::from_value(c["init"].clone()).unwrap();
	let init: Vec<Option<Term>> = init.iter().map(|t| if t.k == "unb" { None } else { Some(proj::to_term(t)) }).collect();
	let pats: Vec<[P; 4]> =
		c["pats"].as_array().unwrap().iter().map(|q| ["s", "p", "o", "g"].map(|k| pfrom(&q[k]))).collect();
	let d: Scan = quads_of(&c["dataset"]).iter().map(proj::to_quad).collect();
	macro_rules! real {
		($Pattern:ident) => {{
			let f = |p: &P| match p {
				P::V(x) => $Pattern::Var(*x as u32),
				P::T(t) => $Pattern::Resource(proj::to_term(t)),
			};
			let g = |p: &P| match p {
				P::T(t) if t.k == "none" => None,
				p => Some(f(p)),
			};
			pats.iter().map(|q| Quad(f(&q[0]), f(&q[1]), f(&q[2]), g(&q[3]))).collect::<Vec<_>>()
		}};
	}
	let a: Vec<Quad<Pattern<Term>>> = real!(Pattern);
	let b: Vec<Quad<RsPattern<Term>>> = real!(RsPattern);
	c["out"] = guarded(|| run_layouts(&init, &a, &d));
	c["rs"] = guarded(|| run_rs(&init, &b, &d));
	c
}

/* Builder histories */

pub fn hist_case(r: &mut Rng) -> J {
	let n = r.range(2, 5);
	let mut steps = Vec::new();
	let mut old: Vec<ast::Layout> = Vec::new();
	for _ in 0..n {
		let lo = *r.pick(&[0, 10, 40]);
		let mut g = gen::Gen::new(r.fork(), lo, true);
		// Names are drawn from the same pool at every step.
		let mut ls = g.registry();
		let i = r.below(ls.len());
		let mut l = ls.swap_remove(i);
		if r.chance(60) && !matches!(l.t.as_str(), "always" | "never") {
			l.id = Some(format!("{EX}L{}", r.below(3)));
		}
		if !old.is_empty() && r.chance(15) {
			l = r.pick(&old).clone();
		}
		old.push(l.clone());
		let how = *r.pick(&["plain", "shared", "fresh", "interp"]);
		steps.push(json!({ "layout": l, "how": how }));
	}
	// Interpretations have builders of their own.
	if steps.iter().all(|s| s["how"] != "interp") || !r.chance(40) {
		for s in &mut steps {
			if s["how"] == "interp" {
				s["how"] = json!("shared");
			}
		}
	} else {
		for s in &mut steps {
			s["how"] = json!("interp");
		}
	}
	json!({ "op": "hist", "steps": steps })
}

pub fn hist_run(mut c: J) -> J {
	if c["steps"][0]["how"] == "interp" {
		return hist_interp(c);
	}
	let mut builder = abs::Builder::new();
	let mut shared = generator::Blank::new();
	for s in c["steps"].as_array_mut().unwrap() {
		let l: ast::Layout = serde_json::from_value(s["layout"].clone()).unwrap();
		let mut out = None;
		let res = guarded(|| {
			let text = ast::layout_json(&l, ast::Style::default()).to_string();
			let p = match exec::parse_text(&text, exec::Front::Serde) {
				Ok(p) => p,
				Err(e) => return json!({ "st": "parse-err", "e": "parse", "m": e }),
			};
			let r = match s["how"].as_str().unwrap() {
				"plain" => p.build(&mut builder),
				"shared" => p.build_with_context(&mut builder.with_generator_mut(&mut shared)),
				_ => p.build_with_context(&mut builder.with_generator_mut(generator::Blank::new())),
			};
			match r {
				Ok(r) => {
					out = Some(proj::term(r.id()));
					json!({ "st": "ok", "e": "" })
				}
				Err(e) => exec::err(exec::build_error(&e)),
			}
		});
		s["built"] = res;
		s["refs"] = json!(out.into_iter().collect::<Vec<_>>());
		s["reg"] = proj::registry(&builder.build());
	}
	c
}

/// The same, with resources that are not terms.
fn hist_interp(mut c: J) -> J {
	use rdf_types::{interpretation::Indexed, vocabulary::IndexVocabulary};
	let mut vocabulary: IndexVocabulary = IndexVocabulary::new();
	let mut interpretation = Indexed::new();
	let mut builder = abs::Builder::<rdf_types::interpretation::ResourceIndex>::new();
	for s in c["steps"].as_array_mut().unwrap() {
		let l: ast::Layout = serde_json::from_value(s["layout"].clone()).unwrap();
		let mut out = None;
		let res = guarded(|| {
			let text = ast::layout_json(&l, ast::Style::default()).to_string();
			let p = match exec::parse_text(&text, exec::Front::Serde) {
				Ok(p) => p,
				Err(e) => return json!({ "st": "parse-err", "e": "parse", "m": e }),
			};
			match p.build_with_interpretation(&mut vocabulary, &mut interpretation, &mut builder) {
				Ok(r) => {
					out = Some(r);
					json!({ "st": "ok", "e": "" })
				}
				Err(e) => exec::err(exec::build_error(&e)),
			}
		});
		s["built"] = res;
		let name = |r: &rdf_types::interpretation::ResourceIndex| interp_term(&vocabulary, &interpretation, r);
		s["refs"] = json!(out.iter().map(|r| name(r.id())).collect::<Vec<_>>());
		s["reg"] = proj::registry_with(&builder.build(), &name);
	}
	c
}

/// The term of an interpreted resource; a blank node if it has none.
pub fn interp_term(
	v: &rdf_types::vocabulary::IndexVocabulary,
	i: &rdf_types::interpretation::Indexed,
	r: &rdf_types::interpretation::ResourceIndex,
) -> Pat {
	use rdf_types::{
		interpretation::ReverseTermInterpretation,
		vocabulary::{BlankIdVocabulary, IriVocabulary, LiteralVocabulary},
		Id, LiteralTypeRef,
	};
	match i.term_of(r) {
		None => Pat::new("blank", format!("_:r{}", usize::from(*r)), ""),
		Some(Term::Id(Id::Iri(i))) => Pat::iri(v.iri(i).unwrap().to_string()),
		Some(Term::Id(Id::Blank(b))) => Pat::new("blank", v.blank_id(b).unwrap().to_string(), ""),
		Some(Term::Literal(l)) => {
			let l = v.literal(l).unwrap();
			match l.type_ {
				LiteralTypeRef::Any(t) => Pat::new("lit", l.value, v.iri(t).unwrap().to_string()),
				LiteralTypeRef::LangString(t) => Pat::new("lang", l.value, t.to_string()),
			}
		}
	}
}

/* Registries */

fn regs_expr(r: &mut Rng, d: usize) -> J {
	match r.below(if d == 0 { 3 } else { 8 }) {
		0 | 1 => json!({ "k": "leaf", "i": r.below(3) + 1 }),
		2 => json!({ "k": "prelude" }),
		3 => json!({ "k": "none" }),
		4 => json!({ "k": "some", "a": regs_expr(r, d - 1) }),
		5 | 6 => json!({ "k": "with", "a": regs_expr(r, d - 1), "b": regs_expr(r, d - 1) }),
		_ => json!({ "k": "union", "a": regs_expr(r, d - 1), "b": regs_expr(r, d - 1) }),
	}
}

pub fn regs_case(r: &mut Rng) -> J {
	let mut leaves: Vec<Vec<(String, String)>> = Vec::new();
	let pool = [format!("{EX}1"), format!("{EX}2"), format!("{EX}3"), format!("{TLDR}string"), format!("{TLDR}unit")];
	let mut n = 0;
	for _ in 0..3 {
		let mut l = Vec::new();
		for _ in 0..r.below(5) {
			n += 1;
			l.push((r.pick(&pool).clone(), format!("m{n}")));
		}
		leaves.push(l);
	}
	let mut ask: Vec<String> = pool.to_vec();
	ask.push(format!("{EX}4"));
	for (id, ..) in gen::PRELUDE {
		ask.push(format!("{TLDR}{id}"));
	}
	ask.push(format!("{TLDR}nope"));
	ask.push("https://treeldr.org/prelude".into());
	ask.sort();
	ask.dedup();
	let ops: Vec<J> = (0..r.below(8))
		.map(|i| json!({ "k": *r.pick(&["insert", "insert_with", "get_or_insert"]), "id": r.pick(&pool), "m": format!("o{i}") }))
		.collect();
	json!({ "op": "regs", "leaves": leaves, "expr": regs_expr(r, 3), "ask": ask, "ops": ops })
}

/// Operations on a builder, and what they give.
fn builder_ops(ops: &[J]) -> J {
	let mut b = abs::Builder::new();
	let made = |m: &str| match marker(m) {
		Layout::Literal(treeldr_layouts::layout::LiteralLayout::Data(treeldr_layouts::layout::DataLayout::Unit(u))) => {
			abs::Layout::Literal(abs::layout::LiteralLayout::Data(abs::layout::DataLayout::Unit(u)))
		}
		_ => unreachable!(),
	};
	let none = || json!({ "kind": "-" });
	let mut res = Vec::new();
	for o in ops {
		let (id, m) = (o["id"].as_str().unwrap(), o["m"].as_str().unwrap());
		let t = proj::to_term(&Pat::iri(id));
		let mut given = Pat::none();
		let how = o["k"].as_str().unwrap();
		let (id, lay) = match how {
			"get_or_insert" => {
				let l = b.get_or_insert_with(Ref::new(t.clone()), |r| {
					given = proj::term(r.id());
					made(m)
				});
				(proj::term(&t), proj::layout(&l.build()))
			}
			_ => {
				let (r, old) = if how == "insert" {
					given = proj::term(&t);
					b.insert(t, made(m))
				} else {
					b.insert_with(t, |r| {
						given = proj::term(r.id());
						made(m)
					})
				};
				(proj::term(r.id()), old.map(|l| proj::layout(&l.build())).unwrap_or_else(none))
			}
		};
		res.push(json!({ "id": id, "lay": lay, "given": given }));
	}
	json!({ "res": res, "reg": proj::registry(&b.build()) })
}

/// Object safe registries.
struct Dyn<'a>(Box<dyn LayoutRegistry0 + 'a>);

trait LayoutRegistry0 {
	fn get0(&self, id: &Ref<LayoutType>) -> Option<&Layout>;
	fn contains0(&self, id: &Ref<LayoutType>) -> bool;
}

impl<T: LayoutRegistry> LayoutRegistry0 for T {
	fn get0(&self, id: &Ref<LayoutType>) -> Option<&Layout> {
		self.get(id)
	}
	fn contains0(&self, id: &Ref<LayoutType>) -> bool {
		self.contains(id)
	}
}

impl LayoutRegistry for Dyn<'_> {
	fn get(&self, id: &Ref<LayoutType>) -> Option<&Layout> {
		self.0.get0(id)
	}
	fn contains(&self, id: &Ref<LayoutType>) -> bool {
		self.0.contains0(id)
	}
}

fn eval<'a>(e: &J, leaves: &'a [Layouts]) -> Dyn<'a> {
	match e["k"].as_str().unwrap() {
		"leaf" => Dyn(Box::new(&leaves[e["i"].as_u64().unwrap() as usize - 1])),
		"prelude" => Dyn(Box::new(Prelude)),
		"none" => Dyn(Box::new(None::<Dyn<'a>>)),
		"some" => Dyn(Box::new(Some(eval(&e["a"], leaves)))),
		"with" => Dyn(Box::new(eval(&e["a"], leaves).into_with(eval(&e["b"], leaves)))),
		"union" => Dyn(Box::new(treeldr_layouts::LayoutRegistryUnion(eval(&e["a"], leaves), eval(&e["b"], leaves)))),
		k => panic!("{k}"),
	}
}

fn marker(m: &str) -> Layout {
	use treeldr_layouts::layout::{DataLayout, LiteralLayout, UnitLayout};
	Layout::Literal(LiteralLayout::Data(DataLayout::Unit(UnitLayout {
		input: 1,
		intro: 0,
		dataset: Default::default(),
		const_: treeldr_layouts::Value::string(m.to_owned()),
		extra_properties: Default::default(),
	})))
}

pub fn regs_run(mut c: J) -> J {
	let spec: Vec<Vec<(String, String)>> = serde_json::from_value(c["leaves"].clone()).unwrap();
	let ask: Vec<String> = serde_json::from_value(c["ask"].clone()).unwrap();
	c["out"] = guarded(|| {
		let mut olds = Vec::new();
		let leaves: Vec<Layouts> = spec
			.iter()
			.map(|l| {
				let mut ls = Layouts::new();
				for (id, m) in l {
					let (r, old) = ls.insert(proj::to_term(&Pat::iri(id.clone())), marker(m));
					olds.push(json!({
						"id": proj::term(r.id()),
						"old": old.as_ref().map(proj::layout).unwrap_or_else(|| json!({ "kind": "-" }))
					}));
				}
				ls
			})
			.collect();
		let mut got = Vec::new();
		let reg = eval(&c["expr"], &leaves);
		for a in &ask {
			let id = Ref::new(proj::to_term(&Pat::iri(a.clone())));
			// Both by reference and by value.
			let g = LayoutRegistry::get(&reg, &id).map(proj::layout);
			let by_with = (&reg).with(None::<Dyn>).get(&id).map(proj::layout);
			got.push(json!({
				"lay": g.clone().unwrap_or_else(|| json!({ "kind": "-" })),
				"has": LayoutRegistry::contains(&reg, &id),
				"same": g == by_with,
			}));
		}
		drop(reg);
		let presets: Vec<&str> = ask
			.iter()
			.map(|a| match PresetLayout::from_iri(iref::Iri::new(a).unwrap()) {
				None => "",
				Some(PresetLayout::Id) => "id",
				Some(PresetLayout::Unit) => "unit",
				Some(PresetLayout::Boolean) => "boolean",
				Some(PresetLayout::U8) => "u8",
				Some(PresetLayout::U16) => "u16",
				Some(PresetLayout::U32) => "u32",
				Some(PresetLayout::U64) => "u64",
				Some(PresetLayout::I8) => "i8",
				Some(PresetLayout::I16) => "i16",
				Some(PresetLayout::I32) => "i32",
				Some(PresetLayout::I64) => "i64",
				Some(PresetLayout::String) => "string",
			})
			.collect();
		let iters: Vec<Vec<J>> = leaves
			.into_iter()
			.map(|l| {
				let a: Vec<J> = l.iter().map(|(r, l)| json!({ "id": proj::term(r.id()), "lay": proj::layout(l) })).collect();
				let b: Vec<J> =
					l.into_iter().map(|(r, l)| json!({ "id": proj::term(r.id()), "lay": proj::layout(&l) })).collect();
				assert_eq!(a, b);
				a
			})
			.collect();
		let ops = builder_ops(c["ops"].as_array().map(|a| a.as_slice()).unwrap_or_default());
		json!({ "st": "ok", "ops": ops, "olds": olds, "got": got, "presets": presets, "iters": iters })
	});
	c
}
