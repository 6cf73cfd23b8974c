//! Recursive layouts walking through graphs: layouts that refer to each other
//! with several inputs and graphs, on data that may come back where it was.
use crate::{
	ast::{Comp, Fmt, Layout, LRef, Pat, Quad, Style, Val},
	exec::{self, Front},
	gen::EX,
	proj,
	rng::Rng,
};
use serde_json::{json, Value as J};

const VARS: [&str; 3] = ["self", "b", "c"];

fn iri(s: impl std::fmt::Display) -> Pat {
	Pat::iri(format!("{EX}{s}"))
}

/// A reference to one of the layouts, from where `vars` are known.
fn target(r: &mut Rng, still: bool, ks: &[usize], vars: &[&str], new: &[String]) -> Fmt {
	let j = r.below(ks.len());
	let input = (0..ks[j])
		.map(|i| match new.get(i) {
			Some(v) if r.chance(80) => Pat::var(v.clone()),
			_ if r.chance(10) && !new.is_empty() => Pat::var(r.pick(new).clone()),
			_ => Pat::var((*r.pick(vars)).to_owned()),
		})
		.collect();
	let graph = match r.below(6) {
		_ if still => None,
		0 => Some(Pat::none()),
		1 => Some(iri("g0")),
		2 if !new.is_empty() => Some(Pat::var(r.pick(new).clone())),
		_ => None,
	};
	Fmt { layout: LRef::Ref { v: format!("{EX}L{j}") }, input: Some(input), graph }
}

/// A step of some of the inputs, each along its own property.
fn step(r: &mut Rng, still: bool, ks: &[usize], me: usize, name: Option<String>) -> Comp {
	let vars = &VARS[..ks[me]];
	let (mut new, mut dataset) = (vec![], vec![]);
	for (i, v) in vars.iter().enumerate() {
		if i > 0 && r.chance(40) {
			continue;
		}
		let n = if i == 0 { "value".to_owned() } else { format!("n{i}") };
		let mut q = vec![Pat::var(*v), iri(format!("p{i}")), Pat::var(n.clone())];
		match r.below(10) {
			_ if still => (),
			0 => q.push(iri("g0")),
			1 => q.push(iri("g1")),
			_ => (),
		}
		dataset.push(q);
		new.push(n);
	}
	let value = target(r, still, ks, vars, &new);
	Comp { name, intro: Some(new), dataset: Some(dataset), value, ..Default::default() }
}

fn leaf(name: Option<&str>) -> Comp {
	let l = Layout { t: "id".into(), resource: Some(Pat::var("self")), ..Default::default() };
	Comp {
		name: name.map(ToOwned::to_owned),
		intro: Some(vec![]),
		value: Fmt { layout: LRef::Def { l: Box::new(l) }, input: Some(vec![Pat::var("self")]), graph: None },
		..Default::default()
	}
}

fn layout(r: &mut Rng, (still, wide): (bool, bool), ks: &[usize], me: usize) -> Layout {
	let mut l = Layout {
		id: Some(format!("{EX}L{me}")),
		input: Some(VARS[..ks[me]].iter().map(|s| (*s).to_owned()).collect()),
		..Default::default()
	};
	match r.below(10) {
		0..=4 => {
			l.t = "record".into();
			let mut f = vec![leaf(Some("at"))];
			for i in 0..if wide { 2 } else { 1 } {
				let mut c = step(r, still, ks, me, Some(format!("next{i}")));
				c.required = Some(r.chance(10));
				f.push(c);
			}
			l.fields = Some(f);
		}
		5..=6 => {
			l.t = "sum".into();
			let mut v = vec![step(r, still, ks, me, Some("more".into()))];
			if r.chance(50) {
				v.insert(0, leaf(Some("end")));
			}
			if wide {
				v.push(Comp { name: Some("same".into()), intro: Some(vec![]), value: target(r, still, ks, &VARS[..ks[me]], &[]), ..Default::default() });
			}
			l.variants = Some(v);
		}
		7..=8 => {
			l.t = "set".into();
			l.item = Some(Box::new(step(r, still, ks, me, None)));
		}
		_ => {
			l.t = "tuple".into();
			let n = r.range(1, 2);
			l.items = Some((0..n).map(|i| if i == 0 { step(r, still, ks, me, None) } else { leaf(None) }).collect());
		}
	}
	l
}

/// A value of the layout, unless something goes wrong.
fn value(r: &mut Rng, ls: &[Layout], me: usize, depth: usize) -> Val {
	if depth == 0 || r.chance(4) {
		return match r.below(4) {
			0 => Val::str(format!("{EX}n{}", r.below(4))),
			1 => Val::map(vec![("at".into(), Val::str(format!("{EX}n0")))]),
			2 => Val::list(vec![]),
			_ => Val::unit(),
		};
	}
	let sub = |r: &mut Rng, c: &Comp| match &c.value.layout {
		LRef::Ref { v } => {
			let j = v.trim_start_matches(EX)[1..].parse().unwrap();
			value(r, ls, j, depth - 1)
		}
		LRef::Def { .. } => Val::str(format!("{EX}n{}", r.below(4))),
	};
	let l = &ls[me];
	match l.t.as_str() {
		"record" => {
			let mut kv = vec![];
			for c in l.fields.as_ref().unwrap() {
				if c.name.as_deref() == Some("at") || r.chance(75) {
					kv.push((c.name.clone().unwrap(), sub(r, c)));
				}
			}
			Val::map(kv)
		}
		"sum" => {
			let c = r.pick(l.variants.as_ref().unwrap()).clone();
			sub(r, &c)
		}
		"set" => {
			let c = l.item.as_ref().unwrap().clone();
			Val::list((0..r.below(3)).map(|_| sub(r, &c)).collect())
		}
		_ => Val::list(l.items.as_ref().unwrap().iter().map(|c| sub(r, c)).collect()),
	}
}

/// Writes a value with such layouts.
pub fn write(r: &mut Rng) -> J {
	let ks: Vec<usize> = (0..r.range(1, 4)).map(|_| *r.pick(&[1, 1, 2, 3])).collect();
	let still = r.chance(50);
	// Many sums, that may be variants of each other.
	let sums = r.chance(60);
	let ls: Vec<Layout> = (0..ks.len())
		.map(|i| loop {
			let l = layout(r, (still, true), &ks, i);
			if !sums || l.t == "sum" || r.chance(10) {
				break l;
			}
		})
		.collect();
	let depth = r.range(1, 6);
	let mut v = value(r, &ls, 0, depth);
	if v.size() > 60 {
		v = value(r, &ls, 0, 2);
	}
	let b = match exec::build(&ls, Style { one: r.chance(50), explicit: r.chance(25), wrap: r.chance(25) }, if r.chance(70) { Front::Serde } else { Front::Tracked }) {
		Ok(b) => b,
		Err(e) => return json!({ "op": "deh", "layouts": ls, "reg": [], "refs": [], "built": e }),
	};
	let (de, _) = exec::dehydrate(&b, 0, &v);
	json!({
		"op": "deh", "layouts": ls, "reg": proj::registry(&b.layouts),
		"refs": b.refs.iter().map(|r| proj::term(r.id())).collect::<Vec<_>>(),
		"built": { "st": "ok", "e": "" }, "value": v, "de": de,
	})
}

pub fn case(r: &mut Rng) -> J {
	let ks: Vec<usize> = (0..r.range(1, 3)).map(|_| *r.pick(&[1, 1, 2, 2, 3])).collect();
	let n = match ks.iter().max() {
		Some(1) => *r.pick(&[2, 3, 5, 9, 12]),
		Some(2) => *r.pick(&[2, 3, 4, 5]),
		_ => *r.pick(&[2, 3, 3]),
	};
	let ng = *r.pick(&[1, 1, 2, 3, 4]);
	// Trees that are not chains must be small.
	let wide = n <= 3 && ng == 1 && ks.iter().all(|k| *k == 1);
	let still = ng == 1 || r.chance(20);
	let ls: Vec<Layout> = (0..ks.len()).map(|i| layout(r, (still, wide), &ks, i)).collect();
	let blank = if r.chance(20) { r.below(n) } else { n };
	let node = |i: usize| if i == blank { Pat::new("blank", format!("_:n{i}"), "") } else { iri(format!("n{i}")) };
	let graphs = [Pat::none(), iri("g0"), iri("g1"), node(1)];
	let mut d: Vec<Quad> = vec![];
	let ends = *r.pick(&[0, 8, 30, 60, 60, 90]);
	let along = r.chance(70);
	for g in &graphs[..ng] {
		for p in 0..3 {
			// Each graph has its own steps: chains with a loop or an end.
			let back = r.below(n);
			let stop = r.chance(ends);
			for i in 0..n {
				if r.chance(ends / 10) {
					continue;
				}
				let o = match i + 1 {
					j if along && j < n => j,
					_ if along && stop => continue,
					_ if along => back,
					_ => r.below(n),
				};
				d.push([node(i), iri(format!("p{p}")), node(o), g.clone()]);
			}
			if wide && r.chance(20) {
				d.push([node(r.below(n)), iri(format!("p{p}")), node(r.below(n)), g.clone()]);
			}
		}
	}
	d.sort();
	d.dedup();
	let ins: Vec<Pat> = (0..ks[0]).map(|i| node(if i == 0 { 0 } else { r.below(n) })).collect();
	let graph = if ng > 1 && r.chance(40) { graphs[r.below(ng)].clone() } else { Pat::none() };
	let b = match exec::build(&ls, Style { one: r.chance(50), explicit: r.chance(25), wrap: r.chance(25) }, if r.chance(70) { Front::Serde } else { Front::Tracked }) {
		Ok(b) => b,
		Err(e) => return json!({ "op": "hyd", "layouts": ls, "reg": [], "refs": [], "built": e }),
	};
	json!({
		"op": "hyd", "layouts": ls, "reg": proj::registry(&b.layouts),
		"refs": b.refs.iter().map(|r| proj::term(r.id())).collect::<Vec<_>>(),
		"built": { "st": "ok", "e": "" },
		"dataset": d.iter().map(proj::quad_json).collect::<Vec<_>>(),
		"graph": graph, "inputs": ins,
		"hy": exec::hydrate(&b, 0, &d, &graph, &ins),
	})
}
