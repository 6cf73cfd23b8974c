//! One function per family of scenarios.
use crate::{
	ast::{self, Layout, Pat, Style},
	cli,
	exec::{self, Front},
	gen::{self, Gen},
	interp, locate, more,
	proj,
	rng::Rng,
	regexp, trees, walk,
};
use serde_json::{json, Value as J};

/// A suite is an operation and, after a dot, what it focuses on.
pub fn case(suite: &str, seed: u64, i: u64) -> J {
	let tag: u64 = suite.bytes().fold(7, |a, b| a.wrapping_mul(131).wrapping_add(b as u64));
	let mut r = Rng::new(seed ^ tag.rotate_left(17) ^ i.wrapping_mul(0x2545_F491_4F6C_DD1D));
	let (op, focus) = suite.split_once('.').unwrap_or((suite, ""));
	let focus: &'static str = match focus {
		"" => "",
		"sum" => "sum",
		"list" => "list",
		"lit" => "lit",
		"graph" => "graph",
		"walk" => "walk",
		s => panic!("unknown focus {s}"),
	};
	let mut j = match op {
		"rt" => round_trip(&mut r, focus),
		"hyd" if focus == "walk" => walk::case(&mut r),
		"hyd" => hydrate(&mut r, focus),
		"deh" if focus == "walk" => walk::write(&mut r),
		"deh" => dehydrate(&mut r, focus),
		"build" => build(&mut r, focus),
		"match" => more::match_run(more::match_case(&mut r)),
		"hist" => more::hist_run(more::hist_case(&mut r)),
		"regs" => more::regs_run(more::regs_case(&mut r)),
		"json" => trees::json_run(match i {
			0 => trees::json_huge(),
			_ => trees::json_case(&mut r),
		}),
		"cbor" => trees::cbor_run(trees::cbor_case(&mut r)),
		"num" => trees::num_run(trees::num_case(&mut r)),
		"front" => trees::front_run(trees::front_case(&mut r)),
		"regexp" => regexp::run(regexp::case(&mut r)),
		"cli" => cli::run(cli::case(&mut r)),
		"loc" => locate::run(locate::case(&mut r)),
		"hyi" => interp::hy_run(interp::hy_case(&mut r)),
		"dei" => interp::de_run(interp::de_case(&mut r)),
		"opt" => interp::opt_run(interp::opt_case(&mut r)),
		s => panic!("unknown suite {s}"),
	};
	if j.get("case").is_none() {
		j["case"] = json!(format!("{suite}/{seed}/{i}"));
	}
	j
}

fn gen(r: &mut Rng, loose: usize, focus: &'static str) -> Gen {
	let graphs = focus == "graph" || r.chance(40);
	let mut g = Gen::new(r.fork(), loose, graphs);
	g.focus = focus;
	g.dense = r.chance(40);
	g
}

/// Executes a logged case again: the same line, with the results of the code
/// as it is now.
pub fn replay(mut c: J) -> J {
	match c["op"].as_str().unwrap() {
		"match" => return more::match_run(c),
		"hist" => return more::hist_run(c),
		"regs" => return more::regs_run(c),
		"json" => return trees::json_run(c),
		"cbor" => return trees::cbor_run(c),
		"num" => return trees::num_run(c),
		"front" => return trees::front_run(c),
		"regexp" => return regexp::run(c),
		"cli" => return cli::run(c),
		"loc" => return locate::run(c),
		"hyi" => return interp::hy_run(c),
		"dei" => return interp::de_run(c),
		"opt" => return interp::opt_run(c),
		_ => {}
	}
	let ls: Vec<Layout> = serde_json::from_value(c["layouts"].clone()).unwrap();
	let b = match exec::build(&ls, Style::default(), Front::Serde) {
		Ok(b) => b,
		Err(e) => {
			c["built"] = e;
			c["reg"] = json!([]);
			c["refs"] = json!([]);
			return c;
		}
	};
	c["built"] = json!({ "st": "ok", "e": "" });
	c["reg"] = json!(proj::registry(&b.layouts));
	c["refs"] = json!(b.refs.iter().map(|r| proj::term(r.id())).collect::<Vec<_>>());
	let val = |c: &J| -> ast::Val { serde_json::from_value(c["value"].clone()).unwrap() };
	match c["op"].as_str().unwrap() {
		"hyd" => {
			let d: Vec<ast::Quad> = c["dataset"]
				.as_array()
				.unwrap()
				.iter()
				.map(|q| ["s", "p", "o", "g"].map(|k| serde_json::from_value(q[k].clone()).unwrap()))
				.collect();
			let g: Pat = serde_json::from_value(c["graph"].clone()).unwrap();
			let ins: Vec<Pat> = serde_json::from_value(c["inputs"].clone()).unwrap();
			c["hy"] = exec::hydrate(&b, 0, &d, &g, &ins);
		}
		"build" => c["facts"] = proj::facts(&b.layouts),
		"deh" => c["de"] = exec::dehydrate(&b, 0, &val(&c)).0,
		"rt" => {
			let (de, out) = exec::dehydrate(&b, 0, &val(&c));
			c["hy"] = match out {
				Some((q, ins)) => exec::hydrate(&b, 0, &q, &Pat::none(), &ins),
				None => exec::err("-"),
			};
			c["de"] = de;
		}
		_ => {}
	}
	c
}

fn style(r: &mut Rng) -> Style {
	Style { one: r.chance(50), explicit: r.chance(25), wrap: r.chance(25) }
}

fn front(r: &mut Rng) -> Front {
	if r.chance(50) {
		Front::Serde
	} else {
		Front::Tracked
	}
}

fn loose(r: &mut Rng) -> usize {
	*r.pick(&[0, 10, 25, 60])
}

/// The layouts, what was compiled, and the references.
fn base(op: &str, ls: &[Layout], b: &exec::Built) -> J {
	json!({
		"op": op, "layouts": ls, "reg": proj::registry(&b.layouts),
		"refs": b.refs.iter().map(|r| proj::term(r.id())).collect::<Vec<_>>()
	})
}

fn failed(op: &str, ls: &[Layout], e: J) -> J {
	json!({ "op": op, "layouts": ls, "reg": [], "refs": [], "built": e })
}

fn round_trip(r: &mut Rng, focus: &'static str) -> J {
	let (st, fr) = (style(r), front(r));
	let mut g = gen(r, 0, focus);
	let ls = g.registry();
	let v = g.root_value(&ls);
	let b = match exec::build(&ls, st, fr) {
		Ok(b) => b,
		Err(e) => return failed("rt", &ls, e),
	};
	let (de, out) = exec::dehydrate(&b, 0, &v);
	let hy = match out {
		Some((q, ins)) => exec::hydrate(&b, 0, &q, &Pat::none(), &ins),
		None => exec::err("-"),
	};
	let mut j = base("rt", &ls, &b);
	j["built"] = json!({ "st": "ok", "e": "" });
	j["value"] = json!(v);
	j["de"] = de;
	j["hy"] = hy;
	j
}

fn dehydrate(r: &mut Rng, focus: &'static str) -> J {
	let (st, fr, lo) = (style(r), front(r), loose(r));
	let mut g = gen(r, lo, focus);
	let ls = g.registry();
	let v = if r.chance(5) { g.junk(2) } else { g.root_value(&ls) };
	let b = match exec::build(&ls, st, fr) {
		Ok(b) => b,
		Err(e) => return failed("deh", &ls, e),
	};
	let (de, _) = exec::dehydrate(&b, 0, &v);
	let mut j = base("deh", &ls, &b);
	j["built"] = json!({ "st": "ok", "e": "" });
	j["value"] = json!(v);
	j["de"] = de;
	j
}

fn hydrate(r: &mut Rng, focus: &'static str) -> J {
	let (st, fr, lo) = (style(r), front(r), loose(r));
	let mut g = gen(r, lo, focus);
	let ls = g.registry();
	let b = match exec::build(&ls, st, fr) {
		Ok(b) => b,
		Err(e) => return failed("hyd", &ls, e),
	};
	let n = gen::input_names(&ls[0]).len();
	let (mut d, mut ins) = (vec![], vec![]);
	if r.chance(92) {
		for _ in 0..3 {
			let v = g.root_value(&ls);
			if let (_, Some((q, i))) = exec::dehydrate(&b, 0, &v) {
				d = q;
				ins = i;
				break;
			}
		}
	}
	if ins.is_empty() {
		let k = r.range(0, 8);
		d = g.any_dataset(k);
		let m = if r.chance(5) { r.below(3) } else { n };
		ins = (0..m)
			.map(|_| if d.is_empty() || r.chance(20) { g.any_term() } else { r.pick(&d)[0].clone() })
			.collect();
	}
	if r.chance(70) {
		g.mutate(&mut d);
	}
	let graph = if g.graphs && r.chance(if focus == "graph" { 40 } else { 15 }) {
		let gr = Pat::iri(format!("{}g{}", gen::EX, r.below(2)));
		if r.chance(60) {
			for q in &mut d {
				if q[3].k == "none" {
					q[3] = gr.clone();
				}
			}
			d.sort();
			d.dedup();
		}
		gr
	} else {
		Pat::none()
	};
	let hy = exec::hydrate(&b, 0, &d, &graph, &ins);
	let mut j = base("hyd", &ls, &b);
	j["built"] = json!({ "st": "ok", "e": "" });
	j["dataset"] = json!(d.iter().map(proj::quad_json).collect::<Vec<_>>());
	j["graph"] = json!(graph);
	j["inputs"] = json!(ins);
	j["hy"] = hy;
	j
}

fn build(r: &mut Rng, focus: &'static str) -> J {
	let (st, fr, lo) = (style(r), front(r), loose(r));
	let mut g = gen(r, lo, focus);
	g.graphs = true;
	g.weird = r.chance(40);
	let ls = g.registry();
	let _ = ast::layout_json(&ls[0], st);
	match exec::build(&ls, st, fr) {
		Ok(b) => {
			let mut j = base("build", &ls, &b);
			j["built"] = json!({ "st": "ok", "e": "" });
			j["facts"] = proj::facts(&b.layouts);
			j
		}
		Err(e) => failed("build", &ls, e),
	}
}
