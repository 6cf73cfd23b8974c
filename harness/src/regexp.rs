//! Suite about regular expressions and automata.
use crate::{
	exec::{self, guarded},
	rng::Rng,
};
use btree_range_map::{AnyRange, RangeSet};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value as J};
use std::collections::BTreeMap;
use treeldr_layouts::{
	abs::RegExp,
	utils::{Automaton, DetAutomaton},
};

/// k: any, set, seq, alt, star, plus, opt
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Re {
	k: String,
	neg: bool,
	r: Vec<(u32, u32)>,
	c: Vec<Re>,
}

fn re(k: &str, c: Vec<Re>) -> Re {
	Re { k: k.into(), neg: false, r: vec![], c }
}

fn lit(c: char) -> Re {
	Re { k: "set".into(), neg: false, r: vec![(c as u32, c as u32)], c: vec![] }
}

const POOL: &[char] = &[
	'a', 'b', 'c', 'd', 'x', 'z', '0', '9', 'é', '日', '-', '^', ']', '[', '.', '*', '+', '?', '|', '(', ')', '\\', '\n', '\t', ' ', '{', '}', '\u{0}',
	'\u{1b}', '\u{10ffff}', '/', '"', '\u{7}', '\u{8}', '\u{b}', '\u{c}', '\r', '\u{1}', '\u{d7ff}', '\u{e000}', '\u{ffff}', '\u{10000}',
];

fn pool(r: &mut Rng) -> char {
	if r.chance(75) {
		*r.pick(&['a', 'b', 'c'])
	} else {
		*r.pick(POOL)
	}
}

fn gen(r: &mut Rng, d: usize) -> Re {
	match r.below(if d == 0 { 5 } else { 12 }) {
		0..=2 => lit(pool(r)),
		3 => {
			let n = r.range(1, 3);
			let mut s = Re { k: "set".into(), neg: r.chance(30), r: vec![], c: vec![] };
			for _ in 0..n {
				let (a, b) = (pool(r) as u32, pool(r) as u32);
				s.r.push(if r.chance(50) { (a, a) } else { (a.min(b), a.max(b)) });
			}
			if s.r.iter().any(|x| x.0 == 0) {
				// The expression without words has no syntax of its own.
				s.neg = false;
			}
			s
		}
		4 => {
			if r.chance(12) {
				// Nothing, or anything.
				let mut s = re("set", vec![]);
				s.neg = r.chance(40);
				if r.chance(30) {
					s.r = vec![(0, 0x10ffff)];
					s.neg = true;
				}
				s
			} else if r.chance(70) {
				re("any", vec![])
			} else {
				re("seq", vec![])
			}
		}
		5..=7 => {
			let n = r.below(4);
			re("seq", (0..n).map(|_| gen(r, d - 1)).collect())
		}
		8 | 9 => {
			let n = r.range(2, 3);
			re("alt", (0..n).map(|_| gen(r, d - 1)).collect())
		}
		_ => re(*r.pick(&["star", "star", "plus", "opt"]), vec![gen(r, d - 1)]),
	}
}

fn chr(r: &mut Rng, c: u32, in_set: bool, o: &mut String) {
	let c = char::from_u32(c).unwrap();
	let special = "()[]?*+|\\.{}".contains(c) || in_set && "]-^\\".contains(c);
	let name = match c {
		'\0' => Some('0'),
		'\n' => Some('n'),
		'\t' => Some('t'),
		'\u{1b}' => Some('e'),
		'\u{7}' => Some('a'),
		'\u{8}' => Some('b'),
		'\u{b}' => Some('v'),
		'\u{c}' => Some('f'),
		'\r' => Some('r'),
		_ => None,
	};
	match name {
		Some(n) if r.chance(60) => {
			o.push('\\');
			o.push(n);
		}
		None if special || (r.chance(8) && !c.is_alphanumeric()) => {
			o.push('\\');
			o.push(c);
		}
		_ => o.push(c),
	}
}

/// level 0: alternatives, 1: sequence, 2: one item
fn text(r: &mut Rng, e: &Re, level: usize, o: &mut String) {
	let own = match e.k.as_str() {
		"alt" => 0,
		"seq" => 1,
		"star" | "plus" | "opt" => 1,
		_ => 2,
	};
	// A sequence in a sequence is fine; repetitions only apply to one item.
	let group = own < level || r.chance(6);
	if group {
		o.push('(');
	}
	match e.k.as_str() {
		"any" => o.push('.'),
		"set" => {
			if e.r.len() == 1 && e.r[0].0 == e.r[0].1 && !e.neg && r.chance(85) {
				chr(r, e.r[0].0, false, o)
			} else {
				o.push('[');
				if e.neg {
					o.push('^');
				}
				for (i, (a, b)) in e.r.iter().enumerate() {
					let mut first = String::new();
					chr(r, *a, true, &mut first);
					if i == 0 && first == "^" {
						first = "\\^".into();
					}
					o.push_str(&first);
					if a != b {
						o.push('-');
						chr(r, *b, true, o);
					}
				}
				o.push(']');
			}
		}
		"seq" => {
			for x in &e.c {
				text(r, x, 1, o);
			}
		}
		"alt" => {
			for (i, x) in e.c.iter().enumerate() {
				if i > 0 {
					o.push('|');
				}
				text(r, x, 1, o);
			}
		}
		k => {
			text(r, &e.c[0], 2, o);
			o.push(match k {
				"star" => '*',
				"plus" => '+',
				_ => '?',
			});
		}
	}
	if group {
		o.push(')');
	}
}

pub fn case(r: &mut Rng) -> J {
	let d = r.range(1, 4);
	let e = gen(r, d);
	let mut t = String::new();
	text(r, &e, 0, &mut t);
	let d2 = r.range(1, 2);
	let e2 = gen(r, d2);
	let mut t2 = String::new();
	text(r, &e2, 0, &mut t2);
	let n = r.below(5);
	let plain: String = (0..n).map(|_| pool(r)).collect();
	let bad = match r.below(5) {
		0 => format!("({t}"),
		1 => format!("{t})"),
		2 => format!("{t}\\"),
		3 => format!("{t}[a"),
		_ => format!("{t2}(({t})"),
	};
	let min = r.below(3);
	let times = [min, min + r.below(3)];
	json!({ "op": "regexp", "times": times, "re": e, "text": t, "re2": e2, "text2": t2,
		"plain": plain, "bad": bad,
		"plain_re": re("seq", plain.chars().map(lit).collect()) })
}

fn bounds(l: &AnyRange<char>) -> (u32, u32) {
	(l.first().unwrap() as u32, l.last().unwrap() as u32)
}

fn auto(a: &DetAutomaton<usize>) -> J {
	let tr: Vec<_> = a
		.transitions()
		.iter()
		.flat_map(|(q, m)| {
			m.iter().map(move |(l, p)| {
				let (lo, hi) = bounds(l);
				json!({ "q": q, "lo": lo, "hi": hi, "p": p })
			})
		})
		.collect();
	json!({ "st": "ok", "e": "", "init": a.initial_state(), "fin": a.final_states(), "tr": tr })
}

fn number<Q: Ord + Clone + std::hash::Hash, L: Copy + Ord + std::hash::Hash>(a: &DetAutomaton<Q, L>, mut f: impl FnMut(L) -> AnyRange<char>) -> DetAutomaton<usize> {
	// Independent of the code under test.
	let mut ids: BTreeMap<Q, usize> = BTreeMap::new();
	let mut id = |q: &Q| {
		let n = ids.len();
		*ids.entry(q.clone()).or_insert(n)
	};
	let init = id(a.initial_state());
	let fin = a.final_states().iter().map(&mut id).collect();
	let mut tr: BTreeMap<usize, BTreeMap<AnyRange<char>, usize>> = BTreeMap::new();
	for (q, m) in a.transitions() {
		for (l, p) in m {
			let (q, p) = (id(q), id(p));
			tr.entry(q).or_default().insert(f(*l), p);
		}
	}
	DetAutomaton::from_parts(init, fin, tr)
}

/// An automaton whose labels are words, with a state for each of their letters.
fn spelled(d: &DetAutomaton<usize, Vec<AnyRange<char>>>) -> DetAutomaton<usize> {
	let mut tr: BTreeMap<usize, BTreeMap<AnyRange<char>, usize>> = BTreeMap::new();
	let mut n = 1_000_000;
	for (q, m) in d.transitions() {
		for (w, p) in m {
			let mut at = *q;
			for (i, l) in w.iter().enumerate() {
				let to = if i + 1 == w.len() {
					*p
				} else {
					n += 1;
					n
				};
				if tr.entry(at).or_default().insert(*l, to).is_some() {
					panic!("not deterministic");
				}
				at = to;
			}
		}
	}
	DetAutomaton::from_parts(*d.initial_state(), d.final_states().clone(), tr)
}

/// Thompson's construction, on the automata of the code under test.
fn thompson(e: &Re, n: &mut usize, a: &mut Automaton<usize>) -> (usize, usize) {
	let s = *n;
	let t = *n + 1;
	*n += 2;
	match e.k.as_str() {
		"any" | "set" => {
			let mut set = RangeSet::new();
			if e.k == "any" {
				set.insert('\0'..='\u{10ffff}');
			}
			for (x, y) in &e.r {
				set.insert(char::from_u32(*x).unwrap()..=char::from_u32(*y).unwrap());
			}
			if e.neg {
				set = set.complement();
			}
			a.add(s, Some(set), t);
		}
		"seq" => {
			let mut at = s;
			for x in &e.c {
				let (p, q) = thompson(x, n, a);
				a.add(at, None, p);
				at = q;
			}
			a.add(at, None, t);
		}
		"alt" => {
			for x in &e.c {
				let (p, q) = thompson(x, n, a);
				a.add(s, None, p);
				a.add(q, None, t);
			}
		}
		k => {
			let (p, q) = thompson(&e.c[0], n, a);
			a.add(s, None, p);
			a.add(q, None, t);
			if k != "opt" {
				a.add(q, None, p);
			}
			if k != "plus" {
				a.add(s, None, t);
			}
		}
	}
	(s, t)
}

/// Without empty transitions.
fn plain_nfa(d: &DetAutomaton<usize>) -> Automaton<usize> {
	let mut a = Automaton::new();
	a.declare_state(*d.initial_state());
	a.add_initial_state(*d.initial_state());
	for (q, m) in d.transitions() {
		for (l, p) in m {
			let mut s = RangeSet::new();
			s.insert(*l);
			a.add(*q, Some(s), *p);
		}
	}
	for q in d.final_states() {
		a.add_final_state(*q);
	}
	a
}

pub fn run(mut c: J) -> J {
	let e: Re = serde_json::from_value(c["re"].clone()).unwrap();
	let t = c["text"].as_str().unwrap().to_owned();
	let t2 = c["text2"].as_str().unwrap().to_owned();
	let plain = c["plain"].as_str().unwrap().to_owned();
	let parse = |t: &str| RegExp::parse(t);
	let built = |r: Result<RegExp, _>, f: &dyn Fn(DetAutomaton<usize>) -> DetAutomaton<usize>| -> J {
		match r {
			Ok(r) => auto(&f(r.build())),
			Err::<_, treeldr_layouts::abs::regexp::ParseError>(_) => exec::err("parse"),
		}
	};
	let id = |a| a;
	let mut o = serde_json::Map::new();
	o.insert("auto".into(), guarded(|| built(parse(&t), &id)));
	o.insert("again".into(), guarded(|| built(parse(&t).and_then(|r| parse(&r.to_string())), &id)));
	for (name, ty, tracked) in [("layout-string", "string", false), ("layout-id", "id", false), ("layout-string-tracked", "string", true), ("layout-id-tracked", "id", true)] {
		o.insert(name.into(), guarded(|| layout_pattern(ty, &t, tracked)));
	}
	o.insert(
		"minimize".into(),
		guarded(|| {
			built(parse(&t), &|a| {
				let fin = a.partition(|q| a.is_final_state(q));
				number(&a.minimize(fin.into_values()), |l| *l)
			})
		}),
	);
	o.insert(
		"map".into(),
		guarded(|| built(parse(&t), &|a| a.try_map::<_, _, ()>(|q| Ok(q + 7), |l| Ok(*l)).unwrap())),
	);
	o.insert("map2".into(), guarded(|| built(parse(&t), &|a| a.map(|q| 1000 - q, |l| *l))));
	o.insert(
		"determinize".into(),
		guarded(|| {
			let mut a = Automaton::new();
			let mut n = 0;
			let (s, f) = thompson(&e, &mut n, &mut a);
			a.add_initial_state(s);
			a.add_final_state(f);
			let d = a.determinize();
			auto(&number(&d, |l| l))
		}),
	);
	for (name, how) in [("simplified", 0), ("pushed", 1), ("serialized", 2), ("compressed", 3), ("repeated {1,1}", 4)] {
		o.insert(
			name.into(),
			guarded(|| {
				let Ok(r) = parse(&t) else { return exec::err("parse") };
				match how {
					0 => auto(&r.simplified().build()),
					1 => {
						let mut a = RegExp::empty();
						a.push(r);
						a.push(RegExp::empty());
						auto(&a.build())
					}
					2 => {
						let a = r.build();
						let b: DetAutomaton<usize> = serde_cbor::from_slice(&serde_cbor::to_vec(&a).unwrap()).unwrap();
						let c: DetAutomaton<usize> = serde_json::from_str(&serde_json::to_string(&a).unwrap()).unwrap();
						if a == b && a == c && a.cmp(&b).is_eq() {
							auto(&b)
						} else {
							exec::err("read back as another automaton")
						}
					}
					3 => {
						let a = r.build();
						let d = a.compress::<Vec<AnyRange<char>>>(|w, l| w.push(*l));
						auto(&spelled(&d))
					}
					_ => {
						let mut r = r;
						r.repeat(1, 1);
						auto(&r.build())
					}
				}
			}),
		);
	}
	c["single"] = guarded(|| match parse(&t) {
		Ok(r) => match r.as_singleton() {
			Some(s) => json!({ "st": "ok", "e": "", "w": s.chars().map(|c| c as u32).collect::<Vec<_>>() }),
			None => json!({ "st": "none", "e": "" }),
		},
		Err(_) => exec::err("parse"),
	});
	c["same"] = J::Object(o);
	c["both"] = json!({
		"product": guarded(|| match (parse(&t), parse(&t2)) {
			(Ok(a), Ok(b)) => {
				let (a, b) = (a.build(), b.build());
				let p = a.product(&b, |x, y| (*x, *y), |l, m| {
					let ((a, b), (c, d)) = (bounds(l), bounds(m));
					let (lo, hi) = (a.max(c), b.min(d));
					(lo <= hi).then(|| (lo, hi))
				});
				auto(&number(&p, |(a, b)| AnyRange::from(char::from_u32(a).unwrap()..=char::from_u32(b).unwrap())))
			}
			_ => exec::err("parse"),
		}),
		"nproduct": guarded(|| match (parse(&t), parse(&t2)) {
			(Ok(a), Ok(b)) => {
				let (a, b) = (plain_nfa(&a.build()), plain_nfa(&b.build()));
				let p = a.product(&b, |x, y| (*x, *y));
				auto(&number(&p.determinize(), |l| l))
			}
			_ => exec::err("parse"),
		}),
	});
	let times = |min: u32, max: u32| {
		guarded(|| match parse(&t2) {
			Ok(mut r) => {
				r.repeat(min, max);
				auto(&r.build())
			}
			_ => exec::err("parse"),
		})
	};
	let (min, max) = (c["times"][0].as_u64().unwrap_or(0) as u32, c["times"][1].as_u64().unwrap_or(0) as u32);
	c["repeated"] = times(min, max);
	c["at_least"] = times(min, u32::MAX);
	c["pushed"] = guarded(|| match (parse(&t), parse(&t2)) {
		(Ok(mut a), Ok(b)) => {
			a.push(b);
			auto(&a.build())
		}
		_ => exec::err("parse"),
	});
	c["states"] = guarded(|| match parse(&t) {
		Ok(r) => {
			let a = r.build();
			let i = *a.initial_state();
			let from: Vec<_> = a
				.states()
				.into_iter()
				.map(|q| json!({ "q": q, "r": a.reachable_states_from(q).collect::<std::collections::BTreeSet<_>>() }))
				.collect();
			json!({ "st": "ok", "e": "", "init": i, "tr": auto(&a)["tr"], "fin": a.final_states(), "from": from,
				"finals": a.select_states(|q| a.is_final_state(q)), "start": a.states().into_iter().filter(|q| a.is_initial_state(q)).collect::<Vec<_>>(),
				"single": r.is_singleton() == r.as_singleton().is_some() })
		}
		_ => exec::err("parse"),
	});
	c["literal"] = guarded(|| built(Ok(RegExp::from(plain.as_str())), &id));
	c["literal_again"] = guarded(|| built(parse(&RegExp::from(plain.as_str()).to_string()), &id));
	c["rejected"] = guarded(|| match parse(c["bad"].as_str().unwrap()) {
		Ok(_) => json!({ "st": "ok", "e": "" }),
		Err(_) => exec::err("parse"),
	});
	c
}

fn layout_pattern(ty: &str, t: &str, tracked: bool) -> J {
	use treeldr_layouts::{abs, layout::DataLayout, layout::LiteralLayout, Layout};
	let text = json!({ "type": ty, "pattern": t }).to_string();
	let l = match exec::parse_text(&text, if tracked { exec::Front::Tracked } else { exec::Front::Serde }) {
		Ok(l) => l,
		Err(_) => return exec::err("parse"),
	};
	let mut b = abs::Builder::new();
	let r = l.build(&mut b).unwrap();
	let ls = b.build();
	let p = match treeldr_layouts::LayoutRegistry::get(&ls, &r) {
		Some(Layout::Literal(LiteralLayout::Id(l))) => l.pattern.clone(),
		Some(Layout::Literal(LiteralLayout::Data(DataLayout::TextString(l)))) => l.pattern.clone(),
		_ => None,
	};
	match p {
		Some(a) => auto(&a),
		None => exec::err("no pattern"),
	}
}
