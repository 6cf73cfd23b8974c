//! Projections between the real types and the encodings of the specification.
use crate::ast::{Pat, Quad, Term as ATerm, Val};
use iref::IriBuf;
use num_bigint::BigInt;
use num_rational::BigRational;
use num_traits::{Signed, Zero};
use rdf_types::{BlankIdBuf, Id, LiteralType, Term};
use serde_json::{json, Value as J};
use treeldr_layouts::{value::Number, Literal, TypedLiteral, TypedValue, Value};

pub fn term(t: &Term) -> ATerm {
	match t {
		Term::Id(Id::Iri(i)) => Pat::new("iri", i.as_str(), ""),
		Term::Id(Id::Blank(b)) => Pat::new("blank", b.as_str(), ""),
		Term::Literal(l) => match &l.type_ {
			LiteralType::Any(i) => Pat::new("lit", l.value.as_str(), i.as_str()),
			LiteralType::LangString(t) => Pat::new("lang", l.value.as_str(), t.to_string()),
		},
	}
}

pub fn to_term(t: &ATerm) -> Term {
	match t.k.as_str() {
		"iri" => Term::Id(Id::Iri(IriBuf::new(t.v.clone()).unwrap())),
		"blank" => Term::Id(Id::Blank(BlankIdBuf::new(t.v.clone()).unwrap())),
		"lit" => Term::Literal(rdf_types::Literal::new(
			t.v.clone(),
			LiteralType::Any(IriBuf::new(t.t.clone()).unwrap()),
		)),
		"lang" => Term::Literal(rdf_types::Literal::new(
			t.v.clone(),
			LiteralType::LangString(langtag::LangTagBuf::new(t.t.clone()).unwrap()),
		)),
		k => panic!("not a term: {k}"),
	}
}

pub fn quad(q: &rdf_types::Quad) -> Quad {
	[term(&q.0), term(&q.1), term(&q.2), q.3.as_ref().map(term).unwrap_or_else(Pat::none)]
}

pub fn to_quad(q: &Quad) -> rdf_types::Quad {
	rdf_types::Quad(
		to_term(&q[0]),
		to_term(&q[1]),
		to_term(&q[2]),
		if q[3].k == "none" { None } else { Some(to_term(&q[3])) },
	)
}

pub fn quad_json(q: &Quad) -> J {
	json!({ "s": q[0], "p": q[1], "o": q[2], "g": q[3] })
}

/// The canonical numeral of a rational: a decimal when there is one.
pub fn rational(r: &BigRational) -> String {
	let two: BigInt = 2.into();
	let five: BigInt = 5.into();
	let ten: BigInt = 10.into();
	let mut d = r.denom().clone();
	let mut k = 0u32;
	// Smallest k with denom | 10^k, if any.
	let mut p = BigInt::from(1);
	while (&d % &two).is_zero() {
		d /= &two;
	}
	while (&d % &five).is_zero() {
		d /= &five;
	}
	if d != BigInt::from(1) {
		return format!("{}/{}", r.numer(), r.denom());
	}
	while !(&p % r.denom()).is_zero() {
		p *= &ten;
		k += 1;
	}
	let n = (r.numer() * (&p / r.denom())).abs().to_string();
	let n = if n.len() <= k as usize { format!("{}{}", "0".repeat(k as usize + 1 - n.len()), n) } else { n };
	let (i, f) = n.split_at(n.len() - k as usize);
	let sign = if r.is_negative() { "-" } else { "" };
	if f.is_empty() {
		format!("{sign}{i}")
	} else {
		format!("{sign}{i}.{f}")
	}
}

/// The rational denoted by a canonical numeral ("12", "-0.5", "1/3").
pub fn to_rational(s: &str) -> BigRational {
	if let Some((n, d)) = s.split_once('/') {
		return BigRational::new(n.parse().unwrap(), d.parse().unwrap());
	}
	let neg = s.starts_with('-');
	let u = s.trim_start_matches(['-', '+']);
	let (i, f) = u.split_once('.').unwrap_or((u, ""));
	let n: BigInt = format!("{i}{f}").parse().unwrap();
	let mut d = BigInt::from(1);
	for _ in 0..f.len() {
		d *= 10;
	}
	let r = BigRational::new(n, d);
	if neg {
		-r
	} else {
		r
	}
}

pub fn hex(b: &[u8]) -> String {
	b.iter().map(|b| format!("{b:02x}")).collect()
}

pub fn unhex(s: &str) -> Vec<u8> {
	(0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

pub fn value(v: &Value) -> Val {
	match v {
		Value::Literal(l) => match l {
			Literal::Unit => Val::unit(),
			Literal::Boolean(b) => Val::sc("bool", b.to_string()),
			Literal::Number(n) => Val::sc("num", rational(n.as_big_rational())),
			Literal::ByteString(b) => Val::sc("bytes", hex(b)),
			Literal::TextString(s) => Val::str(s.as_str()),
		},
		Value::List(l) => Val::list(l.iter().map(value).collect()),
		Value::Map(m) => {
			let mut r = Val { k: "map".into(), ..Default::default() };
			for (k, v) in m {
				r.c.push(value(k));
				r.c.push(value(v));
			}
			r
		}
	}
}

pub fn to_value(v: &Val) -> Value {
	match v.k.as_str() {
		"unit" => Value::unit(),
		"bool" => Value::Literal(Literal::Boolean(v.s == "true")),
		"num" => Value::Literal(Literal::Number(Number::new(to_rational(&v.s)))),
		"bytes" => Value::Literal(Literal::ByteString(unhex(&v.s))),
		"str" => Value::string(v.s.clone()),
		"list" => Value::List(v.c.iter().map(to_value).collect()),
		"map" => Value::Map(v.c.chunks(2).map(|kv| (to_value(&kv[0]), to_value(&kv[1]))).collect()),
		k => panic!("not a value: {k}"),
	}
}

fn tnode(k: &str, s: impl Into<String>, c: Vec<J>, l: ATerm) -> J {
	json!({ "k": k, "s": s.into(), "c": c, "l": l })
}

fn untyped_node(v: &Val) -> J {
	tnode(&v.k, v.s.as_str(), v.c.iter().map(untyped_node).collect(), Pat::none())
}

pub fn typed(v: &TypedValue) -> J {
	typed_with(v, &term)
}

pub fn typed_with<R>(v: &TypedValue<R>, n: F<R>) -> J {
	match v {
		TypedValue::Literal(l) => match l {
			TypedLiteral::Unit(v, r) => {
				// The constant, and the layout.
				let u = untyped_node(&value(v));
				json!({ "k": format!("unit:{}", u["k"].as_str().unwrap()), "s": u["s"], "c": u["c"], "l": n(r.id()) })
			}
			TypedLiteral::Boolean(b, r) => tnode("bool", b.to_string(), vec![], n(r.id())),
			TypedLiteral::Number(x, r) => tnode("num", rational(x.as_big_rational()), vec![], n(r.id())),
			TypedLiteral::ByteString(b, r) => tnode("bytes", hex(b), vec![], n(r.id())),
			TypedLiteral::TextString(s, r) => tnode("str", s.as_str(), vec![], n(r.id())),
			TypedLiteral::Id(s, r) => tnode("id", s.as_str(), vec![], n(r.id())),
		},
		TypedValue::Variant(v, r, i) => tnode("variant", i.to_string(), vec![typed_with(v, n)], n(r.id())),
		TypedValue::Map(m, r) => {
			let mut c = Vec::new();
			for (k, v) in m {
				c.push(untyped_node(&value(k)));
				c.push(typed_with(v, n));
			}
			tnode("map", "", c, n(r.id()))
		}
		TypedValue::List(l, r) => tnode("list", "", l.iter().map(|v| typed_with(v, n)).collect(), n(r.id())),
		TypedValue::Always(v) => {
			let u = untyped_node(&value(v));
			tnode("always", "", vec![u], Pat::none())
		}
	}
}

/* Compiled layouts */

use rdf_types::dataset::TraversableDataset;
use treeldr_layouts::{
	layout::{DataLayout, ListLayout, LiteralLayout},
	Dataset, Layout, Layouts, Pattern, ValueFormat,
};

type F<'a, R> = &'a dyn Fn(&R) -> ATerm;

pub fn pattern<R>(f: F<R>, p: &Pattern<R>) -> J {
	match p {
		Pattern::Var(x) => json!({ "var": true, "x": x + 1, "r": Pat::new("unb", "", "") }),
		Pattern::Resource(r) => json!({ "var": false, "x": 0, "r": f(r) }),
	}
}

fn none_pattern() -> J {
	json!({ "var": false, "x": 0, "r": Pat::none() })
}

fn dataset<R>(f: F<R>, d: &Dataset<R>) -> J {
	J::Array(
		d.quads()
			.map(|q| {
				json!({
					"s": pattern(f, q.0), "p": pattern(f, q.1), "o": pattern(f, q.2),
					"hasg": q.3.is_some(), "g": q.3.map(|g| pattern(f, g)).unwrap_or_else(none_pattern)
				})
			})
			.collect(),
	)
}

fn comp<R>(n: F<R>, name: &str, intro: u32, f: &ValueFormat<R>, ds: &Dataset<R>, req: bool) -> J {
	json!({
		"name": name, "intro": intro, "layout": n(f.layout.id()),
		"input": f.input.iter().map(|p| pattern(n, p)).collect::<Vec<_>>(),
		"hasgraph": f.graph.is_some(),
		"graph": f.graph.as_ref().and_then(|g| g.as_ref()).map(|g| pattern(n, g)).unwrap_or_else(none_pattern),
		"ds": dataset(n, ds), "req": req
	})
}

fn hdr<R>(n: F<R>, kind: &str, input: u32, intro: u32, ds: &Dataset<R>, more: J) -> J {
	let mut o = json!({ "kind": kind, "nin": input, "nintro": intro, "ds": dataset(n, ds) });
	for (k, v) in more.as_object().unwrap() {
		o[k] = v.clone();
	}
	o
}

fn dt<R>(n: F<R>, t: &R) -> String {
	let t = n(t);
	if t.k == "iri" {
		t.v
	} else {
		"?".into()
	}
}

pub fn layout(l: &Layout) -> J {
	layout_with(l, &term)
}

pub fn layout_with<R: Ord>(l: &Layout<R>, n: F<R>) -> J {
	let mut j = layout_body(l, n);
	if j["kind"] != "never" && j["kind"] != "always" {
		j["ext"] = l.extra_properties().iter().map(|(k, v)| json!([n(k), n(v)])).collect();
	}
	j
}

fn layout_body<R: Ord>(l: &Layout<R>, n: F<R>) -> J {
	match l {
		Layout::Never => json!({ "kind": "never" }),
		Layout::Always => json!({ "kind": "always" }),
		Layout::Literal(LiteralLayout::Id(l)) => {
			hdr(n, "id", l.input, l.intro, &l.dataset, json!({ "res": pattern(n, &l.resource), "dt": "" }))
		}
		Layout::Literal(LiteralLayout::Data(l)) => match l {
			DataLayout::Unit(l) => {
				hdr(n, "unit", l.input, l.intro, &l.dataset, json!({ "cst": value(&l.const_) }))
			}
			DataLayout::Boolean(l) => hdr(
				n, "boolean",
				l.input,
				l.intro,
				&l.dataset,
				json!({ "res": pattern(n, &l.resource), "dt": dt(n, &l.datatype) }),
			),
			DataLayout::Number(l) => {
				hdr(n, "number", l.input, l.intro, &l.dataset, json!({ "res": pattern(n, &l.resource), "dt": dt(n, &l.datatype) }))
			}
			DataLayout::ByteString(l) => {
				hdr(n, "bytes", l.input, l.intro, &l.dataset, json!({ "res": pattern(n, &l.resource), "dt": dt(n, &l.datatype) }))
			}
			DataLayout::TextString(l) => {
				hdr(n, "string", l.input, l.intro, &l.dataset, json!({ "res": pattern(n, &l.resource), "dt": dt(n, &l.datatype) }))
			}
		},
		Layout::Product(l) => hdr(
			n, "record",
			l.input,
			l.intro,
			&l.dataset,
			json!({ "comps": l.fields.iter().map(|(k, f)| {
				comp(n, k.as_str().unwrap_or("?"), f.intro, &f.value, &f.dataset, f.required)
			}).collect::<Vec<_>>() }),
		),
		Layout::Sum(l) => hdr(
			n, "sum",
			l.input,
			l.intro,
			&l.dataset,
			json!({ "comps": l.variants.iter().map(|f| comp(n, &f.name, f.intro, &f.value, &f.dataset, false)).collect::<Vec<_>>() }),
		),
		Layout::List(ListLayout::Unordered(l)) => hdr(
			n, "set",
			l.input,
			l.intro,
			&l.dataset,
			json!({ "comps": [comp(n, "", l.item.intro, &l.item.value, &l.item.dataset, false)] }),
		),
		Layout::List(ListLayout::Sized(l)) => hdr(
			n, "tuple",
			l.input,
			l.intro,
			&l.dataset,
			json!({ "comps": l.items.iter().map(|i| comp(n, "", i.intro, &i.value, &i.dataset, false)).collect::<Vec<_>>() }),
		),
		Layout::List(ListLayout::Ordered(l)) => hdr(
			n, "list",
			l.input,
			l.intro,
			&l.dataset,
			json!({ "comps": [comp(n, "", l.node.intro, &l.node.value, &l.node.dataset, false)],
				"head": pattern(n, &l.head), "tail": pattern(n, &l.tail) }),
		),
	}
}

pub fn registry(ls: &Layouts) -> J {
	registry_with(ls, &term)
}

pub fn registry_with<R: Ord>(ls: &Layouts<R>, n: F<R>) -> J {
	J::Array(ls.iter().map(|(id, l)| json!({ "id": n(id.id()), "lay": layout_with(l, n) })).collect())
}

/// What the layouts of a collection say about themselves, and whether their
/// serialized form can be read back.
pub fn facts(ls: &Layouts) -> J {
	J::Array(
		ls.iter()
			.map(|(id, l)| {
				let deps = l.dependencies();
				let mut visits = Vec::new();
				l.visit_dependencies(|r| visits.push(term(r.id())));
				let again = serde_cbor::to_vec(l).map_err(|e| e.to_string()).and_then(|s| {
					let b: Layout = serde_cbor::from_slice(&s).map_err(|e| e.to_string())?;
					Ok(b == *l && b.cmp(l).is_eq() && layout(&b) == layout(l))
				});
				json!({
					"id": term(id.id()),
					"nin": l.input_count().into_iter().collect::<Vec<_>>(),
					"deps": deps.iter().map(|r| term(r.id())).collect::<Vec<_>>(),
					"sorted": deps.windows(2).all(|w| w[0] < w[1]),
					"visits": visits,
					"again": match again { Ok(true) => "ok".to_owned(), Ok(false) => "differs".into(), Err(e) => e },
				})
			})
			.collect(),
	)
}
