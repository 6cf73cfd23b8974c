//! Runs the real code. A panic is data: every call is caught and logged.
use crate::{
	ast::{self, Layout, Quad, Style, Term as ATerm, Val},
	proj,
};
use crate::scan::Scan;
use rdf_types::{generator, Term};
use serde_json::{json, Value as J};
use std::panic::{catch_unwind, AssertUnwindSafe};
use treeldr_layouts::{
	abs::{self, syntax::BuildError},
	distill::{de, hy},
	layout::LayoutType,
	LayoutRegistry, Layouts, Prelude, Ref,
};

/// `f`'s result, or {"st":"panic"}.
pub fn guarded(f: impl FnOnce() -> J) -> J {
	match catch_unwind(AssertUnwindSafe(f)) {
		Ok(j) => j,
		Err(e) => {
			let m = e
				.downcast_ref::<String>()
				.cloned()
				.or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
				.unwrap_or_default();
			json!({ "st": "panic", "e": "panic", "m": m })
		}
	}
}

pub fn err(e: impl Into<String>) -> J {
	json!({ "st": "err", "e": e.into() })
}

/// Which of the two JSON front ends reads the layout.
#[derive(Clone, Copy, PartialEq)]
pub enum Front {
	Serde,
	Tracked,
}

pub fn parse_text(text: &str, front: Front) -> Result<abs::syntax::Layout, String> {
	match front {
		Front::Serde => serde_json::from_str(text).map_err(|e| e.to_string()),
		Front::Tracked => {
			use json_syntax::{Parse, TryFromJson};
			let (json, map) = json_syntax::Value::parse_str(text).map_err(|e| e.to_string())?;
			abs::syntax::Layout::try_from_json(&json, &map).map_err(|e| e.to_string())
		}
	}
}

pub fn build_error(e: &BuildError) -> &'static str {
	match e {
		BuildError::NoBaseIri(_) => "NoBaseIri",
		BuildError::InvalidIri(_) => "InvalidIri",
		BuildError::UndeclaredVariable(_) => "UndeclaredVariable",
		BuildError::LayoutRedefinition => "LayoutRedefinition",
		BuildError::MissingLiteralTargetResource => "MissingLiteralTargetResource",
		BuildError::NoPropertySubject => "NoPropertySubject",
		BuildError::NoPropertyObject => "NoPropertyObject",
		BuildError::Unsupported(_) => "Unsupported",
	}
}

/// The layouts, built one after the other into one builder.
pub struct Built {
	pub layouts: Layouts,
	pub refs: Vec<Ref<LayoutType>>,
}

pub fn build(ls: &[Layout], st: Style, front: Front) -> Result<Built, J> {
	let mut out = None;
	let j = guarded(|| {
		let mut builder = abs::Builder::new();
		let mut generator = generator::Blank::new();
		let mut refs = Vec::new();
		for l in ls {
			let text = ast::layout_json(l, st).to_string();
			// json-syntax (a dependency) miscounts empty objects.
			let front = if text.contains("{}") { Front::Serde } else { front };
			let parsed = match parse_text(&text, front) {
				Ok(p) => p,
				Err(e) => return json!({ "st": "parse-err", "e": "parse", "m": e, "text": text }),
			};
			match parsed.build_with_context(&mut builder.with_generator_mut(&mut generator)) {
				Ok(r) => refs.push(r),
				Err(e) => return err(build_error(&e)),
			}
		}
		out = Some(Built { layouts: builder.build(), refs });
		json!({ "st": "ok", "e": "" })
	});
	match out {
		Some(b) => Ok(b),
		None => Err(j),
	}
}

fn key(v: &treeldr_layouts::Value) -> String {
	v.as_str().unwrap_or("?").to_owned()
}

pub fn hy_error<R>(e: &hy::Error<R>) -> String {
	fn frag<R>(f: &hy::DataFragment<R>) -> String {
		match f {
			hy::DataFragment::Discriminant(_) => "Discriminant".into(),
			hy::DataFragment::Variant { variant_name, .. } => format!("Variant/{variant_name}"),
			hy::DataFragment::Key { key: k, .. } => format!("Key/{}", key(k)),
			hy::DataFragment::OrderedListNode { .. } => "OrderedListNode".into(),
			hy::DataFragment::SizedListItem { .. } => "SizedListItem".into(),
		}
	}
	match e {
		hy::Error::IncompatibleLayout => "IncompatibleLayout".into(),
		hy::Error::InvalidInputCount { .. } => "InvalidInputCount".into(),
		hy::Error::DataAmbiguity(f) => format!("DataAmbiguity/{}", frag(f)),
		hy::Error::MissingData(f) => format!("MissingData/{}", frag(f)),
		hy::Error::UnknownNumberDatatype(_) => "UnknownNumberDatatype".into(),
		hy::Error::NoMatchingLiteral => "NoMatchingLiteral".into(),
		hy::Error::LayoutNotFound(_) => "LayoutNotFound".into(),
		#[allow(unreachable_patterns)]
		_ => "Other".into(),
	}
}

pub fn de_error<R>(e: &de::Error<R>) -> String {
	match e {
		de::Error::IncompatibleLayout => "IncompatibleLayout".into(),
		de::Error::InvalidInputCount { .. } => "InvalidInputCount".into(),
		de::Error::UndeclaredVariable(_) => "UndeclaredVariable".into(),
		de::Error::DataAmbiguity => "DataAmbiguity".into(),
		de::Error::TermAmbiguity(_) => "TermAmbiguity".into(),
		de::Error::LayoutNotFound(_) => "LayoutNotFound".into(),
		de::Error::MissingRequiredKey { key: k, .. } => format!("MissingRequiredKey/{}", key(k)),
		#[allow(unreachable_patterns)]
		_ => "Other".into(),
	}
}

pub fn hydrate(b: &Built, root: usize, dataset: &[Quad], graph: &ATerm, inputs: &[ATerm]) -> J {
	guarded(|| {
		let d: Scan = dataset.iter().map(proj::to_quad).collect();
		let g = if graph.k == "none" { None } else { Some(proj::to_term(graph)) };
		let ins: Vec<Term> = inputs.iter().map(proj::to_term).collect();
		match hy::hydrate_with(&(), &(), &b.layouts.with(Prelude), &d, g.as_ref(), &b.refs[root], &ins) {
			Ok(v) => json!({ "st": "ok", "e": "", "v": proj::typed(&v), "u": proj::value(&v.into_untyped()) }),
			Err(e) => err(hy_error(&e)),
		}
	})
}

/// The value itself, if there is one.
pub fn hydrate_typed(
	b: &Built,
	root: usize,
	dataset: &[Quad],
	graph: &ATerm,
	inputs: &[ATerm],
) -> Option<treeldr_layouts::TypedValue> {
	catch_unwind(AssertUnwindSafe(|| {
		let d: Scan = dataset.iter().map(proj::to_quad).collect();
		let g = if graph.k == "none" { None } else { Some(proj::to_term(graph)) };
		let ins: Vec<Term> = inputs.iter().map(proj::to_term).collect();
		hy::hydrate_with(&(), &(), &b.layouts.with(Prelude), &d, g.as_ref(), &b.refs[root], &ins).ok()
	}))
	.ok()
	.flatten()
}

pub fn dehydrate(b: &Built, root: usize, v: &Val) -> (J, Option<(Vec<Quad>, Vec<ATerm>)>) {
	let mut out = None;
	let j = guarded(|| {
		match de::dehydrate(b.layouts.with(Prelude), &proj::to_value(v), &b.refs[root], de::Options::default()) {
			Ok((d, ins)) => {
				let q: Vec<Quad> = d.into_iter().map(|q| proj::quad(&q)).collect();
				let ins: Vec<ATerm> = ins.iter().map(proj::term).collect();
				let j = json!({ "st": "ok", "e": "", "q": q.iter().map(proj::quad_json).collect::<Vec<_>>(), "ins": ins });
				out = Some((q, ins));
				j
			}
			Err(e) => err(de_error(&e)),
		}
	});
	(j, out)
}
