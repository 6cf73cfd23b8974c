//! What the code generator makes of layouts, read back as layouts.
use proc_macro2::TokenStream;
use serde_json::{json, Value as J};
use syn::{parse::Parser, punctuated::Punctuated, Expr, Lit, Meta, Token};
use tldr_verif::{
	ast::{layout_json, Comp, Fmt, LRef, Layout, Pat, Style},
	exec::{self, guarded, Front},
	gen::{Gen, EX},
	proj,
	rng::Rng,
};
use treeldr_gen_rust::{generate, Error, Options};
use treeldr_layouts::distill::RdfContext;

const PRELUDE: &str = "https://treeldr.org/prelude#";

/* Cases */

const NAMES: &[&str] = &[
	"thing", "Thing", "my_thing", "x#frag", "x#my__Frag", "dir/sub_x", "a_1", "a?q#Type", "a?q/r", "x#", "1bad", "self", "dir/", "has-dash", "x#y/z",
	"_", "a.b", "mod", "modA/x", "modA/sub/y", "modA/sub/deep/z_z", "modB#u",
];
const IDENTS: &[&str] = &["type", "", "two words", "Self", "_x", "has-dash", "fn", "Ok", "a1", "1a", "_"];

struct Naming<'a> {
	r: &'a mut Rng,
	n: usize,
	always: usize,
}

impl Naming<'_> {
	fn id(&mut self) -> String {
		self.n += 1;
		if self.r.chance(30) {
			let name = *self.r.pick(NAMES);
			format!("{EX}k{}/{name}", self.n)
		} else {
			let dir = *self.r.pick(&["", "modA/", "modA/sub/", "modB#"]);
			format!("{EX}{dir}T{}", self.n)
		}
	}

	fn comp(&mut self, c: &mut Comp) {
		if let LRef::Def { l } = &mut c.value.layout {
			self.layout(l);
		}
	}

	fn layout(&mut self, l: &mut Layout) {
		let named = l.id.is_some() || l.t == "always" || l.t == "never";
		if !named && self.r.chance(self.always) {
			l.id = Some(self.id());
		}
		let odd = self.r.chance(8);
		for cs in [&mut l.fields, &mut l.variants] {
			let Some(cs) = cs else { continue };
			if odd && !cs.is_empty() {
				let name = *self.r.pick(IDENTS);
				if cs.iter().all(|c| c.name.as_deref() != Some(name)) {
					let i = self.r.below(cs.len());
					cs[i].name = Some(name.to_owned());
					// How the variants of a sum are ordered.
					cs.sort_by(|a, b| a.name.cmp(&b.name));
				}
			}
		}
		for c in l.fields.iter_mut().chain(&mut l.variants).chain(&mut l.items).flatten() {
			self.comp(c);
		}
		for c in l.item.iter_mut().chain(&mut l.node) {
			self.comp(c);
		}
		// Something that fields often refer to.
		if l.t == "number" && self.r.chance(60) {
			let t = *self.r.pick(&["unsignedByte", "byte", "short", "int", "long", "unsignedShort", "unsignedInt", "unsignedLong"]);
			l.datatype = Some(format!("http://www.w3.org/2001/XMLSchema#{t}"));
		}
	}
}

pub fn case(r: &mut Rng) -> J {
	let loose = if r.chance(20) { 5 } else { 0 };
	let graphs = r.chance(40);
	let mut g = Gen::new(r.fork(), loose, graphs);
	g.dense = r.chance(40);
	let mut ls = g.registry();
	let always = if r.chance(70) { 100 } else { 80 };
	let mut n = Naming { r, n: 0, always };
	for l in &mut ls {
		n.layout(l);
	}
	let mut modules = vec![];
	for (p, m) in [(format!("{EX}modA/"), "a"), (format!("{EX}modA/sub/"), "b::c"), (format!("{EX}modB"), "d"), (EX.to_owned(), "super::e"), ("urn:".into(), "f")] {
		if r.chance(30) {
			modules.push((p, m));
		}
	}
	json!({ "op": "gen", "layouts": ls, "modules": modules })
}

/* Generation */

pub fn run(mut c: J) -> J {
	let ls: Vec<Layout> = serde_json::from_value(c["layouts"].clone()).unwrap();
	c["out"] = json!([]);
	let built = match exec::build(&ls, Style::default(), Front::Serde) {
		Ok(b) => b,
		Err(e) => {
			c["built"] = e;
			return c;
		}
	};
	c["built"] = json!({ "st": "ok", "e": "" });
	let modules: Vec<(String, String)> = serde_json::from_value(c["modules"].clone()).unwrap();
	let mut out = vec![];
	for (layout_ref, _) in &built.layouts {
		let mut o = guarded(|| {
			let mut options = Options::new();
			for (p, m) in &modules {
				options.use_module(p.clone(), syn::parse_str(m).unwrap()).unwrap();
			}
			match generate(RdfContext::default(), &built.layouts, layout_ref, &options) {
				Ok(tokens) => match read(tokens.clone()) {
					Some(t) => json!({ "st": "ok", "e": "", "type": t }),
					None => json!({ "st": "unreadable", "e": "", "tokens": tokens.to_string() }),
				},
				Err(e) => exec::err(match e {
					Error::MissingTypeIdentifier(_) => "MissingTypeIdentifier",
					Error::InvalidFieldIdent(_) => "InvalidFieldIdent",
					Error::InvalidVariantIdent(_) => "InvalidVariantIdent",
					Error::NoIriRepresentation => "NoIriRepresentation",
					_ => "UnsupportedNumberDatatype",
				}),
			}
		});
		o["id"] = json!(proj::term(layout_ref.id()));
		out.push(o);
	}
	out.sort_by_key(|o| o["id"].to_string());
	c["out"] = json!(out);
	c
}

/* The tool */

/// `tldr-rs FILES… [-l LAYOUT]`, with one layout per file.
pub fn tool_case(r: &mut Rng) -> J {
	let mut c = case(r);
	c["op"] = json!("genc");
	c.as_object_mut().unwrap().remove("modules");
	let mut ls: Vec<Layout> = serde_json::from_value(c["layouts"].clone()).unwrap();
	if r.chance(30) {
		ls.truncate(1);
	}
	for i in (1..ls.len()).rev() {
		ls.swap(i, r.below(i + 1));
	}
	if r.chance(4) {
		ls.clear();
	}
	let st = Style { one: r.chance(50), explicit: r.chance(25), wrap: r.chance(25) };
	let mut files: Vec<J> = ls.iter().map(|l| json!({ "layout": l, "text": layout_json(l, st).to_string(), "st": "ok" })).collect();
	if r.chance(12) && !files.is_empty() {
		let f = r.below(files.len());
		let f = &mut files[f];
		match r.below(3) {
			0 => f["st"] = json!("missing"),
			1 => {
				let t = f["text"].as_str().unwrap();
				let t: String = t.chars().take(r.below(t.chars().count())).collect();
				f["text"] = json!(t);
				f["st"] = json!("json");
			}
			_ => {
				f["text"] = json!(*r.pick(&["[1]", "5", "{\"type\":\"nothing\"}", "{\"type\":\"record\",\"fields\":3}", "{\"input\":[\"a\"]}"]));
				f["st"] = json!("layout");
			}
		}
	}
	let ids: Vec<String> = exec::build(&ls, Style::default(), Front::Serde)
		.ok()
		.map(|b| b.layouts.into_iter().filter_map(|(r, _)| Some(r.id().as_iri()?.as_str().to_owned())).collect())
		.unwrap_or_default();
	let layout = match r.below(12) {
		0 => "https://ex.org/unknown".to_owned(),
		1 => format!("{PRELUDE}{}", *r.pick(&["string", "u8", "id", "unit", "boolean", "nothing"])),
		2..=6 if !ids.is_empty() => r.pick(&ids).clone(),
		_ => String::new(),
	};
	c["layouts"] = json!(ls);
	c["files"] = json!(files);
	c["layout"] = json!(layout);
	c["usage"] = json!(if r.chance(3) { r.range(1, 2) } else { 0 });
	c["long"] = json!(r.chance(30));
	c
}

pub fn tool_run(mut c: J) -> J {
	use std::sync::atomic::{AtomicU64, Ordering};
	static N: AtomicU64 = AtomicU64::new(0);
	let dir = std::env::temp_dir().join(format!("tldr-rs-{}-{}", std::process::id(), N.fetch_add(1, Ordering::SeqCst)));
	std::fs::create_dir_all(&dir).unwrap();
	let mut args: Vec<String> = vec![];
	for (i, f) in c["files"].as_array().unwrap().iter().enumerate() {
		let p = dir.join(format!("l{i}.json"));
		if f["st"] != "missing" {
			std::fs::write(&p, f["text"].as_str().unwrap()).unwrap();
		}
		args.push(p.to_string_lossy().into_owned());
	}
	let layout = c["layout"].as_str().unwrap();
	if !layout.is_empty() {
		let at = if c["long"] == true { args.len() } else { 0 };
		args.insert(at, layout.to_owned());
		args.insert(at, if c["long"] == true { "--layout" } else { "-l" }.to_owned());
	}
	match c["usage"].as_u64().unwrap() {
		1 => args.push("--no-such-option".into()),
		2 => args.extend(["-l".into(), "not an iri".into()]),
		_ => {}
	}
	let o = std::process::Command::new(std::env::var("TLDR_RS_BIN").expect("TLDR_RS_BIN"))
		.args(&args)
		.current_dir(&dir)
		.env("RUST_BACKTRACE", "0")
		.stdin(std::process::Stdio::null())
		.output()
		.expect("tldr-rs");
	std::fs::remove_dir_all(&dir).unwrap();
	let rc = o.status.code().unwrap_or(-1);
	let mut res = json!({
		"st": "err", "e": "", "rc": rc, "silent": o.stdout.is_empty(), "says": !o.stderr.is_empty(),
		"err": String::from_utf8_lossy(&o.stderr).chars().take(300).collect::<String>(),
	});
	if rc == 0 {
		let tokens = String::from_utf8(o.stdout).ok().and_then(|t| t.parse().ok());
		match tokens.and_then(read) {
			Some(t) => {
				res["st"] = json!("ok");
				res["type"] = t;
			}
			None => res["st"] = json!("unreadable"),
		}
	}
	c["res"] = res;
	c
}

/* Reading types back */

/// `None` when the tokens are not those of a type that derives the
/// conversions.
fn read(tokens: TokenStream) -> Option<J> {
	let file: syn::File = syn::parse2(tokens).ok()?;
	for item in &file.items {
		return match item {
			syn::Item::Struct(s) => {
				derives(&s.attrs)?;
				read_struct(s)
			}
			syn::Item::Enum(e) => {
				derives(&e.attrs)?;
				let mut l = Layout { t: "sum".into(), ..Default::default() };
				let kind = header(&e.attrs, &mut l)?;
				if kind.is_some() {
					return None;
				}
				let mut cs = vec![];
				for v in &e.variants {
					let syn::Fields::Unnamed(f) = &v.fields else { return None };
					if f.unnamed.len() != 1 {
						return None;
					}
					let mut c = component(&v.attrs, &f.unnamed[0].ty)?;
					c.name = Some(v.ident.to_string());
					cs.push(c);
				}
				l.variants = Some(cs);
				done(&e.ident, l, "")
			}
			// Of `always` and `never`.
			syn::Item::Type(t) => Some(json!({ "name": t.ident.to_string(), "layout": { "t": "always" }, "rust": "alias" })),
			_ => None,
		};
	}
	None
}

fn done(name: &syn::Ident, mut l: Layout, rust: &str) -> Option<J> {
	l.id = Some(format!("urn:rust:{name}"));
	Some(json!({ "name": name.to_string(), "layout": l, "rust": rust }))
}

fn read_struct(s: &syn::ItemStruct) -> Option<J> {
	let mut l = Layout::default();
	let kind = header(&s.attrs, &mut l)?;
	let mut rust = String::new();
	match (&s.fields, kind.as_deref()) {
		(syn::Fields::Unit, None | Some("unit")) => l.t = "unit".into(),
		(syn::Fields::Named(f), None | Some("record")) => {
			l.t = "record".into();
			let mut cs = vec![];
			for f in &f.named {
				let (ty, required) = match wrapped(&f.ty, "Option") {
					Some(t) => (t, None),
					None => (f.ty.clone(), Some(true)),
				};
				let mut c = component(&f.attrs, &ty)?;
				c.name = Some(f.ident.as_ref()?.to_string());
				c.required = required;
				cs.push(c);
			}
			l.fields = Some(cs);
		}
		(f, Some("tuple")) => {
			l.t = "tuple".into();
			l.items = Some(f.iter().map(|f| component(&f.attrs, &f.ty)).collect::<Option<_>>()?);
		}
		(syn::Fields::Unnamed(f), Some(k)) if f.unnamed.len() == 1 => {
			let f = &f.unnamed[0];
			l.t = k.to_owned();
			match k {
				"set" => l.item = Some(Box::new(component(&f.attrs, &wrapped(&f.ty, "Vec")?)?)),
				"list" => l.node = Some(Box::new(component(&f.attrs, &wrapped(&f.ty, "Vec")?)?)),
				"boolean" | "number" | "string" | "bytes" | "id" => {
					rust = match wrapped(&f.ty, "Vec") {
						Some(t) if simple(&t)?.1 == ["u8"] => "Vec<u8>".into(),
						Some(_) => return None,
						None => {
							let t = type_ref(&f.ty)?;
							match simple(&f.ty)?.1.last()?.as_str() {
								"Id" => t,
								n => n.to_owned(),
							}
						}
					}
				}
				_ => return None,
			}
		}
		_ => return None,
	}
	done(&s.ident, l, &rust)
}

/// Both conversions are derived.
fn derives(attrs: &[syn::Attribute]) -> Option<()> {
	let mut found = vec![];
	for a in attrs.iter().filter(|a| a.path().is_ident("derive")) {
		let Meta::List(l) = &a.meta else { return None };
		let paths = Punctuated::<syn::Path, Token![,]>::parse_terminated.parse2(l.tokens.clone()).ok()?;
		found.extend(paths.iter().map(|p| p.segments.last().unwrap().ident.to_string()));
	}
	["SerializeLd", "DeserializeLd"].iter().all(|n| found.iter().any(|f| f == n)).then_some(())
}

/// The arguments of the `tldr` attributes.
fn args(attrs: &[syn::Attribute]) -> Option<Vec<Meta>> {
	let mut out = vec![];
	for a in attrs.iter().filter(|a| a.path().is_ident("tldr")) {
		let Meta::List(l) = &a.meta else { return None };
		out.extend(Punctuated::<Meta, Token![,]>::parse_terminated.parse2(l.tokens.clone()).ok()?);
	}
	Some(out)
}

fn exprs(t: &TokenStream) -> Option<Vec<Expr>> {
	Some(Punctuated::<Expr, Token![,]>::parse_terminated.parse2(t.clone()).ok()?.into_iter().collect())
}

fn string(e: &Expr) -> Option<String> {
	match e {
		Expr::Lit(syn::ExprLit { lit: Lit::Str(s), .. }) => Some(s.value()),
		_ => None,
	}
}

fn pattern(e: &Expr) -> Option<Pat> {
	let s = string(e)?;
	Some(match s.strip_prefix("_:") {
		Some(v) => Pat::var(v),
		None => Pat::iri(s),
	})
}

fn strings(t: &TokenStream) -> Option<Vec<String>> {
	exprs(t)?.iter().map(string).collect()
}

fn quads(t: &TokenStream) -> Option<Vec<Vec<Pat>>> {
	exprs(t)?
		.iter()
		.map(|e| match e {
			Expr::Tuple(t) if t.elems.len() == 3 || t.elems.len() == 4 => t.elems.iter().map(pattern).collect(),
			_ => None,
		})
		.collect()
}

/// The kind, when it is written.
fn header(attrs: &[syn::Attribute], l: &mut Layout) -> Option<Option<String>> {
	let mut kind = None;
	for m in args(attrs)? {
		let name = m.path().get_ident()?.to_string();
		match (&m, name.as_str()) {
			(Meta::Path(_), _) => kind = Some(name),
			(Meta::List(a), "input") => l.input = Some(strings(&a.tokens)?),
			(Meta::List(a), "intro") => l.intro = Some(strings(&a.tokens)?),
			(Meta::List(a), "dataset") => l.dataset = Some(quads(&a.tokens)?),
			(Meta::List(a), "datatype") => l.datatype = Some(strings(&a.tokens)?.pop()?),
			(Meta::List(a), "resource") => l.resource = Some(pattern(&exprs(&a.tokens)?.pop()?)?),
			(Meta::List(a), "head") => l.head = Some(pattern(&exprs(&a.tokens)?.pop()?)?),
			(Meta::List(a), "tail") => l.tail = Some(pattern(&exprs(&a.tokens)?.pop()?)?),
			_ => return None,
		}
	}
	Some(kind)
}

fn component(attrs: &[syn::Attribute], ty: &syn::Type) -> Option<Comp> {
	let mut c = Comp { value: Fmt { layout: LRef::Ref { v: type_ref(ty)? }, ..Default::default() }, ..Default::default() };
	for m in args(attrs)? {
		let name = m.path().get_ident()?.to_string();
		let Meta::List(a) = &m else { return None };
		match name.as_str() {
			"intro" => c.intro = Some(strings(&a.tokens)?),
			"dataset" => c.dataset = Some(quads(&a.tokens)?),
			"property" => c.property = Some(pattern(&exprs(&a.tokens)?.pop()?)?),
			"head" => c.head = Some(strings(&a.tokens)?.pop()?),
			"rest" => c.rest = Some(strings(&a.tokens)?.pop()?),
			"input" => c.value.input = Some(exprs(&a.tokens)?.iter().map(pattern).collect::<Option<_>>()?),
			"graph" => {
				c.value.graph = match &exprs(&a.tokens)?.pop()? {
					Expr::Infer(_) => None,
					Expr::Path(p) if p.path.is_ident("None") => Some(Pat::none()),
					Expr::Call(f) if f.args.len() == 1 && matches!(&*f.func, Expr::Path(p) if p.path.is_ident("Some")) => Some(pattern(&f.args[0])?),
					e => Some(pattern(e)?),
				}
			}
			_ => return None,
		}
	}
	Some(c)
}

/// The segments of a path without arguments, and whether it is absolute.
fn simple(t: &syn::Type) -> Option<(bool, Vec<String>)> {
	let syn::Type::Path(p) = t else { return None };
	if p.qself.is_some() || p.path.segments.iter().any(|s| !s.arguments.is_empty()) {
		return None;
	}
	Some((p.path.leading_colon.is_some(), p.path.segments.iter().map(|s| s.ident.to_string()).collect()))
}

/// `T` in `NAME<T>`.
fn wrapped(t: &syn::Type, name: &str) -> Option<syn::Type> {
	let syn::Type::Path(p) = t else { return None };
	let s = p.path.segments.last()?;
	if s.ident != name {
		return None;
	}
	let syn::PathArguments::AngleBracketed(a) = &s.arguments else { return None };
	match (a.args.len(), a.args.first()) {
		(1, Some(syn::GenericArgument::Type(t))) => Some(t.clone()),
		_ => None,
	}
}

/// How the type of a field is recorded: the IRI of its layout.
fn type_ref(t: &syn::Type) -> Option<String> {
	if matches!(t, syn::Type::Tuple(t) if t.elems.is_empty()) {
		return Some(format!("{PRELUDE}unit"));
	}
	let (_, path) = simple(t)?;
	let path: Vec<&str> = path.iter().map(String::as_str).collect();
	Some(match *path.as_slice() {
		["bool"] => format!("{PRELUDE}boolean"),
		["String"] | [.., "string", "String"] => format!("{PRELUDE}string"),
		[n @ ("u8" | "u16" | "u32" | "u64" | "i8" | "i16" | "i32" | "i64")] => format!("{PRELUDE}{n}"),
		["treeldr", "rdf_types", "Id"] => format!("{PRELUDE}id"),
		_ => {
			let (name, module) = path.split_last()?;
			let module = module.join("::");
			format!("urn:rust:{module}{}{name}", if module.is_empty() { "" } else { "/" })
		}
	})
}
