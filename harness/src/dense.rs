//! Small layouts where everything may coincide: few variables, few
//! properties, components that introduce nothing, share resources or overlap.
//! What they mean is for the specification to say.
use crate::{
	ast::{Comp, Fmt, LRef, Layout, Pat},
	gen::{input_names, Gen, Sc, TLDR, XSD},
};

impl Gen {
	fn some_prop(&mut self, sc: Sc) -> Pat {
		let s = format!("p{}", self.r.below(4));
		Pat::iri(self.iri(&s, sc))
	}

	fn some_var(&mut self, vars: &[String]) -> Pat {
		if vars.is_empty() || self.r.chance(12) {
			let s = format!("a{}", self.r.below(2));
			Pat::iri(self.iri(&s, Sc::default()))
		} else {
			Pat::var(self.r.pick(vars).clone())
		}
	}

	fn some_graph(&mut self, vars: &[String], sc: Sc) -> Pat {
		match self.r.below(4) {
			0 if !vars.is_empty() => Pat::var(self.r.pick(vars).clone()),
			_ => self.graph_iri(sc),
		}
	}

	/// Quads that bind the given variables (mostly), and a few more.
	fn some_quads(&mut self, vars: &[String], bind: &[String], sc: Sc) -> Vec<Vec<Pat>> {
		let mut qs = Vec::new();
		for v in bind {
			if self.r.chance(6) {
				continue;
			}
			let mut q = vec![self.some_var(vars), self.some_prop(sc), Pat::var(v.clone())];
			match self.r.below(12) {
				0 => q.swap(0, 2),
				1 => q.swap(1, 2),
				_ => {}
			}
			if self.graphs && self.r.chance(15) {
				q.push(self.some_graph(vars, sc));
			}
			qs.push(q);
		}
		while self.r.chance(25) {
			let mut q = vec![self.some_var(vars), self.some_prop(sc), self.some_var(vars)];
			if self.r.chance(15) {
				q[1] = self.some_var(vars);
			}
			if self.graphs && self.r.chance(15) {
				q.push(self.some_graph(vars, sc));
			}
			qs.push(q);
		}
		self.r.shuffle(&mut qs);
		qs
	}

	fn some_inputs(&mut self, n: usize, vars: &[String], own: &[String]) -> Vec<Pat> {
		let mut ins: Vec<Pat> = (0..n)
			.map(|i| match own.get(i) {
				Some(v) if self.r.chance(80) => Pat::var(v.clone()),
				_ => self.some_var(vars),
			})
			.collect();
		if n > 1 && self.r.chance(30) {
			ins.reverse();
		}
		ins
	}

	pub fn dense(&mut self, depth: usize, sc: Sc, kind: Option<&str>) -> Layout {
		const LITS: &[&str] = &["id", "id", "unit", "unit", "string", "number", "boolean", "bytes"];
		let t = match kind {
			Some(k) => k,
			None if depth > 0 && self.r.chance(60) => *self.r.pick(&["record", "record", "sum", "sum", "list", "set", "tuple"]),
			None => *self.r.pick(LITS),
		};
		let mut l = Layout { t: t.into(), ..Default::default() };
		if self.r.chance(10) {
			self.header(&mut l, Sc::default());
			l.base = None;
			l.prefixes = None;
		}
		let choices: [&[&str]; 8] = [&["self"], &["self"], &["self"], &["self"], &["self", "b"], &["b", "self"], &["b"], &[]];
		let ins: &[&str] = *self.r.pick(&choices);
		let ins: Vec<String> = ins.iter().map(|s| s.to_string()).collect();
		let mut intro: Vec<String> = ["x", "y", "z"][..*self.r.pick(&[0, 0, 0, 1, 1, 2, 3])].iter().map(|s| s.to_string()).collect();
		if matches!(t, "string" | "number" | "boolean" | "bytes" | "id" | "unit") && self.r.chance(60) {
			intro.clear();
		}
		let mut vars = ins.clone();
		vars.extend(intro.clone());
		if ins != ["self"] || self.r.chance(20) {
			l.input = Some(ins.clone());
		}
		let qs = self.some_quads(&vars, &intro, sc);
		if !intro.is_empty() {
			l.intro = Some(intro.clone());
		}
		if !qs.is_empty() {
			l.dataset = Some(qs);
		}
		match t {
			"unit" => {
				if self.r.chance(60) {
					l.cst = Some(self.constant(1));
				}
			}
			"string" | "number" | "boolean" | "bytes" | "id" => {
				match t {
					"number" => l.datatype = Some(format!("{XSD}{}", self.r.pick(&["decimal", "integer", "int"]))),
					"bytes" => l.datatype = Some(format!("{XSD}{}", self.r.pick(&["hexBinary", "base64Binary"]))),
					_ => {}
				}
				if !vars.contains(&"self".to_owned()) || self.r.chance(40) || !intro.is_empty() {
					l.resource = Some(match intro.last() {
						Some(v) if self.r.chance(80) => Pat::var(v.clone()),
						_ => self.some_var(&vars),
					});
				}
			}
			"record" => {
				let n = self.r.below(4);
				let fs = (0..n)
					.map(|i| {
						let mut c = self.dense_comp(depth, sc, &vars);
						c.name = Some(["x", "y", "z"][i].into());
						if self.r.chance(30) {
							c.required = Some(true);
						}
						c
					})
					.collect();
				l.fields = Some(fs);
			}
			"sum" => {
				let n = self.r.range(1, 4);
				let vs = (0..n)
					.map(|i| {
						let mut c = self.dense_comp(depth, sc, &vars);
						c.name = Some(format!("v{i}"));
						c
					})
					.collect();
				l.variants = Some(vs);
			}
			"set" => l.item = Some(Box::new(self.dense_comp(depth, sc, &vars))),
			"tuple" => {
				let n = self.r.below(4);
				l.items = Some((0..n).map(|_| self.dense_comp(depth, sc, &vars)).collect());
			}
			_ => {
				let (h, r) = (*self.r.pick(&["head", "cur", "self"]), *self.r.pick(&["rest", "nxt"]));
				let mut vs = vars.clone();
				vs.extend([h.to_owned(), r.to_owned()]);
				let mut c = self.dense_comp(depth, sc, &vs);
				let p = self.some_prop(sc);
				c.head = (h != "head").then(|| h.to_owned());
				c.rest = (r != "rest").then(|| r.to_owned());
				if self.r.chance(18) {
					c.dataset = None;
				} else if self.r.chance(95) {
					let mut q = vec![Pat::var(h), p, Pat::var(r)];
					if self.graphs && self.r.chance(10) {
						q.push(self.some_graph(&vs, sc));
					}
					c.dataset.get_or_insert_with(Vec::new).push(q);
				}
				l.node = Some(Box::new(c));
				if !vars.contains(&"self".to_owned()) || self.r.chance(30) {
					l.head = Some(self.some_var(&vars));
				}
				if self.r.chance(40) {
					l.tail = Some(if self.r.chance(50) { self.some_var(&vars) } else { Pat::iri(self.iri("end", sc)) });
				}
			}
		}
		l
	}

	fn dense_comp(&mut self, depth: usize, sc: Sc, vars: &[String]) -> Comp {
		let own: Vec<String> = match self.r.below(9) {
			0 | 1 => vec![],
			2..=5 => vec!["value".into()],
			6 => vec!["v".into()],
			7 => vec!["value".into(), "w".into()],
			_ => vec![self.r.pick(&["self", "x", "b"]).to_string()],
		};
		let mut vs: Vec<String> = vars.iter().filter(|v| !own.contains(v)).cloned().collect();
		vs.extend(own.clone());
		let c: Vec<_> = self.named.iter().map(|n| (n.0.clone(), n.2.clone())).collect();
		let (layout, n) = if !c.is_empty() && self.r.chance(20) {
			let (id, n) = self.r.pick(&c).clone();
			(LRef::Ref { v: id }, n.len())
		} else if self.r.chance(10) {
			(LRef::Ref { v: format!("{TLDR}{}", self.r.pick(&["id", "string", "unit", "u8"])) }, 1)
		} else {
			let kind = if depth > 0 && matches!(self.focus, "graph" | "list") && self.r.chance(30) { Some(*self.r.pick(&["list", "tuple"])) } else { None };
			let l = self.dense(depth.saturating_sub(1), sc, kind);
			let n = input_names(&l).len();
			(LRef::Def { l: Box::new(l) }, n)
		};
		let mut c = Comp { value: Fmt { layout, ..Default::default() }, ..Default::default() };
		c.value.input = Some(self.some_inputs(n, &vs, &own));
		let often = if self.focus == "graph" { 60 } else { 25 };
		if self.graphs && self.r.chance(often) {
			c.value.graph = Some(if self.r.chance(30) { Pat::none() } else { self.some_graph(&vs, sc) });
		}
		let qs = self.some_quads(&vs, &own, sc);
		if !qs.is_empty() {
			c.dataset = Some(qs);
		}
		c.intro = Some(own);
		c
	}
}
