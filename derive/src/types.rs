// Written by tools/derive_gen.py.
#![allow(dead_code, unused_mut, clippy::all)]
use super::*;

#[derive(SerializeLd, DeserializeLd)]
#[tldr(id)]
#[tldr(prefix("ex" = "https://ex.org/"), resource("_:self"), base("https://ex.org/"))]
pub struct T0(rdf_types::Id);
impl treeldr::AsId for T0 {
	fn as_id(&self) -> rdf_types::Id<&iref::Iri, &rdf_types::BlankId> { self.0.as_lexical_id_ref() }
}
impl Model for T0 {
	fn arb(r: &mut Rng) -> Val { <rdf_types::Id>::arb(r) }
	fn make(v: &Val) -> Self { Self(<rdf_types::Id>::make(v)) }
	fn show(&self) -> Val { self.0.show() }
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(input(), unit)]
pub struct T1;
impl Model for T1 {
	fn arb(_: &mut Rng) -> Val { Val::unit() }
	fn make(_: &Val) -> Self { Self }
	fn show(&self) -> Val { Val::unit() }
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(boolean, base("https://ex.org/doc"), resource("_:self"), prefix("ex" = "https://ex.org/"))]
pub struct T2(bool);
impl Model for T2 {
	fn arb(r: &mut Rng) -> Val { <bool>::arb(r) }
	fn make(v: &Val) -> Self { Self(<bool>::make(v)) }
	fn show(&self) -> Val { self.0.show() }
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(boolean, resource("_:value"), dataset(("_:self", "https://ex.org/p2", "_:value", "https://ex.org/g1")), intro("value"), input("self"), prefix("ex" = "https://ex.org/a/"), datatype("http://www.w3.org/2001/XMLSchema#boolean"))]
pub struct T3(bool);
impl Model for T3 {
	fn arb(r: &mut Rng) -> Val { <bool>::arb(r) }
	fn make(v: &Val) -> Self { Self(<bool>::make(v)) }
	fn show(&self) -> Val { self.0.show() }
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(intro("i", "j"), prefix("ex" = "https://ex.org/"), string, dataset(("_:self", "https://ex.org/T4/p1", "_:i", "_:self"), ("_:self", "https://ex.org/T4/p2", "_:j")))]
pub struct T4(String);
impl Model for T4 {
	fn arb(r: &mut Rng) -> Val { <String>::arb(r) }
	fn make(v: &Val) -> Self { Self(<String>::make(v)) }
	fn show(&self) -> Val { self.0.show() }
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(base("https://ex.org/doc"), string, dataset(("_:self", "T5/is", "c0")), datatype("dt"))]
pub struct T5(String);
impl Model for T5 {
	fn arb(r: &mut Rng) -> Val { <String>::arb(r) }
	fn make(v: &Val) -> Self { Self(<String>::make(v)) }
	fn show(&self) -> Val { self.0.show() }
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(bytes, prefix("e" = "https://ex.org/"), resource("_:self"), datatype("http://www.w3.org/2001/XMLSchema#hexBinary"))]
pub struct T6(Hex);
impl Model for T6 {
	fn arb(r: &mut Rng) -> Val { <Hex>::arb(r) }
	fn make(v: &Val) -> Self { Self(<Hex>::make(v)) }
	fn show(&self) -> Val { self.0.show() }
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(number, prefix("ex" = "https://ex.org/a/"), datatype("http://www.w3.org/2001/XMLSchema#byte"), input("self"))]
pub struct T7(i8);
impl Model for T7 {
	fn arb(r: &mut Rng) -> Val { <i8>::arb(r) }
	fn make(v: &Val) -> Self { Self(<i8>::make(v)) }
	fn show(&self) -> Val { self.0.show() }
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(number, datatype("http://www.w3.org/2001/XMLSchema#long"), intro("value"), dataset(("_:self", "https://ex.org/T8/p1", "_:value")), prefix("ex" = "https://ex.org/a/"))]
pub struct T8(i64);
impl Model for T8 {
	fn arb(r: &mut Rng) -> Val { <i64>::arb(r) }
	fn make(v: &Val) -> Self { Self(<i64>::make(v)) }
	fn show(&self) -> Val { self.0.show() }
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(input("other", "self"))]
#[tldr(intro("i", "j"), number, prefix("e" = "https://ex.org/"), dataset(("_:self", "e:T9/p1", "_:i"), ("_:j", "e:T9/p2", "_:i", "e:g0"), ("_:j", "e:T9/is", "https://ex.org/c2")), datatype("http://www.w3.org/2001/XMLSchema#unsignedByte"))]
pub struct T9(u8);
impl Model for T9 {
	fn arb(r: &mut Rng) -> Val { <u8>::arb(r) }
	fn make(v: &Val) -> Self { Self(<u8>::make(v)) }
	fn show(&self) -> Val { self.0.show() }
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(id)]
#[tldr(dataset(("_:self", "https://ex.org/p1", "_:i")), prefix("ex" = "https://ex.org/"), intro("i"))]
pub struct T10(rdf_types::Id);
impl treeldr::AsId for T10 {
	fn as_id(&self) -> rdf_types::Id<&iref::Iri, &rdf_types::BlankId> { self.0.as_lexical_id_ref() }
}
impl Model for T10 {
	fn arb(r: &mut Rng) -> Val { <rdf_types::Id>::arb(r) }
	fn make(v: &Val) -> Self { Self(<rdf_types::Id>::make(v)) }
	fn show(&self) -> Val { self.0.show() }
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(prefix("ex" = "https://ex.org/"), intro("i", "j"), dataset(("_:self", "https://ex.org/T11/p1", "_:i"), ("_:self", "ex:T11/p2", "_:j", "ex:g0")), unit)]
pub struct T11;
impl Model for T11 {
	fn arb(_: &mut Rng) -> Val { Val::unit() }
	fn make(_: &Val) -> Self { Self }
	fn show(&self) -> Val { Val::unit() }
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(boolean, resource("_:self"), prefix("e" = "https://ex.org/"), input("self"))]
pub struct T12(bool);
impl Model for T12 {
	fn arb(r: &mut Rng) -> Val { <bool>::arb(r) }
	fn make(v: &Val) -> Self { Self(<bool>::make(v)) }
	fn show(&self) -> Val { self.0.show() }
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(boolean, datatype("http://www.w3.org/2001/XMLSchema#boolean"), input("self"), prefix("e" = "https://ex.org/"))]
pub struct T13(bool);
impl Model for T13 {
	fn arb(r: &mut Rng) -> Val { <bool>::arb(r) }
	fn make(v: &Val) -> Self { Self(<bool>::make(v)) }
	fn show(&self) -> Val { self.0.show() }
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(input("self"), prefix("ex" = "https://ex.org/"), string, resource("_:self"))]
pub struct T14(String);
impl Model for T14 {
	fn arb(r: &mut Rng) -> Val { <String>::arb(r) }
	fn make(v: &Val) -> Self { Self(<String>::make(v)) }
	fn show(&self) -> Val { self.0.show() }
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(string)]
#[tldr(dataset(("_:other", "https://ex.org/T15/is", "https://ex.org/c2")), input("self", "other"), datatype("https://ex.org/dt"))]
pub struct T15(String);
impl Model for T15 {
	fn arb(r: &mut Rng) -> Val { <String>::arb(r) }
	fn make(v: &Val) -> Self { Self(<String>::make(v)) }
	fn show(&self) -> Val { self.0.show() }
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(prefix("ex" = "https://ex.org/a/"), datatype("http://www.w3.org/2001/XMLSchema#hexBinary"), bytes, input("x", "y"))]
pub struct T16(Hex);
impl Model for T16 {
	fn arb(r: &mut Rng) -> Val { <Hex>::arb(r) }
	fn make(v: &Val) -> Self { Self(<Hex>::make(v)) }
	fn show(&self) -> Val { self.0.show() }
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(number, prefix("ex" = "https://ex.org/"), datatype("http://www.w3.org/2001/XMLSchema#int"), input("self"))]
pub struct T17(i32);
impl Model for T17 {
	fn arb(r: &mut Rng) -> Val { <i32>::arb(r) }
	fn make(v: &Val) -> Self { Self(<i32>::make(v)) }
	fn show(&self) -> Val { self.0.show() }
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(prefix("ex" = "https://ex.org/a/"))]
#[tldr(base("https://ex.org/"), datatype("http://www.w3.org/2001/XMLSchema#long"), number)]
pub struct T18(i64);
impl Model for T18 {
	fn arb(r: &mut Rng) -> Val { <i64>::arb(r) }
	fn make(v: &Val) -> Self { Self(<i64>::make(v)) }
	fn show(&self) -> Val { self.0.show() }
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(number)]
#[tldr(datatype("http://www.w3.org/2001/XMLSchema#byte"), input("x", "y"), dataset(("_:x", "https://ex.org/T19/is", "https://ex.org/c0")), prefix("ex" = "https://ex.org/a/"))]
pub struct T19(i8);
impl Model for T19 {
	fn arb(r: &mut Rng) -> Val { <i8>::arb(r) }
	fn make(v: &Val) -> Self { Self(<i8>::make(v)) }
	fn show(&self) -> Val { self.0.show() }
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(intro("value"), dataset(("_:value", "https://ex.org/T20/p1", "_:self")))]
pub struct T20 {
	#[tldr("https://ex.org/T20/p2", graph(Some("https://ex.org/g0")))] pub foo: Option<T13>,
	#[tldr("https://ex.org/T20/p3")] #[tldr(graph(Some("https://ex.org/g1")))] pub bar: Option<i64>,
	#[tldr("https://ex.org/T20/p4")] pub baz: Option<String>,
	#[tldr(dataset(("_:self", "https://ex.org/T20/p5", "_:value", "_:self")), input("_:value"))] pub qux: T8,
}
impl Model for T20 {
	fn arb(r: &mut Rng) -> Val {
		let _ = &r;
		let mut m = Vec::new();
		if r.chance(60) { m.push(("foo".to_string(), <T13>::arb(r))); }
		if r.chance(60) { m.push(("bar".to_string(), <i64>::arb(r))); }
		if r.chance(60) { m.push(("baz".to_string(), <String>::arb(r))); }
		m.push(("qux".to_string(), <T8>::arb(r)));
		Val::map(m)
	}
	fn make(v: &Val) -> Self {
		let _ = v;
		Self { foo: field(v, "foo").map(|v| <T13>::make(v)), bar: field(v, "bar").map(|v| <i64>::make(v)), baz: field(v, "baz").map(|v| <String>::make(v)), qux: field(v, "qux").map(|v| <T8>::make(v)).unwrap() }
	}
	fn show(&self) -> Val {
		let mut m = Vec::new();
		if let Some(x) = &self.foo { m.push(("foo".to_string(), x.show())); }
		if let Some(x) = &self.bar { m.push(("bar".to_string(), x.show())); }
		if let Some(x) = &self.baz { m.push(("baz".to_string(), x.show())); }
		m.push(("qux".to_string(), self.qux.show()));
		Val::map(m)
	}
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(base("https://ex.org/"))]
#[tldr(prefix("ex" = "https://ex.org/"), dataset(("_:self", "T21/is", "https://ex.org/c0")))]
pub enum T21 {
	Foo(String),
}
impl Model for T21 {
	fn arb(r: &mut Rng) -> Val {
		match r.below(1) { 0 => variant("Foo", <String>::arb(r)), _ => unreachable!() }
	}
	fn make(v: &Val) -> Self {
		match v.s.as_str() { "Foo" => Self::Foo(<String>::make(&v.c[0])), _ => unreachable!() }
	}
	fn show(&self) -> Val {
		match self { Self::Foo(x) => variant("Foo", x.show()), }
	}
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(set, prefix("ex" = "https://ex.org/a/"))]
pub struct T22(#[tldr(input("_:self"), intro("self"), dataset(("https://ex.org/c1", "https://ex.org/T22/p1", "_:self")), graph(_))] Vec<u16>);
impl Model for T22 {
	fn arb(r: &mut Rng) -> Val { let n = len(r); Val::list((0..n).map(|_| <u16>::arb(r)).collect()) }
	fn make(v: &Val) -> Self { Self(v.c.iter().map(|v| <u16>::make(v)).collect()) }
	fn show(&self) -> Val { Val::list(self.0.iter().map(|x| x.show()).collect()) }
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(dataset(("_:self", "T23/p1", "_:i", "https://ex.org/g1"), ("_:self", "T23/p2", "_:j")))]
#[tldr(base("https://ex.org/"), list, intro("i", "j"))]
pub struct T23(#[tldr(rest("next"))] #[tldr(input("_:value"), dataset(("_:head", "T23/p3", "_:next"), ("_:head", "T23/p4", "_:value")))] Vec<i64>);
impl Model for T23 {
	fn arb(r: &mut Rng) -> Val { let n = len(r); Val::list((0..n).map(|_| <i64>::arb(r)).collect()) }
	fn make(v: &Val) -> Self { Self(v.c.iter().map(|v| <i64>::make(v)).collect()) }
	fn show(&self) -> Val { Val::list(self.0.iter().map(|x| x.show()).collect()) }
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(intro("i", "j"), dataset(("_:self", "e:T24/p1", "_:i"), ("_:j", "https://ex.org/T24/p2", "_:i", "e:g0")), prefix("e" = "https://ex.org/"), tuple)]
pub struct T24(#[tldr(intro(), graph(None), input("_:j"))] ());
impl Model for T24 {
	fn arb(r: &mut Rng) -> Val { Val::list(vec![<()>::arb(r)]) }
	fn make(v: &Val) -> Self { Self(<()>::make(&v.c[0])) }
	fn show(&self) -> Val { Val::list(vec![self.0.show()]) }
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(record, base("https://ex.org/doc"))]
pub struct T25 {
	#[tldr("p1")] pub foo: T8,
}
impl Model for T25 {
	fn arb(r: &mut Rng) -> Val {
		let _ = &r;
		let mut m = Vec::new();
		m.push(("foo".to_string(), <T8>::arb(r)));
		Val::map(m)
	}
	fn make(v: &Val) -> Self {
		let _ = v;
		Self { foo: field(v, "foo").map(|v| <T8>::make(v)).unwrap() }
	}
	fn show(&self) -> Val {
		let mut m = Vec::new();
		m.push(("foo".to_string(), self.foo.show()));
		Val::map(m)
	}
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(base("https://ex.org/"))]
#[tldr(input("self", "other"))]
pub enum T26 {
	#[tldr(graph(Some("g1")), dataset(("_:self", "T26/p1", "c2")))] A0(T22),
}
impl Model for T26 {
	fn arb(r: &mut Rng) -> Val {
		match r.below(1) { 0 => variant("A0", <T22>::arb(r)), _ => unreachable!() }
	}
	fn make(v: &Val) -> Self {
		match v.s.as_str() { "A0" => Self::A0(<T22>::make(&v.c[0])), _ => unreachable!() }
	}
	fn show(&self) -> Val {
		match self { Self::A0(x) => variant("A0", x.show()), }
	}
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(input("self", "other"), base("https://ex.org/doc"), prefix("e" = "https://ex.org/"), set)]
pub struct T27(#[tldr(graph(Some("g1")), dataset(("_:self", "e:T27/p1", "_:value")))] Vec<T21>);
impl Model for T27 {
	fn arb(r: &mut Rng) -> Val { let n = len(r); Val::list((0..n).map(|_| <T21>::arb(r)).collect()) }
	fn make(v: &Val) -> Self { Self(v.c.iter().map(|v| <T21>::make(v)).collect()) }
	fn show(&self) -> Val { Val::list(self.0.iter().map(|x| x.show()).collect()) }
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(head("_:self"), list, intro("i"), dataset(("_:self", "ex:T28/p1", "_:i")), prefix("ex" = "https://ex.org/"))]
pub struct T28(#[tldr(rest("other"))] Vec<()>);
impl Model for T28 {
	fn arb(r: &mut Rng) -> Val { let n = len(r); Val::list((0..n).map(|_| <()>::arb(r)).collect()) }
	fn make(v: &Val) -> Self { Self(v.c.iter().map(|v| <()>::make(v)).collect()) }
	fn show(&self) -> Val { Val::list(self.0.iter().map(|x| x.show()).collect()) }
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(prefix("e" = "https://ex.org/"), dataset(("e:c0", "e:T29/p1", "_:value", "_:y")), intro("value"), input("x", "y"))]
pub struct T29(#[tldr(input("_:v"), dataset(("_:x", "https://ex.org/T29/p3", "_:w")), "e:T29/p2", intro("v", "w"))] u16, #[tldr(input("_:value"))] #[tldr(intro())] T24, #[tldr("e:T29/p4")] i64);
impl Model for T29 {
	fn arb(r: &mut Rng) -> Val { Val::list(vec![<u16>::arb(r), <T24>::arb(r), <i64>::arb(r)]) }
	fn make(v: &Val) -> Self { Self(<u16>::make(&v.c[0]), <T24>::make(&v.c[1]), <i64>::make(&v.c[2])) }
	fn show(&self) -> Val { Val::list(vec![self.0.show(), self.1.show(), self.2.show()]) }
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(sum, intro("i"), dataset(("_:self", "https://ex.org/T30/p1", "_:i")), prefix("ex" = "https://ex.org/a/"))]
pub enum T30 {
	#[tldr(input("_:i", "https://ex.org/c2"))] Foo(T19),
	#[tldr(input("_:i"))] #[tldr(dataset(("_:i", "https://ex.org/T30/is", "https://ex.org/c2")))] A1(T8),
	#[tldr(input("_:i"))] Baz(i32),
	#[tldr(input("_:i"))] Qux(()),
}
impl Model for T30 {
	fn arb(r: &mut Rng) -> Val {
		match r.below(4) { 0 => variant("Foo", <T19>::arb(r)), 1 => variant("A1", <T8>::arb(r)), 2 => variant("Baz", <i32>::arb(r)), 3 => variant("Qux", <()>::arb(r)), _ => unreachable!() }
	}
	fn make(v: &Val) -> Self {
		match v.s.as_str() { "Foo" => Self::Foo(<T19>::make(&v.c[0])), "A1" => Self::A1(<T8>::make(&v.c[0])), "Baz" => Self::Baz(<i32>::make(&v.c[0])), "Qux" => Self::Qux(<()>::make(&v.c[0])), _ => unreachable!() }
	}
	fn show(&self) -> Val {
		match self { Self::Foo(x) => variant("Foo", x.show()), Self::A1(x) => variant("A1", x.show()), Self::Baz(x) => variant("Baz", x.show()), Self::Qux(x) => variant("Qux", x.show()), }
	}
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(record)]
#[tldr(dataset(("_:self", "https://ex.org/T31/p1", "_:i")), intro("i"))]
pub struct T31 {
	#[tldr(graph(Some("_:value")), input("_:value"), dataset(("_:i", "https://ex.org/T31/p2", "_:value"), ("_:w", "https://ex.org/T31/p3", "_:self")), intro("value", "w"))] pub foo: Option<T25>,
	#[tldr(dataset(("https://ex.org/c0", "https://ex.org/T31/p4", "_:value"), ("_:w", "https://ex.org/T31/p5", "_:self")))] #[tldr(input("_:value"), intro("value", "w"))] pub bar: String,
}
impl Model for T31 {
	fn arb(r: &mut Rng) -> Val {
		let _ = &r;
		let mut m = Vec::new();
		if r.chance(60) { m.push(("foo".to_string(), <T25>::arb(r))); }
		m.push(("bar".to_string(), <String>::arb(r)));
		Val::map(m)
	}
	fn make(v: &Val) -> Self {
		let _ = v;
		Self { foo: field(v, "foo").map(|v| <T25>::make(v)), bar: field(v, "bar").map(|v| <String>::make(v)).unwrap() }
	}
	fn show(&self) -> Val {
		let mut m = Vec::new();
		if let Some(x) = &self.foo { m.push(("foo".to_string(), x.show())); }
		m.push(("bar".to_string(), self.bar.show()));
		Val::map(m)
	}
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(intro("i", "j"))]
#[tldr(prefix("e" = "https://ex.org/"), dataset(("e:c1", "https://ex.org/T32/p1", "_:i"), ("_:i", "e:T32/p2", "_:j")))]
pub enum T32 {
	#[tldr(input("_:i"), graph(Some("_:i")))] Foo(T11),
}
impl Model for T32 {
	fn arb(r: &mut Rng) -> Val {
		match r.below(1) { 0 => variant("Foo", <T11>::arb(r)), _ => unreachable!() }
	}
	fn make(v: &Val) -> Self {
		match v.s.as_str() { "Foo" => Self::Foo(<T11>::make(&v.c[0])), _ => unreachable!() }
	}
	fn show(&self) -> Val {
		match self { Self::Foo(x) => variant("Foo", x.show()), }
	}
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(set)]
#[tldr(intro("i"), dataset(("_:self", "https://ex.org/T33/p1", "_:i"), ("_:self", "https://ex.org/T33/is", "https://ex.org/c1", "https://ex.org/g1")))]
pub struct T33(#[tldr("https://ex.org/p2", input("_:v"), intro("v", "w"), graph(Some("_:w")), dataset(("_:v", "https://ex.org/T33/p3", "_:w")))] Vec<T30>);
impl Model for T33 {
	fn arb(r: &mut Rng) -> Val { let n = len(r); Val::list((0..n).map(|_| <T30>::arb(r)).collect()) }
	fn make(v: &Val) -> Self { Self(v.c.iter().map(|v| <T30>::make(v)).collect()) }
	fn show(&self) -> Val { Val::list(self.0.iter().map(|x| x.show()).collect()) }
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(list)]
#[tldr(tail("https://ex.org/nil"), input("self", "other"), dataset(("_:other", "https://ex.org/T34/p1", "_:i"), ("_:self", "https://ex.org/T34/p2", "_:j")), intro("i", "j"), prefix("ex" = "https://ex.org/a/"))]
pub struct T34(#[tldr(rest("next"))] #[tldr(graph(_), input("_:value"), dataset(("_:head", "https://ex.org/T34/p3", "_:next"), ("_:head", "https://ex.org/T34/p4", "_:value")))] Vec<T30>);
impl Model for T34 {
	fn arb(r: &mut Rng) -> Val { let n = len(r); Val::list((0..n).map(|_| <T30>::arb(r)).collect()) }
	fn make(v: &Val) -> Self { Self(v.c.iter().map(|v| <T30>::make(v)).collect()) }
	fn show(&self) -> Val { Val::list(self.0.iter().map(|x| x.show()).collect()) }
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(base("https://ex.org/"), prefix("ex" = "https://ex.org/a/"))]
pub struct T35(#[tldr(intro("value", "w"), input("_:value"), dataset(("_:self", "T35/p1", "_:value"), ("_:value", "T35/p2", "_:w", "g1")))] T31);
impl Model for T35 {
	fn arb(r: &mut Rng) -> Val { Val::list(vec![<T31>::arb(r)]) }
	fn make(v: &Val) -> Self { Self(<T31>::make(&v.c[0])) }
	fn show(&self) -> Val { Val::list(vec![self.0.show()]) }
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(record)]
pub struct T36 {
	#[tldr(dataset(("_:self", "https://ex.org/T36/p1", "_:value")))] pub foo: Option<()>,
}
impl Model for T36 {
	fn arb(r: &mut Rng) -> Val {
		let _ = &r;
		let mut m = Vec::new();
		if r.chance(60) { m.push(("foo".to_string(), <()>::arb(r))); }
		Val::map(m)
	}
	fn make(v: &Val) -> Self {
		let _ = v;
		Self { foo: field(v, "foo").map(|v| <()>::make(v)) }
	}
	fn show(&self) -> Val {
		let mut m = Vec::new();
		if let Some(x) = &self.foo { m.push(("foo".to_string(), x.show())); }
		Val::map(m)
	}
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(record)]
#[tldr(input("self", "other"), prefix("e" = "https://ex.org/"))]
pub struct T37 {
	#[tldr(dataset(("e:c0", "https://ex.org/T37/p1", "_:value"), ("_:value", "https://ex.org/T37/p2", "_:w")))] #[tldr(input("_:value"), intro("value", "w"))] pub foo: T36,
}
impl Model for T37 {
	fn arb(r: &mut Rng) -> Val {
		let _ = &r;
		let mut m = Vec::new();
		m.push(("foo".to_string(), <T36>::arb(r)));
		Val::map(m)
	}
	fn make(v: &Val) -> Self {
		let _ = v;
		Self { foo: field(v, "foo").map(|v| <T36>::make(v)).unwrap() }
	}
	fn show(&self) -> Val {
		let mut m = Vec::new();
		m.push(("foo".to_string(), self.foo.show()));
		Val::map(m)
	}
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(input("a"))]
#[tldr(prefix("ex" = "https://ex.org/a/"), base("https://ex.org/"))]
pub enum T38 {
	#[tldr(input("_:a", "_:a"))] A0(T27),
	#[tldr(intro("v", "w"))] #[tldr(dataset(("_:a", "https://ex.org/T38/p1", "_:v"), ("_:w", "T38/p2", "_:v")), input("_:a", "_:v"))] A1(T9),
}
impl Model for T38 {
	fn arb(r: &mut Rng) -> Val {
		match r.below(2) { 0 => variant("A0", <T27>::arb(r)), 1 => variant("A1", <T9>::arb(r)), _ => unreachable!() }
	}
	fn make(v: &Val) -> Self {
		match v.s.as_str() { "A0" => Self::A0(<T27>::make(&v.c[0])), "A1" => Self::A1(<T9>::make(&v.c[0])), _ => unreachable!() }
	}
	fn show(&self) -> Val {
		match self { Self::A0(x) => variant("A0", x.show()), Self::A1(x) => variant("A1", x.show()), }
	}
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(set)]
#[tldr(intro("i", "j"), dataset(("_:i", "ex:T39/p1", "https://ex.org/c1"), ("_:j", "ex:T39/p2", "_:self")), prefix("ex" = "https://ex.org/"))]
pub struct T39(#[tldr("ex:T39/p3")] Vec<i32>);
impl Model for T39 {
	fn arb(r: &mut Rng) -> Val { let n = len(r); Val::list((0..n).map(|_| <i32>::arb(r)).collect()) }
	fn make(v: &Val) -> Self { Self(v.c.iter().map(|v| <i32>::make(v)).collect()) }
	fn show(&self) -> Val { Val::list(self.0.iter().map(|x| x.show()).collect()) }
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(dataset(("_:self", "https://ex.org/p2", "_:i"), ("_:i", "ex:T40/is", "c1")))]
#[tldr(prefix("ex" = "https://ex.org/"), base("https://ex.org/"), list, intro("i"))]
pub struct T40(#[tldr(head("node"))] #[tldr(dataset(("_:node", "T40/p2", "_:rest"), ("_:node", "ex:T40/p3", "_:v")), intro("v"), input("_:v"))] Vec<T10>);
impl Model for T40 {
	fn arb(r: &mut Rng) -> Val { let n = len(r); Val::list((0..n).map(|_| <T10>::arb(r)).collect()) }
	fn make(v: &Val) -> Self { Self(v.c.iter().map(|v| <T10>::make(v)).collect()) }
	fn show(&self) -> Val { Val::list(self.0.iter().map(|x| x.show()).collect()) }
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(prefix("e" = "https://ex.org/"))]
#[tldr(dataset(("_:self", "e:T41/is", "https://ex.org/c1")))]
pub struct T41(#[tldr("https://ex.org/T41/p1")] i8);
impl Model for T41 {
	fn arb(r: &mut Rng) -> Val { Val::list(vec![<i8>::arb(r)]) }
	fn make(v: &Val) -> Self { Self(<i8>::make(&v.c[0])) }
	fn show(&self) -> Val { Val::list(vec![self.0.show()]) }
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(input("other", "self"))]
pub struct T42 {
	#[tldr("https://ex.org/T42/p1", graph(Some("_:self")))] pub foo: i8,
	#[tldr(dataset(("https://ex.org/c0", "https://ex.org/T42/p2", "_:value"), ("_:w", "https://ex.org/T42/p3", "_:value")), intro("value", "w"), input("_:value"))] pub bar: Option<String>,
	#[tldr(intro("self"), input("_:self", "_:self"), dataset(("_:other", "https://ex.org/T42/p4", "_:self")))] pub baz: Option<T26>,
	#[tldr(dataset(("_:self", "https://ex.org/T42/p6", "_:w")), "https://ex.org/T42/p5", graph(Some("https://ex.org/g1")), intro("value", "w"), input("_:value"))] pub zz3: T32,
}
impl Model for T42 {
	fn arb(r: &mut Rng) -> Val {
		let _ = &r;
		let mut m = Vec::new();
		m.push(("foo".to_string(), <i8>::arb(r)));
		if r.chance(60) { m.push(("bar".to_string(), <String>::arb(r))); }
		if r.chance(60) { m.push(("baz".to_string(), <T26>::arb(r))); }
		m.push(("zz3".to_string(), <T32>::arb(r)));
		Val::map(m)
	}
	fn make(v: &Val) -> Self {
		let _ = v;
		Self { foo: field(v, "foo").map(|v| <i8>::make(v)).unwrap(), bar: field(v, "bar").map(|v| <String>::make(v)), baz: field(v, "baz").map(|v| <T26>::make(v)), zz3: field(v, "zz3").map(|v| <T32>::make(v)).unwrap() }
	}
	fn show(&self) -> Val {
		let mut m = Vec::new();
		m.push(("foo".to_string(), self.foo.show()));
		if let Some(x) = &self.bar { m.push(("bar".to_string(), x.show())); }
		if let Some(x) = &self.baz { m.push(("baz".to_string(), x.show())); }
		m.push(("zz3".to_string(), self.zz3.show()));
		Val::map(m)
	}
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(intro("i"), input("a"), dataset(("ex:c1", "ex:T43/p1", "_:i"), ("_:i", "ex:T43/is", "ex:c2", "ex:g0")), prefix("ex" = "https://ex.org/"))]
pub struct T43 {
	#[tldr("ex:T43/p2")] pub foo: T36,
	#[tldr(input("_:value"), dataset(("_:a", "https://ex.org/T43/p3", "_:value"), ("_:a", "ex:T43/p4", "_:w")), intro("value", "w"))] pub bar: i64,
	#[tldr("ex:T43/p5")] pub baz: bool,
}
impl Model for T43 {
	fn arb(r: &mut Rng) -> Val {
		let _ = &r;
		let mut m = Vec::new();
		m.push(("foo".to_string(), <T36>::arb(r)));
		m.push(("bar".to_string(), <i64>::arb(r)));
		m.push(("baz".to_string(), <bool>::arb(r)));
		Val::map(m)
	}
	fn make(v: &Val) -> Self {
		let _ = v;
		Self { foo: field(v, "foo").map(|v| <T36>::make(v)).unwrap(), bar: field(v, "bar").map(|v| <i64>::make(v)).unwrap(), baz: field(v, "baz").map(|v| <bool>::make(v)).unwrap() }
	}
	fn show(&self) -> Val {
		let mut m = Vec::new();
		m.push(("foo".to_string(), self.foo.show()));
		m.push(("bar".to_string(), self.bar.show()));
		m.push(("baz".to_string(), self.baz.show()));
		Val::map(m)
	}
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(sum)]
#[tldr(base("https://ex.org/"), dataset(("_:a", "https://ex.org/T44/is", "c2")), input("a"))]
pub enum T44 {
	#[tldr(dataset(("_:a", "https://ex.org/T44/p1", "_:v")))] #[tldr(intro("v"), input("_:v"), graph(None))] Foo(rdf_types::Id),
	#[tldr(graph(Some("_:v")))] #[tldr(intro("v"), dataset(("_:a", "https://ex.org/T44/p2", "_:v", "g0")), input("_:v"))] A1(()),
}
impl Model for T44 {
	fn arb(r: &mut Rng) -> Val {
		match r.below(2) { 0 => variant("Foo", <rdf_types::Id>::arb(r)), 1 => variant("A1", <()>::arb(r)), _ => unreachable!() }
	}
	fn make(v: &Val) -> Self {
		match v.s.as_str() { "Foo" => Self::Foo(<rdf_types::Id>::make(&v.c[0])), "A1" => Self::A1(<()>::make(&v.c[0])), _ => unreachable!() }
	}
	fn show(&self) -> Val {
		match self { Self::Foo(x) => variant("Foo", x.show()), Self::A1(x) => variant("A1", x.show()), }
	}
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(prefix("ex" = "https://ex.org/"), intro("i", "j"), dataset(("_:a", "https://ex.org/T45/p1", "_:i", "https://ex.org/g1"), ("_:i", "ex:T45/p2", "_:j", "ex:g1")), input("a"), set)]
pub struct T45(#[tldr("ex:T45/p3")] Vec<rdf_types::Id>);
impl Model for T45 {
	fn arb(r: &mut Rng) -> Val { let n = len(r); Val::list((0..n).map(|_| <rdf_types::Id>::arb(r)).collect()) }
	fn make(v: &Val) -> Self { Self(v.c.iter().map(|v| <rdf_types::Id>::make(v)).collect()) }
	fn show(&self) -> Val { Val::list(self.0.iter().map(|x| x.show()).collect()) }
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(list)]
#[tldr(tail("ex:nil"), base("https://ex.org/"), prefix("ex" = "https://ex.org/"))]
pub struct T46(#[tldr(rest("r"))] #[tldr(dataset(("_:head", "ex:T46/p1", "_:r"), ("_:head", "ex:T46/p2", "_:v"), ("_:head", "ex:T46/p3", "_:w")), intro("v", "w"), input("_:v"))] Vec<T39>);
impl Model for T46 {
	fn arb(r: &mut Rng) -> Val { let n = len(r); Val::list((0..n).map(|_| <T39>::arb(r)).collect()) }
	fn make(v: &Val) -> Self { Self(v.c.iter().map(|v| <T39>::make(v)).collect()) }
	fn show(&self) -> Val { Val::list(self.0.iter().map(|x| x.show()).collect()) }
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(dataset(("_:other", "https://ex.org/T47/is", "https://ex.org/c0")), tuple, input("self", "other"))]
pub struct T47(#[tldr(input("_:value", "_:other"))] #[tldr("https://ex.org/p1")] T37, #[tldr("https://ex.org/T47/p2")] T46);
impl Model for T47 {
	fn arb(r: &mut Rng) -> Val { Val::list(vec![<T37>::arb(r), <T46>::arb(r)]) }
	fn make(v: &Val) -> Self { Self(<T37>::make(&v.c[0]), <T46>::make(&v.c[1])) }
	fn show(&self) -> Val { Val::list(vec![self.0.show(), self.1.show()]) }
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(dataset(("_:a", "ex:T48/p1", "_:i")), input("a"), intro("i"), prefix("ex" = "https://ex.org/"))]
pub struct T48 {
	#[tldr("https://ex.org/T48/p2")] #[tldr(graph(None))] pub foo: T44,
	#[tldr(intro("self"))] #[tldr(input("_:a", "_:self"), "ex:T48/p3")] pub zz1: Option<T34>,
	#[tldr("https://ex.org/T48/p4")] pub zz2: i64,
}
impl Model for T48 {
	fn arb(r: &mut Rng) -> Val {
		let _ = &r;
		let mut m = Vec::new();
		m.push(("foo".to_string(), <T44>::arb(r)));
		if r.chance(60) { m.push(("zz1".to_string(), <T34>::arb(r))); }
		m.push(("zz2".to_string(), <i64>::arb(r)));
		Val::map(m)
	}
	fn make(v: &Val) -> Self {
		let _ = v;
		Self { foo: field(v, "foo").map(|v| <T44>::make(v)).unwrap(), zz1: field(v, "zz1").map(|v| <T34>::make(v)), zz2: field(v, "zz2").map(|v| <i64>::make(v)).unwrap() }
	}
	fn show(&self) -> Val {
		let mut m = Vec::new();
		m.push(("foo".to_string(), self.foo.show()));
		if let Some(x) = &self.zz1 { m.push(("zz1".to_string(), x.show())); }
		m.push(("zz2".to_string(), self.zz2.show()));
		Val::map(m)
	}
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(input("x", "y"))]
#[tldr(base("https://ex.org/doc"))]
pub enum T49 {
	#[tldr(intro("v", "w"))] #[tldr(input("_:v"), dataset(("_:y", "https://ex.org/T49/p1", "_:v"), ("_:y", "T49/p2", "_:w")))] Foo(T44),
}
impl Model for T49 {
	fn arb(r: &mut Rng) -> Val {
		match r.below(1) { 0 => variant("Foo", <T44>::arb(r)), _ => unreachable!() }
	}
	fn make(v: &Val) -> Self {
		match v.s.as_str() { "Foo" => Self::Foo(<T44>::make(&v.c[0])), _ => unreachable!() }
	}
	fn show(&self) -> Val {
		match self { Self::Foo(x) => variant("Foo", x.show()), }
	}
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(prefix("ex" = "https://ex.org/a/"), base("https://ex.org/doc"), intro("i", "j"), dataset(("_:self", "https://ex.org/p2", "_:i"), ("_:i", "T50/p2", "_:j"), ("_:j", "T50/is", "c2")), set)]
pub struct T50(#[tldr("T50/p3")] Vec<T33>);
impl Model for T50 {
	fn arb(r: &mut Rng) -> Val { let n = len(r); Val::list((0..n).map(|_| <T33>::arb(r)).collect()) }
	fn make(v: &Val) -> Self { Self(v.c.iter().map(|v| <T33>::make(v)).collect()) }
	fn show(&self) -> Val { Val::list(self.0.iter().map(|x| x.show()).collect()) }
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(list, prefix("ex" = "https://ex.org/a/"), base("https://ex.org/"))]
pub struct T51(#[tldr(rest("r"))] Vec<i8>);
impl Model for T51 {
	fn arb(r: &mut Rng) -> Val { let n = len(r); Val::list((0..n).map(|_| <i8>::arb(r)).collect()) }
	fn make(v: &Val) -> Self { Self(v.c.iter().map(|v| <i8>::make(v)).collect()) }
	fn show(&self) -> Val { Val::list(self.0.iter().map(|x| x.show()).collect()) }
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(tuple)]
#[tldr(prefix("ex" = "https://ex.org/"))]
pub struct T52(#[tldr(dataset(("_:self", "https://ex.org/T52/p1", "_:v"), ("_:self", "ex:T52/p2", "_:w"), ("_:v", "https://ex.org/T52/is", "ex:c0")), intro("v", "w"), input("_:v"))] ());
impl Model for T52 {
	fn arb(r: &mut Rng) -> Val { Val::list(vec![<()>::arb(r)]) }
	fn make(v: &Val) -> Self { Self(<()>::make(&v.c[0])) }
	fn show(&self) -> Val { Val::list(vec![self.0.show()]) }
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(input("other", "self"), dataset(("_:other", "e:T53/p1", "_:i")), prefix("e" = "https://ex.org/"), intro("i"))]
pub struct T53 {
	#[tldr(input("_:self"))] #[tldr(intro("self"), dataset(("_:other", "https://ex.org/T53/p2", "_:self"), ("_:other", "e:T53/is", "e:c0")))] pub foo: i8,
	#[tldr(input("_:self", "_:value"), "https://ex.org/T53/p3", intro("value", "w"), dataset(("_:other", "e:T53/p4", "_:w"), ("_:value", "e:T53/is", "e:c2", "https://ex.org/g1")), graph(None))] pub zz1: T34,
	#[tldr(dataset(("_:other", "https://ex.org/T53/p5", "_:value")))] pub baz: (),
}
impl Model for T53 {
	fn arb(r: &mut Rng) -> Val {
		let _ = &r;
		let mut m = Vec::new();
		m.push(("foo".to_string(), <i8>::arb(r)));
		m.push(("zz1".to_string(), <T34>::arb(r)));
		m.push(("baz".to_string(), <()>::arb(r)));
		Val::map(m)
	}
	fn make(v: &Val) -> Self {
		let _ = v;
		Self { foo: field(v, "foo").map(|v| <i8>::make(v)).unwrap(), zz1: field(v, "zz1").map(|v| <T34>::make(v)).unwrap(), baz: field(v, "baz").map(|v| <()>::make(v)).unwrap() }
	}
	fn show(&self) -> Val {
		let mut m = Vec::new();
		m.push(("foo".to_string(), self.foo.show()));
		m.push(("zz1".to_string(), self.zz1.show()));
		m.push(("baz".to_string(), self.baz.show()));
		Val::map(m)
	}
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(base("https://ex.org/"))]
#[tldr(intro("i"), dataset(("_:self", "e:T54/p1", "_:i", "_:self")), prefix("e" = "https://ex.org/"))]
pub enum T54 {
	#[tldr(intro("v", "w"))] #[tldr(graph(_), input("_:v", "_:i"), dataset(("_:i", "p0", "_:v"), ("_:self", "https://ex.org/p2", "_:w"), ("_:i", "T54/is", "https://ex.org/c2")))] Foo(T9),
	#[tldr(dataset(("_:self", "T54/p4", "e:c0")))] Bar(i32),
}
impl Model for T54 {
	fn arb(r: &mut Rng) -> Val {
		match r.below(2) { 0 => variant("Foo", <T9>::arb(r)), 1 => variant("Bar", <i32>::arb(r)), _ => unreachable!() }
	}
	fn make(v: &Val) -> Self {
		match v.s.as_str() { "Foo" => Self::Foo(<T9>::make(&v.c[0])), "Bar" => Self::Bar(<i32>::make(&v.c[0])), _ => unreachable!() }
	}
	fn show(&self) -> Val {
		match self { Self::Foo(x) => variant("Foo", x.show()), Self::Bar(x) => variant("Bar", x.show()), }
	}
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(set)]
#[tldr(prefix("e" = "https://ex.org/"))]
pub struct T55(#[tldr("e:T55/p1")] Vec<rdf_types::Id>);
impl Model for T55 {
	fn arb(r: &mut Rng) -> Val { let n = len(r); Val::list((0..n).map(|_| <rdf_types::Id>::arb(r)).collect()) }
	fn make(v: &Val) -> Self { Self(v.c.iter().map(|v| <rdf_types::Id>::make(v)).collect()) }
	fn show(&self) -> Val { Val::list(self.0.iter().map(|x| x.show()).collect()) }
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(list, prefix("e" = "https://ex.org/"), base("https://ex.org/"))]
pub struct T56(#[tldr(graph(None))] Vec<u16>);
impl Model for T56 {
	fn arb(r: &mut Rng) -> Val { let n = len(r); Val::list((0..n).map(|_| <u16>::arb(r)).collect()) }
	fn make(v: &Val) -> Self { Self(v.c.iter().map(|v| <u16>::make(v)).collect()) }
	fn show(&self) -> Val { Val::list(self.0.iter().map(|x| x.show()).collect()) }
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(dataset(("_:self", "e:p1", "_:i")), intro("i"), prefix("e" = "https://ex.org/"))]
pub struct T57(#[tldr(input("_:i"))] #[tldr(graph(Some("e:g0")), intro())] (), #[tldr("e:T57/p2", dataset(("_:i", "e:T57/p3", "_:w")), input("_:value"), intro("value", "w"))] T39);
impl Model for T57 {
	fn arb(r: &mut Rng) -> Val { Val::list(vec![<()>::arb(r), <T39>::arb(r)]) }
	fn make(v: &Val) -> Self { Self(<()>::make(&v.c[0]), <T39>::make(&v.c[1])) }
	fn show(&self) -> Val { Val::list(vec![self.0.show(), self.1.show()]) }
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(input("self", "other"), prefix("ex" = "https://ex.org/"), record)]
pub struct T58 {
	#[tldr("ex:T58/p1")] pub zz0: rdf_types::Id,
	#[tldr("ex:T58/p2", graph(_))] pub bar: T39,
}
impl Model for T58 {
	fn arb(r: &mut Rng) -> Val {
		let _ = &r;
		let mut m = Vec::new();
		m.push(("zz0".to_string(), <rdf_types::Id>::arb(r)));
		m.push(("bar".to_string(), <T39>::arb(r)));
		Val::map(m)
	}
	fn make(v: &Val) -> Self {
		let _ = v;
		Self { zz0: field(v, "zz0").map(|v| <rdf_types::Id>::make(v)).unwrap(), bar: field(v, "bar").map(|v| <T39>::make(v)).unwrap() }
	}
	fn show(&self) -> Val {
		let mut m = Vec::new();
		m.push(("zz0".to_string(), self.zz0.show()));
		m.push(("bar".to_string(), self.bar.show()));
		Val::map(m)
	}
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(intro("value"), dataset(("_:self", "https://ex.org/T59/p1", "_:value", "https://ex.org/g1")))]
pub enum T59 {
	Foo(i64),
	#[tldr(graph(Some("_:self")))] #[tldr(input("_:self", "_:v"), dataset(("https://ex.org/c1", "https://ex.org/T59/p2", "_:v"), ("_:self", "https://ex.org/T59/p3", "_:w", "_:self")), intro("v", "w"))] A1(T58),
}
impl Model for T59 {
	fn arb(r: &mut Rng) -> Val {
		match r.below(2) { 0 => variant("Foo", <i64>::arb(r)), 1 => variant("A1", <T58>::arb(r)), _ => unreachable!() }
	}
	fn make(v: &Val) -> Self {
		match v.s.as_str() { "Foo" => Self::Foo(<i64>::make(&v.c[0])), "A1" => Self::A1(<T58>::make(&v.c[0])), _ => unreachable!() }
	}
	fn show(&self) -> Val {
		match self { Self::Foo(x) => variant("Foo", x.show()), Self::A1(x) => variant("A1", x.show()), }
	}
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(set, base("https://ex.org/doc"))]
pub struct T60(#[tldr(intro("v"), graph(Some("g1")), input("_:v"), dataset(("_:self", "https://ex.org/T60/p1", "_:v")))] Vec<T43>);
impl Model for T60 {
	fn arb(r: &mut Rng) -> Val { let n = len(r); Val::list((0..n).map(|_| <T43>::arb(r)).collect()) }
	fn make(v: &Val) -> Self { Self(v.c.iter().map(|v| <T43>::make(v)).collect()) }
	fn show(&self) -> Val { Val::list(self.0.iter().map(|x| x.show()).collect()) }
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(list, dataset(("_:self", "https://ex.org/T61/p1", "_:i")), intro("i"))]
pub struct T61(#[tldr(head("h"))] #[tldr(intro("v", "w"), input("_:v"), dataset(("_:h", "https://ex.org/T61/p2", "_:rest"), ("_:h", "https://ex.org/T61/p3", "_:v"), ("_:h", "https://ex.org/T61/p4", "_:w", "https://ex.org/g0")))] Vec<bool>);
impl Model for T61 {
	fn arb(r: &mut Rng) -> Val { let n = len(r); Val::list((0..n).map(|_| <bool>::arb(r)).collect()) }
	fn make(v: &Val) -> Self { Self(v.c.iter().map(|v| <bool>::make(v)).collect()) }
	fn show(&self) -> Val { Val::list(self.0.iter().map(|x| x.show()).collect()) }
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(base("https://ex.org/"))]
pub struct T62(#[tldr("T62/p1")] String, #[tldr(intro())] #[tldr(dataset(("_:self", "T62/p2", "c2")), input("_:self"))] bool);
impl Model for T62 {
	fn arb(r: &mut Rng) -> Val { Val::list(vec![<String>::arb(r), <bool>::arb(r)]) }
	fn make(v: &Val) -> Self { Self(<String>::make(&v.c[0]), <bool>::make(&v.c[1])) }
	fn show(&self) -> Val { Val::list(vec![self.0.show(), self.1.show()]) }
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(prefix("ex" = "https://ex.org/a/"), input("other", "self"), dataset(("_:self", "T63/p1", "_:value")), intro("value"), base("https://ex.org/"))]
pub struct T63(#[tldr(graph(_), "https://ex.org/T63/p2")] i32, #[tldr(intro())] #[tldr(input("_:self"), dataset(("_:value", "T63/p3", "c1")), graph(_))] T45);
impl Model for T63 {
	fn arb(r: &mut Rng) -> Val { Val::list(vec![<i32>::arb(r), <T45>::arb(r)]) }
	fn make(v: &Val) -> Self { Self(<i32>::make(&v.c[0]), <T45>::make(&v.c[1])) }
	fn show(&self) -> Val { Val::list(vec![self.0.show(), self.1.show()]) }
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(dataset(("_:x", "e:T64/is", "e:c0")), base("https://ex.org/doc"), input("x", "y"), prefix("e" = "https://ex.org/"))]
pub struct T64 {
	#[tldr("e:T64/p1", graph(Some("https://ex.org/g1")))] pub foo: T55,
	#[tldr("e:T64/p2")] pub zz1: bool,
}
impl Model for T64 {
	fn arb(r: &mut Rng) -> Val {
		let _ = &r;
		let mut m = Vec::new();
		m.push(("foo".to_string(), <T55>::arb(r)));
		m.push(("zz1".to_string(), <bool>::arb(r)));
		Val::map(m)
	}
	fn make(v: &Val) -> Self {
		let _ = v;
		Self { foo: field(v, "foo").map(|v| <T55>::make(v)).unwrap(), zz1: field(v, "zz1").map(|v| <bool>::make(v)).unwrap() }
	}
	fn show(&self) -> Val {
		let mut m = Vec::new();
		m.push(("foo".to_string(), self.foo.show()));
		m.push(("zz1".to_string(), self.zz1.show()));
		Val::map(m)
	}
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(sum, prefix("ex" = "https://ex.org/a/"), input("other", "self"))]
pub enum T65 {
	#[tldr(input("_:self"))] A0(rdf_types::Id),
	#[tldr(dataset(("_:self", "https://ex.org/T65/p1", "https://ex.org/c1")))] Bar(()),
	#[tldr(intro("v", "w"), input("_:v"), dataset(("_:self", "https://ex.org/T65/p2", "_:v", "_:other"), ("_:other", "https://ex.org/T65/p3", "_:w")))] Baz(rdf_types::Id),
}
impl Model for T65 {
	fn arb(r: &mut Rng) -> Val {
		match r.below(3) { 0 => variant("A0", <rdf_types::Id>::arb(r)), 1 => variant("Bar", <()>::arb(r)), 2 => variant("Baz", <rdf_types::Id>::arb(r)), _ => unreachable!() }
	}
	fn make(v: &Val) -> Self {
		match v.s.as_str() { "A0" => Self::A0(<rdf_types::Id>::make(&v.c[0])), "Bar" => Self::Bar(<()>::make(&v.c[0])), "Baz" => Self::Baz(<rdf_types::Id>::make(&v.c[0])), _ => unreachable!() }
	}
	fn show(&self) -> Val {
		match self { Self::A0(x) => variant("A0", x.show()), Self::Bar(x) => variant("Bar", x.show()), Self::Baz(x) => variant("Baz", x.show()), }
	}
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(set)]
#[tldr(prefix("ex" = "https://ex.org/"))]
pub struct T66(#[tldr("ex:p0")] Vec<T61>);
impl Model for T66 {
	fn arb(r: &mut Rng) -> Val { let n = len(r); Val::list((0..n).map(|_| <T61>::arb(r)).collect()) }
	fn make(v: &Val) -> Self { Self(v.c.iter().map(|v| <T61>::make(v)).collect()) }
	fn show(&self) -> Val { Val::list(self.0.iter().map(|x| x.show()).collect()) }
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(input("other", "self"))]
#[tldr(dataset(("_:other", "https://ex.org/T67/p1", "_:i")), prefix("ex" = "https://ex.org/a/"), list, intro("i"))]
pub struct T67(#[tldr(input("_:value"))] #[tldr(dataset(("_:head", "https://ex.org/T67/p2", "_:rest"), ("_:head", "https://ex.org/T67/p3", "_:value")))] Vec<()>);
impl Model for T67 {
	fn arb(r: &mut Rng) -> Val { let n = len(r); Val::list((0..n).map(|_| <()>::arb(r)).collect()) }
	fn make(v: &Val) -> Self { Self(v.c.iter().map(|v| <()>::make(v)).collect()) }
	fn show(&self) -> Val { Val::list(self.0.iter().map(|x| x.show()).collect()) }
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(intro("value"), base("https://ex.org/"), dataset(("_:self", "T68/p1", "_:value"), ("_:self", "T68/is", "https://ex.org/c0")))]
pub struct T68(#[tldr(intro("v", "w"))] #[tldr(input("_:self", "_:v"), dataset(("_:value", "T68/p2", "_:v"), ("_:value", "T68/p3", "_:w")))] T29);
impl Model for T68 {
	fn arb(r: &mut Rng) -> Val { Val::list(vec![<T29>::arb(r)]) }
	fn make(v: &Val) -> Self { Self(<T29>::make(&v.c[0])) }
	fn show(&self) -> Val { Val::list(vec![self.0.show()]) }
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(base("https://ex.org/"), input("other", "self"))]
pub struct T69 {
	#[tldr(dataset(("c1", "T69/p1", "_:value"), ("_:self", "https://ex.org/T69/p2", "_:w", "g0")))] #[tldr(intro("value", "w"), input("_:value"))] pub foo: T61,
}
impl Model for T69 {
	fn arb(r: &mut Rng) -> Val {
		let _ = &r;
		let mut m = Vec::new();
		m.push(("foo".to_string(), <T61>::arb(r)));
		Val::map(m)
	}
	fn make(v: &Val) -> Self {
		let _ = v;
		Self { foo: field(v, "foo").map(|v| <T61>::make(v)).unwrap() }
	}
	fn show(&self) -> Val {
		let mut m = Vec::new();
		m.push(("foo".to_string(), self.foo.show()));
		Val::map(m)
	}
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(base("https://ex.org/doc"))]
#[tldr(intro("i", "j"), dataset(("_:self", "https://ex.org/T70/p1", "_:i"), ("_:self", "e:T70/p2", "_:j"), ("_:self", "https://ex.org/T70/is", "e:c1")), prefix("e" = "https://ex.org/"))]
pub enum T70 {
	#[tldr(intro("v"), input("_:v", "c2"), dataset(("_:v", "T70/p3", "_:self", "_:i")))] Foo(T64),
	#[tldr(intro("v"))] #[tldr(dataset(("_:j", "T70/p4", "_:v")), input("_:v", "_:v"))] A1(T67),
}
impl Model for T70 {
	fn arb(r: &mut Rng) -> Val {
		match r.below(2) { 0 => variant("Foo", <T64>::arb(r)), 1 => variant("A1", <T67>::arb(r)), _ => unreachable!() }
	}
	fn make(v: &Val) -> Self {
		match v.s.as_str() { "Foo" => Self::Foo(<T64>::make(&v.c[0])), "A1" => Self::A1(<T67>::make(&v.c[0])), _ => unreachable!() }
	}
	fn show(&self) -> Val {
		match self { Self::Foo(x) => variant("Foo", x.show()), Self::A1(x) => variant("A1", x.show()), }
	}
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(set)]
#[tldr(intro("value"), dataset(("_:self", "https://ex.org/T71/p1", "_:value")))]
pub struct T71(#[tldr("https://ex.org/T71/p2")] #[tldr(graph(None))] Vec<T12>);
impl Model for T71 {
	fn arb(r: &mut Rng) -> Val { let n = len(r); Val::list((0..n).map(|_| <T12>::arb(r)).collect()) }
	fn make(v: &Val) -> Self { Self(v.c.iter().map(|v| <T12>::make(v)).collect()) }
	fn show(&self) -> Val { Val::list(self.0.iter().map(|x| x.show()).collect()) }
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(list, base("https://ex.org/doc"))]
pub struct T72(Vec<String>);
impl Model for T72 {
	fn arb(r: &mut Rng) -> Val { let n = len(r); Val::list((0..n).map(|_| <String>::arb(r)).collect()) }
	fn make(v: &Val) -> Self { Self(v.c.iter().map(|v| <String>::make(v)).collect()) }
	fn show(&self) -> Val { Val::list(self.0.iter().map(|x| x.show()).collect()) }
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(dataset(("_:self", "T73/p1", "_:i", "g1")), intro("i"), base("https://ex.org/doc"), prefix("ex" = "https://ex.org/"), tuple)]
pub struct T73(#[tldr("ex:T73/p2", graph(Some("_:i")))] rdf_types::Id, #[tldr("ex:T73/p3")] bool, #[tldr("T73/p4")] T66);
impl Model for T73 {
	fn arb(r: &mut Rng) -> Val { Val::list(vec![<rdf_types::Id>::arb(r), <bool>::arb(r), <T66>::arb(r)]) }
	fn make(v: &Val) -> Self { Self(<rdf_types::Id>::make(&v.c[0]), <bool>::make(&v.c[1]), <T66>::make(&v.c[2])) }
	fn show(&self) -> Val { Val::list(vec![self.0.show(), self.1.show(), self.2.show()]) }
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(prefix("ex" = "https://ex.org/"), input("other", "self"))]
pub struct T74 {
	#[tldr(intro("v"))] #[tldr(dataset(("_:v", "https://ex.org/T74/p1", "_:self")), input("_:v"))] pub foo: String,
}
impl Model for T74 {
	fn arb(r: &mut Rng) -> Val {
		let _ = &r;
		let mut m = Vec::new();
		m.push(("foo".to_string(), <String>::arb(r)));
		Val::map(m)
	}
	fn make(v: &Val) -> Self {
		let _ = v;
		Self { foo: field(v, "foo").map(|v| <String>::make(v)).unwrap() }
	}
	fn show(&self) -> Val {
		let mut m = Vec::new();
		m.push(("foo".to_string(), self.foo.show()));
		Val::map(m)
	}
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(base("https://ex.org/"), prefix("ex" = "https://ex.org/a/"))]
pub struct T75 {
	#[tldr(intro(), input("https://ex.org/c0"))] pub foo: String,
	#[tldr("p2")] pub bar: Option<String>,
}
impl Model for T75 {
	fn arb(r: &mut Rng) -> Val {
		let _ = &r;
		let mut m = Vec::new();
		m.push(("foo".to_string(), <String>::arb(r)));
		if r.chance(60) { m.push(("bar".to_string(), <String>::arb(r))); }
		Val::map(m)
	}
	fn make(v: &Val) -> Self {
		let _ = v;
		Self { foo: field(v, "foo").map(|v| <String>::make(v)).unwrap(), bar: field(v, "bar").map(|v| <String>::make(v)) }
	}
	fn show(&self) -> Val {
		let mut m = Vec::new();
		m.push(("foo".to_string(), self.foo.show()));
		if let Some(x) = &self.bar { m.push(("bar".to_string(), x.show())); }
		Val::map(m)
	}
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(input("x", "y"), base("https://ex.org/"), prefix("ex" = "https://ex.org/"), set)]
pub struct T76(#[tldr(intro("value", "w"))] #[tldr("ex:T76/p1", dataset(("_:y", "https://ex.org/T76/p2", "_:w", "ex:g1")), input("_:value"))] Vec<String>);
impl Model for T76 {
	fn arb(r: &mut Rng) -> Val { let n = len(r); Val::list((0..n).map(|_| <String>::arb(r)).collect()) }
	fn make(v: &Val) -> Self { Self(v.c.iter().map(|v| <String>::make(v)).collect()) }
	fn show(&self) -> Val { Val::list(self.0.iter().map(|x| x.show()).collect()) }
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(list, prefix("e" = "https://ex.org/"), head("_:i"), dataset(("_:y", "https://ex.org/T77/p1", "_:i")), intro("i"), input("x", "y"))]
pub struct T77(Vec<String>);
impl Model for T77 {
	fn arb(r: &mut Rng) -> Val { let n = len(r); Val::list((0..n).map(|_| <String>::arb(r)).collect()) }
	fn make(v: &Val) -> Self { Self(v.c.iter().map(|v| <String>::make(v)).collect()) }
	fn show(&self) -> Val { Val::list(self.0.iter().map(|x| x.show()).collect()) }
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(input("a"), dataset(("_:i", "ex:T78/p1", "_:a")), prefix("ex" = "https://ex.org/"), intro("i"))]
pub struct T78 {
	#[tldr(intro("value", "w"), input("_:value", "_:value"), dataset(("_:a", "ex:T78/p2", "_:value"), ("_:i", "https://ex.org/T78/p3", "_:w", "ex:g1")))] pub foo: T74,
}
impl Model for T78 {
	fn arb(r: &mut Rng) -> Val {
		let _ = &r;
		let mut m = Vec::new();
		m.push(("foo".to_string(), <T74>::arb(r)));
		Val::map(m)
	}
	fn make(v: &Val) -> Self {
		let _ = v;
		Self { foo: field(v, "foo").map(|v| <T74>::make(v)).unwrap() }
	}
	fn show(&self) -> Val {
		let mut m = Vec::new();
		m.push(("foo".to_string(), self.foo.show()));
		Val::map(m)
	}
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(base("https://ex.org/doc"))]
pub struct T79(#[tldr("T79/p1", intro("self"), input("_:self", "_:self"))] T74);
impl Model for T79 {
	fn arb(r: &mut Rng) -> Val { Val::list(vec![<T74>::arb(r)]) }
	fn make(v: &Val) -> Self { Self(<T74>::make(&v.c[0])) }
	fn show(&self) -> Val { Val::list(vec![self.0.show()]) }
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(input("self"), list, prefix("ex" = "https://ex.org/a/"))]
pub struct T80(#[tldr(input("_:self", "_:v"), dataset(("_:head", "https://ex.org/p1", "_:rest"), ("_:head", "https://ex.org/T80/p2", "_:v"), ("_:head", "https://ex.org/p2", "_:w")), intro("v", "w"))] Vec<T74>);
impl Model for T80 {
	fn arb(r: &mut Rng) -> Val { let n = len(r); Val::list((0..n).map(|_| <T74>::arb(r)).collect()) }
	fn make(v: &Val) -> Self { Self(v.c.iter().map(|v| <T74>::make(v)).collect()) }
	fn show(&self) -> Val { Val::list(self.0.iter().map(|x| x.show()).collect()) }
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(dataset(("_:self", "e:p2", "_:i", "_:self")))]
#[tldr(prefix("e" = "https://ex.org/"), set, intro("i"), base("https://ex.org/doc"))]
pub struct T81(#[tldr(dataset(("e:c1", "e:T81/p3", "_:w", "_:value")), intro("value", "w"), input("_:value", "_:self"), "T81/p2")] Vec<T74>);
impl Model for T81 {
	fn arb(r: &mut Rng) -> Val { let n = len(r); Val::list((0..n).map(|_| <T74>::arb(r)).collect()) }
	fn make(v: &Val) -> Self { Self(v.c.iter().map(|v| <T74>::make(v)).collect()) }
	fn show(&self) -> Val { Val::list(self.0.iter().map(|x| x.show()).collect()) }
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(dataset(("_:self", "ex:T82/is", "https://ex.org/c2")))]
#[tldr(prefix("ex" = "https://ex.org/"))]
pub enum T82 {
	#[tldr(input("_:self", "_:v"), intro("v"), dataset(("_:self", "ex:T82/p1", "_:v")))] A0(T74),
	#[tldr(dataset(("_:self", "ex:T82/p2", "_:v")), input("_:v", "_:self"), intro("v"))] Bar(T74),
	#[tldr(input("_:v", "_:v"))] #[tldr(intro("v", "w"), dataset(("_:self", "https://ex.org/T82/p3", "_:v"), ("_:self", "ex:T82/p4", "_:w"), ("_:v", "ex:T82/is", "ex:c2")))] Baz(T74),
}
impl Model for T82 {
	fn arb(r: &mut Rng) -> Val {
		match r.below(3) { 0 => variant("A0", <T74>::arb(r)), 1 => variant("Bar", <T74>::arb(r)), 2 => variant("Baz", <T74>::arb(r)), _ => unreachable!() }
	}
	fn make(v: &Val) -> Self {
		match v.s.as_str() { "A0" => Self::A0(<T74>::make(&v.c[0])), "Bar" => Self::Bar(<T74>::make(&v.c[0])), "Baz" => Self::Baz(<T74>::make(&v.c[0])), _ => unreachable!() }
	}
	fn show(&self) -> Val {
		match self { Self::A0(x) => variant("A0", x.show()), Self::Bar(x) => variant("Bar", x.show()), Self::Baz(x) => variant("Baz", x.show()), }
	}
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(intro("value"))]
#[tldr(dataset(("_:value", "https://ex.org/T83/p1", "_:self", "https://ex.org/g0")))]
pub struct T83(#[tldr(input("_:self", "_:self"), dataset(("_:value", "https://ex.org/T83/p2", "_:self", "https://ex.org/g1")), graph(_), intro("self"))] T74, #[tldr(input("_:value", "_:w"), intro("value", "w"), graph(_), dataset(("_:self", "https://ex.org/T83/p4", "_:w")), "https://ex.org/T83/p3")] T74, #[tldr(dataset(("_:value", "https://ex.org/T83/p5", "_:v"), ("_:self", "https://ex.org/T83/p6", "_:w"), ("_:w", "https://ex.org/T83/is", "https://ex.org/c1")), input("_:v", "_:self"), intro("v", "w"), graph(_))] T74);
impl Model for T83 {
	fn arb(r: &mut Rng) -> Val { Val::list(vec![<T74>::arb(r), <T74>::arb(r), <T74>::arb(r)]) }
	fn make(v: &Val) -> Self { Self(<T74>::make(&v.c[0]), <T74>::make(&v.c[1]), <T74>::make(&v.c[2])) }
	fn show(&self) -> Val { Val::list(vec![self.0.show(), self.1.show(), self.2.show()]) }
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(list, input("self", "other"), head("_:self"), base("https://ex.org/"))]
pub struct T84(#[tldr(input("_:self", "_:value"), dataset(("_:head", "T84/p1", "_:rest"), ("_:head", "T84/p2", "_:value", "https://ex.org/g0")), graph(_))] Vec<T74>);
impl Model for T84 {
	fn arb(r: &mut Rng) -> Val { let n = len(r); Val::list((0..n).map(|_| <T74>::arb(r)).collect()) }
	fn make(v: &Val) -> Self { Self(v.c.iter().map(|v| <T74>::make(v)).collect()) }
	fn show(&self) -> Val { Val::list(self.0.iter().map(|x| x.show()).collect()) }
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(base("https://ex.org/"))]
#[tldr(dataset(("_:self", "T85/is", "c2", "g0")), input("self", "other"))]
pub struct T85 {
	#[tldr(graph(_), intro("value", "w"), dataset(("_:value", "T85/p1", "_:other", "https://ex.org/g1"), ("_:self", "T85/p2", "_:w")), input("_:self", "_:value"))] pub foo: T74,
}
impl Model for T85 {
	fn arb(r: &mut Rng) -> Val {
		let _ = &r;
		let mut m = Vec::new();
		m.push(("foo".to_string(), <T74>::arb(r)));
		Val::map(m)
	}
	fn make(v: &Val) -> Self {
		let _ = v;
		Self { foo: field(v, "foo").map(|v| <T74>::make(v)).unwrap() }
	}
	fn show(&self) -> Val {
		let mut m = Vec::new();
		m.push(("foo".to_string(), self.foo.show()));
		Val::map(m)
	}
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(intro("i", "j"), base("https://ex.org/"), prefix("ex" = "https://ex.org/"), dataset(("_:self", "ex:T86/p1", "_:i"), ("_:i", "ex:T86/p2", "_:j"), ("_:self", "ex:T86/is", "ex:c2")))]
pub enum T86 {
	#[tldr(dataset(("_:self", "https://ex.org/T86/p3", "_:v")))] #[tldr(graph(_), intro("v"), input("_:v", "_:j"))] Foo(T74),
	#[tldr(graph(_))] #[tldr(dataset(("_:j", "ex:T86/p4", "_:v"), ("_:j", "ex:T86/p5", "_:w")), input("_:w", "_:v"), intro("v", "w"))] A1(T74),
	#[tldr(intro("v"))] #[tldr(input("_:v", "_:i"), dataset(("_:v", "ex:T86/p6", "_:i", "g0")), graph(_))] A2(T74),
}
impl Model for T86 {
	fn arb(r: &mut Rng) -> Val {
		match r.below(3) { 0 => variant("Foo", <T74>::arb(r)), 1 => variant("A1", <T74>::arb(r)), 2 => variant("A2", <T74>::arb(r)), _ => unreachable!() }
	}
	fn make(v: &Val) -> Self {
		match v.s.as_str() { "Foo" => Self::Foo(<T74>::make(&v.c[0])), "A1" => Self::A1(<T74>::make(&v.c[0])), "A2" => Self::A2(<T74>::make(&v.c[0])), _ => unreachable!() }
	}
	fn show(&self) -> Val {
		match self { Self::Foo(x) => variant("Foo", x.show()), Self::A1(x) => variant("A1", x.show()), Self::A2(x) => variant("A2", x.show()), }
	}
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(set, dataset(("_:value", "ex:p1", "_:self"), ("_:value", "T87/is", "ex:c2", "https://ex.org/g0")), intro("value"), prefix("ex" = "https://ex.org/"), base("https://ex.org/"))]
pub struct T87(#[tldr(input("c1", "_:value"), graph(_), intro(), dataset(("_:value", "T87/p2", "ex:c1")))] Vec<T74>);
impl Model for T87 {
	fn arb(r: &mut Rng) -> Val { let n = len(r); Val::list((0..n).map(|_| <T74>::arb(r)).collect()) }
	fn make(v: &Val) -> Self { Self(v.c.iter().map(|v| <T74>::make(v)).collect()) }
	fn show(&self) -> Val { Val::list(self.0.iter().map(|x| x.show()).collect()) }
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(tuple, base("https://ex.org/doc"), intro("i", "j"), prefix("ex" = "https://ex.org/"), dataset(("_:self", "ex:T88/p1", "_:i"), ("_:i", "T88/p2", "_:j")), input("other", "self"))]
pub struct T88(#[tldr(input("_:v", "_:v"), graph(None), intro("v", "w"), dataset(("_:i", "ex:T88/p3", "_:v"), ("_:j", "T88/p4", "_:w")))] T74, #[tldr(dataset(("_:w", "ex:T88/p6", "_:j", "https://ex.org/g0")), intro("value", "w"), "ex:T88/p5", input("_:self", "_:value"), graph(None))] T74, #[tldr(dataset(("_:j", "ex:T88/p7", "c2")), intro(), graph(None), input("_:j", "_:i"))] T74);
impl Model for T88 {
	fn arb(r: &mut Rng) -> Val { Val::list(vec![<T74>::arb(r), <T74>::arb(r), <T74>::arb(r)]) }
	fn make(v: &Val) -> Self { Self(<T74>::make(&v.c[0]), <T74>::make(&v.c[1]), <T74>::make(&v.c[2])) }
	fn show(&self) -> Val { Val::list(vec![self.0.show(), self.1.show(), self.2.show()]) }
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(input("x", "y"))]
pub struct T89 {
	#[tldr(graph(None), input("_:y", "_:value"), dataset(("_:y", "https://ex.org/T89/p1", "_:value")))] pub zz0: T74,
}
impl Model for T89 {
	fn arb(r: &mut Rng) -> Val {
		let _ = &r;
		let mut m = Vec::new();
		m.push(("zz0".to_string(), <T74>::arb(r)));
		Val::map(m)
	}
	fn make(v: &Val) -> Self {
		let _ = v;
		Self { zz0: field(v, "zz0").map(|v| <T74>::make(v)).unwrap() }
	}
	fn show(&self) -> Val {
		let mut m = Vec::new();
		m.push(("zz0".to_string(), self.zz0.show()));
		Val::map(m)
	}
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(tail("https://ex.org/nil"), list)]
pub struct T90(#[tldr(graph(None), intro("v"), input("_:head", "_:v"), dataset(("_:head", "https://ex.org/T90/p1", "_:rest"), ("_:head", "https://ex.org/T90/p2", "_:v")))] Vec<T74>);
impl Model for T90 {
	fn arb(r: &mut Rng) -> Val { let n = len(r); Val::list((0..n).map(|_| <T74>::arb(r)).collect()) }
	fn make(v: &Val) -> Self { Self(v.c.iter().map(|v| <T74>::make(v)).collect()) }
	fn show(&self) -> Val { Val::list(self.0.iter().map(|x| x.show()).collect()) }
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(base("https://ex.org/"))]
pub enum T91 {
	#[tldr(input("_:self", "_:self"), graph(None))] Foo(T74),
	#[tldr(dataset(("_:self", "p0", "_:v"), ("_:self", "T91/p2", "_:w")))] #[tldr(intro("v", "w"), graph(None), input("_:v", "_:v"))] Bar(T74),
}
impl Model for T91 {
	fn arb(r: &mut Rng) -> Val {
		match r.below(2) { 0 => variant("Foo", <T74>::arb(r)), 1 => variant("Bar", <T74>::arb(r)), _ => unreachable!() }
	}
	fn make(v: &Val) -> Self {
		match v.s.as_str() { "Foo" => Self::Foo(<T74>::make(&v.c[0])), "Bar" => Self::Bar(<T74>::make(&v.c[0])), _ => unreachable!() }
	}
	fn show(&self) -> Val {
		match self { Self::Foo(x) => variant("Foo", x.show()), Self::Bar(x) => variant("Bar", x.show()), }
	}
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(set, intro("value"), dataset(("_:self", "https://ex.org/T92/p1", "_:value"), ("_:value", "https://ex.org/T92/is", "https://ex.org/c0", "https://ex.org/g1")))]
pub struct T92(#[tldr(graph(None), input("_:value", "_:value"), dataset(("https://ex.org/c1", "https://ex.org/T92/p2", "_:value", "_:self"), ("_:value", "https://ex.org/T92/is", "https://ex.org/c2")))] Vec<T74>);
impl Model for T92 {
	fn arb(r: &mut Rng) -> Val { let n = len(r); Val::list((0..n).map(|_| <T74>::arb(r)).collect()) }
	fn make(v: &Val) -> Self { Self(v.c.iter().map(|v| <T74>::make(v)).collect()) }
	fn show(&self) -> Val { Val::list(self.0.iter().map(|x| x.show()).collect()) }
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(base("https://ex.org/doc"), set, prefix("ex" = "https://ex.org/"), input("a"))]
pub struct T93(#[tldr("ex:p0", input("_:a", "_:self"), graph(Some("g1")), intro("self"))] Vec<T74>);
impl Model for T93 {
	fn arb(r: &mut Rng) -> Val { let n = len(r); Val::list((0..n).map(|_| <T74>::arb(r)).collect()) }
	fn make(v: &Val) -> Self { Self(v.c.iter().map(|v| <T74>::make(v)).collect()) }
	fn show(&self) -> Val { Val::list(self.0.iter().map(|x| x.show()).collect()) }
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(tuple, prefix("ex" = "https://ex.org/"), dataset(("_:a", "ex:T94/p1", "_:value")), base("https://ex.org/doc"), input("a"), intro("value"))]
pub struct T94(#[tldr("ex:T94/p2")] #[tldr(input("_:v", "_:v"), graph(Some("g0")), intro("v"))] T74, #[tldr(input("_:value", "_:self"), "ex:T94/p3", dataset(("_:self", "ex:T94/is", "c1")), intro("self"), graph(Some("g1")))] T74);
impl Model for T94 {
	fn arb(r: &mut Rng) -> Val { Val::list(vec![<T74>::arb(r), <T74>::arb(r)]) }
	fn make(v: &Val) -> Self { Self(<T74>::make(&v.c[0]), <T74>::make(&v.c[1])) }
	fn show(&self) -> Val { Val::list(vec![self.0.show(), self.1.show()]) }
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(sum, prefix("ex" = "https://ex.org/a/"))]
pub enum T95 {
	#[tldr(input("_:self", "_:v"), graph(Some("https://ex.org/g1")), intro("v"), dataset(("_:self", "https://ex.org/p2", "_:v")))] A0(T74),
	#[tldr(graph(Some("https://ex.org/g1")))] #[tldr(input("_:self", "_:self"))] Bar(T74),
	#[tldr(input("_:self", "_:v"))] #[tldr(dataset(("_:self", "https://ex.org/T95/p2", "_:v")), intro("v"), graph(Some("https://ex.org/g0")))] Baz(T74),
}
impl Model for T95 {
	fn arb(r: &mut Rng) -> Val {
		match r.below(3) { 0 => variant("A0", <T74>::arb(r)), 1 => variant("Bar", <T74>::arb(r)), 2 => variant("Baz", <T74>::arb(r)), _ => unreachable!() }
	}
	fn make(v: &Val) -> Self {
		match v.s.as_str() { "A0" => Self::A0(<T74>::make(&v.c[0])), "Bar" => Self::Bar(<T74>::make(&v.c[0])), "Baz" => Self::Baz(<T74>::make(&v.c[0])), _ => unreachable!() }
	}
	fn show(&self) -> Val {
		match self { Self::A0(x) => variant("A0", x.show()), Self::Bar(x) => variant("Bar", x.show()), Self::Baz(x) => variant("Baz", x.show()), }
	}
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(intro("i"), dataset(("_:self", "https://ex.org/T96/p1", "_:i", "https://ex.org/g1")), input("other", "self"))]
pub struct T96 {
	#[tldr(intro("self"))] #[tldr(graph(Some("https://ex.org/g1")), dataset(("_:i", "https://ex.org/T96/p2", "_:self")), input("_:self", "_:self"))] pub foo: T74,
}
impl Model for T96 {
	fn arb(r: &mut Rng) -> Val {
		let _ = &r;
		let mut m = Vec::new();
		m.push(("foo".to_string(), <T74>::arb(r)));
		Val::map(m)
	}
	fn make(v: &Val) -> Self {
		let _ = v;
		Self { foo: field(v, "foo").map(|v| <T74>::make(v)).unwrap() }
	}
	fn show(&self) -> Val {
		let mut m = Vec::new();
		m.push(("foo".to_string(), self.foo.show()));
		Val::map(m)
	}
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(list)]
#[tldr(dataset(("_:y", "https://ex.org/T97/p1", "_:i"), ("_:j", "T97/p2", "_:y")), prefix("ex" = "https://ex.org/a/"), input("x", "y"), head("_:x"), intro("i", "j"), base("https://ex.org/"))]
pub struct T97(#[tldr(rest("other"))] #[tldr(input("_:j", "_:value"))] #[tldr(graph(Some("g0")), dataset(("_:head", "https://ex.org/T97/p3", "_:other"), ("_:head", "T97/p4", "_:value")))] Vec<T74>);
impl Model for T97 {
	fn arb(r: &mut Rng) -> Val { let n = len(r); Val::list((0..n).map(|_| <T74>::arb(r)).collect()) }
	fn make(v: &Val) -> Self { Self(v.c.iter().map(|v| <T74>::make(v)).collect()) }
	fn show(&self) -> Val { Val::list(self.0.iter().map(|x| x.show()).collect()) }
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(dataset(("_:self", "https://ex.org/T98/is", "c1", "g1")))]
#[tldr(base("https://ex.org/doc"))]
pub struct T98 {
	#[tldr(intro("v"), dataset(("_:self", "p1", "_:v")), graph(Some("_:v")), input("_:v", "_:self"))] pub foo: T74,
}
impl Model for T98 {
	fn arb(r: &mut Rng) -> Val {
		let _ = &r;
		let mut m = Vec::new();
		m.push(("foo".to_string(), <T74>::arb(r)));
		Val::map(m)
	}
	fn make(v: &Val) -> Self {
		let _ = v;
		Self { foo: field(v, "foo").map(|v| <T74>::make(v)).unwrap() }
	}
	fn show(&self) -> Val {
		let mut m = Vec::new();
		m.push(("foo".to_string(), self.foo.show()));
		Val::map(m)
	}
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(prefix("ex" = "https://ex.org/"), intro("i"), base("https://ex.org/"), input("self"), dataset(("_:i", "T99/p1", "_:self")))]
pub enum T99 {
	#[tldr(intro("v", "w"), dataset(("_:self", "ex:T99/p2", "_:v"), ("_:w", "https://ex.org/T99/p3", "_:self", "_:self")), graph(Some("_:v")), input("_:w", "_:v"))] Foo(T74),
}
impl Model for T99 {
	fn arb(r: &mut Rng) -> Val {
		match r.below(1) { 0 => variant("Foo", <T74>::arb(r)), _ => unreachable!() }
	}
	fn make(v: &Val) -> Self {
		match v.s.as_str() { "Foo" => Self::Foo(<T74>::make(&v.c[0])), _ => unreachable!() }
	}
	fn show(&self) -> Val {
		match self { Self::Foo(x) => variant("Foo", x.show()), }
	}
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(intro("i"), dataset(("_:i", "https://ex.org/T100/p1", "https://ex.org/c0")), set, prefix("ex" = "https://ex.org/a/"), input("other", "self"))]
pub struct T100(#[tldr("https://ex.org/T100/p2")] #[tldr(input("_:value", "_:i"), graph(Some("_:other")), intro("value"))] Vec<T74>);
impl Model for T100 {
	fn arb(r: &mut Rng) -> Val { let n = len(r); Val::list((0..n).map(|_| <T74>::arb(r)).collect()) }
	fn make(v: &Val) -> Self { Self(v.c.iter().map(|v| <T74>::make(v)).collect()) }
	fn show(&self) -> Val { Val::list(self.0.iter().map(|x| x.show()).collect()) }
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(prefix("ex" = "https://ex.org/"), intro("value"), input("other", "self"), dataset(("_:self", "ex:T101/p1", "_:value")))]
pub struct T101(#[tldr(input("_:self", "_:v"), "https://ex.org/T101/p2", graph(Some("_:v")), dataset(("https://ex.org/c1", "ex:T101/p3", "_:w"), ("_:value", "ex:T101/is", "https://ex.org/c2")), intro("v", "w"))] T74);
impl Model for T101 {
	fn arb(r: &mut Rng) -> Val { Val::list(vec![<T74>::arb(r)]) }
	fn make(v: &Val) -> Self { Self(<T74>::make(&v.c[0])) }
	fn show(&self) -> Val { Val::list(vec![self.0.show()]) }
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(list, intro("value"), input("other", "self"), dataset(("_:other", "https://ex.org/T102/p1", "_:value")))]
pub struct T102(#[tldr(input("_:v", "_:self"), intro("v", "w"), dataset(("_:head", "https://ex.org/T102/p2", "_:rest"), ("_:head", "https://ex.org/T102/p3", "_:v", "https://ex.org/g0"), ("_:head", "https://ex.org/T102/p4", "_:w", "https://ex.org/g0")), graph(Some("_:other")))] Vec<T74>);
impl Model for T102 {
	fn arb(r: &mut Rng) -> Val { let n = len(r); Val::list((0..n).map(|_| <T74>::arb(r)).collect()) }
	fn make(v: &Val) -> Self { Self(v.c.iter().map(|v| <T74>::make(v)).collect()) }
	fn show(&self) -> Val { Val::list(self.0.iter().map(|x| x.show()).collect()) }
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(record)]
#[tldr(base("https://ex.org/"), input("a"))]
pub struct T103 {
	#[tldr(intro())] #[tldr(input("_:a"))] pub foo: Option<T75>,
}
impl Model for T103 {
	fn arb(r: &mut Rng) -> Val {
		let _ = &r;
		let mut m = Vec::new();
		if r.chance(60) { m.push(("foo".to_string(), <T75>::arb(r))); }
		Val::map(m)
	}
	fn make(v: &Val) -> Self {
		let _ = v;
		Self { foo: field(v, "foo").map(|v| <T75>::make(v)) }
	}
	fn show(&self) -> Val {
		let mut m = Vec::new();
		if let Some(x) = &self.foo { m.push(("foo".to_string(), x.show())); }
		Val::map(m)
	}
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(sum)]
#[tldr(prefix("ex" = "https://ex.org/a/"))]
pub enum T104 {
	Foo(T75),
	Bar(T75),
}
impl Model for T104 {
	fn arb(r: &mut Rng) -> Val {
		match r.below(2) { 0 => variant("Foo", <T75>::arb(r)), 1 => variant("Bar", <T75>::arb(r)), _ => unreachable!() }
	}
	fn make(v: &Val) -> Self {
		match v.s.as_str() { "Foo" => Self::Foo(<T75>::make(&v.c[0])), "Bar" => Self::Bar(<T75>::make(&v.c[0])), _ => unreachable!() }
	}
	fn show(&self) -> Val {
		match self { Self::Foo(x) => variant("Foo", x.show()), Self::Bar(x) => variant("Bar", x.show()), }
	}
}

#[derive(SerializeLd, DeserializeLd)]
pub struct T105(#[tldr(intro("v", "w"), input("_:v"), dataset(("_:self", "https://ex.org/T105/p1", "_:v", "_:self"), ("_:w", "https://ex.org/T105/p2", "_:v", "https://ex.org/g1")), graph(_))] T75, #[tldr("https://ex.org/T105/p3", graph(_))] T75, #[tldr(intro("v"), dataset(("_:self", "https://ex.org/T105/p4", "_:v")), input("_:v"), graph(_))] T75);
impl Model for T105 {
	fn arb(r: &mut Rng) -> Val { Val::list(vec![<T75>::arb(r), <T75>::arb(r), <T75>::arb(r)]) }
	fn make(v: &Val) -> Self { Self(<T75>::make(&v.c[0]), <T75>::make(&v.c[1]), <T75>::make(&v.c[2])) }
	fn show(&self) -> Val { Val::list(vec![self.0.show(), self.1.show(), self.2.show()]) }
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(set, input("self"), prefix("ex" = "https://ex.org/a/"), base("https://ex.org/doc"))]
pub struct T106(#[tldr(graph(_), intro(), input("_:self"))] Vec<T75>);
impl Model for T106 {
	fn arb(r: &mut Rng) -> Val { let n = len(r); Val::list((0..n).map(|_| <T75>::arb(r)).collect()) }
	fn make(v: &Val) -> Self { Self(v.c.iter().map(|v| <T75>::make(v)).collect()) }
	fn show(&self) -> Val { Val::list(self.0.iter().map(|x| x.show()).collect()) }
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(set, dataset(("_:self", "https://ex.org/T107/is", "e:c1")), prefix("e" = "https://ex.org/"))]
pub struct T107(#[tldr("e:T107/p1", intro("v"), graph(None), input("_:v"))] Vec<T75>);
impl Model for T107 {
	fn arb(r: &mut Rng) -> Val { let n = len(r); Val::list((0..n).map(|_| <T75>::arb(r)).collect()) }
	fn make(v: &Val) -> Self { Self(v.c.iter().map(|v| <T75>::make(v)).collect()) }
	fn show(&self) -> Val { Val::list(self.0.iter().map(|x| x.show()).collect()) }
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(list, input("x", "y"), prefix("ex" = "https://ex.org/"), head("_:x"))]
pub struct T108(#[tldr(input("_:v"), intro("v"), dataset(("_:head", "https://ex.org/T108/p1", "_:rest"), ("_:head", "ex:T108/p2", "_:v")), graph(None))] Vec<T75>);
impl Model for T108 {
	fn arb(r: &mut Rng) -> Val { let n = len(r); Val::list((0..n).map(|_| <T75>::arb(r)).collect()) }
	fn make(v: &Val) -> Self { Self(v.c.iter().map(|v| <T75>::make(v)).collect()) }
	fn show(&self) -> Val { Val::list(self.0.iter().map(|x| x.show()).collect()) }
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(set)]
#[tldr(base("https://ex.org/doc"), prefix("e" = "https://ex.org/"))]
pub struct T109(#[tldr(input("e:c2"), intro(), graph(Some("g1")))] Vec<T75>);
impl Model for T109 {
	fn arb(r: &mut Rng) -> Val { let n = len(r); Val::list((0..n).map(|_| <T75>::arb(r)).collect()) }
	fn make(v: &Val) -> Self { Self(v.c.iter().map(|v| <T75>::make(v)).collect()) }
	fn show(&self) -> Val { Val::list(self.0.iter().map(|x| x.show()).collect()) }
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(prefix("ex" = "https://ex.org/a/"), dataset(("_:i", "https://ex.org/T110/p1", "https://ex.org/c0")), intro("i"))]
pub struct T110(#[tldr(graph(Some("https://ex.org/g0")))] #[tldr(input("_:self"), intro())] T75, #[tldr(graph(Some("https://ex.org/g0")), dataset(("_:self", "https://ex.org/T110/p2", "_:value", "https://ex.org/g1")))] T75);
impl Model for T110 {
	fn arb(r: &mut Rng) -> Val { Val::list(vec![<T75>::arb(r), <T75>::arb(r)]) }
	fn make(v: &Val) -> Self { Self(<T75>::make(&v.c[0]), <T75>::make(&v.c[1])) }
	fn show(&self) -> Val { Val::list(vec![self.0.show(), self.1.show()]) }
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(prefix("e" = "https://ex.org/"))]
#[tldr(dataset(("_:self", "https://ex.org/T111/is", "e:c1", "https://ex.org/g1")))]
pub enum T111 {
	#[tldr(graph(Some("_:self")), input("_:self"))] Foo(T75),
	#[tldr(dataset(("_:self", "https://ex.org/p0", "e:c1")))] #[tldr(graph(Some("_:self")))] A1(T75),
}
impl Model for T111 {
	fn arb(r: &mut Rng) -> Val {
		match r.below(2) { 0 => variant("Foo", <T75>::arb(r)), 1 => variant("A1", <T75>::arb(r)), _ => unreachable!() }
	}
	fn make(v: &Val) -> Self {
		match v.s.as_str() { "Foo" => Self::Foo(<T75>::make(&v.c[0])), "A1" => Self::A1(<T75>::make(&v.c[0])), _ => unreachable!() }
	}
	fn show(&self) -> Val {
		match self { Self::Foo(x) => variant("Foo", x.show()), Self::A1(x) => variant("A1", x.show()), }
	}
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(prefix("ex" = "https://ex.org/a/"), list)]
pub struct T112(#[tldr(head("node"), rest("r"))] #[tldr(input("_:v"))] #[tldr(graph(Some("_:node")), intro("v"), dataset(("_:node", "https://ex.org/T112/p1", "_:r"), ("_:node", "https://ex.org/T112/p2", "_:v")))] Vec<T75>);
impl Model for T112 {
	fn arb(r: &mut Rng) -> Val { let n = len(r); Val::list((0..n).map(|_| <T75>::arb(r)).collect()) }
	fn make(v: &Val) -> Self { Self(v.c.iter().map(|v| <T75>::make(v)).collect()) }
	fn show(&self) -> Val { Val::list(self.0.iter().map(|x| x.show()).collect()) }
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(base("https://ex.org/doc"))]
pub enum T113 {
	#[tldr(intro("v"), input("_:v", "_:v"), dataset(("_:self", "T113/p1", "_:v")))] A0(T76),
	#[tldr(dataset(("_:self", "T113/is", "c0")), input("_:self", "_:self"))] A1(T76),
}
impl Model for T113 {
	fn arb(r: &mut Rng) -> Val {
		match r.below(2) { 0 => variant("A0", <T76>::arb(r)), 1 => variant("A1", <T76>::arb(r)), _ => unreachable!() }
	}
	fn make(v: &Val) -> Self {
		match v.s.as_str() { "A0" => Self::A0(<T76>::make(&v.c[0])), "A1" => Self::A1(<T76>::make(&v.c[0])), _ => unreachable!() }
	}
	fn show(&self) -> Val {
		match self { Self::A0(x) => variant("A0", x.show()), Self::A1(x) => variant("A1", x.show()), }
	}
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(input("a"), base("https://ex.org/doc"))]
pub struct T114 {
	#[tldr("T114/p1", dataset(("_:value", "https://ex.org/T114/p2", "_:w", "g0")), intro("value", "w"), input("_:value", "_:a"))] pub foo: T76,
}
impl Model for T114 {
	fn arb(r: &mut Rng) -> Val {
		let _ = &r;
		let mut m = Vec::new();
		m.push(("foo".to_string(), <T76>::arb(r)));
		Val::map(m)
	}
	fn make(v: &Val) -> Self {
		let _ = v;
		Self { foo: field(v, "foo").map(|v| <T76>::make(v)).unwrap() }
	}
	fn show(&self) -> Val {
		let mut m = Vec::new();
		m.push(("foo".to_string(), self.foo.show()));
		Val::map(m)
	}
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(list, input("other", "self"), prefix("e" = "https://ex.org/"), head("_:self"), tail("e:nil"))]
pub struct T115(#[tldr(input("_:other", "_:v"))] #[tldr(graph(_), dataset(("_:head", "https://ex.org/T115/p1", "_:rest"), ("_:head", "e:T115/p2", "_:v")), intro("v"))] Vec<T76>);
impl Model for T115 {
	fn arb(r: &mut Rng) -> Val { let n = len(r); Val::list((0..n).map(|_| <T76>::arb(r)).collect()) }
	fn make(v: &Val) -> Self { Self(v.c.iter().map(|v| <T76>::make(v)).collect()) }
	fn show(&self) -> Val { Val::list(self.0.iter().map(|x| x.show()).collect()) }
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(intro("i"), prefix("ex" = "https://ex.org/"), input("self"), dataset(("_:i", "ex:T116/p1", "_:self"), ("_:self", "https://ex.org/T116/is", "ex:c0")))]
pub struct T116 {
	#[tldr(input("_:value", "_:value"))] #[tldr(graph(_), "ex:T116/p2", dataset(("_:value", "ex:T116/is", "ex:c1")))] pub zz0: Option<T76>,
}
impl Model for T116 {
	fn arb(r: &mut Rng) -> Val {
		let _ = &r;
		let mut m = Vec::new();
		if r.chance(60) { m.push(("zz0".to_string(), <T76>::arb(r))); }
		Val::map(m)
	}
	fn make(v: &Val) -> Self {
		let _ = v;
		Self { zz0: field(v, "zz0").map(|v| <T76>::make(v)) }
	}
	fn show(&self) -> Val {
		let mut m = Vec::new();
		if let Some(x) = &self.zz0 { m.push(("zz0".to_string(), x.show())); }
		Val::map(m)
	}
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(tuple, prefix("ex" = "https://ex.org/a/"))]
pub struct T117(#[tldr(input("_:v", "_:w"))] #[tldr(graph(None), intro("v", "w"), dataset(("_:self", "https://ex.org/p2", "_:v"), ("_:self", "https://ex.org/T117/p2", "_:w")))] T76);
impl Model for T117 {
	fn arb(r: &mut Rng) -> Val { Val::list(vec![<T76>::arb(r)]) }
	fn make(v: &Val) -> Self { Self(<T76>::make(&v.c[0])) }
	fn show(&self) -> Val { Val::list(vec![self.0.show()]) }
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(list, prefix("ex" = "https://ex.org/"), input("other", "self"), dataset(("_:self", "https://ex.org/T118/is", "ex:c0", "ex:g0")))]
pub struct T118(#[tldr(input("_:v", "ex:c2"), dataset(("_:head", "ex:T118/p1", "_:rest"), ("_:head", "ex:T118/p2", "_:v"), ("_:head", "ex:p1", "_:w")), graph(None), intro("v", "w"))] Vec<T76>);
impl Model for T118 {
	fn arb(r: &mut Rng) -> Val { let n = len(r); Val::list((0..n).map(|_| <T76>::arb(r)).collect()) }
	fn make(v: &Val) -> Self { Self(v.c.iter().map(|v| <T76>::make(v)).collect()) }
	fn show(&self) -> Val { Val::list(self.0.iter().map(|x| x.show()).collect()) }
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(list, prefix("e" = "https://ex.org/"), tail("e:nil"), base("https://ex.org/"))]
pub struct T119(#[tldr(dataset(("_:head", "https://ex.org/T119/p1", "_:rest"), ("_:head", "e:T119/p2", "_:v")), graph(Some("e:g1")), input("_:v", "_:head"), intro("v"))] Vec<T76>);
impl Model for T119 {
	fn arb(r: &mut Rng) -> Val { let n = len(r); Val::list((0..n).map(|_| <T76>::arb(r)).collect()) }
	fn make(v: &Val) -> Self { Self(v.c.iter().map(|v| <T76>::make(v)).collect()) }
	fn show(&self) -> Val { Val::list(self.0.iter().map(|x| x.show()).collect()) }
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(input("self", "other"), intro("value"), dataset(("https://ex.org/c1", "https://ex.org/T120/p1", "_:value"), ("_:self", "https://ex.org/T120/is", "https://ex.org/c1")))]
pub struct T120(#[tldr(dataset(("_:self", "https://ex.org/T120/p2", "_:value"), ("_:other", "https://ex.org/T120/p3", "_:w")))] #[tldr(intro("value", "w"), input("_:value", "_:value"), graph(Some("https://ex.org/g0")))] T76, #[tldr("https://ex.org/T120/p4")] #[tldr(input("_:v", "_:v"), graph(Some("https://ex.org/g1")), intro("v", "w"), dataset(("_:v", "https://ex.org/T120/p5", "_:w")))] T76);
impl Model for T120 {
	fn arb(r: &mut Rng) -> Val { Val::list(vec![<T76>::arb(r), <T76>::arb(r)]) }
	fn make(v: &Val) -> Self { Self(<T76>::make(&v.c[0]), <T76>::make(&v.c[1])) }
	fn show(&self) -> Val { Val::list(vec![self.0.show(), self.1.show()]) }
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(input("self"))]
#[tldr(base("https://ex.org/doc"), dataset(("_:self", "T121/p1", "_:i", "g0")), intro("i"), prefix("ex" = "https://ex.org/a/"))]
pub struct T121 {
	#[tldr(graph(Some("_:self")), input("_:i", "_:value"), dataset(("_:self", "https://ex.org/T121/p2", "_:value")))] pub zz0: T76,
}
impl Model for T121 {
	fn arb(r: &mut Rng) -> Val {
		let _ = &r;
		let mut m = Vec::new();
		m.push(("zz0".to_string(), <T76>::arb(r)));
		Val::map(m)
	}
	fn make(v: &Val) -> Self {
		let _ = v;
		Self { zz0: field(v, "zz0").map(|v| <T76>::make(v)).unwrap() }
	}
	fn show(&self) -> Val {
		let mut m = Vec::new();
		m.push(("zz0".to_string(), self.zz0.show()));
		Val::map(m)
	}
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(tail("https://ex.org/nil"), list, prefix("ex" = "https://ex.org/"))]
pub struct T122(#[tldr(rest("other"))] #[tldr(input("ex:c0", "_:v"), dataset(("_:head", "ex:T122/p1", "_:other"), ("_:head", "ex:T122/p2", "_:v", "https://ex.org/g0")), graph(Some("_:self")), intro("v"))] Vec<T76>);
impl Model for T122 {
	fn arb(r: &mut Rng) -> Val { let n = len(r); Val::list((0..n).map(|_| <T76>::arb(r)).collect()) }
	fn make(v: &Val) -> Self { Self(v.c.iter().map(|v| <T76>::make(v)).collect()) }
	fn show(&self) -> Val { Val::list(self.0.iter().map(|x| x.show()).collect()) }
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(prefix("ex" = "https://ex.org/a/"))]
pub struct T123(#[tldr(dataset(("https://ex.org/c0", "https://ex.org/T123/p1", "_:self")))] #[tldr(input("_:self", "_:self"), intro("self"))] T77);
impl Model for T123 {
	fn arb(r: &mut Rng) -> Val { Val::list(vec![<T77>::arb(r)]) }
	fn make(v: &Val) -> Self { Self(<T77>::make(&v.c[0])) }
	fn show(&self) -> Val { Val::list(vec![self.0.show()]) }
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(dataset(("_:self", "https://ex.org/T124/p1", "_:i"), ("_:self", "https://ex.org/T124/p2", "_:j")))]
#[tldr(intro("i", "j"), prefix("ex" = "https://ex.org/a/"))]
pub struct T124 {
	#[tldr(dataset(("_:i", "https://ex.org/T124/p4", "_:w", "https://ex.org/g1")), intro("value", "w"), "https://ex.org/T124/p3", input("_:value", "_:j"))] pub zz0: T77,
}
impl Model for T124 {
	fn arb(r: &mut Rng) -> Val {
		let _ = &r;
		let mut m = Vec::new();
		m.push(("zz0".to_string(), <T77>::arb(r)));
		Val::map(m)
	}
	fn make(v: &Val) -> Self {
		let _ = v;
		Self { zz0: field(v, "zz0").map(|v| <T77>::make(v)).unwrap() }
	}
	fn show(&self) -> Val {
		let mut m = Vec::new();
		m.push(("zz0".to_string(), self.zz0.show()));
		Val::map(m)
	}
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(prefix("e" = "https://ex.org/"))]
#[tldr(input("x", "y"), dataset(("_:x", "https://ex.org/T125/p1", "_:i")), intro("i"), base("https://ex.org/"))]
pub struct T125 {
	#[tldr(graph(_), dataset(("_:self", "T125/p2", "_:x")), input("_:x", "_:self"), intro("self"))] pub zz0: T77,
}
impl Model for T125 {
	fn arb(r: &mut Rng) -> Val {
		let _ = &r;
		let mut m = Vec::new();
		m.push(("zz0".to_string(), <T77>::arb(r)));
		Val::map(m)
	}
	fn make(v: &Val) -> Self {
		let _ = v;
		Self { zz0: field(v, "zz0").map(|v| <T77>::make(v)).unwrap() }
	}
	fn show(&self) -> Val {
		let mut m = Vec::new();
		m.push(("zz0".to_string(), self.zz0.show()));
		Val::map(m)
	}
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(prefix("e" = "https://ex.org/"))]
#[tldr(dataset(("_:self", "e:T126/p1", "_:i"), ("_:i", "e:T126/p2", "_:j")), input("self"), intro("i", "j"))]
pub struct T126(#[tldr(intro("value", "w"), dataset(("_:j", "e:T126/p3", "_:value"), ("_:self", "e:T126/p4", "_:w", "e:g1")), input("_:value", "_:value"), graph(_))] T77);
impl Model for T126 {
	fn arb(r: &mut Rng) -> Val { Val::list(vec![<T77>::arb(r)]) }
	fn make(v: &Val) -> Self { Self(<T77>::make(&v.c[0])) }
	fn show(&self) -> Val { Val::list(vec![self.0.show()]) }
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(list, prefix("e" = "https://ex.org/"), input("self"))]
pub struct T127(#[tldr(head("node"))] #[tldr(dataset(("_:node", "https://ex.org/T127/p1", "_:rest"), ("_:node", "e:T127/p2", "_:value")))] #[tldr(graph(None), input("_:self", "_:value"))] Vec<T77>);
impl Model for T127 {
	fn arb(r: &mut Rng) -> Val { let n = len(r); Val::list((0..n).map(|_| <T77>::arb(r)).collect()) }
	fn make(v: &Val) -> Self { Self(v.c.iter().map(|v| <T77>::make(v)).collect()) }
	fn show(&self) -> Val { Val::list(self.0.iter().map(|x| x.show()).collect()) }
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(set)]
#[tldr(prefix("ex" = "https://ex.org/"))]
pub struct T128(#[tldr("ex:T128/p1", input("_:value", "_:w"), intro("value", "w"), dataset(("_:self", "https://ex.org/p1", "_:w")), graph(None))] Vec<T77>);
impl Model for T128 {
	fn arb(r: &mut Rng) -> Val { let n = len(r); Val::list((0..n).map(|_| <T77>::arb(r)).collect()) }
	fn make(v: &Val) -> Self { Self(v.c.iter().map(|v| <T77>::make(v)).collect()) }
	fn show(&self) -> Val { Val::list(self.0.iter().map(|x| x.show()).collect()) }
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(input("x", "y"))]
#[tldr(base("https://ex.org/"), prefix("e" = "https://ex.org/"))]
pub struct T129 {
	#[tldr(dataset(("_:y", "T129/p1", "_:self", "_:y")))] #[tldr(graph(Some("e:g0")), input("_:y", "_:self"), intro("self"))] pub zz0: Option<T77>,
}
impl Model for T129 {
	fn arb(r: &mut Rng) -> Val {
		let _ = &r;
		let mut m = Vec::new();
		if r.chance(60) { m.push(("zz0".to_string(), <T77>::arb(r))); }
		Val::map(m)
	}
	fn make(v: &Val) -> Self {
		let _ = v;
		Self { zz0: field(v, "zz0").map(|v| <T77>::make(v)) }
	}
	fn show(&self) -> Val {
		let mut m = Vec::new();
		if let Some(x) = &self.zz0 { m.push(("zz0".to_string(), x.show())); }
		Val::map(m)
	}
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(dataset(("_:self", "T130/p1", "_:i"), ("_:i", "T130/p2", "_:j")))]
#[tldr(base("https://ex.org/doc"), prefix("ex" = "https://ex.org/"), intro("i", "j"))]
pub struct T130(#[tldr(graph(Some("g1")), dataset(("_:j", "ex:p2", "_:v", "_:i"), ("_:j", "ex:T130/is", "c2")), input("_:i", "_:v"), intro("v"))] T77);
impl Model for T130 {
	fn arb(r: &mut Rng) -> Val { Val::list(vec![<T77>::arb(r)]) }
	fn make(v: &Val) -> Self { Self(<T77>::make(&v.c[0])) }
	fn show(&self) -> Val { Val::list(vec![self.0.show()]) }
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(set, dataset(("_:i", "T131/p1", "_:self", "_:self")), intro("i"), base("https://ex.org/doc"))]
pub struct T131(#[tldr(input("_:i", "_:v"), intro("v"), dataset(("_:self", "T131/p2", "_:v"), ("_:i", "https://ex.org/T131/is", "c1")), graph(Some("_:v")))] Vec<T77>);
impl Model for T131 {
	fn arb(r: &mut Rng) -> Val { let n = len(r); Val::list((0..n).map(|_| <T77>::arb(r)).collect()) }
	fn make(v: &Val) -> Self { Self(v.c.iter().map(|v| <T77>::make(v)).collect()) }
	fn show(&self) -> Val { Val::list(self.0.iter().map(|x| x.show()).collect()) }
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(prefix("e" = "https://ex.org/"), input("self"))]
pub enum T132 {
	#[tldr(dataset(("_:self", "https://ex.org/T132/p1", "_:v")))] #[tldr(input("_:v", "_:v"), graph(Some("_:self")), intro("v"))] Foo(T77),
}
impl Model for T132 {
	fn arb(r: &mut Rng) -> Val {
		match r.below(1) { 0 => variant("Foo", <T77>::arb(r)), _ => unreachable!() }
	}
	fn make(v: &Val) -> Self {
		match v.s.as_str() { "Foo" => Self::Foo(<T77>::make(&v.c[0])), _ => unreachable!() }
	}
	fn show(&self) -> Val {
		match self { Self::Foo(x) => variant("Foo", x.show()), }
	}
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(base("https://ex.org/doc"), prefix("e" = "https://ex.org/"))]
pub struct T133 {
	#[tldr("T133/p1", graph(Some("g1")))] pub foo: Option<T131>,
	#[tldr(input("_:value"), dataset(("_:self", "T133/p2", "_:value")), graph(Some("e:g0")))] pub bar: T131,
}
impl Model for T133 {
	fn arb(r: &mut Rng) -> Val {
		let _ = &r;
		let mut m = Vec::new();
		if r.chance(60) { m.push(("foo".to_string(), <T131>::arb(r))); }
		m.push(("bar".to_string(), <T131>::arb(r)));
		Val::map(m)
	}
	fn make(v: &Val) -> Self {
		let _ = v;
		Self { foo: field(v, "foo").map(|v| <T131>::make(v)), bar: field(v, "bar").map(|v| <T131>::make(v)).unwrap() }
	}
	fn show(&self) -> Val {
		let mut m = Vec::new();
		if let Some(x) = &self.foo { m.push(("foo".to_string(), x.show())); }
		m.push(("bar".to_string(), self.bar.show()));
		Val::map(m)
	}
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(prefix("e" = "https://ex.org/"))]
#[tldr(sum, input("self", "other"))]
pub enum T134 {
	#[tldr(input("_:self", "_:v"))] #[tldr(graph(Some("https://ex.org/g1")), dataset(("_:self", "e:T134/p1", "_:v", "_:self"), ("_:v", "https://ex.org/T134/p2", "_:w"), ("_:w", "https://ex.org/T134/is", "e:c2")), intro("v", "w"))] Foo(T129),
	#[tldr(graph(Some("https://ex.org/g1")))] #[tldr(input("_:v", "_:other"), intro("v"), dataset(("_:self", "e:T134/p3", "_:v", "e:g1")))] Bar(T129),
}
impl Model for T134 {
	fn arb(r: &mut Rng) -> Val {
		match r.below(2) { 0 => variant("Foo", <T129>::arb(r)), 1 => variant("Bar", <T129>::arb(r)), _ => unreachable!() }
	}
	fn make(v: &Val) -> Self {
		match v.s.as_str() { "Foo" => Self::Foo(<T129>::make(&v.c[0])), "Bar" => Self::Bar(<T129>::make(&v.c[0])), _ => unreachable!() }
	}
	fn show(&self) -> Val {
		match self { Self::Foo(x) => variant("Foo", x.show()), Self::Bar(x) => variant("Bar", x.show()), }
	}
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(intro("value"), dataset(("_:y", "https://ex.org/T135/p1", "_:value")), set, base("https://ex.org/"), input("x", "y"))]
pub struct T135(#[tldr(graph(Some("g0")), dataset(("_:y", "T135/p2", "_:v"), ("_:x", "https://ex.org/T135/p3", "_:w"), ("_:y", "https://ex.org/T135/is", "c1")), input("_:v"), intro("v", "w"))] Vec<T111>);
impl Model for T135 {
	fn arb(r: &mut Rng) -> Val { let n = len(r); Val::list((0..n).map(|_| <T111>::arb(r)).collect()) }
	fn make(v: &Val) -> Self { Self(v.c.iter().map(|v| <T111>::make(v)).collect()) }
	fn show(&self) -> Val { Val::list(self.0.iter().map(|x| x.show()).collect()) }
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(list)]
#[tldr(input("self", "other"))]
pub struct T136(#[tldr(graph(Some("https://ex.org/g1")))] Vec<T130>);
impl Model for T136 {
	fn arb(r: &mut Rng) -> Val { let n = len(r); Val::list((0..n).map(|_| <T130>::arb(r)).collect()) }
	fn make(v: &Val) -> Self { Self(v.c.iter().map(|v| <T130>::make(v)).collect()) }
	fn show(&self) -> Val { Val::list(self.0.iter().map(|x| x.show()).collect()) }
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(intro("value"), dataset(("_:self", "https://ex.org/T137/p1", "_:value")))]
pub struct T137(#[tldr(input("_:v", "_:self"), dataset(("_:self", "https://ex.org/T137/p2", "_:v", "https://ex.org/g0"), ("_:self", "https://ex.org/T137/p3", "_:w")), intro("v", "w"), graph(Some("https://ex.org/g1")))] T129);
impl Model for T137 {
	fn arb(r: &mut Rng) -> Val { Val::list(vec![<T129>::arb(r)]) }
	fn make(v: &Val) -> Self { Self(<T129>::make(&v.c[0])) }
	fn show(&self) -> Val { Val::list(vec![self.0.show()]) }
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(intro("value"), dataset(("_:value", "https://ex.org/T138/p1", "_:self", "https://ex.org/g0")), prefix("e" = "https://ex.org/"))]
pub struct T138 {
	#[tldr(dataset(("_:self", "e:T138/p2", "_:value")), input("_:value", "_:value"), graph(Some("_:self")))] pub zz0: T125,
	#[tldr(intro("self"), dataset(("_:value", "https://ex.org/T138/p3", "_:self")), graph(Some("_:value")), input("_:self", "_:self"))] pub bar: T125,
}
impl Model for T138 {
	fn arb(r: &mut Rng) -> Val {
		let _ = &r;
		let mut m = Vec::new();
		m.push(("zz0".to_string(), <T125>::arb(r)));
		m.push(("bar".to_string(), <T125>::arb(r)));
		Val::map(m)
	}
	fn make(v: &Val) -> Self {
		let _ = v;
		Self { zz0: field(v, "zz0").map(|v| <T125>::make(v)).unwrap(), bar: field(v, "bar").map(|v| <T125>::make(v)).unwrap() }
	}
	fn show(&self) -> Val {
		let mut m = Vec::new();
		m.push(("zz0".to_string(), self.zz0.show()));
		m.push(("bar".to_string(), self.bar.show()));
		Val::map(m)
	}
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(input("x", "y"))]
#[tldr(base("https://ex.org/doc"), prefix("e" = "https://ex.org/"), intro("i"), dataset(("_:x", "e:T139/p1", "_:i", "g1")))]
pub enum T139 {
	#[tldr(intro("v", "w"))] #[tldr(input("_:v"), graph(Some("_:v")), dataset(("_:y", "https://ex.org/T139/p2", "_:v"), ("_:v", "e:T139/p3", "_:w"), ("_:x", "e:T139/is", "https://ex.org/c1")))] Foo(T126),
	#[tldr(graph(Some("_:x")), input("_:y"))] Bar(T126),
	#[tldr(intro("v", "w"), dataset(("_:y", "T139/p4", "_:v"), ("_:w", "T139/p5", "e:c1")), input("_:v"), graph(Some("_:v")))] Baz(T126),
	#[tldr(graph(Some("_:i")), intro("v", "w"), dataset(("_:v", "p1", "_:y", "_:y"), ("_:x", "e:T139/p7", "_:w")), input("_:v"))] Qux(T126),
}
impl Model for T139 {
	fn arb(r: &mut Rng) -> Val {
		match r.below(4) { 0 => variant("Foo", <T126>::arb(r)), 1 => variant("Bar", <T126>::arb(r)), 2 => variant("Baz", <T126>::arb(r)), 3 => variant("Qux", <T126>::arb(r)), _ => unreachable!() }
	}
	fn make(v: &Val) -> Self {
		match v.s.as_str() { "Foo" => Self::Foo(<T126>::make(&v.c[0])), "Bar" => Self::Bar(<T126>::make(&v.c[0])), "Baz" => Self::Baz(<T126>::make(&v.c[0])), "Qux" => Self::Qux(<T126>::make(&v.c[0])), _ => unreachable!() }
	}
	fn show(&self) -> Val {
		match self { Self::Foo(x) => variant("Foo", x.show()), Self::Bar(x) => variant("Bar", x.show()), Self::Baz(x) => variant("Baz", x.show()), Self::Qux(x) => variant("Qux", x.show()), }
	}
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(dataset(("_:self", "ex:T140/is", "https://ex.org/c1", "https://ex.org/g0")))]
#[tldr(prefix("ex" = "https://ex.org/"), set)]
pub struct T140(#[tldr(graph(Some("_:self")), "ex:T140/p1")] Vec<T112>);
impl Model for T140 {
	fn arb(r: &mut Rng) -> Val { let n = len(r); Val::list((0..n).map(|_| <T112>::arb(r)).collect()) }
	fn make(v: &Val) -> Self { Self(v.c.iter().map(|v| <T112>::make(v)).collect()) }
	fn show(&self) -> Val { Val::list(self.0.iter().map(|x| x.show()).collect()) }
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(list, prefix("e" = "https://ex.org/"))]
pub struct T141(#[tldr(input("_:value"), graph(Some("_:self")), dataset(("_:head", "e:T141/p1", "_:rest"), ("_:head", "https://ex.org/p0", "_:value")))] Vec<T130>);
impl Model for T141 {
	fn arb(r: &mut Rng) -> Val { let n = len(r); Val::list((0..n).map(|_| <T130>::arb(r)).collect()) }
	fn make(v: &Val) -> Self { Self(v.c.iter().map(|v| <T130>::make(v)).collect()) }
	fn show(&self) -> Val { Val::list(self.0.iter().map(|x| x.show()).collect()) }
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(input("x", "y"), prefix("e" = "https://ex.org/"))]
pub struct T142(#[tldr(graph(Some("_:x")), intro(), input("_:x"))] T131);
impl Model for T142 {
	fn arb(r: &mut Rng) -> Val { Val::list(vec![<T131>::arb(r)]) }
	fn make(v: &Val) -> Self { Self(<T131>::make(&v.c[0])) }
	fn show(&self) -> Val { Val::list(vec![self.0.show()]) }
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(base("https://ex.org/"))]
pub struct T143 {
	#[tldr(input("_:value"), dataset(("_:self", "https://ex.org/T143/p1", "_:value", "_:self"), ("_:self", "p2", "_:w")), graph(Some("https://ex.org/g1")), intro("value", "w"))] pub foo: T119,
	#[tldr(dataset(("_:self", "https://ex.org/T143/p3", "_:v", "https://ex.org/g0")), graph(Some("g1")), intro("v"), input("_:v"))] pub bar: T119,
}
impl Model for T143 {
	fn arb(r: &mut Rng) -> Val {
		let _ = &r;
		let mut m = Vec::new();
		m.push(("foo".to_string(), <T119>::arb(r)));
		m.push(("bar".to_string(), <T119>::arb(r)));
		Val::map(m)
	}
	fn make(v: &Val) -> Self {
		let _ = v;
		Self { foo: field(v, "foo").map(|v| <T119>::make(v)).unwrap(), bar: field(v, "bar").map(|v| <T119>::make(v)).unwrap() }
	}
	fn show(&self) -> Val {
		let mut m = Vec::new();
		m.push(("foo".to_string(), self.foo.show()));
		m.push(("bar".to_string(), self.bar.show()));
		Val::map(m)
	}
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(base("https://ex.org/doc"), prefix("e" = "https://ex.org/"), input("other", "self"))]
pub enum T144 {
	#[tldr(graph(Some("e:g1")))] Foo(T130),
}
impl Model for T144 {
	fn arb(r: &mut Rng) -> Val {
		match r.below(1) { 0 => variant("Foo", <T130>::arb(r)), _ => unreachable!() }
	}
	fn make(v: &Val) -> Self {
		match v.s.as_str() { "Foo" => Self::Foo(<T130>::make(&v.c[0])), _ => unreachable!() }
	}
	fn show(&self) -> Val {
		match self { Self::Foo(x) => variant("Foo", x.show()), }
	}
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(set, dataset(("_:other", "ex:T145/p1", "_:value"), ("_:value", "https://ex.org/T145/is", "ex:c1")), intro("value"), prefix("ex" = "https://ex.org/"), input("self", "other"))]
pub struct T145(#[tldr(dataset(("_:v", "ex:T145/p3", "_:w"), ("_:v", "ex:T145/is", "https://ex.org/c1")))] #[tldr(graph(Some("ex:g1")), intro("v", "w"), input("_:v"), "ex:T145/p2")] Vec<T123>);
impl Model for T145 {
	fn arb(r: &mut Rng) -> Val { let n = len(r); Val::list((0..n).map(|_| <T123>::arb(r)).collect()) }
	fn make(v: &Val) -> Self { Self(v.c.iter().map(|v| <T123>::make(v)).collect()) }
	fn show(&self) -> Val { Val::list(self.0.iter().map(|x| x.show()).collect()) }
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(list, base("https://ex.org/"), dataset(("_:self", "e:T146/is", "c1")), prefix("e" = "https://ex.org/"))]
pub struct T146(#[tldr(input("_:v", "_:self"))] #[tldr(dataset(("_:head", "T146/p1", "_:rest"), ("_:head", "e:T146/p2", "_:v"), ("_:head", "T146/p3", "_:w")), graph(Some("https://ex.org/g1")), intro("v", "w"))] Vec<T108>);
impl Model for T146 {
	fn arb(r: &mut Rng) -> Val { let n = len(r); Val::list((0..n).map(|_| <T108>::arb(r)).collect()) }
	fn make(v: &Val) -> Self { Self(v.c.iter().map(|v| <T108>::make(v)).collect()) }
	fn show(&self) -> Val { Val::list(self.0.iter().map(|x| x.show()).collect()) }
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(tuple)]
pub struct T147(#[tldr("https://ex.org/T147/p1")] #[tldr(graph(Some("https://ex.org/g0")))] T127, #[tldr(intro("value"), graph(Some("https://ex.org/g0")), input("_:value"), dataset(("_:self", "https://ex.org/p2", "_:value")))] T127, #[tldr(graph(Some("https://ex.org/g0")), "https://ex.org/T147/p3")] T127);
impl Model for T147 {
	fn arb(r: &mut Rng) -> Val { Val::list(vec![<T127>::arb(r), <T127>::arb(r), <T127>::arb(r)]) }
	fn make(v: &Val) -> Self { Self(<T127>::make(&v.c[0]), <T127>::make(&v.c[1]), <T127>::make(&v.c[2])) }
	fn show(&self) -> Val { Val::list(vec![self.0.show(), self.1.show(), self.2.show()]) }
}

pub const LAYOUTS: &[(&str, &str)] = &[
	("String", r##"{"t": "string", "id": "urn:t:String"}"##),
	("i8", r##"{"t": "number", "id": "urn:t:i8", "datatype": "http://www.w3.org/2001/XMLSchema#byte"}"##),
	("u16", r##"{"t": "number", "id": "urn:t:u16", "datatype": "http://www.w3.org/2001/XMLSchema#unsignedShort"}"##),
	("i32", r##"{"t": "number", "id": "urn:t:i32", "datatype": "http://www.w3.org/2001/XMLSchema#int"}"##),
	("i64", r##"{"t": "number", "id": "urn:t:i64", "datatype": "http://www.w3.org/2001/XMLSchema#long"}"##),
	("u32", r##"{"t": "number", "id": "urn:t:u32", "datatype": "http://www.w3.org/2001/XMLSchema#unsignedInt"}"##),
	("u8", r##"{"t": "number", "id": "urn:t:u8", "datatype": "http://www.w3.org/2001/XMLSchema#unsignedByte"}"##),
	("i16", r##"{"t": "number", "id": "urn:t:i16", "datatype": "http://www.w3.org/2001/XMLSchema#short"}"##),
	("u64", r##"{"t": "number", "id": "urn:t:u64", "datatype": "http://www.w3.org/2001/XMLSchema#unsignedLong"}"##),
	("Id", r##"{"t": "id", "id": "urn:t:Id"}"##),
	("bool", r##"{"t": "boolean", "id": "urn:t:bool", "datatype": "http://www.w3.org/2001/XMLSchema#boolean"}"##),
	("Unit", r##"{"t": "unit", "id": "urn:t:Unit"}"##),
	("T0", r##"{"prefixes": [["ex", "https://ex.org/"]], "base": "https://ex.org/", "resource": {"k": "var", "v": "self", "t": ""}, "t": "id", "id": "urn:t:T0"}"##),
	("T1", r##"{"input": [], "t": "unit", "id": "urn:t:T1"}"##),
	("T2", r##"{"prefixes": [["ex", "https://ex.org/"]], "base": "https://ex.org/doc", "resource": {"k": "var", "v": "self", "t": ""}, "t": "boolean", "id": "urn:t:T2"}"##),
	("T3", r##"{"prefixes": [["ex", "https://ex.org/a/"]], "input": ["self"], "intro": ["value"], "dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "https://ex.org/p2", "t": ""}, {"k": "var", "v": "value", "t": ""}, {"k": "iri", "v": "https://ex.org/g1", "t": ""}]], "resource": {"k": "var", "v": "value", "t": ""}, "datatype": "http://www.w3.org/2001/XMLSchema#boolean", "t": "boolean", "id": "urn:t:T3"}"##),
	("T4", r##"{"prefixes": [["ex", "https://ex.org/"]], "intro": ["i", "j"], "dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "https://ex.org/T4/p1", "t": ""}, {"k": "var", "v": "i", "t": ""}, {"k": "var", "v": "self", "t": ""}], [{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "https://ex.org/T4/p2", "t": ""}, {"k": "var", "v": "j", "t": ""}]], "t": "string", "id": "urn:t:T4"}"##),
	("T5", r##"{"base": "https://ex.org/doc", "dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "T5/is", "t": ""}, {"k": "iri", "v": "c0", "t": ""}]], "datatype": "dt", "t": "string", "id": "urn:t:T5"}"##),
	("T6", r##"{"prefixes": [["e", "https://ex.org/"]], "resource": {"k": "var", "v": "self", "t": ""}, "datatype": "http://www.w3.org/2001/XMLSchema#hexBinary", "t": "bytes", "id": "urn:t:T6"}"##),
	("T7", r##"{"prefixes": [["ex", "https://ex.org/a/"]], "input": ["self"], "datatype": "http://www.w3.org/2001/XMLSchema#byte", "t": "number", "id": "urn:t:T7"}"##),
	("T8", r##"{"prefixes": [["ex", "https://ex.org/a/"]], "intro": ["value"], "dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "https://ex.org/T8/p1", "t": ""}, {"k": "var", "v": "value", "t": ""}]], "datatype": "http://www.w3.org/2001/XMLSchema#long", "t": "number", "id": "urn:t:T8"}"##),
	("T9", r##"{"prefixes": [["e", "https://ex.org/"]], "input": ["other", "self"], "intro": ["i", "j"], "dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "e:T9/p1", "t": ""}, {"k": "var", "v": "i", "t": ""}], [{"k": "var", "v": "j", "t": ""}, {"k": "iri", "v": "e:T9/p2", "t": ""}, {"k": "var", "v": "i", "t": ""}, {"k": "iri", "v": "e:g0", "t": ""}], [{"k": "var", "v": "j", "t": ""}, {"k": "iri", "v": "e:T9/is", "t": ""}, {"k": "iri", "v": "https://ex.org/c2", "t": ""}]], "datatype": "http://www.w3.org/2001/XMLSchema#unsignedByte", "t": "number", "id": "urn:t:T9"}"##),
	("T10", r##"{"prefixes": [["ex", "https://ex.org/"]], "intro": ["i"], "dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "https://ex.org/p1", "t": ""}, {"k": "var", "v": "i", "t": ""}]], "t": "id", "id": "urn:t:T10"}"##),
	("T11", r##"{"prefixes": [["ex", "https://ex.org/"]], "intro": ["i", "j"], "dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "https://ex.org/T11/p1", "t": ""}, {"k": "var", "v": "i", "t": ""}], [{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "ex:T11/p2", "t": ""}, {"k": "var", "v": "j", "t": ""}, {"k": "iri", "v": "ex:g0", "t": ""}]], "t": "unit", "id": "urn:t:T11"}"##),
	("T12", r##"{"prefixes": [["e", "https://ex.org/"]], "input": ["self"], "resource": {"k": "var", "v": "self", "t": ""}, "t": "boolean", "id": "urn:t:T12"}"##),
	("T13", r##"{"prefixes": [["e", "https://ex.org/"]], "input": ["self"], "datatype": "http://www.w3.org/2001/XMLSchema#boolean", "t": "boolean", "id": "urn:t:T13"}"##),
	("T14", r##"{"prefixes": [["ex", "https://ex.org/"]], "input": ["self"], "resource": {"k": "var", "v": "self", "t": ""}, "t": "string", "id": "urn:t:T14"}"##),
	("T15", r##"{"input": ["self", "other"], "dataset": [[{"k": "var", "v": "other", "t": ""}, {"k": "iri", "v": "https://ex.org/T15/is", "t": ""}, {"k": "iri", "v": "https://ex.org/c2", "t": ""}]], "datatype": "https://ex.org/dt", "t": "string", "id": "urn:t:T15"}"##),
	("T16", r##"{"prefixes": [["ex", "https://ex.org/a/"]], "input": ["x", "y"], "datatype": "http://www.w3.org/2001/XMLSchema#hexBinary", "t": "bytes", "id": "urn:t:T16"}"##),
	("T17", r##"{"prefixes": [["ex", "https://ex.org/"]], "input": ["self"], "datatype": "http://www.w3.org/2001/XMLSchema#int", "t": "number", "id": "urn:t:T17"}"##),
	("T18", r##"{"prefixes": [["ex", "https://ex.org/a/"]], "base": "https://ex.org/", "datatype": "http://www.w3.org/2001/XMLSchema#long", "t": "number", "id": "urn:t:T18"}"##),
	("T19", r##"{"prefixes": [["ex", "https://ex.org/a/"]], "input": ["x", "y"], "dataset": [[{"k": "var", "v": "x", "t": ""}, {"k": "iri", "v": "https://ex.org/T19/is", "t": ""}, {"k": "iri", "v": "https://ex.org/c0", "t": ""}]], "datatype": "http://www.w3.org/2001/XMLSchema#byte", "t": "number", "id": "urn:t:T19"}"##),
	("T20", r##"{"intro": ["value"], "dataset": [[{"k": "var", "v": "value", "t": ""}, {"k": "iri", "v": "https://ex.org/T20/p1", "t": ""}, {"k": "var", "v": "self", "t": ""}]], "fields": [{"property": {"k": "iri", "v": "https://ex.org/T20/p2", "t": ""}, "value": {"layout": {"k": "ref", "v": "urn:t:T13"}, "graph": {"k": "iri", "v": "https://ex.org/g0", "t": ""}}, "name": "foo", "required": false}, {"property": {"k": "iri", "v": "https://ex.org/T20/p3", "t": ""}, "value": {"layout": {"k": "ref", "v": "urn:t:i64"}, "graph": {"k": "iri", "v": "https://ex.org/g1", "t": ""}}, "name": "bar", "required": false}, {"property": {"k": "iri", "v": "https://ex.org/T20/p4", "t": ""}, "value": {"layout": {"k": "ref", "v": "urn:t:String"}}, "name": "baz", "required": false}, {"dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "https://ex.org/T20/p5", "t": ""}, {"k": "var", "v": "value", "t": ""}, {"k": "var", "v": "self", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T8"}, "input": [{"k": "var", "v": "value", "t": ""}]}, "name": "qux", "required": true}], "t": "record", "id": "urn:t:T20"}"##),
	("T21", r##"{"prefixes": [["ex", "https://ex.org/"]], "base": "https://ex.org/", "dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "T21/is", "t": ""}, {"k": "iri", "v": "https://ex.org/c0", "t": ""}]], "variants": [{"value": {"layout": {"k": "ref", "v": "urn:t:String"}}, "name": "Foo"}], "t": "sum", "id": "urn:t:T21"}"##),
	("T22", r##"{"prefixes": [["ex", "https://ex.org/a/"]], "item": {"intro": ["self"], "dataset": [[{"k": "iri", "v": "https://ex.org/c1", "t": ""}, {"k": "iri", "v": "https://ex.org/T22/p1", "t": ""}, {"k": "var", "v": "self", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:u16"}, "input": [{"k": "var", "v": "self", "t": ""}]}}, "t": "set", "id": "urn:t:T22"}"##),
	("T23", r##"{"base": "https://ex.org/", "intro": ["i", "j"], "dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "T23/p1", "t": ""}, {"k": "var", "v": "i", "t": ""}, {"k": "iri", "v": "https://ex.org/g1", "t": ""}], [{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "T23/p2", "t": ""}, {"k": "var", "v": "j", "t": ""}]], "node": {"dataset": [[{"k": "var", "v": "head", "t": ""}, {"k": "iri", "v": "T23/p3", "t": ""}, {"k": "var", "v": "next", "t": ""}], [{"k": "var", "v": "head", "t": ""}, {"k": "iri", "v": "T23/p4", "t": ""}, {"k": "var", "v": "value", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:i64"}, "input": [{"k": "var", "v": "value", "t": ""}]}, "rest": "next"}, "t": "list", "id": "urn:t:T23"}"##),
	("T24", r##"{"prefixes": [["e", "https://ex.org/"]], "intro": ["i", "j"], "dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "e:T24/p1", "t": ""}, {"k": "var", "v": "i", "t": ""}], [{"k": "var", "v": "j", "t": ""}, {"k": "iri", "v": "https://ex.org/T24/p2", "t": ""}, {"k": "var", "v": "i", "t": ""}, {"k": "iri", "v": "e:g0", "t": ""}]], "items": [{"intro": [], "value": {"layout": {"k": "ref", "v": "urn:t:Unit"}, "input": [{"k": "var", "v": "j", "t": ""}], "graph": {"k": "none", "v": "", "t": ""}}}], "t": "tuple", "id": "urn:t:T24"}"##),
	("T25", r##"{"base": "https://ex.org/doc", "fields": [{"property": {"k": "iri", "v": "p1", "t": ""}, "value": {"layout": {"k": "ref", "v": "urn:t:T8"}}, "name": "foo", "required": true}], "t": "record", "id": "urn:t:T25"}"##),
	("T26", r##"{"base": "https://ex.org/", "input": ["self", "other"], "variants": [{"dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "T26/p1", "t": ""}, {"k": "iri", "v": "c2", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T22"}, "graph": {"k": "iri", "v": "g1", "t": ""}}, "name": "A0"}], "t": "sum", "id": "urn:t:T26"}"##),
	("T27", r##"{"prefixes": [["e", "https://ex.org/"]], "base": "https://ex.org/doc", "input": ["self", "other"], "item": {"dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "e:T27/p1", "t": ""}, {"k": "var", "v": "value", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T21"}, "graph": {"k": "iri", "v": "g1", "t": ""}}}, "t": "set", "id": "urn:t:T27"}"##),
	("T28", r##"{"prefixes": [["ex", "https://ex.org/"]], "intro": ["i"], "dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "ex:T28/p1", "t": ""}, {"k": "var", "v": "i", "t": ""}]], "head": {"k": "var", "v": "self", "t": ""}, "node": {"value": {"layout": {"k": "ref", "v": "urn:t:Unit"}}, "rest": "other"}, "t": "list", "id": "urn:t:T28"}"##),
	("T29", r##"{"prefixes": [["e", "https://ex.org/"]], "input": ["x", "y"], "intro": ["value"], "dataset": [[{"k": "iri", "v": "e:c0", "t": ""}, {"k": "iri", "v": "e:T29/p1", "t": ""}, {"k": "var", "v": "value", "t": ""}, {"k": "var", "v": "y", "t": ""}]], "items": [{"intro": ["v", "w"], "property": {"k": "iri", "v": "e:T29/p2", "t": ""}, "dataset": [[{"k": "var", "v": "x", "t": ""}, {"k": "iri", "v": "https://ex.org/T29/p3", "t": ""}, {"k": "var", "v": "w", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:u16"}, "input": [{"k": "var", "v": "v", "t": ""}]}}, {"intro": [], "value": {"layout": {"k": "ref", "v": "urn:t:T24"}, "input": [{"k": "var", "v": "value", "t": ""}]}}, {"property": {"k": "iri", "v": "e:T29/p4", "t": ""}, "value": {"layout": {"k": "ref", "v": "urn:t:i64"}}}], "t": "tuple", "id": "urn:t:T29"}"##),
	("T30", r##"{"prefixes": [["ex", "https://ex.org/a/"]], "intro": ["i"], "dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "https://ex.org/T30/p1", "t": ""}, {"k": "var", "v": "i", "t": ""}]], "variants": [{"dataset": [[{"k": "var", "v": "i", "t": ""}, {"k": "iri", "v": "https://ex.org/T30/is", "t": ""}, {"k": "iri", "v": "https://ex.org/c2", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T8"}, "input": [{"k": "var", "v": "i", "t": ""}]}, "name": "A1"}, {"value": {"layout": {"k": "ref", "v": "urn:t:i32"}, "input": [{"k": "var", "v": "i", "t": ""}]}, "name": "Baz"}, {"value": {"layout": {"k": "ref", "v": "urn:t:T19"}, "input": [{"k": "var", "v": "i", "t": ""}, {"k": "iri", "v": "https://ex.org/c2", "t": ""}]}, "name": "Foo"}, {"value": {"layout": {"k": "ref", "v": "urn:t:Unit"}, "input": [{"k": "var", "v": "i", "t": ""}]}, "name": "Qux"}], "t": "sum", "id": "urn:t:T30"}"##),
	("T31", r##"{"intro": ["i"], "dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "https://ex.org/T31/p1", "t": ""}, {"k": "var", "v": "i", "t": ""}]], "fields": [{"intro": ["value", "w"], "dataset": [[{"k": "var", "v": "i", "t": ""}, {"k": "iri", "v": "https://ex.org/T31/p2", "t": ""}, {"k": "var", "v": "value", "t": ""}], [{"k": "var", "v": "w", "t": ""}, {"k": "iri", "v": "https://ex.org/T31/p3", "t": ""}, {"k": "var", "v": "self", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T25"}, "input": [{"k": "var", "v": "value", "t": ""}], "graph": {"k": "var", "v": "value", "t": ""}}, "name": "foo", "required": false}, {"intro": ["value", "w"], "dataset": [[{"k": "iri", "v": "https://ex.org/c0", "t": ""}, {"k": "iri", "v": "https://ex.org/T31/p4", "t": ""}, {"k": "var", "v": "value", "t": ""}], [{"k": "var", "v": "w", "t": ""}, {"k": "iri", "v": "https://ex.org/T31/p5", "t": ""}, {"k": "var", "v": "self", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:String"}, "input": [{"k": "var", "v": "value", "t": ""}]}, "name": "bar", "required": true}], "t": "record", "id": "urn:t:T31"}"##),
	("T32", r##"{"prefixes": [["e", "https://ex.org/"]], "intro": ["i", "j"], "dataset": [[{"k": "iri", "v": "e:c1", "t": ""}, {"k": "iri", "v": "https://ex.org/T32/p1", "t": ""}, {"k": "var", "v": "i", "t": ""}], [{"k": "var", "v": "i", "t": ""}, {"k": "iri", "v": "e:T32/p2", "t": ""}, {"k": "var", "v": "j", "t": ""}]], "variants": [{"value": {"layout": {"k": "ref", "v": "urn:t:T11"}, "input": [{"k": "var", "v": "i", "t": ""}], "graph": {"k": "var", "v": "i", "t": ""}}, "name": "Foo"}], "t": "sum", "id": "urn:t:T32"}"##),
	("T33", r##"{"intro": ["i"], "dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "https://ex.org/T33/p1", "t": ""}, {"k": "var", "v": "i", "t": ""}], [{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "https://ex.org/T33/is", "t": ""}, {"k": "iri", "v": "https://ex.org/c1", "t": ""}, {"k": "iri", "v": "https://ex.org/g1", "t": ""}]], "item": {"intro": ["v", "w"], "property": {"k": "iri", "v": "https://ex.org/p2", "t": ""}, "dataset": [[{"k": "var", "v": "v", "t": ""}, {"k": "iri", "v": "https://ex.org/T33/p3", "t": ""}, {"k": "var", "v": "w", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T30"}, "input": [{"k": "var", "v": "v", "t": ""}], "graph": {"k": "var", "v": "w", "t": ""}}}, "t": "set", "id": "urn:t:T33"}"##),
	("T34", r##"{"prefixes": [["ex", "https://ex.org/a/"]], "input": ["self", "other"], "intro": ["i", "j"], "dataset": [[{"k": "var", "v": "other", "t": ""}, {"k": "iri", "v": "https://ex.org/T34/p1", "t": ""}, {"k": "var", "v": "i", "t": ""}], [{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "https://ex.org/T34/p2", "t": ""}, {"k": "var", "v": "j", "t": ""}]], "tail": {"k": "iri", "v": "https://ex.org/nil", "t": ""}, "node": {"dataset": [[{"k": "var", "v": "head", "t": ""}, {"k": "iri", "v": "https://ex.org/T34/p3", "t": ""}, {"k": "var", "v": "next", "t": ""}], [{"k": "var", "v": "head", "t": ""}, {"k": "iri", "v": "https://ex.org/T34/p4", "t": ""}, {"k": "var", "v": "value", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T30"}, "input": [{"k": "var", "v": "value", "t": ""}]}, "rest": "next"}, "t": "list", "id": "urn:t:T34"}"##),
	("T35", r##"{"prefixes": [["ex", "https://ex.org/a/"]], "base": "https://ex.org/", "items": [{"intro": ["value", "w"], "dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "T35/p1", "t": ""}, {"k": "var", "v": "value", "t": ""}], [{"k": "var", "v": "value", "t": ""}, {"k": "iri", "v": "T35/p2", "t": ""}, {"k": "var", "v": "w", "t": ""}, {"k": "iri", "v": "g1", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T31"}, "input": [{"k": "var", "v": "value", "t": ""}]}}], "t": "tuple", "id": "urn:t:T35"}"##),
	("T36", r##"{"fields": [{"dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "https://ex.org/T36/p1", "t": ""}, {"k": "var", "v": "value", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:Unit"}}, "name": "foo", "required": false}], "t": "record", "id": "urn:t:T36"}"##),
	("T37", r##"{"prefixes": [["e", "https://ex.org/"]], "input": ["self", "other"], "fields": [{"intro": ["value", "w"], "dataset": [[{"k": "iri", "v": "e:c0", "t": ""}, {"k": "iri", "v": "https://ex.org/T37/p1", "t": ""}, {"k": "var", "v": "value", "t": ""}], [{"k": "var", "v": "value", "t": ""}, {"k": "iri", "v": "https://ex.org/T37/p2", "t": ""}, {"k": "var", "v": "w", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T36"}, "input": [{"k": "var", "v": "value", "t": ""}]}, "name": "foo", "required": true}], "t": "record", "id": "urn:t:T37"}"##),
	("T38", r##"{"prefixes": [["ex", "https://ex.org/a/"]], "base": "https://ex.org/", "input": ["a"], "variants": [{"value": {"layout": {"k": "ref", "v": "urn:t:T27"}, "input": [{"k": "var", "v": "a", "t": ""}, {"k": "var", "v": "a", "t": ""}]}, "name": "A0"}, {"intro": ["v", "w"], "dataset": [[{"k": "var", "v": "a", "t": ""}, {"k": "iri", "v": "https://ex.org/T38/p1", "t": ""}, {"k": "var", "v": "v", "t": ""}], [{"k": "var", "v": "w", "t": ""}, {"k": "iri", "v": "T38/p2", "t": ""}, {"k": "var", "v": "v", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T9"}, "input": [{"k": "var", "v": "a", "t": ""}, {"k": "var", "v": "v", "t": ""}]}, "name": "A1"}], "t": "sum", "id": "urn:t:T38"}"##),
	("T39", r##"{"prefixes": [["ex", "https://ex.org/"]], "intro": ["i", "j"], "dataset": [[{"k": "var", "v": "i", "t": ""}, {"k": "iri", "v": "ex:T39/p1", "t": ""}, {"k": "iri", "v": "https://ex.org/c1", "t": ""}], [{"k": "var", "v": "j", "t": ""}, {"k": "iri", "v": "ex:T39/p2", "t": ""}, {"k": "var", "v": "self", "t": ""}]], "item": {"property": {"k": "iri", "v": "ex:T39/p3", "t": ""}, "value": {"layout": {"k": "ref", "v": "urn:t:i32"}}}, "t": "set", "id": "urn:t:T39"}"##),
	("T40", r##"{"prefixes": [["ex", "https://ex.org/"]], "base": "https://ex.org/", "intro": ["i"], "dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "https://ex.org/p2", "t": ""}, {"k": "var", "v": "i", "t": ""}], [{"k": "var", "v": "i", "t": ""}, {"k": "iri", "v": "ex:T40/is", "t": ""}, {"k": "iri", "v": "c1", "t": ""}]], "node": {"intro": ["v"], "dataset": [[{"k": "var", "v": "node", "t": ""}, {"k": "iri", "v": "T40/p2", "t": ""}, {"k": "var", "v": "rest", "t": ""}], [{"k": "var", "v": "node", "t": ""}, {"k": "iri", "v": "ex:T40/p3", "t": ""}, {"k": "var", "v": "v", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T10"}, "input": [{"k": "var", "v": "v", "t": ""}]}, "head": "node"}, "t": "list", "id": "urn:t:T40"}"##),
	("T41", r##"{"prefixes": [["e", "https://ex.org/"]], "dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "e:T41/is", "t": ""}, {"k": "iri", "v": "https://ex.org/c1", "t": ""}]], "items": [{"property": {"k": "iri", "v": "https://ex.org/T41/p1", "t": ""}, "value": {"layout": {"k": "ref", "v": "urn:t:i8"}}}], "t": "tuple", "id": "urn:t:T41"}"##),
	("T42", r##"{"input": ["other", "self"], "fields": [{"property": {"k": "iri", "v": "https://ex.org/T42/p1", "t": ""}, "value": {"layout": {"k": "ref", "v": "urn:t:i8"}, "graph": {"k": "var", "v": "self", "t": ""}}, "name": "foo", "required": true}, {"intro": ["value", "w"], "dataset": [[{"k": "iri", "v": "https://ex.org/c0", "t": ""}, {"k": "iri", "v": "https://ex.org/T42/p2", "t": ""}, {"k": "var", "v": "value", "t": ""}], [{"k": "var", "v": "w", "t": ""}, {"k": "iri", "v": "https://ex.org/T42/p3", "t": ""}, {"k": "var", "v": "value", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:String"}, "input": [{"k": "var", "v": "value", "t": ""}]}, "name": "bar", "required": false}, {"intro": ["self"], "dataset": [[{"k": "var", "v": "other", "t": ""}, {"k": "iri", "v": "https://ex.org/T42/p4", "t": ""}, {"k": "var", "v": "self", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T26"}, "input": [{"k": "var", "v": "self", "t": ""}, {"k": "var", "v": "self", "t": ""}]}, "name": "baz", "required": false}, {"intro": ["value", "w"], "property": {"k": "iri", "v": "https://ex.org/T42/p5", "t": ""}, "dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "https://ex.org/T42/p6", "t": ""}, {"k": "var", "v": "w", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T32"}, "input": [{"k": "var", "v": "value", "t": ""}], "graph": {"k": "iri", "v": "https://ex.org/g1", "t": ""}}, "name": "zz3", "required": true}], "t": "record", "id": "urn:t:T42"}"##),
	("T43", r##"{"prefixes": [["ex", "https://ex.org/"]], "input": ["a"], "intro": ["i"], "dataset": [[{"k": "iri", "v": "ex:c1", "t": ""}, {"k": "iri", "v": "ex:T43/p1", "t": ""}, {"k": "var", "v": "i", "t": ""}], [{"k": "var", "v": "i", "t": ""}, {"k": "iri", "v": "ex:T43/is", "t": ""}, {"k": "iri", "v": "ex:c2", "t": ""}, {"k": "iri", "v": "ex:g0", "t": ""}]], "fields": [{"property": {"k": "iri", "v": "ex:T43/p2", "t": ""}, "value": {"layout": {"k": "ref", "v": "urn:t:T36"}}, "name": "foo", "required": true}, {"intro": ["value", "w"], "dataset": [[{"k": "var", "v": "a", "t": ""}, {"k": "iri", "v": "https://ex.org/T43/p3", "t": ""}, {"k": "var", "v": "value", "t": ""}], [{"k": "var", "v": "a", "t": ""}, {"k": "iri", "v": "ex:T43/p4", "t": ""}, {"k": "var", "v": "w", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:i64"}, "input": [{"k": "var", "v": "value", "t": ""}]}, "name": "bar", "required": true}, {"property": {"k": "iri", "v": "ex:T43/p5", "t": ""}, "value": {"layout": {"k": "ref", "v": "urn:t:bool"}}, "name": "baz", "required": true}], "t": "record", "id": "urn:t:T43"}"##),
	("T44", r##"{"base": "https://ex.org/", "input": ["a"], "dataset": [[{"k": "var", "v": "a", "t": ""}, {"k": "iri", "v": "https://ex.org/T44/is", "t": ""}, {"k": "iri", "v": "c2", "t": ""}]], "variants": [{"intro": ["v"], "dataset": [[{"k": "var", "v": "a", "t": ""}, {"k": "iri", "v": "https://ex.org/T44/p2", "t": ""}, {"k": "var", "v": "v", "t": ""}, {"k": "iri", "v": "g0", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:Unit"}, "input": [{"k": "var", "v": "v", "t": ""}], "graph": {"k": "var", "v": "v", "t": ""}}, "name": "A1"}, {"intro": ["v"], "dataset": [[{"k": "var", "v": "a", "t": ""}, {"k": "iri", "v": "https://ex.org/T44/p1", "t": ""}, {"k": "var", "v": "v", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:Id"}, "input": [{"k": "var", "v": "v", "t": ""}], "graph": {"k": "none", "v": "", "t": ""}}, "name": "Foo"}], "t": "sum", "id": "urn:t:T44"}"##),
	("T45", r##"{"prefixes": [["ex", "https://ex.org/"]], "input": ["a"], "intro": ["i", "j"], "dataset": [[{"k": "var", "v": "a", "t": ""}, {"k": "iri", "v": "https://ex.org/T45/p1", "t": ""}, {"k": "var", "v": "i", "t": ""}, {"k": "iri", "v": "https://ex.org/g1", "t": ""}], [{"k": "var", "v": "i", "t": ""}, {"k": "iri", "v": "ex:T45/p2", "t": ""}, {"k": "var", "v": "j", "t": ""}, {"k": "iri", "v": "ex:g1", "t": ""}]], "item": {"property": {"k": "iri", "v": "ex:T45/p3", "t": ""}, "value": {"layout": {"k": "ref", "v": "urn:t:Id"}}}, "t": "set", "id": "urn:t:T45"}"##),
	("T46", r##"{"prefixes": [["ex", "https://ex.org/"]], "base": "https://ex.org/", "tail": {"k": "iri", "v": "ex:nil", "t": ""}, "node": {"intro": ["v", "w"], "dataset": [[{"k": "var", "v": "head", "t": ""}, {"k": "iri", "v": "ex:T46/p1", "t": ""}, {"k": "var", "v": "r", "t": ""}], [{"k": "var", "v": "head", "t": ""}, {"k": "iri", "v": "ex:T46/p2", "t": ""}, {"k": "var", "v": "v", "t": ""}], [{"k": "var", "v": "head", "t": ""}, {"k": "iri", "v": "ex:T46/p3", "t": ""}, {"k": "var", "v": "w", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T39"}, "input": [{"k": "var", "v": "v", "t": ""}]}, "rest": "r"}, "t": "list", "id": "urn:t:T46"}"##),
	("T47", r##"{"input": ["self", "other"], "dataset": [[{"k": "var", "v": "other", "t": ""}, {"k": "iri", "v": "https://ex.org/T47/is", "t": ""}, {"k": "iri", "v": "https://ex.org/c0", "t": ""}]], "items": [{"property": {"k": "iri", "v": "https://ex.org/p1", "t": ""}, "value": {"layout": {"k": "ref", "v": "urn:t:T37"}, "input": [{"k": "var", "v": "value", "t": ""}, {"k": "var", "v": "other", "t": ""}]}}, {"property": {"k": "iri", "v": "https://ex.org/T47/p2", "t": ""}, "value": {"layout": {"k": "ref", "v": "urn:t:T46"}}}], "t": "tuple", "id": "urn:t:T47"}"##),
	("T48", r##"{"prefixes": [["ex", "https://ex.org/"]], "input": ["a"], "intro": ["i"], "dataset": [[{"k": "var", "v": "a", "t": ""}, {"k": "iri", "v": "ex:T48/p1", "t": ""}, {"k": "var", "v": "i", "t": ""}]], "fields": [{"property": {"k": "iri", "v": "https://ex.org/T48/p2", "t": ""}, "value": {"layout": {"k": "ref", "v": "urn:t:T44"}, "graph": {"k": "none", "v": "", "t": ""}}, "name": "foo", "required": true}, {"intro": ["self"], "property": {"k": "iri", "v": "ex:T48/p3", "t": ""}, "value": {"layout": {"k": "ref", "v": "urn:t:T34"}, "input": [{"k": "var", "v": "a", "t": ""}, {"k": "var", "v": "self", "t": ""}]}, "name": "zz1", "required": false}, {"property": {"k": "iri", "v": "https://ex.org/T48/p4", "t": ""}, "value": {"layout": {"k": "ref", "v": "urn:t:i64"}}, "name": "zz2", "required": true}], "t": "record", "id": "urn:t:T48"}"##),
	("T49", r##"{"base": "https://ex.org/doc", "input": ["x", "y"], "variants": [{"intro": ["v", "w"], "dataset": [[{"k": "var", "v": "y", "t": ""}, {"k": "iri", "v": "https://ex.org/T49/p1", "t": ""}, {"k": "var", "v": "v", "t": ""}], [{"k": "var", "v": "y", "t": ""}, {"k": "iri", "v": "T49/p2", "t": ""}, {"k": "var", "v": "w", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T44"}, "input": [{"k": "var", "v": "v", "t": ""}]}, "name": "Foo"}], "t": "sum", "id": "urn:t:T49"}"##),
	("T50", r##"{"prefixes": [["ex", "https://ex.org/a/"]], "base": "https://ex.org/doc", "intro": ["i", "j"], "dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "https://ex.org/p2", "t": ""}, {"k": "var", "v": "i", "t": ""}], [{"k": "var", "v": "i", "t": ""}, {"k": "iri", "v": "T50/p2", "t": ""}, {"k": "var", "v": "j", "t": ""}], [{"k": "var", "v": "j", "t": ""}, {"k": "iri", "v": "T50/is", "t": ""}, {"k": "iri", "v": "c2", "t": ""}]], "item": {"property": {"k": "iri", "v": "T50/p3", "t": ""}, "value": {"layout": {"k": "ref", "v": "urn:t:T33"}}}, "t": "set", "id": "urn:t:T50"}"##),
	("T51", r##"{"prefixes": [["ex", "https://ex.org/a/"]], "base": "https://ex.org/", "node": {"value": {"layout": {"k": "ref", "v": "urn:t:i8"}}, "rest": "r"}, "t": "list", "id": "urn:t:T51"}"##),
	("T52", r##"{"prefixes": [["ex", "https://ex.org/"]], "items": [{"intro": ["v", "w"], "dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "https://ex.org/T52/p1", "t": ""}, {"k": "var", "v": "v", "t": ""}], [{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "ex:T52/p2", "t": ""}, {"k": "var", "v": "w", "t": ""}], [{"k": "var", "v": "v", "t": ""}, {"k": "iri", "v": "https://ex.org/T52/is", "t": ""}, {"k": "iri", "v": "ex:c0", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:Unit"}, "input": [{"k": "var", "v": "v", "t": ""}]}}], "t": "tuple", "id": "urn:t:T52"}"##),
	("T53", r##"{"prefixes": [["e", "https://ex.org/"]], "input": ["other", "self"], "intro": ["i"], "dataset": [[{"k": "var", "v": "other", "t": ""}, {"k": "iri", "v": "e:T53/p1", "t": ""}, {"k": "var", "v": "i", "t": ""}]], "fields": [{"intro": ["self"], "dataset": [[{"k": "var", "v": "other", "t": ""}, {"k": "iri", "v": "https://ex.org/T53/p2", "t": ""}, {"k": "var", "v": "self", "t": ""}], [{"k": "var", "v": "other", "t": ""}, {"k": "iri", "v": "e:T53/is", "t": ""}, {"k": "iri", "v": "e:c0", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:i8"}, "input": [{"k": "var", "v": "self", "t": ""}]}, "name": "foo", "required": true}, {"intro": ["value", "w"], "property": {"k": "iri", "v": "https://ex.org/T53/p3", "t": ""}, "dataset": [[{"k": "var", "v": "other", "t": ""}, {"k": "iri", "v": "e:T53/p4", "t": ""}, {"k": "var", "v": "w", "t": ""}], [{"k": "var", "v": "value", "t": ""}, {"k": "iri", "v": "e:T53/is", "t": ""}, {"k": "iri", "v": "e:c2", "t": ""}, {"k": "iri", "v": "https://ex.org/g1", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T34"}, "input": [{"k": "var", "v": "self", "t": ""}, {"k": "var", "v": "value", "t": ""}], "graph": {"k": "none", "v": "", "t": ""}}, "name": "zz1", "required": true}, {"dataset": [[{"k": "var", "v": "other", "t": ""}, {"k": "iri", "v": "https://ex.org/T53/p5", "t": ""}, {"k": "var", "v": "value", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:Unit"}}, "name": "baz", "required": true}], "t": "record", "id": "urn:t:T53"}"##),
	("T54", r##"{"prefixes": [["e", "https://ex.org/"]], "base": "https://ex.org/", "intro": ["i"], "dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "e:T54/p1", "t": ""}, {"k": "var", "v": "i", "t": ""}, {"k": "var", "v": "self", "t": ""}]], "variants": [{"dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "T54/p4", "t": ""}, {"k": "iri", "v": "e:c0", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:i32"}}, "name": "Bar"}, {"intro": ["v", "w"], "dataset": [[{"k": "var", "v": "i", "t": ""}, {"k": "iri", "v": "p0", "t": ""}, {"k": "var", "v": "v", "t": ""}], [{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "https://ex.org/p2", "t": ""}, {"k": "var", "v": "w", "t": ""}], [{"k": "var", "v": "i", "t": ""}, {"k": "iri", "v": "T54/is", "t": ""}, {"k": "iri", "v": "https://ex.org/c2", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T9"}, "input": [{"k": "var", "v": "v", "t": ""}, {"k": "var", "v": "i", "t": ""}]}, "name": "Foo"}], "t": "sum", "id": "urn:t:T54"}"##),
	("T55", r##"{"prefixes": [["e", "https://ex.org/"]], "item": {"property": {"k": "iri", "v": "e:T55/p1", "t": ""}, "value": {"layout": {"k": "ref", "v": "urn:t:Id"}}}, "t": "set", "id": "urn:t:T55"}"##),
	("T56", r##"{"prefixes": [["e", "https://ex.org/"]], "base": "https://ex.org/", "node": {"value": {"layout": {"k": "ref", "v": "urn:t:u16"}, "graph": {"k": "none", "v": "", "t": ""}}}, "t": "list", "id": "urn:t:T56"}"##),
	("T57", r##"{"prefixes": [["e", "https://ex.org/"]], "intro": ["i"], "dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "e:p1", "t": ""}, {"k": "var", "v": "i", "t": ""}]], "items": [{"intro": [], "value": {"layout": {"k": "ref", "v": "urn:t:Unit"}, "input": [{"k": "var", "v": "i", "t": ""}], "graph": {"k": "iri", "v": "e:g0", "t": ""}}}, {"intro": ["value", "w"], "property": {"k": "iri", "v": "e:T57/p2", "t": ""}, "dataset": [[{"k": "var", "v": "i", "t": ""}, {"k": "iri", "v": "e:T57/p3", "t": ""}, {"k": "var", "v": "w", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T39"}, "input": [{"k": "var", "v": "value", "t": ""}]}}], "t": "tuple", "id": "urn:t:T57"}"##),
	("T58", r##"{"prefixes": [["ex", "https://ex.org/"]], "input": ["self", "other"], "fields": [{"property": {"k": "iri", "v": "ex:T58/p1", "t": ""}, "value": {"layout": {"k": "ref", "v": "urn:t:Id"}}, "name": "zz0", "required": true}, {"property": {"k": "iri", "v": "ex:T58/p2", "t": ""}, "value": {"layout": {"k": "ref", "v": "urn:t:T39"}}, "name": "bar", "required": true}], "t": "record", "id": "urn:t:T58"}"##),
	("T59", r##"{"intro": ["value"], "dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "https://ex.org/T59/p1", "t": ""}, {"k": "var", "v": "value", "t": ""}, {"k": "iri", "v": "https://ex.org/g1", "t": ""}]], "variants": [{"intro": ["v", "w"], "dataset": [[{"k": "iri", "v": "https://ex.org/c1", "t": ""}, {"k": "iri", "v": "https://ex.org/T59/p2", "t": ""}, {"k": "var", "v": "v", "t": ""}], [{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "https://ex.org/T59/p3", "t": ""}, {"k": "var", "v": "w", "t": ""}, {"k": "var", "v": "self", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T58"}, "input": [{"k": "var", "v": "self", "t": ""}, {"k": "var", "v": "v", "t": ""}], "graph": {"k": "var", "v": "self", "t": ""}}, "name": "A1"}, {"value": {"layout": {"k": "ref", "v": "urn:t:i64"}}, "name": "Foo"}], "t": "sum", "id": "urn:t:T59"}"##),
	("T60", r##"{"base": "https://ex.org/doc", "item": {"intro": ["v"], "dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "https://ex.org/T60/p1", "t": ""}, {"k": "var", "v": "v", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T43"}, "input": [{"k": "var", "v": "v", "t": ""}], "graph": {"k": "iri", "v": "g1", "t": ""}}}, "t": "set", "id": "urn:t:T60"}"##),
	("T61", r##"{"intro": ["i"], "dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "https://ex.org/T61/p1", "t": ""}, {"k": "var", "v": "i", "t": ""}]], "node": {"intro": ["v", "w"], "dataset": [[{"k": "var", "v": "h", "t": ""}, {"k": "iri", "v": "https://ex.org/T61/p2", "t": ""}, {"k": "var", "v": "rest", "t": ""}], [{"k": "var", "v": "h", "t": ""}, {"k": "iri", "v": "https://ex.org/T61/p3", "t": ""}, {"k": "var", "v": "v", "t": ""}], [{"k": "var", "v": "h", "t": ""}, {"k": "iri", "v": "https://ex.org/T61/p4", "t": ""}, {"k": "var", "v": "w", "t": ""}, {"k": "iri", "v": "https://ex.org/g0", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:bool"}, "input": [{"k": "var", "v": "v", "t": ""}]}, "head": "h"}, "t": "list", "id": "urn:t:T61"}"##),
	("T62", r##"{"base": "https://ex.org/", "items": [{"property": {"k": "iri", "v": "T62/p1", "t": ""}, "value": {"layout": {"k": "ref", "v": "urn:t:String"}}}, {"intro": [], "dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "T62/p2", "t": ""}, {"k": "iri", "v": "c2", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:bool"}, "input": [{"k": "var", "v": "self", "t": ""}]}}], "t": "tuple", "id": "urn:t:T62"}"##),
	("T63", r##"{"prefixes": [["ex", "https://ex.org/a/"]], "base": "https://ex.org/", "input": ["other", "self"], "intro": ["value"], "dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "T63/p1", "t": ""}, {"k": "var", "v": "value", "t": ""}]], "items": [{"property": {"k": "iri", "v": "https://ex.org/T63/p2", "t": ""}, "value": {"layout": {"k": "ref", "v": "urn:t:i32"}}}, {"intro": [], "dataset": [[{"k": "var", "v": "value", "t": ""}, {"k": "iri", "v": "T63/p3", "t": ""}, {"k": "iri", "v": "c1", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T45"}, "input": [{"k": "var", "v": "self", "t": ""}]}}], "t": "tuple", "id": "urn:t:T63"}"##),
	("T64", r##"{"prefixes": [["e", "https://ex.org/"]], "base": "https://ex.org/doc", "input": ["x", "y"], "dataset": [[{"k": "var", "v": "x", "t": ""}, {"k": "iri", "v": "e:T64/is", "t": ""}, {"k": "iri", "v": "e:c0", "t": ""}]], "fields": [{"property": {"k": "iri", "v": "e:T64/p1", "t": ""}, "value": {"layout": {"k": "ref", "v": "urn:t:T55"}, "graph": {"k": "iri", "v": "https://ex.org/g1", "t": ""}}, "name": "foo", "required": true}, {"property": {"k": "iri", "v": "e:T64/p2", "t": ""}, "value": {"layout": {"k": "ref", "v": "urn:t:bool"}}, "name": "zz1", "required": true}], "t": "record", "id": "urn:t:T64"}"##),
	("T65", r##"{"prefixes": [["ex", "https://ex.org/a/"]], "input": ["other", "self"], "variants": [{"value": {"layout": {"k": "ref", "v": "urn:t:Id"}, "input": [{"k": "var", "v": "self", "t": ""}]}, "name": "A0"}, {"dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "https://ex.org/T65/p1", "t": ""}, {"k": "iri", "v": "https://ex.org/c1", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:Unit"}}, "name": "Bar"}, {"intro": ["v", "w"], "dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "https://ex.org/T65/p2", "t": ""}, {"k": "var", "v": "v", "t": ""}, {"k": "var", "v": "other", "t": ""}], [{"k": "var", "v": "other", "t": ""}, {"k": "iri", "v": "https://ex.org/T65/p3", "t": ""}, {"k": "var", "v": "w", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:Id"}, "input": [{"k": "var", "v": "v", "t": ""}]}, "name": "Baz"}], "t": "sum", "id": "urn:t:T65"}"##),
	("T66", r##"{"prefixes": [["ex", "https://ex.org/"]], "item": {"property": {"k": "iri", "v": "ex:p0", "t": ""}, "value": {"layout": {"k": "ref", "v": "urn:t:T61"}}}, "t": "set", "id": "urn:t:T66"}"##),
	("T67", r##"{"prefixes": [["ex", "https://ex.org/a/"]], "input": ["other", "self"], "intro": ["i"], "dataset": [[{"k": "var", "v": "other", "t": ""}, {"k": "iri", "v": "https://ex.org/T67/p1", "t": ""}, {"k": "var", "v": "i", "t": ""}]], "node": {"dataset": [[{"k": "var", "v": "head", "t": ""}, {"k": "iri", "v": "https://ex.org/T67/p2", "t": ""}, {"k": "var", "v": "rest", "t": ""}], [{"k": "var", "v": "head", "t": ""}, {"k": "iri", "v": "https://ex.org/T67/p3", "t": ""}, {"k": "var", "v": "value", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:Unit"}, "input": [{"k": "var", "v": "value", "t": ""}]}}, "t": "list", "id": "urn:t:T67"}"##),
	("T68", r##"{"base": "https://ex.org/", "intro": ["value"], "dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "T68/p1", "t": ""}, {"k": "var", "v": "value", "t": ""}], [{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "T68/is", "t": ""}, {"k": "iri", "v": "https://ex.org/c0", "t": ""}]], "items": [{"intro": ["v", "w"], "dataset": [[{"k": "var", "v": "value", "t": ""}, {"k": "iri", "v": "T68/p2", "t": ""}, {"k": "var", "v": "v", "t": ""}], [{"k": "var", "v": "value", "t": ""}, {"k": "iri", "v": "T68/p3", "t": ""}, {"k": "var", "v": "w", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T29"}, "input": [{"k": "var", "v": "self", "t": ""}, {"k": "var", "v": "v", "t": ""}]}}], "t": "tuple", "id": "urn:t:T68"}"##),
	("T69", r##"{"base": "https://ex.org/", "input": ["other", "self"], "fields": [{"intro": ["value", "w"], "dataset": [[{"k": "iri", "v": "c1", "t": ""}, {"k": "iri", "v": "T69/p1", "t": ""}, {"k": "var", "v": "value", "t": ""}], [{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "https://ex.org/T69/p2", "t": ""}, {"k": "var", "v": "w", "t": ""}, {"k": "iri", "v": "g0", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T61"}, "input": [{"k": "var", "v": "value", "t": ""}]}, "name": "foo", "required": true}], "t": "record", "id": "urn:t:T69"}"##),
	("T70", r##"{"prefixes": [["e", "https://ex.org/"]], "base": "https://ex.org/doc", "intro": ["i", "j"], "dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "https://ex.org/T70/p1", "t": ""}, {"k": "var", "v": "i", "t": ""}], [{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "e:T70/p2", "t": ""}, {"k": "var", "v": "j", "t": ""}], [{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "https://ex.org/T70/is", "t": ""}, {"k": "iri", "v": "e:c1", "t": ""}]], "variants": [{"intro": ["v"], "dataset": [[{"k": "var", "v": "j", "t": ""}, {"k": "iri", "v": "T70/p4", "t": ""}, {"k": "var", "v": "v", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T67"}, "input": [{"k": "var", "v": "v", "t": ""}, {"k": "var", "v": "v", "t": ""}]}, "name": "A1"}, {"intro": ["v"], "dataset": [[{"k": "var", "v": "v", "t": ""}, {"k": "iri", "v": "T70/p3", "t": ""}, {"k": "var", "v": "self", "t": ""}, {"k": "var", "v": "i", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T64"}, "input": [{"k": "var", "v": "v", "t": ""}, {"k": "iri", "v": "c2", "t": ""}]}, "name": "Foo"}], "t": "sum", "id": "urn:t:T70"}"##),
	("T71", r##"{"intro": ["value"], "dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "https://ex.org/T71/p1", "t": ""}, {"k": "var", "v": "value", "t": ""}]], "item": {"property": {"k": "iri", "v": "https://ex.org/T71/p2", "t": ""}, "value": {"layout": {"k": "ref", "v": "urn:t:T12"}, "graph": {"k": "none", "v": "", "t": ""}}}, "t": "set", "id": "urn:t:T71"}"##),
	("T72", r##"{"base": "https://ex.org/doc", "node": {"value": {"layout": {"k": "ref", "v": "urn:t:String"}}}, "t": "list", "id": "urn:t:T72"}"##),
	("T73", r##"{"prefixes": [["ex", "https://ex.org/"]], "base": "https://ex.org/doc", "intro": ["i"], "dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "T73/p1", "t": ""}, {"k": "var", "v": "i", "t": ""}, {"k": "iri", "v": "g1", "t": ""}]], "items": [{"property": {"k": "iri", "v": "ex:T73/p2", "t": ""}, "value": {"layout": {"k": "ref", "v": "urn:t:Id"}, "graph": {"k": "var", "v": "i", "t": ""}}}, {"property": {"k": "iri", "v": "ex:T73/p3", "t": ""}, "value": {"layout": {"k": "ref", "v": "urn:t:bool"}}}, {"property": {"k": "iri", "v": "T73/p4", "t": ""}, "value": {"layout": {"k": "ref", "v": "urn:t:T66"}}}], "t": "tuple", "id": "urn:t:T73"}"##),
	("T74", r##"{"prefixes": [["ex", "https://ex.org/"]], "input": ["other", "self"], "fields": [{"intro": ["v"], "dataset": [[{"k": "var", "v": "v", "t": ""}, {"k": "iri", "v": "https://ex.org/T74/p1", "t": ""}, {"k": "var", "v": "self", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:String"}, "input": [{"k": "var", "v": "v", "t": ""}]}, "name": "foo", "required": true}], "t": "record", "id": "urn:t:T74"}"##),
	("T75", r##"{"prefixes": [["ex", "https://ex.org/a/"]], "base": "https://ex.org/", "fields": [{"intro": [], "value": {"layout": {"k": "ref", "v": "urn:t:String"}, "input": [{"k": "iri", "v": "https://ex.org/c0", "t": ""}]}, "name": "foo", "required": true}, {"property": {"k": "iri", "v": "p2", "t": ""}, "value": {"layout": {"k": "ref", "v": "urn:t:String"}}, "name": "bar", "required": false}], "t": "record", "id": "urn:t:T75"}"##),
	("T76", r##"{"prefixes": [["ex", "https://ex.org/"]], "base": "https://ex.org/", "input": ["x", "y"], "item": {"intro": ["value", "w"], "property": {"k": "iri", "v": "ex:T76/p1", "t": ""}, "dataset": [[{"k": "var", "v": "y", "t": ""}, {"k": "iri", "v": "https://ex.org/T76/p2", "t": ""}, {"k": "var", "v": "w", "t": ""}, {"k": "iri", "v": "ex:g1", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:String"}, "input": [{"k": "var", "v": "value", "t": ""}]}}, "t": "set", "id": "urn:t:T76"}"##),
	("T77", r##"{"prefixes": [["e", "https://ex.org/"]], "input": ["x", "y"], "intro": ["i"], "dataset": [[{"k": "var", "v": "y", "t": ""}, {"k": "iri", "v": "https://ex.org/T77/p1", "t": ""}, {"k": "var", "v": "i", "t": ""}]], "head": {"k": "var", "v": "i", "t": ""}, "node": {"value": {"layout": {"k": "ref", "v": "urn:t:String"}}}, "t": "list", "id": "urn:t:T77"}"##),
	("T78", r##"{"prefixes": [["ex", "https://ex.org/"]], "input": ["a"], "intro": ["i"], "dataset": [[{"k": "var", "v": "i", "t": ""}, {"k": "iri", "v": "ex:T78/p1", "t": ""}, {"k": "var", "v": "a", "t": ""}]], "fields": [{"intro": ["value", "w"], "dataset": [[{"k": "var", "v": "a", "t": ""}, {"k": "iri", "v": "ex:T78/p2", "t": ""}, {"k": "var", "v": "value", "t": ""}], [{"k": "var", "v": "i", "t": ""}, {"k": "iri", "v": "https://ex.org/T78/p3", "t": ""}, {"k": "var", "v": "w", "t": ""}, {"k": "iri", "v": "ex:g1", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T74"}, "input": [{"k": "var", "v": "value", "t": ""}, {"k": "var", "v": "value", "t": ""}]}, "name": "foo", "required": true}], "t": "record", "id": "urn:t:T78"}"##),
	("T79", r##"{"base": "https://ex.org/doc", "items": [{"intro": ["self"], "property": {"k": "iri", "v": "T79/p1", "t": ""}, "value": {"layout": {"k": "ref", "v": "urn:t:T74"}, "input": [{"k": "var", "v": "self", "t": ""}, {"k": "var", "v": "self", "t": ""}]}}], "t": "tuple", "id": "urn:t:T79"}"##),
	("T80", r##"{"prefixes": [["ex", "https://ex.org/a/"]], "input": ["self"], "node": {"intro": ["v", "w"], "dataset": [[{"k": "var", "v": "head", "t": ""}, {"k": "iri", "v": "https://ex.org/p1", "t": ""}, {"k": "var", "v": "rest", "t": ""}], [{"k": "var", "v": "head", "t": ""}, {"k": "iri", "v": "https://ex.org/T80/p2", "t": ""}, {"k": "var", "v": "v", "t": ""}], [{"k": "var", "v": "head", "t": ""}, {"k": "iri", "v": "https://ex.org/p2", "t": ""}, {"k": "var", "v": "w", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T74"}, "input": [{"k": "var", "v": "self", "t": ""}, {"k": "var", "v": "v", "t": ""}]}}, "t": "list", "id": "urn:t:T80"}"##),
	("T81", r##"{"prefixes": [["e", "https://ex.org/"]], "base": "https://ex.org/doc", "intro": ["i"], "dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "e:p2", "t": ""}, {"k": "var", "v": "i", "t": ""}, {"k": "var", "v": "self", "t": ""}]], "item": {"intro": ["value", "w"], "property": {"k": "iri", "v": "T81/p2", "t": ""}, "dataset": [[{"k": "iri", "v": "e:c1", "t": ""}, {"k": "iri", "v": "e:T81/p3", "t": ""}, {"k": "var", "v": "w", "t": ""}, {"k": "var", "v": "value", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T74"}, "input": [{"k": "var", "v": "value", "t": ""}, {"k": "var", "v": "self", "t": ""}]}}, "t": "set", "id": "urn:t:T81"}"##),
	("T82", r##"{"prefixes": [["ex", "https://ex.org/"]], "dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "ex:T82/is", "t": ""}, {"k": "iri", "v": "https://ex.org/c2", "t": ""}]], "variants": [{"intro": ["v"], "dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "ex:T82/p1", "t": ""}, {"k": "var", "v": "v", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T74"}, "input": [{"k": "var", "v": "self", "t": ""}, {"k": "var", "v": "v", "t": ""}]}, "name": "A0"}, {"intro": ["v"], "dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "ex:T82/p2", "t": ""}, {"k": "var", "v": "v", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T74"}, "input": [{"k": "var", "v": "v", "t": ""}, {"k": "var", "v": "self", "t": ""}]}, "name": "Bar"}, {"intro": ["v", "w"], "dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "https://ex.org/T82/p3", "t": ""}, {"k": "var", "v": "v", "t": ""}], [{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "ex:T82/p4", "t": ""}, {"k": "var", "v": "w", "t": ""}], [{"k": "var", "v": "v", "t": ""}, {"k": "iri", "v": "ex:T82/is", "t": ""}, {"k": "iri", "v": "ex:c2", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T74"}, "input": [{"k": "var", "v": "v", "t": ""}, {"k": "var", "v": "v", "t": ""}]}, "name": "Baz"}], "t": "sum", "id": "urn:t:T82"}"##),
	("T83", r##"{"intro": ["value"], "dataset": [[{"k": "var", "v": "value", "t": ""}, {"k": "iri", "v": "https://ex.org/T83/p1", "t": ""}, {"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "https://ex.org/g0", "t": ""}]], "items": [{"intro": ["self"], "dataset": [[{"k": "var", "v": "value", "t": ""}, {"k": "iri", "v": "https://ex.org/T83/p2", "t": ""}, {"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "https://ex.org/g1", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T74"}, "input": [{"k": "var", "v": "self", "t": ""}, {"k": "var", "v": "self", "t": ""}]}}, {"intro": ["value", "w"], "property": {"k": "iri", "v": "https://ex.org/T83/p3", "t": ""}, "dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "https://ex.org/T83/p4", "t": ""}, {"k": "var", "v": "w", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T74"}, "input": [{"k": "var", "v": "value", "t": ""}, {"k": "var", "v": "w", "t": ""}]}}, {"intro": ["v", "w"], "dataset": [[{"k": "var", "v": "value", "t": ""}, {"k": "iri", "v": "https://ex.org/T83/p5", "t": ""}, {"k": "var", "v": "v", "t": ""}], [{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "https://ex.org/T83/p6", "t": ""}, {"k": "var", "v": "w", "t": ""}], [{"k": "var", "v": "w", "t": ""}, {"k": "iri", "v": "https://ex.org/T83/is", "t": ""}, {"k": "iri", "v": "https://ex.org/c1", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T74"}, "input": [{"k": "var", "v": "v", "t": ""}, {"k": "var", "v": "self", "t": ""}]}}], "t": "tuple", "id": "urn:t:T83"}"##),
	("T84", r##"{"base": "https://ex.org/", "input": ["self", "other"], "head": {"k": "var", "v": "self", "t": ""}, "node": {"dataset": [[{"k": "var", "v": "head", "t": ""}, {"k": "iri", "v": "T84/p1", "t": ""}, {"k": "var", "v": "rest", "t": ""}], [{"k": "var", "v": "head", "t": ""}, {"k": "iri", "v": "T84/p2", "t": ""}, {"k": "var", "v": "value", "t": ""}, {"k": "iri", "v": "https://ex.org/g0", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T74"}, "input": [{"k": "var", "v": "self", "t": ""}, {"k": "var", "v": "value", "t": ""}]}}, "t": "list", "id": "urn:t:T84"}"##),
	("T85", r##"{"base": "https://ex.org/", "input": ["self", "other"], "dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "T85/is", "t": ""}, {"k": "iri", "v": "c2", "t": ""}, {"k": "iri", "v": "g0", "t": ""}]], "fields": [{"intro": ["value", "w"], "dataset": [[{"k": "var", "v": "value", "t": ""}, {"k": "iri", "v": "T85/p1", "t": ""}, {"k": "var", "v": "other", "t": ""}, {"k": "iri", "v": "https://ex.org/g1", "t": ""}], [{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "T85/p2", "t": ""}, {"k": "var", "v": "w", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T74"}, "input": [{"k": "var", "v": "self", "t": ""}, {"k": "var", "v": "value", "t": ""}]}, "name": "foo", "required": true}], "t": "record", "id": "urn:t:T85"}"##),
	("T86", r##"{"prefixes": [["ex", "https://ex.org/"]], "base": "https://ex.org/", "intro": ["i", "j"], "dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "ex:T86/p1", "t": ""}, {"k": "var", "v": "i", "t": ""}], [{"k": "var", "v": "i", "t": ""}, {"k": "iri", "v": "ex:T86/p2", "t": ""}, {"k": "var", "v": "j", "t": ""}], [{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "ex:T86/is", "t": ""}, {"k": "iri", "v": "ex:c2", "t": ""}]], "variants": [{"intro": ["v", "w"], "dataset": [[{"k": "var", "v": "j", "t": ""}, {"k": "iri", "v": "ex:T86/p4", "t": ""}, {"k": "var", "v": "v", "t": ""}], [{"k": "var", "v": "j", "t": ""}, {"k": "iri", "v": "ex:T86/p5", "t": ""}, {"k": "var", "v": "w", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T74"}, "input": [{"k": "var", "v": "w", "t": ""}, {"k": "var", "v": "v", "t": ""}]}, "name": "A1"}, {"intro": ["v"], "dataset": [[{"k": "var", "v": "v", "t": ""}, {"k": "iri", "v": "ex:T86/p6", "t": ""}, {"k": "var", "v": "i", "t": ""}, {"k": "iri", "v": "g0", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T74"}, "input": [{"k": "var", "v": "v", "t": ""}, {"k": "var", "v": "i", "t": ""}]}, "name": "A2"}, {"intro": ["v"], "dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "https://ex.org/T86/p3", "t": ""}, {"k": "var", "v": "v", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T74"}, "input": [{"k": "var", "v": "v", "t": ""}, {"k": "var", "v": "j", "t": ""}]}, "name": "Foo"}], "t": "sum", "id": "urn:t:T86"}"##),
	("T87", r##"{"prefixes": [["ex", "https://ex.org/"]], "base": "https://ex.org/", "intro": ["value"], "dataset": [[{"k": "var", "v": "value", "t": ""}, {"k": "iri", "v": "ex:p1", "t": ""}, {"k": "var", "v": "self", "t": ""}], [{"k": "var", "v": "value", "t": ""}, {"k": "iri", "v": "T87/is", "t": ""}, {"k": "iri", "v": "ex:c2", "t": ""}, {"k": "iri", "v": "https://ex.org/g0", "t": ""}]], "item": {"intro": [], "dataset": [[{"k": "var", "v": "value", "t": ""}, {"k": "iri", "v": "T87/p2", "t": ""}, {"k": "iri", "v": "ex:c1", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T74"}, "input": [{"k": "iri", "v": "c1", "t": ""}, {"k": "var", "v": "value", "t": ""}]}}, "t": "set", "id": "urn:t:T87"}"##),
	("T88", r##"{"prefixes": [["ex", "https://ex.org/"]], "base": "https://ex.org/doc", "input": ["other", "self"], "intro": ["i", "j"], "dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "ex:T88/p1", "t": ""}, {"k": "var", "v": "i", "t": ""}], [{"k": "var", "v": "i", "t": ""}, {"k": "iri", "v": "T88/p2", "t": ""}, {"k": "var", "v": "j", "t": ""}]], "items": [{"intro": ["v", "w"], "dataset": [[{"k": "var", "v": "i", "t": ""}, {"k": "iri", "v": "ex:T88/p3", "t": ""}, {"k": "var", "v": "v", "t": ""}], [{"k": "var", "v": "j", "t": ""}, {"k": "iri", "v": "T88/p4", "t": ""}, {"k": "var", "v": "w", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T74"}, "input": [{"k": "var", "v": "v", "t": ""}, {"k": "var", "v": "v", "t": ""}], "graph": {"k": "none", "v": "", "t": ""}}}, {"intro": ["value", "w"], "property": {"k": "iri", "v": "ex:T88/p5", "t": ""}, "dataset": [[{"k": "var", "v": "w", "t": ""}, {"k": "iri", "v": "ex:T88/p6", "t": ""}, {"k": "var", "v": "j", "t": ""}, {"k": "iri", "v": "https://ex.org/g0", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T74"}, "input": [{"k": "var", "v": "self", "t": ""}, {"k": "var", "v": "value", "t": ""}], "graph": {"k": "none", "v": "", "t": ""}}}, {"intro": [], "dataset": [[{"k": "var", "v": "j", "t": ""}, {"k": "iri", "v": "ex:T88/p7", "t": ""}, {"k": "iri", "v": "c2", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T74"}, "input": [{"k": "var", "v": "j", "t": ""}, {"k": "var", "v": "i", "t": ""}], "graph": {"k": "none", "v": "", "t": ""}}}], "t": "tuple", "id": "urn:t:T88"}"##),
	("T89", r##"{"input": ["x", "y"], "fields": [{"dataset": [[{"k": "var", "v": "y", "t": ""}, {"k": "iri", "v": "https://ex.org/T89/p1", "t": ""}, {"k": "var", "v": "value", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T74"}, "input": [{"k": "var", "v": "y", "t": ""}, {"k": "var", "v": "value", "t": ""}], "graph": {"k": "none", "v": "", "t": ""}}, "name": "zz0", "required": true}], "t": "record", "id": "urn:t:T89"}"##),
	("T90", r##"{"tail": {"k": "iri", "v": "https://ex.org/nil", "t": ""}, "node": {"intro": ["v"], "dataset": [[{"k": "var", "v": "head", "t": ""}, {"k": "iri", "v": "https://ex.org/T90/p1", "t": ""}, {"k": "var", "v": "rest", "t": ""}], [{"k": "var", "v": "head", "t": ""}, {"k": "iri", "v": "https://ex.org/T90/p2", "t": ""}, {"k": "var", "v": "v", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T74"}, "input": [{"k": "var", "v": "head", "t": ""}, {"k": "var", "v": "v", "t": ""}], "graph": {"k": "none", "v": "", "t": ""}}}, "t": "list", "id": "urn:t:T90"}"##),
	("T91", r##"{"base": "https://ex.org/", "variants": [{"intro": ["v", "w"], "dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "p0", "t": ""}, {"k": "var", "v": "v", "t": ""}], [{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "T91/p2", "t": ""}, {"k": "var", "v": "w", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T74"}, "input": [{"k": "var", "v": "v", "t": ""}, {"k": "var", "v": "v", "t": ""}], "graph": {"k": "none", "v": "", "t": ""}}, "name": "Bar"}, {"value": {"layout": {"k": "ref", "v": "urn:t:T74"}, "input": [{"k": "var", "v": "self", "t": ""}, {"k": "var", "v": "self", "t": ""}], "graph": {"k": "none", "v": "", "t": ""}}, "name": "Foo"}], "t": "sum", "id": "urn:t:T91"}"##),
	("T92", r##"{"intro": ["value"], "dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "https://ex.org/T92/p1", "t": ""}, {"k": "var", "v": "value", "t": ""}], [{"k": "var", "v": "value", "t": ""}, {"k": "iri", "v": "https://ex.org/T92/is", "t": ""}, {"k": "iri", "v": "https://ex.org/c0", "t": ""}, {"k": "iri", "v": "https://ex.org/g1", "t": ""}]], "item": {"dataset": [[{"k": "iri", "v": "https://ex.org/c1", "t": ""}, {"k": "iri", "v": "https://ex.org/T92/p2", "t": ""}, {"k": "var", "v": "value", "t": ""}, {"k": "var", "v": "self", "t": ""}], [{"k": "var", "v": "value", "t": ""}, {"k": "iri", "v": "https://ex.org/T92/is", "t": ""}, {"k": "iri", "v": "https://ex.org/c2", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T74"}, "input": [{"k": "var", "v": "value", "t": ""}, {"k": "var", "v": "value", "t": ""}], "graph": {"k": "none", "v": "", "t": ""}}}, "t": "set", "id": "urn:t:T92"}"##),
	("T93", r##"{"prefixes": [["ex", "https://ex.org/"]], "base": "https://ex.org/doc", "input": ["a"], "item": {"intro": ["self"], "property": {"k": "iri", "v": "ex:p0", "t": ""}, "value": {"layout": {"k": "ref", "v": "urn:t:T74"}, "input": [{"k": "var", "v": "a", "t": ""}, {"k": "var", "v": "self", "t": ""}], "graph": {"k": "iri", "v": "g1", "t": ""}}}, "t": "set", "id": "urn:t:T93"}"##),
	("T94", r##"{"prefixes": [["ex", "https://ex.org/"]], "base": "https://ex.org/doc", "input": ["a"], "intro": ["value"], "dataset": [[{"k": "var", "v": "a", "t": ""}, {"k": "iri", "v": "ex:T94/p1", "t": ""}, {"k": "var", "v": "value", "t": ""}]], "items": [{"intro": ["v"], "property": {"k": "iri", "v": "ex:T94/p2", "t": ""}, "value": {"layout": {"k": "ref", "v": "urn:t:T74"}, "input": [{"k": "var", "v": "v", "t": ""}, {"k": "var", "v": "v", "t": ""}], "graph": {"k": "iri", "v": "g0", "t": ""}}}, {"intro": ["self"], "property": {"k": "iri", "v": "ex:T94/p3", "t": ""}, "dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "ex:T94/is", "t": ""}, {"k": "iri", "v": "c1", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T74"}, "input": [{"k": "var", "v": "value", "t": ""}, {"k": "var", "v": "self", "t": ""}], "graph": {"k": "iri", "v": "g1", "t": ""}}}], "t": "tuple", "id": "urn:t:T94"}"##),
	("T95", r##"{"prefixes": [["ex", "https://ex.org/a/"]], "variants": [{"intro": ["v"], "dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "https://ex.org/p2", "t": ""}, {"k": "var", "v": "v", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T74"}, "input": [{"k": "var", "v": "self", "t": ""}, {"k": "var", "v": "v", "t": ""}], "graph": {"k": "iri", "v": "https://ex.org/g1", "t": ""}}, "name": "A0"}, {"value": {"layout": {"k": "ref", "v": "urn:t:T74"}, "input": [{"k": "var", "v": "self", "t": ""}, {"k": "var", "v": "self", "t": ""}], "graph": {"k": "iri", "v": "https://ex.org/g1", "t": ""}}, "name": "Bar"}, {"intro": ["v"], "dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "https://ex.org/T95/p2", "t": ""}, {"k": "var", "v": "v", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T74"}, "input": [{"k": "var", "v": "self", "t": ""}, {"k": "var", "v": "v", "t": ""}], "graph": {"k": "iri", "v": "https://ex.org/g0", "t": ""}}, "name": "Baz"}], "t": "sum", "id": "urn:t:T95"}"##),
	("T96", r##"{"input": ["other", "self"], "intro": ["i"], "dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "https://ex.org/T96/p1", "t": ""}, {"k": "var", "v": "i", "t": ""}, {"k": "iri", "v": "https://ex.org/g1", "t": ""}]], "fields": [{"intro": ["self"], "dataset": [[{"k": "var", "v": "i", "t": ""}, {"k": "iri", "v": "https://ex.org/T96/p2", "t": ""}, {"k": "var", "v": "self", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T74"}, "input": [{"k": "var", "v": "self", "t": ""}, {"k": "var", "v": "self", "t": ""}], "graph": {"k": "iri", "v": "https://ex.org/g1", "t": ""}}, "name": "foo", "required": true}], "t": "record", "id": "urn:t:T96"}"##),
	("T97", r##"{"prefixes": [["ex", "https://ex.org/a/"]], "base": "https://ex.org/", "input": ["x", "y"], "intro": ["i", "j"], "dataset": [[{"k": "var", "v": "y", "t": ""}, {"k": "iri", "v": "https://ex.org/T97/p1", "t": ""}, {"k": "var", "v": "i", "t": ""}], [{"k": "var", "v": "j", "t": ""}, {"k": "iri", "v": "T97/p2", "t": ""}, {"k": "var", "v": "y", "t": ""}]], "head": {"k": "var", "v": "x", "t": ""}, "node": {"dataset": [[{"k": "var", "v": "head", "t": ""}, {"k": "iri", "v": "https://ex.org/T97/p3", "t": ""}, {"k": "var", "v": "other", "t": ""}], [{"k": "var", "v": "head", "t": ""}, {"k": "iri", "v": "T97/p4", "t": ""}, {"k": "var", "v": "value", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T74"}, "input": [{"k": "var", "v": "j", "t": ""}, {"k": "var", "v": "value", "t": ""}], "graph": {"k": "iri", "v": "g0", "t": ""}}, "rest": "other"}, "t": "list", "id": "urn:t:T97"}"##),
	("T98", r##"{"base": "https://ex.org/doc", "dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "https://ex.org/T98/is", "t": ""}, {"k": "iri", "v": "c1", "t": ""}, {"k": "iri", "v": "g1", "t": ""}]], "fields": [{"intro": ["v"], "dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "p1", "t": ""}, {"k": "var", "v": "v", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T74"}, "input": [{"k": "var", "v": "v", "t": ""}, {"k": "var", "v": "self", "t": ""}], "graph": {"k": "var", "v": "v", "t": ""}}, "name": "foo", "required": true}], "t": "record", "id": "urn:t:T98"}"##),
	("T99", r##"{"prefixes": [["ex", "https://ex.org/"]], "base": "https://ex.org/", "input": ["self"], "intro": ["i"], "dataset": [[{"k": "var", "v": "i", "t": ""}, {"k": "iri", "v": "T99/p1", "t": ""}, {"k": "var", "v": "self", "t": ""}]], "variants": [{"intro": ["v", "w"], "dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "ex:T99/p2", "t": ""}, {"k": "var", "v": "v", "t": ""}], [{"k": "var", "v": "w", "t": ""}, {"k": "iri", "v": "https://ex.org/T99/p3", "t": ""}, {"k": "var", "v": "self", "t": ""}, {"k": "var", "v": "self", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T74"}, "input": [{"k": "var", "v": "w", "t": ""}, {"k": "var", "v": "v", "t": ""}], "graph": {"k": "var", "v": "v", "t": ""}}, "name": "Foo"}], "t": "sum", "id": "urn:t:T99"}"##),
	("T100", r##"{"prefixes": [["ex", "https://ex.org/a/"]], "input": ["other", "self"], "intro": ["i"], "dataset": [[{"k": "var", "v": "i", "t": ""}, {"k": "iri", "v": "https://ex.org/T100/p1", "t": ""}, {"k": "iri", "v": "https://ex.org/c0", "t": ""}]], "item": {"intro": ["value"], "property": {"k": "iri", "v": "https://ex.org/T100/p2", "t": ""}, "value": {"layout": {"k": "ref", "v": "urn:t:T74"}, "input": [{"k": "var", "v": "value", "t": ""}, {"k": "var", "v": "i", "t": ""}], "graph": {"k": "var", "v": "other", "t": ""}}}, "t": "set", "id": "urn:t:T100"}"##),
	("T101", r##"{"prefixes": [["ex", "https://ex.org/"]], "input": ["other", "self"], "intro": ["value"], "dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "ex:T101/p1", "t": ""}, {"k": "var", "v": "value", "t": ""}]], "items": [{"intro": ["v", "w"], "property": {"k": "iri", "v": "https://ex.org/T101/p2", "t": ""}, "dataset": [[{"k": "iri", "v": "https://ex.org/c1", "t": ""}, {"k": "iri", "v": "ex:T101/p3", "t": ""}, {"k": "var", "v": "w", "t": ""}], [{"k": "var", "v": "value", "t": ""}, {"k": "iri", "v": "ex:T101/is", "t": ""}, {"k": "iri", "v": "https://ex.org/c2", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T74"}, "input": [{"k": "var", "v": "self", "t": ""}, {"k": "var", "v": "v", "t": ""}], "graph": {"k": "var", "v": "v", "t": ""}}}], "t": "tuple", "id": "urn:t:T101"}"##),
	("T102", r##"{"input": ["other", "self"], "intro": ["value"], "dataset": [[{"k": "var", "v": "other", "t": ""}, {"k": "iri", "v": "https://ex.org/T102/p1", "t": ""}, {"k": "var", "v": "value", "t": ""}]], "node": {"intro": ["v", "w"], "dataset": [[{"k": "var", "v": "head", "t": ""}, {"k": "iri", "v": "https://ex.org/T102/p2", "t": ""}, {"k": "var", "v": "rest", "t": ""}], [{"k": "var", "v": "head", "t": ""}, {"k": "iri", "v": "https://ex.org/T102/p3", "t": ""}, {"k": "var", "v": "v", "t": ""}, {"k": "iri", "v": "https://ex.org/g0", "t": ""}], [{"k": "var", "v": "head", "t": ""}, {"k": "iri", "v": "https://ex.org/T102/p4", "t": ""}, {"k": "var", "v": "w", "t": ""}, {"k": "iri", "v": "https://ex.org/g0", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T74"}, "input": [{"k": "var", "v": "v", "t": ""}, {"k": "var", "v": "self", "t": ""}], "graph": {"k": "var", "v": "other", "t": ""}}}, "t": "list", "id": "urn:t:T102"}"##),
	("T103", r##"{"base": "https://ex.org/", "input": ["a"], "fields": [{"intro": [], "value": {"layout": {"k": "ref", "v": "urn:t:T75"}, "input": [{"k": "var", "v": "a", "t": ""}]}, "name": "foo", "required": false}], "t": "record", "id": "urn:t:T103"}"##),
	("T104", r##"{"prefixes": [["ex", "https://ex.org/a/"]], "variants": [{"value": {"layout": {"k": "ref", "v": "urn:t:T75"}}, "name": "Bar"}, {"value": {"layout": {"k": "ref", "v": "urn:t:T75"}}, "name": "Foo"}], "t": "sum", "id": "urn:t:T104"}"##),
	("T105", r##"{"items": [{"intro": ["v", "w"], "dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "https://ex.org/T105/p1", "t": ""}, {"k": "var", "v": "v", "t": ""}, {"k": "var", "v": "self", "t": ""}], [{"k": "var", "v": "w", "t": ""}, {"k": "iri", "v": "https://ex.org/T105/p2", "t": ""}, {"k": "var", "v": "v", "t": ""}, {"k": "iri", "v": "https://ex.org/g1", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T75"}, "input": [{"k": "var", "v": "v", "t": ""}]}}, {"property": {"k": "iri", "v": "https://ex.org/T105/p3", "t": ""}, "value": {"layout": {"k": "ref", "v": "urn:t:T75"}}}, {"intro": ["v"], "dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "https://ex.org/T105/p4", "t": ""}, {"k": "var", "v": "v", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T75"}, "input": [{"k": "var", "v": "v", "t": ""}]}}], "t": "tuple", "id": "urn:t:T105"}"##),
	("T106", r##"{"prefixes": [["ex", "https://ex.org/a/"]], "base": "https://ex.org/doc", "input": ["self"], "item": {"intro": [], "value": {"layout": {"k": "ref", "v": "urn:t:T75"}, "input": [{"k": "var", "v": "self", "t": ""}]}}, "t": "set", "id": "urn:t:T106"}"##),
	("T107", r##"{"prefixes": [["e", "https://ex.org/"]], "dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "https://ex.org/T107/is", "t": ""}, {"k": "iri", "v": "e:c1", "t": ""}]], "item": {"intro": ["v"], "property": {"k": "iri", "v": "e:T107/p1", "t": ""}, "value": {"layout": {"k": "ref", "v": "urn:t:T75"}, "input": [{"k": "var", "v": "v", "t": ""}], "graph": {"k": "none", "v": "", "t": ""}}}, "t": "set", "id": "urn:t:T107"}"##),
	("T108", r##"{"prefixes": [["ex", "https://ex.org/"]], "input": ["x", "y"], "head": {"k": "var", "v": "x", "t": ""}, "node": {"intro": ["v"], "dataset": [[{"k": "var", "v": "head", "t": ""}, {"k": "iri", "v": "https://ex.org/T108/p1", "t": ""}, {"k": "var", "v": "rest", "t": ""}], [{"k": "var", "v": "head", "t": ""}, {"k": "iri", "v": "ex:T108/p2", "t": ""}, {"k": "var", "v": "v", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T75"}, "input": [{"k": "var", "v": "v", "t": ""}], "graph": {"k": "none", "v": "", "t": ""}}}, "t": "list", "id": "urn:t:T108"}"##),
	("T109", r##"{"prefixes": [["e", "https://ex.org/"]], "base": "https://ex.org/doc", "item": {"intro": [], "value": {"layout": {"k": "ref", "v": "urn:t:T75"}, "input": [{"k": "iri", "v": "e:c2", "t": ""}], "graph": {"k": "iri", "v": "g1", "t": ""}}}, "t": "set", "id": "urn:t:T109"}"##),
	("T110", r##"{"prefixes": [["ex", "https://ex.org/a/"]], "intro": ["i"], "dataset": [[{"k": "var", "v": "i", "t": ""}, {"k": "iri", "v": "https://ex.org/T110/p1", "t": ""}, {"k": "iri", "v": "https://ex.org/c0", "t": ""}]], "items": [{"intro": [], "value": {"layout": {"k": "ref", "v": "urn:t:T75"}, "input": [{"k": "var", "v": "self", "t": ""}], "graph": {"k": "iri", "v": "https://ex.org/g0", "t": ""}}}, {"dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "https://ex.org/T110/p2", "t": ""}, {"k": "var", "v": "value", "t": ""}, {"k": "iri", "v": "https://ex.org/g1", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T75"}, "graph": {"k": "iri", "v": "https://ex.org/g0", "t": ""}}}], "t": "tuple", "id": "urn:t:T110"}"##),
	("T111", r##"{"prefixes": [["e", "https://ex.org/"]], "dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "https://ex.org/T111/is", "t": ""}, {"k": "iri", "v": "e:c1", "t": ""}, {"k": "iri", "v": "https://ex.org/g1", "t": ""}]], "variants": [{"dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "https://ex.org/p0", "t": ""}, {"k": "iri", "v": "e:c1", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T75"}, "graph": {"k": "var", "v": "self", "t": ""}}, "name": "A1"}, {"value": {"layout": {"k": "ref", "v": "urn:t:T75"}, "input": [{"k": "var", "v": "self", "t": ""}], "graph": {"k": "var", "v": "self", "t": ""}}, "name": "Foo"}], "t": "sum", "id": "urn:t:T111"}"##),
	("T112", r##"{"prefixes": [["ex", "https://ex.org/a/"]], "node": {"intro": ["v"], "dataset": [[{"k": "var", "v": "node", "t": ""}, {"k": "iri", "v": "https://ex.org/T112/p1", "t": ""}, {"k": "var", "v": "r", "t": ""}], [{"k": "var", "v": "node", "t": ""}, {"k": "iri", "v": "https://ex.org/T112/p2", "t": ""}, {"k": "var", "v": "v", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T75"}, "input": [{"k": "var", "v": "v", "t": ""}], "graph": {"k": "var", "v": "node", "t": ""}}, "head": "node", "rest": "r"}, "t": "list", "id": "urn:t:T112"}"##),
	("T113", r##"{"base": "https://ex.org/doc", "variants": [{"intro": ["v"], "dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "T113/p1", "t": ""}, {"k": "var", "v": "v", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T76"}, "input": [{"k": "var", "v": "v", "t": ""}, {"k": "var", "v": "v", "t": ""}]}, "name": "A0"}, {"dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "T113/is", "t": ""}, {"k": "iri", "v": "c0", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T76"}, "input": [{"k": "var", "v": "self", "t": ""}, {"k": "var", "v": "self", "t": ""}]}, "name": "A1"}], "t": "sum", "id": "urn:t:T113"}"##),
	("T114", r##"{"base": "https://ex.org/doc", "input": ["a"], "fields": [{"intro": ["value", "w"], "property": {"k": "iri", "v": "T114/p1", "t": ""}, "dataset": [[{"k": "var", "v": "value", "t": ""}, {"k": "iri", "v": "https://ex.org/T114/p2", "t": ""}, {"k": "var", "v": "w", "t": ""}, {"k": "iri", "v": "g0", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T76"}, "input": [{"k": "var", "v": "value", "t": ""}, {"k": "var", "v": "a", "t": ""}]}, "name": "foo", "required": true}], "t": "record", "id": "urn:t:T114"}"##),
	("T115", r##"{"prefixes": [["e", "https://ex.org/"]], "input": ["other", "self"], "head": {"k": "var", "v": "self", "t": ""}, "tail": {"k": "iri", "v": "e:nil", "t": ""}, "node": {"intro": ["v"], "dataset": [[{"k": "var", "v": "head", "t": ""}, {"k": "iri", "v": "https://ex.org/T115/p1", "t": ""}, {"k": "var", "v": "rest", "t": ""}], [{"k": "var", "v": "head", "t": ""}, {"k": "iri", "v": "e:T115/p2", "t": ""}, {"k": "var", "v": "v", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T76"}, "input": [{"k": "var", "v": "other", "t": ""}, {"k": "var", "v": "v", "t": ""}]}}, "t": "list", "id": "urn:t:T115"}"##),
	("T116", r##"{"prefixes": [["ex", "https://ex.org/"]], "input": ["self"], "intro": ["i"], "dataset": [[{"k": "var", "v": "i", "t": ""}, {"k": "iri", "v": "ex:T116/p1", "t": ""}, {"k": "var", "v": "self", "t": ""}], [{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "https://ex.org/T116/is", "t": ""}, {"k": "iri", "v": "ex:c0", "t": ""}]], "fields": [{"property": {"k": "iri", "v": "ex:T116/p2", "t": ""}, "dataset": [[{"k": "var", "v": "value", "t": ""}, {"k": "iri", "v": "ex:T116/is", "t": ""}, {"k": "iri", "v": "ex:c1", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T76"}, "input": [{"k": "var", "v": "value", "t": ""}, {"k": "var", "v": "value", "t": ""}]}, "name": "zz0", "required": false}], "t": "record", "id": "urn:t:T116"}"##),
	("T117", r##"{"prefixes": [["ex", "https://ex.org/a/"]], "items": [{"intro": ["v", "w"], "dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "https://ex.org/p2", "t": ""}, {"k": "var", "v": "v", "t": ""}], [{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "https://ex.org/T117/p2", "t": ""}, {"k": "var", "v": "w", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T76"}, "input": [{"k": "var", "v": "v", "t": ""}, {"k": "var", "v": "w", "t": ""}], "graph": {"k": "none", "v": "", "t": ""}}}], "t": "tuple", "id": "urn:t:T117"}"##),
	("T118", r##"{"prefixes": [["ex", "https://ex.org/"]], "input": ["other", "self"], "dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "https://ex.org/T118/is", "t": ""}, {"k": "iri", "v": "ex:c0", "t": ""}, {"k": "iri", "v": "ex:g0", "t": ""}]], "node": {"intro": ["v", "w"], "dataset": [[{"k": "var", "v": "head", "t": ""}, {"k": "iri", "v": "ex:T118/p1", "t": ""}, {"k": "var", "v": "rest", "t": ""}], [{"k": "var", "v": "head", "t": ""}, {"k": "iri", "v": "ex:T118/p2", "t": ""}, {"k": "var", "v": "v", "t": ""}], [{"k": "var", "v": "head", "t": ""}, {"k": "iri", "v": "ex:p1", "t": ""}, {"k": "var", "v": "w", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T76"}, "input": [{"k": "var", "v": "v", "t": ""}, {"k": "iri", "v": "ex:c2", "t": ""}], "graph": {"k": "none", "v": "", "t": ""}}}, "t": "list", "id": "urn:t:T118"}"##),
	("T119", r##"{"prefixes": [["e", "https://ex.org/"]], "base": "https://ex.org/", "tail": {"k": "iri", "v": "e:nil", "t": ""}, "node": {"intro": ["v"], "dataset": [[{"k": "var", "v": "head", "t": ""}, {"k": "iri", "v": "https://ex.org/T119/p1", "t": ""}, {"k": "var", "v": "rest", "t": ""}], [{"k": "var", "v": "head", "t": ""}, {"k": "iri", "v": "e:T119/p2", "t": ""}, {"k": "var", "v": "v", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T76"}, "input": [{"k": "var", "v": "v", "t": ""}, {"k": "var", "v": "head", "t": ""}], "graph": {"k": "iri", "v": "e:g1", "t": ""}}}, "t": "list", "id": "urn:t:T119"}"##),
	("T120", r##"{"input": ["self", "other"], "intro": ["value"], "dataset": [[{"k": "iri", "v": "https://ex.org/c1", "t": ""}, {"k": "iri", "v": "https://ex.org/T120/p1", "t": ""}, {"k": "var", "v": "value", "t": ""}], [{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "https://ex.org/T120/is", "t": ""}, {"k": "iri", "v": "https://ex.org/c1", "t": ""}]], "items": [{"intro": ["value", "w"], "dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "https://ex.org/T120/p2", "t": ""}, {"k": "var", "v": "value", "t": ""}], [{"k": "var", "v": "other", "t": ""}, {"k": "iri", "v": "https://ex.org/T120/p3", "t": ""}, {"k": "var", "v": "w", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T76"}, "input": [{"k": "var", "v": "value", "t": ""}, {"k": "var", "v": "value", "t": ""}], "graph": {"k": "iri", "v": "https://ex.org/g0", "t": ""}}}, {"intro": ["v", "w"], "property": {"k": "iri", "v": "https://ex.org/T120/p4", "t": ""}, "dataset": [[{"k": "var", "v": "v", "t": ""}, {"k": "iri", "v": "https://ex.org/T120/p5", "t": ""}, {"k": "var", "v": "w", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T76"}, "input": [{"k": "var", "v": "v", "t": ""}, {"k": "var", "v": "v", "t": ""}], "graph": {"k": "iri", "v": "https://ex.org/g1", "t": ""}}}], "t": "tuple", "id": "urn:t:T120"}"##),
	("T121", r##"{"prefixes": [["ex", "https://ex.org/a/"]], "base": "https://ex.org/doc", "input": ["self"], "intro": ["i"], "dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "T121/p1", "t": ""}, {"k": "var", "v": "i", "t": ""}, {"k": "iri", "v": "g0", "t": ""}]], "fields": [{"dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "https://ex.org/T121/p2", "t": ""}, {"k": "var", "v": "value", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T76"}, "input": [{"k": "var", "v": "i", "t": ""}, {"k": "var", "v": "value", "t": ""}], "graph": {"k": "var", "v": "self", "t": ""}}, "name": "zz0", "required": true}], "t": "record", "id": "urn:t:T121"}"##),
	("T122", r##"{"prefixes": [["ex", "https://ex.org/"]], "tail": {"k": "iri", "v": "https://ex.org/nil", "t": ""}, "node": {"intro": ["v"], "dataset": [[{"k": "var", "v": "head", "t": ""}, {"k": "iri", "v": "ex:T122/p1", "t": ""}, {"k": "var", "v": "other", "t": ""}], [{"k": "var", "v": "head", "t": ""}, {"k": "iri", "v": "ex:T122/p2", "t": ""}, {"k": "var", "v": "v", "t": ""}, {"k": "iri", "v": "https://ex.org/g0", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T76"}, "input": [{"k": "iri", "v": "ex:c0", "t": ""}, {"k": "var", "v": "v", "t": ""}], "graph": {"k": "var", "v": "self", "t": ""}}, "rest": "other"}, "t": "list", "id": "urn:t:T122"}"##),
	("T123", r##"{"prefixes": [["ex", "https://ex.org/a/"]], "items": [{"intro": ["self"], "dataset": [[{"k": "iri", "v": "https://ex.org/c0", "t": ""}, {"k": "iri", "v": "https://ex.org/T123/p1", "t": ""}, {"k": "var", "v": "self", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T77"}, "input": [{"k": "var", "v": "self", "t": ""}, {"k": "var", "v": "self", "t": ""}]}}], "t": "tuple", "id": "urn:t:T123"}"##),
	("T124", r##"{"prefixes": [["ex", "https://ex.org/a/"]], "intro": ["i", "j"], "dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "https://ex.org/T124/p1", "t": ""}, {"k": "var", "v": "i", "t": ""}], [{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "https://ex.org/T124/p2", "t": ""}, {"k": "var", "v": "j", "t": ""}]], "fields": [{"intro": ["value", "w"], "property": {"k": "iri", "v": "https://ex.org/T124/p3", "t": ""}, "dataset": [[{"k": "var", "v": "i", "t": ""}, {"k": "iri", "v": "https://ex.org/T124/p4", "t": ""}, {"k": "var", "v": "w", "t": ""}, {"k": "iri", "v": "https://ex.org/g1", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T77"}, "input": [{"k": "var", "v": "value", "t": ""}, {"k": "var", "v": "j", "t": ""}]}, "name": "zz0", "required": true}], "t": "record", "id": "urn:t:T124"}"##),
	("T125", r##"{"prefixes": [["e", "https://ex.org/"]], "base": "https://ex.org/", "input": ["x", "y"], "intro": ["i"], "dataset": [[{"k": "var", "v": "x", "t": ""}, {"k": "iri", "v": "https://ex.org/T125/p1", "t": ""}, {"k": "var", "v": "i", "t": ""}]], "fields": [{"intro": ["self"], "dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "T125/p2", "t": ""}, {"k": "var", "v": "x", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T77"}, "input": [{"k": "var", "v": "x", "t": ""}, {"k": "var", "v": "self", "t": ""}]}, "name": "zz0", "required": true}], "t": "record", "id": "urn:t:T125"}"##),
	("T126", r##"{"prefixes": [["e", "https://ex.org/"]], "input": ["self"], "intro": ["i", "j"], "dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "e:T126/p1", "t": ""}, {"k": "var", "v": "i", "t": ""}], [{"k": "var", "v": "i", "t": ""}, {"k": "iri", "v": "e:T126/p2", "t": ""}, {"k": "var", "v": "j", "t": ""}]], "items": [{"intro": ["value", "w"], "dataset": [[{"k": "var", "v": "j", "t": ""}, {"k": "iri", "v": "e:T126/p3", "t": ""}, {"k": "var", "v": "value", "t": ""}], [{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "e:T126/p4", "t": ""}, {"k": "var", "v": "w", "t": ""}, {"k": "iri", "v": "e:g1", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T77"}, "input": [{"k": "var", "v": "value", "t": ""}, {"k": "var", "v": "value", "t": ""}]}}], "t": "tuple", "id": "urn:t:T126"}"##),
	("T127", r##"{"prefixes": [["e", "https://ex.org/"]], "input": ["self"], "node": {"dataset": [[{"k": "var", "v": "node", "t": ""}, {"k": "iri", "v": "https://ex.org/T127/p1", "t": ""}, {"k": "var", "v": "rest", "t": ""}], [{"k": "var", "v": "node", "t": ""}, {"k": "iri", "v": "e:T127/p2", "t": ""}, {"k": "var", "v": "value", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T77"}, "input": [{"k": "var", "v": "self", "t": ""}, {"k": "var", "v": "value", "t": ""}], "graph": {"k": "none", "v": "", "t": ""}}, "head": "node"}, "t": "list", "id": "urn:t:T127"}"##),
	("T128", r##"{"prefixes": [["ex", "https://ex.org/"]], "item": {"intro": ["value", "w"], "property": {"k": "iri", "v": "ex:T128/p1", "t": ""}, "dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "https://ex.org/p1", "t": ""}, {"k": "var", "v": "w", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T77"}, "input": [{"k": "var", "v": "value", "t": ""}, {"k": "var", "v": "w", "t": ""}], "graph": {"k": "none", "v": "", "t": ""}}}, "t": "set", "id": "urn:t:T128"}"##),
	("T129", r##"{"prefixes": [["e", "https://ex.org/"]], "base": "https://ex.org/", "input": ["x", "y"], "fields": [{"intro": ["self"], "dataset": [[{"k": "var", "v": "y", "t": ""}, {"k": "iri", "v": "T129/p1", "t": ""}, {"k": "var", "v": "self", "t": ""}, {"k": "var", "v": "y", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T77"}, "input": [{"k": "var", "v": "y", "t": ""}, {"k": "var", "v": "self", "t": ""}], "graph": {"k": "iri", "v": "e:g0", "t": ""}}, "name": "zz0", "required": false}], "t": "record", "id": "urn:t:T129"}"##),
	("T130", r##"{"prefixes": [["ex", "https://ex.org/"]], "base": "https://ex.org/doc", "intro": ["i", "j"], "dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "T130/p1", "t": ""}, {"k": "var", "v": "i", "t": ""}], [{"k": "var", "v": "i", "t": ""}, {"k": "iri", "v": "T130/p2", "t": ""}, {"k": "var", "v": "j", "t": ""}]], "items": [{"intro": ["v"], "dataset": [[{"k": "var", "v": "j", "t": ""}, {"k": "iri", "v": "ex:p2", "t": ""}, {"k": "var", "v": "v", "t": ""}, {"k": "var", "v": "i", "t": ""}], [{"k": "var", "v": "j", "t": ""}, {"k": "iri", "v": "ex:T130/is", "t": ""}, {"k": "iri", "v": "c2", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T77"}, "input": [{"k": "var", "v": "i", "t": ""}, {"k": "var", "v": "v", "t": ""}], "graph": {"k": "iri", "v": "g1", "t": ""}}}], "t": "tuple", "id": "urn:t:T130"}"##),
	("T131", r##"{"base": "https://ex.org/doc", "intro": ["i"], "dataset": [[{"k": "var", "v": "i", "t": ""}, {"k": "iri", "v": "T131/p1", "t": ""}, {"k": "var", "v": "self", "t": ""}, {"k": "var", "v": "self", "t": ""}]], "item": {"intro": ["v"], "dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "T131/p2", "t": ""}, {"k": "var", "v": "v", "t": ""}], [{"k": "var", "v": "i", "t": ""}, {"k": "iri", "v": "https://ex.org/T131/is", "t": ""}, {"k": "iri", "v": "c1", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T77"}, "input": [{"k": "var", "v": "i", "t": ""}, {"k": "var", "v": "v", "t": ""}], "graph": {"k": "var", "v": "v", "t": ""}}}, "t": "set", "id": "urn:t:T131"}"##),
	("T132", r##"{"prefixes": [["e", "https://ex.org/"]], "input": ["self"], "variants": [{"intro": ["v"], "dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "https://ex.org/T132/p1", "t": ""}, {"k": "var", "v": "v", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T77"}, "input": [{"k": "var", "v": "v", "t": ""}, {"k": "var", "v": "v", "t": ""}], "graph": {"k": "var", "v": "self", "t": ""}}, "name": "Foo"}], "t": "sum", "id": "urn:t:T132"}"##),
	("T133", r##"{"prefixes": [["e", "https://ex.org/"]], "base": "https://ex.org/doc", "fields": [{"property": {"k": "iri", "v": "T133/p1", "t": ""}, "value": {"layout": {"k": "ref", "v": "urn:t:T131"}, "graph": {"k": "iri", "v": "g1", "t": ""}}, "name": "foo", "required": false}, {"dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "T133/p2", "t": ""}, {"k": "var", "v": "value", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T131"}, "input": [{"k": "var", "v": "value", "t": ""}], "graph": {"k": "iri", "v": "e:g0", "t": ""}}, "name": "bar", "required": true}], "t": "record", "id": "urn:t:T133"}"##),
	("T134", r##"{"prefixes": [["e", "https://ex.org/"]], "input": ["self", "other"], "variants": [{"intro": ["v"], "dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "e:T134/p3", "t": ""}, {"k": "var", "v": "v", "t": ""}, {"k": "iri", "v": "e:g1", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T129"}, "input": [{"k": "var", "v": "v", "t": ""}, {"k": "var", "v": "other", "t": ""}], "graph": {"k": "iri", "v": "https://ex.org/g1", "t": ""}}, "name": "Bar"}, {"intro": ["v", "w"], "dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "e:T134/p1", "t": ""}, {"k": "var", "v": "v", "t": ""}, {"k": "var", "v": "self", "t": ""}], [{"k": "var", "v": "v", "t": ""}, {"k": "iri", "v": "https://ex.org/T134/p2", "t": ""}, {"k": "var", "v": "w", "t": ""}], [{"k": "var", "v": "w", "t": ""}, {"k": "iri", "v": "https://ex.org/T134/is", "t": ""}, {"k": "iri", "v": "e:c2", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T129"}, "input": [{"k": "var", "v": "self", "t": ""}, {"k": "var", "v": "v", "t": ""}], "graph": {"k": "iri", "v": "https://ex.org/g1", "t": ""}}, "name": "Foo"}], "t": "sum", "id": "urn:t:T134"}"##),
	("T135", r##"{"base": "https://ex.org/", "input": ["x", "y"], "intro": ["value"], "dataset": [[{"k": "var", "v": "y", "t": ""}, {"k": "iri", "v": "https://ex.org/T135/p1", "t": ""}, {"k": "var", "v": "value", "t": ""}]], "item": {"intro": ["v", "w"], "dataset": [[{"k": "var", "v": "y", "t": ""}, {"k": "iri", "v": "T135/p2", "t": ""}, {"k": "var", "v": "v", "t": ""}], [{"k": "var", "v": "x", "t": ""}, {"k": "iri", "v": "https://ex.org/T135/p3", "t": ""}, {"k": "var", "v": "w", "t": ""}], [{"k": "var", "v": "y", "t": ""}, {"k": "iri", "v": "https://ex.org/T135/is", "t": ""}, {"k": "iri", "v": "c1", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T111"}, "input": [{"k": "var", "v": "v", "t": ""}], "graph": {"k": "iri", "v": "g0", "t": ""}}}, "t": "set", "id": "urn:t:T135"}"##),
	("T136", r##"{"input": ["self", "other"], "node": {"value": {"layout": {"k": "ref", "v": "urn:t:T130"}, "graph": {"k": "iri", "v": "https://ex.org/g1", "t": ""}}}, "t": "list", "id": "urn:t:T136"}"##),
	("T137", r##"{"intro": ["value"], "dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "https://ex.org/T137/p1", "t": ""}, {"k": "var", "v": "value", "t": ""}]], "items": [{"intro": ["v", "w"], "dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "https://ex.org/T137/p2", "t": ""}, {"k": "var", "v": "v", "t": ""}, {"k": "iri", "v": "https://ex.org/g0", "t": ""}], [{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "https://ex.org/T137/p3", "t": ""}, {"k": "var", "v": "w", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T129"}, "input": [{"k": "var", "v": "v", "t": ""}, {"k": "var", "v": "self", "t": ""}], "graph": {"k": "iri", "v": "https://ex.org/g1", "t": ""}}}], "t": "tuple", "id": "urn:t:T137"}"##),
	("T138", r##"{"prefixes": [["e", "https://ex.org/"]], "intro": ["value"], "dataset": [[{"k": "var", "v": "value", "t": ""}, {"k": "iri", "v": "https://ex.org/T138/p1", "t": ""}, {"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "https://ex.org/g0", "t": ""}]], "fields": [{"dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "e:T138/p2", "t": ""}, {"k": "var", "v": "value", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T125"}, "input": [{"k": "var", "v": "value", "t": ""}, {"k": "var", "v": "value", "t": ""}], "graph": {"k": "var", "v": "self", "t": ""}}, "name": "zz0", "required": true}, {"intro": ["self"], "dataset": [[{"k": "var", "v": "value", "t": ""}, {"k": "iri", "v": "https://ex.org/T138/p3", "t": ""}, {"k": "var", "v": "self", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T125"}, "input": [{"k": "var", "v": "self", "t": ""}, {"k": "var", "v": "self", "t": ""}], "graph": {"k": "var", "v": "value", "t": ""}}, "name": "bar", "required": true}], "t": "record", "id": "urn:t:T138"}"##),
	("T139", r##"{"prefixes": [["e", "https://ex.org/"]], "base": "https://ex.org/doc", "input": ["x", "y"], "intro": ["i"], "dataset": [[{"k": "var", "v": "x", "t": ""}, {"k": "iri", "v": "e:T139/p1", "t": ""}, {"k": "var", "v": "i", "t": ""}, {"k": "iri", "v": "g1", "t": ""}]], "variants": [{"value": {"layout": {"k": "ref", "v": "urn:t:T126"}, "input": [{"k": "var", "v": "y", "t": ""}], "graph": {"k": "var", "v": "x", "t": ""}}, "name": "Bar"}, {"intro": ["v", "w"], "dataset": [[{"k": "var", "v": "y", "t": ""}, {"k": "iri", "v": "T139/p4", "t": ""}, {"k": "var", "v": "v", "t": ""}], [{"k": "var", "v": "w", "t": ""}, {"k": "iri", "v": "T139/p5", "t": ""}, {"k": "iri", "v": "e:c1", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T126"}, "input": [{"k": "var", "v": "v", "t": ""}], "graph": {"k": "var", "v": "v", "t": ""}}, "name": "Baz"}, {"intro": ["v", "w"], "dataset": [[{"k": "var", "v": "y", "t": ""}, {"k": "iri", "v": "https://ex.org/T139/p2", "t": ""}, {"k": "var", "v": "v", "t": ""}], [{"k": "var", "v": "v", "t": ""}, {"k": "iri", "v": "e:T139/p3", "t": ""}, {"k": "var", "v": "w", "t": ""}], [{"k": "var", "v": "x", "t": ""}, {"k": "iri", "v": "e:T139/is", "t": ""}, {"k": "iri", "v": "https://ex.org/c1", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T126"}, "input": [{"k": "var", "v": "v", "t": ""}], "graph": {"k": "var", "v": "v", "t": ""}}, "name": "Foo"}, {"intro": ["v", "w"], "dataset": [[{"k": "var", "v": "v", "t": ""}, {"k": "iri", "v": "p1", "t": ""}, {"k": "var", "v": "y", "t": ""}, {"k": "var", "v": "y", "t": ""}], [{"k": "var", "v": "x", "t": ""}, {"k": "iri", "v": "e:T139/p7", "t": ""}, {"k": "var", "v": "w", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T126"}, "input": [{"k": "var", "v": "v", "t": ""}], "graph": {"k": "var", "v": "i", "t": ""}}, "name": "Qux"}], "t": "sum", "id": "urn:t:T139"}"##),
	("T140", r##"{"prefixes": [["ex", "https://ex.org/"]], "dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "ex:T140/is", "t": ""}, {"k": "iri", "v": "https://ex.org/c1", "t": ""}, {"k": "iri", "v": "https://ex.org/g0", "t": ""}]], "item": {"property": {"k": "iri", "v": "ex:T140/p1", "t": ""}, "value": {"layout": {"k": "ref", "v": "urn:t:T112"}, "graph": {"k": "var", "v": "self", "t": ""}}}, "t": "set", "id": "urn:t:T140"}"##),
	("T141", r##"{"prefixes": [["e", "https://ex.org/"]], "node": {"dataset": [[{"k": "var", "v": "head", "t": ""}, {"k": "iri", "v": "e:T141/p1", "t": ""}, {"k": "var", "v": "rest", "t": ""}], [{"k": "var", "v": "head", "t": ""}, {"k": "iri", "v": "https://ex.org/p0", "t": ""}, {"k": "var", "v": "value", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T130"}, "input": [{"k": "var", "v": "value", "t": ""}], "graph": {"k": "var", "v": "self", "t": ""}}}, "t": "list", "id": "urn:t:T141"}"##),
	("T142", r##"{"prefixes": [["e", "https://ex.org/"]], "input": ["x", "y"], "items": [{"intro": [], "value": {"layout": {"k": "ref", "v": "urn:t:T131"}, "input": [{"k": "var", "v": "x", "t": ""}], "graph": {"k": "var", "v": "x", "t": ""}}}], "t": "tuple", "id": "urn:t:T142"}"##),
	("T143", r##"{"base": "https://ex.org/", "fields": [{"intro": ["value", "w"], "dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "https://ex.org/T143/p1", "t": ""}, {"k": "var", "v": "value", "t": ""}, {"k": "var", "v": "self", "t": ""}], [{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "p2", "t": ""}, {"k": "var", "v": "w", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T119"}, "input": [{"k": "var", "v": "value", "t": ""}], "graph": {"k": "iri", "v": "https://ex.org/g1", "t": ""}}, "name": "foo", "required": true}, {"intro": ["v"], "dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "https://ex.org/T143/p3", "t": ""}, {"k": "var", "v": "v", "t": ""}, {"k": "iri", "v": "https://ex.org/g0", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T119"}, "input": [{"k": "var", "v": "v", "t": ""}], "graph": {"k": "iri", "v": "g1", "t": ""}}, "name": "bar", "required": true}], "t": "record", "id": "urn:t:T143"}"##),
	("T144", r##"{"prefixes": [["e", "https://ex.org/"]], "base": "https://ex.org/doc", "input": ["other", "self"], "variants": [{"value": {"layout": {"k": "ref", "v": "urn:t:T130"}, "graph": {"k": "iri", "v": "e:g1", "t": ""}}, "name": "Foo"}], "t": "sum", "id": "urn:t:T144"}"##),
	("T145", r##"{"prefixes": [["ex", "https://ex.org/"]], "input": ["self", "other"], "intro": ["value"], "dataset": [[{"k": "var", "v": "other", "t": ""}, {"k": "iri", "v": "ex:T145/p1", "t": ""}, {"k": "var", "v": "value", "t": ""}], [{"k": "var", "v": "value", "t": ""}, {"k": "iri", "v": "https://ex.org/T145/is", "t": ""}, {"k": "iri", "v": "ex:c1", "t": ""}]], "item": {"intro": ["v", "w"], "property": {"k": "iri", "v": "ex:T145/p2", "t": ""}, "dataset": [[{"k": "var", "v": "v", "t": ""}, {"k": "iri", "v": "ex:T145/p3", "t": ""}, {"k": "var", "v": "w", "t": ""}], [{"k": "var", "v": "v", "t": ""}, {"k": "iri", "v": "ex:T145/is", "t": ""}, {"k": "iri", "v": "https://ex.org/c1", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T123"}, "input": [{"k": "var", "v": "v", "t": ""}], "graph": {"k": "iri", "v": "ex:g1", "t": ""}}}, "t": "set", "id": "urn:t:T145"}"##),
	("T146", r##"{"prefixes": [["e", "https://ex.org/"]], "base": "https://ex.org/", "dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "e:T146/is", "t": ""}, {"k": "iri", "v": "c1", "t": ""}]], "node": {"intro": ["v", "w"], "dataset": [[{"k": "var", "v": "head", "t": ""}, {"k": "iri", "v": "T146/p1", "t": ""}, {"k": "var", "v": "rest", "t": ""}], [{"k": "var", "v": "head", "t": ""}, {"k": "iri", "v": "e:T146/p2", "t": ""}, {"k": "var", "v": "v", "t": ""}], [{"k": "var", "v": "head", "t": ""}, {"k": "iri", "v": "T146/p3", "t": ""}, {"k": "var", "v": "w", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T108"}, "input": [{"k": "var", "v": "v", "t": ""}, {"k": "var", "v": "self", "t": ""}], "graph": {"k": "iri", "v": "https://ex.org/g1", "t": ""}}}, "t": "list", "id": "urn:t:T146"}"##),
	("T147", r##"{"items": [{"property": {"k": "iri", "v": "https://ex.org/T147/p1", "t": ""}, "value": {"layout": {"k": "ref", "v": "urn:t:T127"}, "graph": {"k": "iri", "v": "https://ex.org/g0", "t": ""}}}, {"intro": ["value"], "dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "https://ex.org/p2", "t": ""}, {"k": "var", "v": "value", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T127"}, "input": [{"k": "var", "v": "value", "t": ""}], "graph": {"k": "iri", "v": "https://ex.org/g0", "t": ""}}}, {"property": {"k": "iri", "v": "https://ex.org/T147/p3", "t": ""}, "value": {"layout": {"k": "ref", "v": "urn:t:T127"}, "graph": {"k": "iri", "v": "https://ex.org/g0", "t": ""}}}], "t": "tuple", "id": "urn:t:T147"}"##),
];

pub const ENTRIES: &[Entry] = &[
	Entry { name: "T0", nin: 1, layouts: &["T0"], consts: &[], iris: &[], arb: <T0>::arb, ser: ser::<T0, 1>, de: de::<T0, 1> },
	Entry { name: "T1", nin: 0, layouts: &["T1"], consts: &[], iris: &[], arb: <T1>::arb, ser: ser::<T1, 0>, de: de::<T1, 0> },
	Entry { name: "T2", nin: 1, layouts: &["T2"], consts: &[], iris: &[], arb: <T2>::arb, ser: ser::<T2, 1>, de: de::<T2, 1> },
	Entry { name: "T3", nin: 1, layouts: &["T3"], consts: &["https://ex.org/g1"], iris: &["https://ex.org/g1", "https://ex.org/p2"], arb: <T3>::arb, ser: ser::<T3, 1>, de: de::<T3, 1> },
	Entry { name: "T4", nin: 1, layouts: &["T4"], consts: &[], iris: &["https://ex.org/T4/p1", "https://ex.org/T4/p2"], arb: <T4>::arb, ser: ser::<T4, 1>, de: de::<T4, 1> },
	Entry { name: "T5", nin: 1, layouts: &["T5"], consts: &[], iris: &["https://ex.org/T5/is", "https://ex.org/c0"], arb: <T5>::arb, ser: ser::<T5, 1>, de: de::<T5, 1> },
	Entry { name: "T6", nin: 1, layouts: &["T6"], consts: &[], iris: &[], arb: <T6>::arb, ser: ser::<T6, 1>, de: de::<T6, 1> },
	Entry { name: "T7", nin: 1, layouts: &["T7"], consts: &[], iris: &[], arb: <T7>::arb, ser: ser::<T7, 1>, de: de::<T7, 1> },
	Entry { name: "T8", nin: 1, layouts: &["T8"], consts: &[], iris: &["https://ex.org/T8/p1"], arb: <T8>::arb, ser: ser::<T8, 1>, de: de::<T8, 1> },
	Entry { name: "T9", nin: 2, layouts: &["T9"], consts: &["https://ex.org/g0"], iris: &["https://ex.org/T9/is", "https://ex.org/T9/p1", "https://ex.org/T9/p2", "https://ex.org/c2", "https://ex.org/g0"], arb: <T9>::arb, ser: ser::<T9, 2>, de: de::<T9, 2> },
	Entry { name: "T10", nin: 1, layouts: &["T10"], consts: &[], iris: &["https://ex.org/p1"], arb: <T10>::arb, ser: ser::<T10, 1>, de: de::<T10, 1> },
	Entry { name: "T11", nin: 1, layouts: &["T11"], consts: &["https://ex.org/g0"], iris: &["https://ex.org/T11/p1", "https://ex.org/T11/p2", "https://ex.org/g0"], arb: <T11>::arb, ser: ser::<T11, 1>, de: de::<T11, 1> },
	Entry { name: "T12", nin: 1, layouts: &["T12"], consts: &[], iris: &[], arb: <T12>::arb, ser: ser::<T12, 1>, de: de::<T12, 1> },
	Entry { name: "T13", nin: 1, layouts: &["T13"], consts: &[], iris: &[], arb: <T13>::arb, ser: ser::<T13, 1>, de: de::<T13, 1> },
	Entry { name: "T14", nin: 1, layouts: &["T14"], consts: &[], iris: &[], arb: <T14>::arb, ser: ser::<T14, 1>, de: de::<T14, 1> },
	Entry { name: "T15", nin: 2, layouts: &["T15"], consts: &[], iris: &["https://ex.org/T15/is", "https://ex.org/c2"], arb: <T15>::arb, ser: ser::<T15, 2>, de: de::<T15, 2> },
	Entry { name: "T16", nin: 2, layouts: &["T16"], consts: &[], iris: &[], arb: <T16>::arb, ser: ser::<T16, 2>, de: de::<T16, 2> },
	Entry { name: "T17", nin: 1, layouts: &["T17"], consts: &[], iris: &[], arb: <T17>::arb, ser: ser::<T17, 1>, de: de::<T17, 1> },
	Entry { name: "T18", nin: 1, layouts: &["T18"], consts: &[], iris: &[], arb: <T18>::arb, ser: ser::<T18, 1>, de: de::<T18, 1> },
	Entry { name: "T19", nin: 2, layouts: &["T19"], consts: &[], iris: &["https://ex.org/T19/is", "https://ex.org/c0"], arb: <T19>::arb, ser: ser::<T19, 2>, de: de::<T19, 2> },
	Entry { name: "T20", nin: 1, layouts: &["T20", "T13", "i64", "String", "T8"], consts: &["https://ex.org/g0", "https://ex.org/g1"], iris: &["https://ex.org/T20/p1", "https://ex.org/T20/p2", "https://ex.org/T20/p3", "https://ex.org/T20/p4", "https://ex.org/T20/p5", "https://ex.org/T8/p1", "https://ex.org/g0", "https://ex.org/g1"], arb: <T20>::arb, ser: ser::<T20, 1>, de: de::<T20, 1> },
	Entry { name: "T21", nin: 1, layouts: &["T21", "String"], consts: &[], iris: &["https://ex.org/T21/is", "https://ex.org/c0"], arb: <T21>::arb, ser: ser::<T21, 1>, de: de::<T21, 1> },
	Entry { name: "T22", nin: 1, layouts: &["T22", "u16"], consts: &["https://ex.org/c1"], iris: &["https://ex.org/T22/p1", "https://ex.org/c1"], arb: <T22>::arb, ser: ser::<T22, 1>, de: de::<T22, 1> },
	Entry { name: "T23", nin: 1, layouts: &["T23", "i64"], consts: &["https://ex.org/g1"], iris: &["https://ex.org/T23/p1", "https://ex.org/T23/p2", "https://ex.org/T23/p3", "https://ex.org/T23/p4", "https://ex.org/g1"], arb: <T23>::arb, ser: ser::<T23, 1>, de: de::<T23, 1> },
	Entry { name: "T24", nin: 1, layouts: &["T24", "Unit"], consts: &["https://ex.org/g0"], iris: &["https://ex.org/T24/p1", "https://ex.org/T24/p2", "https://ex.org/g0"], arb: <T24>::arb, ser: ser::<T24, 1>, de: de::<T24, 1> },
	Entry { name: "T25", nin: 1, layouts: &["T25", "T8"], consts: &[], iris: &["https://ex.org/T8/p1", "https://ex.org/p1"], arb: <T25>::arb, ser: ser::<T25, 1>, de: de::<T25, 1> },
	Entry { name: "T26", nin: 2, layouts: &["T26", "T22", "u16"], consts: &["https://ex.org/c1", "https://ex.org/g1"], iris: &["https://ex.org/T22/p1", "https://ex.org/T26/p1", "https://ex.org/c1", "https://ex.org/c2", "https://ex.org/g1"], arb: <T26>::arb, ser: ser::<T26, 2>, de: de::<T26, 2> },
	Entry { name: "T27", nin: 2, layouts: &["T27", "T21", "String"], consts: &["https://ex.org/g1"], iris: &["https://ex.org/T21/is", "https://ex.org/T27/p1", "https://ex.org/c0", "https://ex.org/g1"], arb: <T27>::arb, ser: ser::<T27, 2>, de: de::<T27, 2> },
	Entry { name: "T28", nin: 1, layouts: &["T28", "Unit"], consts: &[], iris: &["https://ex.org/T28/p1"], arb: <T28>::arb, ser: ser::<T28, 1>, de: de::<T28, 1> },
	Entry { name: "T29", nin: 2, layouts: &["T29", "u16", "T24", "i64", "Unit"], consts: &["https://ex.org/c0", "https://ex.org/g0"], iris: &["https://ex.org/T24/p1", "https://ex.org/T24/p2", "https://ex.org/T29/p1", "https://ex.org/T29/p2", "https://ex.org/T29/p3", "https://ex.org/T29/p4", "https://ex.org/c0", "https://ex.org/g0"], arb: <T29>::arb, ser: ser::<T29, 2>, de: de::<T29, 2> },
	Entry { name: "T30", nin: 1, layouts: &["T30", "T19", "T8", "i32", "Unit"], consts: &["https://ex.org/c2"], iris: &["https://ex.org/T19/is", "https://ex.org/T30/is", "https://ex.org/T30/p1", "https://ex.org/T8/p1", "https://ex.org/c0", "https://ex.org/c2"], arb: <T30>::arb, ser: ser::<T30, 1>, de: de::<T30, 1> },
	Entry { name: "T31", nin: 1, layouts: &["T31", "T25", "String", "T8"], consts: &["https://ex.org/c0"], iris: &["https://ex.org/T31/p1", "https://ex.org/T31/p2", "https://ex.org/T31/p3", "https://ex.org/T31/p4", "https://ex.org/T31/p5", "https://ex.org/T8/p1", "https://ex.org/c0", "https://ex.org/p1"], arb: <T31>::arb, ser: ser::<T31, 1>, de: de::<T31, 1> },
	Entry { name: "T32", nin: 1, layouts: &["T32", "T11"], consts: &["https://ex.org/c1", "https://ex.org/g0"], iris: &["https://ex.org/T11/p1", "https://ex.org/T11/p2", "https://ex.org/T32/p1", "https://ex.org/T32/p2", "https://ex.org/c1", "https://ex.org/g0"], arb: <T32>::arb, ser: ser::<T32, 1>, de: de::<T32, 1> },
	Entry { name: "T33", nin: 1, layouts: &["T33", "T30", "T19", "T8", "i32", "Unit"], consts: &["https://ex.org/c2"], iris: &["https://ex.org/T19/is", "https://ex.org/T30/is", "https://ex.org/T30/p1", "https://ex.org/T33/is", "https://ex.org/T33/p1", "https://ex.org/T33/p3", "https://ex.org/T8/p1", "https://ex.org/c0", "https://ex.org/c1", "https://ex.org/c2", "https://ex.org/g1", "https://ex.org/p2"], arb: <T33>::arb, ser: ser::<T33, 1>, de: de::<T33, 1> },
	Entry { name: "T34", nin: 2, layouts: &["T34", "T30", "T19", "T8", "i32", "Unit"], consts: &["https://ex.org/c2", "https://ex.org/nil"], iris: &["https://ex.org/T19/is", "https://ex.org/T30/is", "https://ex.org/T30/p1", "https://ex.org/T34/p1", "https://ex.org/T34/p2", "https://ex.org/T34/p3", "https://ex.org/T34/p4", "https://ex.org/T8/p1", "https://ex.org/c0", "https://ex.org/c2", "https://ex.org/nil"], arb: <T34>::arb, ser: ser::<T34, 2>, de: de::<T34, 2> },
	Entry { name: "T35", nin: 1, layouts: &["T35", "T31", "T25", "String", "T8"], consts: &["https://ex.org/c0", "https://ex.org/g1"], iris: &["https://ex.org/T31/p1", "https://ex.org/T31/p2", "https://ex.org/T31/p3", "https://ex.org/T31/p4", "https://ex.org/T31/p5", "https://ex.org/T35/p1", "https://ex.org/T35/p2", "https://ex.org/T8/p1", "https://ex.org/c0", "https://ex.org/g1", "https://ex.org/p1"], arb: <T35>::arb, ser: ser::<T35, 1>, de: de::<T35, 1> },
	Entry { name: "T36", nin: 1, layouts: &["T36", "Unit"], consts: &[], iris: &["https://ex.org/T36/p1"], arb: <T36>::arb, ser: ser::<T36, 1>, de: de::<T36, 1> },
	Entry { name: "T37", nin: 2, layouts: &["T37", "T36", "Unit"], consts: &["https://ex.org/c0"], iris: &["https://ex.org/T36/p1", "https://ex.org/T37/p1", "https://ex.org/T37/p2", "https://ex.org/c0"], arb: <T37>::arb, ser: ser::<T37, 2>, de: de::<T37, 2> },
	Entry { name: "T38", nin: 1, layouts: &["T38", "T27", "T9", "T21", "String"], consts: &["https://ex.org/g0", "https://ex.org/g1"], iris: &["https://ex.org/T21/is", "https://ex.org/T27/p1", "https://ex.org/T38/p1", "https://ex.org/T38/p2", "https://ex.org/T9/is", "https://ex.org/T9/p1", "https://ex.org/T9/p2", "https://ex.org/c0", "https://ex.org/c2", "https://ex.org/g0", "https://ex.org/g1"], arb: <T38>::arb, ser: ser::<T38, 1>, de: de::<T38, 1> },
	Entry { name: "T39", nin: 1, layouts: &["T39", "i32"], consts: &["https://ex.org/c1"], iris: &["https://ex.org/T39/p1", "https://ex.org/T39/p2", "https://ex.org/T39/p3", "https://ex.org/c1"], arb: <T39>::arb, ser: ser::<T39, 1>, de: de::<T39, 1> },
	Entry { name: "T40", nin: 1, layouts: &["T40", "T10"], consts: &[], iris: &["https://ex.org/T40/is", "https://ex.org/T40/p2", "https://ex.org/T40/p3", "https://ex.org/c1", "https://ex.org/p1", "https://ex.org/p2"], arb: <T40>::arb, ser: ser::<T40, 1>, de: de::<T40, 1> },
	Entry { name: "T41", nin: 1, layouts: &["T41", "i8"], consts: &[], iris: &["https://ex.org/T41/is", "https://ex.org/T41/p1", "https://ex.org/c1"], arb: <T41>::arb, ser: ser::<T41, 1>, de: de::<T41, 1> },
	Entry { name: "T42", nin: 2, layouts: &["T42", "i8", "String", "T26", "T32", "T22", "T11", "u16"], consts: &["https://ex.org/c0", "https://ex.org/c1", "https://ex.org/g0", "https://ex.org/g1"], iris: &["https://ex.org/T11/p1", "https://ex.org/T11/p2", "https://ex.org/T22/p1", "https://ex.org/T26/p1", "https://ex.org/T32/p1", "https://ex.org/T32/p2", "https://ex.org/T42/p1", "https://ex.org/T42/p2", "https://ex.org/T42/p3", "https://ex.org/T42/p4", "https://ex.org/T42/p5", "https://ex.org/T42/p6", "https://ex.org/c0", "https://ex.org/c1", "https://ex.org/c2", "https://ex.org/g0", "https://ex.org/g1"], arb: <T42>::arb, ser: ser::<T42, 2>, de: de::<T42, 2> },
	Entry { name: "T43", nin: 1, layouts: &["T43", "T36", "i64", "bool", "Unit"], consts: &["https://ex.org/c1"], iris: &["https://ex.org/T36/p1", "https://ex.org/T43/is", "https://ex.org/T43/p1", "https://ex.org/T43/p2", "https://ex.org/T43/p3", "https://ex.org/T43/p4", "https://ex.org/T43/p5", "https://ex.org/c1", "https://ex.org/c2", "https://ex.org/g0"], arb: <T43>::arb, ser: ser::<T43, 1>, de: de::<T43, 1> },
	Entry { name: "T44", nin: 1, layouts: &["T44", "Id", "Unit"], consts: &["https://ex.org/g0"], iris: &["https://ex.org/T44/is", "https://ex.org/T44/p1", "https://ex.org/T44/p2", "https://ex.org/c2", "https://ex.org/g0"], arb: <T44>::arb, ser: ser::<T44, 1>, de: de::<T44, 1> },
	Entry { name: "T45", nin: 1, layouts: &["T45", "Id"], consts: &["https://ex.org/g1"], iris: &["https://ex.org/T45/p1", "https://ex.org/T45/p2", "https://ex.org/T45/p3", "https://ex.org/g1"], arb: <T45>::arb, ser: ser::<T45, 1>, de: de::<T45, 1> },
	Entry { name: "T46", nin: 1, layouts: &["T46", "T39", "i32"], consts: &["https://ex.org/c1", "https://ex.org/nil"], iris: &["https://ex.org/T39/p1", "https://ex.org/T39/p2", "https://ex.org/T39/p3", "https://ex.org/T46/p1", "https://ex.org/T46/p2", "https://ex.org/T46/p3", "https://ex.org/c1", "https://ex.org/nil"], arb: <T46>::arb, ser: ser::<T46, 1>, de: de::<T46, 1> },
	Entry { name: "T47", nin: 2, layouts: &["T47", "T37", "T46", "T36", "T39", "Unit", "i32"], consts: &["https://ex.org/c0", "https://ex.org/c1", "https://ex.org/nil"], iris: &["https://ex.org/T36/p1", "https://ex.org/T37/p1", "https://ex.org/T37/p2", "https://ex.org/T39/p1", "https://ex.org/T39/p2", "https://ex.org/T39/p3", "https://ex.org/T46/p1", "https://ex.org/T46/p2", "https://ex.org/T46/p3", "https://ex.org/T47/is", "https://ex.org/T47/p2", "https://ex.org/c0", "https://ex.org/c1", "https://ex.org/nil", "https://ex.org/p1"], arb: <T47>::arb, ser: ser::<T47, 2>, de: de::<T47, 2> },
	Entry { name: "T48", nin: 1, layouts: &["T48", "T44", "T34", "i64", "Id", "Unit", "T30", "T19", "T8", "i32"], consts: &["https://ex.org/c2", "https://ex.org/g0", "https://ex.org/nil"], iris: &["https://ex.org/T19/is", "https://ex.org/T30/is", "https://ex.org/T30/p1", "https://ex.org/T34/p1", "https://ex.org/T34/p2", "https://ex.org/T34/p3", "https://ex.org/T34/p4", "https://ex.org/T44/is", "https://ex.org/T44/p1", "https://ex.org/T44/p2", "https://ex.org/T48/p1", "https://ex.org/T48/p2", "https://ex.org/T48/p3", "https://ex.org/T48/p4", "https://ex.org/T8/p1", "https://ex.org/c0", "https://ex.org/c2", "https://ex.org/g0", "https://ex.org/nil"], arb: <T48>::arb, ser: ser::<T48, 1>, de: de::<T48, 1> },
	Entry { name: "T49", nin: 2, layouts: &["T49", "T44", "Id", "Unit"], consts: &["https://ex.org/g0"], iris: &["https://ex.org/T44/is", "https://ex.org/T44/p1", "https://ex.org/T44/p2", "https://ex.org/T49/p1", "https://ex.org/T49/p2", "https://ex.org/c2", "https://ex.org/g0"], arb: <T49>::arb, ser: ser::<T49, 2>, de: de::<T49, 2> },
	Entry { name: "T50", nin: 1, layouts: &["T50", "T33", "T30", "T19", "T8", "i32", "Unit"], consts: &["https://ex.org/c2"], iris: &["https://ex.org/T19/is", "https://ex.org/T30/is", "https://ex.org/T30/p1", "https://ex.org/T33/is", "https://ex.org/T33/p1", "https://ex.org/T33/p3", "https://ex.org/T50/is", "https://ex.org/T50/p2", "https://ex.org/T50/p3", "https://ex.org/T8/p1", "https://ex.org/c0", "https://ex.org/c1", "https://ex.org/c2", "https://ex.org/g1", "https://ex.org/p2"], arb: <T50>::arb, ser: ser::<T50, 1>, de: de::<T50, 1> },
	Entry { name: "T51", nin: 1, layouts: &["T51", "i8"], consts: &[], iris: &[], arb: <T51>::arb, ser: ser::<T51, 1>, de: de::<T51, 1> },
	Entry { name: "T52", nin: 1, layouts: &["T52", "Unit"], consts: &[], iris: &["https://ex.org/T52/is", "https://ex.org/T52/p1", "https://ex.org/T52/p2", "https://ex.org/c0"], arb: <T52>::arb, ser: ser::<T52, 1>, de: de::<T52, 1> },
	Entry { name: "T53", nin: 2, layouts: &["T53", "i8", "T34", "Unit", "T30", "T19", "T8", "i32"], consts: &["https://ex.org/c2", "https://ex.org/nil"], iris: &["https://ex.org/T19/is", "https://ex.org/T30/is", "https://ex.org/T30/p1", "https://ex.org/T34/p1", "https://ex.org/T34/p2", "https://ex.org/T34/p3", "https://ex.org/T34/p4", "https://ex.org/T53/is", "https://ex.org/T53/p1", "https://ex.org/T53/p2", "https://ex.org/T53/p3", "https://ex.org/T53/p4", "https://ex.org/T53/p5", "https://ex.org/T8/p1", "https://ex.org/c0", "https://ex.org/c2", "https://ex.org/g1", "https://ex.org/nil"], arb: <T53>::arb, ser: ser::<T53, 2>, de: de::<T53, 2> },
	Entry { name: "T54", nin: 1, layouts: &["T54", "T9", "i32"], consts: &["https://ex.org/g0"], iris: &["https://ex.org/T54/is", "https://ex.org/T54/p1", "https://ex.org/T54/p4", "https://ex.org/T9/is", "https://ex.org/T9/p1", "https://ex.org/T9/p2", "https://ex.org/c0", "https://ex.org/c2", "https://ex.org/g0", "https://ex.org/p0", "https://ex.org/p2"], arb: <T54>::arb, ser: ser::<T54, 1>, de: de::<T54, 1> },
	Entry { name: "T55", nin: 1, layouts: &["T55", "Id"], consts: &[], iris: &["https://ex.org/T55/p1"], arb: <T55>::arb, ser: ser::<T55, 1>, de: de::<T55, 1> },
	Entry { name: "T56", nin: 1, layouts: &["T56", "u16"], consts: &[], iris: &[], arb: <T56>::arb, ser: ser::<T56, 1>, de: de::<T56, 1> },
	Entry { name: "T57", nin: 1, layouts: &["T57", "Unit", "T39", "i32"], consts: &["https://ex.org/c1", "https://ex.org/g0"], iris: &["https://ex.org/T39/p1", "https://ex.org/T39/p2", "https://ex.org/T39/p3", "https://ex.org/T57/p2", "https://ex.org/T57/p3", "https://ex.org/c1", "https://ex.org/g0", "https://ex.org/p1"], arb: <T57>::arb, ser: ser::<T57, 1>, de: de::<T57, 1> },
	Entry { name: "T58", nin: 2, layouts: &["T58", "Id", "T39", "i32"], consts: &["https://ex.org/c1"], iris: &["https://ex.org/T39/p1", "https://ex.org/T39/p2", "https://ex.org/T39/p3", "https://ex.org/T58/p1", "https://ex.org/T58/p2", "https://ex.org/c1"], arb: <T58>::arb, ser: ser::<T58, 2>, de: de::<T58, 2> },
	Entry { name: "T59", nin: 1, layouts: &["T59", "i64", "T58", "Id", "T39", "i32"], consts: &["https://ex.org/c1", "https://ex.org/g1"], iris: &["https://ex.org/T39/p1", "https://ex.org/T39/p2", "https://ex.org/T39/p3", "https://ex.org/T58/p1", "https://ex.org/T58/p2", "https://ex.org/T59/p1", "https://ex.org/T59/p2", "https://ex.org/T59/p3", "https://ex.org/c1", "https://ex.org/g1"], arb: <T59>::arb, ser: ser::<T59, 1>, de: de::<T59, 1> },
	Entry { name: "T60", nin: 1, layouts: &["T60", "T43", "T36", "i64", "bool", "Unit"], consts: &["https://ex.org/c1", "https://ex.org/g1"], iris: &["https://ex.org/T36/p1", "https://ex.org/T43/is", "https://ex.org/T43/p1", "https://ex.org/T43/p2", "https://ex.org/T43/p3", "https://ex.org/T43/p4", "https://ex.org/T43/p5", "https://ex.org/T60/p1", "https://ex.org/c1", "https://ex.org/c2", "https://ex.org/g0", "https://ex.org/g1"], arb: <T60>::arb, ser: ser::<T60, 1>, de: de::<T60, 1> },
	Entry { name: "T61", nin: 1, layouts: &["T61", "bool"], consts: &["https://ex.org/g0"], iris: &["https://ex.org/T61/p1", "https://ex.org/T61/p2", "https://ex.org/T61/p3", "https://ex.org/T61/p4", "https://ex.org/g0"], arb: <T61>::arb, ser: ser::<T61, 1>, de: de::<T61, 1> },
	Entry { name: "T62", nin: 1, layouts: &["T62", "String", "bool"], consts: &[], iris: &["https://ex.org/T62/p1", "https://ex.org/T62/p2", "https://ex.org/c2"], arb: <T62>::arb, ser: ser::<T62, 1>, de: de::<T62, 1> },
	Entry { name: "T63", nin: 2, layouts: &["T63", "i32", "T45", "Id"], consts: &["https://ex.org/g1"], iris: &["https://ex.org/T45/p1", "https://ex.org/T45/p2", "https://ex.org/T45/p3", "https://ex.org/T63/p1", "https://ex.org/T63/p2", "https://ex.org/T63/p3", "https://ex.org/c1", "https://ex.org/g1"], arb: <T63>::arb, ser: ser::<T63, 2>, de: de::<T63, 2> },
	Entry { name: "T64", nin: 2, layouts: &["T64", "T55", "bool", "Id"], consts: &["https://ex.org/g1"], iris: &["https://ex.org/T55/p1", "https://ex.org/T64/is", "https://ex.org/T64/p1", "https://ex.org/T64/p2", "https://ex.org/c0", "https://ex.org/g1"], arb: <T64>::arb, ser: ser::<T64, 2>, de: de::<T64, 2> },
	Entry { name: "T65", nin: 2, layouts: &["T65", "Id", "Unit"], consts: &[], iris: &["https://ex.org/T65/p1", "https://ex.org/T65/p2", "https://ex.org/T65/p3", "https://ex.org/c1"], arb: <T65>::arb, ser: ser::<T65, 2>, de: de::<T65, 2> },
	Entry { name: "T66", nin: 1, layouts: &["T66", "T61", "bool"], consts: &["https://ex.org/g0"], iris: &["https://ex.org/T61/p1", "https://ex.org/T61/p2", "https://ex.org/T61/p3", "https://ex.org/T61/p4", "https://ex.org/g0", "https://ex.org/p0"], arb: <T66>::arb, ser: ser::<T66, 1>, de: de::<T66, 1> },
	Entry { name: "T67", nin: 2, layouts: &["T67", "Unit"], consts: &[], iris: &["https://ex.org/T67/p1", "https://ex.org/T67/p2", "https://ex.org/T67/p3"], arb: <T67>::arb, ser: ser::<T67, 2>, de: de::<T67, 2> },
	Entry { name: "T68", nin: 1, layouts: &["T68", "T29", "u16", "T24", "i64", "Unit"], consts: &["https://ex.org/c0", "https://ex.org/g0"], iris: &["https://ex.org/T24/p1", "https://ex.org/T24/p2", "https://ex.org/T29/p1", "https://ex.org/T29/p2", "https://ex.org/T29/p3", "https://ex.org/T29/p4", "https://ex.org/T68/is", "https://ex.org/T68/p1", "https://ex.org/T68/p2", "https://ex.org/T68/p3", "https://ex.org/c0", "https://ex.org/g0"], arb: <T68>::arb, ser: ser::<T68, 1>, de: de::<T68, 1> },
	Entry { name: "T69", nin: 2, layouts: &["T69", "T61", "bool"], consts: &["https://ex.org/c1", "https://ex.org/g0"], iris: &["https://ex.org/T61/p1", "https://ex.org/T61/p2", "https://ex.org/T61/p3", "https://ex.org/T61/p4", "https://ex.org/T69/p1", "https://ex.org/T69/p2", "https://ex.org/c1", "https://ex.org/g0"], arb: <T69>::arb, ser: ser::<T69, 2>, de: de::<T69, 2> },
	Entry { name: "T70", nin: 1, layouts: &["T70", "T64", "T67", "T55", "bool", "Unit", "Id"], consts: &["https://ex.org/c2", "https://ex.org/g1"], iris: &["https://ex.org/T55/p1", "https://ex.org/T64/is", "https://ex.org/T64/p1", "https://ex.org/T64/p2", "https://ex.org/T67/p1", "https://ex.org/T67/p2", "https://ex.org/T67/p3", "https://ex.org/T70/is", "https://ex.org/T70/p1", "https://ex.org/T70/p2", "https://ex.org/T70/p3", "https://ex.org/T70/p4", "https://ex.org/c0", "https://ex.org/c1", "https://ex.org/c2", "https://ex.org/g1"], arb: <T70>::arb, ser: ser::<T70, 1>, de: de::<T70, 1> },
	Entry { name: "T71", nin: 1, layouts: &["T71", "T12"], consts: &[], iris: &["https://ex.org/T71/p1", "https://ex.org/T71/p2"], arb: <T71>::arb, ser: ser::<T71, 1>, de: de::<T71, 1> },
	Entry { name: "T72", nin: 1, layouts: &["T72", "String"], consts: &[], iris: &[], arb: <T72>::arb, ser: ser::<T72, 1>, de: de::<T72, 1> },
	Entry { name: "T73", nin: 1, layouts: &["T73", "Id", "bool", "T66", "T61"], consts: &["https://ex.org/g0", "https://ex.org/g1"], iris: &["https://ex.org/T61/p1", "https://ex.org/T61/p2", "https://ex.org/T61/p3", "https://ex.org/T61/p4", "https://ex.org/T73/p1", "https://ex.org/T73/p2", "https://ex.org/T73/p3", "https://ex.org/T73/p4", "https://ex.org/g0", "https://ex.org/g1", "https://ex.org/p0"], arb: <T73>::arb, ser: ser::<T73, 1>, de: de::<T73, 1> },
	Entry { name: "T74", nin: 2, layouts: &["T74", "String"], consts: &[], iris: &["https://ex.org/T74/p1"], arb: <T74>::arb, ser: ser::<T74, 2>, de: de::<T74, 2> },
	Entry { name: "T75", nin: 1, layouts: &["T75", "String"], consts: &["https://ex.org/c0"], iris: &["https://ex.org/c0", "https://ex.org/p2"], arb: <T75>::arb, ser: ser::<T75, 1>, de: de::<T75, 1> },
	Entry { name: "T76", nin: 2, layouts: &["T76", "String"], consts: &["https://ex.org/g1"], iris: &["https://ex.org/T76/p1", "https://ex.org/T76/p2", "https://ex.org/g1"], arb: <T76>::arb, ser: ser::<T76, 2>, de: de::<T76, 2> },
	Entry { name: "T77", nin: 2, layouts: &["T77", "String"], consts: &[], iris: &["https://ex.org/T77/p1"], arb: <T77>::arb, ser: ser::<T77, 2>, de: de::<T77, 2> },
	Entry { name: "T78", nin: 1, layouts: &["T78", "T74", "String"], consts: &["https://ex.org/g1"], iris: &["https://ex.org/T74/p1", "https://ex.org/T78/p1", "https://ex.org/T78/p2", "https://ex.org/T78/p3", "https://ex.org/g1"], arb: <T78>::arb, ser: ser::<T78, 1>, de: de::<T78, 1> },
	Entry { name: "T79", nin: 1, layouts: &["T79", "T74", "String"], consts: &[], iris: &["https://ex.org/T74/p1", "https://ex.org/T79/p1"], arb: <T79>::arb, ser: ser::<T79, 1>, de: de::<T79, 1> },
	Entry { name: "T80", nin: 1, layouts: &["T80", "T74", "String"], consts: &[], iris: &["https://ex.org/T74/p1", "https://ex.org/T80/p2", "https://ex.org/p1", "https://ex.org/p2"], arb: <T80>::arb, ser: ser::<T80, 1>, de: de::<T80, 1> },
	Entry { name: "T81", nin: 1, layouts: &["T81", "T74", "String"], consts: &["https://ex.org/c1"], iris: &["https://ex.org/T74/p1", "https://ex.org/T81/p2", "https://ex.org/T81/p3", "https://ex.org/c1", "https://ex.org/p2"], arb: <T81>::arb, ser: ser::<T81, 1>, de: de::<T81, 1> },
	Entry { name: "T82", nin: 1, layouts: &["T82", "T74", "String"], consts: &[], iris: &["https://ex.org/T74/p1", "https://ex.org/T82/is", "https://ex.org/T82/p1", "https://ex.org/T82/p2", "https://ex.org/T82/p3", "https://ex.org/T82/p4", "https://ex.org/c2"], arb: <T82>::arb, ser: ser::<T82, 1>, de: de::<T82, 1> },
	Entry { name: "T83", nin: 1, layouts: &["T83", "T74", "String"], consts: &["https://ex.org/g0", "https://ex.org/g1"], iris: &["https://ex.org/T74/p1", "https://ex.org/T83/is", "https://ex.org/T83/p1", "https://ex.org/T83/p2", "https://ex.org/T83/p3", "https://ex.org/T83/p4", "https://ex.org/T83/p5", "https://ex.org/T83/p6", "https://ex.org/c1", "https://ex.org/g0", "https://ex.org/g1"], arb: <T83>::arb, ser: ser::<T83, 1>, de: de::<T83, 1> },
	Entry { name: "T84", nin: 2, layouts: &["T84", "T74", "String"], consts: &["https://ex.org/g0"], iris: &["https://ex.org/T74/p1", "https://ex.org/T84/p1", "https://ex.org/T84/p2", "https://ex.org/g0"], arb: <T84>::arb, ser: ser::<T84, 2>, de: de::<T84, 2> },
	Entry { name: "T85", nin: 2, layouts: &["T85", "T74", "String"], consts: &["https://ex.org/g1"], iris: &["https://ex.org/T74/p1", "https://ex.org/T85/is", "https://ex.org/T85/p1", "https://ex.org/T85/p2", "https://ex.org/c2", "https://ex.org/g0", "https://ex.org/g1"], arb: <T85>::arb, ser: ser::<T85, 2>, de: de::<T85, 2> },
	Entry { name: "T86", nin: 1, layouts: &["T86", "T74", "String"], consts: &["https://ex.org/g0"], iris: &["https://ex.org/T74/p1", "https://ex.org/T86/is", "https://ex.org/T86/p1", "https://ex.org/T86/p2", "https://ex.org/T86/p3", "https://ex.org/T86/p4", "https://ex.org/T86/p5", "https://ex.org/T86/p6", "https://ex.org/c2", "https://ex.org/g0"], arb: <T86>::arb, ser: ser::<T86, 1>, de: de::<T86, 1> },
	Entry { name: "T87", nin: 1, layouts: &["T87", "T74", "String"], consts: &["https://ex.org/c1"], iris: &["https://ex.org/T74/p1", "https://ex.org/T87/is", "https://ex.org/T87/p2", "https://ex.org/c1", "https://ex.org/c2", "https://ex.org/g0", "https://ex.org/p1"], arb: <T87>::arb, ser: ser::<T87, 1>, de: de::<T87, 1> },
	Entry { name: "T88", nin: 2, layouts: &["T88", "T74", "String"], consts: &["https://ex.org/g0"], iris: &["https://ex.org/T74/p1", "https://ex.org/T88/p1", "https://ex.org/T88/p2", "https://ex.org/T88/p3", "https://ex.org/T88/p4", "https://ex.org/T88/p5", "https://ex.org/T88/p6", "https://ex.org/T88/p7", "https://ex.org/c2", "https://ex.org/g0"], arb: <T88>::arb, ser: ser::<T88, 2>, de: de::<T88, 2> },
	Entry { name: "T89", nin: 2, layouts: &["T89", "T74", "String"], consts: &[], iris: &["https://ex.org/T74/p1", "https://ex.org/T89/p1"], arb: <T89>::arb, ser: ser::<T89, 2>, de: de::<T89, 2> },
	Entry { name: "T90", nin: 1, layouts: &["T90", "T74", "String"], consts: &["https://ex.org/nil"], iris: &["https://ex.org/T74/p1", "https://ex.org/T90/p1", "https://ex.org/T90/p2", "https://ex.org/nil"], arb: <T90>::arb, ser: ser::<T90, 1>, de: de::<T90, 1> },
	Entry { name: "T91", nin: 1, layouts: &["T91", "T74", "String"], consts: &[], iris: &["https://ex.org/T74/p1", "https://ex.org/T91/p2", "https://ex.org/p0"], arb: <T91>::arb, ser: ser::<T91, 1>, de: de::<T91, 1> },
	Entry { name: "T92", nin: 1, layouts: &["T92", "T74", "String"], consts: &["https://ex.org/c1"], iris: &["https://ex.org/T74/p1", "https://ex.org/T92/is", "https://ex.org/T92/p1", "https://ex.org/T92/p2", "https://ex.org/c0", "https://ex.org/c1", "https://ex.org/c2", "https://ex.org/g1"], arb: <T92>::arb, ser: ser::<T92, 1>, de: de::<T92, 1> },
	Entry { name: "T93", nin: 1, layouts: &["T93", "T74", "String"], consts: &["https://ex.org/g1"], iris: &["https://ex.org/T74/p1", "https://ex.org/g1", "https://ex.org/p0"], arb: <T93>::arb, ser: ser::<T93, 1>, de: de::<T93, 1> },
	Entry { name: "T94", nin: 1, layouts: &["T94", "T74", "String"], consts: &["https://ex.org/g0", "https://ex.org/g1"], iris: &["https://ex.org/T74/p1", "https://ex.org/T94/is", "https://ex.org/T94/p1", "https://ex.org/T94/p2", "https://ex.org/T94/p3", "https://ex.org/c1", "https://ex.org/g0", "https://ex.org/g1"], arb: <T94>::arb, ser: ser::<T94, 1>, de: de::<T94, 1> },
	Entry { name: "T95", nin: 1, layouts: &["T95", "T74", "String"], consts: &["https://ex.org/g0", "https://ex.org/g1"], iris: &["https://ex.org/T74/p1", "https://ex.org/T95/p2", "https://ex.org/g0", "https://ex.org/g1", "https://ex.org/p2"], arb: <T95>::arb, ser: ser::<T95, 1>, de: de::<T95, 1> },
	Entry { name: "T96", nin: 2, layouts: &["T96", "T74", "String"], consts: &["https://ex.org/g1"], iris: &["https://ex.org/T74/p1", "https://ex.org/T96/p1", "https://ex.org/T96/p2", "https://ex.org/g1"], arb: <T96>::arb, ser: ser::<T96, 2>, de: de::<T96, 2> },
	Entry { name: "T97", nin: 2, layouts: &["T97", "T74", "String"], consts: &["https://ex.org/g0"], iris: &["https://ex.org/T74/p1", "https://ex.org/T97/p1", "https://ex.org/T97/p2", "https://ex.org/T97/p3", "https://ex.org/T97/p4", "https://ex.org/g0"], arb: <T97>::arb, ser: ser::<T97, 2>, de: de::<T97, 2> },
	Entry { name: "T98", nin: 1, layouts: &["T98", "T74", "String"], consts: &[], iris: &["https://ex.org/T74/p1", "https://ex.org/T98/is", "https://ex.org/c1", "https://ex.org/g1", "https://ex.org/p1"], arb: <T98>::arb, ser: ser::<T98, 1>, de: de::<T98, 1> },
	Entry { name: "T99", nin: 1, layouts: &["T99", "T74", "String"], consts: &[], iris: &["https://ex.org/T74/p1", "https://ex.org/T99/p1", "https://ex.org/T99/p2", "https://ex.org/T99/p3"], arb: <T99>::arb, ser: ser::<T99, 1>, de: de::<T99, 1> },
	Entry { name: "T100", nin: 2, layouts: &["T100", "T74", "String"], consts: &["https://ex.org/c0"], iris: &["https://ex.org/T100/p1", "https://ex.org/T100/p2", "https://ex.org/T74/p1", "https://ex.org/c0"], arb: <T100>::arb, ser: ser::<T100, 2>, de: de::<T100, 2> },
	Entry { name: "T101", nin: 2, layouts: &["T101", "T74", "String"], consts: &["https://ex.org/c1"], iris: &["https://ex.org/T101/is", "https://ex.org/T101/p1", "https://ex.org/T101/p2", "https://ex.org/T101/p3", "https://ex.org/T74/p1", "https://ex.org/c1", "https://ex.org/c2"], arb: <T101>::arb, ser: ser::<T101, 2>, de: de::<T101, 2> },
	Entry { name: "T102", nin: 2, layouts: &["T102", "T74", "String"], consts: &["https://ex.org/g0"], iris: &["https://ex.org/T102/p1", "https://ex.org/T102/p2", "https://ex.org/T102/p3", "https://ex.org/T102/p4", "https://ex.org/T74/p1", "https://ex.org/g0"], arb: <T102>::arb, ser: ser::<T102, 2>, de: de::<T102, 2> },
	Entry { name: "T103", nin: 1, layouts: &["T103", "T75", "String"], consts: &["https://ex.org/c0"], iris: &["https://ex.org/c0", "https://ex.org/p2"], arb: <T103>::arb, ser: ser::<T103, 1>, de: de::<T103, 1> },
	Entry { name: "T104", nin: 1, layouts: &["T104", "T75", "String"], consts: &["https://ex.org/c0"], iris: &["https://ex.org/c0", "https://ex.org/p2"], arb: <T104>::arb, ser: ser::<T104, 1>, de: de::<T104, 1> },
	Entry { name: "T105", nin: 1, layouts: &["T105", "T75", "String"], consts: &["https://ex.org/c0", "https://ex.org/g1"], iris: &["https://ex.org/T105/p1", "https://ex.org/T105/p2", "https://ex.org/T105/p3", "https://ex.org/T105/p4", "https://ex.org/c0", "https://ex.org/g1", "https://ex.org/p2"], arb: <T105>::arb, ser: ser::<T105, 1>, de: de::<T105, 1> },
	Entry { name: "T106", nin: 1, layouts: &["T106", "T75", "String"], consts: &["https://ex.org/c0"], iris: &["https://ex.org/c0", "https://ex.org/p2"], arb: <T106>::arb, ser: ser::<T106, 1>, de: de::<T106, 1> },
	Entry { name: "T107", nin: 1, layouts: &["T107", "T75", "String"], consts: &["https://ex.org/c0"], iris: &["https://ex.org/T107/is", "https://ex.org/T107/p1", "https://ex.org/c0", "https://ex.org/c1", "https://ex.org/p2"], arb: <T107>::arb, ser: ser::<T107, 1>, de: de::<T107, 1> },
	Entry { name: "T108", nin: 2, layouts: &["T108", "T75", "String"], consts: &["https://ex.org/c0"], iris: &["https://ex.org/T108/p1", "https://ex.org/T108/p2", "https://ex.org/c0", "https://ex.org/p2"], arb: <T108>::arb, ser: ser::<T108, 2>, de: de::<T108, 2> },
	Entry { name: "T109", nin: 1, layouts: &["T109", "T75", "String"], consts: &["https://ex.org/c0", "https://ex.org/c2", "https://ex.org/g1"], iris: &["https://ex.org/c0", "https://ex.org/c2", "https://ex.org/g1", "https://ex.org/p2"], arb: <T109>::arb, ser: ser::<T109, 1>, de: de::<T109, 1> },
	Entry { name: "T110", nin: 1, layouts: &["T110", "T75", "String"], consts: &["https://ex.org/c0", "https://ex.org/g0", "https://ex.org/g1"], iris: &["https://ex.org/T110/p1", "https://ex.org/T110/p2", "https://ex.org/c0", "https://ex.org/g0", "https://ex.org/g1", "https://ex.org/p2"], arb: <T110>::arb, ser: ser::<T110, 1>, de: de::<T110, 1> },
	Entry { name: "T111", nin: 1, layouts: &["T111", "T75", "String"], consts: &["https://ex.org/c0"], iris: &["https://ex.org/T111/is", "https://ex.org/c0", "https://ex.org/c1", "https://ex.org/g1", "https://ex.org/p0", "https://ex.org/p2"], arb: <T111>::arb, ser: ser::<T111, 1>, de: de::<T111, 1> },
	Entry { name: "T112", nin: 1, layouts: &["T112", "T75", "String"], consts: &["https://ex.org/c0"], iris: &["https://ex.org/T112/p1", "https://ex.org/T112/p2", "https://ex.org/c0", "https://ex.org/p2"], arb: <T112>::arb, ser: ser::<T112, 1>, de: de::<T112, 1> },
	Entry { name: "T113", nin: 1, layouts: &["T113", "T76", "String"], consts: &["https://ex.org/g1"], iris: &["https://ex.org/T113/is", "https://ex.org/T113/p1", "https://ex.org/T76/p1", "https://ex.org/T76/p2", "https://ex.org/c0", "https://ex.org/g1"], arb: <T113>::arb, ser: ser::<T113, 1>, de: de::<T113, 1> },
	Entry { name: "T114", nin: 1, layouts: &["T114", "T76", "String"], consts: &["https://ex.org/g0", "https://ex.org/g1"], iris: &["https://ex.org/T114/p1", "https://ex.org/T114/p2", "https://ex.org/T76/p1", "https://ex.org/T76/p2", "https://ex.org/g0", "https://ex.org/g1"], arb: <T114>::arb, ser: ser::<T114, 1>, de: de::<T114, 1> },
	Entry { name: "T115", nin: 2, layouts: &["T115", "T76", "String"], consts: &["https://ex.org/g1", "https://ex.org/nil"], iris: &["https://ex.org/T115/p1", "https://ex.org/T115/p2", "https://ex.org/T76/p1", "https://ex.org/T76/p2", "https://ex.org/g1", "https://ex.org/nil"], arb: <T115>::arb, ser: ser::<T115, 2>, de: de::<T115, 2> },
	Entry { name: "T116", nin: 1, layouts: &["T116", "T76", "String"], consts: &["https://ex.org/g1"], iris: &["https://ex.org/T116/is", "https://ex.org/T116/p1", "https://ex.org/T116/p2", "https://ex.org/T76/p1", "https://ex.org/T76/p2", "https://ex.org/c0", "https://ex.org/c1", "https://ex.org/g1"], arb: <T116>::arb, ser: ser::<T116, 1>, de: de::<T116, 1> },
	Entry { name: "T117", nin: 1, layouts: &["T117", "T76", "String"], consts: &["https://ex.org/g1"], iris: &["https://ex.org/T117/p2", "https://ex.org/T76/p1", "https://ex.org/T76/p2", "https://ex.org/g1", "https://ex.org/p2"], arb: <T117>::arb, ser: ser::<T117, 1>, de: de::<T117, 1> },
	Entry { name: "T118", nin: 2, layouts: &["T118", "T76", "String"], consts: &["https://ex.org/c2", "https://ex.org/g1"], iris: &["https://ex.org/T118/is", "https://ex.org/T118/p1", "https://ex.org/T118/p2", "https://ex.org/T76/p1", "https://ex.org/T76/p2", "https://ex.org/c0", "https://ex.org/c2", "https://ex.org/g0", "https://ex.org/g1", "https://ex.org/p1"], arb: <T118>::arb, ser: ser::<T118, 2>, de: de::<T118, 2> },
	Entry { name: "T119", nin: 1, layouts: &["T119", "T76", "String"], consts: &["https://ex.org/g1", "https://ex.org/nil"], iris: &["https://ex.org/T119/p1", "https://ex.org/T119/p2", "https://ex.org/T76/p1", "https://ex.org/T76/p2", "https://ex.org/g1", "https://ex.org/nil"], arb: <T119>::arb, ser: ser::<T119, 1>, de: de::<T119, 1> },
	Entry { name: "T120", nin: 2, layouts: &["T120", "T76", "String"], consts: &["https://ex.org/c1", "https://ex.org/g0", "https://ex.org/g1"], iris: &["https://ex.org/T120/is", "https://ex.org/T120/p1", "https://ex.org/T120/p2", "https://ex.org/T120/p3", "https://ex.org/T120/p4", "https://ex.org/T120/p5", "https://ex.org/T76/p1", "https://ex.org/T76/p2", "https://ex.org/c1", "https://ex.org/g0", "https://ex.org/g1"], arb: <T120>::arb, ser: ser::<T120, 2>, de: de::<T120, 2> },
	Entry { name: "T121", nin: 1, layouts: &["T121", "T76", "String"], consts: &["https://ex.org/g0", "https://ex.org/g1"], iris: &["https://ex.org/T121/p1", "https://ex.org/T121/p2", "https://ex.org/T76/p1", "https://ex.org/T76/p2", "https://ex.org/g0", "https://ex.org/g1"], arb: <T121>::arb, ser: ser::<T121, 1>, de: de::<T121, 1> },
	Entry { name: "T122", nin: 1, layouts: &["T122", "T76", "String"], consts: &["https://ex.org/c0", "https://ex.org/g0", "https://ex.org/g1", "https://ex.org/nil"], iris: &["https://ex.org/T122/p1", "https://ex.org/T122/p2", "https://ex.org/T76/p1", "https://ex.org/T76/p2", "https://ex.org/c0", "https://ex.org/g0", "https://ex.org/g1", "https://ex.org/nil"], arb: <T122>::arb, ser: ser::<T122, 1>, de: de::<T122, 1> },
	Entry { name: "T123", nin: 1, layouts: &["T123", "T77", "String"], consts: &["https://ex.org/c0"], iris: &["https://ex.org/T123/p1", "https://ex.org/T77/p1", "https://ex.org/c0"], arb: <T123>::arb, ser: ser::<T123, 1>, de: de::<T123, 1> },
	Entry { name: "T124", nin: 1, layouts: &["T124", "T77", "String"], consts: &["https://ex.org/g1"], iris: &["https://ex.org/T124/p1", "https://ex.org/T124/p2", "https://ex.org/T124/p3", "https://ex.org/T124/p4", "https://ex.org/T77/p1", "https://ex.org/g1"], arb: <T124>::arb, ser: ser::<T124, 1>, de: de::<T124, 1> },
	Entry { name: "T125", nin: 2, layouts: &["T125", "T77", "String"], consts: &[], iris: &["https://ex.org/T125/p1", "https://ex.org/T125/p2", "https://ex.org/T77/p1"], arb: <T125>::arb, ser: ser::<T125, 2>, de: de::<T125, 2> },
	Entry { name: "T126", nin: 1, layouts: &["T126", "T77", "String"], consts: &["https://ex.org/g1"], iris: &["https://ex.org/T126/p1", "https://ex.org/T126/p2", "https://ex.org/T126/p3", "https://ex.org/T126/p4", "https://ex.org/T77/p1", "https://ex.org/g1"], arb: <T126>::arb, ser: ser::<T126, 1>, de: de::<T126, 1> },
	Entry { name: "T127", nin: 1, layouts: &["T127", "T77", "String"], consts: &[], iris: &["https://ex.org/T127/p1", "https://ex.org/T127/p2", "https://ex.org/T77/p1"], arb: <T127>::arb, ser: ser::<T127, 1>, de: de::<T127, 1> },
	Entry { name: "T128", nin: 1, layouts: &["T128", "T77", "String"], consts: &[], iris: &["https://ex.org/T128/p1", "https://ex.org/T77/p1", "https://ex.org/p1"], arb: <T128>::arb, ser: ser::<T128, 1>, de: de::<T128, 1> },
	Entry { name: "T129", nin: 2, layouts: &["T129", "T77", "String"], consts: &["https://ex.org/g0"], iris: &["https://ex.org/T129/p1", "https://ex.org/T77/p1", "https://ex.org/g0"], arb: <T129>::arb, ser: ser::<T129, 2>, de: de::<T129, 2> },
	Entry { name: "T130", nin: 1, layouts: &["T130", "T77", "String"], consts: &["https://ex.org/g1"], iris: &["https://ex.org/T130/is", "https://ex.org/T130/p1", "https://ex.org/T130/p2", "https://ex.org/T77/p1", "https://ex.org/c2", "https://ex.org/g1", "https://ex.org/p2"], arb: <T130>::arb, ser: ser::<T130, 1>, de: de::<T130, 1> },
	Entry { name: "T131", nin: 1, layouts: &["T131", "T77", "String"], consts: &[], iris: &["https://ex.org/T131/is", "https://ex.org/T131/p1", "https://ex.org/T131/p2", "https://ex.org/T77/p1", "https://ex.org/c1"], arb: <T131>::arb, ser: ser::<T131, 1>, de: de::<T131, 1> },
	Entry { name: "T132", nin: 1, layouts: &["T132", "T77", "String"], consts: &[], iris: &["https://ex.org/T132/p1", "https://ex.org/T77/p1"], arb: <T132>::arb, ser: ser::<T132, 1>, de: de::<T132, 1> },
	Entry { name: "T133", nin: 1, layouts: &["T133", "T131", "T77", "String"], consts: &["https://ex.org/g0", "https://ex.org/g1"], iris: &["https://ex.org/T131/is", "https://ex.org/T131/p1", "https://ex.org/T131/p2", "https://ex.org/T133/p1", "https://ex.org/T133/p2", "https://ex.org/T77/p1", "https://ex.org/c1", "https://ex.org/g0", "https://ex.org/g1"], arb: <T133>::arb, ser: ser::<T133, 1>, de: de::<T133, 1> },
	Entry { name: "T134", nin: 2, layouts: &["T134", "T129", "T77", "String"], consts: &["https://ex.org/g0", "https://ex.org/g1"], iris: &["https://ex.org/T129/p1", "https://ex.org/T134/is", "https://ex.org/T134/p1", "https://ex.org/T134/p2", "https://ex.org/T134/p3", "https://ex.org/T77/p1", "https://ex.org/c2", "https://ex.org/g0", "https://ex.org/g1"], arb: <T134>::arb, ser: ser::<T134, 2>, de: de::<T134, 2> },
	Entry { name: "T135", nin: 2, layouts: &["T135", "T111", "T75", "String"], consts: &["https://ex.org/c0", "https://ex.org/g0"], iris: &["https://ex.org/T111/is", "https://ex.org/T135/is", "https://ex.org/T135/p1", "https://ex.org/T135/p2", "https://ex.org/T135/p3", "https://ex.org/c0", "https://ex.org/c1", "https://ex.org/g0", "https://ex.org/g1", "https://ex.org/p0", "https://ex.org/p2"], arb: <T135>::arb, ser: ser::<T135, 2>, de: de::<T135, 2> },
	Entry { name: "T136", nin: 2, layouts: &["T136", "T130", "T77", "String"], consts: &["https://ex.org/g1"], iris: &["https://ex.org/T130/is", "https://ex.org/T130/p1", "https://ex.org/T130/p2", "https://ex.org/T77/p1", "https://ex.org/c2", "https://ex.org/g1", "https://ex.org/p2"], arb: <T136>::arb, ser: ser::<T136, 2>, de: de::<T136, 2> },
	Entry { name: "T137", nin: 1, layouts: &["T137", "T129", "T77", "String"], consts: &["https://ex.org/g0", "https://ex.org/g1"], iris: &["https://ex.org/T129/p1", "https://ex.org/T137/p1", "https://ex.org/T137/p2", "https://ex.org/T137/p3", "https://ex.org/T77/p1", "https://ex.org/g0", "https://ex.org/g1"], arb: <T137>::arb, ser: ser::<T137, 1>, de: de::<T137, 1> },
	Entry { name: "T138", nin: 1, layouts: &["T138", "T125", "T77", "String"], consts: &["https://ex.org/g0"], iris: &["https://ex.org/T125/p1", "https://ex.org/T125/p2", "https://ex.org/T138/p1", "https://ex.org/T138/p2", "https://ex.org/T138/p3", "https://ex.org/T77/p1", "https://ex.org/g0"], arb: <T138>::arb, ser: ser::<T138, 1>, de: de::<T138, 1> },
	Entry { name: "T139", nin: 2, layouts: &["T139", "T126", "T77", "String"], consts: &["https://ex.org/c1", "https://ex.org/g1"], iris: &["https://ex.org/T126/p1", "https://ex.org/T126/p2", "https://ex.org/T126/p3", "https://ex.org/T126/p4", "https://ex.org/T139/is", "https://ex.org/T139/p1", "https://ex.org/T139/p2", "https://ex.org/T139/p3", "https://ex.org/T139/p4", "https://ex.org/T139/p5", "https://ex.org/T139/p7", "https://ex.org/T77/p1", "https://ex.org/c1", "https://ex.org/g1", "https://ex.org/p1"], arb: <T139>::arb, ser: ser::<T139, 2>, de: de::<T139, 2> },
	Entry { name: "T140", nin: 1, layouts: &["T140", "T112", "T75", "String"], consts: &["https://ex.org/c0"], iris: &["https://ex.org/T112/p1", "https://ex.org/T112/p2", "https://ex.org/T140/is", "https://ex.org/T140/p1", "https://ex.org/c0", "https://ex.org/c1", "https://ex.org/g0", "https://ex.org/p2"], arb: <T140>::arb, ser: ser::<T140, 1>, de: de::<T140, 1> },
	Entry { name: "T141", nin: 1, layouts: &["T141", "T130", "T77", "String"], consts: &["https://ex.org/g1"], iris: &["https://ex.org/T130/is", "https://ex.org/T130/p1", "https://ex.org/T130/p2", "https://ex.org/T141/p1", "https://ex.org/T77/p1", "https://ex.org/c2", "https://ex.org/g1", "https://ex.org/p0", "https://ex.org/p2"], arb: <T141>::arb, ser: ser::<T141, 1>, de: de::<T141, 1> },
	Entry { name: "T142", nin: 2, layouts: &["T142", "T131", "T77", "String"], consts: &[], iris: &["https://ex.org/T131/is", "https://ex.org/T131/p1", "https://ex.org/T131/p2", "https://ex.org/T77/p1", "https://ex.org/c1"], arb: <T142>::arb, ser: ser::<T142, 2>, de: de::<T142, 2> },
	Entry { name: "T143", nin: 1, layouts: &["T143", "T119", "T76", "String"], consts: &["https://ex.org/g0", "https://ex.org/g1", "https://ex.org/nil"], iris: &["https://ex.org/T119/p1", "https://ex.org/T119/p2", "https://ex.org/T143/p1", "https://ex.org/T143/p3", "https://ex.org/T76/p1", "https://ex.org/T76/p2", "https://ex.org/g0", "https://ex.org/g1", "https://ex.org/nil", "https://ex.org/p2"], arb: <T143>::arb, ser: ser::<T143, 1>, de: de::<T143, 1> },
	Entry { name: "T144", nin: 2, layouts: &["T144", "T130", "T77", "String"], consts: &["https://ex.org/g1"], iris: &["https://ex.org/T130/is", "https://ex.org/T130/p1", "https://ex.org/T130/p2", "https://ex.org/T77/p1", "https://ex.org/c2", "https://ex.org/g1", "https://ex.org/p2"], arb: <T144>::arb, ser: ser::<T144, 2>, de: de::<T144, 2> },
	Entry { name: "T145", nin: 2, layouts: &["T145", "T123", "T77", "String"], consts: &["https://ex.org/c0", "https://ex.org/g1"], iris: &["https://ex.org/T123/p1", "https://ex.org/T145/is", "https://ex.org/T145/p1", "https://ex.org/T145/p2", "https://ex.org/T145/p3", "https://ex.org/T77/p1", "https://ex.org/c0", "https://ex.org/c1", "https://ex.org/g1"], arb: <T145>::arb, ser: ser::<T145, 2>, de: de::<T145, 2> },
	Entry { name: "T146", nin: 1, layouts: &["T146", "T108", "T75", "String"], consts: &["https://ex.org/c0", "https://ex.org/g1"], iris: &["https://ex.org/T108/p1", "https://ex.org/T108/p2", "https://ex.org/T146/is", "https://ex.org/T146/p1", "https://ex.org/T146/p2", "https://ex.org/T146/p3", "https://ex.org/c0", "https://ex.org/c1", "https://ex.org/g1", "https://ex.org/p2"], arb: <T146>::arb, ser: ser::<T146, 1>, de: de::<T146, 1> },
	Entry { name: "T147", nin: 1, layouts: &["T147", "T127", "T77", "String"], consts: &["https://ex.org/g0"], iris: &["https://ex.org/T127/p1", "https://ex.org/T127/p2", "https://ex.org/T147/p1", "https://ex.org/T147/p3", "https://ex.org/T77/p1", "https://ex.org/g0", "https://ex.org/p2"], arb: <T147>::arb, ser: ser::<T147, 1>, de: de::<T147, 1> },
	Entry { name: "String", nin: 1, layouts: &["String"], consts: &[], iris: &[], arb: <String>::arb, ser: ser::<String, 1>, de: de::<String, 1> },
	Entry { name: "i8", nin: 1, layouts: &["i8"], consts: &[], iris: &[], arb: <i8>::arb, ser: ser::<i8, 1>, de: de::<i8, 1> },
	Entry { name: "u16", nin: 1, layouts: &["u16"], consts: &[], iris: &[], arb: <u16>::arb, ser: ser::<u16, 1>, de: de::<u16, 1> },
	Entry { name: "i32", nin: 1, layouts: &["i32"], consts: &[], iris: &[], arb: <i32>::arb, ser: ser::<i32, 1>, de: de::<i32, 1> },
	Entry { name: "i64", nin: 1, layouts: &["i64"], consts: &[], iris: &[], arb: <i64>::arb, ser: ser::<i64, 1>, de: de::<i64, 1> },
	Entry { name: "u32", nin: 1, layouts: &["u32"], consts: &[], iris: &[], arb: <u32>::arb, ser: ser::<u32, 1>, de: de::<u32, 1> },
	Entry { name: "u8", nin: 1, layouts: &["u8"], consts: &[], iris: &[], arb: <u8>::arb, ser: ser::<u8, 1>, de: de::<u8, 1> },
	Entry { name: "i16", nin: 1, layouts: &["i16"], consts: &[], iris: &[], arb: <i16>::arb, ser: ser::<i16, 1>, de: de::<i16, 1> },
	Entry { name: "u64", nin: 1, layouts: &["u64"], consts: &[], iris: &[], arb: <u64>::arb, ser: ser::<u64, 1>, de: de::<u64, 1> },
	Entry { name: "Id", nin: 1, layouts: &["Id"], consts: &[], iris: &[], arb: <rdf_types::Id>::arb, ser: ser::<rdf_types::Id, 1>, de: de::<rdf_types::Id, 1> },
	Entry { name: "bool", nin: 1, layouts: &["bool"], consts: &[], iris: &[], arb: <bool>::arb, ser: ser::<bool, 1>, de: de::<bool, 1> },
	Entry { name: "Unit", nin: 1, layouts: &["Unit"], consts: &[], iris: &[], arb: <()>::arb, ser: ser::<(), 1>, de: de::<(), 1> },
];
