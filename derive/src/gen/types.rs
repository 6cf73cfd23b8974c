// Written by tools/derive_gen.py.
#![allow(dead_code, unused_mut, clippy::all)]
use super::*;

#[treeldr::tldr("layouts/T0.json", "layouts/T8.json", "layouts/T15.json", "layouts/T21.json", "layouts/T24.json", "layouts/T25.json", "layouts/T28.json", "layouts/T35.json", "layouts/T41.json", "layouts/T44.json", "layouts/T46.json", "layouts/T51.json", "layouts/T53.json", "layouts/T55.json", "layouts/T60.json", "layouts/T65.json", "layouts/T68.json", "layouts/T70.json", "layouts/T72.json", "layouts/T75.json", "layouts/T77.json", "layouts/T78.json", "layouts/T79.json", "layouts/T85.json", "layouts/T88.json", "layouts/T89.json", "layouts/T90.json", "layouts/T92.json", "layouts/T93.json", "layouts/T98.json", "layouts/T103.json", "layouts/T104.json", "layouts/T107.json", "layouts/T109.json", "layouts/T113.json", "layouts/T121.json", "layouts/T125.json", "layouts/T127.json", "layouts/T133.json", "layouts/T135.json", "layouts/T143.json", "layouts/T144.json", "layouts/T145.json")]
pub mod root {
	#[tldr("https://gen.org/a/")]
	use super::a;
	#[tldr("https://b.org/")]
	use super::b;
	#[tldr("https://inc.org/")]
	use super::inc as included;
}
pub use root::*;

#[treeldr::tldr("layouts/T6.json", "layouts/T9.json", "layouts/T12.json", "layouts/T19.json", "layouts/T20.json", "layouts/T26.json", "layouts/T30.json", "layouts/T32.json", "layouts/T37.json", "layouts/T40.json", "layouts/T49.json", "layouts/T52.json", "layouts/T64.json", "layouts/T71.json", "layouts/T106.json", "layouts/T111.json", "layouts/T115.json", "layouts/T116.json", "layouts/T117.json", "layouts/T137.json", "layouts/T138.json")]
pub mod a {
	#[tldr("https://b.org/")]
	use super::b;
	#[tldr("https://inc.org/")]
	use super::inc as included;
}
pub use a::*;

#[treeldr::tldr("layouts/T3.json", "layouts/T7.json", "layouts/T10.json", "layouts/T16.json", "layouts/T27.json", "layouts/T34.json", "layouts/T36.json", "layouts/T47.json", "layouts/T48.json", "layouts/T50.json", "layouts/T54.json", "layouts/T56.json", "layouts/T57.json", "layouts/T59.json", "layouts/T62.json", "layouts/T66.json", "layouts/T69.json", "layouts/T73.json", "layouts/T74.json", "layouts/T76.json", "layouts/T80.json", "layouts/T82.json", "layouts/T83.json", "layouts/T84.json", "layouts/T86.json", "layouts/T94.json", "layouts/T95.json", "layouts/T96.json", "layouts/T97.json", "layouts/T101.json", "layouts/T105.json", "layouts/T108.json", "layouts/T110.json", "layouts/T112.json", "layouts/T114.json", "layouts/T119.json", "layouts/T122.json", "layouts/T123.json", "layouts/T124.json", "layouts/T134.json", "layouts/T136.json", "layouts/T141.json", "layouts/T142.json")]
pub mod b {
	#[tldr("https://gen.org/a/")]
	use super::a;
	#[tldr("https://gen.org/")]
	use super::root;
	#[tldr("https://inc.org/")]
	use super::inc as included;
}
pub use b::*;

pub mod inc {
	use super::*;
	treeldr::tldr_include!("layouts/T1.json", "layouts/T2.json", "layouts/T4.json", "layouts/T5.json", "layouts/T11.json", "layouts/T13.json", "layouts/T14.json", "layouts/T17.json", "layouts/T18.json", "layouts/T22.json", "layouts/T23.json", "layouts/T29.json", "layouts/T31.json", "layouts/T33.json", "layouts/T38.json", "layouts/T39.json", "layouts/T42.json", "layouts/T43.json", "layouts/T45.json", "layouts/T58.json", "layouts/T61.json", "layouts/T63.json", "layouts/T67.json", "layouts/T81.json", "layouts/T87.json", "layouts/T91.json", "layouts/T99.json", "layouts/T100.json", "layouts/T102.json", "layouts/T118.json", "layouts/T120.json", "layouts/T126.json", "layouts/T128.json", "layouts/T129.json", "layouts/T130.json", "layouts/T131.json", "layouts/T132.json", "layouts/T139.json", "layouts/T140.json");
}
pub use inc::*;

impl Model for T0 {
	fn arb(r: &mut Rng) -> Val { <rdf_types::Id>::arb(r) }
	fn make(v: &Val) -> Self { Self(<rdf_types::Id>::make(v)) }
	fn show(&self) -> Val { self.0.show() }
}

impl Model for T1 {
	fn arb(_: &mut Rng) -> Val { Val::unit() }
	fn make(_: &Val) -> Self { Self }
	fn show(&self) -> Val { Val::unit() }
}

impl Model for T2 {
	fn arb(r: &mut Rng) -> Val { <bool>::arb(r) }
	fn make(v: &Val) -> Self { Self(<bool>::make(v)) }
	fn show(&self) -> Val { self.0.show() }
}

impl Model for T3 {
	fn arb(r: &mut Rng) -> Val { <bool>::arb(r) }
	fn make(v: &Val) -> Self { Self(<bool>::make(v)) }
	fn show(&self) -> Val { self.0.show() }
}

impl Model for T4 {
	fn arb(r: &mut Rng) -> Val { <String>::arb(r) }
	fn make(v: &Val) -> Self { Self(<String>::make(v)) }
	fn show(&self) -> Val { self.0.show() }
}

impl Model for T5 {
	fn arb(r: &mut Rng) -> Val { <String>::arb(r) }
	fn make(v: &Val) -> Self { Self(<String>::make(v)) }
	fn show(&self) -> Val { self.0.show() }
}

impl Model for T6 {
	fn arb(r: &mut Rng) -> Val { <i64>::arb(r) }
	fn make(v: &Val) -> Self { Self(<i64>::make(v)) }
	fn show(&self) -> Val { self.0.show() }
}

impl Model for T7 {
	fn arb(r: &mut Rng) -> Val { <u32>::arb(r) }
	fn make(v: &Val) -> Self { Self(<u32>::make(v)) }
	fn show(&self) -> Val { self.0.show() }
}

impl Model for T8 {
	fn arb(r: &mut Rng) -> Val { <i32>::arb(r) }
	fn make(v: &Val) -> Self { Self(<i32>::make(v)) }
	fn show(&self) -> Val { self.0.show() }
}

impl Model for T9 {
	fn arb(r: &mut Rng) -> Val { <rdf_types::Id>::arb(r) }
	fn make(v: &Val) -> Self { Self(<rdf_types::Id>::make(v)) }
	fn show(&self) -> Val { self.0.show() }
}

impl Model for T10 {
	fn arb(_: &mut Rng) -> Val { Val::unit() }
	fn make(_: &Val) -> Self { Self }
	fn show(&self) -> Val { Val::unit() }
}

impl Model for T11 {
	fn arb(r: &mut Rng) -> Val { <bool>::arb(r) }
	fn make(v: &Val) -> Self { Self(<bool>::make(v)) }
	fn show(&self) -> Val { self.0.show() }
}

impl Model for T12 {
	fn arb(r: &mut Rng) -> Val { <bool>::arb(r) }
	fn make(v: &Val) -> Self { Self(<bool>::make(v)) }
	fn show(&self) -> Val { self.0.show() }
}

impl Model for T13 {
	fn arb(r: &mut Rng) -> Val { <String>::arb(r) }
	fn make(v: &Val) -> Self { Self(<String>::make(v)) }
	fn show(&self) -> Val { self.0.show() }
}

impl Model for T14 {
	fn arb(r: &mut Rng) -> Val { <String>::arb(r) }
	fn make(v: &Val) -> Self { Self(<String>::make(v)) }
	fn show(&self) -> Val { self.0.show() }
}

impl Model for T15 {
	fn arb(r: &mut Rng) -> Val { <u8>::arb(r) }
	fn make(v: &Val) -> Self { Self(<u8>::make(v)) }
	fn show(&self) -> Val { self.0.show() }
}

impl Model for T16 {
	fn arb(r: &mut Rng) -> Val { <u32>::arb(r) }
	fn make(v: &Val) -> Self { Self(<u32>::make(v)) }
	fn show(&self) -> Val { self.0.show() }
}

impl Model for T17 {
	fn arb(r: &mut Rng) -> Val { <i8>::arb(r) }
	fn make(v: &Val) -> Self { Self(<i8>::make(v)) }
	fn show(&self) -> Val { self.0.show() }
}

impl Model for T18 {
	fn arb(r: &mut Rng) -> Val {
		let _ = &r;
		let mut m = Vec::new();
		m.push(("foo".to_string(), <T6>::arb(r)));
		if r.chance(60) { m.push(("bar".to_string(), <T6>::arb(r))); }
		Val::map(m)
	}
	fn make(v: &Val) -> Self {
		let _ = v;
		Self { foo: field(v, "foo").map(|v| <T6>::make(v)).unwrap(), bar: field(v, "bar").map(|v| <T6>::make(v)) }
	}
	fn show(&self) -> Val {
		let mut m = Vec::new();
		m.push(("foo".to_string(), self.foo.show()));
		if let Some(x) = &self.bar { m.push(("bar".to_string(), x.show())); }
		Val::map(m)
	}
}

impl Model for T19 {
	fn arb(r: &mut Rng) -> Val {
		match r.below(4) { 0 => variant("Foo", <i64>::arb(r)), 1 => variant("Bar", <()>::arb(r)), 2 => variant("A2", <i64>::arb(r)), 3 => variant("A3", <String>::arb(r)), _ => unreachable!() }
	}
	fn make(v: &Val) -> Self {
		match v.s.as_str() { "Foo" => Self::Foo(<i64>::make(&v.c[0])), "Bar" => Self::Bar(<()>::make(&v.c[0])), "A2" => Self::A2(<i64>::make(&v.c[0])), "A3" => Self::A3(<String>::make(&v.c[0])), _ => unreachable!() }
	}
	fn show(&self) -> Val {
		match self { Self::Foo(x) => variant("Foo", x.show()), Self::Bar(x) => variant("Bar", x.show()), Self::A2(x) => variant("A2", x.show()), Self::A3(x) => variant("A3", x.show()), }
	}
}

impl Model for T20 {
	fn arb(r: &mut Rng) -> Val { let n = len(r); Val::list((0..n).map(|_| <T19>::arb(r)).collect()) }
	fn make(v: &Val) -> Self { Self(v.c.iter().map(|v| <T19>::make(v)).collect()) }
	fn show(&self) -> Val { Val::list(self.0.iter().map(|x| x.show()).collect()) }
}

impl Model for T21 {
	fn arb(r: &mut Rng) -> Val { let n = len(r); Val::list((0..n).map(|_| <i32>::arb(r)).collect()) }
	fn make(v: &Val) -> Self { Self(v.c.iter().map(|v| <i32>::make(v)).collect()) }
	fn show(&self) -> Val { Val::list(self.0.iter().map(|x| x.show()).collect()) }
}

impl Model for T22 {
	fn arb(r: &mut Rng) -> Val { Val::list(vec![<T20>::arb(r), <rdf_types::Id>::arb(r)]) }
	fn make(v: &Val) -> Self { Self(<T20>::make(&v.c[0]), <rdf_types::Id>::make(&v.c[1])) }
	fn show(&self) -> Val { Val::list(vec![self.0.show(), self.1.show()]) }
}

impl Model for T23 {
	fn arb(r: &mut Rng) -> Val { Val::list(vec![<T14>::arb(r)]) }
	fn make(v: &Val) -> Self { Self(<T14>::make(&v.c[0])) }
	fn show(&self) -> Val { Val::list(vec![self.0.show()]) }
}

impl Model for T24 {
	fn arb(r: &mut Rng) -> Val {
		let _ = &r;
		let mut m = Vec::new();
		if r.chance(60) { m.push(("foo".to_string(), <T3>::arb(r))); }
		m.push(("bar".to_string(), <i32>::arb(r)));
		Val::map(m)
	}
	fn make(v: &Val) -> Self {
		let _ = v;
		Self { foo: field(v, "foo").map(|v| <T3>::make(v)), bar: field(v, "bar").map(|v| <i32>::make(v)).unwrap() }
	}
	fn show(&self) -> Val {
		let mut m = Vec::new();
		if let Some(x) = &self.foo { m.push(("foo".to_string(), x.show())); }
		m.push(("bar".to_string(), self.bar.show()));
		Val::map(m)
	}
}

impl Model for T25 {
	fn arb(r: &mut Rng) -> Val {
		match r.below(4) { 0 => variant("A0", <T23>::arb(r)), 1 => variant("Bar", <T12>::arb(r)), 2 => variant("Baz", <i64>::arb(r)), 3 => variant("Qux", <T13>::arb(r)), _ => unreachable!() }
	}
	fn make(v: &Val) -> Self {
		match v.s.as_str() { "A0" => Self::A0(<T23>::make(&v.c[0])), "Bar" => Self::Bar(<T12>::make(&v.c[0])), "Baz" => Self::Baz(<i64>::make(&v.c[0])), "Qux" => Self::Qux(<T13>::make(&v.c[0])), _ => unreachable!() }
	}
	fn show(&self) -> Val {
		match self { Self::A0(x) => variant("A0", x.show()), Self::Bar(x) => variant("Bar", x.show()), Self::Baz(x) => variant("Baz", x.show()), Self::Qux(x) => variant("Qux", x.show()), }
	}
}

impl Model for T26 {
	fn arb(r: &mut Rng) -> Val { let n = len(r); Val::list((0..n).map(|_| <bool>::arb(r)).collect()) }
	fn make(v: &Val) -> Self { Self(v.c.iter().map(|v| <bool>::make(v)).collect()) }
	fn show(&self) -> Val { Val::list(self.0.iter().map(|x| x.show()).collect()) }
}

impl Model for T27 {
	fn arb(r: &mut Rng) -> Val { let n = len(r); Val::list((0..n).map(|_| <()>::arb(r)).collect()) }
	fn make(v: &Val) -> Self { Self(v.c.iter().map(|v| <()>::make(v)).collect()) }
	fn show(&self) -> Val { Val::list(self.0.iter().map(|x| x.show()).collect()) }
}

impl Model for T28 {
	fn arb(r: &mut Rng) -> Val { Val::list(vec![<T13>::arb(r)]) }
	fn make(v: &Val) -> Self { Self(<T13>::make(&v.c[0])) }
	fn show(&self) -> Val { Val::list(vec![self.0.show()]) }
}

impl Model for T29 {
	fn arb(r: &mut Rng) -> Val {
		let _ = &r;
		let mut m = Vec::new();
		Val::map(m)
	}
	fn make(v: &Val) -> Self {
		let _ = v;
		Self {  }
	}
	fn show(&self) -> Val {
		let mut m = Vec::new();
		Val::map(m)
	}
}

impl Model for T30 {
	fn arb(r: &mut Rng) -> Val {
		match r.below(2) { 0 => variant("Foo", <T4>::arb(r)), 1 => variant("A1", <T19>::arb(r)), _ => unreachable!() }
	}
	fn make(v: &Val) -> Self {
		match v.s.as_str() { "Foo" => Self::Foo(<T4>::make(&v.c[0])), "A1" => Self::A1(<T19>::make(&v.c[0])), _ => unreachable!() }
	}
	fn show(&self) -> Val {
		match self { Self::Foo(x) => variant("Foo", x.show()), Self::A1(x) => variant("A1", x.show()), }
	}
}

impl Model for T31 {
	fn arb(r: &mut Rng) -> Val { let n = len(r); Val::list((0..n).map(|_| <String>::arb(r)).collect()) }
	fn make(v: &Val) -> Self { Self(v.c.iter().map(|v| <String>::make(v)).collect()) }
	fn show(&self) -> Val { Val::list(self.0.iter().map(|x| x.show()).collect()) }
}

impl Model for T32 {
	fn arb(r: &mut Rng) -> Val { let n = len(r); Val::list((0..n).map(|_| <u16>::arb(r)).collect()) }
	fn make(v: &Val) -> Self { Self(v.c.iter().map(|v| <u16>::make(v)).collect()) }
	fn show(&self) -> Val { Val::list(self.0.iter().map(|x| x.show()).collect()) }
}

impl Model for T33 {
	fn arb(r: &mut Rng) -> Val { Val::list(vec![<T26>::arb(r)]) }
	fn make(v: &Val) -> Self { Self(<T26>::make(&v.c[0])) }
	fn show(&self) -> Val { Val::list(vec![self.0.show()]) }
}

impl Model for T34 {
	fn arb(r: &mut Rng) -> Val {
		let _ = &r;
		let mut m = Vec::new();
		m.push(("foo".to_string(), <T5>::arb(r)));
		if r.chance(60) { m.push(("bar".to_string(), <T30>::arb(r))); }
		if r.chance(60) { m.push(("zz2".to_string(), <T31>::arb(r))); }
		m.push(("qux".to_string(), <T28>::arb(r)));
		Val::map(m)
	}
	fn make(v: &Val) -> Self {
		let _ = v;
		Self { foo: field(v, "foo").map(|v| <T5>::make(v)).unwrap(), bar: field(v, "bar").map(|v| <T30>::make(v)), zz2: field(v, "zz2").map(|v| <T31>::make(v)), qux: field(v, "qux").map(|v| <T28>::make(v)).unwrap() }
	}
	fn show(&self) -> Val {
		let mut m = Vec::new();
		m.push(("foo".to_string(), self.foo.show()));
		if let Some(x) = &self.bar { m.push(("bar".to_string(), x.show())); }
		if let Some(x) = &self.zz2 { m.push(("zz2".to_string(), x.show())); }
		m.push(("qux".to_string(), self.qux.show()));
		Val::map(m)
	}
}

impl Model for T35 {
	fn arb(r: &mut Rng) -> Val {
		match r.below(1) { 0 => variant("A0", <T11>::arb(r)), _ => unreachable!() }
	}
	fn make(v: &Val) -> Self {
		match v.s.as_str() { "A0" => Self::A0(<T11>::make(&v.c[0])), _ => unreachable!() }
	}
	fn show(&self) -> Val {
		match self { Self::A0(x) => variant("A0", x.show()), }
	}
}

impl Model for T36 {
	fn arb(r: &mut Rng) -> Val { let n = len(r); Val::list((0..n).map(|_| <T21>::arb(r)).collect()) }
	fn make(v: &Val) -> Self { Self(v.c.iter().map(|v| <T21>::make(v)).collect()) }
	fn show(&self) -> Val { Val::list(self.0.iter().map(|x| x.show()).collect()) }
}

impl Model for T37 {
	fn arb(r: &mut Rng) -> Val { let n = len(r); Val::list((0..n).map(|_| <()>::arb(r)).collect()) }
	fn make(v: &Val) -> Self { Self(v.c.iter().map(|v| <()>::make(v)).collect()) }
	fn show(&self) -> Val { Val::list(self.0.iter().map(|x| x.show()).collect()) }
}

impl Model for T38 {
	fn arb(r: &mut Rng) -> Val { Val::list(vec![<i32>::arb(r), <T25>::arb(r)]) }
	fn make(v: &Val) -> Self { Self(<i32>::make(&v.c[0]), <T25>::make(&v.c[1])) }
	fn show(&self) -> Val { Val::list(vec![self.0.show(), self.1.show()]) }
}

impl Model for T39 {
	fn arb(r: &mut Rng) -> Val {
		let _ = &r;
		let mut m = Vec::new();
		m.push(("foo".to_string(), <i8>::arb(r)));
		if r.chance(60) { m.push(("zz1".to_string(), <T36>::arb(r))); }
		Val::map(m)
	}
	fn make(v: &Val) -> Self {
		let _ = v;
		Self { foo: field(v, "foo").map(|v| <i8>::make(v)).unwrap(), zz1: field(v, "zz1").map(|v| <T36>::make(v)) }
	}
	fn show(&self) -> Val {
		let mut m = Vec::new();
		m.push(("foo".to_string(), self.foo.show()));
		if let Some(x) = &self.zz1 { m.push(("zz1".to_string(), x.show())); }
		Val::map(m)
	}
}

impl Model for T40 {
	fn arb(r: &mut Rng) -> Val {
		match r.below(2) { 0 => variant("A0", <u16>::arb(r)), 1 => variant("Bar", <T32>::arb(r)), _ => unreachable!() }
	}
	fn make(v: &Val) -> Self {
		match v.s.as_str() { "A0" => Self::A0(<u16>::make(&v.c[0])), "Bar" => Self::Bar(<T32>::make(&v.c[0])), _ => unreachable!() }
	}
	fn show(&self) -> Val {
		match self { Self::A0(x) => variant("A0", x.show()), Self::Bar(x) => variant("Bar", x.show()), }
	}
}

impl Model for T41 {
	fn arb(r: &mut Rng) -> Val { let n = len(r); Val::list((0..n).map(|_| <String>::arb(r)).collect()) }
	fn make(v: &Val) -> Self { Self(v.c.iter().map(|v| <String>::make(v)).collect()) }
	fn show(&self) -> Val { Val::list(self.0.iter().map(|x| x.show()).collect()) }
}

impl Model for T42 {
	fn arb(r: &mut Rng) -> Val { let n = len(r); Val::list((0..n).map(|_| <i8>::arb(r)).collect()) }
	fn make(v: &Val) -> Self { Self(v.c.iter().map(|v| <i8>::make(v)).collect()) }
	fn show(&self) -> Val { Val::list(self.0.iter().map(|x| x.show()).collect()) }
}

impl Model for T43 {
	fn arb(r: &mut Rng) -> Val { Val::list(vec![<T28>::arb(r)]) }
	fn make(v: &Val) -> Self { Self(<T28>::make(&v.c[0])) }
	fn show(&self) -> Val { Val::list(vec![self.0.show()]) }
}

impl Model for T44 {
	fn arb(r: &mut Rng) -> Val {
		let _ = &r;
		let mut m = Vec::new();
		m.push(("foo".to_string(), <rdf_types::Id>::arb(r)));
		m.push(("bar".to_string(), <T25>::arb(r)));
		if r.chance(60) { m.push(("baz".to_string(), <i64>::arb(r))); }
		m.push(("qux".to_string(), <T35>::arb(r)));
		Val::map(m)
	}
	fn make(v: &Val) -> Self {
		let _ = v;
		Self { foo: field(v, "foo").map(|v| <rdf_types::Id>::make(v)).unwrap(), bar: field(v, "bar").map(|v| <T25>::make(v)).unwrap(), baz: field(v, "baz").map(|v| <i64>::make(v)), qux: field(v, "qux").map(|v| <T35>::make(v)).unwrap() }
	}
	fn show(&self) -> Val {
		let mut m = Vec::new();
		m.push(("foo".to_string(), self.foo.show()));
		m.push(("bar".to_string(), self.bar.show()));
		if let Some(x) = &self.baz { m.push(("baz".to_string(), x.show())); }
		m.push(("qux".to_string(), self.qux.show()));
		Val::map(m)
	}
}

impl Model for T45 {
	fn arb(r: &mut Rng) -> Val {
		match r.below(2) { 0 => variant("Foo", <T29>::arb(r)), 1 => variant("Bar", <T31>::arb(r)), _ => unreachable!() }
	}
	fn make(v: &Val) -> Self {
		match v.s.as_str() { "Foo" => Self::Foo(<T29>::make(&v.c[0])), "Bar" => Self::Bar(<T31>::make(&v.c[0])), _ => unreachable!() }
	}
	fn show(&self) -> Val {
		match self { Self::Foo(x) => variant("Foo", x.show()), Self::Bar(x) => variant("Bar", x.show()), }
	}
}

impl Model for T46 {
	fn arb(r: &mut Rng) -> Val { let n = len(r); Val::list((0..n).map(|_| <T36>::arb(r)).collect()) }
	fn make(v: &Val) -> Self { Self(v.c.iter().map(|v| <T36>::make(v)).collect()) }
	fn show(&self) -> Val { Val::list(self.0.iter().map(|x| x.show()).collect()) }
}

impl Model for T47 {
	fn arb(r: &mut Rng) -> Val { let n = len(r); Val::list((0..n).map(|_| <i8>::arb(r)).collect()) }
	fn make(v: &Val) -> Self { Self(v.c.iter().map(|v| <i8>::make(v)).collect()) }
	fn show(&self) -> Val { Val::list(self.0.iter().map(|x| x.show()).collect()) }
}

impl Model for T48 {
	fn arb(r: &mut Rng) -> Val { Val::list(vec![<rdf_types::Id>::arb(r)]) }
	fn make(v: &Val) -> Self { Self(<rdf_types::Id>::make(&v.c[0])) }
	fn show(&self) -> Val { Val::list(vec![self.0.show()]) }
}

impl Model for T49 {
	fn arb(r: &mut Rng) -> Val {
		let _ = &r;
		let mut m = Vec::new();
		m.push(("foo".to_string(), <i8>::arb(r)));
		if r.chance(60) { m.push(("bar".to_string(), <i8>::arb(r))); }
		if r.chance(60) { m.push(("baz".to_string(), <u16>::arb(r))); }
		if r.chance(60) { m.push(("qux".to_string(), <T32>::arb(r))); }
		Val::map(m)
	}
	fn make(v: &Val) -> Self {
		let _ = v;
		Self { foo: field(v, "foo").map(|v| <i8>::make(v)).unwrap(), bar: field(v, "bar").map(|v| <i8>::make(v)), baz: field(v, "baz").map(|v| <u16>::make(v)), qux: field(v, "qux").map(|v| <T32>::make(v)) }
	}
	fn show(&self) -> Val {
		let mut m = Vec::new();
		m.push(("foo".to_string(), self.foo.show()));
		if let Some(x) = &self.bar { m.push(("bar".to_string(), x.show())); }
		if let Some(x) = &self.baz { m.push(("baz".to_string(), x.show())); }
		if let Some(x) = &self.qux { m.push(("qux".to_string(), x.show())); }
		Val::map(m)
	}
}

impl Model for T50 {
	fn arb(r: &mut Rng) -> Val {
		let _ = &r;
		let mut m = Vec::new();
		if r.chance(60) { m.push(("zz0".to_string(), <T49>::arb(r))); }
		m.push(("bar".to_string(), <T45>::arb(r)));
		Val::map(m)
	}
	fn make(v: &Val) -> Self {
		let _ = v;
		Self { zz0: field(v, "zz0").map(|v| <T49>::make(v)), bar: field(v, "bar").map(|v| <T45>::make(v)).unwrap() }
	}
	fn show(&self) -> Val {
		let mut m = Vec::new();
		if let Some(x) = &self.zz0 { m.push(("zz0".to_string(), x.show())); }
		m.push(("bar".to_string(), self.bar.show()));
		Val::map(m)
	}
}

impl Model for T51 {
	fn arb(r: &mut Rng) -> Val {
		match r.below(2) { 0 => variant("Foo", <T49>::arb(r)), 1 => variant("Bar", <T35>::arb(r)), _ => unreachable!() }
	}
	fn make(v: &Val) -> Self {
		match v.s.as_str() { "Foo" => Self::Foo(<T49>::make(&v.c[0])), "Bar" => Self::Bar(<T35>::make(&v.c[0])), _ => unreachable!() }
	}
	fn show(&self) -> Val {
		match self { Self::Foo(x) => variant("Foo", x.show()), Self::Bar(x) => variant("Bar", x.show()), }
	}
}

impl Model for T52 {
	fn arb(r: &mut Rng) -> Val { let n = len(r); Val::list((0..n).map(|_| <()>::arb(r)).collect()) }
	fn make(v: &Val) -> Self { Self(v.c.iter().map(|v| <()>::make(v)).collect()) }
	fn show(&self) -> Val { Val::list(self.0.iter().map(|x| x.show()).collect()) }
}

impl Model for T53 {
	fn arb(r: &mut Rng) -> Val { let n = len(r); Val::list((0..n).map(|_| <bool>::arb(r)).collect()) }
	fn make(v: &Val) -> Self { Self(v.c.iter().map(|v| <bool>::make(v)).collect()) }
	fn show(&self) -> Val { Val::list(self.0.iter().map(|x| x.show()).collect()) }
}

impl Model for T54 {
	fn arb(r: &mut Rng) -> Val { Val::list(vec![<bool>::arb(r), <T10>::arb(r), <()>::arb(r)]) }
	fn make(v: &Val) -> Self { Self(<bool>::make(&v.c[0]), <T10>::make(&v.c[1]), <()>::make(&v.c[2])) }
	fn show(&self) -> Val { Val::list(vec![self.0.show(), self.1.show(), self.2.show()]) }
}

impl Model for T55 {
	fn arb(r: &mut Rng) -> Val {
		match r.below(3) { 0 => variant("A0", <i64>::arb(r)), 1 => variant("Bar", <String>::arb(r)), 2 => variant("Baz", <i64>::arb(r)), _ => unreachable!() }
	}
	fn make(v: &Val) -> Self {
		match v.s.as_str() { "A0" => Self::A0(<i64>::make(&v.c[0])), "Bar" => Self::Bar(<String>::make(&v.c[0])), "Baz" => Self::Baz(<i64>::make(&v.c[0])), _ => unreachable!() }
	}
	fn show(&self) -> Val {
		match self { Self::A0(x) => variant("A0", x.show()), Self::Bar(x) => variant("Bar", x.show()), Self::Baz(x) => variant("Baz", x.show()), }
	}
}

impl Model for T56 {
	fn arb(r: &mut Rng) -> Val {
		let _ = &r;
		let mut m = Vec::new();
		m.push(("foo".to_string(), <T47>::arb(r)));
		if r.chance(60) { m.push(("bar".to_string(), <i64>::arb(r))); }
		Val::map(m)
	}
	fn make(v: &Val) -> Self {
		let _ = v;
		Self { foo: field(v, "foo").map(|v| <T47>::make(v)).unwrap(), bar: field(v, "bar").map(|v| <i64>::make(v)) }
	}
	fn show(&self) -> Val {
		let mut m = Vec::new();
		m.push(("foo".to_string(), self.foo.show()));
		if let Some(x) = &self.bar { m.push(("bar".to_string(), x.show())); }
		Val::map(m)
	}
}

impl Model for T57 {
	fn arb(r: &mut Rng) -> Val {
		match r.below(4) { 0 => variant("A0", <u16>::arb(r)), 1 => variant("Bar", <T49>::arb(r)), 2 => variant("Baz", <bool>::arb(r)), 3 => variant("Qux", <()>::arb(r)), _ => unreachable!() }
	}
	fn make(v: &Val) -> Self {
		match v.s.as_str() { "A0" => Self::A0(<u16>::make(&v.c[0])), "Bar" => Self::Bar(<T49>::make(&v.c[0])), "Baz" => Self::Baz(<bool>::make(&v.c[0])), "Qux" => Self::Qux(<()>::make(&v.c[0])), _ => unreachable!() }
	}
	fn show(&self) -> Val {
		match self { Self::A0(x) => variant("A0", x.show()), Self::Bar(x) => variant("Bar", x.show()), Self::Baz(x) => variant("Baz", x.show()), Self::Qux(x) => variant("Qux", x.show()), }
	}
}

impl Model for T58 {
	fn arb(r: &mut Rng) -> Val { let n = len(r); Val::list((0..n).map(|_| <T24>::arb(r)).collect()) }
	fn make(v: &Val) -> Self { Self(v.c.iter().map(|v| <T24>::make(v)).collect()) }
	fn show(&self) -> Val { Val::list(self.0.iter().map(|x| x.show()).collect()) }
}

impl Model for T59 {
	fn arb(r: &mut Rng) -> Val { let n = len(r); Val::list((0..n).map(|_| <T30>::arb(r)).collect()) }
	fn make(v: &Val) -> Self { Self(v.c.iter().map(|v| <T30>::make(v)).collect()) }
	fn show(&self) -> Val { Val::list(self.0.iter().map(|x| x.show()).collect()) }
}

impl Model for T60 {
	fn arb(r: &mut Rng) -> Val { Val::list(vec![<String>::arb(r), <T56>::arb(r)]) }
	fn make(v: &Val) -> Self { Self(<String>::make(&v.c[0]), <T56>::make(&v.c[1])) }
	fn show(&self) -> Val { Val::list(vec![self.0.show(), self.1.show()]) }
}

impl Model for T61 {
	fn arb(r: &mut Rng) -> Val {
		match r.below(1) { 0 => variant("Foo", <bool>::arb(r)), _ => unreachable!() }
	}
	fn make(v: &Val) -> Self {
		match v.s.as_str() { "Foo" => Self::Foo(<bool>::make(&v.c[0])), _ => unreachable!() }
	}
	fn show(&self) -> Val {
		match self { Self::Foo(x) => variant("Foo", x.show()), }
	}
}

impl Model for T62 {
	fn arb(r: &mut Rng) -> Val {
		let _ = &r;
		let mut m = Vec::new();
		if r.chance(60) { m.push(("foo".to_string(), <T53>::arb(r))); }
		m.push(("zz1".to_string(), <T7>::arb(r)));
		if r.chance(60) { m.push(("baz".to_string(), <T42>::arb(r))); }
		Val::map(m)
	}
	fn make(v: &Val) -> Self {
		let _ = v;
		Self { foo: field(v, "foo").map(|v| <T53>::make(v)), zz1: field(v, "zz1").map(|v| <T7>::make(v)).unwrap(), baz: field(v, "baz").map(|v| <T42>::make(v)) }
	}
	fn show(&self) -> Val {
		let mut m = Vec::new();
		if let Some(x) = &self.foo { m.push(("foo".to_string(), x.show())); }
		m.push(("zz1".to_string(), self.zz1.show()));
		if let Some(x) = &self.baz { m.push(("baz".to_string(), x.show())); }
		Val::map(m)
	}
}

impl Model for T63 {
	fn arb(r: &mut Rng) -> Val {
		match r.below(4) { 0 => variant("Foo", <String>::arb(r)), 1 => variant("Bar", <T43>::arb(r)), 2 => variant("Baz", <bool>::arb(r)), 3 => variant("Qux", <T37>::arb(r)), _ => unreachable!() }
	}
	fn make(v: &Val) -> Self {
		match v.s.as_str() { "Foo" => Self::Foo(<String>::make(&v.c[0])), "Bar" => Self::Bar(<T43>::make(&v.c[0])), "Baz" => Self::Baz(<bool>::make(&v.c[0])), "Qux" => Self::Qux(<T37>::make(&v.c[0])), _ => unreachable!() }
	}
	fn show(&self) -> Val {
		match self { Self::Foo(x) => variant("Foo", x.show()), Self::Bar(x) => variant("Bar", x.show()), Self::Baz(x) => variant("Baz", x.show()), Self::Qux(x) => variant("Qux", x.show()), }
	}
}

impl Model for T64 {
	fn arb(r: &mut Rng) -> Val { let n = len(r); Val::list((0..n).map(|_| <T45>::arb(r)).collect()) }
	fn make(v: &Val) -> Self { Self(v.c.iter().map(|v| <T45>::make(v)).collect()) }
	fn show(&self) -> Val { Val::list(self.0.iter().map(|x| x.show()).collect()) }
}

impl Model for T65 {
	fn arb(r: &mut Rng) -> Val { let n = len(r); Val::list((0..n).map(|_| <T62>::arb(r)).collect()) }
	fn make(v: &Val) -> Self { Self(v.c.iter().map(|v| <T62>::make(v)).collect()) }
	fn show(&self) -> Val { Val::list(self.0.iter().map(|x| x.show()).collect()) }
}

impl Model for T66 {
	fn arb(r: &mut Rng) -> Val { Val::list(vec![<T43>::arb(r)]) }
	fn make(v: &Val) -> Self { Self(<T43>::make(&v.c[0])) }
	fn show(&self) -> Val { Val::list(vec![self.0.show()]) }
}

impl Model for T67 {
	fn arb(r: &mut Rng) -> Val {
		let _ = &r;
		let mut m = Vec::new();
		if r.chance(60) { m.push(("foo".to_string(), <bool>::arb(r))); }
		m.push(("zz1".to_string(), <T53>::arb(r)));
		Val::map(m)
	}
	fn make(v: &Val) -> Self {
		let _ = v;
		Self { foo: field(v, "foo").map(|v| <bool>::make(v)), zz1: field(v, "zz1").map(|v| <T53>::make(v)).unwrap() }
	}
	fn show(&self) -> Val {
		let mut m = Vec::new();
		if let Some(x) = &self.foo { m.push(("foo".to_string(), x.show())); }
		m.push(("zz1".to_string(), self.zz1.show()));
		Val::map(m)
	}
}

impl Model for T68 {
	fn arb(r: &mut Rng) -> Val {
		match r.below(3) { 0 => variant("A0", <T53>::arb(r)), 1 => variant("Bar", <T1>::arb(r)), 2 => variant("Baz", <T54>::arb(r)), _ => unreachable!() }
	}
	fn make(v: &Val) -> Self {
		match v.s.as_str() { "A0" => Self::A0(<T53>::make(&v.c[0])), "Bar" => Self::Bar(<T1>::make(&v.c[0])), "Baz" => Self::Baz(<T54>::make(&v.c[0])), _ => unreachable!() }
	}
	fn show(&self) -> Val {
		match self { Self::A0(x) => variant("A0", x.show()), Self::Bar(x) => variant("Bar", x.show()), Self::Baz(x) => variant("Baz", x.show()), }
	}
}

impl Model for T69 {
	fn arb(r: &mut Rng) -> Val { let n = len(r); Val::list((0..n).map(|_| <T45>::arb(r)).collect()) }
	fn make(v: &Val) -> Self { Self(v.c.iter().map(|v| <T45>::make(v)).collect()) }
	fn show(&self) -> Val { Val::list(self.0.iter().map(|x| x.show()).collect()) }
}

impl Model for T70 {
	fn arb(r: &mut Rng) -> Val { let n = len(r); Val::list((0..n).map(|_| <T30>::arb(r)).collect()) }
	fn make(v: &Val) -> Self { Self(v.c.iter().map(|v| <T30>::make(v)).collect()) }
	fn show(&self) -> Val { Val::list(self.0.iter().map(|x| x.show()).collect()) }
}

impl Model for T71 {
	fn arb(r: &mut Rng) -> Val { Val::list(vec![<u16>::arb(r), <T20>::arb(r)]) }
	fn make(v: &Val) -> Self { Self(<u16>::make(&v.c[0]), <T20>::make(&v.c[1])) }
	fn show(&self) -> Val { Val::list(vec![self.0.show(), self.1.show()]) }
}

impl Model for T72 {
	fn arb(r: &mut Rng) -> Val {
		let _ = &r;
		let mut m = Vec::new();
		if r.chance(60) { m.push(("foo".to_string(), <String>::arb(r))); }
		Val::map(m)
	}
	fn make(v: &Val) -> Self {
		let _ = v;
		Self { foo: field(v, "foo").map(|v| <String>::make(v)) }
	}
	fn show(&self) -> Val {
		let mut m = Vec::new();
		if let Some(x) = &self.foo { m.push(("foo".to_string(), x.show())); }
		Val::map(m)
	}
}

impl Model for T73 {
	fn arb(r: &mut Rng) -> Val {
		let _ = &r;
		let mut m = Vec::new();
		m.push(("zz0".to_string(), <String>::arb(r)));
		m.push(("bar".to_string(), <String>::arb(r)));
		Val::map(m)
	}
	fn make(v: &Val) -> Self {
		let _ = v;
		Self { zz0: field(v, "zz0").map(|v| <String>::make(v)).unwrap(), bar: field(v, "bar").map(|v| <String>::make(v)).unwrap() }
	}
	fn show(&self) -> Val {
		let mut m = Vec::new();
		m.push(("zz0".to_string(), self.zz0.show()));
		m.push(("bar".to_string(), self.bar.show()));
		Val::map(m)
	}
}

impl Model for T74 {
	fn arb(r: &mut Rng) -> Val { let n = len(r); Val::list((0..n).map(|_| <String>::arb(r)).collect()) }
	fn make(v: &Val) -> Self { Self(v.c.iter().map(|v| <String>::make(v)).collect()) }
	fn show(&self) -> Val { Val::list(self.0.iter().map(|x| x.show()).collect()) }
}

impl Model for T75 {
	fn arb(r: &mut Rng) -> Val { let n = len(r); Val::list((0..n).map(|_| <String>::arb(r)).collect()) }
	fn make(v: &Val) -> Self { Self(v.c.iter().map(|v| <String>::make(v)).collect()) }
	fn show(&self) -> Val { Val::list(self.0.iter().map(|x| x.show()).collect()) }
}

impl Model for T76 {
	fn arb(r: &mut Rng) -> Val { let n = len(r); Val::list((0..n).map(|_| <T72>::arb(r)).collect()) }
	fn make(v: &Val) -> Self { Self(v.c.iter().map(|v| <T72>::make(v)).collect()) }
	fn show(&self) -> Val { Val::list(self.0.iter().map(|x| x.show()).collect()) }
}

impl Model for T77 {
	fn arb(r: &mut Rng) -> Val { Val::list(vec![<T72>::arb(r)]) }
	fn make(v: &Val) -> Self { Self(<T72>::make(&v.c[0])) }
	fn show(&self) -> Val { Val::list(vec![self.0.show()]) }
}

impl Model for T78 {
	fn arb(r: &mut Rng) -> Val {
		let _ = &r;
		let mut m = Vec::new();
		m.push(("foo".to_string(), <T72>::arb(r)));
		Val::map(m)
	}
	fn make(v: &Val) -> Self {
		let _ = v;
		Self { foo: field(v, "foo").map(|v| <T72>::make(v)).unwrap() }
	}
	fn show(&self) -> Val {
		let mut m = Vec::new();
		m.push(("foo".to_string(), self.foo.show()));
		Val::map(m)
	}
}

impl Model for T79 {
	fn arb(r: &mut Rng) -> Val { let n = len(r); Val::list((0..n).map(|_| <T72>::arb(r)).collect()) }
	fn make(v: &Val) -> Self { Self(v.c.iter().map(|v| <T72>::make(v)).collect()) }
	fn show(&self) -> Val { Val::list(self.0.iter().map(|x| x.show()).collect()) }
}

impl Model for T80 {
	fn arb(r: &mut Rng) -> Val {
		match r.below(4) { 0 => variant("Foo", <T72>::arb(r)), 1 => variant("A1", <T72>::arb(r)), 2 => variant("Baz", <T72>::arb(r)), 3 => variant("Qux", <T72>::arb(r)), _ => unreachable!() }
	}
	fn make(v: &Val) -> Self {
		match v.s.as_str() { "Foo" => Self::Foo(<T72>::make(&v.c[0])), "A1" => Self::A1(<T72>::make(&v.c[0])), "Baz" => Self::Baz(<T72>::make(&v.c[0])), "Qux" => Self::Qux(<T72>::make(&v.c[0])), _ => unreachable!() }
	}
	fn show(&self) -> Val {
		match self { Self::Foo(x) => variant("Foo", x.show()), Self::A1(x) => variant("A1", x.show()), Self::Baz(x) => variant("Baz", x.show()), Self::Qux(x) => variant("Qux", x.show()), }
	}
}

impl Model for T81 {
	fn arb(r: &mut Rng) -> Val { Val::list(vec![<T72>::arb(r)]) }
	fn make(v: &Val) -> Self { Self(<T72>::make(&v.c[0])) }
	fn show(&self) -> Val { Val::list(vec![self.0.show()]) }
}

impl Model for T82 {
	fn arb(r: &mut Rng) -> Val { let n = len(r); Val::list((0..n).map(|_| <T72>::arb(r)).collect()) }
	fn make(v: &Val) -> Self { Self(v.c.iter().map(|v| <T72>::make(v)).collect()) }
	fn show(&self) -> Val { Val::list(self.0.iter().map(|x| x.show()).collect()) }
}

impl Model for T83 {
	fn arb(r: &mut Rng) -> Val {
		let _ = &r;
		let mut m = Vec::new();
		m.push(("foo".to_string(), <T72>::arb(r)));
		Val::map(m)
	}
	fn make(v: &Val) -> Self {
		let _ = v;
		Self { foo: field(v, "foo").map(|v| <T72>::make(v)).unwrap() }
	}
	fn show(&self) -> Val {
		let mut m = Vec::new();
		m.push(("foo".to_string(), self.foo.show()));
		Val::map(m)
	}
}

impl Model for T84 {
	fn arb(r: &mut Rng) -> Val { let n = len(r); Val::list((0..n).map(|_| <T72>::arb(r)).collect()) }
	fn make(v: &Val) -> Self { Self(v.c.iter().map(|v| <T72>::make(v)).collect()) }
	fn show(&self) -> Val { Val::list(self.0.iter().map(|x| x.show()).collect()) }
}

impl Model for T85 {
	fn arb(r: &mut Rng) -> Val {
		match r.below(2) { 0 => variant("Foo", <T72>::arb(r)), 1 => variant("Bar", <T72>::arb(r)), _ => unreachable!() }
	}
	fn make(v: &Val) -> Self {
		match v.s.as_str() { "Foo" => Self::Foo(<T72>::make(&v.c[0])), "Bar" => Self::Bar(<T72>::make(&v.c[0])), _ => unreachable!() }
	}
	fn show(&self) -> Val {
		match self { Self::Foo(x) => variant("Foo", x.show()), Self::Bar(x) => variant("Bar", x.show()), }
	}
}

impl Model for T86 {
	fn arb(r: &mut Rng) -> Val {
		let _ = &r;
		let mut m = Vec::new();
		if r.chance(60) { m.push(("foo".to_string(), <T72>::arb(r))); }
		Val::map(m)
	}
	fn make(v: &Val) -> Self {
		let _ = v;
		Self { foo: field(v, "foo").map(|v| <T72>::make(v)) }
	}
	fn show(&self) -> Val {
		let mut m = Vec::new();
		if let Some(x) = &self.foo { m.push(("foo".to_string(), x.show())); }
		Val::map(m)
	}
}

impl Model for T87 {
	fn arb(r: &mut Rng) -> Val {
		match r.below(4) { 0 => variant("Foo", <T72>::arb(r)), 1 => variant("A1", <T72>::arb(r)), 2 => variant("A2", <T72>::arb(r)), 3 => variant("Qux", <T72>::arb(r)), _ => unreachable!() }
	}
	fn make(v: &Val) -> Self {
		match v.s.as_str() { "Foo" => Self::Foo(<T72>::make(&v.c[0])), "A1" => Self::A1(<T72>::make(&v.c[0])), "A2" => Self::A2(<T72>::make(&v.c[0])), "Qux" => Self::Qux(<T72>::make(&v.c[0])), _ => unreachable!() }
	}
	fn show(&self) -> Val {
		match self { Self::Foo(x) => variant("Foo", x.show()), Self::A1(x) => variant("A1", x.show()), Self::A2(x) => variant("A2", x.show()), Self::Qux(x) => variant("Qux", x.show()), }
	}
}

impl Model for T88 {
	fn arb(r: &mut Rng) -> Val { Val::list(vec![<T72>::arb(r), <T72>::arb(r), <T72>::arb(r)]) }
	fn make(v: &Val) -> Self { Self(<T72>::make(&v.c[0]), <T72>::make(&v.c[1]), <T72>::make(&v.c[2])) }
	fn show(&self) -> Val { Val::list(vec![self.0.show(), self.1.show(), self.2.show()]) }
}

impl Model for T89 {
	fn arb(r: &mut Rng) -> Val { let n = len(r); Val::list((0..n).map(|_| <T72>::arb(r)).collect()) }
	fn make(v: &Val) -> Self { Self(v.c.iter().map(|v| <T72>::make(v)).collect()) }
	fn show(&self) -> Val { Val::list(self.0.iter().map(|x| x.show()).collect()) }
}

impl Model for T90 {
	fn arb(r: &mut Rng) -> Val { let n = len(r); Val::list((0..n).map(|_| <T72>::arb(r)).collect()) }
	fn make(v: &Val) -> Self { Self(v.c.iter().map(|v| <T72>::make(v)).collect()) }
	fn show(&self) -> Val { Val::list(self.0.iter().map(|x| x.show()).collect()) }
}

impl Model for T91 {
	fn arb(r: &mut Rng) -> Val { let n = len(r); Val::list((0..n).map(|_| <T72>::arb(r)).collect()) }
	fn make(v: &Val) -> Self { Self(v.c.iter().map(|v| <T72>::make(v)).collect()) }
	fn show(&self) -> Val { Val::list(self.0.iter().map(|x| x.show()).collect()) }
}

impl Model for T92 {
	fn arb(r: &mut Rng) -> Val {
		match r.below(2) { 0 => variant("A0", <T72>::arb(r)), 1 => variant("Bar", <T72>::arb(r)), _ => unreachable!() }
	}
	fn make(v: &Val) -> Self {
		match v.s.as_str() { "A0" => Self::A0(<T72>::make(&v.c[0])), "Bar" => Self::Bar(<T72>::make(&v.c[0])), _ => unreachable!() }
	}
	fn show(&self) -> Val {
		match self { Self::A0(x) => variant("A0", x.show()), Self::Bar(x) => variant("Bar", x.show()), }
	}
}

impl Model for T93 {
	fn arb(r: &mut Rng) -> Val {
		let _ = &r;
		let mut m = Vec::new();
		if r.chance(60) { m.push(("foo".to_string(), <T72>::arb(r))); }
		Val::map(m)
	}
	fn make(v: &Val) -> Self {
		let _ = v;
		Self { foo: field(v, "foo").map(|v| <T72>::make(v)) }
	}
	fn show(&self) -> Val {
		let mut m = Vec::new();
		if let Some(x) = &self.foo { m.push(("foo".to_string(), x.show())); }
		Val::map(m)
	}
}

impl Model for T94 {
	fn arb(r: &mut Rng) -> Val { Val::list(vec![<T72>::arb(r), <T72>::arb(r)]) }
	fn make(v: &Val) -> Self { Self(<T72>::make(&v.c[0]), <T72>::make(&v.c[1])) }
	fn show(&self) -> Val { Val::list(vec![self.0.show(), self.1.show()]) }
}

impl Model for T95 {
	fn arb(r: &mut Rng) -> Val { let n = len(r); Val::list((0..n).map(|_| <T72>::arb(r)).collect()) }
	fn make(v: &Val) -> Self { Self(v.c.iter().map(|v| <T72>::make(v)).collect()) }
	fn show(&self) -> Val { Val::list(self.0.iter().map(|x| x.show()).collect()) }
}

impl Model for T96 {
	fn arb(r: &mut Rng) -> Val { let n = len(r); Val::list((0..n).map(|_| <T72>::arb(r)).collect()) }
	fn make(v: &Val) -> Self { Self(v.c.iter().map(|v| <T72>::make(v)).collect()) }
	fn show(&self) -> Val { Val::list(self.0.iter().map(|x| x.show()).collect()) }
}

impl Model for T97 {
	fn arb(r: &mut Rng) -> Val { let n = len(r); Val::list((0..n).map(|_| <T72>::arb(r)).collect()) }
	fn make(v: &Val) -> Self { Self(v.c.iter().map(|v| <T72>::make(v)).collect()) }
	fn show(&self) -> Val { Val::list(self.0.iter().map(|x| x.show()).collect()) }
}

impl Model for T98 {
	fn arb(r: &mut Rng) -> Val {
		let _ = &r;
		let mut m = Vec::new();
		if r.chance(60) { m.push(("foo".to_string(), <T72>::arb(r))); }
		Val::map(m)
	}
	fn make(v: &Val) -> Self {
		let _ = v;
		Self { foo: field(v, "foo").map(|v| <T72>::make(v)) }
	}
	fn show(&self) -> Val {
		let mut m = Vec::new();
		if let Some(x) = &self.foo { m.push(("foo".to_string(), x.show())); }
		Val::map(m)
	}
}

impl Model for T99 {
	fn arb(r: &mut Rng) -> Val { Val::list(vec![<T72>::arb(r)]) }
	fn make(v: &Val) -> Self { Self(<T72>::make(&v.c[0])) }
	fn show(&self) -> Val { Val::list(vec![self.0.show()]) }
}

impl Model for T100 {
	fn arb(r: &mut Rng) -> Val {
		match r.below(3) { 0 => variant("Foo", <T72>::arb(r)), 1 => variant("A1", <T72>::arb(r)), 2 => variant("Baz", <T72>::arb(r)), _ => unreachable!() }
	}
	fn make(v: &Val) -> Self {
		match v.s.as_str() { "Foo" => Self::Foo(<T72>::make(&v.c[0])), "A1" => Self::A1(<T72>::make(&v.c[0])), "Baz" => Self::Baz(<T72>::make(&v.c[0])), _ => unreachable!() }
	}
	fn show(&self) -> Val {
		match self { Self::Foo(x) => variant("Foo", x.show()), Self::A1(x) => variant("A1", x.show()), Self::Baz(x) => variant("Baz", x.show()), }
	}
}

impl Model for T101 {
	fn arb(r: &mut Rng) -> Val {
		match r.below(2) { 0 => variant("Foo", <T73>::arb(r)), 1 => variant("Bar", <T73>::arb(r)), _ => unreachable!() }
	}
	fn make(v: &Val) -> Self {
		match v.s.as_str() { "Foo" => Self::Foo(<T73>::make(&v.c[0])), "Bar" => Self::Bar(<T73>::make(&v.c[0])), _ => unreachable!() }
	}
	fn show(&self) -> Val {
		match self { Self::Foo(x) => variant("Foo", x.show()), Self::Bar(x) => variant("Bar", x.show()), }
	}
}

impl Model for T102 {
	fn arb(r: &mut Rng) -> Val { let n = len(r); Val::list((0..n).map(|_| <T73>::arb(r)).collect()) }
	fn make(v: &Val) -> Self { Self(v.c.iter().map(|v| <T73>::make(v)).collect()) }
	fn show(&self) -> Val { Val::list(self.0.iter().map(|x| x.show()).collect()) }
}

impl Model for T103 {
	fn arb(r: &mut Rng) -> Val { let n = len(r); Val::list((0..n).map(|_| <T73>::arb(r)).collect()) }
	fn make(v: &Val) -> Self { Self(v.c.iter().map(|v| <T73>::make(v)).collect()) }
	fn show(&self) -> Val { Val::list(self.0.iter().map(|x| x.show()).collect()) }
}

impl Model for T104 {
	fn arb(r: &mut Rng) -> Val { Val::list(vec![<T73>::arb(r)]) }
	fn make(v: &Val) -> Self { Self(<T73>::make(&v.c[0])) }
	fn show(&self) -> Val { Val::list(vec![self.0.show()]) }
}

impl Model for T105 {
	fn arb(r: &mut Rng) -> Val { Val::list(vec![<T73>::arb(r), <T73>::arb(r)]) }
	fn make(v: &Val) -> Self { Self(<T73>::make(&v.c[0]), <T73>::make(&v.c[1])) }
	fn show(&self) -> Val { Val::list(vec![self.0.show(), self.1.show()]) }
}

impl Model for T106 {
	fn arb(r: &mut Rng) -> Val { let n = len(r); Val::list((0..n).map(|_| <T73>::arb(r)).collect()) }
	fn make(v: &Val) -> Self { Self(v.c.iter().map(|v| <T73>::make(v)).collect()) }
	fn show(&self) -> Val { Val::list(self.0.iter().map(|x| x.show()).collect()) }
}

impl Model for T107 {
	fn arb(r: &mut Rng) -> Val {
		let _ = &r;
		let mut m = Vec::new();
		m.push(("foo".to_string(), <T73>::arb(r)));
		Val::map(m)
	}
	fn make(v: &Val) -> Self {
		let _ = v;
		Self { foo: field(v, "foo").map(|v| <T73>::make(v)).unwrap() }
	}
	fn show(&self) -> Val {
		let mut m = Vec::new();
		m.push(("foo".to_string(), self.foo.show()));
		Val::map(m)
	}
}

impl Model for T108 {
	fn arb(r: &mut Rng) -> Val {
		match r.below(2) { 0 => variant("Foo", <T73>::arb(r)), 1 => variant("Bar", <T73>::arb(r)), _ => unreachable!() }
	}
	fn make(v: &Val) -> Self {
		match v.s.as_str() { "Foo" => Self::Foo(<T73>::make(&v.c[0])), "Bar" => Self::Bar(<T73>::make(&v.c[0])), _ => unreachable!() }
	}
	fn show(&self) -> Val {
		match self { Self::Foo(x) => variant("Foo", x.show()), Self::Bar(x) => variant("Bar", x.show()), }
	}
}

impl Model for T109 {
	fn arb(r: &mut Rng) -> Val {
		let _ = &r;
		let mut m = Vec::new();
		m.push(("foo".to_string(), <T73>::arb(r)));
		Val::map(m)
	}
	fn make(v: &Val) -> Self {
		let _ = v;
		Self { foo: field(v, "foo").map(|v| <T73>::make(v)).unwrap() }
	}
	fn show(&self) -> Val {
		let mut m = Vec::new();
		m.push(("foo".to_string(), self.foo.show()));
		Val::map(m)
	}
}

impl Model for T110 {
	fn arb(r: &mut Rng) -> Val {
		match r.below(1) { 0 => variant("A0", <T73>::arb(r)), _ => unreachable!() }
	}
	fn make(v: &Val) -> Self {
		match v.s.as_str() { "A0" => Self::A0(<T73>::make(&v.c[0])), _ => unreachable!() }
	}
	fn show(&self) -> Val {
		match self { Self::A0(x) => variant("A0", x.show()), }
	}
}

impl Model for T111 {
	fn arb(r: &mut Rng) -> Val {
		let _ = &r;
		let mut m = Vec::new();
		m.push(("foo".to_string(), <T74>::arb(r)));
		Val::map(m)
	}
	fn make(v: &Val) -> Self {
		let _ = v;
		Self { foo: field(v, "foo").map(|v| <T74>::make(v)).unwrap() }
	}
	fn show(&self) -> Val {
		let mut m = Vec::new();
		m.push(("foo".to_string(), self.foo.show()));
		Val::map(m)
	}
}

impl Model for T112 {
	fn arb(r: &mut Rng) -> Val { let n = len(r); Val::list((0..n).map(|_| <T74>::arb(r)).collect()) }
	fn make(v: &Val) -> Self { Self(v.c.iter().map(|v| <T74>::make(v)).collect()) }
	fn show(&self) -> Val { Val::list(self.0.iter().map(|x| x.show()).collect()) }
}

impl Model for T113 {
	fn arb(r: &mut Rng) -> Val { let n = len(r); Val::list((0..n).map(|_| <T74>::arb(r)).collect()) }
	fn make(v: &Val) -> Self { Self(v.c.iter().map(|v| <T74>::make(v)).collect()) }
	fn show(&self) -> Val { Val::list(self.0.iter().map(|x| x.show()).collect()) }
}

impl Model for T114 {
	fn arb(r: &mut Rng) -> Val {
		match r.below(3) { 0 => variant("Foo", <T74>::arb(r)), 1 => variant("Bar", <T74>::arb(r)), 2 => variant("Baz", <T74>::arb(r)), _ => unreachable!() }
	}
	fn make(v: &Val) -> Self {
		match v.s.as_str() { "Foo" => Self::Foo(<T74>::make(&v.c[0])), "Bar" => Self::Bar(<T74>::make(&v.c[0])), "Baz" => Self::Baz(<T74>::make(&v.c[0])), _ => unreachable!() }
	}
	fn show(&self) -> Val {
		match self { Self::Foo(x) => variant("Foo", x.show()), Self::Bar(x) => variant("Bar", x.show()), Self::Baz(x) => variant("Baz", x.show()), }
	}
}

impl Model for T115 {
	fn arb(r: &mut Rng) -> Val { Val::list(vec![<T74>::arb(r)]) }
	fn make(v: &Val) -> Self { Self(<T74>::make(&v.c[0])) }
	fn show(&self) -> Val { Val::list(vec![self.0.show()]) }
}

impl Model for T116 {
	fn arb(r: &mut Rng) -> Val {
		let _ = &r;
		let mut m = Vec::new();
		m.push(("foo".to_string(), <T74>::arb(r)));
		Val::map(m)
	}
	fn make(v: &Val) -> Self {
		let _ = v;
		Self { foo: field(v, "foo").map(|v| <T74>::make(v)).unwrap() }
	}
	fn show(&self) -> Val {
		let mut m = Vec::new();
		m.push(("foo".to_string(), self.foo.show()));
		Val::map(m)
	}
}

impl Model for T117 {
	fn arb(r: &mut Rng) -> Val { Val::list(vec![<T74>::arb(r)]) }
	fn make(v: &Val) -> Self { Self(<T74>::make(&v.c[0])) }
	fn show(&self) -> Val { Val::list(vec![self.0.show()]) }
}

impl Model for T118 {
	fn arb(r: &mut Rng) -> Val { let n = len(r); Val::list((0..n).map(|_| <T74>::arb(r)).collect()) }
	fn make(v: &Val) -> Self { Self(v.c.iter().map(|v| <T74>::make(v)).collect()) }
	fn show(&self) -> Val { Val::list(self.0.iter().map(|x| x.show()).collect()) }
}

impl Model for T119 {
	fn arb(r: &mut Rng) -> Val { let n = len(r); Val::list((0..n).map(|_| <T74>::arb(r)).collect()) }
	fn make(v: &Val) -> Self { Self(v.c.iter().map(|v| <T74>::make(v)).collect()) }
	fn show(&self) -> Val { Val::list(self.0.iter().map(|x| x.show()).collect()) }
}

impl Model for T120 {
	fn arb(r: &mut Rng) -> Val { Val::list(vec![<T74>::arb(r), <T74>::arb(r)]) }
	fn make(v: &Val) -> Self { Self(<T74>::make(&v.c[0]), <T74>::make(&v.c[1])) }
	fn show(&self) -> Val { Val::list(vec![self.0.show(), self.1.show()]) }
}

impl Model for T121 {
	fn arb(r: &mut Rng) -> Val { let n = len(r); Val::list((0..n).map(|_| <T75>::arb(r)).collect()) }
	fn make(v: &Val) -> Self { Self(v.c.iter().map(|v| <T75>::make(v)).collect()) }
	fn show(&self) -> Val { Val::list(self.0.iter().map(|x| x.show()).collect()) }
}

impl Model for T122 {
	fn arb(r: &mut Rng) -> Val { Val::list(vec![<T75>::arb(r), <T75>::arb(r)]) }
	fn make(v: &Val) -> Self { Self(<T75>::make(&v.c[0]), <T75>::make(&v.c[1])) }
	fn show(&self) -> Val { Val::list(vec![self.0.show(), self.1.show()]) }
}

impl Model for T123 {
	fn arb(r: &mut Rng) -> Val { Val::list(vec![<T75>::arb(r)]) }
	fn make(v: &Val) -> Self { Self(<T75>::make(&v.c[0])) }
	fn show(&self) -> Val { Val::list(vec![self.0.show()]) }
}

impl Model for T124 {
	fn arb(r: &mut Rng) -> Val {
		match r.below(2) { 0 => variant("Foo", <T75>::arb(r)), 1 => variant("Bar", <T75>::arb(r)), _ => unreachable!() }
	}
	fn make(v: &Val) -> Self {
		match v.s.as_str() { "Foo" => Self::Foo(<T75>::make(&v.c[0])), "Bar" => Self::Bar(<T75>::make(&v.c[0])), _ => unreachable!() }
	}
	fn show(&self) -> Val {
		match self { Self::Foo(x) => variant("Foo", x.show()), Self::Bar(x) => variant("Bar", x.show()), }
	}
}

impl Model for T125 {
	fn arb(r: &mut Rng) -> Val { let n = len(r); Val::list((0..n).map(|_| <T75>::arb(r)).collect()) }
	fn make(v: &Val) -> Self { Self(v.c.iter().map(|v| <T75>::make(v)).collect()) }
	fn show(&self) -> Val { Val::list(self.0.iter().map(|x| x.show()).collect()) }
}

impl Model for T126 {
	fn arb(r: &mut Rng) -> Val {
		let _ = &r;
		let mut m = Vec::new();
		m.push(("foo".to_string(), <T75>::arb(r)));
		Val::map(m)
	}
	fn make(v: &Val) -> Self {
		let _ = v;
		Self { foo: field(v, "foo").map(|v| <T75>::make(v)).unwrap() }
	}
	fn show(&self) -> Val {
		let mut m = Vec::new();
		m.push(("foo".to_string(), self.foo.show()));
		Val::map(m)
	}
}

impl Model for T127 {
	fn arb(r: &mut Rng) -> Val { Val::list(vec![<T75>::arb(r)]) }
	fn make(v: &Val) -> Self { Self(<T75>::make(&v.c[0])) }
	fn show(&self) -> Val { Val::list(vec![self.0.show()]) }
}

impl Model for T128 {
	fn arb(r: &mut Rng) -> Val {
		let _ = &r;
		let mut m = Vec::new();
		if r.chance(60) { m.push(("zz0".to_string(), <T75>::arb(r))); }
		Val::map(m)
	}
	fn make(v: &Val) -> Self {
		let _ = v;
		Self { zz0: field(v, "zz0").map(|v| <T75>::make(v)) }
	}
	fn show(&self) -> Val {
		let mut m = Vec::new();
		if let Some(x) = &self.zz0 { m.push(("zz0".to_string(), x.show())); }
		Val::map(m)
	}
}

impl Model for T129 {
	fn arb(r: &mut Rng) -> Val { let n = len(r); Val::list((0..n).map(|_| <T75>::arb(r)).collect()) }
	fn make(v: &Val) -> Self { Self(v.c.iter().map(|v| <T75>::make(v)).collect()) }
	fn show(&self) -> Val { Val::list(self.0.iter().map(|x| x.show()).collect()) }
}

impl Model for T130 {
	fn arb(r: &mut Rng) -> Val { Val::list(vec![<T75>::arb(r), <T75>::arb(r)]) }
	fn make(v: &Val) -> Self { Self(<T75>::make(&v.c[0]), <T75>::make(&v.c[1])) }
	fn show(&self) -> Val { Val::list(vec![self.0.show(), self.1.show()]) }
}

impl Model for T131 {
	fn arb(r: &mut Rng) -> Val {
		let _ = &r;
		let mut m = Vec::new();
		if r.chance(60) { m.push(("foo".to_string(), <T127>::arb(r))); }
		m.push(("bar".to_string(), <T127>::arb(r)));
		Val::map(m)
	}
	fn make(v: &Val) -> Self {
		let _ = v;
		Self { foo: field(v, "foo").map(|v| <T127>::make(v)), bar: field(v, "bar").map(|v| <T127>::make(v)).unwrap() }
	}
	fn show(&self) -> Val {
		let mut m = Vec::new();
		if let Some(x) = &self.foo { m.push(("foo".to_string(), x.show())); }
		m.push(("bar".to_string(), self.bar.show()));
		Val::map(m)
	}
}

impl Model for T132 {
	fn arb(r: &mut Rng) -> Val {
		match r.below(3) { 0 => variant("Foo", <T112>::arb(r)), 1 => variant("Bar", <T112>::arb(r)), 2 => variant("Baz", <T112>::arb(r)), _ => unreachable!() }
	}
	fn make(v: &Val) -> Self {
		match v.s.as_str() { "Foo" => Self::Foo(<T112>::make(&v.c[0])), "Bar" => Self::Bar(<T112>::make(&v.c[0])), "Baz" => Self::Baz(<T112>::make(&v.c[0])), _ => unreachable!() }
	}
	fn show(&self) -> Val {
		match self { Self::Foo(x) => variant("Foo", x.show()), Self::Bar(x) => variant("Bar", x.show()), Self::Baz(x) => variant("Baz", x.show()), }
	}
}

impl Model for T133 {
	fn arb(r: &mut Rng) -> Val { let n = len(r); Val::list((0..n).map(|_| <T120>::arb(r)).collect()) }
	fn make(v: &Val) -> Self { Self(v.c.iter().map(|v| <T120>::make(v)).collect()) }
	fn show(&self) -> Val { Val::list(self.0.iter().map(|x| x.show()).collect()) }
}

impl Model for T134 {
	fn arb(r: &mut Rng) -> Val { let n = len(r); Val::list((0..n).map(|_| <T113>::arb(r)).collect()) }
	fn make(v: &Val) -> Self { Self(v.c.iter().map(|v| <T113>::make(v)).collect()) }
	fn show(&self) -> Val { Val::list(self.0.iter().map(|x| x.show()).collect()) }
}

impl Model for T135 {
	fn arb(r: &mut Rng) -> Val { Val::list(vec![<T125>::arb(r), <T125>::arb(r)]) }
	fn make(v: &Val) -> Self { Self(<T125>::make(&v.c[0]), <T125>::make(&v.c[1])) }
	fn show(&self) -> Val { Val::list(vec![self.0.show(), self.1.show()]) }
}

impl Model for T136 {
	fn arb(r: &mut Rng) -> Val {
		let _ = &r;
		let mut m = Vec::new();
		if r.chance(60) { m.push(("foo".to_string(), <T107>::arb(r))); }
		m.push(("bar".to_string(), <T107>::arb(r)));
		Val::map(m)
	}
	fn make(v: &Val) -> Self {
		let _ = v;
		Self { foo: field(v, "foo").map(|v| <T107>::make(v)), bar: field(v, "bar").map(|v| <T107>::make(v)).unwrap() }
	}
	fn show(&self) -> Val {
		let mut m = Vec::new();
		if let Some(x) = &self.foo { m.push(("foo".to_string(), x.show())); }
		m.push(("bar".to_string(), self.bar.show()));
		Val::map(m)
	}
}

impl Model for T137 {
	fn arb(r: &mut Rng) -> Val {
		match r.below(4) { 0 => variant("Foo", <T129>::arb(r)), 1 => variant("A1", <T129>::arb(r)), 2 => variant("Baz", <T129>::arb(r)), 3 => variant("Qux", <T129>::arb(r)), _ => unreachable!() }
	}
	fn make(v: &Val) -> Self {
		match v.s.as_str() { "Foo" => Self::Foo(<T129>::make(&v.c[0])), "A1" => Self::A1(<T129>::make(&v.c[0])), "Baz" => Self::Baz(<T129>::make(&v.c[0])), "Qux" => Self::Qux(<T129>::make(&v.c[0])), _ => unreachable!() }
	}
	fn show(&self) -> Val {
		match self { Self::Foo(x) => variant("Foo", x.show()), Self::A1(x) => variant("A1", x.show()), Self::Baz(x) => variant("Baz", x.show()), Self::Qux(x) => variant("Qux", x.show()), }
	}
}

impl Model for T138 {
	fn arb(r: &mut Rng) -> Val { let n = len(r); Val::list((0..n).map(|_| <T124>::arb(r)).collect()) }
	fn make(v: &Val) -> Self { Self(v.c.iter().map(|v| <T124>::make(v)).collect()) }
	fn show(&self) -> Val { Val::list(self.0.iter().map(|x| x.show()).collect()) }
}

impl Model for T139 {
	fn arb(r: &mut Rng) -> Val { let n = len(r); Val::list((0..n).map(|_| <T117>::arb(r)).collect()) }
	fn make(v: &Val) -> Self { Self(v.c.iter().map(|v| <T117>::make(v)).collect()) }
	fn show(&self) -> Val { Val::list(self.0.iter().map(|x| x.show()).collect()) }
}

impl Model for T140 {
	fn arb(r: &mut Rng) -> Val { Val::list(vec![<T111>::arb(r)]) }
	fn make(v: &Val) -> Self { Self(<T111>::make(&v.c[0])) }
	fn show(&self) -> Val { Val::list(vec![self.0.show()]) }
}

impl Model for T141 {
	fn arb(r: &mut Rng) -> Val {
		let _ = &r;
		let mut m = Vec::new();
		if r.chance(60) { m.push(("foo".to_string(), <T113>::arb(r))); }
		m.push(("zz1".to_string(), <T113>::arb(r)));
		Val::map(m)
	}
	fn make(v: &Val) -> Self {
		let _ = v;
		Self { foo: field(v, "foo").map(|v| <T113>::make(v)), zz1: field(v, "zz1").map(|v| <T113>::make(v)).unwrap() }
	}
	fn show(&self) -> Val {
		let mut m = Vec::new();
		if let Some(x) = &self.foo { m.push(("foo".to_string(), x.show())); }
		m.push(("zz1".to_string(), self.zz1.show()));
		Val::map(m)
	}
}

impl Model for T142 {
	fn arb(r: &mut Rng) -> Val {
		match r.below(2) { 0 => variant("Foo", <T115>::arb(r)), 1 => variant("Bar", <T115>::arb(r)), _ => unreachable!() }
	}
	fn make(v: &Val) -> Self {
		match v.s.as_str() { "Foo" => Self::Foo(<T115>::make(&v.c[0])), "Bar" => Self::Bar(<T115>::make(&v.c[0])), _ => unreachable!() }
	}
	fn show(&self) -> Val {
		match self { Self::Foo(x) => variant("Foo", x.show()), Self::Bar(x) => variant("Bar", x.show()), }
	}
}

impl Model for T143 {
	fn arb(r: &mut Rng) -> Val { let n = len(r); Val::list((0..n).map(|_| <T121>::arb(r)).collect()) }
	fn make(v: &Val) -> Self { Self(v.c.iter().map(|v| <T121>::make(v)).collect()) }
	fn show(&self) -> Val { Val::list(self.0.iter().map(|x| x.show()).collect()) }
}

impl Model for T144 {
	fn arb(r: &mut Rng) -> Val { let n = len(r); Val::list((0..n).map(|_| <T108>::arb(r)).collect()) }
	fn make(v: &Val) -> Self { Self(v.c.iter().map(|v| <T108>::make(v)).collect()) }
	fn show(&self) -> Val { Val::list(self.0.iter().map(|x| x.show()).collect()) }
}

impl Model for T145 {
	fn arb(r: &mut Rng) -> Val { Val::list(vec![<T127>::arb(r), <T127>::arb(r)]) }
	fn make(v: &Val) -> Self { Self(<T127>::make(&v.c[0]), <T127>::make(&v.c[1])) }
	fn show(&self) -> Val { Val::list(vec![self.0.show(), self.1.show()]) }
}

pub const LAYOUTS: &[(&str, &str)] = &[
	("String", r##"{"t": "string", "id": "urn:t:String"}"##),
	("i8", r##"{"t": "number", "id": "urn:t:i8", "datatype": "http://www.w3.org/2001/XMLSchema#byte"}"##),
	("u16", r##"{"t": "number", "id": "urn:t:u16", "datatype": "http://www.w3.org/2001/XMLSchema#unsignedShort"}"##),
	("i32", r##"{"t": "number", "id": "urn:t:i32", "datatype": "http://www.w3.org/2001/XMLSchema#int"}"##),
	("i64", r##"{"t": "number", "id": "urn:t:i64", "datatype": "http://www.w3.org/2001/XMLSchema#long"}"##),
	("u32", r##"{"t": "number", "id": "urn:t:u32", "datatype": "http://www.w3.org/2001/XMLSchema#unsignedInt"}"##),
	("u8", r##"{"t": "number", "id": "urn:t:u8", "datatype": "http://www.w3.org/2001/XMLSchema#unsignedByte"}"##),
	("i16", r##"{"t": "number", "id": "urn:t:i16", "datatype": "http://www.w3.org/2001/XMLSchema#short"}"##),
	("u64", r##"{"t": "number", "id": "urn:t:u64", "datatype": "http://www.w3.org/2001/XMLSchema#unsignedLong"}"##),
	("Id", r##"{"t": "id", "id": "urn:t:Id"}"##),
	("bool", r##"{"t": "boolean", "id": "urn:t:bool", "datatype": "http://www.w3.org/2001/XMLSchema#boolean"}"##),
	("Unit", r##"{"t": "unit", "id": "urn:t:Unit"}"##),
	("T0", r##"{"prefixes": [["e", "https://ex.org/"]], "t": "id", "id": "urn:t:T0"}"##),
	("T1", r##"{"prefixes": [["ex", "https://ex.org/"]], "base": "https://ex.org/", "intro": ["i"], "dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "ex:p0", "t": ""}, {"k": "var", "v": "i", "t": ""}, {"k": "var", "v": "self", "t": ""}]], "t": "unit", "id": "urn:t:T1"}"##),
	("T2", r##"{"prefixes": [["ex", "https://ex.org/"]], "base": "https://ex.org/", "intro": ["i", "j"], "dataset": [[{"k": "var", "v": "i", "t": ""}, {"k": "iri", "v": "https://ex.org/T2/p1", "t": ""}, {"k": "var", "v": "self", "t": ""}], [{"k": "var", "v": "i", "t": ""}, {"k": "iri", "v": "p2", "t": ""}, {"k": "var", "v": "j", "t": ""}]], "t": "boolean", "id": "urn:t:T2"}"##),
	("T3", r##"{"prefixes": [["ex", "https://ex.org/"]], "base": "https://ex.org/doc", "datatype": "http://www.w3.org/2001/XMLSchema#boolean", "t": "boolean", "id": "urn:t:T3"}"##),
	("T4", r##"{"prefixes": [["ex", "https://ex.org/a/"]], "base": "https://ex.org/doc", "input": ["x", "y"], "intro": ["i"], "dataset": [[{"k": "var", "v": "x", "t": ""}, {"k": "iri", "v": "T4/p1", "t": ""}, {"k": "var", "v": "i", "t": ""}]], "resource": {"k": "var", "v": "y", "t": ""}, "t": "string", "id": "urn:t:T4"}"##),
	("T5", r##"{"prefixes": [["ex", "https://ex.org/"]], "input": ["self"], "intro": ["i"], "dataset": [[{"k": "iri", "v": "ex:c1", "t": ""}, {"k": "iri", "v": "https://ex.org/T5/p1", "t": ""}, {"k": "var", "v": "i", "t": ""}], [{"k": "var", "v": "i", "t": ""}, {"k": "iri", "v": "ex:T5/is", "t": ""}, {"k": "iri", "v": "ex:c1", "t": ""}]], "resource": {"k": "var", "v": "self", "t": ""}, "datatype": "ex:dt", "t": "string", "id": "urn:t:T5"}"##),
	("T6", r##"{"input": ["a"], "intro": ["i"], "dataset": [[{"k": "var", "v": "a", "t": ""}, {"k": "iri", "v": "https://ex.org/T6/p1", "t": ""}, {"k": "var", "v": "i", "t": ""}]], "prefixes": [["xsd", "http://www.w3.org/2001/XMLSchema#"]], "datatype": "xsd:long", "t": "number", "id": "urn:t:T6"}"##),
	("T7", r##"{"prefixes": [["ex", "https://ex.org/"]], "input": ["self", "other"], "datatype": "http://www.w3.org/2001/XMLSchema#unsignedInt", "t": "number", "id": "urn:t:T7"}"##),
	("T8", r##"{"prefixes": [["ex", "https://ex.org/"]], "input": ["a"], "intro": ["i", "j"], "dataset": [[{"k": "var", "v": "a", "t": ""}, {"k": "iri", "v": "ex:T8/p1", "t": ""}, {"k": "var", "v": "i", "t": ""}], [{"k": "var", "v": "j", "t": ""}, {"k": "iri", "v": "ex:T8/p2", "t": ""}, {"k": "var", "v": "a", "t": ""}]], "datatype": "http://www.w3.org/2001/XMLSchema#int", "t": "number", "id": "urn:t:T8"}"##),
	("T9", r##"{"prefixes": [["ex", "https://ex.org/a/"]], "base": "https://ex.org/doc", "intro": ["i", "j"], "dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "T9/p1", "t": ""}, {"k": "var", "v": "i", "t": ""}, {"k": "var", "v": "self", "t": ""}], [{"k": "var", "v": "j", "t": ""}, {"k": "iri", "v": "p0", "t": ""}, {"k": "var", "v": "i", "t": ""}, {"k": "iri", "v": "g1", "t": ""}]], "t": "id", "id": "urn:t:T9"}"##),
	("T10", r##"{"prefixes": [["e", "https://ex.org/"]], "base": "https://ex.org/", "intro": ["value"], "dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "e:T10/p1", "t": ""}, {"k": "var", "v": "value", "t": ""}]], "t": "unit", "id": "urn:t:T10"}"##),
	("T11", r##"{"prefixes": [["ex", "https://ex.org/"]], "base": "https://ex.org/", "input": ["x", "y"], "intro": ["i", "j"], "dataset": [[{"k": "var", "v": "y", "t": ""}, {"k": "iri", "v": "ex:T11/p1", "t": ""}, {"k": "var", "v": "i", "t": ""}], [{"k": "var", "v": "j", "t": ""}, {"k": "iri", "v": "T11/p2", "t": ""}, {"k": "var", "v": "x", "t": ""}]], "t": "boolean", "id": "urn:t:T11"}"##),
	("T12", r##"{"prefixes": [["ex", "https://ex.org/a/"]], "input": ["other", "self"], "datatype": "http://www.w3.org/2001/XMLSchema#boolean", "t": "boolean", "id": "urn:t:T12"}"##),
	("T13", r##"{"prefixes": [["ex", "https://ex.org/"]], "intro": ["i", "j"], "dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "ex:T13/p1", "t": ""}, {"k": "var", "v": "i", "t": ""}], [{"k": "var", "v": "i", "t": ""}, {"k": "iri", "v": "ex:T13/p2", "t": ""}, {"k": "var", "v": "j", "t": ""}]], "t": "string", "id": "urn:t:T13"}"##),
	("T14", r##"{"base": "https://ex.org/", "input": ["a"], "datatype": "https://ex.org/dt", "t": "string", "id": "urn:t:T14"}"##),
	("T15", r##"{"intro": ["value"], "dataset": [[{"k": "var", "v": "value", "t": ""}, {"k": "iri", "v": "https://ex.org/T15/p1", "t": ""}, {"k": "var", "v": "self", "t": ""}]], "resource": {"k": "var", "v": "self", "t": ""}, "datatype": "http://www.w3.org/2001/XMLSchema#unsignedByte", "t": "number", "id": "urn:t:T15"}"##),
	("T16", r##"{"prefixes": [["ex", "https://ex.org/a/"]], "intro": ["i"], "dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "https://ex.org/T16/p1", "t": ""}, {"k": "var", "v": "i", "t": ""}]], "datatype": "http://www.w3.org/2001/XMLSchema#unsignedInt", "t": "number", "id": "urn:t:T16"}"##),
	("T17", r##"{"prefixes": [["ex", "https://ex.org/"]], "base": "https://ex.org/doc", "datatype": "http://www.w3.org/2001/XMLSchema#byte", "t": "number", "id": "urn:t:T17"}"##),
	("T18", r##"{"base": "https://ex.org/", "input": ["x", "y"], "fields": [{"dataset": [[{"k": "var", "v": "x", "t": ""}, {"k": "iri", "v": "T18/p1", "t": ""}, {"k": "var", "v": "value", "t": ""}, {"k": "iri", "v": "g0", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T6"}}, "name": "foo", "required": true}, {"property": {"k": "iri", "v": "T18/p2", "t": ""}, "value": {"layout": {"k": "ref", "v": "urn:t:T6"}, "graph": {"k": "none", "v": "", "t": ""}}, "name": "bar", "required": false}], "t": "record", "id": "urn:t:T18"}"##),
	("T19", r##"{"prefixes": [["ex", "https://ex.org/a/"]], "base": "https://ex.org/", "input": ["x", "y"], "intro": ["i"], "dataset": [[{"k": "var", "v": "i", "t": ""}, {"k": "iri", "v": "T19/p1", "t": ""}, {"k": "var", "v": "x", "t": ""}]], "variants": [{"value": {"layout": {"k": "ref", "v": "urn:t:i64"}, "input": [{"k": "var", "v": "x", "t": ""}]}, "name": "A2"}, {"value": {"layout": {"k": "ref", "v": "urn:t:String"}, "input": [{"k": "var", "v": "i", "t": ""}]}, "name": "A3"}, {"intro": ["v", "w"], "dataset": [[{"k": "iri", "v": "c0", "t": ""}, {"k": "iri", "v": "p0", "t": ""}, {"k": "var", "v": "v", "t": ""}], [{"k": "var", "v": "v", "t": ""}, {"k": "iri", "v": "T19/p3", "t": ""}, {"k": "var", "v": "w", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:Unit"}, "input": [{"k": "var", "v": "v", "t": ""}]}, "name": "Bar"}, {"value": {"layout": {"k": "ref", "v": "urn:t:i64"}, "input": [{"k": "var", "v": "i", "t": ""}]}, "name": "Foo"}], "t": "sum", "id": "urn:t:T19"}"##),
	("T20", r##"{"base": "https://ex.org/", "intro": ["i", "j"], "dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "T20/p1", "t": ""}, {"k": "var", "v": "i", "t": ""}, {"k": "iri", "v": "g0", "t": ""}], [{"k": "iri", "v": "https://ex.org/c1", "t": ""}, {"k": "iri", "v": "T20/p2", "t": ""}, {"k": "var", "v": "j", "t": ""}]], "item": {"intro": ["v", "w"], "dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "T20/p3", "t": ""}, {"k": "var", "v": "v", "t": ""}], [{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "T20/p4", "t": ""}, {"k": "var", "v": "w", "t": ""}], [{"k": "var", "v": "v", "t": ""}, {"k": "iri", "v": "T20/is", "t": ""}, {"k": "iri", "v": "https://ex.org/c1", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T19"}, "input": [{"k": "var", "v": "v", "t": ""}, {"k": "var", "v": "self", "t": ""}]}}, "t": "set", "id": "urn:t:T20"}"##),
	("T21", r##"{"prefixes": [["e", "https://ex.org/"]], "base": "https://ex.org/", "intro": ["i", "j"], "dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "e:T21/p1", "t": ""}, {"k": "var", "v": "i", "t": ""}], [{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "e:T21/p2", "t": ""}, {"k": "var", "v": "j", "t": ""}, {"k": "var", "v": "self", "t": ""}]], "tail": {"k": "iri", "v": "e:nil", "t": ""}, "node": {"value": {"layout": {"k": "ref", "v": "urn:t:i32"}, "graph": {"k": "iri", "v": "e:g1", "t": ""}}}, "t": "list", "id": "urn:t:T21"}"##),
	("T22", r##"{"prefixes": [["e", "https://ex.org/"]], "base": "https://ex.org/", "input": ["self", "other"], "items": [{"property": {"k": "iri", "v": "https://ex.org/T22/p1", "t": ""}, "value": {"layout": {"k": "ref", "v": "urn:t:T20"}}}, {"intro": ["self"], "dataset": [[{"k": "var", "v": "other", "t": ""}, {"k": "iri", "v": "e:T22/p2", "t": ""}, {"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "e:g0", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:Id"}, "input": [{"k": "var", "v": "self", "t": ""}], "graph": {"k": "none", "v": "", "t": ""}}}], "t": "tuple", "id": "urn:t:T22"}"##),
	("T23", r##"{"prefixes": [["ex", "https://ex.org/a/"]], "items": [{"intro": ["v"], "dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "https://ex.org/T23/p1", "t": ""}, {"k": "var", "v": "v", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T14"}, "input": [{"k": "var", "v": "v", "t": ""}]}}], "t": "tuple", "id": "urn:t:T23"}"##),
	("T24", r##"{"intro": ["i", "j"], "dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "https://ex.org/p0", "t": ""}, {"k": "var", "v": "i", "t": ""}], [{"k": "var", "v": "i", "t": ""}, {"k": "iri", "v": "https://ex.org/T24/p2", "t": ""}, {"k": "var", "v": "j", "t": ""}], [{"k": "var", "v": "j", "t": ""}, {"k": "iri", "v": "https://ex.org/T24/is", "t": ""}, {"k": "iri", "v": "https://ex.org/c0", "t": ""}]], "fields": [{"intro": ["value", "w"], "property": {"k": "iri", "v": "https://ex.org/T24/p3", "t": ""}, "dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "https://ex.org/T24/p4", "t": ""}, {"k": "var", "v": "w", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T3"}, "input": [{"k": "var", "v": "value", "t": ""}]}, "name": "foo", "required": false}, {"property": {"k": "iri", "v": "https://ex.org/T24/p5", "t": ""}, "value": {"layout": {"k": "ref", "v": "urn:t:i32"}}, "name": "bar", "required": true}], "t": "record", "id": "urn:t:T24"}"##),
	("T25", r##"{"prefixes": [["ex", "https://ex.org/"]], "variants": [{"intro": ["v", "w"], "dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "https://ex.org/T25/p1", "t": ""}, {"k": "var", "v": "v", "t": ""}, {"k": "var", "v": "self", "t": ""}], [{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "ex:T25/p2", "t": ""}, {"k": "var", "v": "w", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T23"}, "input": [{"k": "var", "v": "v", "t": ""}], "graph": {"k": "iri", "v": "ex:g0", "t": ""}}, "name": "A0"}, {"intro": ["v"], "dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "https://ex.org/T25/p3", "t": ""}, {"k": "var", "v": "v", "t": ""}, {"k": "iri", "v": "ex:g1", "t": ""}], [{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "https://ex.org/T25/is", "t": ""}, {"k": "iri", "v": "ex:c1", "t": ""}, {"k": "iri", "v": "https://ex.org/g1", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T12"}, "input": [{"k": "var", "v": "v", "t": ""}, {"k": "var", "v": "self", "t": ""}], "graph": {"k": "var", "v": "v", "t": ""}}, "name": "Bar"}, {"value": {"layout": {"k": "ref", "v": "urn:t:i64"}}, "name": "Baz"}, {"value": {"layout": {"k": "ref", "v": "urn:t:T13"}}, "name": "Qux"}], "t": "sum", "id": "urn:t:T25"}"##),
	("T26", r##"{"prefixes": [["ex", "https://ex.org/a/"]], "item": {"intro": ["self"], "dataset": [[{"k": "iri", "v": "https://ex.org/c1", "t": ""}, {"k": "iri", "v": "https://ex.org/T26/p1", "t": ""}, {"k": "var", "v": "self", "t": ""}], [{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "https://ex.org/T26/is", "t": ""}, {"k": "iri", "v": "https://ex.org/c0", "t": ""}, {"k": "iri", "v": "https://ex.org/g1", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:bool"}, "input": [{"k": "var", "v": "self", "t": ""}]}}, "t": "set", "id": "urn:t:T26"}"##),
	("T27", r##"{"prefixes": [["ex", "https://ex.org/"]], "intro": ["value"], "dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "ex:T27/p1", "t": ""}, {"k": "var", "v": "value", "t": ""}]], "tail": {"k": "iri", "v": "https://ex.org/nil", "t": ""}, "node": {"intro": ["v"], "dataset": [[{"k": "var", "v": "h", "t": ""}, {"k": "iri", "v": "ex:T27/p2", "t": ""}, {"k": "var", "v": "r", "t": ""}], [{"k": "var", "v": "h", "t": ""}, {"k": "iri", "v": "https://ex.org/T27/p3", "t": ""}, {"k": "var", "v": "v", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:Unit"}, "input": [{"k": "var", "v": "v", "t": ""}]}, "head": "h", "rest": "r"}, "t": "list", "id": "urn:t:T27"}"##),
	("T28", r##"{"prefixes": [["ex", "https://ex.org/a/"]], "input": ["self"], "intro": ["i", "j"], "dataset": [[{"k": "var", "v": "i", "t": ""}, {"k": "iri", "v": "https://ex.org/p1", "t": ""}, {"k": "var", "v": "self", "t": ""}], [{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "https://ex.org/T28/p2", "t": ""}, {"k": "var", "v": "j", "t": ""}]], "items": [{"property": {"k": "iri", "v": "https://ex.org/T28/p3", "t": ""}, "value": {"layout": {"k": "ref", "v": "urn:t:T13"}}}], "t": "tuple", "id": "urn:t:T28"}"##),
	("T29", r##"{"prefixes": [["e", "https://ex.org/"]], "base": "https://ex.org/", "fields": [], "t": "record", "id": "urn:t:T29"}"##),
	("T30", r##"{"prefixes": [["ex", "https://ex.org/"]], "intro": ["value"], "dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "ex:T30/p1", "t": ""}, {"k": "var", "v": "value", "t": ""}]], "variants": [{"intro": ["v"], "dataset": [[{"k": "iri", "v": "https://ex.org/c0", "t": ""}, {"k": "iri", "v": "https://ex.org/T30/p2", "t": ""}, {"k": "var", "v": "v", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T19"}, "input": [{"k": "var", "v": "v", "t": ""}, {"k": "var", "v": "v", "t": ""}]}, "name": "A1"}, {"value": {"layout": {"k": "ref", "v": "urn:t:T4"}, "input": [{"k": "var", "v": "self", "t": ""}, {"k": "var", "v": "value", "t": ""}], "graph": {"k": "iri", "v": "https://ex.org/g0", "t": ""}}, "name": "Foo"}], "t": "sum", "id": "urn:t:T30"}"##),
	("T31", r##"{"prefixes": [["ex", "https://ex.org/a/"]], "dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "https://ex.org/T31/is", "t": ""}, {"k": "iri", "v": "https://ex.org/c0", "t": ""}]], "item": {"intro": ["v"], "property": {"k": "iri", "v": "https://ex.org/T31/p1", "t": ""}, "value": {"layout": {"k": "ref", "v": "urn:t:String"}, "input": [{"k": "var", "v": "v", "t": ""}]}}, "t": "set", "id": "urn:t:T31"}"##),
	("T32", r##"{"prefixes": [["ex", "https://ex.org/a/"]], "base": "https://ex.org/", "input": ["other", "self"], "intro": ["i"], "dataset": [[{"k": "var", "v": "other", "t": ""}, {"k": "iri", "v": "https://ex.org/T32/p1", "t": ""}, {"k": "var", "v": "i", "t": ""}]], "head": {"k": "var", "v": "other", "t": ""}, "node": {"intro": ["v", "w"], "dataset": [[{"k": "var", "v": "head", "t": ""}, {"k": "iri", "v": "T32/p2", "t": ""}, {"k": "var", "v": "r", "t": ""}], [{"k": "var", "v": "head", "t": ""}, {"k": "iri", "v": "https://ex.org/p2", "t": ""}, {"k": "var", "v": "v", "t": ""}], [{"k": "var", "v": "head", "t": ""}, {"k": "iri", "v": "T32/p4", "t": ""}, {"k": "var", "v": "w", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:u16"}, "input": [{"k": "var", "v": "v", "t": ""}]}, "rest": "r"}, "t": "list", "id": "urn:t:T32"}"##),
	("T33", r##"{"prefixes": [["e", "https://ex.org/"]], "base": "https://ex.org/", "input": ["a"], "items": [{"intro": [], "value": {"layout": {"k": "ref", "v": "urn:t:T26"}, "input": [{"k": "var", "v": "a", "t": ""}], "graph": {"k": "none", "v": "", "t": ""}}}], "t": "tuple", "id": "urn:t:T33"}"##),
	("T34", r##"{"prefixes": [["ex", "https://ex.org/a/"]], "dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "https://ex.org/T34/is", "t": ""}, {"k": "iri", "v": "https://ex.org/c0", "t": ""}]], "fields": [{"intro": ["value"], "dataset": [[{"k": "iri", "v": "https://ex.org/c1", "t": ""}, {"k": "iri", "v": "https://ex.org/T34/p1", "t": ""}, {"k": "var", "v": "value", "t": ""}, {"k": "var", "v": "self", "t": ""}], [{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "https://ex.org/T34/is", "t": ""}, {"k": "iri", "v": "https://ex.org/c2", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T5"}, "input": [{"k": "var", "v": "value", "t": ""}]}, "name": "foo", "required": true}, {"property": {"k": "iri", "v": "https://ex.org/T34/p2", "t": ""}, "value": {"layout": {"k": "ref", "v": "urn:t:T30"}, "input": [{"k": "var", "v": "value", "t": ""}], "graph": {"k": "iri", "v": "https://ex.org/g0", "t": ""}}, "name": "bar", "required": false}, {"intro": ["v"], "property": {"k": "iri", "v": "https://ex.org/T34/p3", "t": ""}, "value": {"layout": {"k": "ref", "v": "urn:t:T31"}, "input": [{"k": "var", "v": "v", "t": ""}]}, "name": "zz2", "required": false}, {"property": {"k": "iri", "v": "https://ex.org/T34/p4", "t": ""}, "value": {"layout": {"k": "ref", "v": "urn:t:T28"}}, "name": "qux", "required": true}], "t": "record", "id": "urn:t:T34"}"##),
	("T35", r##"{"prefixes": [["ex", "https://ex.org/a/"]], "variants": [{"intro": ["v"], "dataset": [[{"k": "var", "v": "v", "t": ""}, {"k": "iri", "v": "https://ex.org/T35/p1", "t": ""}, {"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "https://ex.org/g1", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T11"}, "input": [{"k": "var", "v": "v", "t": ""}, {"k": "var", "v": "v", "t": ""}]}, "name": "A0"}], "t": "sum", "id": "urn:t:T35"}"##),
	("T36", r##"{"prefixes": [["e", "https://ex.org/"]], "intro": ["i", "j"], "dataset": [[{"k": "iri", "v": "e:c1", "t": ""}, {"k": "iri", "v": "e:T36/p1", "t": ""}, {"k": "var", "v": "i", "t": ""}], [{"k": "var", "v": "i", "t": ""}, {"k": "iri", "v": "e:p0", "t": ""}, {"k": "var", "v": "j", "t": ""}, {"k": "var", "v": "i", "t": ""}]], "item": {"property": {"k": "iri", "v": "https://ex.org/T36/p3", "t": ""}, "value": {"layout": {"k": "ref", "v": "urn:t:T21"}, "graph": {"k": "none", "v": "", "t": ""}}}, "t": "set", "id": "urn:t:T36"}"##),
	("T37", r##"{"base": "https://ex.org/doc", "node": {"value": {"layout": {"k": "ref", "v": "urn:t:Unit"}}}, "t": "list", "id": "urn:t:T37"}"##),
	("T38", r##"{"prefixes": [["ex", "https://ex.org/a/"]], "items": [{"intro": ["v"], "dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "https://ex.org/T38/p1", "t": ""}, {"k": "var", "v": "v", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:i32"}, "input": [{"k": "var", "v": "v", "t": ""}], "graph": {"k": "iri", "v": "https://ex.org/g1", "t": ""}}}, {"property": {"k": "iri", "v": "https://ex.org/T38/p2", "t": ""}, "value": {"layout": {"k": "ref", "v": "urn:t:T25"}}}], "t": "tuple", "id": "urn:t:T38"}"##),
	("T39", r##"{"prefixes": [["e", "https://ex.org/"]], "base": "https://ex.org/", "fields": [{"intro": ["v"], "dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "T39/p1", "t": ""}, {"k": "var", "v": "v", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:i8"}, "input": [{"k": "var", "v": "v", "t": ""}], "graph": {"k": "none", "v": "", "t": ""}}, "name": "foo", "required": true}, {"dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "e:T39/p2", "t": ""}, {"k": "var", "v": "value", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T36"}, "input": [{"k": "var", "v": "value", "t": ""}], "graph": {"k": "none", "v": "", "t": ""}}, "name": "zz1", "required": false}], "t": "record", "id": "urn:t:T39"}"##),
	("T40", r##"{"input": ["a"], "variants": [{"value": {"layout": {"k": "ref", "v": "urn:t:u16"}, "input": [{"k": "var", "v": "a", "t": ""}]}, "name": "A0"}, {"intro": ["v", "w"], "dataset": [[{"k": "var", "v": "v", "t": ""}, {"k": "iri", "v": "https://ex.org/T40/p1", "t": ""}, {"k": "var", "v": "a", "t": ""}, {"k": "var", "v": "a", "t": ""}], [{"k": "var", "v": "a", "t": ""}, {"k": "iri", "v": "https://ex.org/T40/p2", "t": ""}, {"k": "var", "v": "w", "t": ""}], [{"k": "var", "v": "v", "t": ""}, {"k": "iri", "v": "https://ex.org/T40/is", "t": ""}, {"k": "iri", "v": "https://ex.org/c1", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T32"}, "input": [{"k": "var", "v": "a", "t": ""}, {"k": "var", "v": "v", "t": ""}], "graph": {"k": "none", "v": "", "t": ""}}, "name": "Bar"}], "t": "sum", "id": "urn:t:T40"}"##),
	("T41", r##"{"prefixes": [["e", "https://ex.org/"]], "input": ["self"], "intro": ["i", "j"], "dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "e:T41/p1", "t": ""}, {"k": "var", "v": "i", "t": ""}, {"k": "iri", "v": "e:g0", "t": ""}], [{"k": "var", "v": "j", "t": ""}, {"k": "iri", "v": "e:T41/p2", "t": ""}, {"k": "var", "v": "self", "t": ""}]], "item": {"property": {"k": "iri", "v": "https://ex.org/T41/p3", "t": ""}, "value": {"layout": {"k": "ref", "v": "urn:t:String"}}}, "t": "set", "id": "urn:t:T41"}"##),
	("T42", r##"{"prefixes": [["ex", "https://ex.org/a/"]], "base": "https://ex.org/", "node": {"value": {"layout": {"k": "ref", "v": "urn:t:i8"}}, "rest": "other"}, "t": "list", "id": "urn:t:T42"}"##),
	("T43", r##"{"prefixes": [["e", "https://ex.org/"]], "base": "https://ex.org/doc", "intro": ["i"], "dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "e:T43/p1", "t": ""}, {"k": "var", "v": "i", "t": ""}, {"k": "iri", "v": "https://ex.org/g0", "t": ""}]], "items": [{"intro": ["self"], "dataset": [[{"k": "var", "v": "i", "t": ""}, {"k": "iri", "v": "e:T43/p2", "t": ""}, {"k": "var", "v": "self", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T28"}, "input": [{"k": "var", "v": "self", "t": ""}], "graph": {"k": "iri", "v": "e:g0", "t": ""}}}], "t": "tuple", "id": "urn:t:T43"}"##),
	("T44", r##"{"prefixes": [["ex", "https://ex.org/a/"]], "dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "https://ex.org/T44/is", "t": ""}, {"k": "iri", "v": "https://ex.org/c0", "t": ""}]], "fields": [{"dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "https://ex.org/T44/p1", "t": ""}, {"k": "var", "v": "value", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:Id"}}, "name": "foo", "required": true}, {"property": {"k": "iri", "v": "https://ex.org/T44/p2", "t": ""}, "value": {"layout": {"k": "ref", "v": "urn:t:T25"}, "graph": {"k": "iri", "v": "https://ex.org/g0", "t": ""}}, "name": "bar", "required": true}, {"intro": [], "value": {"layout": {"k": "ref", "v": "urn:t:i64"}, "input": [{"k": "var", "v": "self", "t": ""}]}, "name": "baz", "required": false}, {"property": {"k": "iri", "v": "https://ex.org/T44/p3", "t": ""}, "value": {"layout": {"k": "ref", "v": "urn:t:T35"}}, "name": "qux", "required": true}], "t": "record", "id": "urn:t:T44"}"##),
	("T45", r##"{"prefixes": [["e", "https://ex.org/"]], "base": "https://ex.org/doc", "variants": [{"value": {"layout": {"k": "ref", "v": "urn:t:T31"}, "graph": {"k": "iri", "v": "g1", "t": ""}}, "name": "Bar"}, {"dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "e:T45/p1", "t": ""}, {"k": "iri", "v": "https://ex.org/c0", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T29"}}, "name": "Foo"}], "t": "sum", "id": "urn:t:T45"}"##),
	("T46", r##"{"base": "https://ex.org/", "intro": ["i", "j"], "dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "T46/p1", "t": ""}, {"k": "var", "v": "i", "t": ""}, {"k": "iri", "v": "g0", "t": ""}], [{"k": "var", "v": "i", "t": ""}, {"k": "iri", "v": "T46/p2", "t": ""}, {"k": "var", "v": "j", "t": ""}]], "item": {"intro": [], "value": {"layout": {"k": "ref", "v": "urn:t:T36"}, "input": [{"k": "var", "v": "i", "t": ""}]}}, "t": "set", "id": "urn:t:T46"}"##),
	("T47", r##"{"prefixes": [["ex", "https://ex.org/"]], "base": "https://ex.org/", "input": ["self", "other"], "head": {"k": "var", "v": "self", "t": ""}, "tail": {"k": "iri", "v": "nil", "t": ""}, "node": {"value": {"layout": {"k": "ref", "v": "urn:t:i8"}}}, "t": "list", "id": "urn:t:T47"}"##),
	("T48", r##"{"prefixes": [["ex", "https://ex.org/"]], "base": "https://ex.org/doc", "items": [{"property": {"k": "iri", "v": "https://ex.org/T48/p1", "t": ""}, "value": {"layout": {"k": "ref", "v": "urn:t:Id"}, "graph": {"k": "var", "v": "self", "t": ""}}}], "t": "tuple", "id": "urn:t:T48"}"##),
	("T49", r##"{"prefixes": [["ex", "https://ex.org/a/"]], "base": "https://ex.org/doc", "fields": [{"property": {"k": "iri", "v": "https://ex.org/T49/p1", "t": ""}, "value": {"layout": {"k": "ref", "v": "urn:t:i8"}}, "name": "foo", "required": true}, {"intro": ["v", "w"], "property": {"k": "iri", "v": "https://ex.org/T49/p2", "t": ""}, "dataset": [[{"k": "var", "v": "v", "t": ""}, {"k": "iri", "v": "T49/p3", "t": ""}, {"k": "var", "v": "w", "t": ""}], [{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "T49/is", "t": ""}, {"k": "iri", "v": "https://ex.org/c0", "t": ""}, {"k": "iri", "v": "g0", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:i8"}, "input": [{"k": "var", "v": "v", "t": ""}], "graph": {"k": "var", "v": "self", "t": ""}}, "name": "bar", "required": false}, {"property": {"k": "iri", "v": "T49/p4", "t": ""}, "value": {"layout": {"k": "ref", "v": "urn:t:u16"}}, "name": "baz", "required": false}, {"intro": ["self"], "dataset": [[{"k": "iri", "v": "https://ex.org/c0", "t": ""}, {"k": "iri", "v": "https://ex.org/T49/p5", "t": ""}, {"k": "var", "v": "self", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T32"}, "input": [{"k": "var", "v": "self", "t": ""}, {"k": "var", "v": "self", "t": ""}]}, "name": "qux", "required": false}], "t": "record", "id": "urn:t:T49"}"##),
	("T50", r##"{"prefixes": [["ex", "https://ex.org/"]], "intro": ["value"], "dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "https://ex.org/T50/p1", "t": ""}, {"k": "var", "v": "value", "t": ""}]], "fields": [{"intro": [], "value": {"layout": {"k": "ref", "v": "urn:t:T49"}, "input": [{"k": "var", "v": "self", "t": ""}]}, "name": "zz0", "required": false}, {"intro": ["value", "w"], "dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "ex:T50/p2", "t": ""}, {"k": "var", "v": "value", "t": ""}], [{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "ex:T50/p3", "t": ""}, {"k": "var", "v": "w", "t": ""}], [{"k": "var", "v": "value", "t": ""}, {"k": "iri", "v": "ex:T50/is", "t": ""}, {"k": "iri", "v": "https://ex.org/c0", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T45"}, "input": [{"k": "var", "v": "value", "t": ""}], "graph": {"k": "none", "v": "", "t": ""}}, "name": "bar", "required": true}], "t": "record", "id": "urn:t:T50"}"##),
	("T51", r##"{"base": "https://ex.org/", "input": ["other", "self"], "variants": [{"value": {"layout": {"k": "ref", "v": "urn:t:T35"}, "graph": {"k": "iri", "v": "g1", "t": ""}}, "name": "Bar"}, {"intro": ["v", "w"], "dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "T51/p1", "t": ""}, {"k": "var", "v": "v", "t": ""}, {"k": "var", "v": "other", "t": ""}], [{"k": "iri", "v": "c0", "t": ""}, {"k": "iri", "v": "T51/p2", "t": ""}, {"k": "var", "v": "w", "t": ""}, {"k": "iri", "v": "g1", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T49"}, "input": [{"k": "var", "v": "v", "t": ""}], "graph": {"k": "iri", "v": "g0", "t": ""}}, "name": "Foo"}], "t": "sum", "id": "urn:t:T51"}"##),
	("T52", r##"{"prefixes": [["ex", "https://ex.org/"]], "base": "https://ex.org/", "input": ["other", "self"], "intro": ["i"], "dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "T52/p1", "t": ""}, {"k": "var", "v": "i", "t": ""}]], "item": {"property": {"k": "iri", "v": "T52/p2", "t": ""}, "value": {"layout": {"k": "ref", "v": "urn:t:Unit"}, "input": [{"k": "var", "v": "value", "t": ""}]}}, "t": "set", "id": "urn:t:T52"}"##),
	("T53", r##"{"prefixes": [["e", "https://ex.org/"]], "base": "https://ex.org/", "input": ["x", "y"], "head": {"k": "var", "v": "y", "t": ""}, "node": {"intro": ["v"], "dataset": [[{"k": "var", "v": "head", "t": ""}, {"k": "iri", "v": "https://ex.org/T53/p1", "t": ""}, {"k": "var", "v": "rest", "t": ""}], [{"k": "var", "v": "head", "t": ""}, {"k": "iri", "v": "https://ex.org/T53/p2", "t": ""}, {"k": "var", "v": "v", "t": ""}, {"k": "iri", "v": "e:g0", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:bool"}, "input": [{"k": "var", "v": "v", "t": ""}]}}, "t": "list", "id": "urn:t:T53"}"##),
	("T54", r##"{"prefixes": [["e", "https://ex.org/"]], "items": [{"property": {"k": "iri", "v": "e:T54/p1", "t": ""}, "value": {"layout": {"k": "ref", "v": "urn:t:bool"}}}, {"property": {"k": "iri", "v": "https://ex.org/T54/p2", "t": ""}, "value": {"layout": {"k": "ref", "v": "urn:t:T10"}, "graph": {"k": "var", "v": "self", "t": ""}}}, {"property": {"k": "iri", "v": "e:T54/p3", "t": ""}, "value": {"layout": {"k": "ref", "v": "urn:t:Unit"}}}], "t": "tuple", "id": "urn:t:T54"}"##),
	("T55", r##"{"base": "https://ex.org/doc", "variants": [{"intro": ["v", "w"], "dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "T55/p1", "t": ""}, {"k": "var", "v": "v", "t": ""}], [{"k": "var", "v": "v", "t": ""}, {"k": "iri", "v": "T55/p2", "t": ""}, {"k": "var", "v": "w", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:i64"}, "input": [{"k": "var", "v": "v", "t": ""}]}, "name": "A0"}, {"value": {"layout": {"k": "ref", "v": "urn:t:String"}}, "name": "Bar"}, {"dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "T55/p3", "t": ""}, {"k": "iri", "v": "c2", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:i64"}}, "name": "Baz"}], "t": "sum", "id": "urn:t:T55"}"##),
	("T56", r##"{"prefixes": [["ex", "https://ex.org/a/"]], "base": "https://ex.org/", "fields": [{"intro": ["value", "w"], "property": {"k": "iri", "v": "T56/p1", "t": ""}, "dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "https://ex.org/T56/p2", "t": ""}, {"k": "var", "v": "w", "t": ""}, {"k": "iri", "v": "g0", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T47"}, "input": [{"k": "var", "v": "self", "t": ""}, {"k": "var", "v": "value", "t": ""}]}, "name": "foo", "required": true}, {"intro": ["v"], "dataset": [[{"k": "var", "v": "v", "t": ""}, {"k": "iri", "v": "T56/p3", "t": ""}, {"k": "var", "v": "self", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:i64"}, "input": [{"k": "var", "v": "v", "t": ""}]}, "name": "bar", "required": false}], "t": "record", "id": "urn:t:T56"}"##),
	("T57", r##"{"input": ["a"], "variants": [{"intro": ["v", "w"], "dataset": [[{"k": "var", "v": "a", "t": ""}, {"k": "iri", "v": "https://ex.org/T57/p1", "t": ""}, {"k": "var", "v": "v", "t": ""}], [{"k": "var", "v": "w", "t": ""}, {"k": "iri", "v": "https://ex.org/T57/p2", "t": ""}, {"k": "var", "v": "a", "t": ""}, {"k": "iri", "v": "https://ex.org/g1", "t": ""}], [{"k": "var", "v": "a", "t": ""}, {"k": "iri", "v": "https://ex.org/T57/is", "t": ""}, {"k": "iri", "v": "https://ex.org/c1", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:u16"}, "input": [{"k": "var", "v": "v", "t": ""}], "graph": {"k": "iri", "v": "https://ex.org/g0", "t": ""}}, "name": "A0"}, {"intro": ["v", "w"], "dataset": [[{"k": "var", "v": "a", "t": ""}, {"k": "iri", "v": "https://ex.org/T57/p3", "t": ""}, {"k": "var", "v": "v", "t": ""}], [{"k": "var", "v": "a", "t": ""}, {"k": "iri", "v": "https://ex.org/T57/p4", "t": ""}, {"k": "var", "v": "w", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T49"}, "input": [{"k": "var", "v": "v", "t": ""}]}, "name": "Bar"}, {"value": {"layout": {"k": "ref", "v": "urn:t:bool"}, "input": [{"k": "var", "v": "a", "t": ""}]}, "name": "Baz"}, {"intro": ["v"], "dataset": [[{"k": "var", "v": "a", "t": ""}, {"k": "iri", "v": "https://ex.org/T57/p5", "t": ""}, {"k": "var", "v": "v", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:Unit"}, "input": [{"k": "var", "v": "v", "t": ""}]}, "name": "Qux"}], "t": "sum", "id": "urn:t:T57"}"##),
	("T58", r##"{"prefixes": [["e", "https://ex.org/"]], "base": "https://ex.org/", "input": ["self"], "intro": ["i"], "dataset": [[{"k": "var", "v": "i", "t": ""}, {"k": "iri", "v": "https://ex.org/T58/p1", "t": ""}, {"k": "var", "v": "self", "t": ""}]], "item": {"property": {"k": "iri", "v": "e:T58/p2", "t": ""}, "value": {"layout": {"k": "ref", "v": "urn:t:T24"}}}, "t": "set", "id": "urn:t:T58"}"##),
	("T59", r##"{"prefixes": [["ex", "https://ex.org/"]], "base": "https://ex.org/", "input": ["self"], "dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "T59/is", "t": ""}, {"k": "iri", "v": "c1", "t": ""}, {"k": "iri", "v": "ex:g0", "t": ""}]], "node": {"intro": ["v", "w"], "dataset": [[{"k": "var", "v": "head", "t": ""}, {"k": "iri", "v": "https://ex.org/T59/p1", "t": ""}, {"k": "var", "v": "rest", "t": ""}], [{"k": "var", "v": "head", "t": ""}, {"k": "iri", "v": "https://ex.org/T59/p2", "t": ""}, {"k": "var", "v": "v", "t": ""}], [{"k": "var", "v": "head", "t": ""}, {"k": "iri", "v": "T59/p3", "t": ""}, {"k": "var", "v": "w", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T30"}, "input": [{"k": "var", "v": "v", "t": ""}]}}, "t": "list", "id": "urn:t:T59"}"##),
	("T60", r##"{"items": [{"intro": ["value", "w"], "property": {"k": "iri", "v": "https://ex.org/T60/p1", "t": ""}, "dataset": [[{"k": "var", "v": "w", "t": ""}, {"k": "iri", "v": "https://ex.org/T60/p2", "t": ""}, {"k": "var", "v": "value", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:String"}, "input": [{"k": "var", "v": "value", "t": ""}], "graph": {"k": "var", "v": "value", "t": ""}}}, {"intro": ["value", "w"], "property": {"k": "iri", "v": "https://ex.org/T60/p3", "t": ""}, "dataset": [[{"k": "var", "v": "w", "t": ""}, {"k": "iri", "v": "https://ex.org/T60/p4", "t": ""}, {"k": "var", "v": "self", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T56"}, "input": [{"k": "var", "v": "value", "t": ""}]}}], "t": "tuple", "id": "urn:t:T60"}"##),
	("T61", r##"{"prefixes": [["ex", "https://ex.org/a/"]], "variants": [{"value": {"layout": {"k": "ref", "v": "urn:t:bool"}}, "name": "Foo"}], "t": "sum", "id": "urn:t:T61"}"##),
	("T62", r##"{"prefixes": [["e", "https://ex.org/"]], "input": ["x", "y"], "fields": [{"intro": ["self"], "property": {"k": "iri", "v": "e:T62/p1", "t": ""}, "value": {"layout": {"k": "ref", "v": "urn:t:T53"}, "input": [{"k": "var", "v": "x", "t": ""}, {"k": "var", "v": "self", "t": ""}]}, "name": "foo", "required": false}, {"dataset": [[{"k": "var", "v": "y", "t": ""}, {"k": "iri", "v": "e:T62/p2", "t": ""}, {"k": "var", "v": "value", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T7"}, "input": [{"k": "var", "v": "y", "t": ""}, {"k": "var", "v": "value", "t": ""}]}, "name": "zz1", "required": true}, {"property": {"k": "iri", "v": "e:T62/p3", "t": ""}, "value": {"layout": {"k": "ref", "v": "urn:t:T42"}, "graph": {"k": "var", "v": "y", "t": ""}}, "name": "baz", "required": false}], "t": "record", "id": "urn:t:T62"}"##),
	("T63", r##"{"prefixes": [["e", "https://ex.org/"]], "variants": [{"value": {"layout": {"k": "ref", "v": "urn:t:T43"}, "input": [{"k": "var", "v": "self", "t": ""}]}, "name": "Bar"}, {"value": {"layout": {"k": "ref", "v": "urn:t:bool"}, "input": [{"k": "var", "v": "self", "t": ""}], "graph": {"k": "none", "v": "", "t": ""}}, "name": "Baz"}, {"value": {"layout": {"k": "ref", "v": "urn:t:String"}, "input": [{"k": "var", "v": "self", "t": ""}], "graph": {"k": "iri", "v": "e:g1", "t": ""}}, "name": "Foo"}, {"value": {"layout": {"k": "ref", "v": "urn:t:T37"}}, "name": "Qux"}], "t": "sum", "id": "urn:t:T63"}"##),
	("T64", r##"{"prefixes": [["e", "https://ex.org/"]], "item": {"intro": ["v"], "property": {"k": "iri", "v": "e:T64/p1", "t": ""}, "dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "e:T64/is", "t": ""}, {"k": "iri", "v": "e:c0", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T45"}, "input": [{"k": "var", "v": "v", "t": ""}], "graph": {"k": "var", "v": "v", "t": ""}}}, "t": "set", "id": "urn:t:T64"}"##),
	("T65", r##"{"node": {"intro": ["v", "w"], "dataset": [[{"k": "var", "v": "head", "t": ""}, {"k": "iri", "v": "https://ex.org/T65/p1", "t": ""}, {"k": "var", "v": "rest", "t": ""}], [{"k": "var", "v": "head", "t": ""}, {"k": "iri", "v": "https://ex.org/T65/p2", "t": ""}, {"k": "var", "v": "v", "t": ""}], [{"k": "var", "v": "head", "t": ""}, {"k": "iri", "v": "https://ex.org/T65/p3", "t": ""}, {"k": "var", "v": "w", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T62"}, "input": [{"k": "var", "v": "v", "t": ""}, {"k": "var", "v": "w", "t": ""}], "graph": {"k": "none", "v": "", "t": ""}}}, "t": "list", "id": "urn:t:T65"}"##),
	("T66", r##"{"prefixes": [["e", "https://ex.org/"]], "base": "https://ex.org/doc", "input": ["self"], "items": [{"dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "https://ex.org/T66/p1", "t": ""}, {"k": "var", "v": "value", "t": ""}, {"k": "iri", "v": "e:g1", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T43"}}}], "t": "tuple", "id": "urn:t:T66"}"##),
	("T67", r##"{"prefixes": [["ex", "https://ex.org/"]], "intro": ["i"], "dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "ex:T67/p1", "t": ""}, {"k": "var", "v": "i", "t": ""}], [{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "ex:T67/is", "t": ""}, {"k": "iri", "v": "ex:c1", "t": ""}, {"k": "iri", "v": "ex:g0", "t": ""}]], "fields": [{"intro": ["value", "w"], "dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "ex:T67/p2", "t": ""}, {"k": "var", "v": "value", "t": ""}], [{"k": "var", "v": "value", "t": ""}, {"k": "iri", "v": "ex:T67/p3", "t": ""}, {"k": "var", "v": "w", "t": ""}], [{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "ex:T67/is", "t": ""}, {"k": "iri", "v": "https://ex.org/c2", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:bool"}, "input": [{"k": "var", "v": "value", "t": ""}]}, "name": "foo", "required": false}, {"intro": ["v"], "dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "https://ex.org/T67/p4", "t": ""}, {"k": "var", "v": "v", "t": ""}, {"k": "iri", "v": "ex:g0", "t": ""}], [{"k": "var", "v": "v", "t": ""}, {"k": "iri", "v": "ex:T67/is", "t": ""}, {"k": "iri", "v": "ex:c1", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T53"}, "input": [{"k": "var", "v": "self", "t": ""}, {"k": "var", "v": "v", "t": ""}], "graph": {"k": "var", "v": "i", "t": ""}}, "name": "zz1", "required": true}], "t": "record", "id": "urn:t:T67"}"##),
	("T68", r##"{"prefixes": [["e", "https://ex.org/"]], "base": "https://ex.org/doc", "input": ["x", "y"], "intro": ["i", "j"], "dataset": [[{"k": "var", "v": "x", "t": ""}, {"k": "iri", "v": "T68/p1", "t": ""}, {"k": "var", "v": "i", "t": ""}], [{"k": "var", "v": "j", "t": ""}, {"k": "iri", "v": "T68/p2", "t": ""}, {"k": "var", "v": "x", "t": ""}]], "variants": [{"intro": ["v", "w"], "dataset": [[{"k": "var", "v": "i", "t": ""}, {"k": "iri", "v": "e:T68/p3", "t": ""}, {"k": "var", "v": "v", "t": ""}], [{"k": "var", "v": "i", "t": ""}, {"k": "iri", "v": "e:T68/p4", "t": ""}, {"k": "var", "v": "w", "t": ""}, {"k": "var", "v": "v", "t": ""}], [{"k": "var", "v": "w", "t": ""}, {"k": "iri", "v": "T68/is", "t": ""}, {"k": "iri", "v": "e:c0", "t": ""}, {"k": "iri", "v": "g0", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T53"}, "input": [{"k": "var", "v": "v", "t": ""}, {"k": "var", "v": "w", "t": ""}]}, "name": "A0"}, {"value": {"layout": {"k": "ref", "v": "urn:t:T1"}, "input": [{"k": "var", "v": "j", "t": ""}]}, "name": "Bar"}, {"intro": ["v", "w"], "dataset": [[{"k": "var", "v": "j", "t": ""}, {"k": "iri", "v": "T68/p5", "t": ""}, {"k": "var", "v": "v", "t": ""}], [{"k": "var", "v": "i", "t": ""}, {"k": "iri", "v": "e:T68/p6", "t": ""}, {"k": "var", "v": "w", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T54"}, "input": [{"k": "var", "v": "v", "t": ""}], "graph": {"k": "iri", "v": "e:g0", "t": ""}}, "name": "Baz"}], "t": "sum", "id": "urn:t:T68"}"##),
	("T69", r##"{"item": {"property": {"k": "iri", "v": "https://ex.org/T69/p1", "t": ""}, "value": {"layout": {"k": "ref", "v": "urn:t:T45"}}}, "t": "set", "id": "urn:t:T69"}"##),
	("T70", r##"{"prefixes": [["ex", "https://ex.org/"]], "base": "https://ex.org/doc", "input": ["other", "self"], "intro": ["value"], "dataset": [[{"k": "iri", "v": "c0", "t": ""}, {"k": "iri", "v": "ex:T70/p1", "t": ""}, {"k": "var", "v": "value", "t": ""}]], "head": {"k": "var", "v": "self", "t": ""}, "node": {"dataset": [[{"k": "var", "v": "head", "t": ""}, {"k": "iri", "v": "ex:T70/p2", "t": ""}, {"k": "var", "v": "rest", "t": ""}], [{"k": "var", "v": "head", "t": ""}, {"k": "iri", "v": "https://ex.org/T70/p3", "t": ""}, {"k": "var", "v": "value", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T30"}, "input": [{"k": "var", "v": "value", "t": ""}]}}, "t": "list", "id": "urn:t:T70"}"##),
	("T71", r##"{"prefixes": [["ex", "https://ex.org/"]], "base": "https://ex.org/doc", "input": ["self", "other"], "dataset": [[{"k": "var", "v": "other", "t": ""}, {"k": "iri", "v": "ex:T71/is", "t": ""}, {"k": "iri", "v": "ex:c0", "t": ""}, {"k": "iri", "v": "ex:g1", "t": ""}]], "items": [{"intro": [], "value": {"layout": {"k": "ref", "v": "urn:t:u16"}, "input": [{"k": "var", "v": "other", "t": ""}]}}, {"dataset": [[{"k": "var", "v": "value", "t": ""}, {"k": "iri", "v": "T71/p1", "t": ""}, {"k": "var", "v": "other", "t": ""}], [{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "T71/is", "t": ""}, {"k": "iri", "v": "ex:c0", "t": ""}, {"k": "iri", "v": "g1", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T20"}, "input": [{"k": "var", "v": "value", "t": ""}], "graph": {"k": "var", "v": "self", "t": ""}}}], "t": "tuple", "id": "urn:t:T71"}"##),
	("T72", r##"{"prefixes": [["e", "https://ex.org/"]], "input": ["self"], "fields": [{"intro": ["value", "w"], "dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "e:T72/p1", "t": ""}, {"k": "var", "v": "value", "t": ""}, {"k": "var", "v": "self", "t": ""}], [{"k": "var", "v": "value", "t": ""}, {"k": "iri", "v": "e:T72/p2", "t": ""}, {"k": "var", "v": "w", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:String"}, "input": [{"k": "var", "v": "value", "t": ""}]}, "name": "foo", "required": false}], "t": "record", "id": "urn:t:T72"}"##),
	("T73", r##"{"prefixes": [["ex", "https://ex.org/"]], "intro": ["i", "j"], "dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "ex:T73/p1", "t": ""}, {"k": "var", "v": "i", "t": ""}], [{"k": "var", "v": "j", "t": ""}, {"k": "iri", "v": "ex:T73/p2", "t": ""}, {"k": "var", "v": "i", "t": ""}, {"k": "var", "v": "self", "t": ""}], [{"k": "var", "v": "j", "t": ""}, {"k": "iri", "v": "https://ex.org/T73/is", "t": ""}, {"k": "iri", "v": "https://ex.org/c2", "t": ""}]], "fields": [{"dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "ex:p0", "t": ""}, {"k": "var", "v": "value", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:String"}}, "name": "zz0", "required": true}, {"property": {"k": "iri", "v": "ex:T73/p4", "t": ""}, "value": {"layout": {"k": "ref", "v": "urn:t:String"}}, "name": "bar", "required": true}], "t": "record", "id": "urn:t:T73"}"##),
	("T74", r##"{"prefixes": [["ex", "https://ex.org/"]], "base": "https://ex.org/doc", "input": ["a"], "item": {"intro": ["value", "w"], "property": {"k": "iri", "v": "T74/p1", "t": ""}, "dataset": [[{"k": "var", "v": "w", "t": ""}, {"k": "iri", "v": "T74/p2", "t": ""}, {"k": "var", "v": "value", "t": ""}, {"k": "iri", "v": "https://ex.org/g0", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:String"}, "input": [{"k": "var", "v": "value", "t": ""}]}}, "t": "set", "id": "urn:t:T74"}"##),
	("T75", r##"{"base": "https://ex.org/doc", "intro": ["i"], "dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "T75/p1", "t": ""}, {"k": "var", "v": "i", "t": ""}, {"k": "var", "v": "self", "t": ""}]], "node": {"value": {"layout": {"k": "ref", "v": "urn:t:String"}}}, "t": "list", "id": "urn:t:T75"}"##),
	("T76", r##"{"prefixes": [["ex", "https://ex.org/"]], "head": {"k": "var", "v": "self", "t": ""}, "node": {"dataset": [[{"k": "var", "v": "head", "t": ""}, {"k": "iri", "v": "ex:T76/p1", "t": ""}, {"k": "var", "v": "rest", "t": ""}], [{"k": "var", "v": "head", "t": ""}, {"k": "iri", "v": "ex:T76/p2", "t": ""}, {"k": "var", "v": "value", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T72"}, "input": [{"k": "var", "v": "value", "t": ""}]}}, "t": "list", "id": "urn:t:T76"}"##),
	("T77", r##"{"prefixes": [["ex", "https://ex.org/a/"]], "input": ["a"], "items": [{"property": {"k": "iri", "v": "https://ex.org/T77/p1", "t": ""}, "value": {"layout": {"k": "ref", "v": "urn:t:T72"}}}], "t": "tuple", "id": "urn:t:T77"}"##),
	("T78", r##"{"intro": ["value"], "dataset": [[{"k": "var", "v": "value", "t": ""}, {"k": "iri", "v": "https://ex.org/T78/p1", "t": ""}, {"k": "var", "v": "self", "t": ""}]], "fields": [{"intro": ["self"], "property": {"k": "iri", "v": "https://ex.org/T78/p2", "t": ""}, "dataset": [[{"k": "var", "v": "value", "t": ""}, {"k": "iri", "v": "https://ex.org/T78/is", "t": ""}, {"k": "iri", "v": "https://ex.org/c2", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T72"}, "input": [{"k": "var", "v": "self", "t": ""}]}, "name": "foo", "required": true}], "t": "record", "id": "urn:t:T78"}"##),
	("T79", r##"{"prefixes": [["e", "https://ex.org/"]], "intro": ["i"], "dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "e:T79/p1", "t": ""}, {"k": "var", "v": "i", "t": ""}]], "item": {"property": {"k": "iri", "v": "e:T79/p2", "t": ""}, "value": {"layout": {"k": "ref", "v": "urn:t:T72"}}}, "t": "set", "id": "urn:t:T79"}"##),
	("T80", r##"{"prefixes": [["e", "https://ex.org/"]], "variants": [{"intro": ["v", "w"], "dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "https://ex.org/T80/p2", "t": ""}, {"k": "var", "v": "v", "t": ""}], [{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "https://ex.org/T80/p3", "t": ""}, {"k": "var", "v": "w", "t": ""}, {"k": "iri", "v": "e:g0", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T72"}, "input": [{"k": "var", "v": "v", "t": ""}]}, "name": "A1"}, {"dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "e:T80/p4", "t": ""}, {"k": "iri", "v": "e:c2", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T72"}}, "name": "Baz"}, {"intro": ["v"], "dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "e:T80/p1", "t": ""}, {"k": "var", "v": "v", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T72"}, "input": [{"k": "var", "v": "v", "t": ""}]}, "name": "Foo"}, {"intro": ["v"], "dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "e:T80/p5", "t": ""}, {"k": "var", "v": "v", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T72"}, "input": [{"k": "var", "v": "v", "t": ""}]}, "name": "Qux"}], "t": "sum", "id": "urn:t:T80"}"##),
	("T81", r##"{"prefixes": [["ex", "https://ex.org/a/"]], "intro": ["value"], "dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "https://ex.org/T81/p1", "t": ""}, {"k": "var", "v": "value", "t": ""}], [{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "https://ex.org/T81/is", "t": ""}, {"k": "iri", "v": "https://ex.org/c2", "t": ""}]], "items": [{"property": {"k": "iri", "v": "https://ex.org/T81/p2", "t": ""}, "value": {"layout": {"k": "ref", "v": "urn:t:T72"}}}], "t": "tuple", "id": "urn:t:T81"}"##),
	("T82", r##"{"prefixes": [["ex", "https://ex.org/a/"]], "base": "https://ex.org/doc", "intro": ["i", "j"], "dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "T82/p1", "t": ""}, {"k": "var", "v": "i", "t": ""}], [{"k": "var", "v": "i", "t": ""}, {"k": "iri", "v": "https://ex.org/T82/p2", "t": ""}, {"k": "var", "v": "j", "t": ""}]], "node": {"value": {"layout": {"k": "ref", "v": "urn:t:T72"}}, "head": "node"}, "t": "list", "id": "urn:t:T82"}"##),
	("T83", r##"{"prefixes": [["e", "https://ex.org/"]], "base": "https://ex.org/", "fields": [{"property": {"k": "iri", "v": "https://ex.org/T83/p1", "t": ""}, "value": {"layout": {"k": "ref", "v": "urn:t:T72"}}, "name": "foo", "required": true}], "t": "record", "id": "urn:t:T83"}"##),
	("T84", r##"{"item": {"property": {"k": "iri", "v": "https://ex.org/T84/p1", "t": ""}, "value": {"layout": {"k": "ref", "v": "urn:t:T72"}}}, "t": "set", "id": "urn:t:T84"}"##),
	("T85", r##"{"prefixes": [["e", "https://ex.org/"]], "base": "https://ex.org/doc", "input": ["self", "other"], "intro": ["value"], "dataset": [[{"k": "var", "v": "other", "t": ""}, {"k": "iri", "v": "e:T85/p1", "t": ""}, {"k": "var", "v": "value", "t": ""}], [{"k": "var", "v": "value", "t": ""}, {"k": "iri", "v": "e:T85/is", "t": ""}, {"k": "iri", "v": "e:c0", "t": ""}]], "variants": [{"value": {"layout": {"k": "ref", "v": "urn:t:T72"}}, "name": "Bar"}, {"intro": ["v"], "dataset": [[{"k": "var", "v": "v", "t": ""}, {"k": "iri", "v": "https://ex.org/T85/p2", "t": ""}, {"k": "var", "v": "self", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T72"}, "input": [{"k": "var", "v": "v", "t": ""}]}, "name": "Foo"}], "t": "sum", "id": "urn:t:T85"}"##),
	("T86", r##"{"prefixes": [["ex", "https://ex.org/"]], "base": "https://ex.org/doc", "intro": ["value"], "dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "ex:p1", "t": ""}, {"k": "var", "v": "value", "t": ""}]], "fields": [{"property": {"k": "iri", "v": "ex:T86/p2", "t": ""}, "value": {"layout": {"k": "ref", "v": "urn:t:T72"}, "graph": {"k": "none", "v": "", "t": ""}}, "name": "foo", "required": false}], "t": "record", "id": "urn:t:T86"}"##),
	("T87", r##"{"base": "https://ex.org/", "input": ["other", "self"], "variants": [{"intro": ["v"], "dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "T87/p2", "t": ""}, {"k": "var", "v": "v", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T72"}, "input": [{"k": "var", "v": "v", "t": ""}], "graph": {"k": "none", "v": "", "t": ""}}, "name": "A1"}, {"value": {"layout": {"k": "ref", "v": "urn:t:T72"}, "graph": {"k": "none", "v": "", "t": ""}}, "name": "A2"}, {"dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "p0", "t": ""}, {"k": "iri", "v": "c2", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T72"}, "graph": {"k": "none", "v": "", "t": ""}}, "name": "Foo"}, {"intro": ["v"], "dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "T87/p3", "t": ""}, {"k": "var", "v": "v", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T72"}, "input": [{"k": "var", "v": "v", "t": ""}], "graph": {"k": "none", "v": "", "t": ""}}, "name": "Qux"}], "t": "sum", "id": "urn:t:T87"}"##),
	("T88", r##"{"prefixes": [["ex", "https://ex.org/"]], "base": "https://ex.org/doc", "items": [{"intro": ["self"], "property": {"k": "iri", "v": "ex:T88/p1", "t": ""}, "value": {"layout": {"k": "ref", "v": "urn:t:T72"}, "input": [{"k": "var", "v": "self", "t": ""}], "graph": {"k": "none", "v": "", "t": ""}}}, {"property": {"k": "iri", "v": "https://ex.org/T88/p2", "t": ""}, "value": {"layout": {"k": "ref", "v": "urn:t:T72"}, "graph": {"k": "none", "v": "", "t": ""}}}, {"property": {"k": "iri", "v": "T88/p3", "t": ""}, "value": {"layout": {"k": "ref", "v": "urn:t:T72"}, "graph": {"k": "none", "v": "", "t": ""}}}], "t": "tuple", "id": "urn:t:T88"}"##),
	("T89", r##"{"prefixes": [["ex", "https://ex.org/"]], "input": ["self", "other"], "head": {"k": "var", "v": "other", "t": ""}, "tail": {"k": "iri", "v": "ex:nil", "t": ""}, "node": {"intro": ["v", "w"], "dataset": [[{"k": "var", "v": "head", "t": ""}, {"k": "iri", "v": "ex:T89/p1", "t": ""}, {"k": "var", "v": "rest", "t": ""}], [{"k": "var", "v": "head", "t": ""}, {"k": "iri", "v": "ex:T89/p2", "t": ""}, {"k": "var", "v": "v", "t": ""}], [{"k": "var", "v": "head", "t": ""}, {"k": "iri", "v": "ex:T89/p3", "t": ""}, {"k": "var", "v": "w", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T72"}, "input": [{"k": "var", "v": "v", "t": ""}], "graph": {"k": "none", "v": "", "t": ""}}}, "t": "list", "id": "urn:t:T89"}"##),
	("T90", r##"{"prefixes": [["ex", "https://ex.org/a/"]], "base": "https://ex.org/doc", "intro": ["value"], "dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "https://ex.org/T90/p1", "t": ""}, {"k": "var", "v": "value", "t": ""}]], "item": {"intro": [], "dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "https://ex.org/T90/p2", "t": ""}, {"k": "iri", "v": "https://ex.org/c2", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T72"}, "input": [{"k": "var", "v": "self", "t": ""}], "graph": {"k": "none", "v": "", "t": ""}}}, "t": "set", "id": "urn:t:T90"}"##),
	("T91", r##"{"prefixes": [["e", "https://ex.org/"]], "base": "https://ex.org/", "input": ["self", "other"], "dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "e:T91/is", "t": ""}, {"k": "iri", "v": "c1", "t": ""}]], "node": {"intro": ["v", "w"], "dataset": [[{"k": "var", "v": "head", "t": ""}, {"k": "iri", "v": "https://ex.org/p1", "t": ""}, {"k": "var", "v": "r", "t": ""}], [{"k": "var", "v": "head", "t": ""}, {"k": "iri", "v": "https://ex.org/T91/p2", "t": ""}, {"k": "var", "v": "v", "t": ""}], [{"k": "var", "v": "head", "t": ""}, {"k": "iri", "v": "e:T91/p3", "t": ""}, {"k": "var", "v": "w", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T72"}, "input": [{"k": "var", "v": "v", "t": ""}], "graph": {"k": "iri", "v": "e:g1", "t": ""}}, "rest": "r"}, "t": "list", "id": "urn:t:T91"}"##),
	("T92", r##"{"prefixes": [["ex", "https://ex.org/a/"]], "base": "https://ex.org/", "variants": [{"dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "T92/p1", "t": ""}, {"k": "iri", "v": "c1", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T72"}, "graph": {"k": "iri", "v": "g0", "t": ""}}, "name": "A0"}, {"intro": ["v", "w"], "dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "T92/p2", "t": ""}, {"k": "var", "v": "v", "t": ""}, {"k": "iri", "v": "https://ex.org/g1", "t": ""}], [{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "T92/p3", "t": ""}, {"k": "var", "v": "w", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T72"}, "input": [{"k": "var", "v": "v", "t": ""}], "graph": {"k": "iri", "v": "g0", "t": ""}}, "name": "Bar"}], "t": "sum", "id": "urn:t:T92"}"##),
	("T93", r##"{"base": "https://ex.org/doc", "fields": [{"dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "T93/p1", "t": ""}, {"k": "var", "v": "value", "t": ""}, {"k": "iri", "v": "https://ex.org/g1", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T72"}, "graph": {"k": "iri", "v": "https://ex.org/g0", "t": ""}}, "name": "foo", "required": false}], "t": "record", "id": "urn:t:T93"}"##),
	("T94", r##"{"prefixes": [["ex", "https://ex.org/"]], "base": "https://ex.org/doc", "input": ["other", "self"], "items": [{"dataset": [[{"k": "iri", "v": "ex:c0", "t": ""}, {"k": "iri", "v": "ex:T94/p1", "t": ""}, {"k": "var", "v": "value", "t": ""}], [{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "ex:T94/is", "t": ""}, {"k": "iri", "v": "ex:c2", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T72"}, "input": [{"k": "var", "v": "value", "t": ""}], "graph": {"k": "iri", "v": "g0", "t": ""}}}, {"property": {"k": "iri", "v": "https://ex.org/T94/p2", "t": ""}, "value": {"layout": {"k": "ref", "v": "urn:t:T72"}, "graph": {"k": "iri", "v": "ex:g0", "t": ""}}}], "t": "tuple", "id": "urn:t:T94"}"##),
	("T95", r##"{"prefixes": [["ex", "https://ex.org/a/"]], "base": "https://ex.org/doc", "input": ["other", "self"], "intro": ["value"], "dataset": [[{"k": "var", "v": "value", "t": ""}, {"k": "iri", "v": "T95/p1", "t": ""}, {"k": "var", "v": "self", "t": ""}, {"k": "var", "v": "self", "t": ""}], [{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "T95/is", "t": ""}, {"k": "iri", "v": "c0", "t": ""}]], "item": {"intro": ["v"], "dataset": [[{"k": "var", "v": "value", "t": ""}, {"k": "iri", "v": "T95/p2", "t": ""}, {"k": "var", "v": "v", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T72"}, "input": [{"k": "var", "v": "v", "t": ""}], "graph": {"k": "iri", "v": "https://ex.org/g1", "t": ""}}}, "t": "set", "id": "urn:t:T95"}"##),
	("T96", r##"{"prefixes": [["ex", "https://ex.org/a/"]], "head": {"k": "var", "v": "self", "t": ""}, "node": {"intro": ["v"], "dataset": [[{"k": "var", "v": "head", "t": ""}, {"k": "iri", "v": "https://ex.org/T96/p1", "t": ""}, {"k": "var", "v": "rest", "t": ""}], [{"k": "var", "v": "head", "t": ""}, {"k": "iri", "v": "https://ex.org/T96/p2", "t": ""}, {"k": "var", "v": "v", "t": ""}, {"k": "iri", "v": "https://ex.org/g0", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T72"}, "input": [{"k": "var", "v": "v", "t": ""}], "graph": {"k": "var", "v": "self", "t": ""}}}, "t": "list", "id": "urn:t:T96"}"##),
	("T97", r##"{"prefixes": [["ex", "https://ex.org/a/"]], "base": "https://ex.org/doc", "intro": ["i"], "dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "https://ex.org/T97/p1", "t": ""}, {"k": "var", "v": "i", "t": ""}]], "item": {"intro": [], "value": {"layout": {"k": "ref", "v": "urn:t:T72"}, "input": [{"k": "var", "v": "i", "t": ""}], "graph": {"k": "var", "v": "i", "t": ""}}}, "t": "set", "id": "urn:t:T97"}"##),
	("T98", r##"{"prefixes": [["ex", "https://ex.org/"]], "input": ["self", "other"], "fields": [{"dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "ex:p1", "t": ""}, {"k": "var", "v": "value", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T72"}, "graph": {"k": "var", "v": "other", "t": ""}}, "name": "foo", "required": false}], "t": "record", "id": "urn:t:T98"}"##),
	("T99", r##"{"prefixes": [["e", "https://ex.org/"]], "base": "https://ex.org/", "items": [{"intro": [], "dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "https://ex.org/T99/p1", "t": ""}, {"k": "iri", "v": "e:c0", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T72"}, "input": [{"k": "var", "v": "self", "t": ""}], "graph": {"k": "var", "v": "self", "t": ""}}}], "t": "tuple", "id": "urn:t:T99"}"##),
	("T100", r##"{"prefixes": [["ex", "https://ex.org/a/"]], "base": "https://ex.org/doc", "input": ["self"], "variants": [{"value": {"layout": {"k": "ref", "v": "urn:t:T72"}, "graph": {"k": "var", "v": "self", "t": ""}}, "name": "A1"}, {"intro": ["v"], "dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "T100/p1", "t": ""}, {"k": "var", "v": "v", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T72"}, "input": [{"k": "var", "v": "v", "t": ""}], "graph": {"k": "var", "v": "v", "t": ""}}, "name": "Baz"}, {"value": {"layout": {"k": "ref", "v": "urn:t:T72"}, "graph": {"k": "var", "v": "self", "t": ""}}, "name": "Foo"}], "t": "sum", "id": "urn:t:T100"}"##),
	("T101", r##"{"prefixes": [["ex", "https://ex.org/"]], "input": ["self"], "variants": [{"value": {"layout": {"k": "ref", "v": "urn:t:T73"}}, "name": "Bar"}, {"dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "ex:T101/p1", "t": ""}, {"k": "iri", "v": "ex:c1", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T73"}}, "name": "Foo"}], "t": "sum", "id": "urn:t:T101"}"##),
	("T102", r##"{"prefixes": [["e", "https://ex.org/"]], "base": "https://ex.org/doc", "intro": ["value"], "dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "e:T102/p1", "t": ""}, {"k": "var", "v": "value", "t": ""}, {"k": "iri", "v": "https://ex.org/g1", "t": ""}]], "item": {"dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "T102/p2", "t": ""}, {"k": "var", "v": "value", "t": ""}, {"k": "iri", "v": "g1", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T73"}}}, "t": "set", "id": "urn:t:T102"}"##),
	("T103", r##"{"prefixes": [["e", "https://ex.org/"]], "base": "https://ex.org/", "intro": ["value"], "dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "T103/p1", "t": ""}, {"k": "var", "v": "value", "t": ""}, {"k": "iri", "v": "g0", "t": ""}]], "item": {"intro": ["value", "w"], "dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "T103/p2", "t": ""}, {"k": "var", "v": "value", "t": ""}, {"k": "iri", "v": "g0", "t": ""}], [{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "https://ex.org/T103/p3", "t": ""}, {"k": "var", "v": "w", "t": ""}, {"k": "var", "v": "value", "t": ""}], [{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "e:T103/is", "t": ""}, {"k": "iri", "v": "c2", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T73"}, "input": [{"k": "var", "v": "value", "t": ""}]}}, "t": "set", "id": "urn:t:T103"}"##),
	("T104", r##"{"prefixes": [["ex", "https://ex.org/"]], "input": ["self", "other"], "dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "ex:T104/is", "t": ""}, {"k": "iri", "v": "ex:c0", "t": ""}]], "items": [{"intro": ["v", "w"], "dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "ex:T104/p1", "t": ""}, {"k": "var", "v": "v", "t": ""}], [{"k": "var", "v": "v", "t": ""}, {"k": "iri", "v": "ex:T104/p2", "t": ""}, {"k": "var", "v": "w", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T73"}, "input": [{"k": "var", "v": "v", "t": ""}]}}], "t": "tuple", "id": "urn:t:T104"}"##),
	("T105", r##"{"prefixes": [["e", "https://ex.org/"]], "base": "https://ex.org/", "intro": ["i", "j"], "dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "e:T105/p1", "t": ""}, {"k": "var", "v": "i", "t": ""}], [{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "https://ex.org/T105/p2", "t": ""}, {"k": "var", "v": "j", "t": ""}]], "items": [{"intro": [], "dataset": [[{"k": "var", "v": "j", "t": ""}, {"k": "iri", "v": "e:T105/p3", "t": ""}, {"k": "iri", "v": "e:c1", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T73"}, "input": [{"k": "var", "v": "self", "t": ""}], "graph": {"k": "none", "v": "", "t": ""}}}, {"intro": ["value", "w"], "property": {"k": "iri", "v": "e:T105/p4", "t": ""}, "dataset": [[{"k": "var", "v": "j", "t": ""}, {"k": "iri", "v": "e:T105/p5", "t": ""}, {"k": "var", "v": "w", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T73"}, "input": [{"k": "var", "v": "value", "t": ""}], "graph": {"k": "none", "v": "", "t": ""}}}], "t": "tuple", "id": "urn:t:T105"}"##),
	("T106", r##"{"prefixes": [["ex", "https://ex.org/a/"]], "base": "https://ex.org/", "input": ["self", "other"], "intro": ["i", "j"], "dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "T106/p1", "t": ""}, {"k": "var", "v": "i", "t": ""}], [{"k": "var", "v": "other", "t": ""}, {"k": "iri", "v": "https://ex.org/T106/p2", "t": ""}, {"k": "var", "v": "j", "t": ""}]], "item": {"intro": ["v", "w"], "dataset": [[{"k": "var", "v": "j", "t": ""}, {"k": "iri", "v": "T106/p3", "t": ""}, {"k": "var", "v": "v", "t": ""}], [{"k": "var", "v": "i", "t": ""}, {"k": "iri", "v": "https://ex.org/T106/p4", "t": ""}, {"k": "var", "v": "w", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T73"}, "input": [{"k": "var", "v": "v", "t": ""}], "graph": {"k": "none", "v": "", "t": ""}}}, "t": "set", "id": "urn:t:T106"}"##),
	("T107", r##"{"fields": [{"intro": ["self"], "property": {"k": "iri", "v": "https://ex.org/T107/p1", "t": ""}, "value": {"layout": {"k": "ref", "v": "urn:t:T73"}, "input": [{"k": "var", "v": "self", "t": ""}], "graph": {"k": "iri", "v": "https://ex.org/g0", "t": ""}}, "name": "foo", "required": true}], "t": "record", "id": "urn:t:T107"}"##),
	("T108", r##"{"prefixes": [["ex", "https://ex.org/a/"]], "variants": [{"dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "https://ex.org/T108/p2", "t": ""}, {"k": "iri", "v": "https://ex.org/c0", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T73"}, "graph": {"k": "iri", "v": "https://ex.org/g0", "t": ""}}, "name": "Bar"}, {"dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "https://ex.org/T108/p1", "t": ""}, {"k": "iri", "v": "https://ex.org/c0", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T73"}, "graph": {"k": "iri", "v": "https://ex.org/g0", "t": ""}}, "name": "Foo"}], "t": "sum", "id": "urn:t:T108"}"##),
	("T109", r##"{"prefixes": [["ex", "https://ex.org/a/"]], "base": "https://ex.org/doc", "fields": [{"dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "https://ex.org/T109/p1", "t": ""}, {"k": "var", "v": "value", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T73"}, "graph": {"k": "var", "v": "self", "t": ""}}, "name": "foo", "required": true}], "t": "record", "id": "urn:t:T109"}"##),
	("T110", r##"{"prefixes": [["e", "https://ex.org/"]], "base": "https://ex.org/doc", "input": ["a"], "intro": ["i", "j"], "dataset": [[{"k": "var", "v": "i", "t": ""}, {"k": "iri", "v": "T110/p1", "t": ""}, {"k": "var", "v": "a", "t": ""}, {"k": "var", "v": "a", "t": ""}], [{"k": "var", "v": "a", "t": ""}, {"k": "iri", "v": "e:T110/p2", "t": ""}, {"k": "var", "v": "j", "t": ""}, {"k": "var", "v": "a", "t": ""}]], "variants": [{"intro": ["v"], "dataset": [[{"k": "var", "v": "v", "t": ""}, {"k": "iri", "v": "https://ex.org/T110/p3", "t": ""}, {"k": "var", "v": "a", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T73"}, "input": [{"k": "var", "v": "v", "t": ""}], "graph": {"k": "var", "v": "v", "t": ""}}, "name": "A0"}], "t": "sum", "id": "urn:t:T110"}"##),
	("T111", r##"{"prefixes": [["e", "https://ex.org/"]], "input": ["a"], "intro": ["value"], "dataset": [[{"k": "var", "v": "value", "t": ""}, {"k": "iri", "v": "e:T111/p1", "t": ""}, {"k": "var", "v": "a", "t": ""}, {"k": "iri", "v": "e:g1", "t": ""}]], "fields": [{"property": {"k": "iri", "v": "e:T111/p2", "t": ""}, "value": {"layout": {"k": "ref", "v": "urn:t:T74"}}, "name": "foo", "required": true}], "t": "record", "id": "urn:t:T111"}"##),
	("T112", r##"{"base": "https://ex.org/doc", "input": ["self"], "item": {"property": {"k": "iri", "v": "T112/p1", "t": ""}, "value": {"layout": {"k": "ref", "v": "urn:t:T74"}}}, "t": "set", "id": "urn:t:T112"}"##),
	("T113", r##"{"input": ["self"], "intro": ["i"], "dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "https://ex.org/T113/p1", "t": ""}, {"k": "var", "v": "i", "t": ""}]], "item": {"intro": [], "value": {"layout": {"k": "ref", "v": "urn:t:T74"}, "input": [{"k": "var", "v": "self", "t": ""}]}}, "t": "set", "id": "urn:t:T113"}"##),
	("T114", r##"{"prefixes": [["e", "https://ex.org/"]], "input": ["x", "y"], "intro": ["i"], "dataset": [[{"k": "var", "v": "y", "t": ""}, {"k": "iri", "v": "e:T114/p1", "t": ""}, {"k": "var", "v": "i", "t": ""}], [{"k": "var", "v": "y", "t": ""}, {"k": "iri", "v": "e:T114/is", "t": ""}, {"k": "iri", "v": "https://ex.org/c2", "t": ""}]], "variants": [{"intro": ["v", "w"], "dataset": [[{"k": "var", "v": "y", "t": ""}, {"k": "iri", "v": "https://ex.org/T114/p4", "t": ""}, {"k": "var", "v": "v", "t": ""}], [{"k": "var", "v": "i", "t": ""}, {"k": "iri", "v": "e:p0", "t": ""}, {"k": "var", "v": "w", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T74"}, "input": [{"k": "var", "v": "v", "t": ""}]}, "name": "Bar"}, {"intro": ["v", "w"], "dataset": [[{"k": "var", "v": "v", "t": ""}, {"k": "iri", "v": "e:T114/p6", "t": ""}, {"k": "var", "v": "i", "t": ""}], [{"k": "var", "v": "x", "t": ""}, {"k": "iri", "v": "e:T114/p7", "t": ""}, {"k": "var", "v": "w", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T74"}, "input": [{"k": "var", "v": "v", "t": ""}]}, "name": "Baz"}, {"intro": ["v", "w"], "dataset": [[{"k": "var", "v": "y", "t": ""}, {"k": "iri", "v": "e:T114/p2", "t": ""}, {"k": "var", "v": "v", "t": ""}], [{"k": "var", "v": "i", "t": ""}, {"k": "iri", "v": "e:T114/p3", "t": ""}, {"k": "var", "v": "w", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T74"}, "input": [{"k": "var", "v": "v", "t": ""}]}, "name": "Foo"}], "t": "sum", "id": "urn:t:T114"}"##),
	("T115", r##"{"prefixes": [["e", "https://ex.org/"]], "input": ["self"], "items": [{"intro": [], "value": {"layout": {"k": "ref", "v": "urn:t:T74"}, "input": [{"k": "var", "v": "self", "t": ""}], "graph": {"k": "none", "v": "", "t": ""}}}], "t": "tuple", "id": "urn:t:T115"}"##),
	("T116", r##"{"intro": ["value"], "dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "https://ex.org/T116/p1", "t": ""}, {"k": "var", "v": "value", "t": ""}]], "fields": [{"intro": ["self"], "dataset": [[{"k": "var", "v": "value", "t": ""}, {"k": "iri", "v": "https://ex.org/T116/p2", "t": ""}, {"k": "var", "v": "self", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T74"}, "input": [{"k": "var", "v": "self", "t": ""}], "graph": {"k": "none", "v": "", "t": ""}}, "name": "foo", "required": true}], "t": "record", "id": "urn:t:T116"}"##),
	("T117", r##"{"prefixes": [["ex", "https://ex.org/"]], "base": "https://ex.org/doc", "input": ["self"], "intro": ["value"], "dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "T117/p1", "t": ""}, {"k": "var", "v": "value", "t": ""}]], "items": [{"intro": ["v", "w"], "property": {"k": "iri", "v": "T117/p2", "t": ""}, "dataset": [[{"k": "var", "v": "value", "t": ""}, {"k": "iri", "v": "ex:p1", "t": ""}, {"k": "var", "v": "w", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T74"}, "input": [{"k": "var", "v": "v", "t": ""}], "graph": {"k": "iri", "v": "ex:g1", "t": ""}}}], "t": "tuple", "id": "urn:t:T117"}"##),
	("T118", r##"{"prefixes": [["e", "https://ex.org/"]], "input": ["other", "self"], "item": {"intro": ["value", "w"], "dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "https://ex.org/T118/p1", "t": ""}, {"k": "var", "v": "value", "t": ""}], [{"k": "var", "v": "value", "t": ""}, {"k": "iri", "v": "https://ex.org/T118/p2", "t": ""}, {"k": "var", "v": "w", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T74"}, "input": [{"k": "var", "v": "value", "t": ""}], "graph": {"k": "iri", "v": "e:g0", "t": ""}}}, "t": "set", "id": "urn:t:T118"}"##),
	("T119", r##"{"base": "https://ex.org/", "input": ["other", "self"], "node": {"intro": ["v"], "dataset": [[{"k": "var", "v": "node", "t": ""}, {"k": "iri", "v": "T119/p1", "t": ""}, {"k": "var", "v": "rest", "t": ""}], [{"k": "var", "v": "node", "t": ""}, {"k": "iri", "v": "T119/p2", "t": ""}, {"k": "var", "v": "v", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T74"}, "input": [{"k": "var", "v": "v", "t": ""}], "graph": {"k": "var", "v": "other", "t": ""}}, "head": "node"}, "t": "list", "id": "urn:t:T119"}"##),
	("T120", r##"{"items": [{"intro": ["value", "w"], "property": {"k": "iri", "v": "https://ex.org/T120/p1", "t": ""}, "dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "https://ex.org/T120/p2", "t": ""}, {"k": "var", "v": "w", "t": ""}, {"k": "iri", "v": "https://ex.org/g0", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T74"}, "input": [{"k": "var", "v": "value", "t": ""}], "graph": {"k": "var", "v": "self", "t": ""}}}, {"intro": ["v", "w"], "dataset": [[{"k": "var", "v": "v", "t": ""}, {"k": "iri", "v": "https://ex.org/T120/p3", "t": ""}, {"k": "var", "v": "self", "t": ""}], [{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "https://ex.org/T120/p4", "t": ""}, {"k": "var", "v": "w", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T74"}, "input": [{"k": "var", "v": "v", "t": ""}], "graph": {"k": "var", "v": "w", "t": ""}}}], "t": "tuple", "id": "urn:t:T120"}"##),
	("T121", r##"{"input": ["x", "y"], "dataset": [[{"k": "var", "v": "y", "t": ""}, {"k": "iri", "v": "https://ex.org/T121/is", "t": ""}, {"k": "iri", "v": "https://ex.org/c1", "t": ""}]], "head": {"k": "var", "v": "x", "t": ""}, "node": {"intro": ["v", "w"], "dataset": [[{"k": "var", "v": "head", "t": ""}, {"k": "iri", "v": "https://ex.org/p0", "t": ""}, {"k": "var", "v": "rest", "t": ""}], [{"k": "var", "v": "head", "t": ""}, {"k": "iri", "v": "https://ex.org/T121/p2", "t": ""}, {"k": "var", "v": "v", "t": ""}], [{"k": "var", "v": "head", "t": ""}, {"k": "iri", "v": "https://ex.org/T121/p3", "t": ""}, {"k": "var", "v": "w", "t": ""}, {"k": "iri", "v": "https://ex.org/g0", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T75"}, "input": [{"k": "var", "v": "v", "t": ""}]}}, "t": "list", "id": "urn:t:T121"}"##),
	("T122", r##"{"prefixes": [["ex", "https://ex.org/a/"]], "base": "https://ex.org/", "intro": ["i", "j"], "dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "T122/p1", "t": ""}, {"k": "var", "v": "i", "t": ""}, {"k": "var", "v": "self", "t": ""}], [{"k": "var", "v": "i", "t": ""}, {"k": "iri", "v": "T122/p2", "t": ""}, {"k": "var", "v": "j", "t": ""}]], "items": [{"property": {"k": "iri", "v": "https://ex.org/T122/p3", "t": ""}, "value": {"layout": {"k": "ref", "v": "urn:t:T75"}}}, {"intro": ["value"], "property": {"k": "iri", "v": "https://ex.org/T122/p4", "t": ""}, "value": {"layout": {"k": "ref", "v": "urn:t:T75"}, "input": [{"k": "var", "v": "value", "t": ""}]}}], "t": "tuple", "id": "urn:t:T122"}"##),
	("T123", r##"{"prefixes": [["ex", "https://ex.org/a/"]], "base": "https://ex.org/", "intro": ["i", "j"], "dataset": [[{"k": "var", "v": "i", "t": ""}, {"k": "iri", "v": "https://ex.org/T123/p1", "t": ""}, {"k": "var", "v": "self", "t": ""}], [{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "T123/p2", "t": ""}, {"k": "var", "v": "j", "t": ""}, {"k": "iri", "v": "g1", "t": ""}]], "items": [{"property": {"k": "iri", "v": "T123/p3", "t": ""}, "value": {"layout": {"k": "ref", "v": "urn:t:T75"}}}], "t": "tuple", "id": "urn:t:T123"}"##),
	("T124", r##"{"prefixes": [["e", "https://ex.org/"]], "base": "https://ex.org/", "intro": ["i", "j"], "dataset": [[{"k": "iri", "v": "e:c0", "t": ""}, {"k": "iri", "v": "e:T124/p1", "t": ""}, {"k": "var", "v": "i", "t": ""}, {"k": "iri", "v": "g1", "t": ""}], [{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "https://ex.org/T124/p2", "t": ""}, {"k": "var", "v": "j", "t": ""}]], "variants": [{"dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "https://ex.org/T124/p3", "t": ""}, {"k": "iri", "v": "c0", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T75"}}, "name": "Bar"}, {"value": {"layout": {"k": "ref", "v": "urn:t:T75"}}, "name": "Foo"}], "t": "sum", "id": "urn:t:T124"}"##),
	("T125", r##"{"prefixes": [["ex", "https://ex.org/a/"]], "base": "https://ex.org/", "intro": ["i"], "dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "https://ex.org/T125/p1", "t": ""}, {"k": "var", "v": "i", "t": ""}, {"k": "iri", "v": "g0", "t": ""}]], "node": {"value": {"layout": {"k": "ref", "v": "urn:t:T75"}, "graph": {"k": "none", "v": "", "t": ""}}}, "t": "list", "id": "urn:t:T125"}"##),
	("T126", r##"{"prefixes": [["e", "https://ex.org/"]], "base": "https://ex.org/", "input": ["a"], "intro": ["i"], "dataset": [[{"k": "var", "v": "a", "t": ""}, {"k": "iri", "v": "T126/p1", "t": ""}, {"k": "var", "v": "i", "t": ""}]], "fields": [{"property": {"k": "iri", "v": "https://ex.org/T126/p2", "t": ""}, "value": {"layout": {"k": "ref", "v": "urn:t:T75"}, "graph": {"k": "none", "v": "", "t": ""}}, "name": "foo", "required": true}], "t": "record", "id": "urn:t:T126"}"##),
	("T127", r##"{"prefixes": [["ex", "https://ex.org/a/"]], "base": "https://ex.org/doc", "input": ["x", "y"], "intro": ["i"], "dataset": [[{"k": "var", "v": "y", "t": ""}, {"k": "iri", "v": "T127/p1", "t": ""}, {"k": "var", "v": "i", "t": ""}]], "items": [{"intro": [], "value": {"layout": {"k": "ref", "v": "urn:t:T75"}, "input": [{"k": "var", "v": "x", "t": ""}], "graph": {"k": "iri", "v": "g0", "t": ""}}}], "t": "tuple", "id": "urn:t:T127"}"##),
	("T128", r##"{"prefixes": [["ex", "https://ex.org/a/"]], "base": "https://ex.org/", "intro": ["value"], "dataset": [[{"k": "iri", "v": "c0", "t": ""}, {"k": "iri", "v": "T128/p1", "t": ""}, {"k": "var", "v": "value", "t": ""}]], "fields": [{"property": {"k": "iri", "v": "T128/p2", "t": ""}, "value": {"layout": {"k": "ref", "v": "urn:t:T75"}, "graph": {"k": "iri", "v": "https://ex.org/g0", "t": ""}}, "name": "zz0", "required": false}], "t": "record", "id": "urn:t:T128"}"##),
	("T129", r##"{"base": "https://ex.org/", "head": {"k": "var", "v": "self", "t": ""}, "tail": {"k": "iri", "v": "nil", "t": ""}, "node": {"dataset": [[{"k": "var", "v": "head", "t": ""}, {"k": "iri", "v": "T129/p1", "t": ""}, {"k": "var", "v": "rest", "t": ""}], [{"k": "var", "v": "head", "t": ""}, {"k": "iri", "v": "p0", "t": ""}, {"k": "var", "v": "value", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T75"}, "input": [{"k": "var", "v": "value", "t": ""}], "graph": {"k": "var", "v": "value", "t": ""}}}, "t": "list", "id": "urn:t:T129"}"##),
	("T130", r##"{"base": "https://ex.org/doc", "input": ["self", "other"], "items": [{"intro": ["value", "w"], "property": {"k": "iri", "v": "https://ex.org/T130/p1", "t": ""}, "dataset": [[{"k": "var", "v": "value", "t": ""}, {"k": "iri", "v": "https://ex.org/T130/p2", "t": ""}, {"k": "var", "v": "w", "t": ""}, {"k": "iri", "v": "g1", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T75"}, "input": [{"k": "var", "v": "value", "t": ""}], "graph": {"k": "var", "v": "self", "t": ""}}}, {"intro": ["self"], "property": {"k": "iri", "v": "https://ex.org/p1", "t": ""}, "dataset": [[{"k": "var", "v": "other", "t": ""}, {"k": "iri", "v": "T130/is", "t": ""}, {"k": "iri", "v": "c1", "t": ""}, {"k": "iri", "v": "g1", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T75"}, "input": [{"k": "var", "v": "self", "t": ""}], "graph": {"k": "var", "v": "other", "t": ""}}}], "t": "tuple", "id": "urn:t:T130"}"##),
	("T131", r##"{"intro": ["i"], "dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "https://ex.org/T131/p1", "t": ""}, {"k": "var", "v": "i", "t": ""}, {"k": "iri", "v": "https://ex.org/g0", "t": ""}], [{"k": "var", "v": "i", "t": ""}, {"k": "iri", "v": "https://ex.org/T131/is", "t": ""}, {"k": "iri", "v": "https://ex.org/c1", "t": ""}]], "fields": [{"intro": [], "value": {"layout": {"k": "ref", "v": "urn:t:T127"}, "input": [{"k": "var", "v": "self", "t": ""}, {"k": "var", "v": "self", "t": ""}], "graph": {"k": "iri", "v": "https://ex.org/g1", "t": ""}}, "name": "foo", "required": false}, {"intro": ["self"], "dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "https://ex.org/T131/p2", "t": ""}, {"k": "var", "v": "i", "t": ""}, {"k": "iri", "v": "https://ex.org/g0", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T127"}, "input": [{"k": "var", "v": "self", "t": ""}, {"k": "var", "v": "self", "t": ""}], "graph": {"k": "iri", "v": "https://ex.org/g1", "t": ""}}, "name": "bar", "required": true}], "t": "record", "id": "urn:t:T131"}"##),
	("T132", r##"{"prefixes": [["ex", "https://ex.org/"]], "variants": [{"dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "ex:T132/p1", "t": ""}, {"k": "iri", "v": "ex:c2", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T112"}, "graph": {"k": "iri", "v": "ex:g1", "t": ""}}, "name": "Bar"}, {"value": {"layout": {"k": "ref", "v": "urn:t:T112"}, "graph": {"k": "iri", "v": "ex:g1", "t": ""}}, "name": "Baz"}, {"value": {"layout": {"k": "ref", "v": "urn:t:T112"}, "input": [{"k": "var", "v": "self", "t": ""}], "graph": {"k": "iri", "v": "https://ex.org/g0", "t": ""}}, "name": "Foo"}], "t": "sum", "id": "urn:t:T132"}"##),
	("T133", r##"{"prefixes": [["e", "https://ex.org/"]], "base": "https://ex.org/doc", "input": ["other", "self"], "intro": ["value"], "dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "T133/p1", "t": ""}, {"k": "var", "v": "value", "t": ""}]], "item": {"intro": ["value", "w"], "property": {"k": "iri", "v": "T133/p2", "t": ""}, "dataset": [[{"k": "var", "v": "other", "t": ""}, {"k": "iri", "v": "e:T133/p3", "t": ""}, {"k": "var", "v": "w", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T120"}, "input": [{"k": "var", "v": "value", "t": ""}], "graph": {"k": "iri", "v": "e:g0", "t": ""}}}, "t": "set", "id": "urn:t:T133"}"##),
	("T134", r##"{"prefixes": [["ex", "https://ex.org/a/"]], "base": "https://ex.org/doc", "input": ["self"], "intro": ["i"], "dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "p0", "t": ""}, {"k": "var", "v": "i", "t": ""}]], "node": {"intro": ["v"], "dataset": [[{"k": "var", "v": "head", "t": ""}, {"k": "iri", "v": "T134/p2", "t": ""}, {"k": "var", "v": "rest", "t": ""}], [{"k": "var", "v": "head", "t": ""}, {"k": "iri", "v": "p0", "t": ""}, {"k": "var", "v": "v", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T113"}, "input": [{"k": "var", "v": "v", "t": ""}], "graph": {"k": "iri", "v": "https://ex.org/g0", "t": ""}}}, "t": "list", "id": "urn:t:T134"}"##),
	("T135", r##"{"prefixes": [["e", "https://ex.org/"]], "input": ["a"], "intro": ["value"], "dataset": [[{"k": "var", "v": "a", "t": ""}, {"k": "iri", "v": "e:T135/p1", "t": ""}, {"k": "var", "v": "value", "t": ""}]], "items": [{"property": {"k": "iri", "v": "e:T135/p2", "t": ""}, "value": {"layout": {"k": "ref", "v": "urn:t:T125"}, "graph": {"k": "iri", "v": "e:g0", "t": ""}}}, {"intro": [], "dataset": [[{"k": "var", "v": "value", "t": ""}, {"k": "iri", "v": "e:T135/p3", "t": ""}, {"k": "iri", "v": "e:c1", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T125"}, "input": [{"k": "var", "v": "value", "t": ""}], "graph": {"k": "iri", "v": "e:g0", "t": ""}}}], "t": "tuple", "id": "urn:t:T135"}"##),
	("T136", r##"{"prefixes": [["e", "https://ex.org/"]], "base": "https://ex.org/doc", "intro": ["i"], "dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "https://ex.org/T136/p1", "t": ""}, {"k": "var", "v": "i", "t": ""}, {"k": "iri", "v": "g1", "t": ""}]], "fields": [{"intro": [], "dataset": [[{"k": "var", "v": "i", "t": ""}, {"k": "iri", "v": "https://ex.org/T136/p2", "t": ""}, {"k": "iri", "v": "c2", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T107"}, "input": [{"k": "var", "v": "self", "t": ""}], "graph": {"k": "var", "v": "self", "t": ""}}, "name": "foo", "required": false}, {"property": {"k": "iri", "v": "https://ex.org/T136/p3", "t": ""}, "value": {"layout": {"k": "ref", "v": "urn:t:T107"}, "graph": {"k": "var", "v": "i", "t": ""}}, "name": "bar", "required": true}], "t": "record", "id": "urn:t:T136"}"##),
	("T137", r##"{"prefixes": [["e", "https://ex.org/"]], "input": ["self", "other"], "dataset": [[{"k": "var", "v": "other", "t": ""}, {"k": "iri", "v": "e:T137/is", "t": ""}, {"k": "iri", "v": "e:c0", "t": ""}]], "variants": [{"value": {"layout": {"k": "ref", "v": "urn:t:T129"}, "graph": {"k": "var", "v": "other", "t": ""}}, "name": "A1"}, {"dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "https://ex.org/T137/p2", "t": ""}, {"k": "iri", "v": "e:c2", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T129"}, "graph": {"k": "var", "v": "self", "t": ""}}, "name": "Baz"}, {"intro": ["v"], "dataset": [[{"k": "var", "v": "v", "t": ""}, {"k": "iri", "v": "https://ex.org/T137/p1", "t": ""}, {"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "e:g1", "t": ""}], [{"k": "var", "v": "other", "t": ""}, {"k": "iri", "v": "e:T137/is", "t": ""}, {"k": "iri", "v": "e:c1", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T129"}, "input": [{"k": "var", "v": "v", "t": ""}], "graph": {"k": "var", "v": "v", "t": ""}}, "name": "Foo"}, {"value": {"layout": {"k": "ref", "v": "urn:t:T129"}, "input": [{"k": "var", "v": "other", "t": ""}], "graph": {"k": "var", "v": "self", "t": ""}}, "name": "Qux"}], "t": "sum", "id": "urn:t:T137"}"##),
	("T138", r##"{"prefixes": [["e", "https://ex.org/"]], "input": ["self", "other"], "dataset": [[{"k": "var", "v": "other", "t": ""}, {"k": "iri", "v": "https://ex.org/T138/is", "t": ""}, {"k": "iri", "v": "e:c0", "t": ""}]], "item": {"property": {"k": "iri", "v": "https://ex.org/T138/p1", "t": ""}, "value": {"layout": {"k": "ref", "v": "urn:t:T124"}, "graph": {"k": "var", "v": "self", "t": ""}}}, "t": "set", "id": "urn:t:T138"}"##),
	("T139", r##"{"prefixes": [["ex", "https://ex.org/a/"]], "base": "https://ex.org/", "input": ["self", "other"], "head": {"k": "var", "v": "other", "t": ""}, "node": {"value": {"layout": {"k": "ref", "v": "urn:t:T117"}, "graph": {"k": "var", "v": "self", "t": ""}}, "head": "h"}, "t": "list", "id": "urn:t:T139"}"##),
	("T140", r##"{"prefixes": [["ex", "https://ex.org/a/"]], "items": [{"dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "https://ex.org/T140/p1", "t": ""}, {"k": "var", "v": "value", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T111"}, "graph": {"k": "var", "v": "self", "t": ""}}}], "t": "tuple", "id": "urn:t:T140"}"##),
	("T141", r##"{"prefixes": [["ex", "https://ex.org/a/"]], "input": ["self"], "fields": [{"intro": ["v"], "dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "https://ex.org/p0", "t": ""}, {"k": "var", "v": "v", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T113"}, "input": [{"k": "var", "v": "v", "t": ""}], "graph": {"k": "iri", "v": "https://ex.org/g0", "t": ""}}, "name": "foo", "required": false}, {"intro": [], "dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "https://ex.org/T141/p2", "t": ""}, {"k": "iri", "v": "https://ex.org/c0", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T113"}, "input": [{"k": "iri", "v": "https://ex.org/c2", "t": ""}], "graph": {"k": "iri", "v": "https://ex.org/g1", "t": ""}}, "name": "zz1", "required": true}], "t": "record", "id": "urn:t:T141"}"##),
	("T142", r##"{"prefixes": [["ex", "https://ex.org/"]], "input": ["self"], "variants": [{"dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "ex:T142/p1", "t": ""}, {"k": "iri", "v": "ex:c0", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T115"}, "graph": {"k": "iri", "v": "ex:g0", "t": ""}}, "name": "Bar"}, {"value": {"layout": {"k": "ref", "v": "urn:t:T115"}, "input": [{"k": "var", "v": "self", "t": ""}], "graph": {"k": "iri", "v": "ex:g0", "t": ""}}, "name": "Foo"}], "t": "sum", "id": "urn:t:T142"}"##),
	("T143", r##"{"input": ["self", "other"], "item": {"intro": ["v"], "property": {"k": "iri", "v": "https://ex.org/T143/p1", "t": ""}, "value": {"layout": {"k": "ref", "v": "urn:t:T121"}, "input": [{"k": "var", "v": "other", "t": ""}, {"k": "var", "v": "v", "t": ""}], "graph": {"k": "iri", "v": "https://ex.org/g1", "t": ""}}}, "t": "set", "id": "urn:t:T143"}"##),
	("T144", r##"{"prefixes": [["ex", "https://ex.org/"]], "intro": ["value"], "dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "https://ex.org/T144/p1", "t": ""}, {"k": "var", "v": "value", "t": ""}], [{"k": "var", "v": "value", "t": ""}, {"k": "iri", "v": "ex:T144/is", "t": ""}, {"k": "iri", "v": "ex:c2", "t": ""}]], "node": {"intro": ["v"], "dataset": [[{"k": "var", "v": "node", "t": ""}, {"k": "iri", "v": "ex:T144/p2", "t": ""}, {"k": "var", "v": "rest", "t": ""}], [{"k": "var", "v": "node", "t": ""}, {"k": "iri", "v": "ex:T144/p3", "t": ""}, {"k": "var", "v": "v", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T108"}, "input": [{"k": "var", "v": "v", "t": ""}], "graph": {"k": "iri", "v": "ex:g0", "t": ""}}, "head": "node"}, "t": "list", "id": "urn:t:T144"}"##),
	("T145", r##"{"base": "https://ex.org/", "input": ["self"], "intro": ["i"], "dataset": [[{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "https://ex.org/T145/p1", "t": ""}, {"k": "var", "v": "i", "t": ""}], [{"k": "var", "v": "self", "t": ""}, {"k": "iri", "v": "https://ex.org/T145/is", "t": ""}, {"k": "iri", "v": "c2", "t": ""}]], "items": [{"intro": ["v"], "property": {"k": "iri", "v": "T145/p2", "t": ""}, "value": {"layout": {"k": "ref", "v": "urn:t:T127"}, "input": [{"k": "var", "v": "self", "t": ""}, {"k": "var", "v": "v", "t": ""}], "graph": {"k": "iri", "v": "https://ex.org/g1", "t": ""}}}, {"intro": ["v", "w"], "property": {"k": "iri", "v": "T145/p3", "t": ""}, "dataset": [[{"k": "var", "v": "i", "t": ""}, {"k": "iri", "v": "T145/p4", "t": ""}, {"k": "var", "v": "w", "t": ""}]], "value": {"layout": {"k": "ref", "v": "urn:t:T127"}, "input": [{"k": "var", "v": "w", "t": ""}, {"k": "var", "v": "v", "t": ""}], "graph": {"k": "iri", "v": "g0", "t": ""}}}], "t": "tuple", "id": "urn:t:T145"}"##),
];

pub const ENTRIES: &[Entry] = &[
	Entry { name: "T0", nin: 1, layouts: &["T0"], consts: &[], iris: &[], arb: <T0>::arb, ser: ser::<T0, 1>, de: de::<T0, 1> },
	Entry { name: "T1", nin: 1, layouts: &["T1"], consts: &[], iris: &["https://ex.org/p0"], arb: <T1>::arb, ser: ser::<T1, 1>, de: de::<T1, 1> },
	Entry { name: "T2", nin: 1, layouts: &["T2"], consts: &[], iris: &["https://ex.org/T2/p1", "https://ex.org/p2"], arb: <T2>::arb, ser: ser::<T2, 1>, de: de::<T2, 1> },
	Entry { name: "T3", nin: 1, layouts: &["T3"], consts: &[], iris: &[], arb: <T3>::arb, ser: ser::<T3, 1>, de: de::<T3, 1> },
	Entry { name: "T4", nin: 2, layouts: &["T4"], consts: &[], iris: &["https://ex.org/T4/p1"], arb: <T4>::arb, ser: ser::<T4, 2>, de: de::<T4, 2> },
	Entry { name: "T5", nin: 1, layouts: &["T5"], consts: &["https://ex.org/c1"], iris: &["https://ex.org/T5/is", "https://ex.org/T5/p1", "https://ex.org/c1"], arb: <T5>::arb, ser: ser::<T5, 1>, de: de::<T5, 1> },
	Entry { name: "T6", nin: 1, layouts: &["T6"], consts: &[], iris: &["https://ex.org/T6/p1"], arb: <T6>::arb, ser: ser::<T6, 1>, de: de::<T6, 1> },
	Entry { name: "T7", nin: 2, layouts: &["T7"], consts: &[], iris: &[], arb: <T7>::arb, ser: ser::<T7, 2>, de: de::<T7, 2> },
	Entry { name: "T8", nin: 1, layouts: &["T8"], consts: &[], iris: &["https://ex.org/T8/p1", "https://ex.org/T8/p2"], arb: <T8>::arb, ser: ser::<T8, 1>, de: de::<T8, 1> },
	Entry { name: "T9", nin: 1, layouts: &["T9"], consts: &["https://ex.org/g1"], iris: &["https://ex.org/T9/p1", "https://ex.org/g1", "https://ex.org/p0"], arb: <T9>::arb, ser: ser::<T9, 1>, de: de::<T9, 1> },
	Entry { name: "T10", nin: 1, layouts: &["T10"], consts: &[], iris: &["https://ex.org/T10/p1"], arb: <T10>::arb, ser: ser::<T10, 1>, de: de::<T10, 1> },
	Entry { name: "T11", nin: 2, layouts: &["T11"], consts: &[], iris: &["https://ex.org/T11/p1", "https://ex.org/T11/p2"], arb: <T11>::arb, ser: ser::<T11, 2>, de: de::<T11, 2> },
	Entry { name: "T12", nin: 2, layouts: &["T12"], consts: &[], iris: &[], arb: <T12>::arb, ser: ser::<T12, 2>, de: de::<T12, 2> },
	Entry { name: "T13", nin: 1, layouts: &["T13"], consts: &[], iris: &["https://ex.org/T13/p1", "https://ex.org/T13/p2"], arb: <T13>::arb, ser: ser::<T13, 1>, de: de::<T13, 1> },
	Entry { name: "T14", nin: 1, layouts: &["T14"], consts: &[], iris: &[], arb: <T14>::arb, ser: ser::<T14, 1>, de: de::<T14, 1> },
	Entry { name: "T15", nin: 1, layouts: &["T15"], consts: &[], iris: &["https://ex.org/T15/p1"], arb: <T15>::arb, ser: ser::<T15, 1>, de: de::<T15, 1> },
	Entry { name: "T16", nin: 1, layouts: &["T16"], consts: &[], iris: &["https://ex.org/T16/p1"], arb: <T16>::arb, ser: ser::<T16, 1>, de: de::<T16, 1> },
	Entry { name: "T17", nin: 1, layouts: &["T17"], consts: &[], iris: &[], arb: <T17>::arb, ser: ser::<T17, 1>, de: de::<T17, 1> },
	Entry { name: "T18", nin: 2, layouts: &["T18", "T6"], consts: &["https://ex.org/g0"], iris: &["https://ex.org/T18/p1", "https://ex.org/T18/p2", "https://ex.org/T6/p1", "https://ex.org/g0"], arb: <T18>::arb, ser: ser::<T18, 2>, de: de::<T18, 2> },
	Entry { name: "T19", nin: 2, layouts: &["T19", "i64", "Unit", "String"], consts: &["https://ex.org/c0"], iris: &["https://ex.org/T19/p1", "https://ex.org/T19/p3", "https://ex.org/c0", "https://ex.org/p0"], arb: <T19>::arb, ser: ser::<T19, 2>, de: de::<T19, 2> },
	Entry { name: "T20", nin: 1, layouts: &["T20", "T19", "i64", "Unit", "String"], consts: &["https://ex.org/c0", "https://ex.org/c1", "https://ex.org/g0"], iris: &["https://ex.org/T19/p1", "https://ex.org/T19/p3", "https://ex.org/T20/is", "https://ex.org/T20/p1", "https://ex.org/T20/p2", "https://ex.org/T20/p3", "https://ex.org/T20/p4", "https://ex.org/c0", "https://ex.org/c1", "https://ex.org/g0", "https://ex.org/p0"], arb: <T20>::arb, ser: ser::<T20, 1>, de: de::<T20, 1> },
	Entry { name: "T21", nin: 1, layouts: &["T21", "i32"], consts: &["https://ex.org/g1", "https://ex.org/nil"], iris: &["https://ex.org/T21/p1", "https://ex.org/T21/p2", "https://ex.org/g1", "https://ex.org/nil"], arb: <T21>::arb, ser: ser::<T21, 1>, de: de::<T21, 1> },
	Entry { name: "T22", nin: 2, layouts: &["T22", "T20", "Id", "T19", "i64", "Unit", "String"], consts: &["https://ex.org/c0", "https://ex.org/c1", "https://ex.org/g0"], iris: &["https://ex.org/T19/p1", "https://ex.org/T19/p3", "https://ex.org/T20/is", "https://ex.org/T20/p1", "https://ex.org/T20/p2", "https://ex.org/T20/p3", "https://ex.org/T20/p4", "https://ex.org/T22/p1", "https://ex.org/T22/p2", "https://ex.org/c0", "https://ex.org/c1", "https://ex.org/g0", "https://ex.org/p0"], arb: <T22>::arb, ser: ser::<T22, 2>, de: de::<T22, 2> },
	Entry { name: "T23", nin: 1, layouts: &["T23", "T14"], consts: &[], iris: &["https://ex.org/T23/p1"], arb: <T23>::arb, ser: ser::<T23, 1>, de: de::<T23, 1> },
	Entry { name: "T24", nin: 1, layouts: &["T24", "T3", "i32"], consts: &[], iris: &["https://ex.org/T24/is", "https://ex.org/T24/p2", "https://ex.org/T24/p3", "https://ex.org/T24/p4", "https://ex.org/T24/p5", "https://ex.org/c0", "https://ex.org/p0"], arb: <T24>::arb, ser: ser::<T24, 1>, de: de::<T24, 1> },
	Entry { name: "T25", nin: 1, layouts: &["T25", "T23", "T12", "i64", "T13", "T14"], consts: &["https://ex.org/g0", "https://ex.org/g1"], iris: &["https://ex.org/T13/p1", "https://ex.org/T13/p2", "https://ex.org/T23/p1", "https://ex.org/T25/is", "https://ex.org/T25/p1", "https://ex.org/T25/p2", "https://ex.org/T25/p3", "https://ex.org/c1", "https://ex.org/g0", "https://ex.org/g1"], arb: <T25>::arb, ser: ser::<T25, 1>, de: de::<T25, 1> },
	Entry { name: "T26", nin: 1, layouts: &["T26", "bool"], consts: &["https://ex.org/c1"], iris: &["https://ex.org/T26/is", "https://ex.org/T26/p1", "https://ex.org/c0", "https://ex.org/c1", "https://ex.org/g1"], arb: <T26>::arb, ser: ser::<T26, 1>, de: de::<T26, 1> },
	Entry { name: "T27", nin: 1, layouts: &["T27", "Unit"], consts: &["https://ex.org/nil"], iris: &["https://ex.org/T27/p1", "https://ex.org/T27/p2", "https://ex.org/T27/p3", "https://ex.org/nil"], arb: <T27>::arb, ser: ser::<T27, 1>, de: de::<T27, 1> },
	Entry { name: "T28", nin: 1, layouts: &["T28", "T13"], consts: &[], iris: &["https://ex.org/T13/p1", "https://ex.org/T13/p2", "https://ex.org/T28/p2", "https://ex.org/T28/p3", "https://ex.org/p1"], arb: <T28>::arb, ser: ser::<T28, 1>, de: de::<T28, 1> },
	Entry { name: "T29", nin: 1, layouts: &["T29"], consts: &[], iris: &[], arb: <T29>::arb, ser: ser::<T29, 1>, de: de::<T29, 1> },
	Entry { name: "T30", nin: 1, layouts: &["T30", "T4", "T19", "i64", "Unit", "String"], consts: &["https://ex.org/c0", "https://ex.org/g0"], iris: &["https://ex.org/T19/p1", "https://ex.org/T19/p3", "https://ex.org/T30/p1", "https://ex.org/T30/p2", "https://ex.org/T4/p1", "https://ex.org/c0", "https://ex.org/g0", "https://ex.org/p0"], arb: <T30>::arb, ser: ser::<T30, 1>, de: de::<T30, 1> },
	Entry { name: "T31", nin: 1, layouts: &["T31", "String"], consts: &[], iris: &["https://ex.org/T31/is", "https://ex.org/T31/p1", "https://ex.org/c0"], arb: <T31>::arb, ser: ser::<T31, 1>, de: de::<T31, 1> },
	Entry { name: "T32", nin: 2, layouts: &["T32", "u16"], consts: &[], iris: &["https://ex.org/T32/p1", "https://ex.org/T32/p2", "https://ex.org/T32/p4", "https://ex.org/p2"], arb: <T32>::arb, ser: ser::<T32, 2>, de: de::<T32, 2> },
	Entry { name: "T33", nin: 1, layouts: &["T33", "T26", "bool"], consts: &["https://ex.org/c1"], iris: &["https://ex.org/T26/is", "https://ex.org/T26/p1", "https://ex.org/c0", "https://ex.org/c1", "https://ex.org/g1"], arb: <T33>::arb, ser: ser::<T33, 1>, de: de::<T33, 1> },
	Entry { name: "T34", nin: 1, layouts: &["T34", "T5", "T30", "T31", "T28", "T4", "T19", "String", "T13", "i64", "Unit"], consts: &["https://ex.org/c0", "https://ex.org/c1", "https://ex.org/g0"], iris: &["https://ex.org/T13/p1", "https://ex.org/T13/p2", "https://ex.org/T19/p1", "https://ex.org/T19/p3", "https://ex.org/T28/p2", "https://ex.org/T28/p3", "https://ex.org/T30/p1", "https://ex.org/T30/p2", "https://ex.org/T31/is", "https://ex.org/T31/p1", "https://ex.org/T34/is", "https://ex.org/T34/p1", "https://ex.org/T34/p2", "https://ex.org/T34/p3", "https://ex.org/T34/p4", "https://ex.org/T4/p1", "https://ex.org/T5/is", "https://ex.org/T5/p1", "https://ex.org/c0", "https://ex.org/c1", "https://ex.org/c2", "https://ex.org/g0", "https://ex.org/p0", "https://ex.org/p1"], arb: <T34>::arb, ser: ser::<T34, 1>, de: de::<T34, 1> },
	Entry { name: "T35", nin: 1, layouts: &["T35", "T11"], consts: &["https://ex.org/g1"], iris: &["https://ex.org/T11/p1", "https://ex.org/T11/p2", "https://ex.org/T35/p1", "https://ex.org/g1"], arb: <T35>::arb, ser: ser::<T35, 1>, de: de::<T35, 1> },
	Entry { name: "T36", nin: 1, layouts: &["T36", "T21", "i32"], consts: &["https://ex.org/c1", "https://ex.org/g1", "https://ex.org/nil"], iris: &["https://ex.org/T21/p1", "https://ex.org/T21/p2", "https://ex.org/T36/p1", "https://ex.org/T36/p3", "https://ex.org/c1", "https://ex.org/g1", "https://ex.org/nil", "https://ex.org/p0"], arb: <T36>::arb, ser: ser::<T36, 1>, de: de::<T36, 1> },
	Entry { name: "T37", nin: 1, layouts: &["T37", "Unit"], consts: &[], iris: &[], arb: <T37>::arb, ser: ser::<T37, 1>, de: de::<T37, 1> },
	Entry { name: "T38", nin: 1, layouts: &["T38", "i32", "T25", "T23", "T12", "i64", "T13", "T14"], consts: &["https://ex.org/g0", "https://ex.org/g1"], iris: &["https://ex.org/T13/p1", "https://ex.org/T13/p2", "https://ex.org/T23/p1", "https://ex.org/T25/is", "https://ex.org/T25/p1", "https://ex.org/T25/p2", "https://ex.org/T25/p3", "https://ex.org/T38/p1", "https://ex.org/T38/p2", "https://ex.org/c1", "https://ex.org/g0", "https://ex.org/g1"], arb: <T38>::arb, ser: ser::<T38, 1>, de: de::<T38, 1> },
	Entry { name: "T39", nin: 1, layouts: &["T39", "i8", "T36", "T21", "i32"], consts: &["https://ex.org/c1", "https://ex.org/g1", "https://ex.org/nil"], iris: &["https://ex.org/T21/p1", "https://ex.org/T21/p2", "https://ex.org/T36/p1", "https://ex.org/T36/p3", "https://ex.org/T39/p1", "https://ex.org/T39/p2", "https://ex.org/c1", "https://ex.org/g1", "https://ex.org/nil", "https://ex.org/p0"], arb: <T39>::arb, ser: ser::<T39, 1>, de: de::<T39, 1> },
	Entry { name: "T40", nin: 1, layouts: &["T40", "u16", "T32"], consts: &[], iris: &["https://ex.org/T32/p1", "https://ex.org/T32/p2", "https://ex.org/T32/p4", "https://ex.org/T40/is", "https://ex.org/T40/p1", "https://ex.org/T40/p2", "https://ex.org/c1", "https://ex.org/p2"], arb: <T40>::arb, ser: ser::<T40, 1>, de: de::<T40, 1> },
	Entry { name: "T41", nin: 1, layouts: &["T41", "String"], consts: &["https://ex.org/g0"], iris: &["https://ex.org/T41/p1", "https://ex.org/T41/p2", "https://ex.org/T41/p3", "https://ex.org/g0"], arb: <T41>::arb, ser: ser::<T41, 1>, de: de::<T41, 1> },
	Entry { name: "T42", nin: 1, layouts: &["T42", "i8"], consts: &[], iris: &[], arb: <T42>::arb, ser: ser::<T42, 1>, de: de::<T42, 1> },
	Entry { name: "T43", nin: 1, layouts: &["T43", "T28", "T13"], consts: &["https://ex.org/g0"], iris: &["https://ex.org/T13/p1", "https://ex.org/T13/p2", "https://ex.org/T28/p2", "https://ex.org/T28/p3", "https://ex.org/T43/p1", "https://ex.org/T43/p2", "https://ex.org/g0", "https://ex.org/p1"], arb: <T43>::arb, ser: ser::<T43, 1>, de: de::<T43, 1> },
	Entry { name: "T44", nin: 1, layouts: &["T44", "Id", "T25", "i64", "T35", "T23", "T12", "T13", "T11", "T14"], consts: &["https://ex.org/g0", "https://ex.org/g1"], iris: &["https://ex.org/T11/p1", "https://ex.org/T11/p2", "https://ex.org/T13/p1", "https://ex.org/T13/p2", "https://ex.org/T23/p1", "https://ex.org/T25/is", "https://ex.org/T25/p1", "https://ex.org/T25/p2", "https://ex.org/T25/p3", "https://ex.org/T35/p1", "https://ex.org/T44/is", "https://ex.org/T44/p1", "https://ex.org/T44/p2", "https://ex.org/T44/p3", "https://ex.org/c0", "https://ex.org/c1", "https://ex.org/g0", "https://ex.org/g1"], arb: <T44>::arb, ser: ser::<T44, 1>, de: de::<T44, 1> },
	Entry { name: "T45", nin: 1, layouts: &["T45", "T29", "T31", "String"], consts: &["https://ex.org/g1"], iris: &["https://ex.org/T31/is", "https://ex.org/T31/p1", "https://ex.org/T45/p1", "https://ex.org/c0", "https://ex.org/g1"], arb: <T45>::arb, ser: ser::<T45, 1>, de: de::<T45, 1> },
	Entry { name: "T46", nin: 1, layouts: &["T46", "T36", "T21", "i32"], consts: &["https://ex.org/c1", "https://ex.org/g0", "https://ex.org/g1", "https://ex.org/nil"], iris: &["https://ex.org/T21/p1", "https://ex.org/T21/p2", "https://ex.org/T36/p1", "https://ex.org/T36/p3", "https://ex.org/T46/p1", "https://ex.org/T46/p2", "https://ex.org/c1", "https://ex.org/g0", "https://ex.org/g1", "https://ex.org/nil", "https://ex.org/p0"], arb: <T46>::arb, ser: ser::<T46, 1>, de: de::<T46, 1> },
	Entry { name: "T47", nin: 2, layouts: &["T47", "i8"], consts: &["https://ex.org/nil"], iris: &["https://ex.org/nil"], arb: <T47>::arb, ser: ser::<T47, 2>, de: de::<T47, 2> },
	Entry { name: "T48", nin: 1, layouts: &["T48", "Id"], consts: &[], iris: &["https://ex.org/T48/p1"], arb: <T48>::arb, ser: ser::<T48, 1>, de: de::<T48, 1> },
	Entry { name: "T49", nin: 1, layouts: &["T49", "i8", "u16", "T32"], consts: &["https://ex.org/c0"], iris: &["https://ex.org/T32/p1", "https://ex.org/T32/p2", "https://ex.org/T32/p4", "https://ex.org/T49/is", "https://ex.org/T49/p1", "https://ex.org/T49/p2", "https://ex.org/T49/p3", "https://ex.org/T49/p4", "https://ex.org/T49/p5", "https://ex.org/c0", "https://ex.org/g0", "https://ex.org/p2"], arb: <T49>::arb, ser: ser::<T49, 1>, de: de::<T49, 1> },
	Entry { name: "T50", nin: 1, layouts: &["T50", "T49", "T45", "i8", "u16", "T32", "T29", "T31", "String"], consts: &["https://ex.org/c0", "https://ex.org/g1"], iris: &["https://ex.org/T31/is", "https://ex.org/T31/p1", "https://ex.org/T32/p1", "https://ex.org/T32/p2", "https://ex.org/T32/p4", "https://ex.org/T45/p1", "https://ex.org/T49/is", "https://ex.org/T49/p1", "https://ex.org/T49/p2", "https://ex.org/T49/p3", "https://ex.org/T49/p4", "https://ex.org/T49/p5", "https://ex.org/T50/is", "https://ex.org/T50/p1", "https://ex.org/T50/p2", "https://ex.org/T50/p3", "https://ex.org/c0", "https://ex.org/g0", "https://ex.org/g1", "https://ex.org/p2"], arb: <T50>::arb, ser: ser::<T50, 1>, de: de::<T50, 1> },
	Entry { name: "T51", nin: 2, layouts: &["T51", "T49", "T35", "i8", "u16", "T32", "T11"], consts: &["https://ex.org/c0", "https://ex.org/g0", "https://ex.org/g1"], iris: &["https://ex.org/T11/p1", "https://ex.org/T11/p2", "https://ex.org/T32/p1", "https://ex.org/T32/p2", "https://ex.org/T32/p4", "https://ex.org/T35/p1", "https://ex.org/T49/is", "https://ex.org/T49/p1", "https://ex.org/T49/p2", "https://ex.org/T49/p3", "https://ex.org/T49/p4", "https://ex.org/T49/p5", "https://ex.org/T51/p1", "https://ex.org/T51/p2", "https://ex.org/c0", "https://ex.org/g0", "https://ex.org/g1", "https://ex.org/p2"], arb: <T51>::arb, ser: ser::<T51, 2>, de: de::<T51, 2> },
	Entry { name: "T52", nin: 2, layouts: &["T52", "Unit"], consts: &[], iris: &["https://ex.org/T52/p1", "https://ex.org/T52/p2"], arb: <T52>::arb, ser: ser::<T52, 2>, de: de::<T52, 2> },
	Entry { name: "T53", nin: 2, layouts: &["T53", "bool"], consts: &["https://ex.org/g0"], iris: &["https://ex.org/T53/p1", "https://ex.org/T53/p2", "https://ex.org/g0"], arb: <T53>::arb, ser: ser::<T53, 2>, de: de::<T53, 2> },
	Entry { name: "T54", nin: 1, layouts: &["T54", "bool", "T10", "Unit"], consts: &[], iris: &["https://ex.org/T10/p1", "https://ex.org/T54/p1", "https://ex.org/T54/p2", "https://ex.org/T54/p3"], arb: <T54>::arb, ser: ser::<T54, 1>, de: de::<T54, 1> },
	Entry { name: "T55", nin: 1, layouts: &["T55", "i64", "String"], consts: &[], iris: &["https://ex.org/T55/p1", "https://ex.org/T55/p2", "https://ex.org/T55/p3", "https://ex.org/c2"], arb: <T55>::arb, ser: ser::<T55, 1>, de: de::<T55, 1> },
	Entry { name: "T56", nin: 1, layouts: &["T56", "T47", "i64", "i8"], consts: &["https://ex.org/g0", "https://ex.org/nil"], iris: &["https://ex.org/T56/p1", "https://ex.org/T56/p2", "https://ex.org/T56/p3", "https://ex.org/g0", "https://ex.org/nil"], arb: <T56>::arb, ser: ser::<T56, 1>, de: de::<T56, 1> },
	Entry { name: "T57", nin: 1, layouts: &["T57", "u16", "T49", "bool", "Unit", "i8", "T32"], consts: &["https://ex.org/c0", "https://ex.org/g0", "https://ex.org/g1"], iris: &["https://ex.org/T32/p1", "https://ex.org/T32/p2", "https://ex.org/T32/p4", "https://ex.org/T49/is", "https://ex.org/T49/p1", "https://ex.org/T49/p2", "https://ex.org/T49/p3", "https://ex.org/T49/p4", "https://ex.org/T49/p5", "https://ex.org/T57/is", "https://ex.org/T57/p1", "https://ex.org/T57/p2", "https://ex.org/T57/p3", "https://ex.org/T57/p4", "https://ex.org/T57/p5", "https://ex.org/c0", "https://ex.org/c1", "https://ex.org/g0", "https://ex.org/g1", "https://ex.org/p2"], arb: <T57>::arb, ser: ser::<T57, 1>, de: de::<T57, 1> },
	Entry { name: "T58", nin: 1, layouts: &["T58", "T24", "T3", "i32"], consts: &[], iris: &["https://ex.org/T24/is", "https://ex.org/T24/p2", "https://ex.org/T24/p3", "https://ex.org/T24/p4", "https://ex.org/T24/p5", "https://ex.org/T58/p1", "https://ex.org/T58/p2", "https://ex.org/c0", "https://ex.org/p0"], arb: <T58>::arb, ser: ser::<T58, 1>, de: de::<T58, 1> },
	Entry { name: "T59", nin: 1, layouts: &["T59", "T30", "T4", "T19", "i64", "Unit", "String"], consts: &["https://ex.org/c0", "https://ex.org/g0"], iris: &["https://ex.org/T19/p1", "https://ex.org/T19/p3", "https://ex.org/T30/p1", "https://ex.org/T30/p2", "https://ex.org/T4/p1", "https://ex.org/T59/is", "https://ex.org/T59/p1", "https://ex.org/T59/p2", "https://ex.org/T59/p3", "https://ex.org/c0", "https://ex.org/c1", "https://ex.org/g0", "https://ex.org/p0"], arb: <T59>::arb, ser: ser::<T59, 1>, de: de::<T59, 1> },
	Entry { name: "T60", nin: 1, layouts: &["T60", "String", "T56", "T47", "i64", "i8"], consts: &["https://ex.org/g0", "https://ex.org/nil"], iris: &["https://ex.org/T56/p1", "https://ex.org/T56/p2", "https://ex.org/T56/p3", "https://ex.org/T60/p1", "https://ex.org/T60/p2", "https://ex.org/T60/p3", "https://ex.org/T60/p4", "https://ex.org/g0", "https://ex.org/nil"], arb: <T60>::arb, ser: ser::<T60, 1>, de: de::<T60, 1> },
	Entry { name: "T61", nin: 1, layouts: &["T61", "bool"], consts: &[], iris: &[], arb: <T61>::arb, ser: ser::<T61, 1>, de: de::<T61, 1> },
	Entry { name: "T62", nin: 2, layouts: &["T62", "T53", "T7", "T42", "bool", "i8"], consts: &["https://ex.org/g0"], iris: &["https://ex.org/T53/p1", "https://ex.org/T53/p2", "https://ex.org/T62/p1", "https://ex.org/T62/p2", "https://ex.org/T62/p3", "https://ex.org/g0"], arb: <T62>::arb, ser: ser::<T62, 2>, de: de::<T62, 2> },
	Entry { name: "T63", nin: 1, layouts: &["T63", "String", "T43", "bool", "T37", "T28", "Unit", "T13"], consts: &["https://ex.org/g0", "https://ex.org/g1"], iris: &["https://ex.org/T13/p1", "https://ex.org/T13/p2", "https://ex.org/T28/p2", "https://ex.org/T28/p3", "https://ex.org/T43/p1", "https://ex.org/T43/p2", "https://ex.org/g0", "https://ex.org/g1", "https://ex.org/p1"], arb: <T63>::arb, ser: ser::<T63, 1>, de: de::<T63, 1> },
	Entry { name: "T64", nin: 1, layouts: &["T64", "T45", "T29", "T31", "String"], consts: &["https://ex.org/g1"], iris: &["https://ex.org/T31/is", "https://ex.org/T31/p1", "https://ex.org/T45/p1", "https://ex.org/T64/is", "https://ex.org/T64/p1", "https://ex.org/c0", "https://ex.org/g1"], arb: <T64>::arb, ser: ser::<T64, 1>, de: de::<T64, 1> },
	Entry { name: "T65", nin: 1, layouts: &["T65", "T62", "T53", "T7", "T42", "bool", "i8"], consts: &["https://ex.org/g0"], iris: &["https://ex.org/T53/p1", "https://ex.org/T53/p2", "https://ex.org/T62/p1", "https://ex.org/T62/p2", "https://ex.org/T62/p3", "https://ex.org/T65/p1", "https://ex.org/T65/p2", "https://ex.org/T65/p3", "https://ex.org/g0"], arb: <T65>::arb, ser: ser::<T65, 1>, de: de::<T65, 1> },
	Entry { name: "T66", nin: 1, layouts: &["T66", "T43", "T28", "T13"], consts: &["https://ex.org/g0", "https://ex.org/g1"], iris: &["https://ex.org/T13/p1", "https://ex.org/T13/p2", "https://ex.org/T28/p2", "https://ex.org/T28/p3", "https://ex.org/T43/p1", "https://ex.org/T43/p2", "https://ex.org/T66/p1", "https://ex.org/g0", "https://ex.org/g1", "https://ex.org/p1"], arb: <T66>::arb, ser: ser::<T66, 1>, de: de::<T66, 1> },
	Entry { name: "T67", nin: 1, layouts: &["T67", "bool", "T53"], consts: &["https://ex.org/g0"], iris: &["https://ex.org/T53/p1", "https://ex.org/T53/p2", "https://ex.org/T67/is", "https://ex.org/T67/p1", "https://ex.org/T67/p2", "https://ex.org/T67/p3", "https://ex.org/T67/p4", "https://ex.org/c1", "https://ex.org/c2", "https://ex.org/g0"], arb: <T67>::arb, ser: ser::<T67, 1>, de: de::<T67, 1> },
	Entry { name: "T68", nin: 2, layouts: &["T68", "T53", "T1", "T54", "bool", "T10", "Unit"], consts: &["https://ex.org/g0"], iris: &["https://ex.org/T10/p1", "https://ex.org/T53/p1", "https://ex.org/T53/p2", "https://ex.org/T54/p1", "https://ex.org/T54/p2", "https://ex.org/T54/p3", "https://ex.org/T68/is", "https://ex.org/T68/p1", "https://ex.org/T68/p2", "https://ex.org/T68/p3", "https://ex.org/T68/p4", "https://ex.org/T68/p5", "https://ex.org/T68/p6", "https://ex.org/c0", "https://ex.org/g0", "https://ex.org/p0"], arb: <T68>::arb, ser: ser::<T68, 2>, de: de::<T68, 2> },
	Entry { name: "T69", nin: 1, layouts: &["T69", "T45", "T29", "T31", "String"], consts: &["https://ex.org/g1"], iris: &["https://ex.org/T31/is", "https://ex.org/T31/p1", "https://ex.org/T45/p1", "https://ex.org/T69/p1", "https://ex.org/c0", "https://ex.org/g1"], arb: <T69>::arb, ser: ser::<T69, 1>, de: de::<T69, 1> },
	Entry { name: "T70", nin: 2, layouts: &["T70", "T30", "T4", "T19", "i64", "Unit", "String"], consts: &["https://ex.org/c0", "https://ex.org/g0"], iris: &["https://ex.org/T19/p1", "https://ex.org/T19/p3", "https://ex.org/T30/p1", "https://ex.org/T30/p2", "https://ex.org/T4/p1", "https://ex.org/T70/p1", "https://ex.org/T70/p2", "https://ex.org/T70/p3", "https://ex.org/c0", "https://ex.org/g0", "https://ex.org/p0"], arb: <T70>::arb, ser: ser::<T70, 2>, de: de::<T70, 2> },
	Entry { name: "T71", nin: 2, layouts: &["T71", "u16", "T20", "T19", "i64", "Unit", "String"], consts: &["https://ex.org/c0", "https://ex.org/c1", "https://ex.org/g0"], iris: &["https://ex.org/T19/p1", "https://ex.org/T19/p3", "https://ex.org/T20/is", "https://ex.org/T20/p1", "https://ex.org/T20/p2", "https://ex.org/T20/p3", "https://ex.org/T20/p4", "https://ex.org/T71/is", "https://ex.org/T71/p1", "https://ex.org/c0", "https://ex.org/c1", "https://ex.org/g0", "https://ex.org/g1", "https://ex.org/p0"], arb: <T71>::arb, ser: ser::<T71, 2>, de: de::<T71, 2> },
	Entry { name: "T72", nin: 1, layouts: &["T72", "String"], consts: &[], iris: &["https://ex.org/T72/p1", "https://ex.org/T72/p2"], arb: <T72>::arb, ser: ser::<T72, 1>, de: de::<T72, 1> },
	Entry { name: "T73", nin: 1, layouts: &["T73", "String"], consts: &[], iris: &["https://ex.org/T73/is", "https://ex.org/T73/p1", "https://ex.org/T73/p2", "https://ex.org/T73/p4", "https://ex.org/c2", "https://ex.org/p0"], arb: <T73>::arb, ser: ser::<T73, 1>, de: de::<T73, 1> },
	Entry { name: "T74", nin: 1, layouts: &["T74", "String"], consts: &["https://ex.org/g0"], iris: &["https://ex.org/T74/p1", "https://ex.org/T74/p2", "https://ex.org/g0"], arb: <T74>::arb, ser: ser::<T74, 1>, de: de::<T74, 1> },
	Entry { name: "T75", nin: 1, layouts: &["T75", "String"], consts: &[], iris: &["https://ex.org/T75/p1"], arb: <T75>::arb, ser: ser::<T75, 1>, de: de::<T75, 1> },
	Entry { name: "T76", nin: 1, layouts: &["T76", "T72", "String"], consts: &[], iris: &["https://ex.org/T72/p1", "https://ex.org/T72/p2", "https://ex.org/T76/p1", "https://ex.org/T76/p2"], arb: <T76>::arb, ser: ser::<T76, 1>, de: de::<T76, 1> },
	Entry { name: "T77", nin: 1, layouts: &["T77", "T72", "String"], consts: &[], iris: &["https://ex.org/T72/p1", "https://ex.org/T72/p2", "https://ex.org/T77/p1"], arb: <T77>::arb, ser: ser::<T77, 1>, de: de::<T77, 1> },
	Entry { name: "T78", nin: 1, layouts: &["T78", "T72", "String"], consts: &[], iris: &["https://ex.org/T72/p1", "https://ex.org/T72/p2", "https://ex.org/T78/is", "https://ex.org/T78/p1", "https://ex.org/T78/p2", "https://ex.org/c2"], arb: <T78>::arb, ser: ser::<T78, 1>, de: de::<T78, 1> },
	Entry { name: "T79", nin: 1, layouts: &["T79", "T72", "String"], consts: &[], iris: &["https://ex.org/T72/p1", "https://ex.org/T72/p2", "https://ex.org/T79/p1", "https://ex.org/T79/p2"], arb: <T79>::arb, ser: ser::<T79, 1>, de: de::<T79, 1> },
	Entry { name: "T80", nin: 1, layouts: &["T80", "T72", "String"], consts: &["https://ex.org/g0"], iris: &["https://ex.org/T72/p1", "https://ex.org/T72/p2", "https://ex.org/T80/p1", "https://ex.org/T80/p2", "https://ex.org/T80/p3", "https://ex.org/T80/p4", "https://ex.org/T80/p5", "https://ex.org/c2", "https://ex.org/g0"], arb: <T80>::arb, ser: ser::<T80, 1>, de: de::<T80, 1> },
	Entry { name: "T81", nin: 1, layouts: &["T81", "T72", "String"], consts: &[], iris: &["https://ex.org/T72/p1", "https://ex.org/T72/p2", "https://ex.org/T81/is", "https://ex.org/T81/p1", "https://ex.org/T81/p2", "https://ex.org/c2"], arb: <T81>::arb, ser: ser::<T81, 1>, de: de::<T81, 1> },
	Entry { name: "T82", nin: 1, layouts: &["T82", "T72", "String"], consts: &[], iris: &["https://ex.org/T72/p1", "https://ex.org/T72/p2", "https://ex.org/T82/p1", "https://ex.org/T82/p2"], arb: <T82>::arb, ser: ser::<T82, 1>, de: de::<T82, 1> },
	Entry { name: "T83", nin: 1, layouts: &["T83", "T72", "String"], consts: &[], iris: &["https://ex.org/T72/p1", "https://ex.org/T72/p2", "https://ex.org/T83/p1"], arb: <T83>::arb, ser: ser::<T83, 1>, de: de::<T83, 1> },
	Entry { name: "T84", nin: 1, layouts: &["T84", "T72", "String"], consts: &[], iris: &["https://ex.org/T72/p1", "https://ex.org/T72/p2", "https://ex.org/T84/p1"], arb: <T84>::arb, ser: ser::<T84, 1>, de: de::<T84, 1> },
	Entry { name: "T85", nin: 2, layouts: &["T85", "T72", "String"], consts: &[], iris: &["https://ex.org/T72/p1", "https://ex.org/T72/p2", "https://ex.org/T85/is", "https://ex.org/T85/p1", "https://ex.org/T85/p2", "https://ex.org/c0"], arb: <T85>::arb, ser: ser::<T85, 2>, de: de::<T85, 2> },
	Entry { name: "T86", nin: 1, layouts: &["T86", "T72", "String"], consts: &[], iris: &["https://ex.org/T72/p1", "https://ex.org/T72/p2", "https://ex.org/T86/p2", "https://ex.org/p1"], arb: <T86>::arb, ser: ser::<T86, 1>, de: de::<T86, 1> },
	Entry { name: "T87", nin: 2, layouts: &["T87", "T72", "String"], consts: &[], iris: &["https://ex.org/T72/p1", "https://ex.org/T72/p2", "https://ex.org/T87/p2", "https://ex.org/T87/p3", "https://ex.org/c2", "https://ex.org/p0"], arb: <T87>::arb, ser: ser::<T87, 2>, de: de::<T87, 2> },
	Entry { name: "T88", nin: 1, layouts: &["T88", "T72", "String"], consts: &[], iris: &["https://ex.org/T72/p1", "https://ex.org/T72/p2", "https://ex.org/T88/p1", "https://ex.org/T88/p2", "https://ex.org/T88/p3"], arb: <T88>::arb, ser: ser::<T88, 1>, de: de::<T88, 1> },
	Entry { name: "T89", nin: 2, layouts: &["T89", "T72", "String"], consts: &["https://ex.org/nil"], iris: &["https://ex.org/T72/p1", "https://ex.org/T72/p2", "https://ex.org/T89/p1", "https://ex.org/T89/p2", "https://ex.org/T89/p3", "https://ex.org/nil"], arb: <T89>::arb, ser: ser::<T89, 2>, de: de::<T89, 2> },
	Entry { name: "T90", nin: 1, layouts: &["T90", "T72", "String"], consts: &[], iris: &["https://ex.org/T72/p1", "https://ex.org/T72/p2", "https://ex.org/T90/p1", "https://ex.org/T90/p2", "https://ex.org/c2"], arb: <T90>::arb, ser: ser::<T90, 1>, de: de::<T90, 1> },
	Entry { name: "T91", nin: 2, layouts: &["T91", "T72", "String"], consts: &["https://ex.org/g1"], iris: &["https://ex.org/T72/p1", "https://ex.org/T72/p2", "https://ex.org/T91/is", "https://ex.org/T91/p2", "https://ex.org/T91/p3", "https://ex.org/c1", "https://ex.org/g1", "https://ex.org/p1"], arb: <T91>::arb, ser: ser::<T91, 2>, de: de::<T91, 2> },
	Entry { name: "T92", nin: 1, layouts: &["T92", "T72", "String"], consts: &["https://ex.org/g0", "https://ex.org/g1"], iris: &["https://ex.org/T72/p1", "https://ex.org/T72/p2", "https://ex.org/T92/p1", "https://ex.org/T92/p2", "https://ex.org/T92/p3", "https://ex.org/c1", "https://ex.org/g0", "https://ex.org/g1"], arb: <T92>::arb, ser: ser::<T92, 1>, de: de::<T92, 1> },
	Entry { name: "T93", nin: 1, layouts: &["T93", "T72", "String"], consts: &["https://ex.org/g0", "https://ex.org/g1"], iris: &["https://ex.org/T72/p1", "https://ex.org/T72/p2", "https://ex.org/T93/p1", "https://ex.org/g0", "https://ex.org/g1"], arb: <T93>::arb, ser: ser::<T93, 1>, de: de::<T93, 1> },
	Entry { name: "T94", nin: 2, layouts: &["T94", "T72", "String"], consts: &["https://ex.org/c0", "https://ex.org/g0"], iris: &["https://ex.org/T72/p1", "https://ex.org/T72/p2", "https://ex.org/T94/is", "https://ex.org/T94/p1", "https://ex.org/T94/p2", "https://ex.org/c0", "https://ex.org/c2", "https://ex.org/g0"], arb: <T94>::arb, ser: ser::<T94, 2>, de: de::<T94, 2> },
	Entry { name: "T95", nin: 2, layouts: &["T95", "T72", "String"], consts: &["https://ex.org/g1"], iris: &["https://ex.org/T72/p1", "https://ex.org/T72/p2", "https://ex.org/T95/is", "https://ex.org/T95/p1", "https://ex.org/T95/p2", "https://ex.org/c0", "https://ex.org/g1"], arb: <T95>::arb, ser: ser::<T95, 2>, de: de::<T95, 2> },
	Entry { name: "T96", nin: 1, layouts: &["T96", "T72", "String"], consts: &["https://ex.org/g0"], iris: &["https://ex.org/T72/p1", "https://ex.org/T72/p2", "https://ex.org/T96/p1", "https://ex.org/T96/p2", "https://ex.org/g0"], arb: <T96>::arb, ser: ser::<T96, 1>, de: de::<T96, 1> },
	Entry { name: "T97", nin: 1, layouts: &["T97", "T72", "String"], consts: &[], iris: &["https://ex.org/T72/p1", "https://ex.org/T72/p2", "https://ex.org/T97/p1"], arb: <T97>::arb, ser: ser::<T97, 1>, de: de::<T97, 1> },
	Entry { name: "T98", nin: 2, layouts: &["T98", "T72", "String"], consts: &[], iris: &["https://ex.org/T72/p1", "https://ex.org/T72/p2", "https://ex.org/p1"], arb: <T98>::arb, ser: ser::<T98, 2>, de: de::<T98, 2> },
	Entry { name: "T99", nin: 1, layouts: &["T99", "T72", "String"], consts: &[], iris: &["https://ex.org/T72/p1", "https://ex.org/T72/p2", "https://ex.org/T99/p1", "https://ex.org/c0"], arb: <T99>::arb, ser: ser::<T99, 1>, de: de::<T99, 1> },
	Entry { name: "T100", nin: 1, layouts: &["T100", "T72", "String"], consts: &[], iris: &["https://ex.org/T100/p1", "https://ex.org/T72/p1", "https://ex.org/T72/p2"], arb: <T100>::arb, ser: ser::<T100, 1>, de: de::<T100, 1> },
	Entry { name: "T101", nin: 1, layouts: &["T101", "T73", "String"], consts: &[], iris: &["https://ex.org/T101/p1", "https://ex.org/T73/is", "https://ex.org/T73/p1", "https://ex.org/T73/p2", "https://ex.org/T73/p4", "https://ex.org/c1", "https://ex.org/c2", "https://ex.org/p0"], arb: <T101>::arb, ser: ser::<T101, 1>, de: de::<T101, 1> },
	Entry { name: "T102", nin: 1, layouts: &["T102", "T73", "String"], consts: &["https://ex.org/g1"], iris: &["https://ex.org/T102/p1", "https://ex.org/T102/p2", "https://ex.org/T73/is", "https://ex.org/T73/p1", "https://ex.org/T73/p2", "https://ex.org/T73/p4", "https://ex.org/c2", "https://ex.org/g1", "https://ex.org/p0"], arb: <T102>::arb, ser: ser::<T102, 1>, de: de::<T102, 1> },
	Entry { name: "T103", nin: 1, layouts: &["T103", "T73", "String"], consts: &["https://ex.org/g0"], iris: &["https://ex.org/T103/is", "https://ex.org/T103/p1", "https://ex.org/T103/p2", "https://ex.org/T103/p3", "https://ex.org/T73/is", "https://ex.org/T73/p1", "https://ex.org/T73/p2", "https://ex.org/T73/p4", "https://ex.org/c2", "https://ex.org/g0", "https://ex.org/p0"], arb: <T103>::arb, ser: ser::<T103, 1>, de: de::<T103, 1> },
	Entry { name: "T104", nin: 2, layouts: &["T104", "T73", "String"], consts: &[], iris: &["https://ex.org/T104/is", "https://ex.org/T104/p1", "https://ex.org/T104/p2", "https://ex.org/T73/is", "https://ex.org/T73/p1", "https://ex.org/T73/p2", "https://ex.org/T73/p4", "https://ex.org/c0", "https://ex.org/c2", "https://ex.org/p0"], arb: <T104>::arb, ser: ser::<T104, 2>, de: de::<T104, 2> },
	Entry { name: "T105", nin: 1, layouts: &["T105", "T73", "String"], consts: &[], iris: &["https://ex.org/T105/p1", "https://ex.org/T105/p2", "https://ex.org/T105/p3", "https://ex.org/T105/p4", "https://ex.org/T105/p5", "https://ex.org/T73/is", "https://ex.org/T73/p1", "https://ex.org/T73/p2", "https://ex.org/T73/p4", "https://ex.org/c1", "https://ex.org/c2", "https://ex.org/p0"], arb: <T105>::arb, ser: ser::<T105, 1>, de: de::<T105, 1> },
	Entry { name: "T106", nin: 2, layouts: &["T106", "T73", "String"], consts: &[], iris: &["https://ex.org/T106/p1", "https://ex.org/T106/p2", "https://ex.org/T106/p3", "https://ex.org/T106/p4", "https://ex.org/T73/is", "https://ex.org/T73/p1", "https://ex.org/T73/p2", "https://ex.org/T73/p4", "https://ex.org/c2", "https://ex.org/p0"], arb: <T106>::arb, ser: ser::<T106, 2>, de: de::<T106, 2> },
	Entry { name: "T107", nin: 1, layouts: &["T107", "T73", "String"], consts: &["https://ex.org/g0"], iris: &["https://ex.org/T107/p1", "https://ex.org/T73/is", "https://ex.org/T73/p1", "https://ex.org/T73/p2", "https://ex.org/T73/p4", "https://ex.org/c2", "https://ex.org/g0", "https://ex.org/p0"], arb: <T107>::arb, ser: ser::<T107, 1>, de: de::<T107, 1> },
	Entry { name: "T108", nin: 1, layouts: &["T108", "T73", "String"], consts: &["https://ex.org/g0"], iris: &["https://ex.org/T108/p1", "https://ex.org/T108/p2", "https://ex.org/T73/is", "https://ex.org/T73/p1", "https://ex.org/T73/p2", "https://ex.org/T73/p4", "https://ex.org/c0", "https://ex.org/c2", "https://ex.org/g0", "https://ex.org/p0"], arb: <T108>::arb, ser: ser::<T108, 1>, de: de::<T108, 1> },
	Entry { name: "T109", nin: 1, layouts: &["T109", "T73", "String"], consts: &[], iris: &["https://ex.org/T109/p1", "https://ex.org/T73/is", "https://ex.org/T73/p1", "https://ex.org/T73/p2", "https://ex.org/T73/p4", "https://ex.org/c2", "https://ex.org/p0"], arb: <T109>::arb, ser: ser::<T109, 1>, de: de::<T109, 1> },
	Entry { name: "T110", nin: 1, layouts: &["T110", "T73", "String"], consts: &[], iris: &["https://ex.org/T110/p1", "https://ex.org/T110/p2", "https://ex.org/T110/p3", "https://ex.org/T73/is", "https://ex.org/T73/p1", "https://ex.org/T73/p2", "https://ex.org/T73/p4", "https://ex.org/c2", "https://ex.org/p0"], arb: <T110>::arb, ser: ser::<T110, 1>, de: de::<T110, 1> },
	Entry { name: "T111", nin: 1, layouts: &["T111", "T74", "String"], consts: &["https://ex.org/g0", "https://ex.org/g1"], iris: &["https://ex.org/T111/p1", "https://ex.org/T111/p2", "https://ex.org/T74/p1", "https://ex.org/T74/p2", "https://ex.org/g0", "https://ex.org/g1"], arb: <T111>::arb, ser: ser::<T111, 1>, de: de::<T111, 1> },
	Entry { name: "T112", nin: 1, layouts: &["T112", "T74", "String"], consts: &["https://ex.org/g0"], iris: &["https://ex.org/T112/p1", "https://ex.org/T74/p1", "https://ex.org/T74/p2", "https://ex.org/g0"], arb: <T112>::arb, ser: ser::<T112, 1>, de: de::<T112, 1> },
	Entry { name: "T113", nin: 1, layouts: &["T113", "T74", "String"], consts: &["https://ex.org/g0"], iris: &["https://ex.org/T113/p1", "https://ex.org/T74/p1", "https://ex.org/T74/p2", "https://ex.org/g0"], arb: <T113>::arb, ser: ser::<T113, 1>, de: de::<T113, 1> },
	Entry { name: "T114", nin: 2, layouts: &["T114", "T74", "String"], consts: &["https://ex.org/g0"], iris: &["https://ex.org/T114/is", "https://ex.org/T114/p1", "https://ex.org/T114/p2", "https://ex.org/T114/p3", "https://ex.org/T114/p4", "https://ex.org/T114/p6", "https://ex.org/T114/p7", "https://ex.org/T74/p1", "https://ex.org/T74/p2", "https://ex.org/c2", "https://ex.org/g0", "https://ex.org/p0"], arb: <T114>::arb, ser: ser::<T114, 2>, de: de::<T114, 2> },
	Entry { name: "T115", nin: 1, layouts: &["T115", "T74", "String"], consts: &["https://ex.org/g0"], iris: &["https://ex.org/T74/p1", "https://ex.org/T74/p2", "https://ex.org/g0"], arb: <T115>::arb, ser: ser::<T115, 1>, de: de::<T115, 1> },
	Entry { name: "T116", nin: 1, layouts: &["T116", "T74", "String"], consts: &["https://ex.org/g0"], iris: &["https://ex.org/T116/p1", "https://ex.org/T116/p2", "https://ex.org/T74/p1", "https://ex.org/T74/p2", "https://ex.org/g0"], arb: <T116>::arb, ser: ser::<T116, 1>, de: de::<T116, 1> },
	Entry { name: "T117", nin: 1, layouts: &["T117", "T74", "String"], consts: &["https://ex.org/g0", "https://ex.org/g1"], iris: &["https://ex.org/T117/p1", "https://ex.org/T117/p2", "https://ex.org/T74/p1", "https://ex.org/T74/p2", "https://ex.org/g0", "https://ex.org/g1", "https://ex.org/p1"], arb: <T117>::arb, ser: ser::<T117, 1>, de: de::<T117, 1> },
	Entry { name: "T118", nin: 2, layouts: &["T118", "T74", "String"], consts: &["https://ex.org/g0"], iris: &["https://ex.org/T118/p1", "https://ex.org/T118/p2", "https://ex.org/T74/p1", "https://ex.org/T74/p2", "https://ex.org/g0"], arb: <T118>::arb, ser: ser::<T118, 2>, de: de::<T118, 2> },
	Entry { name: "T119", nin: 2, layouts: &["T119", "T74", "String"], consts: &["https://ex.org/g0"], iris: &["https://ex.org/T119/p1", "https://ex.org/T119/p2", "https://ex.org/T74/p1", "https://ex.org/T74/p2", "https://ex.org/g0"], arb: <T119>::arb, ser: ser::<T119, 2>, de: de::<T119, 2> },
	Entry { name: "T120", nin: 1, layouts: &["T120", "T74", "String"], consts: &["https://ex.org/g0"], iris: &["https://ex.org/T120/p1", "https://ex.org/T120/p2", "https://ex.org/T120/p3", "https://ex.org/T120/p4", "https://ex.org/T74/p1", "https://ex.org/T74/p2", "https://ex.org/g0"], arb: <T120>::arb, ser: ser::<T120, 1>, de: de::<T120, 1> },
	Entry { name: "T121", nin: 2, layouts: &["T121", "T75", "String"], consts: &["https://ex.org/g0"], iris: &["https://ex.org/T121/is", "https://ex.org/T121/p2", "https://ex.org/T121/p3", "https://ex.org/T75/p1", "https://ex.org/c1", "https://ex.org/g0", "https://ex.org/p0"], arb: <T121>::arb, ser: ser::<T121, 2>, de: de::<T121, 2> },
	Entry { name: "T122", nin: 1, layouts: &["T122", "T75", "String"], consts: &[], iris: &["https://ex.org/T122/p1", "https://ex.org/T122/p2", "https://ex.org/T122/p3", "https://ex.org/T122/p4", "https://ex.org/T75/p1"], arb: <T122>::arb, ser: ser::<T122, 1>, de: de::<T122, 1> },
	Entry { name: "T123", nin: 1, layouts: &["T123", "T75", "String"], consts: &["https://ex.org/g1"], iris: &["https://ex.org/T123/p1", "https://ex.org/T123/p2", "https://ex.org/T123/p3", "https://ex.org/T75/p1", "https://ex.org/g1"], arb: <T123>::arb, ser: ser::<T123, 1>, de: de::<T123, 1> },
	Entry { name: "T124", nin: 1, layouts: &["T124", "T75", "String"], consts: &["https://ex.org/c0", "https://ex.org/g1"], iris: &["https://ex.org/T124/p1", "https://ex.org/T124/p2", "https://ex.org/T124/p3", "https://ex.org/T75/p1", "https://ex.org/c0", "https://ex.org/g1"], arb: <T124>::arb, ser: ser::<T124, 1>, de: de::<T124, 1> },
	Entry { name: "T125", nin: 1, layouts: &["T125", "T75", "String"], consts: &["https://ex.org/g0"], iris: &["https://ex.org/T125/p1", "https://ex.org/T75/p1", "https://ex.org/g0"], arb: <T125>::arb, ser: ser::<T125, 1>, de: de::<T125, 1> },
	Entry { name: "T126", nin: 1, layouts: &["T126", "T75", "String"], consts: &[], iris: &["https://ex.org/T126/p1", "https://ex.org/T126/p2", "https://ex.org/T75/p1"], arb: <T126>::arb, ser: ser::<T126, 1>, de: de::<T126, 1> },
	Entry { name: "T127", nin: 2, layouts: &["T127", "T75", "String"], consts: &["https://ex.org/g0"], iris: &["https://ex.org/T127/p1", "https://ex.org/T75/p1", "https://ex.org/g0"], arb: <T127>::arb, ser: ser::<T127, 2>, de: de::<T127, 2> },
	Entry { name: "T128", nin: 1, layouts: &["T128", "T75", "String"], consts: &["https://ex.org/c0", "https://ex.org/g0"], iris: &["https://ex.org/T128/p1", "https://ex.org/T128/p2", "https://ex.org/T75/p1", "https://ex.org/c0", "https://ex.org/g0"], arb: <T128>::arb, ser: ser::<T128, 1>, de: de::<T128, 1> },
	Entry { name: "T129", nin: 1, layouts: &["T129", "T75", "String"], consts: &["https://ex.org/nil"], iris: &["https://ex.org/T129/p1", "https://ex.org/T75/p1", "https://ex.org/nil", "https://ex.org/p0"], arb: <T129>::arb, ser: ser::<T129, 1>, de: de::<T129, 1> },
	Entry { name: "T130", nin: 2, layouts: &["T130", "T75", "String"], consts: &["https://ex.org/g1"], iris: &["https://ex.org/T130/is", "https://ex.org/T130/p1", "https://ex.org/T130/p2", "https://ex.org/T75/p1", "https://ex.org/c1", "https://ex.org/g1", "https://ex.org/p1"], arb: <T130>::arb, ser: ser::<T130, 2>, de: de::<T130, 2> },
	Entry { name: "T131", nin: 1, layouts: &["T131", "T127", "T75", "String"], consts: &["https://ex.org/g0", "https://ex.org/g1"], iris: &["https://ex.org/T127/p1", "https://ex.org/T131/is", "https://ex.org/T131/p1", "https://ex.org/T131/p2", "https://ex.org/T75/p1", "https://ex.org/c1", "https://ex.org/g0", "https://ex.org/g1"], arb: <T131>::arb, ser: ser::<T131, 1>, de: de::<T131, 1> },
	Entry { name: "T132", nin: 1, layouts: &["T132", "T112", "T74", "String"], consts: &["https://ex.org/g0", "https://ex.org/g1"], iris: &["https://ex.org/T112/p1", "https://ex.org/T132/p1", "https://ex.org/T74/p1", "https://ex.org/T74/p2", "https://ex.org/c2", "https://ex.org/g0", "https://ex.org/g1"], arb: <T132>::arb, ser: ser::<T132, 1>, de: de::<T132, 1> },
	Entry { name: "T133", nin: 2, layouts: &["T133", "T120", "T74", "String"], consts: &["https://ex.org/g0"], iris: &["https://ex.org/T120/p1", "https://ex.org/T120/p2", "https://ex.org/T120/p3", "https://ex.org/T120/p4", "https://ex.org/T133/p1", "https://ex.org/T133/p2", "https://ex.org/T133/p3", "https://ex.org/T74/p1", "https://ex.org/T74/p2", "https://ex.org/g0"], arb: <T133>::arb, ser: ser::<T133, 2>, de: de::<T133, 2> },
	Entry { name: "T134", nin: 1, layouts: &["T134", "T113", "T74", "String"], consts: &["https://ex.org/g0"], iris: &["https://ex.org/T113/p1", "https://ex.org/T134/p2", "https://ex.org/T74/p1", "https://ex.org/T74/p2", "https://ex.org/g0", "https://ex.org/p0"], arb: <T134>::arb, ser: ser::<T134, 1>, de: de::<T134, 1> },
	Entry { name: "T135", nin: 1, layouts: &["T135", "T125", "T75", "String"], consts: &["https://ex.org/g0"], iris: &["https://ex.org/T125/p1", "https://ex.org/T135/p1", "https://ex.org/T135/p2", "https://ex.org/T135/p3", "https://ex.org/T75/p1", "https://ex.org/c1", "https://ex.org/g0"], arb: <T135>::arb, ser: ser::<T135, 1>, de: de::<T135, 1> },
	Entry { name: "T136", nin: 1, layouts: &["T136", "T107", "T73", "String"], consts: &["https://ex.org/g0", "https://ex.org/g1"], iris: &["https://ex.org/T107/p1", "https://ex.org/T136/p1", "https://ex.org/T136/p2", "https://ex.org/T136/p3", "https://ex.org/T73/is", "https://ex.org/T73/p1", "https://ex.org/T73/p2", "https://ex.org/T73/p4", "https://ex.org/c2", "https://ex.org/g0", "https://ex.org/g1", "https://ex.org/p0"], arb: <T136>::arb, ser: ser::<T136, 1>, de: de::<T136, 1> },
	Entry { name: "T137", nin: 2, layouts: &["T137", "T129", "T75", "String"], consts: &["https://ex.org/g1", "https://ex.org/nil"], iris: &["https://ex.org/T129/p1", "https://ex.org/T137/is", "https://ex.org/T137/p1", "https://ex.org/T137/p2", "https://ex.org/T75/p1", "https://ex.org/c0", "https://ex.org/c1", "https://ex.org/c2", "https://ex.org/g1", "https://ex.org/nil", "https://ex.org/p0"], arb: <T137>::arb, ser: ser::<T137, 2>, de: de::<T137, 2> },
	Entry { name: "T138", nin: 2, layouts: &["T138", "T124", "T75", "String"], consts: &["https://ex.org/c0", "https://ex.org/g1"], iris: &["https://ex.org/T124/p1", "https://ex.org/T124/p2", "https://ex.org/T124/p3", "https://ex.org/T138/is", "https://ex.org/T138/p1", "https://ex.org/T75/p1", "https://ex.org/c0", "https://ex.org/g1"], arb: <T138>::arb, ser: ser::<T138, 2>, de: de::<T138, 2> },
	Entry { name: "T139", nin: 2, layouts: &["T139", "T117", "T74", "String"], consts: &["https://ex.org/g0", "https://ex.org/g1"], iris: &["https://ex.org/T117/p1", "https://ex.org/T117/p2", "https://ex.org/T74/p1", "https://ex.org/T74/p2", "https://ex.org/g0", "https://ex.org/g1", "https://ex.org/p1"], arb: <T139>::arb, ser: ser::<T139, 2>, de: de::<T139, 2> },
	Entry { name: "T140", nin: 1, layouts: &["T140", "T111", "T74", "String"], consts: &["https://ex.org/g0", "https://ex.org/g1"], iris: &["https://ex.org/T111/p1", "https://ex.org/T111/p2", "https://ex.org/T140/p1", "https://ex.org/T74/p1", "https://ex.org/T74/p2", "https://ex.org/g0", "https://ex.org/g1"], arb: <T140>::arb, ser: ser::<T140, 1>, de: de::<T140, 1> },
	Entry { name: "T141", nin: 1, layouts: &["T141", "T113", "T74", "String"], consts: &["https://ex.org/c2", "https://ex.org/g0", "https://ex.org/g1"], iris: &["https://ex.org/T113/p1", "https://ex.org/T141/p2", "https://ex.org/T74/p1", "https://ex.org/T74/p2", "https://ex.org/c0", "https://ex.org/c2", "https://ex.org/g0", "https://ex.org/g1", "https://ex.org/p0"], arb: <T141>::arb, ser: ser::<T141, 1>, de: de::<T141, 1> },
	Entry { name: "T142", nin: 1, layouts: &["T142", "T115", "T74", "String"], consts: &["https://ex.org/g0"], iris: &["https://ex.org/T142/p1", "https://ex.org/T74/p1", "https://ex.org/T74/p2", "https://ex.org/c0", "https://ex.org/g0"], arb: <T142>::arb, ser: ser::<T142, 1>, de: de::<T142, 1> },
	Entry { name: "T143", nin: 2, layouts: &["T143", "T121", "T75", "String"], consts: &["https://ex.org/g0", "https://ex.org/g1"], iris: &["https://ex.org/T121/is", "https://ex.org/T121/p2", "https://ex.org/T121/p3", "https://ex.org/T143/p1", "https://ex.org/T75/p1", "https://ex.org/c1", "https://ex.org/g0", "https://ex.org/g1", "https://ex.org/p0"], arb: <T143>::arb, ser: ser::<T143, 2>, de: de::<T143, 2> },
	Entry { name: "T144", nin: 1, layouts: &["T144", "T108", "T73", "String"], consts: &["https://ex.org/g0"], iris: &["https://ex.org/T108/p1", "https://ex.org/T108/p2", "https://ex.org/T144/is", "https://ex.org/T144/p1", "https://ex.org/T144/p2", "https://ex.org/T144/p3", "https://ex.org/T73/is", "https://ex.org/T73/p1", "https://ex.org/T73/p2", "https://ex.org/T73/p4", "https://ex.org/c0", "https://ex.org/c2", "https://ex.org/g0", "https://ex.org/p0"], arb: <T144>::arb, ser: ser::<T144, 1>, de: de::<T144, 1> },
	Entry { name: "T145", nin: 1, layouts: &["T145", "T127", "T75", "String"], consts: &["https://ex.org/g0", "https://ex.org/g1"], iris: &["https://ex.org/T127/p1", "https://ex.org/T145/is", "https://ex.org/T145/p1", "https://ex.org/T145/p2", "https://ex.org/T145/p3", "https://ex.org/T145/p4", "https://ex.org/T75/p1", "https://ex.org/c2", "https://ex.org/g0", "https://ex.org/g1"], arb: <T145>::arb, ser: ser::<T145, 1>, de: de::<T145, 1> },
	Entry { name: "String", nin: 1, layouts: &["String"], consts: &[], iris: &[], arb: <String>::arb, ser: ser::<String, 1>, de: de::<String, 1> },
	Entry { name: "i8", nin: 1, layouts: &["i8"], consts: &[], iris: &[], arb: <i8>::arb, ser: ser::<i8, 1>, de: de::<i8, 1> },
	Entry { name: "u16", nin: 1, layouts: &["u16"], consts: &[], iris: &[], arb: <u16>::arb, ser: ser::<u16, 1>, de: de::<u16, 1> },
	Entry { name: "i32", nin: 1, layouts: &["i32"], consts: &[], iris: &[], arb: <i32>::arb, ser: ser::<i32, 1>, de: de::<i32, 1> },
	Entry { name: "i64", nin: 1, layouts: &["i64"], consts: &[], iris: &[], arb: <i64>::arb, ser: ser::<i64, 1>, de: de::<i64, 1> },
	Entry { name: "u32", nin: 1, layouts: &["u32"], consts: &[], iris: &[], arb: <u32>::arb, ser: ser::<u32, 1>, de: de::<u32, 1> },
	Entry { name: "u8", nin: 1, layouts: &["u8"], consts: &[], iris: &[], arb: <u8>::arb, ser: ser::<u8, 1>, de: de::<u8, 1> },
	Entry { name: "i16", nin: 1, layouts: &["i16"], consts: &[], iris: &[], arb: <i16>::arb, ser: ser::<i16, 1>, de: de::<i16, 1> },
	Entry { name: "u64", nin: 1, layouts: &["u64"], consts: &[], iris: &[], arb: <u64>::arb, ser: ser::<u64, 1>, de: de::<u64, 1> },
	Entry { name: "Id", nin: 1, layouts: &["Id"], consts: &[], iris: &[], arb: <rdf_types::Id>::arb, ser: ser::<rdf_types::Id, 1>, de: de::<rdf_types::Id, 1> },
	Entry { name: "bool", nin: 1, layouts: &["bool"], consts: &[], iris: &[], arb: <bool>::arb, ser: ser::<bool, 1>, de: de::<bool, 1> },
	Entry { name: "Unit", nin: 1, layouts: &["Unit"], consts: &[], iris: &[], arb: <()>::arb, ser: ser::<(), 1>, de: de::<(), 1> },
];
