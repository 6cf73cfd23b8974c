//! Types that derive their conversions from and to RDF: the scenarios `ders`
//! (serialization) and `derd` (deserialization).
mod types;

/// There are no other scenarios.
mod other {
	use super::{Rng, J};
	pub fn case(_: &mut Rng) -> J {
		panic!("unknown suite")
	}
	pub fn run(_: J) -> J {
		panic!("unknown suite")
	}
	pub use {case as tool_case, run as tool_run};
}

include!("common.rs");
