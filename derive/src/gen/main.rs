//! Types that the code generator makes of layouts: the scenarios `gens` and
//! `gend`, and `gen` for what it makes of any layout.
mod module;
mod types;

use module as other;

include!("../common.rs");
