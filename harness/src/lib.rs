//! Scenarios, and what the real code makes of them.
pub mod ast;
pub mod cli;
pub mod dense;
pub mod exec;
pub mod gen;
pub mod interp;
pub mod locate;
pub mod more;
pub mod proj;
pub mod regexp;
pub mod rng;
pub mod run;
pub mod scan;
pub mod suites;
pub mod trees;
pub mod walk;
