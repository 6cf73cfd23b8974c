//! Runs generated scenarios on the real code and logs them as traces.
//!
//!   tldr-verif run SUITE SEED FROM TO     one JSON line per case, on stdout
//!
//!   tldr-verif exec                       runs the cases given on stdin (one per line)
//!   tldr-verif replay FILE                runs one logged case again
//!
//! A line `{"begin": i}` precedes the result of case i, so that a crash or a
//! hang of the process can be attributed.
use tldr_verif::{run, suites};

fn main() {
	run::main(suites::case, suites::replay)
}
