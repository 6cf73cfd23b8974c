use serde_json::Value as J;
use std::io::Write;
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

static TICK: AtomicU64 = AtomicU64::new(0);

/// Watchdog: a case that does not end is reported by the exit status.
fn watch() {
	std::thread::spawn(|| {
		let mut last = (u64::MAX, Instant::now());
		loop {
			std::thread::sleep(Duration::from_millis(200));
			let t = TICK.load(Ordering::SeqCst);
			if t != last.0 {
				last = (t, Instant::now());
			} else if last.1.elapsed() > Duration::from_secs(20) {
				std::process::exit(77);
			}
		}
	});
}

/// The command line of a harness.
pub fn main(case: fn(&str, u64, u64) -> J, replay: fn(J) -> J) {
	let a: Vec<String> = std::env::args().collect();
	if a.len() == 3 && a[1] == "replay" {
		let text = std::fs::read_to_string(&a[2]).unwrap();
		let case: J = serde_json::from_str(&text).unwrap();
		println!("{}", replay(case));
		return;
	}
	if a.len() == 2 && a[1] == "exec" {
		std::panic::set_hook(Box::new(|_| {}));
		watch();
		let h = std::thread::Builder::new()
			.stack_size(64 << 20)
			.spawn(move || {
				for (i, line) in std::io::stdin().lines().enumerate() {
					TICK.store(i as u64, Ordering::SeqCst);
					let case = serde_json::from_str(&line.unwrap()).unwrap();
					println!("{}", replay(case));
				}
			})
			.unwrap();
		if h.join().is_err() {
			std::process::exit(3);
		}
		return;
	}
	if a.len() != 6 || a[1] != "run" {
		eprintln!("usage: tldr-verif run SUITE SEED FROM TO");
		std::process::exit(2);
	}
	let (suite, seed) = (a[2].clone(), a[3].parse::<u64>().unwrap());
	let (from, to) = (a[4].parse::<u64>().unwrap(), a[5].parse::<u64>().unwrap());
	if std::env::var_os("VERBOSE").is_none() {
		std::panic::set_hook(Box::new(|_| {}));
	}
	watch();
	let h = std::thread::Builder::new()
		.stack_size(64 << 20)
		.spawn(move || {
			let out = std::io::stdout();
			for i in from..to {
				TICK.store(i, Ordering::SeqCst);
				let mut o = out.lock();
				writeln!(o, "{{\"begin\":{i}}}").unwrap();
				o.flush().unwrap();
				drop(o);
				let case = case(&suite, seed, i);
				let mut o = out.lock();
				writeln!(o, "{case}").unwrap();
			}
		})
		.unwrap();
	if h.join().is_err() {
		std::process::exit(3);
	}
}
