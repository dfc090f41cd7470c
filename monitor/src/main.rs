//! Runs the real program under generated workloads and judges what it is seen doing.
//!
//! `monitor <PROPERTY>` runs the check of a property. It needs PEMV_DEV (and PEMV_REL) to name the
//! built programs, and writes to the directories VERIF_EVIDENCE and VERIF_REPLAYS.

#![allow(clippy::too_many_lines)]

mod checks;
mod ctx;
mod exec;
mod gen;
mod hexu;
mod model;
mod novel;
mod rng;
mod sys;
mod term;
mod view;

use std::path::{Path, PathBuf};

use ctx::{Ctx, Tier};
use exec::Runner;

/// The check itself cannot work: neither a pass nor a violation.
pub fn fatal(msg: &str) -> ! {
	eprintln!("the check could not be carried out: {msg}");
	std::process::exit(2)
}

fn var(name: &str) -> String {
	std::env::var(name).unwrap_or_else(|_| fatal(&format!("{name} is not set")))
}

fn main() {
	let args: Vec<String> = std::env::args().collect();
	if args.get(1).is_some_and(|a| a == "--footprint") {
		checks::effort::starter(&args[2..]);
	}
	if let [_, flag, dir] = args.as_slice() {
		if flag == "--known-lines" {
			novel::list(Path::new(dir));
			return;
		}
	}
	if args.len() != 2 {
		fatal("usage: monitor <PROPERTY>");
	}
	let Some(check) = checks::CHECKS.iter().find(|c| c.id == args[1]) else {
		fatal(&format!("unknown property {}", args[1]))
	};
	// The program gets the usual stack, whatever the caller's limit is, and bounded memory
	sys::limit(sys::RLIMIT_STACK, 8 << 20);
	sys::limit(sys::RLIMIT_CORE, 0);
	if check.id != "C07" {
		// AddressSanitizer reserves terabytes
		sys::limit(sys::RLIMIT_AS, 12 << 30);
	}
	// SAFETY: plain call; the program under test inherits it and so sees a failing write instead of
	// being killed by the file size limit
	unsafe { sys::signal(sys::SIGXFSZ, sys::SIG_IGN) };

	let tier = match std::env::var("VERIF_TIER").as_deref() {
		Ok("thorough") => Tier::Thorough,
		_ => Tier::Quick,
	};
	let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
	let dev = PathBuf::from(var("PEMV_DEV"));
	let rel = std::env::var("PEMV_REL").map_or_else(|_| dev.clone(), PathBuf::from);
	let asan = std::env::var("PEMV_ASAN").map_or_else(|_| dev.clone(), PathBuf::from);
	let asanr = std::env::var("PEMV_ASAN_REL").map_or_else(|_| dev.clone(), PathBuf::from);
	let scratch = PathBuf::from(var("VERIF_SCRATCH")).join(format!("{}-{}", check.id, std::process::id()));
	let empty = scratch.join("empty");
	std::fs::create_dir_all(&empty)
		.unwrap_or_else(|e| fatal(&format!("cannot create {}: {e}", empty.display())));
	let ctx = Ctx::new(
		check.id,
		tier,
		seed,
		Runner { dev, rel, asan, asanr, empty },
		scratch.clone(),
		PathBuf::from(var("VERIF_REPLAYS")),
	);
	// On a thread of its own for the stack: nested data is handled recursively
	std::thread::scope(|s| {
		let r = std::thread::Builder::new()
			.stack_size(256 << 20)
			.spawn_scoped(s, || (check.run)(&ctx))
			.unwrap_or_else(|e| fatal(&format!("cannot start a thread: {e}")))
			.join();
		if r.is_err() {
			fatal("the monitor panicked");
		}
	});
	let evidence = Path::new(&var("VERIF_EVIDENCE")).join(format!("{}.json", check.id));
	let code = ctx.finish(check, &evidence);
	let _ = std::fs::remove_dir_all(&scratch);
	std::process::exit(code);
}
