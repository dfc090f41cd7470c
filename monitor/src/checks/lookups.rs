//! What the program looks at: the names of the variables and files it asks for, as it runs.
//!
//! Everything it is seen asking for, other than its settings, is then given to it in several forms,
//! so that a reaction to it, if there is one, can be observed.

use std::{
	collections::BTreeSet,
	io::{Read, Seek},
	os::unix::process::CommandExt,
	path::{Path, PathBuf},
};

use crate::{ctx::Ctx, exec::Req, novel, rng::Rng};

const FD: i32 = 97;

/// Runs the request and returns what it asked for.
pub fn asked(ctx: &Ctx, q: &Req, recorder: &Path, log: &Path) -> (BTreeSet<String>, BTreeSet<PathBuf>) {
	let mut file = std::fs::File::options()
		.read(true)
		.append(true)
		.create(true)
		.open(log)
		.unwrap_or_else(|e| crate::fatal(&format!("{}: {e}", log.display())));
	file.set_len(0).ok();
	let mut c = ctx.runner.command(q);
	c.env("LD_PRELOAD", recorder).env("LOOKUPS_FD", FD.to_string());
	let fd = std::os::fd::AsRawFd::as_raw_fd(&file);
	// SAFETY: a plain system call between fork and exec
	unsafe {
		c.pre_exec(move || {
			crate::sys::dup2(fd, FD);
			Ok(())
		});
	}
	ctx.runner.run_cmd(c);
	let mut text = Vec::new();
	file.rewind().ok();
	file.read_to_end(&mut text).ok();
	let mut names = BTreeSet::new();
	let mut files = BTreeSet::new();
	for l in String::from_utf8_lossy(&text).lines() {
		match (l.get(..1), l.get(1..)) {
			(Some("E"), Some(n)) => {
				names.insert(n.to_owned());
			}
			(Some("P"), Some(n)) => {
				files.insert(PathBuf::from(n));
			}
			_ => {}
		}
	}
	(names, files)
}

/// Its settings, and what the recorder and the tests of a sanitizer need.
fn own(name: &str) -> bool {
	name.starts_with("PEMV_") || name.starts_with("LD_") || matches!(name, "LOOKUPS_FD" | "ASAN_OPTIONS" | "CLOCK_SHIFT")
}

/// Gives the request, in `home`, what it asks for. Returns how much was given.
pub fn tempt(ctx: &Ctx, r: &mut Rng, q: &mut Req, recorder: &Path, home: &Path) -> usize {
	let cwd = q.cwd.clone().unwrap_or_else(|| home.to_path_buf());
	let log = ctx.scratch.join(format!("lookups-{:?}", std::thread::current().id()));
	let mut given = 0;
	let mut seen: BTreeSet<String> = q.env.iter().map(|(k, _)| k.to_string_lossy().into_owned()).collect();
	// What is named in new parts of the sources may be all it takes
	if let Some(p) = novel::pool() {
		for n in p.names() {
			if !own(n) && seen.insert(n.clone()) {
				*q = q.clone().env(n, value(r, home));
				given += 1;
			}
		}
		for f in p.files() {
			if f != "pemv.toml" && f != "other.toml" {
				let d = if r.bool() { &cwd } else { home };
				given += usize::from(make(r, &d.join(f)));
			}
		}
	}
	for _ in 0..4 {
		let (names, files) = asked(ctx, q, recorder, &log);
		let mut more = 0;
		for n in names {
			if !own(&n) && seen.insert(n.clone()) {
				*q = q.clone().env(&n, value(r, home));
				more += 1;
			}
		}
		for f in files {
			let f = if f.is_absolute() { f } else { cwd.join(f) };
			let settings = f.file_name().is_some_and(|n| n == "pemv.toml");
			if !settings && f.starts_with(home) && f.symlink_metadata().is_err() {
				more += usize::from(make(r, &f));
			}
		}
		given += more;
		if more == 0 {
			break;
		}
	}
	given
}

fn value(r: &mut Rng, home: &Path) -> String {
	let dir = |d: &str| {
		let p = home.join(d);
		std::fs::create_dir_all(&p).ok();
		p.display().to_string()
	};
	if let Some(p) = novel::once_in(r, 3) {
		if !p.strings.is_empty() {
			return r.pick(&p.strings).replace('\0', "");
		}
	}
	match r.below(8) {
		0 | 1 => dir("given"),
		2 => dir("given/deeper"),
		3 => home.join("given.txt").display().to_string(),
		4 => {
			let p = home.join("there.txt");
			std::fs::write(&p, "9B02E800\n").ok();
			p.display().to_string()
		}
		_ => (*r.pick(&[
			"", "0", "1", "2", "20", "-1", "5000", "true", "false", "yes", "no", "on", "off", "always", "never", "auto", "ansi",
			"debug", "trace", "full", "C", "POSIX", "de_DE.UTF-8", "tr_TR.UTF-8", "en_US", "dumb", "xterm-256color", "*", "#", "9B02E800",
			"sort_parsed_tags=false", "cat", "é漢",
		]))
		.to_owned(),
	}
}

fn make(r: &mut Rng, path: &Path) -> bool {
	if path.components().count() > 40 || path.symlink_metadata().is_ok() {
		return false;
	}
	if let Some(d) = path.parent() {
		std::fs::create_dir_all(d).ok();
	}
	match r.below(6) {
		0 | 1 => std::fs::create_dir_all(path).is_ok(),
		2 => std::fs::write(path, "9B02E800\n").is_ok(),
		3 => std::fs::write(path, "[default]\nsort_parsed_tags = false\ncli_colour = \"always\"\nmasking_characters = [\"#\"]\n").is_ok(),
		4 => std::fs::write(path, "").is_ok(),
		_ => std::fs::write(path, "1\n").is_ok(),
	}
}
