//! No side effects, and reliable delivery of the output.

use std::{
	collections::BTreeMap,
	fs::File,
	io::{Read, Seek, SeekFrom},
	os::{
		fd::FromRawFd,
		unix::process::{CommandExt, ExitStatusExt},
	},
	path::{Path, PathBuf},
	process::{Command, Stdio},
};

use super::robust::hostile;
use crate::{
	ctx::Ctx,
	exec::{watched, Req, Res},
	gen::{self, Request},
	hexu::hex,
	model::{Op, OPS},
	rng::Rng,
	sys,
};

// ---------------------------------------------------------------------------------------------
// The system call filter

#[repr(C)]
#[derive(Clone, Copy)]
struct Insn {
	code: u16,
	jt:   u8,
	jf:   u8,
	k:    u32,
}
#[repr(C)]
struct Prog {
	len:    u16,
	filter: *const Insn,
}

const LD: u16 = 0x20;
const JEQ: u16 = 0x15;
const JSET: u16 = 0x45;
const RET: u16 = 0x06;
const ALLOW: u32 = 0x7FFF_0000;
const KILL: u32 = 0x8000_0000;
const ENOSYS: u32 = 0x0005_0000 | 38;

/// A filter that ends the program when it asks for a side effect.
fn filter() -> Vec<Insn> {
	let i = |code, jt, jf, k| Insn { code, jt, jf, k };
	// Offsets in struct seccomp_data; the low half of an argument on a little-endian machine
	let arg = |n: u32| 16 + 8 * n;
	let mut p = vec![
		// x86-64 only
		i(LD, 0, 0, 4),
		i(JEQ, 1, 0, 0xC000_003E),
		i(RET, 0, 0, KILL),
		i(LD, 0, 0, 0),
	];
	// Sockets, processes, signals, shared memory, files and their attributes
	for nr in [
		41, 42, 43, 49, 50, 53, 57, 58, 85, 87, 263, 82, 264, 316, 83, 258, 84, 86, 265, 88, 266, 90, 91, 268, 452,
		92, 93, 94, 260, 76, 77, 133, 259, 132, 235, 280, 261, 188, 189, 190, 197, 198, 199, 165, 166, 161, 101, 62,
		234, 200, 129, 297, 424, 29, 64, 68, 240, 319, 425, 311, 285, 326, 40, 275, 278, 437, 288, 44, 46, 307,
		105, 106, 113, 117, 164, 169, 170, 171, 227, 322, 442, 279, 37, 38, 222, 283,
	] {
		p.push(i(JEQ, 0, 1, nr));
		p.push(i(RET, 0, 0, KILL));
	}
	// clone3 is made unavailable so that clone is used
	p.push(i(JEQ, 0, 1, 435));
	p.push(i(RET, 0, 0, ENOSYS));
	// clone: only threads
	p.push(i(JEQ, 0, 4, 56));
	p.push(i(LD, 0, 0, arg(0)));
	p.push(i(JSET, 1, 0, 0x0001_0000));
	p.push(i(RET, 0, 0, KILL));
	p.push(i(RET, 0, 0, ALLOW));
	// open and openat: only for reading
	let writing = 0x1 | 0x2 | 0x40 | 0x200 | 0x400 | 0x40_0000;
	for (nr, a) in [(2, 1), (257, 2)] {
		p.push(i(JEQ, 0, 4, nr));
		p.push(i(LD, 0, 0, arg(a)));
		p.push(i(JSET, 0, 1, writing));
		p.push(i(RET, 0, 0, KILL));
		p.push(i(RET, 0, 0, ALLOW));
	}
	// Nothing is read from standard input
	for nr in [0, 17, 19, 295, 327] {
		p.push(i(JEQ, 0, 4, nr));
		p.push(i(LD, 0, 0, arg(0)));
		p.push(i(JEQ, 0, 1, 0));
		p.push(i(RET, 0, 0, KILL));
		p.push(i(RET, 0, 0, ALLOW));
	}
	// Only the outputs are written to
	for nr in [1, 18, 20, 296, 328] {
		p.push(i(JEQ, 0, 5, nr));
		p.push(i(LD, 0, 0, arg(0)));
		p.push(i(JEQ, 2, 0, 1));
		p.push(i(JEQ, 1, 0, 2));
		p.push(i(RET, 0, 0, KILL));
		p.push(i(RET, 0, 0, ALLOW));
	}
	p.push(i(RET, 0, 0, ALLOW));
	p
}

fn confine(c: &mut Command) {
	let insns = filter();
	// SAFETY: only system calls are made between fork and exec
	unsafe {
		c.pre_exec(move || {
			let prog = Prog { len: insns.len() as u16, filter: insns.as_ptr() };
			if sys::prctl(38, 1, 0, 0, 0) != 0 {
				return Err(std::io::Error::last_os_error());
			}
			// PR_SET_SECCOMP, SECCOMP_MODE_FILTER
			if sys::prctl(22, 2, &raw const prog as std::os::raw::c_ulong, 0, 0) != 0 {
				return Err(std::io::Error::last_os_error());
			}
			Ok(())
		});
	}
}

const SIGSYS: i32 = 31;

/// The filter has to notice what it's there for.
fn self_test(ctx: &Ctx) {
	let dir = ctx.scratch.join("selftest");
	std::fs::create_dir_all(&dir).ok();
	let input = dir.join("input");
	std::fs::write(&input, "x\n").ok();
	for (script, killed) in [
		("echo fine", false),
		("echo > made", true),
		("read x", true),
		("/bin/echo a | /bin/cat", true),
		("kill -0 $$", true),
		(": >> input", true),
	] {
		let mut c = Command::new("/bin/sh");
		c.args(["-c", script]).env_clear().current_dir(&dir);
		c.stdin(File::open(&input).unwrap_or_else(|e| crate::fatal(&e.to_string())));
		c.stdout(Stdio::piped()).stderr(Stdio::piped());
		confine(&mut c);
		let res = ctx.runner.run_cmd(c);
		// A shell may run the offender in a child
		let noticed = res.signal == Some(SIGSYS) || res.code == Some(128 + SIGSYS);
		if noticed != killed {
			crate::fatal(&format!("the system call filter does not work on '{script}': {}", res.describe()));
		}
		ctx.event("self-tests of the filter passed");
	}
}

/// Paths, sizes, times and contents of everything in a directory.
fn snapshot(dir: &Path) -> BTreeMap<PathBuf, (u64, i64, Vec<u8>)> {
	use std::os::unix::fs::MetadataExt;
	let mut m = BTreeMap::new();
	let mut todo = vec![dir.to_path_buf()];
	while let Some(d) = todo.pop() {
		if let Ok(md) = std::fs::symlink_metadata(&d) {
			m.insert(d.clone(), (u64::from(md.mode()), md.mtime_nsec() ^ md.mtime(), Vec::new()));
		}
		for e in std::fs::read_dir(&d).into_iter().flatten().flatten() {
			let p = e.path();
			if p.is_dir() {
				todo.push(p);
			} else {
				let md = std::fs::symlink_metadata(&p).map(|x| (x.len(), x.mtime_nsec() ^ x.mtime()));
				let (l, t) = md.unwrap_or((0, 0));
				m.insert(p.clone(), (l, t, std::fs::read(&p).unwrap_or_default()));
			}
		}
	}
	m
}

pub fn c04(ctx: &Ctx) {
	if !cfg!(target_arch = "x86_64") {
		crate::fatal("the system call filter is only written for x86-64");
	}
	self_test(ctx);
	let recorder = std::env::var_os("VERIF_LOOKUPS").map(PathBuf::from).filter(|p| p.exists());
	let Some(recorder) = recorder else { crate::fatal("VERIF_LOOKUPS does not name the preloaded library") };
	ctx.many("confined", ctx.size(3500, 60_000), |ctx, r, i| {
		let home = ctx.scratch.join(format!("home{}", i % 64)).join(format!("{i}"));
		let cwd = home.join("work");
		let tmp = home.join("tmp");
		for d in [&cwd, &tmp] {
			std::fs::create_dir_all(d).unwrap_or_else(|e| crate::fatal(&e.to_string()));
		}
		std::fs::write(cwd.join("notes.txt"), "notes").ok();
		let mut q = match i % 10 {
			0 => hostile(r),
			1 => Req::new([*r.pick(&["--help", "-h", "--version", "--bogus", "-b"])]),
			_ => {
				let mut q = gen::request(r).req();
				if r.one_in(3) {
					q = q.arg(*r.pick(&["--colour=ansi", "--colour=never", "--colour=auto"]));
				}
				q
			}
		};
		if r.one_in(3) {
			let t = *r.pick(&["[default]\nsort_parsed_tags = false\n", "[global]\ncli_colour = \"ansi\"\n", "[default]\nsort_parsed_tags = 3\n"]);
			std::fs::write(cwd.join("pemv.toml"), t).ok();
		}
		let input = home.join("input");
		std::fs::write(&input, "5A 02 12 34\n").ok();
		q = q
			.cwd(&cwd)
			.env("HOME", &home)
			.env("TMPDIR", &tmp)
			.env("XDG_CACHE_HOME", &tmp)
			.env("XDG_STATE_HOME", &tmp)
			.env("XDG_CONFIG_HOME", &tmp)
			.env("USER", "card");
		if r.bool() {
			// Files and settings that tempt a program to keep records
			for f in [".pemv", ".pemv_history", ".pemvrc", "pemv.log"] {
				std::fs::write(home.join(f), "kept\n").ok();
				std::fs::write(tmp.join(f), "kept\n").ok();
			}
			for d in [home.join(".cache/pemv"), home.join(".config/pemv"), tmp.join("pemv"), cwd.join("target")] {
				std::fs::create_dir_all(d).ok();
			}
			let log = tmp.join("pemv.log");
			for k in ["PEMV_LOG", "PEMV_LOG_FILE", "PEMV_DEBUG", "PEMV_TRACE", "PEMV_CACHE", "PEMV_HISTORY", "PEMV_OUTPUT", "LOG_FILE"] {
				if r.bool() {
					q = q.env(k, if r.bool() { log.as_os_str() } else { std::ffi::OsStr::new("1") });
				}
			}
			for (k, v) in [("RUST_LOG", "trace"), ("RUST_BACKTRACE", "1"), ("DEBUG", "1"), ("VERBOSE", "1"), ("PAGER", "cat"), ("TERM", "xterm"), ("CI", "true"), ("HISTFILE", "history")] {
				if r.bool() {
					q = q.env(k, v);
				}
			}
		}
		if i % 4 == 1 {
			if super::lookups::tempt(ctx, r, &mut q, &recorder, &home) == 0 {
				ctx.event("asked for nothing but its settings");
			}
		}
		let before = snapshot(&home);
		let stdin = File::open(&input).unwrap_or_else(|e| crate::fatal(&e.to_string()));
		let mut theirs = stdin.try_clone().unwrap_or_else(|e| crate::fatal(&e.to_string()));
		let mut c = ctx.runner.command(&q);
		c.stdin(stdin);
		confine(&mut c);
		let res = ctx.runner.run_cmd(c);
		ctx.executed(q.hash64(), !res.out.is_empty() || !res.err.is_empty());
		ctx.sample(|| format!("{} => {}", q.describe(), crate::ctx::summary(&res)));
		if res.signal == Some(SIGSYS) {
			ctx.violation(
				"The program asked for a side effect (a file, socket, process, signal or standard input)",
				&[(&q, &res)],
				"no such system call",
			);
		} else {
			ctx.event("ran to its end without asking for a side effect");
		}
		let at = theirs.stream_position().unwrap_or(0);
		if at != 0 {
			ctx.violation("Standard input was consumed", &[(&q, &res)], "untouched standard input");
		}
		let after = snapshot(&home);
		if before == after {
			ctx.event("directories were the same afterwards");
		} else {
			ctx.violation("A file or directory was changed", &[(&q, &res)], "unchanged directories");
		}
		// The same without confinement: it was not changed by it, and nothing appears then either
		if i % 4 == 0 {
			let free = ctx.runner.run(&q);
			if !free.same(&res) && res.signal != Some(SIGSYS) {
				ctx.violation(
					"The program behaves differently under the system call filter",
					&[(&q, &free), (&q, &res)],
					"the same behaviour, because no system call is filtered",
				);
			}
			if snapshot(&home) != before {
				ctx.violation("A file or directory was changed", &[(&q, &free)], "unchanged directories");
			}
		}
		let _ = std::fs::remove_dir_all(&home);
	});
	ctx.require("ran to its end without asking for a side effect", 500);
}

// ---------------------------------------------------------------------------------------------
// Delivery

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
enum Stream {
	Out,
	Err,
}

pub fn c05(ctx: &Ctx) {
	let shim = std::env::var_os("VERIF_SHIM").map(PathBuf::from).filter(|p| p.exists());
	let Some(shim) = shim else { crate::fatal("VERIF_SHIM does not name the preloaded library") };
	let per = ctx.size(90, 400) as usize;
	ctx.many("requests", ctx.size(64, 900), |ctx, r, i| {
		let q = loop {
			let q = match i % 8 {
				0 => {
					// One of each operation, accepted
					let op = OPS[(i / 8) as usize % OPS.len()];
					sure(r, op)
				}
				1 => {
					// Refused
					Request::new(Op::Tvr, hex(&r.bytes(3)))
				}
				2 => {
					// Over the usual buffer sizes
					let mut b = Vec::new();
					while b.len() < 1500 {
						b.extend(gen::ber_block(r));
					}
					Request::new(Op::Ber, hex(&b))
				}
				_ => gen::request(r),
			};
			let w = q.wanted();
			if w.is_err() || w.is_ok_and(|d| !d.lines.is_empty()) {
				break q;
			}
		};
		let mut req = q.req();
		if i % 16 == 3 {
			// Nothing to do: the help is the answer
			req = Req::new(
				[
					&["--colour=never"][..],
					&["--colour=always"],
					&["--no-sort-parsed-tags"],
					&["--masking-character=#"],
					&["--colour=never", "--sort-parsed-tags", "--masking-character=*"],
				][(i / 16) as usize % 5],
			);
		}
		let full = ctx.run(&req);
		if !full.ordinary() || (full.out.is_empty() == full.err.is_empty()) {
			// For C01 and C02 to say
			ctx.event("not a plain breakdown or error");
			return;
		}
		let which = if full.out.is_empty() { Stream::Err } else { Stream::Out };
		let whole = if which == Stream::Out { &full.out } else { &full.err };
		let n = whole.len();
		let positions: Vec<usize> = if n + 2 <= per {
			(0..n + 2).collect()
		} else {
			let mut p: Vec<usize> = (0..per).map(|_| r.below(n + 1)).collect();
			p.extend([0, 1, n - 1, n, n + 1]);
			for b in [1024, 4096, 8192] {
				if b < n {
					p.extend([b - 1, b, b + 1]);
				}
			}
			p
		};
		let file = ctx.scratch.join(format!("limited{i}"));
		for k in positions {
			if ctx.stopped() {
				break;
			}
			// A size limit: the kernel accepts part of a write, then refuses
			let (got, res) = to_limited_file(ctx, &req, which, k as u64, &file);
			delivered(ctx, "size limit", &req, &full, whole, &got, &res, n > k, Some(k.min(n)), k);
			// The same and other errors from the system call itself, lasting or passing
			let (plan, missing) = match r.below(4) {
				0 => (format!("E{k}:28"), k < n),
				1 => (format!("E{k}:5,S{}", r.range(1, 40)), k < n),
				2 => (format!("E{k}:32,I{}", r.range(2, 5)), k < n),
				_ => (format!("E{k}:11"), k < n),
			};
			let (got, res) = with_shim(ctx, &req, which, &shim, &plan);
			delivered(ctx, "failing write", &req, &full, whole, &got, &res, missing, Some(k.min(n)), k);
			if r.one_in(4) {
				let (got, res) = with_shim(ctx, &req, which, &shim, &format!("O{k}:28"));
				let missing = got.len() < n;
				delivered(ctx, "one failing write", &req, &full, whole, &got, &res, missing, None, k);
			}
		}
		let _ = std::fs::remove_file(&file);
		// Harmless irregularities
		for _ in 0..8 {
			let plan = match r.below(4) {
				0 => "S1".to_owned(),
				1 => format!("S{}", r.range(2, 60)),
				2 => format!("I{}", r.range(2, 4)),
				_ => format!("S{},I{}", r.range(1, 30), r.range(2, 7)),
			};
			let (got, res) = with_shim(ctx, &req, which, &shim, &plan);
			delivered(ctx, "short or interrupted writes", &req, &full, whole, &got, &res, false, Some(n), 0);
		}
		// A full disk
		let mut c = ctx.runner.command(&req);
		if let Ok(f) = File::options().write(true).open("/dev/full") {
			set(&mut c, which, Stdio::from(f));
			let res = ctx.runner.run_cmd(c);
			delivered(ctx, "full device", &req, &full, whole, b"", &res, true, None, 0);
		}
		// A reader that is gone from the start, or goes away in the middle
		let (got, res) = through_pipe(ctx, &req, which, 0);
		delivered(ctx, "closed pipe", &req, &full, whole, &got, &res, true, None, 0);
		if n > 3 * 4096 {
			let k = r.range(1, n - 2 * 4096);
			let (got, res) = through_pipe(ctx, &req, which, k);
			delivered(ctx, "pipe closed in the middle", &req, &full, whole, &got, &res, true, None, k);
		}
	});
	// The end of every kind of output: the last thing written is what nothing after it can notice
	let mut ends: Vec<Request> = Vec::new();
	{
		let mut r = Rng::new(ctx.seed, "ends", 0);
		let r = &mut r;
		let tags: Vec<Vec<u8>> = crate::model::PARSED_TAGS.iter().map(|t| crate::hexu::unhex(t)).collect();
		for t in &tags {
			for _ in 0..3 {
				let v = gen::good_value(r, t);
				ends.push(Request::new(Op::Ber, hex(&gen::object(r, t, &v))));
			}
			ends.push(Request::new(Op::Ber, hex(&gen::object(r, t, b"***"))));
			// Refused
			for _ in 0..2 {
				let n = r.below(10);
				let v = r.bytes(n);
				ends.push(Request::new(Op::Ber, hex(&gen::object(r, t, &v))));
			}
		}
		for v in [
			"5A0412345678", "500441424344", "5000", "70005A0112", "7000", "70035A0112", "DF010100", "DF0100", "70022A2A",
			"50208180828384858687888990919293949596979899A0A1A2A3A4A5A6A7A8A9AAAB", "9F4E0A41424344454647484920",
			// Refused in different ways
			"9A80", "9A8500", "9A", "9A05", "9F", "1F8182", "9500", "8E050000000000", "8A0141", "5F300299FF", "5F30020A0B",
			"700595800000", "9F3403FFFFFF", "123",
		] {
			ends.push(Request::new(Op::Ber, v));
			ends.push(Request::new(Op::Auto, v));
		}
		for v in [
			"T5A:04:h12345678", "T50:04:aABCD", "T50:00:h", "T50:00:a", "C1:01:h00", "T50:04:h********", "T50:04:a****", "T50",
			"T50:", "T5:04:h12345678", "T50:0500000000:h", "T50:04:x12345678", "T50:04:h123456", "é", "T95:04:aXXXX", "zz",
		] {
			ends.push(Request::new(Op::Ingenico, v));
			ends.push(Request::new(Op::Auto, v));
		}
		for (op, vs) in [
			(Op::ServiceCode, &["201", "000", "999", "1000", "x", "70000"][..]),
			(Op::Identify, &["9A", "9F02", "DFFF01", "3F", "9", "z"]),
			(Op::Tvr, &["0000000000", "FFFFFFFFFF", "8000000000", "00", "0"]),
			(Op::Tsi, &["0000", "FFFF", "0800", "00"]),
			(Op::CvmResults, &["000000", "1E0302", "3F2001", "1E0307", "1E03"]),
			(Op::CvmList, &["0000000000000000", "00000000000000001E03", "00000001000000021E034203", "00", "000000000000000000"]),
			(Op::Cvr, &["0000000000", "FFFFFFFFFF", "00"]),
			(Op::Iad, &["00", "0F", "0FA5"]),
		] {
			ends.extend(vs.iter().map(|v| Request::new(op, *v)));
		}
		for _ in 0..6 {
			ends.push(sure(r, Op::Iad));
		}
	}
	let thorough = ctx.size(1, 12);
	ctx.many("ends", ends.len() as u64 * thorough, |ctx, r, i| {
		let mut req = ends[i as usize % ends.len()].req();
		if i as usize >= ends.len() || r.one_in(4) {
			req = req.arg("--colour=always");
		}
		let full = ctx.run(&req);
		if !full.ordinary() || (full.out.is_empty() == full.err.is_empty()) {
			ctx.event("not a plain breakdown or error");
			return;
		}
		let which = if full.out.is_empty() { Stream::Err } else { Stream::Out };
		let whole = if which == Stream::Out { &full.out } else { &full.err };
		// (What resets the colours at the very end is no text)
		let n = match whole.iter().rposition(|b| *b == b'\n') {
			Some(p) if whole[p + 1..].starts_with(b"\x1b") => p + 1,
			_ => whole.len(),
		};
		// The last byte, the end of the last line, and of the line before
		let line = whole[..n - 1].iter().rposition(|b| *b == b'\n').map_or(0, |p| p + 1);
		let file = ctx.scratch.join(format!("end{i}"));
		for k in [0, line, (line + n) / 2, n - 1] {
			let (got, res) = to_limited_file(ctx, &req, which, k as u64, &file);
			delivered(ctx, "size limit at the end", &req, &full, whole, &got, &res, true, Some(k), k);
			let (got, res) = with_shim(ctx, &req, which, &shim, &format!("E{k}:{}", r.pick(&[28, 5, 32, 122])));
			delivered(ctx, "failing write at the end", &req, &full, whole, &got, &res, true, Some(k), k);
		}
		let _ = std::fs::remove_file(&file);
	});
	ctx.require("size limit at the end: incomplete and reported as failure", 300);
	ctx.require("size limit: incomplete and reported as failure", 500);
	ctx.require("failing write: incomplete and reported as failure", 500);
	ctx.require("short or interrupted writes: complete", 50);
}

fn sure(r: &mut Rng, op: Op) -> Request {
	loop {
		let mut q = gen::request(r);
		if q.op == op && q.wanted().is_ok_and(|d| !d.lines.is_empty()) {
			q.set.sort = true;
			return q;
		}
	}
}

fn set(c: &mut Command, which: Stream, to: Stdio) {
	match which {
		Stream::Out => c.stdout(to),
		Stream::Err => c.stderr(to),
	};
}

#[allow(clippy::too_many_arguments)]
fn delivered(
	ctx: &Ctx,
	kind: &str,
	req: &Req,
	full: &Res,
	whole: &[u8],
	got: &[u8],
	res: &Res,
	missing: bool,
	exactly: Option<usize>,
	at: usize,
) {
	use std::hash::{Hash, Hasher};
	let mut h = std::collections::hash_map::DefaultHasher::new();
	(req.hash64(), kind, at).hash(&mut h);
	ctx.executed(h.finish(), true);
	let succeeded = res.code == Some(0);
	let bad = if res.timed_out {
		Some("the program did not end")
	} else if !whole.starts_with(got) {
		Some("what was delivered is no prefix of the whole output")
	} else if exactly.is_some_and(|n| got.len() != n && !missing) {
		Some("something is missing or repeated although nothing failed for good")
	} else if missing && succeeded {
		Some("part of the output is missing, but success is reported")
	} else if exactly.is_some() && !missing && res.code != full.code {
		Some("everything was delivered, but the status is different")
	} else {
		None
	};
	match bad {
		Some(what) => {
			let mut shown = res.clone();
			shown.out = got.to_vec();
			ctx.violation(
				&format!("{kind} (at byte {at} of {}): {what}", whole.len()),
				&[(req, &shown), (req, full)],
				"an exact prefix of the complete output, and a failing status if anything is missing",
			);
		}
		None => ctx.event(&format!(
			"{kind}: {}",
			if missing { "incomplete and reported as failure" } else { "complete" }
		)),
	}
}

fn to_limited_file(ctx: &Ctx, req: &Req, which: Stream, limit: u64, path: &Path) -> (Vec<u8>, Res) {
	let f = File::options().read(true).write(true).create(true).truncate(true).open(path);
	let mut f = f.unwrap_or_else(|e| crate::fatal(&format!("{}: {e}", path.display())));
	let mut c = ctx.runner.command(req);
	let theirs = f.try_clone().unwrap_or_else(|e| crate::fatal(&e.to_string()));
	set(&mut c, which, Stdio::from(theirs));
	// SAFETY: only a system call
	unsafe {
		c.pre_exec(move || {
			let l = sys::rlimit { cur: limit, max: limit };
			if sys::setrlimit(sys::RLIMIT_FSIZE, &l) != 0 {
				return Err(std::io::Error::last_os_error());
			}
			Ok(())
		});
	}
	let res = ctx.runner.run_cmd(c);
	let mut got = Vec::new();
	let _ = f.seek(SeekFrom::Start(0));
	let _ = f.read_to_end(&mut got);
	(got, res)
}

fn with_shim(ctx: &Ctx, req: &Req, which: Stream, shim: &Path, plan: &str) -> (Vec<u8>, Res) {
	let q = req.clone().env("LD_PRELOAD", shim).env("FAULT_PLAN", plan);
	let mut c = ctx.runner.command(&q);
	// The faults would also hit what the program says about them
	set(&mut c, if which == Stream::Out { Stream::Err } else { Stream::Out }, Stdio::null());
	let res = ctx.runner.run_cmd(c);
	let mut got = if which == Stream::Out { res.out.clone() } else { res.err.clone() };
	if which == Stream::Err {
		// A panic message about the failure may follow when the fault has passed
		if let Some(p) = got.windows(8).position(|w| w == b"\nthread ") {
			got.truncate(p);
		}
	}
	(got, res)
}

fn through_pipe(ctx: &Ctx, req: &Req, which: Stream, take: usize) -> (Vec<u8>, Res) {
	let mut fds = [0i32; 2];
	// SAFETY: plain system calls; the descriptors are new and owned here
	let (mut rd, wr) = unsafe {
		if sys::pipe2(fds.as_mut_ptr(), sys::O_CLOEXEC) != 0 {
			crate::fatal("cannot make a pipe");
		}
		sys::fcntl(fds[1], sys::F_SETPIPE_SZ, 4096);
		(File::from_raw_fd(fds[0]), File::from_raw_fd(fds[1]))
	};
	let mut c = ctx.runner.command(req);
	set(&mut c, if which == Stream::Out { Stream::Err } else { Stream::Out }, Stdio::null());
	set(&mut c, which, Stdio::from(wr));
	let mut got = vec![0; take];
	if take == 0 {
		crate::exec::close(rd);
	} else {
		let mut child = crate::exec::spawn(&mut c).unwrap_or_else(|e| crate::fatal(&format!("cannot start: {e}")));
		drop(c);
		let pid = child.id();
		let (st, timed_out) = watched(pid, || {
			let mut n = 0;
			while n < take {
				match rd.read(&mut got[n..]) {
					Ok(0) | Err(_) => break,
					Ok(k) => n += k,
				}
			}
			got.truncate(n);
			crate::exec::close(rd);
			child.wait()
		});
		let st = st.unwrap_or_else(|e| crate::fatal(&e.to_string()));
		return (got, Res { code: st.code(), signal: st.signal(), out: Vec::new(), err: Vec::new(), timed_out });
	}
	let res = ctx.runner.run_cmd(c);
	(Vec::new(), res)
}
