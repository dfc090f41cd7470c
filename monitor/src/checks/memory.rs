//! C07: memory is never misused. The program's executions are watched by AddressSanitizer, by the
//! standard library's own checks of unsafe operations (development profile), by valgrind's memcheck
//! (uninitialised memory) and by Miri (invalid values, aliasing, alignment).

use std::{
	ffi::OsStr,
	os::unix::ffi::OsStrExt,
	process::{Command, Stdio},
};

use super::robust::{config_text, hostile};
use crate::{
	ctx::Ctx,
	exec::{contains, Build, Req, Res},
	gen::{self, Request},
	hexu::{hex, unhex},
	model::{self, Op, OPS},
	rng::Rng,
};

/// What the instruments say when memory was misused.
const REPORTS: &[&[u8]] = &[
	b"ERROR: AddressSanitizer",
	b"unsafe precondition(s) violated",
	b"Undefined Behavior",
	b"misaligned pointer dereference",
	b"null pointer dereference occurred",
	b"trying to construct an enum from an invalid value",
	b"entered unreachable code: internal error", // of unreachable_unchecked in checked builds
];

fn judge(ctx: &Ctx, q: &Req, res: &Res, instrument: &str) {
	if res.timed_out {
		ctx.event("took too long under the instruments: not judged");
		return;
	}
	// Running out of stack, or of memory, is C01's concern
	if contains(&res.err, b"overflowed its stack")
		|| contains(&res.err, b"AddressSanitizer: stack-overflow")
		|| contains(&res.err, b"hard rss limit")
		|| contains(&res.err, b"AddressSanitizer: out of memory")
	{
		ctx.event("ran out of stack or memory: not judged");
		return;
	}
	let reported = REPORTS.iter().any(|r| contains(&res.err, r))
		|| (res.code == Some(99) && instrument != "Miri")
		|| matches!(res.signal, Some(4 | 7 | 8 | 11));
	if reported {
		ctx.violation(&format!("{instrument} reports a misuse of memory"), &[(q, res)], "no report");
		return;
	}
	// Bytes that are not text can only come from unchecked conversions, or from the request itself
	let plain = q.args.iter().all(|a| a.to_str().is_some()) && q.env.iter().all(|(_, v)| v.to_str().is_some());
	if plain && (std::str::from_utf8(&res.out).is_err() || std::str::from_utf8(&res.err).is_err()) {
		ctx.violation("something that is not valid text is printed", &[(q, res)], "valid UTF-8");
		return;
	}
	ctx.event(&format!("{instrument}: no report"));
}

pub fn c07(ctx: &Ctx) {
	let asan = |ctx: &Ctx, q: Req| {
		for b in [Build::Asan, Build::AsanRel] {
			let q = q.clone().build(b);
			let res = ctx.run(&q);
			judge(ctx, &q, &res, "AddressSanitizer");
		}
	};
	ctx.many("rich", ctx.size(300, 4000), |ctx, r, _| asan(ctx, gen::rich(r).req()));
	ctx.many("general", ctx.size(2000, 20_000), |ctx, r, _| asan(ctx, gen::request(r).req()));
	ctx.many("hostile", ctx.size(1500, 20_000), |ctx, r, _| asan(ctx, hostile(r)));
	ctx.many("sizes", (OPS.len() * 40) as u64, |ctx, r, i| {
		let op = OPS[i as usize % OPS.len()];
		let n = i as usize / OPS.len();
		let fill = *r.pick(&[0, 0xFF, 0x3F, 0x80]);
		asan(ctx, Request::new(op, format!(" {}", hex(&vec![fill; n]))).req());
	});
	ctx.many("config", ctx.size(150, 3000), |ctx, r, i| {
		let dir = ctx.scratch.join(format!("cfg{i}"));
		let _ = std::fs::create_dir_all(&dir);
		std::fs::write(dir.join("pemv.toml"), config_text(r)).unwrap_or_else(|e| crate::fatal(&e.to_string()));
		asan(ctx, gen::request(r).req().cwd(&dir));
		let _ = std::fs::remove_dir_all(&dir);
	});
	ctx.require("AddressSanitizer: no report", 2000);
	// The slow instruments
	let miri = Miri::found();
	let valgrind = Command::new("valgrind").arg("--version").output().is_ok_and(|o| o.status.success());
	if miri.is_none() {
		ctx.event("Miri is not available");
	}
	if !valgrind {
		ctx.event("valgrind is not available");
	}
	ctx.many("memcheck", if valgrind { ctx.size(90, 1500) } else { 0 }, |ctx, r, i| {
		let q = match i % 3 {
			0 => gen::rich(r).req(),
			1 => gen::request(r).req(),
			_ => hostile(r),
		};
		if length(&q) < 8000 {
			memcheck(ctx, &q);
		}
	});
	let Some(miri) = miri else { return };
	// Every interpreted tag and every option, a few at a time
	ctx.many("miri", ctx.size(72, 1500), |ctx, r, i| {
		let q = match i % 3 {
			0 => a_few(r, i / 3).req(),
			1 => stand_alone(r, i / 3).req(),
			_ if i % 2 == 0 => gen::request(r).req(),
			_ => hostile(r),
		};
		// Usage messages measure the terminal in ways Miri doesn't know
		let usage = q.args.is_empty() || q.args.iter().any(|a| a == "--help" || a == "-h");
		if length(&q) < 700 && !usage {
			miri.run(ctx, &q, i % 4 == 0);
		}
	});
}

fn length(q: &Req) -> usize {
	q.args.iter().map(|a| a.len()).sum()
}

/// Some of the tags that are interpreted, and some others.
fn a_few(r: &mut Rng, i: u64) -> Request {
	let mut items: Vec<(Vec<u8>, Vec<u8>)> = Vec::new();
	for k in 0..3 {
		let t = unhex(model::PARSED_TAGS[(i as usize * 3 + k) % model::PARSED_TAGS.len()]);
		let v = gen::good_value(r, &t);
		items.push((t, v));
	}
	let n = r.below(20);
	items.push((gen::opaque_tag(r), gen::content(r, n)));
	items.push((gen::opaque_tag(r), vec![b'*'; 3]));
	let inner = gen::object_plain(&[0x5A], &[0x12, 0x34]);
	items.push((gen::constructed_tag(r), inner));
	items.retain(|(t, v)| gen::acceptable(t, v) && v.len() < 40);
	let q = match i % 3 {
		0 => Request::new(Op::Ingenico, gen::ingenico_hex(&items)),
		k => {
			let b: Vec<u8> = items.iter().flat_map(|(t, v)| gen::object_plain(t, v)).collect();
			Request::new(if k == 1 { Op::Auto } else { Op::Ber }, hex(&b))
		}
	};
	q.sort(r.bool())
}

/// Every option in turn, with values of about the right size.
fn stand_alone(r: &mut Rng, i: u64) -> Request {
	let op = OPS[i as usize % OPS.len()];
	for _ in 0..200 {
		let q = gen::request(r);
		if q.op == op && q.value.len() < 200 {
			return q;
		}
	}
	let n = r.below(12);
	Request::new(op, hex(&gen::content(r, n)))
}

fn memcheck(ctx: &Ctx, q: &Req) {
	let q = q.clone().build(Build::Rel);
	let mut c = Command::new("valgrind");
	c.args(["-q", "--error-exitcode=99", "--"]).arg(ctx.runner.bin(q.build)).args(&q.args);
	set_up(ctx, &mut c, &q);
	let res = ctx.runner.run_cmd(c);
	ctx.executed(q.hash64() ^ 1, true);
	judge(ctx, &q, &res, "memcheck");
}

fn set_up(ctx: &Ctx, c: &mut Command, q: &Req) {
	c.env_clear().env("PATH", std::env::var_os("PATH").unwrap_or_default());
	for (k, v) in &q.env {
		c.env(k, v);
	}
	c.current_dir(&ctx.runner.empty);
	c.stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped());
}

/// How the program is started under Miri.
struct Miri {
	bin:     String,
	program: String,
	home:    String,
}

impl Miri {
	fn found() -> Option<Miri> {
		let bin = std::env::var("VERIF_MIRI_BIN").ok()?;
		let program = std::env::var("VERIF_MIRI_PROGRAM").ok()?;
		Some(Miri { bin, program, home: std::env::var("HOME").ok()? })
	}
	fn run(&self, ctx: &Ctx, q: &Req, aliasing: bool) {
		// The interpreter has the same environment
		let own = |k: &OsStr| {
			let k = k.as_bytes();
			[&b"MIRI"[..], b"RUST", b"CARGO", b"LD_", b"HOME", b"PATH"].iter().any(|p| k.starts_with(p))
		};
		if q.env.iter().any(|(k, _)| own(k)) {
			return;
		}
		let borrows = if aliasing { "-Zmiri-tree-borrows" } else { "-Zmiri-disable-stacked-borrows" };
		let mut c = Command::new(format!("{}/cargo-miri", self.bin));
		c.arg("runner").arg(&self.program).args(&q.args);
		set_up(ctx, &mut c, q);
		c.env("HOME", &self.home)
			.env("MIRI", format!("{}/miri", self.bin))
			.env("RUSTC", format!("{}/rustc", self.bin))
			.env("MIRI_SYSROOT", std::env::var("VERIF_MIRI_SYSROOT").unwrap_or_default())
			.env("MIRIFLAGS", format!("-Zmiri-disable-isolation -Zmiri-ignore-leaks -Awarnings {borrows}"));
		let res = ctx.runner.run_cmd(c);
		if contains(&res.err, b"unsupported operation") || contains(&res.err, b"internal compiler error") {
			ctx.event("something Miri doesn't know was used: not judged");
			return;
		}
		ctx.executed(q.hash64() ^ 2, !res.out.is_empty());
		judge(ctx, q, &res, "Miri");
	}
}
