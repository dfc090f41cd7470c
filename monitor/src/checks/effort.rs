//! C08: effort in proportion to the data. Instructions are counted by valgrind's cachegrind, which
//! gives (nearly) the same count every time on any machine, whatever else it is doing. Requests of one
//! shape are given in three sizes; what each further byte costs must not grow with the size.

use std::{
	os::unix::process::CommandExt,
	process::{Command, Stdio},
};

use crate::{
	ctx::Ctx,
	exec::{Build, Req, Res},
	gen::{self, Request},
	hexu::{hex, unhex},
	model::{Op, OPS},
	rng::Rng,
	sys,
};

/// Multiples of the smallest size.
const SIZES: [usize; 3] = [1, 2, 8];

struct Cost {
	instructions: f64,
	/// Of the request and of what is printed.
	bytes:        f64,
	res:          Res,
}

fn cost(ctx: &Ctx, q: &Req, name: &str) -> Option<Cost> {
	let log = ctx.scratch.join(name);
	let mut c = Command::new("valgrind");
	c.args(["--tool=cachegrind", "--cache-sim=no", "--cachegrind-out-file=/dev/null"])
		.arg(format!("--log-file={}", log.display()))
		.arg("--")
		.arg(ctx.runner.bin(q.build))
		.args(&q.args);
	c.env_clear().env("PATH", std::env::var_os("PATH").unwrap_or_default());
	c.current_dir(&ctx.runner.empty);
	c.stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped());
	let res = ctx.runner.run_cmd(c);
	let text = std::fs::read_to_string(&log).unwrap_or_default();
	let _ = std::fs::remove_file(&log);
	let n: String = text
		.lines()
		.find(|l| l.contains("refs:"))?
		.split("refs:")
		.nth(1)?
		.chars()
		.filter(char::is_ascii_digit)
		.collect();
	if res.timed_out {
		// Counting makes it much slower: without
		let start = std::time::Instant::now();
		let res = ctx.run(q);
		if res.timed_out || start.elapsed().as_secs() >= 10 {
			ctx.violation("A request takes very long", &[(q, &res)], "costs in proportion to the size of the data");
		}
	}
	if !res.ordinary() {
		return None;
	}
	ctx.executed(q.hash64(), true);
	let bytes = q.args.iter().map(|a| a.len()).sum::<usize>() + res.out.len() + res.err.len();
	Some(Cost { instructions: n.parse().ok()?, bytes: bytes as f64, res })
}

/// The shapes: what they are called, and a request of a given size.
type Shape = (&'static str, Box<dyn Fn(&mut Rng, usize) -> Request + Sync + Send>);

fn shape(name: &'static str, f: impl Fn(&mut Rng, usize) -> Request + Sync + Send + 'static) -> Shape {
	(name, Box::new(f))
}

fn joined(items: &[(Vec<u8>, Vec<u8>)], op: Op) -> Request {
	if op == Op::Ingenico {
		Request::new(op, gen::ingenico_hex(items))
	} else {
		Request::new(op, hex(&items.iter().flat_map(|(t, v)| gen::object_plain(t, v)).collect::<Vec<u8>>()))
	}
}

fn nested(levels: usize, leaf: &[u8], tail: &[u8]) -> Vec<u8> {
	let mut v = leaf.to_vec();
	for _ in 0..levels {
		v.extend(tail);
		v = gen::object_plain(&[0x70], &v);
	}
	v
}

fn shapes() -> Vec<Shape> {
	vec![
		shape("many empty tags", |_, n| Request::new(Op::Ber, "5A00".repeat(n * 250))),
		shape("many different tags in ascending order", |_, n| {
			let items: Vec<_> = (0..n * 100).map(|i| (different(i), vec![])).collect();
			joined(&items, Op::Ber)
		}),
		shape("many different tags in descending order", |_, n| {
			let items: Vec<_> = (0..n * 100).rev().map(|i| (different(i), vec![])).collect();
			joined(&items, Op::Ber)
		}),
		shape("many different tags in any order", |r, n| {
			let mut items: Vec<_> = (0..n * 100).map(|i| (different(i), vec![])).collect();
			for i in (1..items.len()).rev() {
				items.swap(i, r.below(i + 1));
			}
			joined(&items, Op::Auto)
		}),
		shape("one printable value", |_, n| Request::new(Op::Ber, hex(&gen::object_plain(&[0x5A], &vec![0x41; n * 400])))),
		shape("one value of zeroes", |_, n| Request::new(Op::Ber, hex(&gen::object_plain(&[0x5A], &vec![0; n * 3000])))),
		shape("one value of one byte over and over", |r, n| {
			let b = loop {
				match r.byte() {
					0x2A => (),
					b => break b,
				}
			};
			Request::new(Op::Auto, hex(&gen::object_plain(&[0x5A], &vec![b; n * 3000])))
		}),
		shape("one long value", |r, n| Request::new(Op::Auto, hex(&gen::object_plain(&[0x5A], &r.bytes(n * 3000))))),
		shape("one value of all bytes", |r, n| Request::new(Op::Auto, hex(&gen::object_plain(&[0x5A], &r.bytes(n * 400))))),
		shape("one masked value", |_, n| Request::new(Op::Ber, hex(&gen::object_plain(&[0x5A], &vec![0x2A; n * 1000])))),
		shape("one almost masked value", |_, n| {
			let mut v = vec![0x2A; n * 400];
			v.push(0x2B);
			Request::new(Op::Ber, hex(&gen::object_plain(&[0x5A], &v)))
		}),
		shape("one value in hex digits", |_, n| {
			Request::new(Op::Ingenico, format!("T5A:{:04X}:h{}", n * 400, "41".repeat(n * 400)))
		}),
		shape("one value in characters", |_, n| {
			Request::new(Op::Ingenico, format!("T5A:{:04X}:a{}", n * 400, "B".repeat(n * 400)))
		}),
		shape("one masked value in characters", |_, n| {
			Request::new(Op::Ingenico, format!("T5A:{:04X}:a{}", n * 1000, "*".repeat(n * 1000)))
		}),
		shape("many fields", |_, n| Request::new(Op::Ingenico, vec!["T5A:01:h11"; n * 150].join(","))),
		shape("many fields, one of them damaged", |_, n| {
			Request::new(Op::Auto, format!("{},T5A:01:h", vec!["T5A:01:h11"; n * 500].join(",")))
		}),
		shape("many separators", |_, n| Request::new(Op::Ingenico, format!("T5A:01:h11{}", ",".repeat(n * 1000)))),
		shape("many colons", |_, n| Request::new(Op::Ingenico, format!("T5A:01:h{}", ":".repeat(n * 1000)))),
		shape("a length with many zeroes", |_, n| Request::new(Op::Ingenico, format!("T5A:{}01:h11", "00".repeat(n * 2000)))),
		shape("a tag with many zeroes", |_, n| Request::new(Op::Ingenico, format!("T{}5A:01:h11", "00".repeat(n * 2000)))),
		shape("a long tag", |_, n| Request::new(Op::Ber, format!("9F{}0100", "81".repeat(n * 500)))),
		shape("a long tag to identify", |_, n| Request::new(Op::Identify, format!("9F{}01", "81".repeat(n * 1000)))),
		shape("characters that are not hex digits", |_, n| Request::new(Op::Ber, format!("5A{}00", " ".repeat(n * 2000)))),
		shape("characters of several bytes", |_, n| Request::new(Op::Auto, format!("5A{}00", "\u{e9}\u{6f22}".repeat(n * 500)))),
		shape("a list of many rules", |_, n| Request::new(Op::CvmList, format!("{}{}", "0".repeat(16), "0103".repeat(n * 60)))),
		shape("a list of many rules in a tag", |_, n| {
			let mut v = vec![0; 8];
			for _ in 0..n * 60 {
				v.extend([0x42, 0x03]);
			}
			Request::new(Op::Ber, hex(&gen::object_plain(&[0x8E], &v)))
		}),
		shape("many levels", |_, n| Request::new(Op::Ber, hex(&nested(n * 30, &[0x5A, 1, 0x11], &[])))),
		shape("many levels that are not TLV", |_, n| Request::new(Op::Ber, hex(&nested(n * 30, &[0x5A, 1, 0x11], &[0xFF])))),
		shape("many levels with an unacceptable value in the middle", |_, n| {
			Request::new(Op::Auto, hex(&nested(n * 30, &[0x95, 1, 0x11], &[])))
		}),
		shape("many levels, cut", |_, n| {
			let mut v = nested(n * 250, &[0x5A, 1, 0x11], &[]);
			v.pop();
			Request::new(Op::Auto, hex(&v))
		}),
		shape("more levels than are supported", |_, n| Request::new(Op::Ber, hex(&nested(260 + n * 10, &[0x5A, 1, 0x11], &[])))),
		shape("thirty levels around a long value", |r, n| {
			let v = gen::object_plain(&[0x5A], &r.bytes(n * 40));
			Request::new(Op::Ber, hex(&nested(30, &v, &[])))
		}),
		shape("many children of a tag in a tag", |_, n| {
			let v = gen::object_plain(&[0x5A], &[1]).repeat(n * 60);
			Request::new(Op::Ber, hex(&nested(2, &v, &[])))
		}),
		shape("many constructed tags next to each other", |_, n| Request::new(Op::Ber, "700470025A00".repeat(n * 60))),
		shape("many tags, the last of which is cut", |_, n| Request::new(Op::Auto, format!("{}5A02", "5A00".repeat(n * 400)))),
		shape("many tags, the last of which is unacceptable", |_, n| Request::new(Op::Ber, format!("{}9500", "5A00".repeat(n * 400)))),
		shape("many masked tags", |_, n| Request::new(Op::Ber, "5A022A2A".repeat(n * 120))),
		shape("many damaged lengths", |_, n| Request::new(Op::Auto, "7F84FFFFFFFF".repeat(n * 300))),
		shape("neither format", |_, n| Request::new(Op::Auto, "T5A,zz:,".repeat(n * 300))),
	]
}

/// Tags of two bytes, without interpretation.
fn different(i: usize) -> Vec<u8> {
	unhex(&format!("DF{:02X}{:02X}", 0x80 | (i / 128) & 0x7F, i % 128))
}

fn judge(ctx: &Ctx, what: &str, costs: &[Option<Cost>], reqs: &[Req]) {
	let [Some(a), Some(b), Some(c)] = costs else {
		ctx.event("not measured");
		return;
	};
	// A longer value may be another thing altogether
	if a.res.out.is_empty() != b.res.out.is_empty() || b.res.out.is_empty() != c.res.out.is_empty() {
		ctx.event("not of one kind: not compared");
		return;
	}
	let per_byte = |x: &Cost, y: &Cost| (y.instructions - x.instructions) / (y.bytes - x.bytes).max(1.0);
	let (early, late) = (per_byte(a, b).max(0.0), per_byte(b, c));
	let excess = c.instructions - (b.instructions + early * (c.bytes - b.bytes));
	if late > 1.5 * early + 20.0 && excess > 3e6 {
		ctx.violation(
			&format!("{what}: each further byte costs {early:.0} instructions at first and {late:.0} later"),
			&[(&reqs[2], &c.res)],
			"costs in proportion to the size of the data",
		);
	} else {
		ctx.event("shapes whose cost is in proportion to their size");
		ctx.events("instructions counted", (a.instructions + b.instructions + c.instructions) as u64);
	}
}

pub fn c08(ctx: &Ctx) {
	if !Command::new("valgrind").arg("--version").output().is_ok_and(|o| o.status.success()) {
		crate::fatal("valgrind is needed for counting instructions");
	}
	let shapes = shapes();
	let rounds = ctx.size(1, 12);
	ctx.many("shapes", shapes.len() as u64 * rounds, |ctx, r, i| {
		let (what, make) = &shapes[i as usize % shapes.len()];
		let sort = r.bool();
		// Larger in later rounds
		let scale = 1 + (i as usize / shapes.len()) % 4;
		let reqs: Vec<Req> = SIZES.iter().map(|n| make(r, n * scale).sort(sort).req().build(Build::Rel)).collect();
		if reqs.iter().any(|q| q.args.iter().any(|a| a.len() > gen::MAX_VALUE)) {
			return;
		}
		let costs: Vec<_> = reqs.iter().enumerate().map(|(k, q)| cost(ctx, q, &format!("s{i}-{k}"))).collect();
		judge(ctx, what, &costs, &reqs);
	});
	// Templates within each other: of every tag, too deep for effort that doubles with each level
	ctx.many("levels of every tag", 256 + 4 * 128, |ctx, r, i| {
		let tag = match i {
			0..=255 if i & 0x20 != 0 && i & 0x1F != 0x1F => vec![i as u8],
			0..=255 => return,
			_ => vec![(i as u8 & 3) << 6 | 0x3F, ((i - 256) / 4) as u8],
		};
		let mut v = (*r.pick(&[&[0x5A, 1, 0x11][..], &[0x5A, 2, 0x11], &[0x95, 1, 0], &[]])).to_vec();
		let beside = r.below(4);
		for _ in 0..60 {
			match beside {
				0 => drop(v.splice(0..0, [0x50, 0])),
				1 => v.extend([0x50, 0]),
				_ => {}
			}
			v = gen::object_plain(&tag, &v);
		}
		let q = Request::new(if r.one_in(3) { Op::Auto } else { Op::Ber }, hex(&v)).sort(r.bool()).req().build(Build::Rel);
		let start = std::time::Instant::now();
		let res = ctx.run(&q);
		if res.timed_out || start.elapsed().as_secs() >= 20 {
			ctx.violation("Nested tags take very long", &[(&q, &res)], "costs in proportion to the size of the data");
		} else {
			ctx.event("tags nested sixty levels deep in little time");
		}
	});
	ctx.require("tags nested sixty levels deep in little time", 600);
	ctx.many("levels of one tag", ctx.size(24, 400), |ctx, r, i| {
		let a = gen::constructed_tag(r);
		// Sometimes in turn with another one
		let b = if r.one_in(3) { gen::constructed_tag(r) } else { a.clone() };
		let (before, after) = (r.one_in(4), r.one_in(4));
		let broken = r.one_in(4);
		let reqs: Vec<Req> = SIZES
			.iter()
			.map(|n| {
				let mut v = if broken { vec![0x5A, 2, 0x11] } else { vec![0x5A, 1, 0x11] };
				for k in 0..n * 12 {
					if before {
						v.splice(0..0, [0x50, 0]);
					}
					if after {
						v.extend([0x50, 0]);
					}
					v = gen::object_plain(if k % 2 == 0 { &a } else { &b }, &v);
				}
				Request::new(Op::Ber, hex(&v)).req().build(Build::Rel)
			})
			.collect();
		let costs: Vec<_> = reqs.iter().enumerate().map(|(k, q)| cost(ctx, q, &format!("l{i}-{k}"))).collect();
		judge(ctx, "Levels of one tag", &costs, &reqs);
	});
	// Anything, repeated
	ctx.many("repeated", ctx.size(120, 1500), |ctx, r, i| {
		let unit = match r.below(4) {
			0 => gen::rich(r),
			_ => {
				let mut q = gen::request(r);
				for _ in 0..50 {
					if q.op.is_tlv() || q.op == Op::CvmList {
						break;
					}
					q = gen::request(r);
				}
				q
			}
		};
		// Only what is well-formed is the same again when it is repeated
		if unit.value.is_empty() || !unit.op.is_tlv() || unit.wanted().is_err() {
			return;
		}
		let sep = if unit.value.contains(':') { "," } else { "" };
		let times = (1200 / unit.value.len()).max(1);
		let reqs: Vec<Req> = SIZES
			.iter()
			.map(|n| {
				let mut q = unit.clone();
				q.value = vec![unit.value.as_str(); n * times].join(sep);
				q.req().build(Build::Rel)
			})
			.collect();
		if reqs.iter().any(|q| q.args.iter().any(|a| a.len() > gen::MAX_VALUE)) {
			return;
		}
		let costs: Vec<_> = reqs.iter().enumerate().map(|(k, q)| cost(ctx, q, &format!("r{i}-{k}"))).collect();
		judge(ctx, "Repeated data", &costs, &reqs);
	});
	// Values that are too long for what they are
	const KINDS: usize = 7;
	ctx.many("long values", (OPS.len() * KINDS) as u64 * ctx.size(1, 6), |ctx, r, i| {
		let (op, kind) = (OPS[i as usize / KINDS % OPS.len()], i as usize % KINDS);
		let b = r.byte();
		let unit = match kind {
			0 => "00".to_owned(),
			1 => "FF".to_owned(),
			2 => hex(&[b]),
			3 => (*r.pick(&[" ", ",", ":", "-", "T", "x"])).to_owned(),
			4 => hex(&gen::any_tag(r)),
			5 => hex(&r.bytes(5)),
			_ => (*r.pick(&["\u{e9}", "\u{6f22}", "0", "9", "*"])).to_owned(),
		};
		let (head, tail) = match r.below(3) {
			0 => (String::new(), "5A01".to_owned()),
			1 => ("9F".to_owned(), String::new()),
			_ => (String::new(), String::new()),
		};
		let size = if ctx.quick() { *r.pick(&[700, 2000]) } else { *r.pick(&[1400, 6000]) };
		let reqs: Vec<Req> = SIZES
			.iter()
			.map(|n| Request::new(op, format!("{head}{}{tail}", unit.repeat(n * size / unit.len()))).req().build(Build::Rel))
			.collect();
		let costs: Vec<_> = reqs.iter().enumerate().map(|(k, q)| cost(ctx, q, &format!("f{i}-{k}"))).collect();
		judge(ctx, "A long value", &costs, &reqs);
	});
	memory(ctx, &shapes);
	ctx.require("shapes whose cost is in proportion to their size", 50);
	ctx.require("requests whose memory is in proportion to their size", 50);
}

/// Memory that may be reserved, whatever the data.
const RESERVED: u64 = 256 << 20;

fn memory(ctx: &Ctx, shapes: &[Shape]) {
	ctx.many("memory", shapes.len() as u64 + ctx.size(200, 4000), |ctx, r, i| {
		let q = match shapes.get(i as usize) {
			Some((_, make)) => {
				let mut n = 40;
				loop {
					let q = make(r, n);
					if q.value.len() <= 100_000 || n == 1 {
						break q;
					}
					n /= 2;
				}
			}
			None if r.bool() => {
				// Lengths that announce more than there is
				let n = *r.pick(&[0x7FFF_FFFFu32, 0xFFFF_FFFF, 0x1000_0000, 0x4000_0000, 0x00FF_FFFF]);
				match r.below(4) {
					0 => Request::new(Op::Ber, format!("{}84{n:08X}1122", hex(&gen::any_tag(r)))),
					1 => Request::new(Op::Ingenico, format!("T5A:{n:08X}:h1122")),
					2 => Request::new(Op::Ber, hex(&nested(3, &unhex(&format!("5A84{n:08X}11")), &[]))),
					_ => Request::new(Op::Auto, format!("T5A:{n:08X}:a**")),
				}
			}
			None => gen::request(r),
		};
		let q = q.req().build(Build::Rel);
		let (rss, res) = footprint(ctx, &q, &format!("m{i}"));
		if res.timed_out {
			return;
		}
		ctx.executed(q.hash64() ^ 1, true);
		let bytes = q.args.iter().map(|a| a.len()).sum::<usize>() + res.out.len() + res.err.len();
		let bound = (16 << 20) + 80 * bytes as u64;
		if !res.ordinary() {
			ctx.violation(
				"Reserves much more memory than the data needs",
				&[(&q, &res)],
				&format!("to get along with {} MiB of address space", RESERVED >> 20),
			);
		} else if rss > bound {
			ctx.violation(
				&format!("Uses {rss} bytes of memory for {bytes} bytes of data and output"),
				&[(&q, &res)],
				&format!("at most {bound}"),
			);
		} else {
			ctx.event("requests whose memory is in proportion to their size");
		}
	});
}

/// The largest amount of memory in use. What a process used before it executed a program counts for
/// the program as well, so it is started by another small process instead of this large one.
fn footprint(ctx: &Ctx, q: &Req, name: &str) -> (u64, Res) {
	let file = ctx.scratch.join(name);
	let mut c = ctx.runner.command(q);
	let mut starter = Command::new(std::env::current_exe().unwrap_or_else(|e| crate::fatal(&e.to_string())));
	starter.arg("--footprint").arg(&file).arg(c.get_program()).args(c.get_args()).env_clear();
	if let Some(d) = c.get_current_dir() {
		starter.current_dir(d);
	}
	for (k, v) in c.get_envs() {
		if let Some(v) = v {
			starter.env(k, v);
		}
	}
	c = starter;
	c.stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped());
	let mut res = ctx.runner.run_cmd(c);
	let text = std::fs::read_to_string(&file).unwrap_or_default();
	let _ = std::fs::remove_file(&file);
	let mut numbers = text.split_whitespace().filter_map(|n| n.parse::<u64>().ok());
	let (Some(rss), Some(status)) = (numbers.next(), numbers.next()) else {
		if !res.timed_out {
			crate::fatal("no measurement of memory");
		}
		return (0, res);
	};
	let status = status as i32;
	let signal = status & 0x7F;
	res.code = (signal == 0).then_some((status >> 8) & 0xFF);
	res.signal = (signal != 0).then_some(signal);
	(rss * 1024, res)
}

/// `monitor --footprint FILE PROGRAM ARGUMENTS...`: runs the program with bounded address space, and
/// writes how much memory it used, and its status, to the file.
pub fn starter(args: &[String]) -> ! {
	let [file, program, rest @ ..] = args else { crate::fatal("nothing to start") };
	let mut c = Command::new(program);
	c.args(rest);
	// SAFETY: only system calls
	unsafe {
		c.pre_exec(|| {
			sys::prctl(sys::PR_SET_PDEATHSIG, 9, 0, 0, 0);
			let l = sys::rlimit { cur: RESERVED, max: RESERVED };
			sys::setrlimit(sys::RLIMIT_AS, &l);
			Ok(())
		});
	}
	let child = c.spawn().unwrap_or_else(|e| crate::fatal(&format!("cannot start: {e}")));
	let mut status = 0;
	let mut usage = sys::rusage { utime: [0; 2], stime: [0; 2], maxrss: 0, rest: [0; 13] };
	// SAFETY: the pointers are valid, and nobody else waits for the child
	unsafe { sys::wait4(child.id() as i32, &mut status, 0, &mut usage) };
	std::fs::write(file, format!("{} {status}\n", usage.maxrss)).unwrap_or_else(|e| crate::fatal(&e.to_string()));
	std::process::exit(0)
}
