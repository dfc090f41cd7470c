//! No crashes, all or nothing, determinism, and agreement of the builds.

use std::{
	ffi::OsString,
	io::Write,
	os::unix::ffi::OsStringExt,
	process::Stdio,
};

use super::{accepted, judge_res};
use crate::{
	ctx::Ctx,
	exec::{contains, Build, Req, Res},
	gen::{self, Request},
	hexu::{hex, unhex},
	model::{Op, OPS},
	rng::Rng,
	view::aspect,
};

/// Requests made to break something.
pub fn hostile(r: &mut Rng) -> Req {
	let big = |s: String| s.chars().take(gen::MAX_VALUE).collect::<String>();
	match r.below(16) {
		0 => {
			// Raw bytes
			let n = r.below(12);
			let op = *r.pick(OPS);
			let b = gen::content(r, n);
			Request::new(op, format!("-{}", hex(&b))).req()
		}
		1 => {
			// Deep nesting, complete or not
			let levels = match r.below(4) {
				0 => r.range(240, 260),
				1 => r.range(1, 300),
				_ => r.range(300, 4000),
			};
			let mut v = if r.bool() { gen::any_value(r) } else { Vec::new() };
			let tag = gen::constructed_tag(r);
			let most = if r.one_in(30) { 60_000 } else { 3000 };
			for _ in 0..levels {
				if v.len() > most {
					break;
				}
				v = gen::object_plain(&tag, &v);
			}
			if r.one_in(3) {
				let n = r.below(v.len() + 1);
				v.truncate(n);
			}
			Request::new(*r.pick(&[Op::Ber, Op::Auto]), big(hex(&v))).req()
		}
		2 => {
			// Nesting by the shortest means, with lengths that do not fit
			let unit = *r.pick(&["7080", "70847FFFFFFF", "3F7F82FFFF", "E184FFFFFFFF", "7000", "1F", "9F80", "FF", "80", "84FFFFFFFF"]);
			let most = if r.one_in(10) { 120_000 } else { 4000 };
			let n = r.range(1, most / unit.len());
			Request::new(*r.pick(&[Op::Ber, Op::Auto]), big(unit.repeat(n))).req()
		}
		3 => {
			// Deep nesting inside Ingenico data
			let mut v = gen::any_value(r);
			let most = if r.one_in(30) { 30_000 } else { 2000 };
			for _ in 0..r.range(1, 3000) {
				if v.len() > most {
					break;
				}
				v = gen::object_plain(&[0x70], &v);
			}
			let s = gen::ingenico_hex(&[(vec![0xE0], v)]);
			Request::new(*r.pick(&[Op::Ingenico, Op::Auto]), big(s)).req()
		}
		4 => {
			// Odd Ingenico pieces
			let pieces = ["T", ":", "a", "h", "9F", "02", "FFFFFFFF", "FFFFFFFFFF", "00", "", ",", "é", "漢", "*", "5A", "\n", "0", "+5", "-1"];
			let mut s = String::from("T");
			for _ in 0..r.below(12) {
				s.push_str(r.pick(&pieces));
			}
			Request::new(*r.pick(&[Op::Ingenico, Op::Auto]), s).req()
		}
		5 => {
			// Many small objects
			let t = gen::any_tag(r);
			let v = if r.bool() { Vec::new() } else { gen::good_value(r, &t) };
			let o = gen::object_plain(&t, &v);
			let n = r.below((4000 / o.len()).max(1)) + 1;
			Request::new(Op::Ber, hex(&o.repeat(n))).req()
		}
		6 => {
			// One large value
			let n = *r.pick(&[60_000, 65_400, 65_279, 4096, 32_768, 255, 256, 65_000]);
			let t = gen::any_tag(r);
			let v = gen::content(r, n);
			Request::new(Op::Ber, big(hex(&gen::object(r, &t, &v)))).req()
		}
		7 => {
			// A value option with any size
			let op = *r.pick(&[Op::Tvr, Op::Tsi, Op::Iad, Op::Cvr, Op::CvmResults, Op::CvmList, Op::Identify]);
			let n = if r.one_in(20) { r.below(60_000) } else { r.below(300) };
			let b = gen::content(r, n);
			Request::new(op, format!(" {}", hex(&b))).req()
		}
		8 => {
			// Long lists of rules
			let n = r.range(200, 3000);
			let mut v = vec![0xFF; 8];
			v.extend(r.bytes(2 * n));
			if r.bool() {
				Request::new(Op::CvmList, hex(&v)).req()
			} else {
				let b = gen::object(r, &[0x8E], &v);
				Request::new(Op::Ber, hex(&b)).req()
			}
		}
		9 => {
			// Service codes
			let s = match r.below(6) {
				0 => format!("{}", r.u64()),
				1 => format!("{}", i64::from_ne_bytes(r.u64().to_ne_bytes())),
				2 => "9".repeat(r.range(1, 5000)),
				3 => "0".repeat(r.range(1, 5000)),
				4 => gen::some_hex(r, &[1, 2]),
				_ => format!("{}", *r.pick(&[999u32, 1000, 9999, 65535, 65536, 99999])),
			};
			Request::new(Op::ServiceCode, s).req()
		}
		10 | 11 => {
			// Arbitrary arguments
			let mut q = Req::new(Vec::<&str>::new());
			for _ in 0..r.range(1, 5) {
				let a: OsString = match r.below(5) {
					0 => (*r.pick(&["-", "--", "-m", "--sort", "--no-sort", "--colour", "-h", "-?", "-V", "--help", "--version", "-b", "-a", "-i", "-t", "-r", "--id", "--masking", "-mm", "-ab", "--=", "-=", "--colour=", "--8E"])).into(),
					1 => {
						let n = r.below(20);
						OsString::from_vec(r.bytes(n).into_iter().filter(|b| *b != 0).collect())
					}
					2 => (*r.pick(&OPS.iter().flat_map(|o| o.spellings()).collect::<Vec<_>>())).into(),
					3 => {
						let t = gen::any_value(r);
						gen::some_hex(r, &t).chars().take(1000).collect::<String>().into()
					}
					_ => (*r.pick(&["true", "false", "auto", "never", "always", "ansi", "*", "**", "é", "\u{0}x", ""])).replace('\u{0}', "").into(),
				};
				q = q.arg(a);
			}
			q
		}
		12 | 13 => {
			// Arbitrary environments
			let mut q = gen::request(r).req();
			for _ in 0..r.range(1, 3) {
				let k = *r.pick(&["PEMV_CLI_COLOUR", "PEMV_MASKING_CHARACTERS", "PEMV_SORT_PARSED_TAGS", "PEMV_PROFILE", "PEMV_CONFIG", "PEMV_", "PEMV_X", "LANG", "TERM", "NO_COLOR", "COLUMNS"]);
				let v: OsString = match r.below(4) {
					0 => {
						let n = r.below(12);
						OsString::from_vec(r.bytes(n).into_iter().filter(|b| *b != 0).collect())
					}
					1 => (*r.pick(&["", "[", "]", "{", "[\"*\"]", "[\"**\"]", "[1]", "\"", "true", "1", "never", "always", "{a=1}", "[[[[", "'", "/nonexistent", "/", ".", "99999999999999999999", "global", "default"])).into(),
					2 => "[".repeat(r.range(1, 2000)).into(),
					_ => "x".repeat(r.range(1, 4000)).into(),
				};
				q = q.env(k, v);
			}
			q
		}
		_ => {
			// Arbitrary text
			let op = *r.pick(OPS);
			let n = r.range(1, 60);
			let s: String = (0..n)
				.map(|_| match r.below(8) {
					0 => *r.pick(&['é', '漢', '\u{10FFFF}', '\u{80}', '٣', '😀']),
					1..=4 => *r.pick(&['0', '1', '9', 'A', 'f', 'F', 'T', ':', 'h', 'a', '*', ',', ' ']),
					_ => r.range(1, 127) as u8 as char,
				})
				.collect();
			Request::new(op, s).req()
		}
	}
}

pub fn config_text(r: &mut Rng) -> Vec<u8> {
	let lines = [
		"[default]", "[global]", "[other]", "cli_colour = \"never\"", "cli_colour = \"ansi\"", "cli_colour = 5",
		"masking_characters = [\"*\", \"#\"]", "masking_characters = []", "masking_characters = \"*\"",
		"masking_characters = [\"ab\"]", "sort_parsed_tags = false", "sort_parsed_tags = \"no\"",
		"sort_parsed_tags = true", "unknown = 1", "= 3", "[[default]]", "[default.x]", "\"", "a = {", "x = 1e999",
		"d = 1979-05-27T07:32:00Z", "sort_parsed_tags = 1",
	];
	let mut s = Vec::new();
	for _ in 0..r.below(7) {
		s.extend(r.pick(&lines).as_bytes());
		s.push(b'\n');
	}
	match r.below(8) {
		0 => {
			let n = r.below(40);
			let b = r.bytes(n);
			s.extend(b);
		}
		1 => s.extend(format!("[default]\nmasking_characters = {}", "[".repeat(r.range(1, 1000))).bytes()),
		_ => {}
	}
	s
}

fn well_behaved(ctx: &Ctx, req: &Req, res: &Res) {
	if res.ordinary() {
		ctx.event(match res.code {
			Some(0) if res.err.is_empty() => "ended normally, with a breakdown",
			Some(0) => "ended normally, with an error message",
			_ => "ended normally, with a failing status",
		});
		return;
	}
	let what = if res.timed_out {
		"The program did not end by itself"
	} else if res.signal.is_some() {
		"The program was ended by a signal"
	} else {
		"The program panicked or ended with an unusual status"
	};
	ctx.violation(what, &[(req, res)], "an ordinary exit status");
}

/// Text in which almost no byte is where a character begins.
pub fn dense_text(r: &mut Rng) -> String {
	let lead = match r.below(4) {
		0 => r.below(140),
		_ => r.below(8),
	};
	let mut s: String = (0..lead).map(|_| *r.pick(&['x', '0', 'A', '5', ' ', '*', 'F'])).collect();
	let c: &[char] = *r.pick(&[&['é'] as &[char], &['漢'], &['😀'], &['é', '漢', '😀'], &['٣'], &['\u{301}'], &['\u{10FFFF}', '\u{800}', '\u{80}']]);
	let most = if r.one_in(10) { 700 } else { 90 };
	for _ in 0..r.range(1, most) {
		s.push(*r.pick(c));
		if r.one_in(40) {
			s.push(*r.pick(&['5', ':', ',', ' ', 'T', '*', '\n']));
		}
	}
	s
}

/// The same among what belongs to a format.
fn dense_request(r: &mut Rng) -> Req {
	let t = dense_text(r);
	match r.below(12) {
		0 => Request::new(*r.pick(&[Op::Ingenico, Op::Auto]), format!("T5A:{}:h1234", t)).req(),
		1 => Request::new(*r.pick(&[Op::Ingenico, Op::Auto]), format!("T5A:02:{t}")).req(),
		2 => Request::new(*r.pick(&[Op::Ingenico, Op::Auto]), format!("T{t}:02:h1234")).req(),
		3 => {
			// Of the length that is given, in any unit
			let n = *r.pick(&[t.len(), t.chars().count(), t.len() / 2, t.len() - 1]);
			Request::new(*r.pick(&[Op::Ingenico, Op::Auto]), format!("T50:{n:02X}:{}{t}", *r.pick(&['a', 'h']))).req()
		}
		4 => Request::new(*r.pick(&[Op::Ingenico, Op::Auto]), format!("{t}T50:01:aA{t}T50:01:aA{t}")).req(),
		5 => {
			let v = hex(t.as_bytes());
			Request::new(*r.pick(OPS), v).req()
		}
		6 => {
			// As a value of text
			let b = gen::object_plain(r.pick(&[b"\x50" as &[u8], b"\x9F\x12", b"\x5F\x20", b"\x8A", b"\x5F\x2D", b"\x70", b"\xC1"]), t.as_bytes());
			Request::new(Op::Ber, hex(&b)).req()
		}
		7 => gen::request(r).req().env(*r.pick(&["PEMV_CLI_COLOUR", "PEMV_MASKING_CHARACTERS", "PEMV_SORT_PARSED_TAGS", "PEMV_PROFILE", "PEMV_X"]), t),
		8 => gen::request(r).req().env(format!("PEMV_{}", t.replace('=', "")), "1"),
		9 => Req::new([format!("--{t}")]),
		10 => Req::new([format!("{}={t}", *r.pick(&["--colour", "--sort", "--masking", "-m", "--no-sort", "--mask"]))]),
		_ => Request::new(*r.pick(OPS), t).req(),
	}
}

pub fn c01(ctx: &Ctx) {
	let run = |ctx: &Ctx, q: Req| {
		for b in [Build::Dev, Build::Rel] {
			let q = q.clone().build(b);
			let res = ctx.run(&q);
			well_behaved(ctx, &q, &res);
		}
	};
	ctx.many("general", ctx.size(3000, 60_000), |ctx, r, _| run(ctx, gen::request(r).req()));
	ctx.many("hostile", ctx.size(4000, 80_000), |ctx, r, _| run(ctx, hostile(r)));
	ctx.many("dense text", ctx.size(2500, 40_000), |ctx, r, _| {
		let q = dense_request(r);
		let q = q.build(if r.bool() { Build::Dev } else { Build::Rel });
		let res = ctx.run(&q);
		well_behaved(ctx, &q, &res);
	});
	// Every option with every small size
	ctx.many("sizes", (OPS.len() * 70) as u64, |ctx, r, i| {
		let op = OPS[i as usize % OPS.len()];
		let n = i as usize / OPS.len();
		for fill in [0, 0xFF, 0x3F, r.byte()] {
			run(ctx, Request::new(op, format!(" {}", hex(&vec![fill; n]))).req());
		}
	});
	// Every tag that is interpreted with every small size
	let tags = crate::model::PARSED_TAGS;
	ctx.many("tag sizes", (tags.len() * 40) as u64, |ctx, r, i| {
		let t = unhex(tags[i as usize % tags.len()]);
		let n = i as usize / tags.len();
		let v = gen::content(r, n);
		run(ctx, Request::new(Op::Ber, hex(&gen::object_plain(&t, &v))).req());
	});
	// Short byte strings
	let all = !ctx.quick();
	ctx.many("short", if all { 256 + 65_536 } else { 256 + 2048 }, |ctx, r, i| {
		let b = match i {
			0..=255 => vec![i as u8],
			_ if all => ((i - 256) as u16).to_be_bytes().to_vec(),
			_ => {
				let n = r.range(2, 4);
				r.bytes(n)
			}
		};
		let q = Request::new(Op::Ber, hex(&b)).req().build(if i % 2 == 0 { Build::Dev } else { Build::Rel });
		let res = ctx.run(&q);
		well_behaved(ctx, &q, &res);
	});
	// Configuration files
	ctx.many("config", ctx.size(600, 12_000), |ctx, r, i| {
		let dir = ctx.scratch.join(format!("cfg{i}"));
		let _ = std::fs::create_dir_all(&dir);
		let text = config_text(r);
		std::fs::write(dir.join("pemv.toml"), &text).unwrap_or_else(|e| crate::fatal(&e.to_string()));
		let mut q = gen::request(r).req().cwd(&dir);
		if r.one_in(3) {
			q = q.env("PEMV_PROFILE", *r.pick(&["other", "global", "default", "none", "[", ""]));
		}
		run(ctx, q);
		let _ = std::fs::remove_dir_all(&dir);
	});
	nested_files(ctx);
	ctx.require("ended normally, with a breakdown", 500);
	ctx.require("ended normally, with an error message", 500);
}

/// Configuration files that are nested by thousands of levels: a known finding as long as the
/// program's TOML parser has no limit of its own.
fn nested_files(ctx: &Ctx) {
	let texts = [
		("arrays", format!("[default]\nmasking_characters = {}", "[".repeat(40_000))),
		("inline tables", format!("[default]\nmasking_characters = {}", "{a=".repeat(40_000))),
		("a table name", format!("[default.{}]", vec!["a"; 9000].join("."))),
		("a key", format!("[default]\n{} = 1", vec!["a"; 9000].join("."))),
	];
	for (i, (what, text)) in texts.iter().enumerate() {
		let dir = ctx.scratch.join(format!("nested{i}"));
		let _ = std::fs::create_dir_all(&dir);
		std::fs::write(dir.join("pemv.toml"), text).unwrap_or_else(|e| crate::fatal(&e.to_string()));
		for b in [Build::Dev, Build::Rel] {
			let q = Request::new(Op::Tvr, "0000000000").req().cwd(&dir).build(b);
			let res = ctx.run(&q);
			if res.signal == Some(6) && contains(&res.err, b"overflowed its stack") && ctx.known("config-file-nesting") {
				ctx.event(&format!("known finding: a configuration file with {what} nested by thousands of levels"));
			} else {
				well_behaved(ctx, &q, &res);
			}
		}
		let _ = std::fs::remove_dir_all(&dir);
	}
}

pub fn c02(ctx: &Ctx) {
	let check = |ctx: &Ctx, q: &Request, res: &Res| {
		let req = q.req();
		let shown = !res.out.is_empty();
		let said = !res.err.is_empty();
		if shown && said {
			ctx.violation("Both a breakdown and an error", &[(&req, res)], "one or the other");
		} else if said {
			let n = res.etext().lines().filter(|l| !l.trim().is_empty()).count();
			if n != 1 && !res.err.starts_with(b"error:") {
				ctx.violation(&format!("{n} lines of explanation"), &[(&req, res)], "one explanation");
			}
		} else if res.code != Some(0) {
			ctx.violation("A failure without any explanation", &[(&req, res)], "an explanation");
		}
		judge_res(ctx, &req, res, &q.wanted(), aspect::shown);
	};
	ctx.many("general", ctx.size(4000, 80_000), |ctx, r, _| {
		let q = gen::request(r);
		let res = ctx.run(&q.req());
		check(ctx, &q, &res);
	});
	// One unacceptable tag somewhere
	ctx.many("one bad tag", ctx.size(8000, 120_000), |ctx, r, i| {
		let width = r.range(1, 5);
		let depth = r.below(4);
		let mut f = gen::forest(r, depth, width, true);
		let bad = bad_leaf(r);
		let at = insert(r, &mut f, bad);
		let (b, _) = gen::encode(r, &f, &['*'], 0);
		let value = match i % 4 {
			0 | 1 => hex(&b),
			_ => {
				// The top level as Ingenico fields
				let fields: Vec<_> = f
					.iter()
					.map(|o| {
						let v = match &o.content {
							gen::Content::Leaf(v) => v.clone(),
							gen::Content::Kids(k) => gen::encode(r, k, &['*'], 1).0,
						};
						gen::emv_field(r, &o.tag, &v)
					})
					.collect();
				gen::join_fields(r, &fields)
			}
		};
		if value.len() > gen::MAX_VALUE || value.contains('\0') {
			return;
		}
		let op = match i % 4 {
			0 => Op::Ber,
			2 => Op::Ingenico,
			_ => Op::Auto,
		};
		let q = Request::new(op, value).sort(r.bool());
		let req = q.req();
		let res = ctx.run(&req);
		if q.wanted().is_ok() {
			// Hidden by a masked or unreadable parent
			ctx.event("the unacceptable part is not visible");
			check(ctx, &q, &res);
			return;
		}
		if !res.refused() {
			ctx.violation(
				"A breakdown is shown although one part is unacceptable",
				&[(&req, &res)],
				"nothing on stdout and one explanation on stderr",
			);
			return;
		}
		ctx.event(&format!("one unacceptable tag at depth {at} suppressed everything"));
		check(ctx, &q, &res);
	});
	ctx.require("shown", 1000);
	ctx.require("refused", 1000);
}

/// A tag with a value that is never accepted.
fn bad_leaf(r: &mut Rng) -> gen::Obj {
	let (tag, value) = match r.below(7) {
		0 => (vec![0x95], r.bytes(4)),
		1 => (unhex("9F34"), vec![0x1E, 3, r.range(3, 255) as u8]),
		2 => (unhex("9F35"), vec![0x99]),
		3 => (unhex("9F39"), vec![0x77]),
		4 => (unhex("5F30"), vec![0x10 | r.byte(), r.byte()]),
		5 => (vec![0x8E], r.bytes(9)),
		_ => (unhex("9B"), r.bytes(3)),
	};
	gen::Obj { tag, content: gen::Content::Leaf(value) }
}

fn insert(r: &mut Rng, f: &mut Vec<gen::Obj>, bad: gen::Obj) -> usize {
	let inner: Vec<usize> =
		(0..f.len()).filter(|i| matches!(f[*i].content, gen::Content::Kids(_))).collect();
	if !inner.is_empty() && !r.one_in(3) {
		let i = *r.pick(&inner);
		if let gen::Content::Kids(k) = &mut f[i].content {
			return 1 + insert(r, k, bad);
		}
	}
	let at = r.below(f.len() + 1);
	f.insert(at, bad);
	0
}

const LOCALES: &[&str] = &[
	"C", "POSIX", "C.UTF-8", "en_US.UTF-8", "en_GB.UTF-8", "de_DE.UTF-8", "de_CH.UTF-8", "fr_FR.UTF-8", "es_ES@euro",
	"tr_TR.UTF-8", "ja_JP.UTF-8", "ja_JP.SJIS", "zh_CN.GB18030", "ar_EG.UTF-8", "hi_IN.UTF-8", "ru_RU.KOI8-R", "pt_BR",
	"en_US.ISO-8859-1", "de", "xx", "",
];
const OTHER_VARIABLES: &[(&str, &[&str])] = &[
	("TZ", &["Asia/Tokyo", "America/New_York", "UTC+14", ""]),
	("HOME", &["/nonexistent", "/root", ""]),
	("USER", &["root", "nobody", ""]),
	("LOGNAME", &["someone"]),
	("HOSTNAME", &["terminal-1"]),
	("SHELL", &["/bin/false"]),
	("PWD", &["/nonexistent"]),
	("OLDPWD", &["/nonexistent"]),
	("COLUMNS", &["1", "20", "40", "60", "79", "100", "400"]),
	("LINES", &["1", "5"]),
	("TERM", &["dumb", "xterm", "xterm-256color", "linux", "vt100", "unknown", ""]),
	("TERM_PROGRAM", &["vscode"]),
	("COLORTERM", &["truecolor", "24bit", ""]),
	("PAGER", &["less", "more"]),
	("LESS", &["-R"]),
	("EDITOR", &["vi"]),
	("DISPLAY", &[":0"]),
	("SSH_TTY", &["/dev/pts/0"]),
	("TMPDIR", &["/nonexistent"]),
	("XDG_CONFIG_HOME", &["/nonexistent"]),
	("XDG_CACHE_HOME", &["/nonexistent"]),
	("XDG_STATE_HOME", &["/nonexistent"]),
	("RUST_BACKTRACE", &["1", "full"]),
	("RUST_LOG", &["trace", "pemv=debug"]),
	("RUST_MIN_STACK", &["10000000"]),
	("CI", &["true"]),
	("GITHUB_ACTIONS", &["true"]),
	("DEBUG", &["1"]),
	("VERBOSE", &["1"]),
	("QUIET", &["1"]),
	("POSIXLY_CORRECT", &["1"]),
	("SOURCE_DATE_EPOCH", &["0"]),
	("CARGO_PKG_VERSION", &["9.9.9"]),
];

pub fn c03(ctx: &Ctx) {
	let clock = std::env::var_os("VERIF_SHIM").map(std::path::PathBuf::from).filter(|p| p.exists());
	let Some(clock) = clock else { crate::fatal("VERIF_SHIM does not name the preloaded library") };
	let dirs: Vec<_> = ["x", "y/z", "with space/é"]
		.iter()
		.map(|d| {
			let p = ctx.scratch.join("dirs").join(d);
			std::fs::create_dir_all(&p).unwrap_or_else(|e| crate::fatal(&e.to_string()));
			std::fs::write(p.join("other.toml"), "[default]\ncli_colour = \"never\"\n").ok();
			p
		})
		.collect();
	let input = ctx.scratch.join("input");
	std::fs::write(&input, b"5A021234\n9F02\x00\xff").ok();
	ctx.many("variants", ctx.size(2200, 40_000), |ctx, r, i| {
		let mut base = match i % 12 {
			0 => hostile_value(r),
			k => {
				let mut q = if k < 5 { gen::rich(r) } else { gen::request(r) }.req();
				if r.one_in(4) {
					q = q.arg("--colour=ansi");
				}
				if r.one_in(6) {
					q = q.env("PEMV_SORT_PARSED_TAGS", *r.pick(&["true", "false"]));
				}
				q
			}
		};
		base.cwd = None;
		let first = ctx.run(&base);
		for v in 0..6 {
			let mut q = base.clone();
			let kind = match v {
				0 => "repeated",
				1 => "environment",
				2 => "directory",
				3 => "standard input",
				5 => "date",
				_ => "all together",
			};
			if v == 1 || v == 4 {
				if v == 1 {
					// A whole other locale
					let l = *r.pick(LOCALES);
					for k in ["LANG", "LANGUAGE", "LC_ALL", "LC_CTYPE", "LC_NUMERIC", "LC_MONETARY", "LC_TIME", "LC_MESSAGES", "LC_COLLATE"] {
						if !r.one_in(5) {
							q = q.env(k, l);
						}
					}
					// And everything else that programs look at
					for (k, val) in OTHER_VARIABLES {
						if r.bool() {
							q = q.env(k, *r.pick(val));
						}
					}
				}
				for _ in 0..r.range(1, 6) {
					let (k, val) = *r.pick(&[
						("LANG", "de_DE.UTF-8"), ("LC_ALL", "C"), ("LC_ALL", "tr_TR.UTF-8"), ("LC_CTYPE", "ja_JP.SJIS"),
						("TZ", "Asia/Tokyo"), ("TZ", "garbage"), ("HOME", "/nonexistent"), ("HOME", ""), ("COLUMNS", "20"),
						("COLUMNS", "0"), ("LINES", "5"), ("TERM", "dumb"), ("TERM", "xterm-256color"), ("TERM", ""),
						("COLORTERM", "truecolor"), ("PATH", ""), ("USER", "root"), ("TMPDIR", "/nonexistent"),
						("XDG_CONFIG_HOME", "/nonexistent"), ("DEBUG", "1"), ("PEM", "1"), ("PEMVX_SORT_PARSED_TAGS", "false"),
						("SORT_PARSED_TAGS", "false"), ("CLI_COLOUR", "always"), ("PEMV_UNRELATED", "[1,2]"), ("PROFILE", "x"),
						("CONFIG", "/nonexistent"), ("EDITOR", "é漢"), ("A", "*"), ("LD_BIND_NOW", "1"),
						("MALLOC_PERTURB_", "165"), ("MALLOC_ARENA_MAX", "1"),
					]);
					q = q.env(k, val);
				}
			}
			if v == 5 {
				// Before and after what dates in the data may be
				q = q.env("LD_PRELOAD", &clock).env("CLOCK_SHIFT", r.pick(&["-1500000000", "-400000000", "31536000", "800000000", "2400000000"]));
			}
			if v == 2 || v == 4 {
				let d = dirs[r.below(dirs.len())].clone();
				q = q.cwd(&d);
			}
			let res = if v == 3 || v == 4 {
				let mut c = ctx.runner.command(&q);
				match r.below(3) {
					0 => {
						let f = std::fs::File::open(&input).unwrap_or_else(|e| crate::fatal(&e.to_string()));
						c.stdin(f);
					}
					1 => {
						// A pipe that stays open and has data
						let (mut w, rd) = pipe();
						let _ = w.write_all(b"95:0000000000\n");
						c.stdin(rd);
						let res = ctx.runner.run_cmd(c);
						drop(w);
						compare(ctx, kind, &base, &first, &q, &res);
						continue;
					}
					_ => {
						c.stdin(Stdio::null());
					}
				}
				ctx.runner.run_cmd(c)
			} else {
				ctx.run(&q)
			};
			compare(ctx, kind, &base, &first, &q, &res);
		}
	});
	// Values that are also the names of files, as some programs take them
	const BEFORE: &[&str] = &[
		"", "@", "<", "file:", "file://", "=", "&", "+", "./", "@@", "\"", "'", "<<<", "%", "~/", "$", "$(cat ", "`", "|", "!", "#", ":", "path:", "-f", "*", "\\", "^", ">", "?", ",", "in:", "0x@", "include ", "source ",
		". ", "//", "[", "(", "{", "cat ", "load:", "read:", ".", "-", "@./", "< ", "@ ", ";",
	];
	let here = ctx.scratch.join("named");
	ctx.many("named files", BEFORE.len() as u64 * ctx.size(14, 200), |ctx, r, i| {
		let before = BEFORE[i as usize % BEFORE.len()];
		let q = gen::request(r);
		let after = match before {
			"\"" | "'" | "`" => before,
			"$(cat " | "(" => ")",
			"[" => "]",
			"{" => "}",
			_ => *r.pick(&["", "", "", ",", ">", "\n"]),
		};
		let name = match r.below(6) {
			0 => "data.txt".to_owned(),
			1 => "9A03251231".to_owned(),
			2 => "x".to_owned(),
			3 if !q.value.is_empty() && q.value.len() < 200 && !q.value.contains(['/', '\0', '\n']) && !q.value.starts_with('.') => q.value.clone(),
			4 => "0201".to_owned(),
			_ => "card.hex".to_owned(),
		};
		let (with, without) = (here.join(format!("{i}")), here.join(format!("{i} empty")));
		for d in [&with, &without] {
			std::fs::create_dir_all(d).unwrap_or_else(|e| crate::fatal(&e.to_string()));
		}
		let end = *r.pick(&["", "\n", "\r\n"]);
		for name in [name.clone(), format!("{before}{name}{after}")] {
			if !name.contains('/') && name != "." && name != ".." {
				std::fs::write(with.join(name), format!("{}{end}", q.value)).ok();
			}
		}
		let name = if r.one_in(5) { with.join(&name).display().to_string() } else { name };
		let mut q = q;
		q.value = format!("{before}{name}{after}");
		let base = q.req();
		let (a, b) = (base.clone().cwd(&without), base.cwd(&with));
		if name.starts_with('/') {
			// It's the same file wherever the program runs: only there the second time
			let second = ctx.run(&b);
			let _ = std::fs::remove_dir_all(&with);
			std::fs::create_dir_all(&with).ok();
			compare(ctx, "directory", &a, &ctx.run(&a), &b, &second);
		} else {
			compare(ctx, "directory", &a, &ctx.run(&a), &b, &ctx.run(&b));
		}
		for d in [&with, &without] {
			let _ = std::fs::remove_dir_all(d);
		}
	});
	circumstances(ctx, &input);
	consulted(ctx);
	ctx.require("same with another environment", 500);
	ctx.require("same with another date", 500);
}

/// What a process inherits besides arguments, environment, directory and standard input.
/// The program in another directory, which everybody can use. Removed at the end.
struct Copy(std::path::PathBuf);

impl Copy {
	fn make(ctx: &Ctx) -> Option<Self> {
		use std::os::unix::fs::PermissionsExt;
		let dir = std::env::temp_dir().join(format!("verif elsewhere {}", std::process::id()));
		std::fs::create_dir(&dir).ok()?;
		let copy = Self(dir);
		let file = copy.0.join("pemv");
		std::fs::copy(ctx.runner.bin(Build::Dev), &file).ok()?;
		for p in [&copy.0, &file] {
			std::fs::set_permissions(p, std::fs::Permissions::from_mode(0o755)).ok()?;
		}
		let works = |user| elsewhere(&copy, user).arg("--version").output().is_ok_and(|o| o.status.success());
		(works(false) && works(true)).then_some(copy)
	}
}

impl Drop for Copy {
	fn drop(&mut self) {
		let _ = std::fs::remove_file(self.0.join("pemv"));
		let _ = std::fs::remove_dir(&self.0);
	}
}

fn elsewhere(copy: &Copy, other_user: bool) -> std::process::Command {
	use std::{os::unix::process::CommandExt, process::Stdio};
	let mut c = std::process::Command::new(copy.0.join("pemv"));
	c.env_clear().current_dir(&copy.0).stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped());
	if other_user {
		// SAFETY: plain system calls
		unsafe { c.pre_exec(|| {
			if crate::sys::geteuid() == 0 {
				crate::sys::setgid(65_534);
				crate::sys::setuid(65_534);
			}
			Ok(())
		}) };
	}
	c
}

fn circumstances(ctx: &Ctx, input: &std::path::Path) {
	use std::os::unix::process::CommandExt;
	let names = ["-pemv", "-", "--", "", "sh", "-sh", "pemv.exe", "/usr/bin/pemv", "./pemv", "cargo-pemv", "busybox", "p e m v", "é漢", "PEMV", "ber", "--help", "pemv-debug", "test", "a/b/c/", "[pemv]"];
	let copy = Copy::make(ctx);
	ctx.many("circumstances", ctx.size(1800, 25_000), |ctx, r, i| {
		let mut base = if r.one_in(6) { hostile_value(r) } else { gen::rich(r).req() };
		base.cwd = None;
		if r.one_in(4) {
			base = base.arg("--colour=ansi");
		}
		if r.one_in(3) {
			base.build = Build::Rel;
		}
		let first = ctx.run(&base);
		if contains(&first.err, b"Usage") {
			// Which mentions the name of the program
			return;
		}
		let mut c = ctx.runner.command(&base);
		let mut name = None;
		let kind = match i % 11 {
			9 => {
				// SAFETY: plain system calls
				unsafe { c.pre_exec(|| { crate::sys::single_processor(); Ok(()) }) };
				"the number of processors"
			}
			10 => {
				// Installed somewhere else, and used by somebody else
				let Some(copy) = &copy else {
					ctx.event("no copy elsewhere can be started here");
					return;
				};
				base.build = Build::Dev;
				let mut other = elsewhere(copy, r.bool());
				other.args(&base.args).envs(base.env.iter().map(|(k, v)| (k, v)));
				let res = ctx.runner.run_cmd(other);
				let first = ctx.run(&base);
				ctx.executed(base.hash64() ^ 25, !res.out.is_empty() || !res.err.is_empty());
				compare(ctx, "the place of the program, and its user", &base, &first, &base, &res);
				return;
			}
			0 => {
				name = Some(*r.pick(&names));
				"the name of the program"
			}
			1 => {
				// A terminal
				let Some(p) = super::cli::pty() else {
					ctx.event("no terminal can be made here");
					return;
				};
				let on_err = r.one_in(3);
				c.stdin(p.slave.try_clone().unwrap_or_else(|e| crate::fatal(&e.to_string())));
				if on_err && first.err.is_empty() {
					c.stderr(p.slave.try_clone().unwrap_or_else(|e| crate::fatal(&e.to_string())));
				}
				if let Some(n) = r.one_in(3).then(|| *r.pick(&names)) {
					name = Some(n);
				}
				if r.bool() {
					c.env("TERM", *r.pick(&["xterm-256color", "dumb", "linux"]));
				}
				if let Some(n) = name {
					c.arg0(n);
				}
				let res = ctx.runner.run_cmd(c);
				ctx.executed(base.hash64() ^ 21, !res.out.is_empty() || !res.err.is_empty());
				compare(ctx, "terminal", &base, &first, &base, &res);
				return;
			}
			2 => {
				// No standard input at all, or one that only takes output
				if r.bool() {
					// SAFETY: a plain system call
					unsafe { c.pre_exec(|| { crate::sys::close(0); Ok(()) }) };
				} else if let Ok(f) = std::fs::File::options().write(true).open("/dev/null") {
					c.stdin(f);
				}
				"standard input"
			}
			3 => {
				let m = *r.pick(&[0, 0o777, 0o027]);
				// SAFETY: a plain system call
				unsafe { c.pre_exec(move || { crate::sys::umask(m); Ok(()) }) };
				"the file mode mask"
			}
			4 => {
				// Less urgent
				let n = r.range(1, 19) as i32;
				// SAFETY: a plain system call
				unsafe { c.pre_exec(move || { crate::sys::nice(n); Ok(()) }) };
				"the priority"
			}
			5 => {
				let s: Vec<i32> = [1, 2, 3, 10, 12, 13, 14, 15, 17, 20, 21, 22, 28, 29].into_iter().filter(|_| r.bool()).collect();
				// SAFETY: plain system calls
				unsafe { c.pre_exec(move || {
					for s in &s {
						crate::sys::signal(*s, crate::sys::SIG_IGN);
					}
					Ok(())
				}) };
				"the signals that are ignored"
			}
			6 => {
				let (what, n) = *r.pick(&[(7, 16), (7, 64), (6, 4096), (4, 0), (0, 20), (8, 0), (11, 0), (12, 0)]);
				// SAFETY: plain system calls
				unsafe { c.pre_exec(move || { crate::sys::limit(what, n); Ok(()) }) };
				"the limits"
			}
			7 => {
				// More descriptors, open on a file
				let Ok(f) = std::fs::File::open(input) else { return };
				use std::os::fd::AsRawFd;
				let fd = f.as_raw_fd();
				let n = r.range(60, 90) as i32;
				// SAFETY: plain system calls
				unsafe { c.pre_exec(move || {
					for k in 0..4 {
						crate::sys::dup2(fd, n + k);
					}
					Ok(())
				}) };
				let res = ctx.runner.run_cmd(c);
				ctx.executed(base.hash64() ^ 22, !res.out.is_empty() || !res.err.is_empty());
				drop(f);
				compare(ctx, "other descriptors", &base, &first, &base, &res);
				return;
			}
			_ => {
				// A session and a group of its own
				// SAFETY: a plain system call
				unsafe { c.pre_exec(|| { crate::sys::setsid(); Ok(()) }) };
				if r.bool() {
					name = Some(*r.pick(&names));
				}
				"the session"
			}
		};
		if let Some(n) = name {
			c.arg0(n);
		}
		let res = ctx.runner.run_cmd(c);
		ctx.executed(base.hash64() ^ 23, !res.out.is_empty() || !res.err.is_empty());
		compare(ctx, kind, &base, &first, &base, &res);
	});
	// Standard output is a file, which may already have something
	ctx.many("to a file", ctx.size(300, 4000), |ctx, r, i| {
		let mut base = gen::rich(r).req();
		base.cwd = None;
		let first = ctx.run(&base);
		let path = ctx.scratch.join(format!("out{i}"));
		let before: &[u8] = if r.bool() { b"earlier text\n" } else { b"" };
		std::fs::write(&path, before).unwrap_or_else(|e| crate::fatal(&e.to_string()));
		let f = std::fs::File::options().append(true).open(&path).unwrap_or_else(|e| crate::fatal(&e.to_string()));
		let mut c = ctx.runner.command(&base);
		c.stdout(f);
		let mut res = ctx.runner.run_cmd(c);
		ctx.executed(base.hash64() ^ 24, true);
		let all = std::fs::read(&path).unwrap_or_default();
		let _ = std::fs::remove_file(&path);
		res.out = match all.strip_prefix(before) {
			Some(b) => b.to_vec(),
			None => all,
		};
		compare(ctx, "standard output", &base, &first, &base, &res);
	});
	ctx.require("same with another circumstance of the process", 500);
}

fn hostile_value(r: &mut Rng) -> Req {
	loop {
		let q = hostile(r);
		let value_of_an_option = |a: &OsString| {
			a.to_str().is_some_and(|a| OPS.iter().any(|o| a.starts_with(&format!("{}=", o.long())) && a.len() > o.long().len() + 1))
		};
		if q.env.is_empty() && q.args.len() == 1 && value_of_an_option(&q.args[0]) {
			return q;
		}
	}
}

fn pipe() -> (std::fs::File, std::fs::File) {
	use std::os::fd::FromRawFd;
	let mut fds = [0i32; 2];
	// SAFETY: a plain system call; the descriptors are new and owned here
	unsafe {
		if crate::sys::pipe2(fds.as_mut_ptr(), crate::sys::O_CLOEXEC) != 0 {
			crate::fatal("cannot make a pipe");
		}
		(std::fs::File::from_raw_fd(fds[1]), std::fs::File::from_raw_fd(fds[0]))
	}
}

/// Whatever the program is seen asking for, apart from its settings, makes no difference.
fn consulted(ctx: &Ctx) {
	let recorder = std::env::var_os("VERIF_LOOKUPS").map(std::path::PathBuf::from).filter(|p| p.exists());
	let Some(recorder) = recorder else { crate::fatal("VERIF_LOOKUPS does not name the preloaded library") };
	ctx.many("consulted", ctx.size(500, 9000), |ctx, r, i| {
		let home = ctx.scratch.join(format!("asks{i}"));
		let cwd = home.join("work");
		std::fs::create_dir_all(&cwd).unwrap_or_else(|e| crate::fatal(&e.to_string()));
		let mut base = match r.below(8) {
			0 => hostile_value(r),
			1 | 2 => gen::rich(r).req(),
			_ => gen::request(r).req(),
		};
		if r.one_in(3) {
			base = base.arg(*r.pick(&["--colour=ansi", "--colour=always", "--colour=never"]));
		}
		base = base.cwd(&cwd).env("HOME", &home);
		let first = ctx.run(&base);
		if !contains(&first.err, b"Usage") {
			let mut q = base.clone();
			if super::lookups::tempt(ctx, r, &mut q, &recorder, &home) == 0 {
				ctx.event("asked for nothing but its settings");
			}
			let res = ctx.run(&q);
			compare(ctx, "what was asked for", &base, &first, &q, &res);
		}
		let _ = std::fs::remove_dir_all(&home);
	});
	ctx.require("same with what was asked for", 200);
}

fn compare(ctx: &Ctx, kind: &str, base: &Req, first: &Res, q: &Req, res: &Res) {
	if first.same(res) {
		ctx.event(&format!(
			"same with {}",
			match kind {
				"repeated" => "another run",
				"environment" => "another environment",
				"directory" => "another directory",
				"standard input" => "another standard input",
				"date" => "another date",
				k if k.starts_with("the ") || k == "terminal" || k == "other descriptors" => "another circumstance of the process",
				"what was asked for" => "what was asked for",
				"standard output" => "a file as standard output",
				_ => "all of these changed",
			}
		));
	} else {
		ctx.violation(
			&format!("The same request gave something else ({kind} changed)"),
			&[(base, first), (q, res)],
			"the same output and status",
		);
	}
}

pub fn c06(ctx: &Ctx) {
	let run = |ctx: &Ctx, q: Req| {
		let (d, l) = (q.clone().build(Build::Dev), q.build(Build::Rel));
		let (a, b) = (ctx.run(&d), ctx.run(&l));
		if a.same(&b) {
			ctx.event(if accepted(&a) {
				"agreed, with a breakdown"
			} else {
				"agreed, with an error"
			});
		} else {
			ctx.violation("The builds disagree", &[(&d, &a), (&l, &b)], "the same output and status");
		}
	};
	ctx.many("general", ctx.size(4500, 90_000), |ctx, r, _| {
		let mut q = gen::request(r).req();
		if r.one_in(4) {
			q = q.arg("--colour=ansi");
		}
		run(ctx, q);
	});
	ctx.many("hostile", ctx.size(4500, 90_000), |ctx, r, _| run(ctx, hostile(r)));
	ctx.many("sizes", (OPS.len() * 40) as u64, |ctx, r, i| {
		let op = OPS[i as usize % OPS.len()];
		let n = i as usize / OPS.len();
		let v = gen::content(r, n);
		run(ctx, Request::new(op, format!(" {}", hex(&v))).req());
	});
	// Arithmetic at its limits
	ctx.many("limits", ctx.size(400, 8000), |ctx, r, _| {
		let len = *r.pick(&["84FFFFFFFF", "8480000000", "847FFFFFFF", "83FFFFFF", "82FFFF", "81FF", "84FFFFFFFE", "8400000000", "80", "85FFFFFFFFFF", "88FFFFFFFFFFFFFFFF", "FF"]);
		let t = gen::any_tag(r);
		let n = r.below(8);
		let tail = r.bytes(n);
		let s = format!("{}{len}{}", hex(&t), hex(&tail));
		let inner = gen::object_plain(&gen::constructed_tag(r), &unhex(&s));
		run(ctx, Request::new(Op::Ber, s).req());
		run(ctx, Request::new(Op::Ber, hex(&inner)).req());
		run(
			ctx,
			Request::new(
				Op::Ingenico,
				format!("T{}:{}:{}{}", hex(&t), r.pick(&["FFFFFFFF", "7FFFFFFF", "80000000", "00FFFF", "0100000000", "FFFFFFFFFFFFFFFF"]), r.pick(&["a", "h"]), hex(&tail)),
			)
			.req(),
		);
	});
	// Amounts around the powers of two and ten, where a rounding would show
	let mut amounts: Vec<u32> = (0..10).map(|n| 10u32.pow(n)).chain((0..32).map(|n| 1u32 << n)).collect();
	amounts.push(u32::MAX);
	let (low, up) = (amounts.clone(), amounts);
	ctx.many("amounts", ctx.size(2 * low.len() as u64, 20 * low.len() as u64), move |ctx, r, i| {
		let near = |r: &mut crate::rng::Rng, v: u32| match r.below(4) {
			0 => v.wrapping_sub(1),
			1 => v,
			2 => v.wrapping_add(r.below(4) as u32),
			_ => v.wrapping_sub(r.below(4) as u32),
		};
		let v = if i < low.len() as u64 { low[i as usize].wrapping_sub(1) } else { near(r, low[i as usize % low.len()]) };
		let picked = *r.pick(&up);
		let other = near(r, picked);
		let (x, y) = if r.one_in(2) { (v, other) } else { (other, v) };
		let mut body = x.to_be_bytes().to_vec();
		body.extend(y.to_be_bytes());
		for c in [6u8, 7, 8, 9] {
			body.extend([*r.pick(&[0x01u8, 0x42, 0x1F, 0x5E]), c]);
		}
		run(ctx, Request::new(Op::CvmList, hex(&body)).req());
	});
	ctx.require("agreed, with a breakdown", 500);
	ctx.require("agreed, with an error", 500);
}
