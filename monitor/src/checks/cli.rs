//! Settings, colours, and the command line.

use std::{
	ffi::OsString,
	fs::File,
	io::{Read, Write},
	os::{fd::FromRawFd, unix::ffi::OsStringExt, unix::process::ExitStatusExt},
	path::{Path, PathBuf},
	process::Stdio,
};

use super::{accepted, difference};
use crate::{
	ctx::Ctx,
	exec::{contains, watched, Build, Req, Res},
	gen::{self, Request},
	hexu::{hex, unhex},
	model::{Op, Settings, Sty, OPS},
	rng::Rng,
	sys, term,
	view::{aspect, View},
};

const COLOURS: &[&str] = &["auto", "never", "always", "ansi"];
const CANDIDATES: &[char] = &['*', '#', 'X', '%'];

#[derive(Clone, Default, Debug)]
struct Assign {
	colour: Option<&'static str>,
	masks:  Option<Vec<char>>,
	sort:   Option<bool>,
}

impl Assign {
	fn random(r: &mut Rng, tenths: usize) -> Self {
		let mut a = Assign::default();
		if r.below(10) < tenths {
			a.colour = Some(*r.pick(COLOURS));
		}
		if r.below(10) < tenths {
			let n = r.range(1, 3);
			a.masks = Some((0..n).map(|_| *r.pick(CANDIDATES)).collect());
		}
		if r.below(10) < tenths {
			a.sort = Some(r.bool());
		}
		a
	}
	fn over(&self, under: &Assign) -> Assign {
		Assign {
			colour: self.colour.or(under.colour),
			masks:  self.masks.clone().or_else(|| under.masks.clone()),
			sort:   self.sort.or(under.sort),
		}
	}
	fn toml(&self, r: &mut Rng) -> String {
		let mut l = Vec::new();
		if let Some(c) = self.colour {
			l.push(format!("cli_colour = \"{c}\"\n"));
		}
		if let Some(m) = &self.masks {
			l.push(format!("masking_characters = {}\n", list(m)));
		}
		if let Some(s) = self.sort {
			l.push(format!("sort_parsed_tags = {s}\n"));
		}
		if r.bool() {
			l.reverse();
		}
		if r.one_in(5) {
			l.push("# a comment\n".to_owned());
		}
		l.concat()
	}
	fn env(&self, mut q: Req) -> Req {
		if let Some(c) = self.colour {
			q = q.env("PEMV_CLI_COLOUR", c);
		}
		if let Some(m) = &self.masks {
			q = q.env("PEMV_MASKING_CHARACTERS", list(m));
		}
		if let Some(s) = self.sort {
			q = q.env("PEMV_SORT_PARSED_TAGS", s.to_string());
		}
		q
	}
	/// As arguments, each group to be kept together.
	fn args(&self, r: &mut Rng) -> Vec<Vec<String>> {
		let mut g = Vec::new();
		if let Some(c) = self.colour {
			g.push(vec![format!("--{}={c}", *r.pick(&["colour", "color"]))]);
		}
		if let Some(m) = &self.masks {
			g.extend(mask_args(r, m));
		}
		if let Some(s) = self.sort {
			g.push(vec![sort_arg(r, s)]);
		}
		g
	}
}

fn list(m: &[char]) -> String {
	format!("[{}]", m.iter().map(|c| format!("\"{c}\"")).collect::<Vec<_>>().join(", "))
}

fn mask_args(r: &mut Rng, m: &[char]) -> Vec<Vec<String>> {
	m.iter()
		.map(|c| match r.below(4) {
			0 => vec!["-m".to_owned(), c.to_string()],
			1 => vec![format!("-m{c}")],
			2 => vec![format!("--masking-character={c}")],
			_ => vec![format!("--masking={c}")],
		})
		.collect()
}

fn sort_arg(r: &mut Rng, on: bool) -> String {
	let forms: &[&str] = if on {
		&["--sort", "--sort=true", "--sort-parsed-tags", "--sort-parsed-tags=true", "--no-sort=false", "--no-sort-parsed-tags=false"]
	} else {
		&["--no-sort", "--no-sort=true", "--no-sort-parsed-tags", "--no-sort-parsed-tags=true", "--sort=false", "--sort-parsed-tags=false"]
	};
	(*r.pick(forms)).to_owned()
}

/// Data in which every setting shows.
pub fn probe(r: &mut Rng) -> Request {
	let mut items: Vec<(Vec<u8>, Vec<u8>)> = Vec::new();
	for c in CANDIDATES {
		let n = r.range(2, 6);
		items.push((gen::opaque_tag(r), vec![*c as u8; n]));
	}
	for t in ["5A", "57", "9F36", "82"] {
		let n = r.range(2, 5);
		items.push((unhex(t), r.bytes(n)));
	}
	r.shuffle(&mut items);
	match r.below(3) {
		0 => Request::new(Op::Ingenico, gen::ingenico_hex(&items)),
		1 => {
			let mut b: Vec<u8> = items.iter().flat_map(|(t, v)| gen::object_plain(t, v)).collect();
			if r.bool() {
				b = gen::object_plain(&[0x70], &b);
			}
			Request::new(Op::Ber, hex(&b))
		}
		_ => Request::new(Op::Auto, gen::ingenico_hex(&items)),
	}
}

fn without_codes(out: &[u8]) -> Vec<u8> {
	match term::interpret(out) {
		Ok(s) => s.plain,
		Err(_) => out.to_vec(),
	}
}

fn write(p: &Path, text: impl AsRef<[u8]>) {
	if let Some(d) = p.parent() {
		std::fs::create_dir_all(d).unwrap_or_else(|e| crate::fatal(&e.to_string()));
	}
	std::fs::write(p, text).unwrap_or_else(|e| crate::fatal(&format!("{}: {e}", p.display())));
}

/// A directory for one case, removed afterwards.
struct Dir(PathBuf);
impl Dir {
	fn new(ctx: &Ctx, name: &str, i: u64) -> Dir {
		let d = ctx.scratch.join(format!("{name}{i}"));
		let _ = std::fs::remove_dir_all(&d);
		std::fs::create_dir_all(&d).unwrap_or_else(|e| crate::fatal(&e.to_string()));
		Dir(d)
	}
}
impl Drop for Dir {
	fn drop(&mut self) {
		let _ = std::fs::remove_dir_all(&self.0);
	}
}

/// Where settings are usually found in a home directory, and names that are almost right.
const HOME_FILES: &[&str] = &[
	"pemv.toml", ".pemv.toml", ".pemvrc", ".config/pemv.toml", ".config/pemv/pemv.toml", ".config/pemv/config.toml", "pemv/pemv.toml",
	"pemv/config.toml", ".pemv/config.toml", ".pemv/pemv.toml",
];
const CWD_FILES: &[&str] = &[
	".pemv.toml", "pemv.conf", "pemv.json", "Pemv.toml", "PEMV.toml", "pemv.tml", "config.toml", "pemv", ".env", "default.toml", "work.toml",
	"pemv.work.toml", "pemv.local.toml", "pemv.override.toml", "pemv.toml.local", "pemv.toml~", "config/pemv.toml", ".config/pemv.toml", "pemv.d/x.toml",
];

pub fn c50(ctx: &Ctx) {
	ctx.many("sources", ctx.size(9000, 120_000), |ctx, r, i| {
		let dir = Dir::new(ctx, "c", i);
		let cwd = dir.0.join("a/b");
		std::fs::create_dir_all(&cwd).unwrap_or_else(|e| crate::fatal(&e.to_string()));
		let builtin = Assign { colour: Some("auto"), masks: Some(vec!['*']), sort: Some(true) };
		let dense = *r.pick(&[2, 4, 6, 10]);
		let some = |r: &mut Rng| {
			let tenths = if r.bool() { dense } else { 0 };
			Assign::random(r, tenths)
		};
		let cli = some(r);
		let env = some(r);
		let global = some(r);
		let chosen = Assign::random(r, dense);
		let default = Assign::random(r, dense);
		let other = Assign::random(r, 8);
		let decoy = Assign::random(r, 10);
		let profile = if r.one_in(3) { None } else { Some(*r.pick(&["work", "debug", "p2", "absent", "default"])) };
		let present = profile.filter(|p| *p != "absent" && *p != "default");

		let mut sections = Vec::new();
		sections.push(format!("[default]\n{}", default.toml(r)));
		if let Some(p) = present {
			sections.push(format!("[{p}]\n{}", chosen.toml(r)));
		}
		sections.push(format!("[global]\n{}", global.toml(r)));
		sections.push(format!("[unselected]\n{}", other.toml(r)));
		r.shuffle(&mut sections);
		let text = sections.join("\n");

		let mut wanted = builtin;
		let place = r.below(8);
		let has_file = place > 0;
		let mut program = None;
		let mut req = Req::new(Vec::<&str>::new()).cwd(&cwd);
		let decoy_text = format!("[default]\n{}[global]\n{}", decoy.toml(r), decoy.toml(r));
		match place {
			0 => {}
			1 => {
				write(&cwd.join("pemv.toml"), &text);
				if r.bool() {
					write(&dir.0.join("a/pemv.toml"), &decoy_text);
				}
			}
			2 => {
				write(&dir.0.join("a/pemv.toml"), &text);
				if r.bool() {
					write(&dir.0.join("pemv.toml"), &decoy_text);
				}
			}
			3 => write(&dir.0.join("pemv.toml"), &text),
			4 => {
				let p = dir.0.join("elsewhere/my.conf");
				write(&p, &text);
				req = req.env("PEMV_CONFIG", &p);
				write(&cwd.join("pemv.toml"), &decoy_text);
			}
			5 | 6 => {
				// In the current or a parent directory
				let name = *r.pick(&["mine.toml", "conf/mine.toml", "./mine"]);
				let at = if place == 5 { cwd.clone() } else { dir.0.join(r.pick(&["a", ""])) };
				write(&at.join(name), &text);
				req = req.env("PEMV_CONFIG", name);
				if r.bool() {
					write(&cwd.join("pemv.toml"), &decoy_text);
				}
			}
			_ => {
				write(&cwd.join("mine.toml"), &text);
				req = req.env("PEMV_CONFIG", "mine.toml");
				if r.bool() {
					write(&cwd.join("pemv.toml"), &decoy_text);
				}
			}
		}
		if r.one_in(3) {
			// Files that other programs would read
			let home = dir.0.join("home");
			for _ in 0..3 {
				write(&home.join(r.pick(HOME_FILES)), &decoy_text);
				let name = *r.pick(CWD_FILES);
				write(&cwd.join(name), if name == ".env" { "PEMV_SORT_PARSED_TAGS=false\nPEMV_CLI_COLOUR=always\n" } else { &decoy_text });
			}
			req = req.env("HOME", &home).env("XDG_CONFIG_HOME", home.join(".config")).env("XDG_CONFIG_DIRS", &home);
			req = req.env("USERPROFILE", &home).env("APPDATA", home.join(".config"));
			ctx.event("other files around");
		}
		if r.one_in(20) {
			// And next to the program
			let bin = dir.0.join("bin/pemv");
			write(&dir.0.join("bin/pemv.toml"), &decoy_text);
			write(&dir.0.join("bin/pemv.conf"), &decoy_text);
			let from = ctx.runner.bin(Build::Dev);
			if std::fs::hard_link(from, &bin).is_ok() || std::fs::copy(from, &bin).is_ok() {
				program = Some(bin);
				ctx.event("a file next to the program");
			}
		}
		// What says nothing about these settings (the automatic choice is about terminals)
		let surroundings = r.one_in(3);
		if surroundings {
			let rare = r.range(2, 12);
			for (k, v) in COLOUR_VARIABLES.iter().chain(OTHER_VARIABLES) {
				if r.one_in(rare) {
					req = req.env(k, *r.pick(v));
				}
			}
		}
		if has_file {
			wanted = default.over(&wanted);
			if present.is_some() {
				wanted = chosen.over(&wanted);
			}
			wanted = global.over(&wanted);
		}
		if let Some(p) = profile {
			req = req.env("PEMV_PROFILE", p);
		}
		wanted = cli.over(&env.over(&wanted));
		req = env.env(req);

		let mut q = probe(r);
		q.set = Settings { masks: wanted.masks.clone().unwrap(), sort: wanted.sort.unwrap() };
		let mut groups = cli.args(r);
		groups.push(vec![format!("{}={}", q.op.long(), q.value)]);
		r.shuffle(&mut groups);
		for a in groups.concat() {
			req = req.arg(a);
		}
		let Ok(want) = q.wanted() else {
			ctx.event("skipped: the probe is refused under these settings");
			return;
		};
		let res = match &program {
			None => ctx.run(&req),
			Some(p) => ctx.run_as(p, &req),
		};
		let explain = format!("{wanted:?}\ncli: {cli:?}\nenv: {env:?}\nfile ({has_file}): global {global:?}, selected ({present:?}) {chosen:?}, default {default:?}\nfile:\n{text}");
		if !accepted(&res) {
			ctx.violation("Valid settings were not accepted", &[(&req, &res)], &explain);
			return;
		}
		let coloured = contains(&res.out, b"\x1b[");
		if coloured && surroundings {
			ctx.event("colour variables do not override an explicit choice");
		}
		if coloured != matches!(wanted.colour, Some("always" | "ansi")) {
			ctx.violation(
				&format!("Colours are {}", if coloured { "on" } else { "off" }),
				&[(&req, &res)],
				&explain,
			);
			return;
		}
		let plain = without_codes(&res.out);
		let got = View::parse(&String::from_utf8_lossy(&plain)).project(aspect::structure);
		let exp = View::parse(&want.text()).project(aspect::structure);
		if got != exp {
			ctx.violation(
				&format!("Other masking or sorting settings were used: {}", difference(&got, &exp)),
				&[(&req, &res)],
				&explain,
			);
			return;
		}
		for (name, by) in [
			("colour", [cli.colour.is_some(), env.colour.is_some(), global.colour.is_some(), chosen.colour.is_some(), default.colour.is_some()]),
			("masking", [cli.masks.is_some(), env.masks.is_some(), global.masks.is_some(), chosen.masks.is_some(), default.masks.is_some()]),
			("sorting", [cli.sort.is_some(), env.sort.is_some(), global.sort.is_some(), chosen.sort.is_some(), default.sort.is_some()]),
		] {
			let by = [by[0], by[1], by[2] && has_file, by[3] && present.is_some() && has_file, by[4] && has_file];
			let from = ["command line", "environment", "global section", "selected profile", "default profile"];
			let source = by.iter().position(|b| *b).map_or("built-in", |k| from[k]);
			ctx.event(&format!("{name} decided by: {source}"));
		}
	});
	for s in ["command line", "environment", "global section", "selected profile", "default profile", "built-in"] {
		ctx.require(&format!("colour decided by: {s}"), 100);
		ctx.require(&format!("masking decided by: {s}"), 100);
		ctx.require(&format!("sorting decided by: {s}"), 100);
	}
	ctx.require("other files around", 100);
	ctx.require("a file next to the program", 20);
}

// ---------------------------------------------------------------------------------------------

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Setting {
	Colour,
	Masks,
	Sort,
}
const SETTINGS: &[Setting] = &[Setting::Colour, Setting::Masks, Setting::Sort];

impl Setting {
	fn key(self) -> &'static str {
		match self {
			Setting::Colour => "cli_colour",
			Setting::Masks => "masking_characters",
			Setting::Sort => "sort_parsed_tags",
		}
	}
	fn var(self) -> &'static str {
		match self {
			Setting::Colour => "PEMV_CLI_COLOUR",
			Setting::Masks => "PEMV_MASKING_CHARACTERS",
			Setting::Sort => "PEMV_SORT_PARSED_TAGS",
		}
	}
	fn bad_args(self) -> &'static [&'static str] {
		match self {
			Setting::Colour => &["--colour=maybe", "--colour=", "--color=green", "--colour=1", "--colour=neverr", "--colour=\u{e9}"],
			Setting::Masks => &["--masking=**", "--masking-character=", "-mab", "--masking-char=##", "--masking=12", "--masking=\u{e9}\u{e9}"],
			Setting::Sort => &["--sort=maybe", "--sort=2", "--no-sort=nope", "--sort-parsed-tags=", "--no-sort-parsed-tags=falsee", "--sort=[true]"],
		}
	}
	fn bad_vars(self) -> &'static [&'static str] {
		match self {
			Setting::Colour => &["green", "", "true", "5", "[never]", "[]", "{a=1}", "auto,never", "nevr"],
			Setting::Masks => &["*", "ab", "5", "true", "[\"ab\"]", "[1]", "[\"\"]", "", "{a=1}", "[[\"*\"]]", "[\"*\", \"##\"]"],
			Setting::Sort => &["maybe", "2", "", "[true]", "-1", "{a=1}", "truefalse", "\"x\""],
		}
	}
	fn bad_toml(self) -> &'static [&'static str] {
		match self {
			Setting::Colour => &["\"green\"", "5", "true", "[\"never\"]", "\"\"", "1.5", "{ a = 1 }", "1979-05-27"],
			Setting::Masks => &["\"*\"", "[\"**\"]", "[1]", "7", "true", "[\"\"]", "[[\"*\"]]", "[\"*\", \"##\"]", "[\"*\", 1]", "{ a = \"*\" }"],
			Setting::Sort => &["\"maybe\"", "2", "[true]", "\"\"", "1.0", "{ a = true }", "-1"],
		}
	}
	fn good(self, r: &mut Rng) -> Assign {
		let mut a = Assign::default();
		match self {
			Setting::Colour => a.colour = Some(*r.pick(COLOURS)),
			Setting::Masks => a.masks = Some(vec![*r.pick(CANDIDATES)]),
			Setting::Sort => a.sort = Some(r.bool()),
		}
		a
	}
}

fn tlv_or_any(r: &mut Rng, tlv: bool) -> Request {
	if tlv || r.one_in(2) {
		return probe(r);
	}
	loop {
		let mut q = gen::request(r);
		q.set = Settings::default();
		if q.wanted().is_ok_and(|d| !d.lines.is_empty()) && (r.one_in(3) || !q.op.is_tlv()) {
			return q;
		}
	}
}

fn bare(q: &Request) -> Req {
	Req::new([format!("{}={}", q.op.long(), q.value)])
}

pub fn c51(ctx: &Ctx) {
	let refused = |ctx: &Ctx, what: &str, req: &Req, res: &Res, file: &str| {
		let fails = res.ordinary() && res.failed() && res.out.is_empty() && !res.err.iter().all(u8::is_ascii_whitespace);
		if fails {
			ctx.event(&format!("refused: {what}"));
		} else {
			ctx.violation(
				&format!("An invalid setting was not refused: {what}"),
				&[(req, res)],
				&format!("a failing status, an explanation on stderr, nothing on stdout\nfile:\n{file}"),
			);
		}
	};
	ctx.many("invalid", ctx.size(9000, 90_000), |ctx, r, i| {
		let dir = Dir::new(ctx, "c", i);
		let s = *r.pick(SETTINGS);
		match i % 3 {
			0 => {
				let q = tlv_or_any(r, s != Setting::Colour);
				let mut args = vec![(*r.pick(s.bad_args())).to_owned(), format!("{}={}", q.op.long(), q.value)];
				if r.bool() {
					args.reverse();
				}
				let mut req = Req::new(args);
				// A valid lower source doesn't help
				if r.bool() {
					req = s.good(r).env(req);
				}
				let res = ctx.run(&req);
				refused(ctx, "command line", &req, &res, "");
			}
			1 => {
				let q = tlv_or_any(r, false);
				let mut req = bare(&q).cwd(&dir.0);
				let v: OsString = if s != Setting::Masks && r.one_in(8) {
					OsString::from_vec(vec![0xFF, b'a', 0x80])
				} else {
					(*r.pick(s.bad_vars())).into()
				};
				req = req.env(s.var(), v);
				let mut file = String::new();
				if r.bool() {
					// Other settings, and valid lower sources
					let a = s.good(r).over(&Assign::random(r, 5));
					file = format!("[{}]\n{}", *r.pick(&["default", "global"]), a.toml(r));
					write(&dir.0.join("pemv.toml"), &file);
				}
				for o in SETTINGS.iter().filter(|o| **o != s) {
					if r.one_in(3) {
						req = o.good(r).env(req);
					}
				}
				let res = ctx.run(&req);
				refused(ctx, "environment", &req, &res, &file);
			}
			_ => {
				let q = tlv_or_any(r, false);
				let mut req = bare(&q).cwd(&dir.0);
				let section = *r.pick(&["default", "global", "work"]);
				let mut file = format!("[{section}]\n{} = {}\n", s.key(), r.pick(s.bad_toml()));
				if section == "work" {
					req = req.env("PEMV_PROFILE", "work");
				}
				if section != "default" && r.bool() {
					file.push_str(&format!("[default]\n{}", s.good(r).toml(r)));
				}
				if section == "default" && r.one_in(3) {
					req = req.env("PEMV_PROFILE", "other");
				}
				let name = if r.one_in(4) {
					req = req.env("PEMV_CONFIG", dir.0.join("x.toml"));
					"x.toml"
				} else {
					"pemv.toml"
				};
				write(&dir.0.join(name), &file);
				let res = ctx.run(&req);
				refused(ctx, &format!("file, {section} section"), &req, &res, &file);
			}
		}
	});
	const BROKEN: &[&[u8]] = &[
		b"[default", b"x", b"= 1", b"[default]\nsort_parsed_tags = tru", b"[default]\nsort_parsed_tags = ",
		b"[default]\nmasking_characters = [\"*\"", b"[default]\ncli_colour = \"never", b"[default]\ncli_colour = never",
		b"sort_parsed_tags = true", b"cli_colour = \"never\"",
		b"[default]\n[default]\n", b"[default]\ncli_colour = \"\xff\xfe\"", b"\xff\xfe[\0d\0", b"[[default]]\nsort_parsed_tags = true",
		b"{\"default\": {}}", b"default: {}", b"[default]\nsort_parsed_tags: true", b"<xml/>", b"[default]\n\0", b"default = 5",
	];
	ctx.many("not understood", ctx.size(600, 6000), |ctx, r, i| {
		let dir = Dir::new(ctx, "c", i);
		let cwd = dir.0.join("sub");
		std::fs::create_dir_all(&cwd).unwrap_or_else(|e| crate::fatal(&e.to_string()));
		let text = BROKEN[i as usize % BROKEN.len()];
		let q = tlv_or_any(r, false);
		let mut req = bare(&q).cwd(&cwd);
		let p = match r.below(3) {
			0 => cwd.join("pemv.toml"),
			1 => dir.0.join("pemv.toml"),
			_ => {
				let p = dir.0.join("other.toml");
				req = req.env("PEMV_CONFIG", &p);
				p
			}
		};
		write(&p, text);
		// Not even when nothing of it would be used
		if r.bool() {
			let full = Assign { colour: Some("never"), masks: Some(vec!['*']), sort: Some(true) };
			req = full.env(req);
		}
		let res = ctx.run(&req);
		refused(ctx, "file that is not understood", &req, &res, &String::from_utf8_lossy(text));
	});
	ctx.many("overridden", ctx.size(3000, 30_000), |ctx, r, i| {
		let dir = Dir::new(ctx, "c", i);
		let s = *r.pick(SETTINGS);
		let q = probe(r);
		let good = s.good(r);
		// The source that counts: 0 command line, 1 environment, 2 global section, 3 selected profile
		let top = r.below(4);
		let low = r.range(top + 1, 4);
		let mut base = bare(&q).cwd(&dir.0);
		let mut file = Vec::new();
		match top {
			0 => {
				for a in good.args(r).concat() {
					base = base.arg(a);
				}
			}
			1 => base = good.env(base),
			2 => file.push(format!("[global]\n{}", good.toml(r))),
			_ => file.push(format!("[work]\n{}", good.toml(r))),
		}
		base = base.env("PEMV_PROFILE", "work");
		let bad = r.pick(s.bad_toml());
		let mut with = base.clone();
		let mut bad_file = file.clone();
		match low {
			1 => with = with.env(s.var(), *r.pick(s.bad_vars())),
			2 => bad_file.push(format!("[global]\n{} = {bad}\n", s.key())),
			3 => bad_file.push(format!("[work]\n{} = {bad}\n", s.key())),
			_ => bad_file.push(format!("[{}]\n{} = {bad}\n", *r.pick(&["default", "unselected"]), s.key())),
		}
		let path = dir.0.join("pemv.toml");
		write(&path, file.concat());
		let a = ctx.run(&base);
		write(&path, bad_file.concat());
		let b = ctx.run(&with);
		if !accepted(&a) {
			ctx.event("the valid setting alone is not accepted");
		} else if a.same(&b) {
			ctx.event("an overridden invalid value had no effect");
		} else {
			ctx.violation(
				"An invalid value had an effect although it was overridden",
				&[(&base, &a), (&with, &b)],
				&format!("the same result\nfile:\n{}", bad_file.concat()),
			);
		}
	});
	for s in ["command line", "environment", "file, default section", "file, global section", "file, work section", "file that is not understood"] {
		ctx.require(&format!("refused: {s}"), 100);
	}
	ctx.require("an overridden invalid value had no effect", 500);
}

// ---------------------------------------------------------------------------------------------

/// What other programs may take for settings like these.
const OTHER_VARIABLES: &[(&str, &[&str])] = &[
	("SORT", &["0", "false", "1"]),
	("SORT_PARSED_TAGS", &["false", "true"]),
	("NO_SORT", &["1"]),
	("COLOUR", &["always", "never"]),
	("COLOR", &["always", "never"]),
	("CLI_COLOUR", &["always", "never"]),
	("CLI_COLOR", &["always", "never"]),
	("MASKING_CHARACTERS", &["[\"X\"]"]),
	("MASKING", &["X"]),
	("CONFIG", &["other.toml"]),
	("PROFILE", &["work", "debug"]),
	("RUST_LOG", &["debug"]),
	("DEBUG", &["1"]),
	("EDITOR", &["vi"]),
	("LANG", &["C", "de_DE.UTF-8", "tr_TR.UTF-8"]),
	("LC_ALL", &["C", "ja_JP.SJIS"]),
	("POSIXLY_CORRECT", &["1"]),
	("PEMV", &["1"]),
	("PEMVX_SORT_PARSED_TAGS", &["false"]),
	("_PEMV_SORT_PARSED_TAGS", &["false"]),
	("PEMV_SORT", &["false"]),
	("PEMV_COLOR", &["always"]),
	("PEMV_COLOUR", &["always"]),
	("PEMV_MASKING_CHARACTER", &["X"]),
	("PEMV_NO_SORT", &["true"]),
	("ROCKET_PROFILE", &["work"]),
	("FIGMENT_PROFILE", &["work"]),
];

/// What programs look at to choose whether to use colour.
const COLOUR_VARIABLES: &[(&str, &[&str])] = &[
	("CLICOLOR_FORCE", &["1", "0", ""]),
	("CLICOLOR", &["1", "0"]),
	("FORCE_COLOR", &["1", "3", "true", ""]),
	("FORCE_COLOUR", &["1"]),
	("COLORTERM", &["truecolor", "24bit", "1"]),
	("TERM", &["xterm-256color", "xterm", "dumb", "linux", "screen", "tmux-256color", "vt100", "ansi", ""]),
	("TERM_PROGRAM", &["vscode", "iTerm.app", "Apple_Terminal"]),
	("NO_COLOR", &["1", ""]),
	("NO_COLOUR", &["1"]),
	("PY_COLORS", &["1"]),
	("CARGO_TERM_COLOR", &["always"]),
	("LS_COLORS", &["di=01;34"]),
	("GREP_COLORS", &["mt=01;31"]),
	("CI", &["true"]),
	("GITHUB_ACTIONS", &["true"]),
	("TEAMCITY_VERSION", &["2020.1"]),
	("TF_BUILD", &["True"]),
	("LESS", &["-R"]),
	("PAGER", &["less -R"]),
	("COLOR", &["1", "always"]),
	("COLOUR", &["1", "always"]),
	("CLI_COLOUR", &["always"]),
	("CLI_COLOR", &["always"]),
	("PEMV_COLOUR", &["always"]),
	("PEMV_COLOR", &["always"]),
	("ConEmuANSI", &["ON"]),
	("ANSICON", &["1"]),
	("WT_SESSION", &["x"]),
	("SSH_TTY", &["/dev/pts/0"]),
	("DISPLAY", &[":0"]),
	("INSIDE_EMACS", &["28.1,comint"]),
	("STY", &["1.x"]),
	("TMUX", &["/tmp/tmux-0/default,1,0"]),
	("VTE_VERSION", &["6003"]),
];

fn colour_variables(r: &mut Rng, mut q: Req) -> Req {
	let rare = r.range(2, 12);
	for (k, v) in COLOUR_VARIABLES {
		if r.one_in(rare) {
			q = q.env(k, *r.pick(v));
		}
	}
	q
}

pub fn c52(ctx: &Ctx) {
	let pick = |r: &mut Rng| loop {
		let q = gen::request(r);
		if q.value.len() < 30_000 {
			return q;
		}
	};
	ctx.many("on and off", ctx.size(4500, 60_000), |ctx, r, i| {
		let q = pick(r);
		let on = *r.pick(&["ansi", "always"]);
		let dir = Dir::new(ctx, "c", i);
		let mut base = q.req().cwd(&dir.0);
		if i % 2 == 0 {
			base = colour_variables(r, base);
		}
		let with = |v: &str, r: &mut Rng| match r.below(4) {
			0 => base.clone().env("PEMV_CLI_COLOUR", v),
			_ => base.clone().arg(format!("--colour={v}")),
		};
		let off = with("never", r);
		let lit = with(on, r);
		let (a, b, c) = (ctx.run(&off), ctx.run(&lit), ctx.run(&base));
		if a.out.contains(&0x1B) && !q.value.contains('\x1b') {
			ctx.violation("There are colour codes with colour off", &[(&off, &a)], "none");
		}
		if !a.same(&c) {
			ctx.violation(
				"Without a choice, the output through a pipe is not plain",
				&[(&base, &c), (&off, &a)],
				"the same output",
			);
		}
		if a.err != b.err || a.code != b.code {
			ctx.violation("Colour changed the error or the status", &[(&lit, &b), (&off, &a)], "the same");
			return;
		}
		if b.err.contains(&0x1B) {
			ctx.violation("An error message is coloured", &[(&lit, &b)], "no colour codes in errors");
		}
		if !a.err.is_empty() {
			if b.out.is_empty() {
				ctx.event("errors without any colour codes");
			} else {
				ctx.violation("There's output next to an error", &[(&lit, &b)], "an empty stdout");
			}
			return;
		}
		let s = match term::interpret(&b.out) {
			Ok(s) => s,
			Err(e) => {
				ctx.violation(&format!("Something other than colour codes: {e}"), &[(&lit, &b)], "colour codes only");
				return;
			}
		};
		if s.plain != a.out {
			ctx.violation(
				&format!(
					"Colour changed the text: {}",
					difference(&String::from_utf8_lossy(&s.plain), &a.text())
				),
				&[(&lit, &b), (&off, &a)],
				"the same text without the codes",
			);
			return;
		}
		if s.codes == 0 && !a.out.is_empty() {
			ctx.event("a breakdown without any coloured part");
		}
		if s.last != term::Look::default() {
			ctx.violation("A colour is still on at the end", &[(&lit, &b)], "all colours off");
			return;
		}
		if let Some(n) = s.over {
			ctx.violation(&format!("A colour goes on in line {}", n + 1), &[(&lit, &b)], "a colour ends with its part");
			return;
		}
		// No colour beyond its part
		match bleeding(&q, &s) {
			Some(what) => ctx.violation(&what, &[(&lit, &b)], "a colour ends with its part"),
			None => {
				ctx.event("breakdowns with the same text in colour");
				ctx.events("colour codes seen", s.codes as u64);
			}
		}
	});
	terminals(ctx);
	ctx.require("breakdowns with the same text in colour", 1000);
	ctx.require("errors without any colour codes", 300);
}

/// Something coloured that has to be plain.
fn bleeding(q: &Request, s: &term::Screen) -> Option<String> {
	let plain = String::from_utf8_lossy(&s.plain).into_owned();
	let Ok(want) = q.wanted() else { return None };
	let got: Vec<&str> = plain.lines().collect();
	let mut at = 0;
	for (k, line) in got.iter().enumerate() {
		let look = &s.look[at..at + line.len()];
		at += line.len() + 1;
		let Some(w) = want.lines.get(k) else { break };
		let text: String = w.iter().map(|x| x.1.as_str()).collect();
		if text != *line {
			// For other properties, but the line drawing is plain in any case
			let drawn = line.trim_start().starts_with(['│', '└', '├']);
			if drawn && look[line.len() - line.trim_start().len()] != term::Look::default() {
				return Some(format!("'{line}' is coloured before its text"));
			}
			continue;
		}
		let mut p = 0;
		for (sty, t) in w {
			let range = p..p + t.len();
			p += t.len();
			if *sty != Sty::P {
				continue;
			}
			for (b, l) in t.bytes().zip(&look[range]) {
				if !b.is_ascii_whitespace() && *l != term::Look::default() {
					return Some(format!("'{}' is coloured in '{line}'", t.trim()));
				}
			}
		}
	}
	None
}

pub struct Pty {
	pub master: File,
	pub slave:  File,
}

pub fn pty() -> Option<Pty> {
	// SAFETY: plain system calls; the descriptors are new and owned here
	unsafe {
		let m = sys::posix_openpt(sys::O_RDWR | sys::O_NOCTTY | sys::O_CLOEXEC);
		if m < 0 {
			return None;
		}
		let master = File::from_raw_fd(m);
		let mut name = [0i8; 128];
		if sys::grantpt(m) != 0 || sys::unlockpt(m) != 0 || sys::ptsname_r(m, name.as_mut_ptr().cast(), name.len()) != 0 {
			return None;
		}
		let path: Vec<u8> = name.iter().take_while(|c| **c != 0).map(|c| *c as u8).collect();
		let path = PathBuf::from(OsString::from_vec(path));
		use std::os::unix::fs::OpenOptionsExt;
		let slave = File::options().read(true).write(true).custom_flags(sys::O_NOCTTY | sys::O_CLOEXEC).open(path).ok()?;
		Some(Pty { master, slave })
	}
}

/// Runs with standard output (and error) on a terminal.
pub fn on_terminal(ctx: &Ctx, req: &Req, err_too: bool) -> Option<Res> {
	let p = pty()?;
	let mut c = ctx.runner.command(req);
	c.stdout(p.slave.try_clone().ok()?);
	if err_too {
		c.stderr(p.slave.try_clone().ok()?);
	} else {
		c.stderr(Stdio::piped());
	}
	let mut child = crate::exec::spawn(&mut c).unwrap_or_else(|e| crate::fatal(&format!("cannot start: {e}")));
	drop(c);
	let pid = child.id();
	let (mut master, mut slave) = (p.master, p.slave);
	// The kernel may drop what is still on its way when the last user of a terminal closes it. So it
	// stays open here, and the end is marked.
	const END: &[u8] = b"\x02end of the output, as marked by the monitor\x03";
	let ((out, err, st), timed_out) = watched(pid, || {
		let pipe = child.stderr.take();
		std::thread::scope(|s| {
			let err = s.spawn(move || {
				let mut err = Vec::new();
				if let Some(mut e) = pipe {
					let _ = e.read_to_end(&mut err);
				}
				err
			});
			let st = s.spawn(move || {
				let st = child.wait();
				let _ = slave.write_all(END);
				(st, slave)
			});
			let mut out = Vec::new();
			let mut buf = [0; 8192];
			while !out.ends_with(END) {
				match master.read(&mut buf) {
					Ok(n) if n > 0 => out.extend(&buf[..n]),
					_ => crate::fatal("a terminal does not work"),
				}
			}
			out.truncate(out.len() - END.len());
			let st = st.join().unwrap_or_else(|_| crate::fatal("cannot wait")).0;
			(out, err.join().unwrap_or_default(), st)
		})
	});
	let st = st.unwrap_or_else(|e| crate::fatal(&e.to_string()));
	// The line discipline adds carriage returns
	let mut plain = Vec::with_capacity(out.len());
	for (i, b) in out.iter().enumerate() {
		if *b == b'\r' && out.get(i + 1) == Some(&b'\n') {
			continue;
		}
		plain.push(*b);
	}
	let res = Res { code: st.code(), signal: st.signal(), out: plain, err, timed_out };
	ctx.executed(req.hash64() ^ 3, !res.out.is_empty() || !res.err.is_empty());
	Some(res)
}

/// Terminals on every descriptor but standard output make no difference.
fn other_terminals(ctx: &Ctx) {
	ctx.many("other terminals", ctx.size(300, 4000), |ctx, r, i| {
		let q = gen::request(r);
		let plain = ctx.run(&q.req());
		let choice = *r.pick(&["", "", "--colour=auto"]);
		let mut req = q.req().env("TERM", *r.pick(&["xterm", "xterm-256color"]));
		if r.bool() {
			req = colour_variables(r, q.req());
		}
		if !choice.is_empty() {
			req = req.arg(choice);
		}
		let Some(p) = pty() else { return };
		let (on_in, on_err) = [(true, true), (false, true), (true, false)][i as usize % 3];
		let slave = || p.slave.try_clone().unwrap_or_else(|e| crate::fatal(&e.to_string()));
		let mut c = ctx.runner.command(&req);
		if on_in {
			c.stdin(slave());
		}
		if on_err {
			c.stderr(slave());
		}
		let res = ctx.runner.run_cmd(c);
		ctx.executed(req.hash64() ^ 5, !res.out.is_empty() || !res.err.is_empty());
		if res.out != plain.out || res.code != plain.code {
			ctx.violation(
				&format!("A terminal on {} changes what is written to a pipe", if on_err { "standard error" } else { "standard input" }),
				&[(&req, &res), (&q.req(), &plain)],
				"the plain output",
			);
		} else if !res.out.is_empty() {
			ctx.event("plain in a pipe, with a terminal on other descriptors");
		}
	});
	ctx.require("plain in a pipe, with a terminal on other descriptors", 50);
}

fn terminals(ctx: &Ctx) {
	if pty().is_none() {
		ctx.event("no terminal can be made here");
		return;
	}
	other_terminals(ctx);
	ctx.many("terminal", ctx.size(700, 9000), |ctx, r, i| {
		let q = loop {
			let q = gen::request(r);
			if q.value.len() < 6000 && !q.value.contains(['\r', '\x1b']) {
				break q;
			}
		};
		let plain = ctx.run(&q.req());
		let (how, supports): (&str, bool) = *r.pick(&[
			("xterm", true), ("xterm", true), ("xterm-256color", true), ("dumb", false), ("unset", false), ("NO_COLOR", false),
		]);
		let choice = *r.pick(&["", "", "", "--colour=auto", "--colour=never", "--colour=ansi"]);
		let mut req = q.req();
		if how == "NO_COLOR" {
			req = req.env("NO_COLOR", "1").env("TERM", "xterm");
		} else if how != "unset" {
			req = req.env("TERM", how);
		}
		if !choice.is_empty() {
			req = req.arg(choice);
		}
		let err_too = i % 5 == 0;
		let Some(res) = on_terminal(ctx, &req, err_too) else {
			ctx.event("no terminal can be made here");
			return;
		};
		let on = match choice {
			"--colour=never" => false,
			"--colour=ansi" => true,
			_ => supports,
		};
		if !plain.err.is_empty() {
			let said = if err_too { &res.out } else { &res.err };
			if *said != plain.err {
				ctx.violation("An error is different or coloured on a terminal", &[(&req, &res), (&q.req(), &plain)], "the plain error");
			} else {
				ctx.event("errors on a terminal are plain");
			}
			return;
		}
		let Ok(s) = term::interpret(&res.out) else {
			ctx.violation("Something other than colour codes on a terminal", &[(&req, &res)], "colour codes only");
			return;
		};
		if s.plain != plain.out || res.code != plain.code {
			ctx.violation("The text is different on a terminal", &[(&req, &res), (&q.req(), &plain)], "the same text");
			return;
		}
		if plain.out.is_empty() {
			return;
		}
		if !on && s.codes > 0 {
			ctx.violation(
				&format!("Colour codes on a terminal that should not get them ({how}, {choice:?})"),
				&[(&req, &res)],
				"no colour codes",
			);
		} else if on && s.codes == 0 {
			ctx.violation(
				&format!("No colours on a terminal that supports them ({how}, {choice:?})"),
				&[(&req, &res)],
				"colours",
			);
		} else {
			ctx.event(if on { "coloured on a terminal" } else { "plain on a terminal" });
		}
	});
}

// ---------------------------------------------------------------------------------------------

/// A request in any spelling.
fn spelled(r: &mut Rng, spelling: &str, value: &str) -> (&'static str, Vec<String>) {
	let short = !spelling.starts_with("--");
	let forms = if short { 4 } else { 2 };
	match r.below(forms) {
		0 if !value.starts_with('-') => ("separate", vec![spelling.to_owned(), value.to_owned()]),
		2 if !value.starts_with('=') => ("attached", vec![format!("{spelling}{value}")]),
		_ => ("joined", vec![format!("{spelling}={value}")]),
	}
}

pub fn c53(ctx: &Ctx) {
	let all: Vec<(Op, &str)> = OPS.iter().flat_map(|o| o.spellings().iter().map(|s| (*o, *s))).collect();
	ctx.many("spellings", ctx.size(6500, 80_000), |ctx, r, i| {
		let (op, spelling) = all[i as usize % all.len()];
		let q = loop {
			let q = gen::request(r);
			if q.op == op && (q.wanted().is_ok_and(|d| !d.lines.is_empty()) || r.one_in(4)) {
				break q;
			}
		};
		let base = q.req();
		let (form, args) = spelled(r, spelling, &q.value);
		let mut groups = vec![args];
		if op.is_tlv() {
			if !q.set.sort {
				groups.push(sort_forms(r, false));
			} else if r.one_in(3) {
				groups.push(sort_forms(r, true));
			}
			if q.set.masks != ['*'] {
				groups.extend(mask_forms(r, &q.set.masks));
			} else if r.one_in(4) {
				groups.extend(mask_forms(r, &['*']));
			}
		}
		if r.one_in(2) {
			let n = *r.pick(&["--colour", "--color"]);
			let v = if r.bool() { "auto" } else { "never" };
			groups.push(if r.bool() { vec![format!("{n}={v}")] } else { vec![n.to_owned(), v.to_owned()] });
		}
		r.shuffle(&mut groups);
		let req = Req::new(groups.concat());
		let (a, b) = (ctx.run(&base), ctx.run(&req));
		if a.same(&b) {
			ctx.event(&format!("the same with {spelling}"));
			ctx.event(&format!("the same in {form} form"));
		} else {
			ctx.violation(
				&format!("A different result with {spelling} ({form})"),
				&[(&req, &b), (&base, &a)],
				"the same result",
			);
		}
	});
	// Colour, where it shows
	ctx.many("colour", ctx.size(600, 6000), |ctx, r, _| {
		let q = probe(r);
		let v = *r.pick(&["ansi", "always"]);
		let base = q.req().arg(format!("--colour={v}"));
		let forms = [
			vec![format!("--color={v}")],
			vec!["--colour".to_owned(), v.to_owned()],
			vec!["--color".to_owned(), v.to_owned()],
			vec![format!("--colour={v}")],
		];
		let mut groups = vec![r.pick(&forms).clone(), vec![format!("{}={}", q.op.long(), q.value)]];
		r.shuffle(&mut groups);
		let req = Req::new(groups.concat());
		let (a, b) = (ctx.run(&base), ctx.run(&req));
		if a.same(&b) {
			ctx.event("the same with every spelling of the colour option");
		} else {
			ctx.violation("A different result with another spelling", &[(&req, &b), (&base, &a)], "the same result");
		}
	});
	// Settings, on data that shows them
	ctx.many("settings", ctx.size(2500, 30_000), |ctx, r, _| {
		let mut q = probe(r);
		let n = r.range(1, 3);
		q.set.masks = if r.bool() {
			(0..n).map(|_| *r.pick(CANDIDATES)).collect()
		} else {
			// Any character, with data that it masks
			let masks: Vec<char> = (0..n).map(|_| gen::mask(r)).filter(|c| *c != '-').collect();
			if masks.is_empty() {
				return;
			}
			let b: Vec<u8> = masks.iter().flat_map(|m| gen::object_plain(&gen::opaque_tag(r), &[u32::from(*m) as u8; 4])).collect();
			q = Request::new(Op::Ber, hex(&b));
			ctx.event("data masked by any character");
			masks
		};
		q.set.sort = r.bool();
		let base = q.req();
		let mut groups = mask_forms(r, &q.set.masks);
		groups.push(sort_forms(r, q.set.sort));
		groups.push(spelled(r, r.clone().pick(q.op.spellings()), &q.value).1);
		r.shuffle(&mut groups);
		let req = Req::new(groups.concat());
		let (a, b) = (ctx.run(&base), ctx.run(&req));
		if a.same(&b) && accepted(&a) {
			ctx.event("the same with every spelling of the settings");
		} else {
			ctx.violation("A different result with another spelling", &[(&req, &b), (&base, &a)], "the same result");
		}
	});
	for (_, s) in &all {
		ctx.require(&format!("the same with {s}"), 30);
	}
	ctx.require("the same with every spelling of the settings", 300);
}

fn sort_forms(r: &mut Rng, on: bool) -> Vec<String> {
	let one = sort_arg(r, on);
	match one.split_once('=') {
		Some((n, v)) if r.bool() => vec![n.to_owned(), v.to_owned()],
		_ => vec![one],
	}
}

fn mask_forms(r: &mut Rng, m: &[char]) -> Vec<Vec<String>> {
	let long = |r: &mut Rng| *r.pick(&["--masking-character", "--masking-char", "--masking", "-m"]);
	if r.one_in(3) {
		// All after one option
		let mut g = vec![long(r).to_owned()];
		g.extend(m.iter().map(char::to_string));
		return vec![g];
	}
	m.iter()
		.map(|c| {
			let n = long(r);
			match r.below(3) {
				0 if n == "-m" && *c != '=' => vec![format!("-m{c}")],
				1 => vec![n.to_owned(), c.to_string()],
				_ => vec![format!("{n}={c}")],
			}
		})
		.collect()
}

// ---------------------------------------------------------------------------------------------

pub fn c54(ctx: &Ctx) {
	let rejected = |ctx: &Ctx, what: &str, req: &Req| {
		let res = ctx.run(req);
		let ok = res.ordinary() && res.failed() && res.out.is_empty() && !res.err.iter().all(u8::is_ascii_whitespace);
		if ok {
			ctx.event(&format!("rejected: {what}"));
		} else {
			ctx.violation(
				&format!("This was not rejected: {what}"),
				&[(req, &res)],
				"a usage error on stderr, a failing status, nothing on stdout",
			);
		}
	};
	let valid = |r: &mut Rng, tlv: Option<bool>| loop {
		let mut q = gen::request(r);
		if tlv.is_some_and(|t| t != q.op.is_tlv()) || q.value.len() > 5000 {
			continue;
		}
		if q.wanted().is_ok_and(|d| !d.lines.is_empty()) {
			q.set = Settings::default();
			return q;
		}
	};
	let joined = |r: &mut Rng, q: &Request| {
		let s = *r.pick(q.op.spellings());
		vec![format!("{s}={}", q.value)]
	};
	let setting = |r: &mut Rng| match r.below(3) {
		0 => vec![sort_arg(r, r.clone().bool())],
		1 => {
			let c = *r.pick(CANDIDATES);
			mask_args(r, &[c]).concat()
		}
		_ => vec![format!("--masking={}", r.pick(CANDIDATES))],
	};
	ctx.many("pairs", (OPS.len() * OPS.len()) as u64 * ctx.size(12, 120), |ctx, r, i| {
		let a = OPS[i as usize % OPS.len()];
		let b = OPS[i as usize / OPS.len() % OPS.len()];
		let of = |r: &mut Rng, op: Op| loop {
			let q = gen::request(r);
			if q.op == op && q.value.len() < 5000 {
				return q;
			}
		};
		let (x, y) = (of(r, a), of(r, b));
		let mut args = [joined(r, &x), joined(r, &y)].concat();
		if r.one_in(4) {
			args.push((*r.pick(&["--colour=never", "--colour=ansi"])).to_owned());
		}
		let req = Req::new(args);
		rejected(ctx, if a == b { "an operation twice" } else { "two operations" }, &req);
	});
	ctx.many("others", ctx.size(9000, 90_000), |ctx, r, i| {
		let (what, groups) = match i % 12 {
			0 => {
				let q = valid(r, Some(false));
				("TLV settings with another operation", vec![joined(r, &q), setting(r)])
			}
			1 => ("TLV settings without an operation", vec![setting(r)]),
			2 => {
				let q = valid(r, Some(true));
				let a = *r.pick(&["--sort", "--sort=true", "--sort=false", "--sort-parsed-tags"]);
				let b = *r.pick(&["--no-sort", "--no-sort=true", "--no-sort=false", "--no-sort-parsed-tags"]);
				("both sorting switches", vec![joined(r, &q), vec![a.to_owned()], vec![b.to_owned()]])
			}
			3 => {
				let q = valid(r, None);
				let a = *r.pick(&["--colour=never", "--color=ansi", "--colour=auto"]);
				let b = *r.pick(&["--colour=never", "--color=always"]);
				("colour twice", vec![joined(r, &q), vec![a.to_owned()], vec![b.to_owned()]])
			}
			4 => {
				let q = valid(r, Some(true));
				let (a, b) = if r.bool() {
					(*r.pick(&["--sort", "--sort=false", "--sort-parsed-tags=true"]), *r.pick(&["--sort", "--sort=true"]))
				} else {
					(*r.pick(&["--no-sort", "--no-sort=false"]), *r.pick(&["--no-sort-parsed-tags", "--no-sort=true"]))
				};
				("a sorting switch twice", vec![joined(r, &q), vec![a.to_owned()], vec![b.to_owned()]])
			}
			5 => {
				// The last argument has no value
				let op = *r.pick(OPS);
				let mut args = Vec::new();
				if r.one_in(3) {
					args.push((*r.pick(&["--colour=never", "--colour=ansi"])).to_owned());
				}
				args.push((*r.pick(op.spellings())).to_owned());
				rejected(ctx, "a missing value", &Req::new(args));
				return;
			}
			6 => {
				let op = *r.pick(OPS);
				let s = *r.pick(op.spellings());
				let args = if r.bool() { vec![format!("{s}=")] } else { vec![s.to_owned(), String::new()] };
				("an empty value", vec![args])
			}
			7 => {
				let q = valid(r, None);
				let bad = *r.pick(&["--bogus", "-z", "--tvrs=00", "--Tvr=00", "--unknown=1", "-9", "--sorted", "--BER=5A00", "--tlv", "-x=1", "--9F99=00", "--ber_tlv=5A00"]);
				("an unknown option", vec![joined(r, &q), vec![bad.to_owned()]])
			}
			8 => {
				let q = valid(r, None);
				let bad = *r.pick(&["5A021234", "x", "", " ", "00", "tvr", "true"]);
				("an unknown argument", vec![joined(r, &q), vec![bad.to_owned()]])
			}
			9 => {
				let q = valid(r, Some(true));
				let s = *r.pick(&["-m", "--masking", "--masking-character"]);
				let mut args = joined(r, &q);
				args.push(s.to_owned());
				rejected(ctx, "a missing masking character", &Req::new(args));
				return;
			}
			10 => {
				let q = valid(r, None);
				let mut args = joined(r, &q);
				args.push((*r.pick(&["--colour", "--color"])).to_owned());
				rejected(ctx, "a missing colour choice", &Req::new(args));
				return;
			}
			_ => {
				// An argument alone
				let a = *r.pick(&["5A021234", "0000000000", "--", "-", "x", "--bogus", "help", "T9F02:06:h000000000100", "201"]);
				let req = Req::new([a]);
				if a == "--" {
					// Nothing is asked for: help
					return;
				}
				rejected(ctx, "an argument without an option", &req);
				return;
			}
		};
		let mut groups = groups;
		r.shuffle(&mut groups);
		// An option with an optional or repeated value takes what follows
		let req = Req::new(keep_apart(groups));
		rejected(ctx, what, &req);
	});
	// What is almost an option: abbreviated, in another case, with a letter more or less
	let settings = [
		"--colour", "--color", "--masking-character", "--masking-char", "--masking", "--sort-parsed-tags", "--sort",
		"--no-sort-parsed-tags", "--no-sort", "--help", "--version",
	];
	let known: Vec<&str> = OPS.iter().flat_map(|o| o.spellings()).copied().filter(|s| s.starts_with("--")).chain(settings).collect();
	let mut almost: Vec<(Option<Op>, String)> = Vec::new();
	for k in &known {
		let op = OPS.iter().copied().find(|o| o.spellings().contains(k));
		let name: Vec<char> = k[2..].chars().collect();
		let mut names: Vec<String> = (1..name.len()).map(|n| name[..n].iter().collect()).collect();
		for p in 0..name.len() {
			let mut n = name.clone();
			n.remove(p);
			names.push(n.iter().collect());
			let mut n = name.clone();
			n.insert(p, name[p]);
			names.push(n.iter().collect());
			let mut n = name.clone();
			n[p] = if n[p].is_uppercase() { n[p].to_ascii_lowercase() } else { n[p].to_ascii_uppercase() };
			names.push(n.iter().collect());
			if name[p] == '-' {
				let mut n = name.clone();
				n[p] = '_';
				names.push(n.iter().collect());
			}
		}
		let whole: String = name.iter().collect();
		names.extend([whole.to_uppercase(), format!("{whole}s"), format!("no-{whole}"), format!("-{whole}"), format!("{whole}:")]);
		for n in names {
			let n = format!("--{n}");
			if n.len() > 2 && !known.contains(&n.as_str()) {
				almost.push((op, n));
			}
		}
	}
	almost.sort_by(|a, b| a.1.cmp(&b.1));
	almost.dedup_by(|a, b| a.1 == b.1);
	ctx.many("almost an option", almost.len() as u64 * ctx.size(2, 10), |ctx, r, i| {
		let (op, name) = &almost[i as usize % almost.len()];
		let args = match op {
			Some(op) => {
				let q = loop {
					let q = valid(r, None);
					if q.op == *op {
						break q;
					}
				};
				if r.bool() { vec![format!("{name}={}", q.value)] } else { vec![name.clone(), q.value] }
			}
			None => {
				let q = valid(r, Some(true));
				let mut args = joined(r, &q);
				let v = if name.contains("co") { "never" } else if name.contains("ma") { "*" } else { "true" };
				args.push(if r.bool() { format!("{name}={v}") } else { name.clone() });
				args
			}
		};
		rejected(ctx, "almost an option", &Req::new(args));
	});
	// A word of its own that begins with a hyphen is no value
	let words = [
		"-1", "-0", "-201", "-9", "-5.5", "-1e5", "-.5", "-z", "-95", "-5A0112", "--5A0112", "--9A", "-9F02", "--bogus", "-é", "-1x",
	];
	ctx.many("hyphens", (OPS.len() * words.len()) as u64 * ctx.size(3, 20), |ctx, r, i| {
		let op = OPS[i as usize % OPS.len()];
		let w = words[i as usize / OPS.len() % words.len()];
		let mut args = vec![(*r.pick(op.spellings())).to_owned(), w.to_owned()];
		if r.one_in(3) {
			args.push((*r.pick(&["--colour=never", "--colour=ansi"])).to_owned());
		}
		rejected(ctx, "a value that looks like an option", &Req::new(args));
	});
	// Help and version
	let version = std::env::var("PEMV_VERSION").ok().filter(|v| !v.is_empty());
	for args in [vec![], vec!["-h"], vec!["--help"], vec!["-?"], vec!["--colour=never", "-h"], vec!["--tvr=0000000000", "--help"], vec!["-h", "--ber-tlv=5A00"]] {
		let req = Req::new(&args).env("COLUMNS", "200");
		let res = ctx.run(&req);
		let both = [res.text(), res.etext()].concat();
		let missing: Vec<_> = OPS.iter().map(|o| o.long()).filter(|o| !both.contains(o)).collect();
		let ok = res.ordinary() && missing.is_empty() && both.contains("Usage") && (args.is_empty() || (accepted(&res)));
		let settings = ["--colour", "--masking-character", "--sort-parsed-tags", "--no-sort-parsed-tags", "--help", "--version"];
		if ok && settings.iter().all(|s| both.contains(s)) {
			ctx.event("help names every option");
		} else {
			ctx.violation("Help is not shown or misses options", &[(&req, &res)], "help with every option");
		}
		// Nothing else than help
		if both.contains("Tag: 0x") {
			ctx.violation("A breakdown in spite of asking for help", &[(&req, &res)], "help only");
		}
	}
	for args in [vec!["-V"], vec!["--version"], vec!["--tvr=0000000000", "-V"], vec!["--version", "--ber-tlv=5A00"]] {
		let req = Req::new(&args);
		let res = ctx.run(&req);
		let t = res.text();
		let number = t.trim().rsplit(' ').next().unwrap_or("");
		let ok = accepted(&res)
			&& t.lines().count() == 1
			&& version.as_ref().map_or(number.contains('.'), |v| v == number);
		if ok {
			ctx.event("version shown");
		} else {
			ctx.violation("The version is not shown", &[(&req, &res)], "one line with the version");
		}
	}
	for s in [
		"an operation twice", "two operations", "TLV settings with another operation", "TLV settings without an operation",
		"both sorting switches", "colour twice", "a sorting switch twice", "a missing value", "an empty value",
		"an unknown option", "an unknown argument", "a missing masking character", "a missing colour choice",
	] {
		ctx.require(&format!("rejected: {s}"), 50);
	}
}

/// Puts what stands alone before options that might take it as their value.
fn keep_apart(groups: Vec<Vec<String>>) -> Vec<String> {
	let (mut plain, dashed): (Vec<_>, Vec<_>) =
		groups.into_iter().partition(|g| g.len() == 1 && !g[0].starts_with('-'));
	plain.extend(dashed);
	plain.concat()
}
