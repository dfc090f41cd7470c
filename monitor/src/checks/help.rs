//! Help, the manual page and the completion scripts against what the program accepts.

use std::{
	collections::{BTreeMap, BTreeSet},
	path::Path,
	process::{Command, Stdio},
};

use super::{accepted, difference};
use crate::{
	ctx::Ctx,
	exec::{Req, Res},
	gen::{self, Request},
	hexu::{hex, unhex},
	model::{Op, OPS},
	rng::Rng,
	view::View,
};

const HELP: &[&str] = &["-h", "-?", "--help"];
const VERSION: &[&str] = &["-V", "--version"];
const SETTINGS: &[&str] = &["--colour", "--masking-character", "--sort-parsed-tags", "--no-sort-parsed-tags"];
const FILES: &[&str] = &["pemv.1", "pemv.bash", "_pemv", "pemv.fish", "pemv.elv", "_pemv.ps1"];

/// An option as help presents it.
#[derive(Clone, Default, Debug)]
struct Listed {
	names:    Vec<String>,
	value:    bool,
	default:  Option<String>,
	possible: Vec<String>,
	/// The tags it is said to be for.
	tags:     Vec<String>,
}

impl Listed {
	fn long(&self) -> &str {
		self.names.iter().find(|n| n.starts_with("--")).map_or("", |n| n)
	}
}

fn bracketed<'a>(text: &'a str, what: &str) -> Option<&'a str> {
	let at = text.find(&format!("[{what}: "))? + what.len() + 3;
	let len = text[at..].find(']')?;
	Some(text[at..at + len].trim())
}

fn listed(text: &str) -> Vec<Listed> {
	let mut entries: Vec<(String, Vec<&str>)> = Vec::new();
	let mut inside = false;
	for l in text.lines() {
		let t = l.trim_start();
		let indent = l.len() - t.len();
		if t.starts_with('-') && indent > 0 && indent < 8 {
			let (head, rest) = t.split_once("  ").unwrap_or((t, ""));
			entries.push((head.to_owned(), vec![rest.trim()]));
			inside = true;
		} else if !t.is_empty() && indent == 0 {
			inside = false;
		} else if inside {
			entries.last_mut().unwrap().1.push(t);
		}
	}
	entries
		.into_iter()
		.map(|(head, body)| {
			let body = body.iter().flat_map(|l| l.split_whitespace()).collect::<Vec<_>>().join(" ");
			let mut names: Vec<String> = head
				.split(|c: char| c == ',' || c.is_whitespace())
				.filter(|t| t.starts_with('-'))
				.map(|t| t.split(['=', '[', '<']).next().unwrap().to_owned())
				.collect();
			let each = |s: Option<&str>| -> Vec<String> {
				s.map(|s| s.split(',').map(|a| a.trim().to_owned()).filter(|a| !a.is_empty()).collect()).unwrap_or_default()
			};
			names.extend(each(bracketed(&body, "aliases")).iter().map(|a| format!("--{a}")));
			names.extend(each(bracketed(&body, "short aliases")).iter().map(|a| format!("-{a}")));
			let mut tags = Vec::new();
			for (at, _) in body.match_indices("0x") {
				let digits: String = body[at + 2..].chars().take_while(char::is_ascii_hexdigit).collect();
				// A part of something else has no tag; values of several others can be explained, too
				let before = &body[..at];
				if before.ends_with("tag ") && !before.ends_with("part of tag ") && digits.len() >= 2 {
					tags.push(digits);
				}
			}
			for n in &names {
				let d = n.trim_start_matches('-');
				if n.starts_with("--") && d.len() % 2 == 0 && d.chars().all(|c| c.is_ascii_hexdigit()) {
					tags.push(d.to_uppercase());
				}
			}
			tags.sort();
			tags.dedup();
			Listed {
				names,
				value: head.contains('<'),
				default: bracketed(&body, "default").map(str::to_owned),
				possible: each(bracketed(&body, "possible values")),
				tags,
			}
		})
		.collect()
}

fn words(res: &Res) -> String {
	res.text().split_whitespace().collect::<Vec<_>>().join(" ")
}

/// A request with data in which settings show, and one of any kind.
fn around(r: &mut Rng) -> Vec<Vec<String>> {
	let mut g = Vec::new();
	let q = gen::request(r);
	let some = r.bool();
	if some && q.value.len() < 5000 {
		let mut args = q.req().args;
		let rest = args.split_off(1);
		let value = r.bool() && !q.value.starts_with('-') && !q.value.is_empty();
		g.push(if value {
			vec![q.op.spellings()[0].to_owned(), q.value.clone()]
		} else {
			vec![args[0].to_string_lossy().into_owned()]
		});
		g.extend(rest.into_iter().map(|a| vec![a.to_string_lossy().into_owned()]));
		if q.op.is_tlv() && r.one_in(2) {
			for _ in 0..r.range(1, 2) {
				let (name, m) = (*r.pick(&["-m", "--masking", "--masking-character"]), *r.pick(&["*", "#", "X"]));
				g.push(vec![name.to_owned(), m.to_owned()]);
			}
		}
		if q.op.is_tlv() && q.set.sort && r.one_in(3) {
			g.push(vec![(*r.pick(&["--sort", "--no-sort", "--sort=false"])).to_owned()]);
		}
	}
	if r.one_in(2) {
		g.push(vec![format!("--colour={}", r.pick(&["auto", "always", "ansi", "never"]))]);
	}
	r.shuffle(&mut g);
	g
}

fn op_of(long: &str) -> Option<Op> {
	OPS.iter().copied().find(|o| o.long() == long)
}

/// A request that has `long` given a value.
fn sample(r: &mut Rng, l: &Listed) -> Option<(Request, String)> {
	if let Some(op) = op_of(l.long()) {
		let q = loop {
			let q = gen::request(r);
			if q.op == op && !q.value.is_empty() {
				break q;
			}
		};
		let v = q.value.clone();
		return Some((q, v));
	}
	let v = match l.possible.as_slice() {
		[] if l.long() == "--masking-character" => gen::mask(r).to_string(),
		[] => return None,
		p => r.pick(p).clone(),
	};
	Some((super::cli::probe(r), v))
}

fn with(q: &Request, spelling: &str, value: &str, own: bool, form: usize) -> Req {
	let arg = |s: &str| match (form, s.starts_with("--")) {
		(0, false) if !value.starts_with('=') => vec![format!("{s}{value}")],
		(1, _) if !value.starts_with('-') => vec![s.to_owned(), value.to_owned()],
		_ => vec![format!("{s}={value}")],
	};
	let usual = q.req();
	let mut args: Vec<_> = arg(spelling).into_iter().map(Into::into).collect();
	if own {
		// The first argument is the one with the operation
		args.extend(usual.args.into_iter().skip(1));
	} else {
		args.extend(usual.args);
	}
	Req::new(args)
}

pub fn c55(ctx: &Ctx) {
	requests(ctx);
	// What help says
	let mut merged: BTreeMap<String, Listed> = BTreeMap::new();
	for ask in ["-h", "--help"] {
		let req = Req::new([ask]).env("COLUMNS", "100");
		let res = ctx.run(&req);
		let entries = listed(&res.text());
		ctx.events("options found in help", entries.len() as u64);
		let names: BTreeSet<&str> = entries.iter().flat_map(|l| l.names.iter().map(String::as_str)).collect();
		complete(ctx, "Help", &names, &req, &res);
		let mut seen = BTreeSet::new();
		for l in &entries {
			for n in &l.names {
				if !seen.insert(n.clone()) {
					ctx.violation(&format!("Help lists {n} twice"), &[(&req, &res)], "every spelling once");
				}
			}
		}
		for l in entries {
			if l.long().is_empty() {
				ctx.violation(&format!("An option without a name in help: {l:?}"), &[(&req, &res)], "a name");
				continue;
			}
			let m = merged.entry(l.long().to_owned()).or_insert_with(|| l.clone());
			for n in l.names {
				if !m.names.contains(&n) {
					m.names.push(n);
				}
			}
			for t in l.tags {
				if !m.tags.contains(&t) {
					m.tags.push(t);
				}
			}
			if (&m.default, &m.possible, m.value) != (&l.default, &l.possible, l.value) {
				ctx.violation("Short and long help disagree", &[(&req, &res)], &format!("{m:?}"));
			}
		}
	}
	let all: Vec<Listed> = merged.into_values().collect();
	spellings(ctx, &all);
	values(ctx, &all);
	tags(ctx, &all);
	integrations(ctx, &all);
	for s in [
		"help as ever", "version as ever", "help as ever in spite of broken settings", "a listed spelling means the same",
		"the listed default is the default", "a listed value accepted", "an unlisted value refused",
		"the tag in the description is explained alike",
	] {
		ctx.require(s, 50);
	}
	for f in FILES {
		ctx.require(&format!("an offer of {f} accepted"), 15);
	}
	ctx.require("completed values accepted", 6);
}

/// Asking for help or the version gives that, whatever else there is.
fn requests(ctx: &Ctx) {
	let base: Vec<Vec<(Req, Res)>> = [&["-h", "-?"][..], &["--help"][..], VERSION]
		.iter()
		.map(|g| g.iter().map(|a| Req::new([a])).map(|q| { let res = ctx.run(&q); (q, res) }).collect())
		.collect();
	for g in &base {
		for x in g {
			if !accepted(&x.1) || x.1.out != g[0].1.out || x.1.out.is_empty() {
				ctx.violation("Help or the version is not given, or not the same with another spelling", &[(&x.0, &x.1), (&g[0].0, &g[0].1)], "the same text on stdout, status 0");
			}
		}
	}
	let version = &base[2][0].1;
	for h in &base[..2] {
		// Help begins with what the version is
		if !h[0].1.text().starts_with(version.text().trim()) {
			ctx.violation("Help and the version disagree", &[(&h[0].0, &h[0].1), (&base[2][0].0, version)], "help under the name and version");
		}
	}
	ctx.many("requests", ctx.size(2200, 40_000), |ctx, r, i| {
		let asks = if r.one_in(3) { VERSION } else { HELP };
		let ask = *r.pick(asks);
		let want = match ask {
			"--help" => &base[1][0].1,
			"-h" | "-?" => &base[0][0].1,
			_ => version,
		};
		let (mut groups, after) = (around(r), r.bool());
		let at = if after { r.below(groups.len() + 1) } else { groups.len() };
		groups.insert(at, vec![ask.to_owned()]);
		let mut req = Req::new(groups.concat());
		let mut broken = false;
		let columns = r.one_in(3);
		if columns {
			req = req.env("COLUMNS", r.range(20, 400).to_string());
		}
		if r.one_in(2) {
			let (k, v) = *r.pick(&[
				("PEMV_CLI_COLOUR", "purple"), ("PEMV_CLI_COLOUR", "never"), ("PEMV_MASKING_CHARACTERS", "[\"#\"]"), ("PEMV_MASKING_CHARACTERS", "7"),
				("PEMV_SORT_PARSED_TAGS", "maybe"), ("PEMV_SORT_PARSED_TAGS", "false"), ("PEMV_UNKNOWN", "1"),
			]);
			broken |= matches!(v, "purple" | "7" | "maybe");
			req = req.env(k, v);
		}
		let dir = ctx.scratch.join(format!("help{i}"));
		if r.one_in(2) {
			let text = *r.pick(&["cli_colour = \"purple\"\n", "}{", "sort_parsed_tags = false\n", "masking_characters = 1\n", ""]);
			broken |= !(text.is_empty() || text.contains("false"));
			std::fs::create_dir_all(&dir).unwrap_or_else(|e| crate::fatal(&e.to_string()));
			std::fs::write(dir.join("pemv.toml"), text).unwrap_or_else(|e| crate::fatal(&e.to_string()));
			req = req.cwd(&dir);
		}
		let res = ctx.run(&req);
		let same = if columns {
			words(&res) == words(want)
		} else {
			res.out == want.out
		};
		if same && accepted(&res) {
			ctx.event(if ask == "-V" || ask == "--version" { "version as ever" } else { "help as ever" });
			if broken {
				ctx.event("help as ever in spite of broken settings");
			}
		} else {
			ctx.violation(
				&format!("Asking for {ask} is answered differently: {}", difference(&res.text(), &want.text())),
				&[(&req, &res)],
				&want.text(),
			);
		}
		if req.cwd.is_some() {
			let _ = std::fs::remove_dir_all(&dir);
		}
	});
}

fn complete(ctx: &Ctx, what: &str, names: &BTreeSet<&str>, req: &Req, res: &Res) {
	let missing: Vec<&str> = OPS
		.iter()
		.map(|o| o.long())
		.chain(SETTINGS.iter().copied())
		.chain(["--help", "--version"])
		.filter(|n| !names.contains(n))
		.collect();
	if missing.is_empty() {
		ctx.event("everything listed");
	} else {
		ctx.violation(&format!("{what} does not list {}", missing.join(", ")), &[(req, res)], "every operation and setting");
	}
}

fn spellings(ctx: &Ctx, all: &[Listed]) {
	let pairs: Vec<(&Listed, &str)> = all
		.iter()
		.filter(|l| l.value)
		.flat_map(|l| l.names.iter().map(move |n| (l, n.as_str())))
		.collect();
	if pairs.is_empty() {
		return;
	}
	ctx.many("listed spellings", ctx.size(2600, 40_000), |ctx, r, i| {
		let (l, name) = pairs[i as usize % pairs.len()];
		let Some((q, v)) = sample(r, l) else {
			ctx.event("an option without known values");
			return;
		};
		let own = op_of(l.long()).is_some();
		let want = with(&q, l.long(), &v, own, 2);
		let req = with(&q, name, &v, own, r.below(3));
		let (a, b) = (ctx.run(&want), ctx.run(&req));
		let unknown = !own && !accepted(&b);
		if a.same(&b) && !unknown {
			ctx.event("a listed spelling means the same");
			ctx.event(&format!("{name} as listed"));
		} else {
			ctx.violation(&format!("{name} is listed as {}, but is not", l.long()), &[(&req, &b), (&want, &a)], "the same result");
		}
	});
	for (l, n) in &pairs {
		if op_of(l.long()).is_some() || SETTINGS.contains(&l.long()) {
			ctx.require(&format!("{n} as listed"), 10);
		}
	}
}

fn values(ctx: &Ctx, all: &[Listed]) {
	let defaults: Vec<&Listed> = all.iter().filter(|l| l.default.is_some()).collect();
	ctx.many("defaults", ctx.size(600, 6000), |ctx, r, i| {
		if defaults.is_empty() {
			return;
		}
		let l = defaults[i as usize % defaults.len()];
		let q = if r.one_in(4) {
			// Data of every single character
			let mut b = Vec::new();
			for c in 0..=0xFF {
				b.extend(gen::object_plain(&gen::opaque_tag(r), &vec![c; r.range(1, 4)]));
			}
			Request::new(Op::Ber, hex(&b))
		} else if r.bool() {
			super::cli::probe(r)
		} else { Request::new(Op::Ber, hex(&gen::ber_block(r))) };
		let own = with(&q, l.long(), l.default.as_deref().unwrap(), false, 2);
		let none = q.req();
		// Colours depend on where the output goes
		let terminal = l.long() == "--colour" && r.one_in(3);
		let (a, b) = if terminal {
			let (own, none) = (own.clone().env("TERM", "xterm"), none.clone().env("TERM", "xterm"));
			match (super::cli::on_terminal(ctx, &own, false), super::cli::on_terminal(ctx, &none, false)) {
				(Some(a), Some(b)) => (a, b),
				_ => return,
			}
		} else {
			(ctx.run(&own), ctx.run(&none))
		};
		if a.same(&b) {
			ctx.event("the listed default is the default");
			if terminal {
				ctx.event("the listed default is the default on a terminal");
			}
		} else {
			ctx.violation(&format!("The default of {} is not as listed", l.long()), &[(&own, &a), (&none, &b)], "the same result with the default as without");
		}
	});
	let closed: Vec<&Listed> = all.iter().filter(|l| !l.possible.is_empty()).collect();
	ctx.many("listed values", ctx.size(2400, 12_000), |ctx, r, i| {
		if closed.is_empty() {
			return;
		}
		let l = closed[i as usize % closed.len()];
		let q = super::cli::probe(r);
		let name = r.pick(&l.names).clone();
		if r.bool() {
			let v = r.pick(&l.possible).clone();
			let req = with(&q, &name, &v, false, 2);
			let res = ctx.run(&req);
			if accepted(&res) && !res.out.is_empty() {
				ctx.event("a listed value accepted");
			} else {
				ctx.violation(&format!("{v} is listed for {name}, but not accepted"), &[(&req, &res)], "acceptance");
			}
			return;
		}
		let mut v = r.pick(&l.possible).clone();
		match r.below(6) {
			0 | 1 => v = r.pick(&["yes", "no", "on", "off", "1", "0", "none", "ANSI", "tty", "x", "auto ", "t", "f", "ansi", "never", "always", "auto", "true", "false"]).to_string(),
			2 => v = if r.bool() { v.to_uppercase() } else { v[..1].to_uppercase() + &v[1..] },
			3 => {
				v.pop();
			}
			_ => gen::mutate_text(r, &mut v),
		}
		if l.possible.contains(&v) || v.is_empty() || v.contains('\0') {
			return;
		}
		let req = with(&q, &name, &v, false, 2);
		let res = ctx.run(&req);
		if res.failed() && res.out.is_empty() {
			ctx.event("an unlisted value refused");
		} else {
			ctx.violation(&format!("'{v}' is not listed for {name}, but accepted"), &[(&req, &res)], "refusal");
		}
	});
}

/// An option said to be for a tag explains the values of this tag as they are explained in TLV data.
fn tags(ctx: &Ctx, all: &[Listed]) {
	let pairs: Vec<(&Listed, &str)> = all.iter().flat_map(|l| l.tags.iter().map(move |t| (l, t.as_str()))).collect();
	ctx.events("tags in descriptions", pairs.len() as u64);
	if pairs.is_empty() {
		return;
	}
	ctx.many("tags in descriptions", ctx.size(900, 12_000), |ctx, r, i| {
		let (l, tag) = pairs[i as usize % pairs.len()];
		let Some(op) = op_of(l.long()) else { return };
		let tag = unhex(tag);
		let v = if op == Op::Iad { gen::ccd_iad(r) } else { gen::good_value(r, &tag) };
		if op == Op::ServiceCode && v.len() != 2 {
			return;
		}
		let text = if op == Op::ServiceCode { hex(&v) } else { format!(" {}", hex(&v)) };
		let alone = Request::new(op, text).req();
		let block = Request::new(Op::Ber, hex(&gen::object(r, &tag, &v))).masks(&['\u{fffd}']).req();
		let (a, b) = (ctx.run(&alone), ctx.run(&block));
		let view = View::parse(&b.text());
		let got = match view.nodes.as_slice() {
			[x] => x.parsed.clone().unwrap_or_default(),
			_ => Vec::new(),
		};
		let want: Vec<String> = a.text().lines().map(str::to_owned).collect();
		if !accepted(&a) {
			ctx.event("a value refused alone");
		} else if accepted(&b) && got == want {
			ctx.event("the tag in the description is explained alike");
			ctx.event(&format!("{} explained as tag 0x{}", l.long(), hex(&tag)));
		} else {
			ctx.violation(
				&format!("{} is described as being for tag 0x{}, but is not", l.long(), hex(&tag)),
				&[(&alone, &a), (&block, &b)],
				"the same explanation",
			);
		}
	});
	for (l, t) in &pairs {
		if op_of(l.long()).is_some() && !ctx.violated() {
			ctx.require(&format!("{} explained as tag 0x{t}", l.long()), 20);
		}
	}
}

/// The spellings in a line that stand where options do.
fn dashed(text: &str) -> Vec<String> {
	let mut found = Vec::new();
	let mut rest = text;
	while let Some(at) = rest.find('-') {
		let before = rest[..at].chars().next_back();
		let name: String = rest[at..].chars().take_while(|c| c.is_ascii_alphanumeric() || *c == '-' || *c == '?').collect();
		if !before.is_some_and(|c| c.is_alphanumeric()) && name.trim_matches('-').chars().next().is_some() {
			found.push(name.clone());
		}
		rest = &rest[at + name.len().max(1)..];
	}
	found
}

/// What each file offers.
fn offers(name: &str, text: &str) -> Vec<String> {
	let mut out = Vec::new();
	match name {
		"pemv.1" => {
			let plain = text.replace("\\-", "-").replace("\\fB", "").replace("\\fR", "").replace("\\fI", "");
			let mut lines = plain.lines();
			while let Some(l) = lines.next() {
				if l == ".TP" {
					// The value's name is no option
					let head = lines.next().unwrap_or("");
					let head = head.split(" [").next().unwrap_or("");
					for part in head.split(", ") {
						out.extend(dashed(part.split('=').next().unwrap_or("")));
					}
				}
			}
		}
		"_pemv" => {
			for l in text.lines().map(str::trim) {
				// '(conflicts)*-x+[description]:value:(values)'
				let Some(l) = l.strip_prefix('\'') else { continue };
				let l = match l.strip_prefix('(').and_then(|l| l.split_once(')')) {
					Some((_, l)) => l,
					None => l,
				};
				let l = l.trim_start_matches('*');
				if l.starts_with('-') {
					out.extend(dashed(l.split(['[', '=', '+', ':']).next().unwrap_or("")));
				}
			}
		}
		"pemv.fish" => {
			for l in text.lines().filter(|l| l.starts_with("complete -c pemv ")) {
				let mut w = l.split(" -d '").next().unwrap_or("").split_whitespace();
				while let Some(x) = w.next() {
					match x {
						"-s" | "-o" => out.extend(w.next().map(|n| format!("-{n}"))),
						"-l" => out.extend(w.next().map(|n| format!("--{n}"))),
						_ => {}
					}
				}
			}
		}
		"pemv.elv" => {
			for l in text.lines().filter_map(|l| l.trim().strip_prefix("cand ")) {
				out.extend(l.split_whitespace().next().filter(|w| w.starts_with('-')).map(str::to_owned));
			}
		}
		"_pemv.ps1" => {
			for l in text.lines().filter_map(|l| l.trim().strip_prefix("[CompletionResult]::new('")) {
				out.extend(l.split('\'').next().filter(|w| w.starts_with('-')).map(|w| w.trim().to_owned()));
			}
		}
		_ => {}
	}
	out
}

/// Asks bash to complete the last of the words.
fn bash(dir: &Path, empty: &Path, line: &[&str]) -> Option<Vec<String>> {
	const ASK: &str = r#"source "$1/pemv.bash" || exit 3
shift
f=$(complete -p pemv) || exit 3
f=${f##* -F }; f=${f%% *}
COMP_WORDS=("$@") COMP_CWORD=$(($# - 1)) COMP_LINE="$*" COMP_POINT=${#COMP_LINE}
COMPREPLY=()
"$f" pemv "${COMP_WORDS[COMP_CWORD]}" "${COMP_WORDS[COMP_CWORD-1]}"
[ ${#COMPREPLY[@]} = 0 ] || printf '%s\n' "${COMPREPLY[@]}""#;
	let out = Command::new("bash")
		.args(["--norc", "--noprofile", "-c", ASK, "bash"])
		.arg(dir)
		.args(line)
		.env_clear()
		.env("PATH", "/usr/bin:/bin")
		.current_dir(empty)
		.stdin(Stdio::null())
		.stderr(Stdio::null())
		.output()
		.unwrap_or_else(|e| crate::fatal(&format!("cannot start bash: {e}")));
	if out.status.code() == Some(3) {
		return None;
	}
	Some(String::from_utf8_lossy(&out.stdout).lines().map(str::to_owned).collect())
}

fn integrations(ctx: &Ctx, all: &[Listed]) {
	let Some(dir) = std::env::var_os("PEMV_INTEGRATIONS") else {
		crate::fatal("the directory with the manual page and the completions is not known");
	};
	let dir = Path::new(&dir);
	let empty = ctx.scratch.join("nothing");
	std::fs::create_dir_all(&empty).unwrap_or_else(|e| crate::fatal(&e.to_string()));
	let asked = Req::new(["--help"]);
	let help = ctx.run(&asked);
	let by_name: BTreeMap<&str, &Listed> = all.iter().flat_map(|l| l.names.iter().map(move |n| (n.as_str(), l))).collect();
	for f in FILES {
		let Ok(text) = std::fs::read_to_string(dir.join(f)) else {
			ctx.violation(&format!("A release build does not make {f}"), &[(&asked, &help)], "a manual page and completion scripts");
			continue;
		};
		let found: Vec<String> = if *f == "pemv.bash" {
			match bash(dir, &empty, &["pemv", "-"]) {
				Some(v) => v,
				None => {
					ctx.violation("The completion script does not work in bash", &[(&asked, &help)], "a working script");
					continue;
				}
			}
		} else {
			offers(f, &text)
		};
		let names: BTreeSet<&str> = found.iter().map(String::as_str).collect();
		ctx.events(&format!("offers in {f}"), names.len() as u64);
		complete(ctx, f, &names, &asked, &help);
		for n in &names {
			let mut r = Rng::new(ctx.seed, f, n.bytes().map(u64::from).sum());
			for _ in 0..ctx.size(3, 30) {
				let (req, good) = match by_name.get(n) {
					Some(l) if l.value => {
						let Some((q, v)) = sample(&mut r, l) else { continue };
						let own = op_of(l.long()).is_some();
						let want = with(&q, l.long(), &v, own, 2);
						let req = with(&q, n, &v, own, 2);
						let (a, b) = (ctx.run(&want), ctx.run(&req));
						(req, a.same(&b))
					}
					Some(l) => {
						let (req, want) = (Req::new([n]), Req::new([l.long()]));
						let (a, b) = (ctx.run(&want), ctx.run(&req));
						(req, accepted(&a) && accepted(&b) && words(&a).starts_with(&words(&b)[..20.min(words(&b).len())]))
					}
					None => {
						// Not in help: a spelling the program knows all the same?
						let op = OPS.iter().copied().find(|o| o.spellings().contains(n));
						let Some(op) = op else {
							let req = Req::new([n]);
							let res = ctx.run(&req);
							if !accepted(&res) {
								ctx.violation(&format!("{f} offers {n}, which help does not list"), &[(&req, &res)], "options that exist");
							}
							break;
						};
						let q = loop {
							let q = gen::request(&mut r);
							if q.op == op && !q.value.is_empty() {
								break q;
							}
						};
						let (want, req) = (q.req(), with(&q, n, &q.value, true, 2));
						let (a, b) = (ctx.run(&want), ctx.run(&req));
						(req, a.same(&b))
					}
				};
				if good {
					ctx.event(&format!("an offer of {f} accepted"));
				} else {
					let res = ctx.run(&req);
					ctx.violation(&format!("{f} offers {n}, which is not accepted as such"), &[(&req, &res)], "options that exist");
				}
			}
		}
		if *f != "pemv.bash" {
			continue;
		}
		// Beginnings of options
		for n in &names {
			for len in 1..=n.len() {
				let part = &n[..len];
				let want: BTreeSet<&str> = names.iter().copied().filter(|x| x.starts_with(part)).collect();
				let lines: [&[&str]; 2] = [&["pemv", part], &["pemv", "--tvr=0000000000", "--colour=never", part]];
				let line = lines[len % 2];
				let got = bash(dir, &empty, line).unwrap_or_default();
				if got.iter().map(String::as_str).collect::<BTreeSet<_>>() == want {
					ctx.event("completed a beginning");
				} else {
					ctx.violation(
						&format!("{line:?} is completed to {got:?} instead of {want:?}"),
						&[(&asked, &help)],
						"the options that begin so",
					);
				}
				if ctx.quick() && len > 4 {
					break;
				}
			}
		}
		// Values
		for n in &names {
			let Some(l) = by_name.get(n).filter(|l| l.value) else { continue };
			let got: BTreeSet<String> = bash(dir, &empty, &["pemv", n, ""]).unwrap_or_default().into_iter().collect();
			if l.possible.is_empty() && got.is_empty() {
				ctx.event("names of files for values");
				continue;
			}
			let want: BTreeSet<String> = l.possible.iter().cloned().collect();
			let mut r = Rng::new(ctx.seed, "values", 0);
			for v in &got {
				let req = with(&super::cli::probe(&mut r), n, v, false, 1);
				let res = ctx.run(&req);
				if accepted(&res) && want.contains(v) {
					ctx.event("completed values accepted");
				} else {
					ctx.violation(&format!("{f} offers {v} for {n}"), &[(&req, &res)], "values that are possible");
				}
			}
			if got != want {
				ctx.violation(&format!("{f} offers {got:?} for {n}, help {want:?}"), &[(&asked, &help)], "the same values");
			}
		}
	}
}
