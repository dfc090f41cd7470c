//! What one run of the monitor observes and reports.

use std::{
	collections::{BTreeMap, HashSet},
	ffi::OsStr,
	os::unix::ffi::OsStrExt,
	path::PathBuf,
	sync::{
		atomic::{AtomicBool, AtomicU64, Ordering},
		Mutex,
	},
	time::{Duration, Instant},
};

use crate::{
	exec::{Req, Res, Runner},
	hexu::{json_str, show},
	rng::Rng,
};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
	Quick,
	Thorough,
}

#[derive(Default)]
struct State {
	distinct:   HashSet<u64>,
	events:     BTreeMap<String, u64>,
	samples:    Vec<String>,
	violations: Vec<(String, String)>,
	slowest:    (Duration, String),
	known:      Vec<String>,
}

pub struct Ctx {
	pub prop:    &'static str,
	pub tier:    Tier,
	pub seed:    u64,
	pub runner:  Runner,
	/// A directory of this run's own, removed at the end.
	pub scratch: PathBuf,
	pub replays: PathBuf,
	start:       Instant,
	budget:      Duration,
	evals:       AtomicU64,
	stop:        AtomicBool,
	curtailed:   AtomicBool,
	st:          Mutex<State>,
}

const KEEP_SAMPLES: usize = 6;
const KEEP_VIOLATIONS: usize = 3;

impl Ctx {
	pub fn new(
		prop: &'static str,
		tier: Tier,
		seed: u64,
		runner: Runner,
		scratch: PathBuf,
		replays: PathBuf,
	) -> Self {
		Ctx {
			prop,
			tier,
			seed,
			runner,
			scratch,
			replays,
			start: Instant::now(),
			budget: Duration::from_secs(match tier {
				Tier::Quick => 400,
				Tier::Thorough => 600,
			}),
			evals: AtomicU64::new(0),
			stop: AtomicBool::new(false),
			curtailed: AtomicBool::new(false),
			st: Mutex::default(),
		}
	}
	pub fn wall(&self) -> f64 {
		self.start.elapsed().as_secs_f64()
	}
	pub fn quick(&self) -> bool {
		self.tier == Tier::Quick
	}
	pub fn size(&self, quick: u64, thorough: u64) -> u64 {
		if self.quick() {
			// Most checks take so little that they can do more
			let cheap = !matches!(self.prop, "C01" | "C03" | "C04" | "C05" | "C06" | "C07" | "C08" | "C55");
			if cheap && quick > 1 {
				(quick * 3).min(thorough.max(quick))
			} else {
				quick
			}
		} else {
			thorough
		}
	}
	pub fn stopped(&self) -> bool {
		if self.stop.load(Ordering::Relaxed) {
			return true;
		}
		if self.start.elapsed() > self.budget {
			self.curtailed.store(true, Ordering::Relaxed);
			return true;
		}
		false
	}
	pub fn event(&self, name: &str) {
		self.events(name, 1);
	}
	pub fn events(&self, name: &str, n: u64) {
		let mut st = self.st.lock().unwrap();
		if let Some(c) = st.events.get_mut(name) {
			*c += n;
		} else {
			st.events.insert(name.to_owned(), n);
		}
	}
	pub fn count(&self, name: &str) -> u64 {
		self.st.lock().unwrap().events.get(name).copied().unwrap_or(0)
	}
	pub fn sample(&self, f: impl FnOnce() -> String) {
		let mut st = self.st.lock().unwrap();
		if st.samples.len() < KEEP_SAMPLES {
			let s = f();
			st.samples.push(s);
		}
	}
	/// Counts an execution that was observed in some other way than by `run`.
	pub fn executed(&self, key: u64, nontrivial: bool) {
		self.evals.fetch_add(1, Ordering::Relaxed);
		if nontrivial {
			self.st.lock().unwrap().distinct.insert(key);
		}
	}
	/// Runs a request and counts it.
	/// Runs another file than the usual one.
	pub fn run_as(&self, program: &std::path::Path, r: &Req) -> Res {
		let usual = self.runner.command(r);
		let mut c = std::process::Command::new(program);
		c.args(usual.get_args()).env_clear();
		for (k, v) in usual.get_envs() {
			if let Some(v) = v {
				c.env(k, v);
			}
		}
		if let Some(d) = usual.get_current_dir() {
			c.current_dir(d);
		}
		c.stdin(std::process::Stdio::null()).stdout(std::process::Stdio::piped()).stderr(std::process::Stdio::piped());
		let res = self.runner.run_cmd(c);
		self.executed(r.hash64(), !res.out.is_empty() || !res.err.is_empty());
		res
	}
	pub fn run(&self, r: &Req) -> Res {
		let start = Instant::now();
		let res = self.runner.run(r);
		let took = start.elapsed();
		{
			let mut st = self.st.lock().unwrap();
			if took > st.slowest.0 {
				st.slowest = (took, show(r.describe().as_bytes(), 200));
			}
		}
		self.executed(r.hash64(), !res.out.is_empty() || !res.err.is_empty());
		self.sample(|| {
			format!("{} => {}", show(r.describe().as_bytes(), 300), summary(&res))
		});
		res
	}
	pub fn violated(&self) -> bool {
		!self.st.lock().unwrap().violations.is_empty()
	}
	/// Something was observed that the property rules out.
	pub fn violation(&self, what: &str, observed: &[(&Req, &Res)], wanted: &str) {
		let mut st = self.st.lock().unwrap();
		self.stop.store(true, Ordering::Relaxed);
		if st.violations.len() >= KEEP_VIOLATIONS {
			return;
		}
		let n = st.violations.len() + 1;
		let path = self.replays.join(format!("{}-{n}.sh", self.prop));
		let mut s = String::from("#!/bin/bash\n");
		s.push_str(&format!(
			"# Property {} was violated (seed {}, tier {:?}).\n# Running this file repeats the requests.\n",
			self.prop, self.seed, self.tier
		));
		s.push_str(&comment(what));
		for (r, res) in observed {
			s.push_str("\n# Observed:\n");
			s.push_str(&comment(&res.describe()));
			s.push_str(&self.shell(r));
		}
		s.push_str("\n# Required:\n");
		s.push_str(&comment(wanted));
		let _ = std::fs::create_dir_all(&self.replays);
		if let Err(e) = std::fs::write(&path, s) {
			eprintln!("cannot write {}: {e}", path.display());
		}
		println!("{what}");
		for (r, _) in observed.iter().take(2) {
			println!("  {}", show(r.describe().as_bytes(), 600));
		}
		println!("VIOLATION property={} replay={}", self.prop, path.display());
		st.violations.push((what.to_owned(), path.display().to_string()));
	}
	fn shell(&self, r: &Req) -> String {
		let mut s = String::new();
		if let Some(d) = &r.cwd {
			s.push_str(&format!("# in the directory {}\n", d.display()));
		}
		s.push_str("env -i");
		for (k, v) in &r.env {
			s.push_str(&format!(" {}={}", shell_word(k), shell_word(v)));
		}
		s.push(' ');
		s.push_str(&shell_word(self.runner.bin(r.build).as_os_str()));
		for a in &r.args {
			s.push(' ');
			s.push_str(&shell_word(a));
		}
		s.push('\n');
		s
	}
	/// Whether a finding is listed as known; reports it then.
	pub fn known(&self, id: &str) -> bool {
		let Some(path) = std::env::var_os("VERIF_KNOWN") else { return false };
		let text = std::fs::read_to_string(path).unwrap_or_default();
		let start = format!("known: property={} id={id} ", self.prop);
		let Some(what) = text.lines().find_map(|l| l.strip_prefix(&start)) else { return false };
		let mut st = self.st.lock().unwrap();
		if !st.known.iter().any(|k| k == id) {
			st.known.push(id.to_owned());
			println!("KNOWN-FINDING: property={} {what}", self.prop);
		}
		true
	}
	/// Runs the cases 0..n on all cores, each with a generator of its own.
	pub fn many(&self, stream: &str, n: u64, f: impl Fn(&Ctx, &mut Rng, u64) + Sync) {
		let next = AtomicU64::new(0);
		let workers = std::thread::available_parallelism().map_or(4, |c| c.get()).clamp(2, 16);
		std::thread::scope(|s| {
			for _ in 0..workers {
				std::thread::Builder::new()
					.stack_size(64 << 20)
					.spawn_scoped(s, || loop {
						let i = next.fetch_add(1, Ordering::Relaxed);
						if i >= n || self.stopped() {
							break;
						}
						let mut rng = Rng::new(self.seed, &format!("{}/{stream}", self.prop), i);
						f(self, &mut rng, i);
					})
					.unwrap_or_else(|e| crate::fatal(&format!("cannot start a thread: {e}")));
			}
		});
	}
	/// The run means nothing if less than this was observed.
	pub fn require(&self, name: &str, at_least: u64) {
		let n = self.count(name);
		if n < at_least && !self.violated() {
			crate::fatal(&format!(
				"{}: only {n} of the {at_least} required observations of '{name}' were made",
				self.prop
			));
		}
	}
	pub fn finish(&self, spec: &crate::checks::Check, evidence: &std::path::Path) -> i32 {
		let st = self.st.lock().unwrap();
		let mut j = String::from("{\n");
		let tier = match self.tier {
			Tier::Quick => "quick",
			Tier::Thorough => "thorough",
		};
		j.push_str(&format!(
			"  \"property\": {},\n  \"tier\": \"{tier}\",\n  \"seed\": {},\n  \"level\": \"{}\",\n  \"coverage\": {{\n",
			json_str(self.prop),
			self.seed,
			spec.level
		));
		j.push_str(&format!(
			"    \"evaluations\": {},\n    \"distinct_nontrivial\": {},\n    \"rule\": {},\n",
			self.evals.load(Ordering::Relaxed),
			st.distinct.len(),
			json_str(spec.rule)
		));
		j.push_str("    \"samples\": [\n");
		j.push_str(
			&st.samples.iter().map(|s| format!("      {}", json_str(s))).collect::<Vec<_>>().join(",\n"),
		);
		j.push_str("\n    ],\n    \"observed\": {\n");
		j.push_str(
			&st.events
				.iter()
				.map(|(k, v)| format!("      {}: {v}", json_str(k)))
				.collect::<Vec<_>>()
				.join(",\n"),
		);
		j.push_str(&format!(
			"\n    }},\n    \"slowest_request\": {},\n    \"stopped_by_time\": {}\n  }},\n",
			json_str(&format!("{:.3} s: {}", st.slowest.0.as_secs_f64(), st.slowest.1)),
			self.curtailed.load(Ordering::Relaxed)
		));
		j.push_str(&format!(
			"  \"assumptions\": [{}],\n  \"wall_s\": {:.2},\n  \"violations\": {}\n}}\n",
			spec.assumptions.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", "),
			self.wall(),
			st.violations.len()
		));
		if let Some(d) = evidence.parent() {
			let _ = std::fs::create_dir_all(d);
		}
		if let Err(e) = std::fs::write(evidence, j) {
			crate::fatal(&format!("cannot write {}: {e}", evidence.display()));
		}
		println!(
			"{}: {} executions, {} distinct non-trivial, {} violations, {:.1} s",
			self.prop,
			self.evals.load(Ordering::Relaxed),
			st.distinct.len(),
			st.violations.len(),
			self.wall()
		);
		i32::from(!st.violations.is_empty())
	}
}

pub fn summary(res: &Res) -> String {
	format!(
		"status {}, {} bytes on stdout ({}), {} bytes on stderr ({})",
		res.code.map_or("none".to_owned(), |c| c.to_string()),
		res.out.len(),
		show(res.text().lines().next().unwrap_or("").as_bytes(), 80),
		res.err.len(),
		show(res.etext().lines().next().unwrap_or("").as_bytes(), 80),
	)
}

fn comment(s: &str) -> String {
	s.lines().map(|l| format!("#   {}\n", l.replace(['\r', '\x1b', '\0'], "?"))).collect()
}

fn shell_word(w: &OsStr) -> String {
	let b = w.as_bytes();
	if !b.is_empty() && b.iter().all(|c| c.is_ascii_alphanumeric() || b"-_=./:,+".contains(c)) {
		return String::from_utf8_lossy(b).into_owned();
	}
	let mut s = String::from("$'");
	for c in b {
		match c {
			b'\'' | b'\\' => {
				s.push('\\');
				s.push(char::from(*c));
			}
			32..=126 => s.push(char::from(*c)),
			c => s.push_str(&format!("\\x{c:02x}")),
		}
	}
	s.push('\'');
	s
}
