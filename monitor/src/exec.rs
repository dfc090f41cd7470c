//! Running the program under test, and what is observed of it.

use std::{
	collections::HashMap,
	ffi::{OsStr, OsString},
	os::unix::{ffi::OsStrExt, process::ExitStatusExt},
	path::{Path, PathBuf},
	process::{Command, Stdio},
	sync::{Mutex, OnceLock},
	time::{Duration, Instant},
};

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Build {
	/// The development profile: overflow checks and debug assertions on.
	Dev,
	/// The release profile.
	Rel,
	/// The development profile with AddressSanitizer.
	Asan,
	/// The release profile with AddressSanitizer.
	AsanRel,
}

#[derive(Clone, Debug)]
pub struct Req {
	pub build: Build,
	pub args:  Vec<OsString>,
	pub env:   Vec<(OsString, OsString)>,
	pub cwd:   Option<PathBuf>,
}

impl Req {
	pub fn new<I, S>(args: I) -> Self
	where
		I: IntoIterator<Item = S>,
		S: AsRef<OsStr>,
	{
		Req {
			build: Build::Dev,
			args:  args.into_iter().map(|a| a.as_ref().to_os_string()).collect(),
			env:   Vec::new(),
			cwd:   None,
		}
	}
	pub fn arg(mut self, a: impl AsRef<OsStr>) -> Self {
		self.args.push(a.as_ref().to_os_string());
		self
	}
	pub fn env(mut self, k: impl AsRef<OsStr>, v: impl AsRef<OsStr>) -> Self {
		self.env.push((k.as_ref().to_os_string(), v.as_ref().to_os_string()));
		self
	}
	pub fn build(mut self, b: Build) -> Self {
		self.build = b;
		self
	}
	pub fn cwd(mut self, d: &Path) -> Self {
		self.cwd = Some(d.to_path_buf());
		self
	}
	pub fn hash64(&self) -> u64 {
		use std::hash::{Hash, Hasher};
		let mut h = std::collections::hash_map::DefaultHasher::new();
		self.args.hash(&mut h);
		self.env.hash(&mut h);
		h.finish()
	}
	pub fn describe(&self) -> String {
		let mut s = String::new();
		for (k, v) in &self.env {
			s.push_str(&format!(
				"{}={} ",
				crate::hexu::show(k.as_bytes(), 60),
				quote(&crate::hexu::show(v.as_bytes(), 200))
			));
		}
		s.push_str("pemv");
		for a in &self.args {
			s.push(' ');
			s.push_str(&quote(&crate::hexu::show(a.as_bytes(), 400)));
		}
		s
	}
}

fn quote(s: &str) -> String {
	if !s.is_empty()
		&& s.chars().all(|c| c.is_ascii_alphanumeric() || "-_=./:,+".contains(c))
	{
		s.to_owned()
	} else {
		format!("'{}'", s.replace('\'', "'\\''"))
	}
}

#[derive(Clone, Debug)]
pub struct Res {
	pub code:      Option<i32>,
	pub signal:    Option<i32>,
	pub out:       Vec<u8>,
	pub err:       Vec<u8>,
	pub timed_out: bool,
}

impl Res {
	/// Ended by itself with an ordinary status, without panicking.
	pub fn ordinary(&self) -> bool {
		!self.timed_out
			&& self.signal.is_none()
			&& matches!(self.code, Some(c) if (0..=125).contains(&c) && c != 101)
			&& !contains(&self.err, b"panicked at")
	}
	pub fn failed(&self) -> bool {
		self.code != Some(0)
	}
	pub fn refused(&self) -> bool {
		self.ordinary() && self.out.is_empty() && !self.err.is_empty()
	}
	pub fn same(&self, other: &Res) -> bool {
		self.code == other.code
			&& self.signal == other.signal
			&& self.out == other.out
			&& self.err == other.err
			&& self.timed_out == other.timed_out
	}
	pub fn text(&self) -> String {
		String::from_utf8_lossy(&self.out).into_owned()
	}
	pub fn etext(&self) -> String {
		String::from_utf8_lossy(&self.err).into_owned()
	}
	pub fn describe(&self) -> String {
		format!(
			"status: {}{}{}\nstdout ({} bytes):\n{}\nstderr ({} bytes):\n{}",
			self.code.map_or("none".to_owned(), |c| c.to_string()),
			self.signal.map_or(String::new(), |s| format!(" signal {s}")),
			if self.timed_out { " (killed: still running)" } else { "" },
			self.out.len(),
			crate::hexu::show(&self.out, 6000),
			self.err.len(),
			crate::hexu::show(&self.err, 2000)
		)
	}
}

pub fn contains(hay: &[u8], needle: &[u8]) -> bool {
	hay.windows(needle.len()).any(|w| w == needle)
}

pub struct Runner {
	pub dev:   PathBuf,
	pub rel:   PathBuf,
	/// With AddressSanitizer, if built.
	pub asan:  PathBuf,
	pub asanr: PathBuf,
	pub empty: PathBuf,
}

/// Leaks are not errors, and finding them needs privileges.
const ASAN: &str = "exitcode=99:detect_leaks=0:detect_stack_use_after_return=1:hard_rss_limit_mb=6000:symbolize=0";

/// How long a request may take before it counts as hanging. A request normally takes a few
/// milliseconds, the largest about 0.2 s.
pub const HANG_AFTER: Duration = Duration::from_secs(40);

struct Watch {
	live: Mutex<HashMap<u32, (Instant, bool)>>,
}

fn watch() -> &'static Watch {
	static W: OnceLock<Watch> = OnceLock::new();
	static STARTED: OnceLock<()> = OnceLock::new();
	let w = W.get_or_init(|| Watch { live: Mutex::new(HashMap::new()) });
	STARTED.get_or_init(|| {
		std::thread::spawn(|| loop {
			let before = Instant::now();
			std::thread::sleep(Duration::from_millis(500));
			let mut live = watch().live.lock().unwrap();
			// If even that took long, the machine stood still
			if before.elapsed() > Duration::from_secs(5) {
				for (since, _) in live.values_mut() {
					*since = Instant::now();
				}
			}
			for (pid, (since, killed)) in live.iter_mut() {
				if !*killed && since.elapsed() > HANG_AFTER {
					*killed = true;
					// SAFETY: the child isn't reaped before it's removed from the map
					unsafe { crate::sys::kill(*pid as i32, 9) };
				}
			}
		});
	});
	w
}

/// Registers the child as running; call the result's `done` before reaping it elsewhere.
pub fn watched<T>(pid: u32, f: impl FnOnce() -> T) -> (T, bool) {
	watch().live.lock().unwrap().insert(pid, (Instant::now(), false));
	let r = f();
	let killed = watch().live.lock().unwrap().remove(&pid).is_some_and(|e| e.1);
	(r, killed)
}

/// Held (shared) while a process is being started: until it executes its program, it has copies of
/// all descriptors of the monitor.
static STARTING: std::sync::RwLock<()> = std::sync::RwLock::new(());

pub fn spawn(c: &mut Command) -> std::io::Result<std::process::Child> {
	let _guard = STARTING.read().unwrap_or_else(std::sync::PoisonError::into_inner);
	c.spawn()
}

/// Closes a descriptor such that no process that is just being started still has a copy of it.
pub fn close(f: std::fs::File) {
	let _guard = STARTING.write().unwrap_or_else(std::sync::PoisonError::into_inner);
	drop(f);
}

impl Runner {
	pub fn bin(&self, b: Build) -> &Path {
		match b {
			Build::Dev => &self.dev,
			Build::Rel => &self.rel,
			Build::Asan => &self.asan,
			Build::AsanRel => &self.asanr,
		}
	}
	pub fn command(&self, r: &Req) -> Command {
		let mut c = Command::new(self.bin(r.build));
		c.args(&r.args).env_clear();
		for (k, v) in &r.env {
			c.env(k, v);
		}
		if matches!(r.build, Build::Asan | Build::AsanRel) {
			c.env("ASAN_OPTIONS", ASAN);
		}
		c.current_dir(r.cwd.as_deref().unwrap_or(&self.empty));
		c.stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped());
		c
	}
	pub fn run(&self, r: &Req) -> Res {
		self.run_cmd(self.command(r))
	}
	pub fn run_cmd(&self, mut c: Command) -> Res {
		let mut tries = 0;
		let child = loop {
			match spawn(&mut c) {
				Ok(ch) => break ch,
				Err(e) => {
					// EAGAIN and the like are problems of the machine
					tries += 1;
					if tries > 50 {
						crate::fatal(&format!("cannot start {c:?}: {e}"));
					}
					std::thread::sleep(Duration::from_millis(50));
				}
			}
		};
		let pid = child.id();
		let (out, timed_out) = watched(pid, || child.wait_with_output());
		let out = out.unwrap_or_else(|e| crate::fatal(&format!("cannot wait: {e}")));
		Res {
			code: out.status.code(),
			signal: out.status.signal(),
			out: out.stdout,
			err: out.stderr,
			timed_out,
		}
	}
}
