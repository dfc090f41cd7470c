//! The few system calls needed that the standard library does not offer.
#![allow(non_camel_case_types)]

use std::os::raw::{c_char, c_int, c_ulong};

#[repr(C)]
pub struct rlimit {
	pub cur: u64,
	pub max: u64,
}
pub const RLIMIT_FSIZE: c_int = 1;
pub const RLIMIT_STACK: c_int = 3;
pub const RLIMIT_CORE: c_int = 4;
pub const RLIMIT_AS: c_int = 9;
/// The part of it that is used.
#[repr(C)]
pub struct rusage {
	pub utime:  [i64; 2],
	pub stime:  [i64; 2],
	/// In KiB.
	pub maxrss: i64,
	pub rest:   [i64; 13],
}
pub const SIGXFSZ: c_int = 25;
pub const SIG_IGN: usize = 1;


extern "C" {
	pub fn kill(pid: c_int, sig: c_int) -> c_int;
	pub fn setrlimit(resource: c_int, rlim: *const rlimit) -> c_int;
	pub fn getrlimit(resource: c_int, rlim: *mut rlimit) -> c_int;
	pub fn signal(sig: c_int, handler: usize) -> usize;
	pub fn prctl(option: c_int, a: c_ulong, b: c_ulong, c: c_ulong, d: c_ulong) -> c_int;
	pub fn posix_openpt(flags: c_int) -> c_int;
	pub fn grantpt(fd: c_int) -> c_int;
	pub fn unlockpt(fd: c_int) -> c_int;
	pub fn ptsname_r(fd: c_int, buf: *mut c_char, len: usize) -> c_int;
	pub fn fcntl(fd: c_int, cmd: c_int, ...) -> c_int;
	pub fn wait4(pid: c_int, status: *mut c_int, options: c_int, usage: *mut rusage) -> c_int;
	pub fn close(fd: c_int) -> c_int;
	pub fn dup2(from: c_int, to: c_int) -> c_int;
	pub fn umask(mask: u32) -> u32;
	pub fn nice(by: c_int) -> c_int;
	pub fn setsid() -> c_int;
	pub fn setuid(uid: u32) -> c_int;
	pub fn setgid(gid: u32) -> c_int;
	pub fn geteuid() -> u32;
	pub fn sched_getaffinity(pid: c_int, len: usize, mask: *mut u64) -> c_int;
	pub fn sched_setaffinity(pid: c_int, len: usize, mask: *const u64) -> c_int;
	pub fn pipe2(fds: *mut c_int, flags: c_int) -> c_int;
}
pub const O_RDWR: c_int = 2;
pub const O_NOCTTY: c_int = 0o400;
pub const O_CLOEXEC: c_int = 0o2_000_000;
pub const F_SETPIPE_SZ: c_int = 1031;
pub const PR_SET_PDEATHSIG: c_int = 1;

pub fn limit(resource: c_int, value: u64) {
	// SAFETY: plain calls with valid pointers
	unsafe {
		let mut r = rlimit { cur: 0, max: 0 };
		getrlimit(resource, &mut r);
		r.cur = value.min(r.max);
		setrlimit(resource, &r);
	}
}

/// Keeps the calling process on one of the processors it may use.
pub fn single_processor() {
	let mut mask = [0u64; 16];
	// SAFETY: plain calls with a valid pointer and its size
	unsafe {
		if sched_getaffinity(0, 128, mask.as_mut_ptr()) != 0 {
			return;
		}
		let mut seen = false;
		for m in &mut mask {
			let first = *m & m.wrapping_neg();
			*m = if seen { 0 } else { first };
			seen |= *m != 0;
		}
		sched_setaffinity(0, 128, mask.as_ptr());
	}
}
