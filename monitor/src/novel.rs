//! Constants of the sources that are not those the monitor was written against.
//!
//! They only direct the generators: a number that appears in a line nobody has seen before is worth
//! trying as a size, a count, a byte or a tag, and a piece of text as a part of a value or as the
//! name of a variable. What is observed is judged in the same way whether there are any or not.
//! Lines that are moved, or that differ in their indentation or comments, are not new.

use std::{
	collections::{BTreeSet, HashSet},
	path::Path,
	sync::OnceLock,
};

use crate::rng::Rng;

#[derive(Default, Debug)]
pub struct Pool {
	pub ints:    Vec<u64>,
	pub seqs:    Vec<Vec<u8>>,
	pub strings: Vec<String>,
	pub chars:   Vec<char>,
}

/// The lines that are known, by their hashes.
const KNOWN: &str = include_str!("known_lines.txt");
/// Lines on either side of a new one that count as well.
const AROUND: usize = 3;
const MOST: usize = 4000;

/// None if nothing is new.
pub fn pool() -> Option<&'static Pool> {
	static POOL: OnceLock<Option<Pool>> = OnceLock::new();
	POOL.get_or_init(|| {
		let dir = std::env::var_os("VERIF_SOURCES")?;
		let known: HashSet<u64> = if std::env::var_os("VERIF_ALL_NOVEL").is_some() {
			HashSet::new()
		} else {
			KNOWN.lines().filter_map(|l| u64::from_str_radix(l, 16).ok()).collect()
		};
		let mut p = Pool::default();
		for text in sources(Path::new(&dir)) {
			let lines: Vec<Vec<Token>> = lines(&text);
			let new: Vec<bool> = lines.iter().map(|l| !known.contains(&hash(l)) && l.iter().any(Token::telling)).collect();
			let mut chosen = Vec::new();
			for (i, l) in lines.iter().enumerate() {
				let near = i.saturating_sub(AROUND)..(i + AROUND + 1).min(lines.len());
				if new[near].iter().any(|n| *n) {
					chosen.extend(l.iter().cloned());
				}
			}
			collect(&chosen, &mut p);
		}
		for v in [&mut p.ints] {
			v.sort_unstable();
			v.dedup();
			v.truncate(MOST);
		}
		p.seqs = dedup(std::mem::take(&mut p.seqs));
		p.strings = dedup(std::mem::take(&mut p.strings));
		p.strings.retain(|s| !s.is_empty());
		p.chars = dedup(std::mem::take(&mut p.chars));
		(!p.ints.is_empty() || !p.strings.is_empty() || !p.chars.is_empty()).then_some(p)
	})
	.as_ref()
}

// Sorted, so that a run only depends on the seed
fn dedup<T: Ord>(v: Vec<T>) -> Vec<T> {
	v.into_iter().collect::<BTreeSet<_>>().into_iter().take(MOST).collect()
}

/// The pool once in n, if there is any. Nothing is drawn otherwise.
pub fn once_in(r: &mut Rng, n: usize) -> Option<&'static Pool> {
	let p = pool()?;
	r.one_in(n).then_some(p)
}

/// Prints the hashes of the lines as they are now.
pub fn list(dir: &Path) {
	let mut all = BTreeSet::new();
	for text in sources(dir) {
		all.extend(lines(&text).iter().filter(|l| l.iter().any(Token::telling)).map(|l| hash(l)));
	}
	for h in all {
		println!("{h:x}");
	}
}

impl Pool {
	/// A number near one of them.
	pub fn int(&self, r: &mut Rng) -> usize {
		if self.ints.is_empty() {
			return r.below(300);
		}
		let n = *r.pick(&self.ints);
		let n = match r.below(12) {
			0 | 1 => n.saturating_sub(1),
			2 | 3 => n.saturating_add(1),
			4 => n.saturating_add(2),
			5 => n.saturating_mul(2),
			6 => n / 2,
			7 if self.ints.len() > 1 => n.saturating_add(*r.pick(&self.ints)),
			_ => n,
		};
		usize::try_from(n).unwrap_or(usize::MAX)
	}
	/// A number of things that is not too large.
	pub fn count(&self, r: &mut Rng, most: usize) -> Option<usize> {
		(0..4).map(|_| self.int(r)).find(|n| *n <= most)
	}
	pub fn byte(&self, r: &mut Rng) -> u8 {
		for _ in 0..8 {
			match r.below(3) {
				0 if !self.seqs.is_empty() => return *r.pick(r.clone().pick(&self.seqs)),
				1 if !self.chars.is_empty() => {
					if let Ok(b) = u8::try_from(*r.pick(&self.chars)) {
						return b;
					}
				}
				_ => {
					if let Ok(b) = u8::try_from(self.int(r)) {
						return b;
					}
				}
			}
		}
		r.byte()
	}
	/// A few bytes.
	pub fn seq(&self, r: &mut Rng) -> Vec<u8> {
		match r.below(5) {
			0 if !self.seqs.is_empty() => r.pick(&self.seqs).clone(),
			1 if !self.strings.is_empty() => {
				let s = r.pick(&self.strings);
				match hexed(s) {
					Some(b) if r.bool() => b,
					_ => s.as_bytes()[..s.len().min(40)].to_vec(),
				}
			}
			2 if !self.ints.is_empty() => {
				// As it would be written in hex
				let n = *r.pick(&self.ints);
				let b: Vec<u8> = n.to_be_bytes().into_iter().skip_while(|b| *b == 0).collect();
				if b.is_empty() {
					vec![0]
				} else {
					b
				}
			}
			3 => {
				let b = self.byte(r);
				vec![b; r.range(1, 4)]
			}
			_ => vec![self.byte(r)],
		}
	}
	/// Text that is not taken for digits, to be put between them.
	pub fn noise(&self, r: &mut Rng) -> String {
		for _ in 0..6 {
			let s = if !self.strings.is_empty() && r.bool() {
				r.pick(&self.strings).clone()
			} else if !self.chars.is_empty() {
				r.pick(&self.chars).to_string()
			} else {
				continue;
			};
			if !s.is_empty() && s.len() < 24 && !s.chars().any(|c| c.is_ascii_hexdigit() || c == '\0') {
				return s;
			}
		}
		"_".to_owned()
	}
	pub fn char(&self, r: &mut Rng) -> Option<char> {
		match r.below(3) {
			0 if !self.strings.is_empty() => r.pick(&self.strings).chars().next(),
			1 => char::from_u32(self.byte(r).into()),
			_ if !self.chars.is_empty() => Some(*r.pick(&self.chars)),
			_ => None,
		}
		.filter(|c| *c != '\0')
	}
	/// What may be the name of a variable of the environment.
	pub fn names(&self) -> impl Iterator<Item = &String> {
		self.strings.iter().filter(|s| {
			s.len() > 1
				&& s.len() < 60 && !s.starts_with("PEMV_")
				&& s.bytes().all(|b| b.is_ascii_uppercase() || b.is_ascii_digit() || b == b'_')
		})
	}
	/// What may be the name of a file.
	pub fn files(&self) -> impl Iterator<Item = &String> {
		self.strings.iter().filter(|s| {
			!s.is_empty() && s.len() < 60 && *s != "." && *s != ".."
				&& s.bytes().all(|b| b.is_ascii_alphanumeric() || b"._-".contains(&b))
		})
	}
}

fn hexed(s: &str) -> Option<Vec<u8>> {
	(!s.is_empty() && s.len() < 80 && s.len() % 2 == 0 && s.bytes().all(|b| b.is_ascii_hexdigit()))
		.then(|| crate::hexu::unhex(s))
}

fn sources(dir: &Path) -> Vec<String> {
	let mut files = Vec::new();
	let mut dirs = vec![dir.to_path_buf()];
	while let Some(d) = dirs.pop() {
		for e in std::fs::read_dir(&d).into_iter().flatten().flatten() {
			let p = e.path();
			if p.is_dir() {
				dirs.push(p);
			} else if p.extension().is_some_and(|x| x == "rs") {
				files.push(p);
			}
		}
	}
	files.sort();
	files
		.iter()
		.filter_map(|f| std::fs::read_to_string(f).ok())
		.map(|t| {
			// The tests are at the end
			let end = t.find("\n#[cfg(test)]").unwrap_or(t.len());
			t[..end].to_owned()
		})
		.collect()
}

#[derive(Clone, Debug, Hash, PartialEq)]
enum Token {
	Int(u64),
	Str(String),
	Char(char),
	Word(String),
	Other(char),
}

impl Token {
	/// Lines of nothing but brackets say nothing.
	fn telling(&self) -> bool {
		!matches!(self, Token::Other(_))
	}
}

fn hash(l: &[Token]) -> u64 {
	let mut h = 0xcbf2_9ce4_8422_2325u64;
	for b in format!("{l:?}").bytes() {
		h = (h ^ u64::from(b)).wrapping_mul(0x0100_0000_01b3);
	}
	h
}

/// The tokens of each line. Text that goes on over lines belongs to the line it starts on.
fn lines(text: &str) -> Vec<Vec<Token>> {
	let c: Vec<char> = text.chars().collect();
	let at = |i: usize| c.get(i).copied().unwrap_or('\n');
	let mut out = vec![Vec::new()];
	let mut i = 0;
	while i < c.len() {
		let line = out.last_mut().expect("there is always a line");
		match c[i] {
			'\n' => {
				out.push(Vec::new());
				i += 1;
			}
			x if x.is_whitespace() => i += 1,
			'/' if at(i + 1) == '/' => {
				while i < c.len() && c[i] != '\n' {
					i += 1;
				}
			}
			'/' if at(i + 1) == '*' => {
				i += 2;
				while i < c.len() && !(c[i] == '*' && at(i + 1) == '/') {
					i += 1;
				}
				i += 2;
			}
			'"' => {
				let mut s = String::new();
				i += 1;
				while i < c.len() && c[i] != '"' {
					if c[i] == '\\' {
						let (ch, n) = escape(&c[i..]);
						s.extend(ch);
						i += n;
					} else {
						s.push(c[i]);
						i += 1;
					}
				}
				i += 1;
				line.push(Token::Str(s));
			}
			'r' if at(i + 1) == '"' || at(i + 1) == '#' && matches!(at(i + 2), '"' | '#') => {
				let mut hashes = 0;
				i += 1;
				while at(i) == '#' {
					hashes += 1;
					i += 1;
				}
				i += 1;
				let end: String = format!("\"{}", "#".repeat(hashes));
				let rest: String = c[i.min(c.len())..].iter().collect();
				let n = rest.find(&end).unwrap_or(rest.len());
				line.push(Token::Str(rest[..n].to_owned()));
				i += rest[..n].chars().count() + end.len();
			}
			'\'' if at(i + 1) == '\\' => {
				let (ch, n) = escape(&c[i + 1..]);
				line.extend(ch.map(Token::Char));
				i += 2 + n;
			}
			'\'' if at(i + 2) == '\'' => {
				line.push(Token::Char(at(i + 1)));
				i += 3;
			}
			x if x.is_ascii_digit() => {
				let start = i;
				while at(i).is_ascii_alphanumeric() || at(i) == '_' {
					i += 1;
				}
				let s: String = c[start..i].iter().filter(|x| **x != '_').collect();
				line.push(number(&s).map_or(Token::Word(s), Token::Int));
			}
			x if x.is_alphanumeric() || x == '_' => {
				let start = i;
				while at(i).is_alphanumeric() || at(i) == '_' {
					i += 1;
				}
				line.push(Token::Word(c[start..i].iter().collect()));
			}
			x => {
				line.push(Token::Other(x));
				i += 1;
			}
		}
	}
	out
}

fn escape(c: &[char]) -> (Option<char>, usize) {
	let hex = |s: &[char]| u32::from_str_radix(&s.iter().collect::<String>(), 16).ok().and_then(char::from_u32);
	match c.get(1) {
		Some('n') => (Some('\n'), 2),
		Some('t') => (Some('\t'), 2),
		Some('r') => (Some('\r'), 2),
		Some('0') => (Some('\0'), 2),
		Some('x') if c.len() >= 4 => (hex(&c[2..4]), 4),
		Some('u') => {
			let n = c.iter().position(|x| *x == '}').unwrap_or(1);
			(c.get(3..n).and_then(hex), n + 1)
		}
		Some('\n') => {
			// A line that is continued
			let n = c.iter().skip(1).take_while(|x| x.is_whitespace()).count();
			(None, 1 + n)
		}
		Some(x) => (Some(*x), 2),
		None => (None, 1),
	}
}

fn number(s: &str) -> Option<u64> {
	let (digits, radix) = match s.get(..2) {
		Some("0x") => (&s[2..], 16),
		Some("0b") => (&s[2..], 2),
		Some("0o") => (&s[2..], 8),
		_ => (s, 10),
	};
	let mut d = digits;
	for suffix in ["usize", "isize", "u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32", "i64", "i128"] {
		if let Some(x) = digits.strip_suffix(suffix) {
			d = x;
			break;
		}
	}
	u64::from_str_radix(d, radix).ok()
}

fn collect(t: &[Token], p: &mut Pool) {
	let mut run: Vec<u8> = Vec::new();
	let mut comma = false;
	let mut i = 0;
	while i <= t.len() {
		let tok = t.get(i);
		match tok {
			Some(Token::Int(n)) => p.ints.push(*n),
			Some(Token::Str(s)) => {
				p.strings.push(s.clone());
				let words: Vec<&str> = s.split(|c: char| c.is_whitespace() || "{}".contains(c)).collect();
				if words.len() > 1 && words.len() < 20 {
					p.strings.extend(words.iter().filter(|w| w.len() > 1).map(|w| (*w).to_owned()));
				}
			}
			Some(Token::Char(c)) => p.chars.push(*c),
			_ => {}
		}
		// Bytes one after the other
		let b = match tok {
			Some(Token::Int(n)) => u8::try_from(*n).ok(),
			Some(Token::Char(c)) => u8::try_from(*c).ok(),
			_ => None,
		};
		match (b, tok) {
			(Some(b), _) => {
				if !comma {
					finish(&mut run, p);
				}
				run.push(b);
				comma = false;
			}
			(None, Some(Token::Other(','))) if !comma && !run.is_empty() => comma = true,
			// The b of a byte literal
			(None, Some(Token::Word(w))) if w == "b" && comma => {}
			_ => {
				finish(&mut run, p);
				comma = false;
			}
		}
		i += 1;
	}
}

fn finish(run: &mut Vec<u8>, p: &mut Pool) {
	if run.len() > 1 && run.len() < 64 {
		p.seqs.push(std::mem::take(run));
	}
	run.clear();
}
