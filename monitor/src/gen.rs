//! Generators of data and requests.

use crate::{
	exec::Req,
	hexu::{hex, hex_lower, unhex},
	model::{self, tables, Node, Op, Settings, Val},
	novel,
	rng::Rng,
};

// ---------------------------------------------------------------------------------------------
// Tags

/// Whether these bytes are exactly one BER tag.
pub fn well_formed_tag(t: &[u8]) -> bool {
	match t {
		[] => false,
		[b] => b & 31 != 31,
		[b, mid @ .., last] => b & 31 == 31 && mid.iter().all(|x| x & 128 != 0) && last & 128 == 0,
	}
}

pub fn dictionary_tag(r: &mut Rng) -> Vec<u8> {
	loop {
		let t = unhex(r.pick(tables::DICTIONARY).0);
		if well_formed_tag(&t) {
			return t;
		}
	}
}

/// A tag with something new in it.
fn novel_tag(r: &mut Rng, p: &novel::Pool) -> Option<Vec<u8>> {
	let mut t = match r.below(3) {
		0 => vec![p.byte(r)],
		_ => p.seq(r),
	};
	t.truncate(24);
	if t[0] & 31 == 31 {
		if t.len() == 1 {
			if r.bool() {
				t.push(p.byte(r));
			}
			t.push(p.byte(r) & 127);
		}
	} else if r.one_in(3) {
		t[0] |= 31;
		t.push(p.byte(r) & 127);
	} else {
		t.truncate(1);
	}
	let last = t.len() - 1;
	if last > 0 {
		t[1..last].iter_mut().for_each(|b| *b |= 128);
		t[last] &= 127;
	}
	if r.one_in(12) {
		// So many bytes
		if let Some(n) = p.count(r, 60) {
			t = vec![0x1F | r.byte()];
			t.extend(r.bytes(n).iter().map(|b| b | 128));
			t.truncate(n.max(2));
			*t.last_mut()? &= 127;
			if t.len() == 1 {
				t.push(1);
			}
		}
	}
	well_formed_tag(&t).then_some(t)
}

pub fn any_tag(r: &mut Rng) -> Vec<u8> {
	if let Some(t) = novel::once_in(r, 4).and_then(|p| novel_tag(r, p)) {
		return t;
	}
	match r.below(10) {
		0..=3 => dictionary_tag(r),
		4 => {
			// A neighbour of a known one
			let mut t = dictionary_tag(r);
			let i = r.below(t.len());
			t[i] ^= 1 << r.below(8);
			if well_formed_tag(&t) {
				t
			} else {
				dictionary_tag(r)
			}
		}
		5 => {
			// One byte
			loop {
				let b = if r.one_in(12) { 0 } else { r.byte() };
				if b & 31 != 31 {
					return vec![b];
				}
			}
		}
		6 | 7 => {
			let mut t = vec![r.byte() | 31, r.byte() & 127];
			if r.one_in(4) {
				t[1] = *r.pick(&[0, 1, 0x1E, 0x1F, 0x20, 0x7E, 0x7F]);
			}
			t
		}
		_ => {
			let n = match r.below(8) {
				0 => r.range(7, 20),
				1 => r.range(4, 6),
				_ => r.range(2, 4),
			};
			if r.one_in(3) {
				// As vendors make them: a prefix, and numbers
				let mut t = unhex(r.pick(&["DF81", "DF82", "DF83", "DF84", "DF8F", "DFFE", "DFEE", "DFEF", "9F81", "9F82", "BF81", "BF8A", "FF81", "FF8F", "5F81", "7F81", "1F81", "3F81", "DF80"]));
				for _ in 0..r.below(3) {
					t.push(r.byte() | 0x80);
				}
				t.push(r.byte() & 0x7F);
				return t;
			}
			let mut t = vec![r.byte() | 31];
			for i in 0..n {
				let b = match r.below(6) {
					0 => 0,
					1 => 127,
					_ => r.byte() & 127,
				};
				t.push(if i + 1 < n { b | 128 } else { b });
			}
			t
		}
	}
}

pub fn primitive_tag(r: &mut Rng) -> Vec<u8> {
	let mut t = any_tag(r);
	t[0] &= !0x20;
	t
}

/// A primitive tag whose value is not interpreted.
pub fn opaque_tag(r: &mut Rng) -> Vec<u8> {
	loop {
		let t = primitive_tag(r);
		if !is_parsed(&t) {
			return t;
		}
	}
}

pub fn constructed_tag(r: &mut Rng) -> Vec<u8> {
	match r.below(3) {
		0 => unhex(r.pick(&["70", "77", "6F", "A5", "E1", "BF0C", "61", "73", "71", "72", "7F49"])),
		_ => {
			let mut t = any_tag(r);
			t[0] |= 0x20;
			t
		}
	}
}

pub fn is_parsed(t: &[u8]) -> bool {
	model::PARSED_TAGS.contains(&hex(t).as_str())
}

pub fn parsed_tag(r: &mut Rng) -> Vec<u8> {
	unhex(r.pick(model::PARSED_TAGS))
}

// ---------------------------------------------------------------------------------------------
// Values

pub fn size(r: &mut Rng) -> usize {
	if let Some(n) = novel::once_in(r, 3).map(|p| p.int(r)) {
		if n <= 300 || n <= 20_000 && r.one_in(8) {
			return n;
		}
	}
	match r.below(40) {
		0..=2 => 0,
		3..=5 => 1,
		6..=8 => 2,
		9..=22 => r.range(3, 20),
		23..=27 => *r.pick(&[15, 16, 17, 31, 32, 33, 47, 48, 49, 64]),
		28..=34 => r.range(20, 100),
		35..=37 => *r.pick(&[126, 127, 128, 129, 130, 254, 255, 256, 257]),
		38 => r.range(100, 700),
		_ => r.range(1, 1500),
	}
}

/// Contents of a given size, of various characters.
pub fn content(r: &mut Rng, n: usize) -> Vec<u8> {
	let mut v = usual_content(r, n);
	if let Some(p) = novel::once_in(r, 3) {
		novelise(r, p, &mut v);
	}
	v
}

/// Puts something new into a value, without changing its size.
pub fn novelise(r: &mut Rng, p: &novel::Pool, v: &mut Vec<u8>) {
	let n = v.len();
	if n == 0 {
		return;
	}
	if r.one_in(6) {
		// Nothing else
		v.iter_mut().for_each(|b| *b = p.byte(r));
		return;
	}
	for _ in 0..r.range(1, 3) {
		let s = p.seq(r);
		let s = &s[..s.len().min(n)];
		let at = match r.below(3) {
			0 => 0,
			1 => n - s.len(),
			_ => r.below(n - s.len() + 1),
		};
		v[at..at + s.len()].copy_from_slice(s);
	}
}

fn usual_content(r: &mut Rng, n: usize) -> Vec<u8> {
	match r.below(12) {
		0 => vec![r.byte(); n],
		1 => vec![b'*'; n],
		2 => (0..n).map(|_| r.range(32, 126) as u8).collect(),
		3 => (0..n).map(|_| r.range(b'0'.into(), b'9'.into()) as u8).collect(),
		4 => vec![0; n],
		5 => vec![0xFF; n],
		6 if r.bool() => exact_tlv(r, n),
		6 => {
			// Looks like TLV
			let mut v = Vec::new();
			while v.len() < n {
				v.extend(any_tag(r));
				v.push(r.below(4) as u8);
				let k = r.below(4);
				v.extend(r.bytes(k));
			}
			v.truncate(n);
			v
		}
		7 => {
			// Near the edges of the printable range
			(0..n).map(|_| *r.pick(&[0x1F, 0x20, 0x21, 0x7D, 0x7E, 0x7F, 0x80, 0xFF, 0, 9, 10, 13, 27])).collect()
		}
		_ => r.bytes(n),
	}
}

/// So many bytes of well-formed TLV, of usual templates and other objects, if possible.
fn exact_tlv(r: &mut Rng, n: usize) -> Vec<u8> {
	let mut v = Vec::new();
	while v.len() + 2 <= n {
		let left = n - v.len();
		let mut k = if r.bool() { left } else { r.range(2, left) }.min(129);
		if left - k == 1 {
			k = if k > 2 { k - 1 } else { left };
		}
		if k >= 4 && r.one_in(2) {
			let t = *r.pick(&[0x6Fu8, 0x70, 0x77, 0x61, 0xA5, 0x73, 0x71, 0x72, 0xE1]);
			v.extend([t, (k - 2) as u8]);
			v.extend(exact_tlv(r, k - 2));
		} else {
			v.extend([*r.pick(&[0x5Au8, 0x57, 0x50, 0x4F, 0x82, 0x84, 0x87, 0x9A, 0xC1, 0x01]), (k - 2) as u8]);
			v.extend(r.bytes(k - 2));
		}
	}
	if v.len() < n {
		v.extend(r.bytes(n - v.len()));
	}
	v
}

pub fn any_value(r: &mut Rng) -> Vec<u8> {
	let n = size(r);
	content(r, n)
}

pub fn flag_bytes(r: &mut Rng, n: usize) -> Vec<u8> {
	if let Some(p) = novel::once_in(r, 3) {
		let mut v = if r.bool() { vec![0; n] } else { r.bytes(n) };
		for _ in 0..r.range(1, n.max(1)) {
			let i = r.below(n);
			v[i] = p.byte(r);
		}
		return v;
	}
	match r.below(8) {
		0 => {
			let mut v = vec![0; n];
			let i = r.below(n);
			v[i] = 1 << r.below(8);
			v
		}
		1 => {
			let mut v = vec![0xFF; n];
			let i = r.below(n);
			v[i] = !(1 << r.below(8));
			v
		}
		2 => vec![0; n],
		3 => vec![0xFF; n],
		4 => r.bytes(n).iter().map(|b| b & 0x55).collect(),
		5 => {
			let m = r.bytes(n);
			r.bytes(n).iter().zip(m).map(|(a, b)| a & b).collect()
		}
		_ => r.bytes(n),
	}
}

pub fn ccd_iad(r: &mut Rng) -> Vec<u8> {
	let mut v = r.bytes(32);
	v[0] = 15;
	v[1] = *r.pick(&[0xA5, 0xA6]);
	v[16] = 15;
	let f = flag_bytes(r, 5);
	v[3..8].copy_from_slice(&f);
	if r.one_in(4) {
		v[2] = *r.pick(&[0, 1, 9, 10, 0x7F, 0xFF]);
	}
	if let Some(p) = novel::once_in(r, 2) {
		for _ in 0..r.range(1, 3) {
			let i = *r.pick(&[2, 2, 3, 4, 5, 6, 7, 8, 15, 17, 31]);
			v[i] = p.byte(r);
		}
	}
	v
}

pub const METHODS: &[u8] = &[0, 1, 2, 3, 4, 5, 0x1E, 0x1F, 0x3F];

pub fn cvm_method(r: &mut Rng) -> u8 {
	if let Some(p) = novel::once_in(r, 4) {
		return p.byte(r);
	}
	let m = if r.one_in(4) { r.byte() } else { *r.pick(METHODS) };
	match r.below(3) {
		0 => m & 0x3F,
		1 => m & 0x3F | 0x40,
		_ => m,
	}
}

pub fn cvm_list(r: &mut Rng) -> Vec<u8> {
	let mut v = Vec::new();
	for _ in 0..2 {
		let n: u32 = match r.below(8) {
			0..=2 => 0,
			3 => r.below(1100) as u32,
			4 => u32::MAX - r.below(2) as u32,
			5 => 10u32.pow(r.below(10) as u32) - r.below(2) as u32,
			6 => match novel::pool() {
				Some(p) => p.int(r) as u32,
				None => r.u64() as u32,
			},
			_ => r.u64() as u32,
		};
		v.extend(n.to_be_bytes());
	}
	let rules = novel::once_in(r, 4).and_then(|p| p.count(r, 600));
	let rules = rules.unwrap_or_else(|| match r.below(12) {
		0 => 0,
		1 => r.range(9, 12),
		2 => r.range(12, 40),
		3 if r.one_in(6) => r.range(250, 300),
		_ => r.range(1, 8),
	});
	let refer = r.bool();
	for _ in 0..rules {
		v.push(cvm_method(r));
		v.push(match r.below(4) {
			0 => match novel::once_in(r, 2) {
				Some(p) => p.byte(r),
				None => r.byte(),
			},
			1 if refer => r.range(6, 9) as u8,
			_ => r.range(0, 11) as u8,
		});
	}
	if !refer {
		for c in v[8..].chunks_mut(2) {
			if (6..=9).contains(&c[1]) {
				c[1] = 3;
			}
		}
	}
	v
}

/// A value the tag accepts, where the tag is interpreted; anything for other tags.
pub fn good_value(r: &mut Rng, tag: &[u8]) -> Vec<u8> {
	match hex(tag).as_str() {
		"5F30" => {
			let n = match r.below(3) {
				0 => *r.pick(&[201, 101, 620, 999, 0, 226, 120]),
				_ => r.below(1000),
			};
			unhex(&format!("{n:04}"))
		}
		"8A" => {
			if r.one_in(4) {
				(0..2).map(|_| r.range(32, 126) as u8).collect()
			} else {
				r.pick(tables::RESPONSE_CODES).0.as_bytes().to_vec()
			}
		}
		"8E" => cvm_list(r),
		"95" | "9F0D" | "9F0E" | "9F0F" | "9F40" => flag_bytes(r, 5),
		"9B" => flag_bytes(r, 2),
		"9F33" => flag_bytes(r, 3),
		"9C" => {
			if r.one_in(3) {
				vec![r.byte()]
			} else {
				vec![r.pick(tables::TRANSACTION_TYPES).0]
			}
		}
		"9F10" => match r.below(4) {
			0 => {
				let mut v = ccd_iad(r);
				let i = *r.pick(&[0, 1, 16]);
				v[i] = r.byte();
				v
			}
			1 => {
				let n = r.below(40);
				r.bytes(n)
			}
			_ => ccd_iad(r),
		},
		"9F34" => vec![cvm_method(r), if r.one_in(3) { r.byte() } else { r.below(11) as u8 }, r.below(3) as u8],
		"9F35" => vec![r.pick(tables::TERMINAL_TYPES).0],
		"9F39" => vec![r.pick(tables::POS_ENTRY_MODES).0],
		_ => {
			// A value that happens to be well-formed may hold something unacceptable
			for _ in 0..20 {
				let v = any_value(r);
				if acceptable(tag, &v) {
					return v;
				}
			}
			Vec::new()
		}
	}
}

/// Whether the model accepts an object, with everything in it.
pub fn acceptable(tag: &[u8], value: &[u8]) -> bool {
	model::ber(&object_plain(tag, value), &['*'], 0).is_ok_and(|n| model::show_nodes(n, false).is_ok())
}

/// A value an interpreted tag probably refuses.
pub fn odd_value(r: &mut Rng, tag: &[u8]) -> Vec<u8> {
	match r.below(3) {
		0 => {
			let n = r.below(10);
			r.bytes(n)
		}
		1 => {
			let mut v = good_value(r, tag);
			if r.bool() {
				v.pop();
			} else {
				v.push(r.byte());
			}
			v
		}
		_ => {
			let mut v = good_value(r, tag);
			if !v.is_empty() {
				let i = r.below(v.len());
				v[i] = r.byte();
			}
			v
		}
	}
}

// ---------------------------------------------------------------------------------------------
// Trees

#[derive(Clone, Debug)]
pub enum Content {
	Leaf(Vec<u8>),
	Kids(Vec<Obj>),
}

#[derive(Clone, Debug)]
pub struct Obj {
	pub tag:     Vec<u8>,
	pub content: Content,
}

pub fn length_bytes(r: &mut Rng, n: usize) -> Vec<u8> {
	let minimal: Vec<u8> =
		(n as u32).to_be_bytes().iter().copied().skip_while(|b| *b == 0).collect();
	match r.below(6) {
		0..=3 if n < 128 => vec![n as u8],
		_ => {
			let least = minimal.len().max(1);
			let k = if r.bool() { least } else { r.range(least, 4) };
			let mut v = vec![0x80 | k as u8];
			v.resize(1 + k - minimal.len(), 0);
			v.extend(minimal);
			v
		}
	}
}

pub fn object(r: &mut Rng, tag: &[u8], value: &[u8]) -> Vec<u8> {
	let mut v = tag.to_vec();
	v.extend(length_bytes(r, value.len()));
	v.extend(value);
	v
}

/// In the shortest form.
pub fn object_plain(tag: &[u8], value: &[u8]) -> Vec<u8> {
	let mut v = tag.to_vec();
	if value.len() < 128 {
		v.push(value.len() as u8);
	} else {
		let l: Vec<u8> = (value.len() as u32).to_be_bytes().iter().copied().skip_while(|b| *b == 0).collect();
		v.push(0x80 | l.len() as u8);
		v.extend(l);
	}
	v.extend(value);
	v
}

/// Well-formed TLV data all of whose bytes are printable characters.
pub fn printable_tlv(r: &mut Rng, depth: usize) -> Vec<u8> {
	let mut b = Vec::new();
	for _ in 0..r.range(1, 2) {
		loop {
			let mut t = vec![r.range(0x20, 0x7E) as u8];
			if t[0] & 0x1F == 0x1F {
				t.push(r.range(0x20, 0x7E) as u8);
			}
			let mut v = if t[0] & 0x20 != 0 && depth > 0 { printable_tlv(r, depth - 1) } else { Vec::new() };
			if !(0x20..=0x7E).contains(&v.len()) {
				let n = r.range(0x20, 0x30);
				v = (0..n).map(|_| r.range(0x20, 0x7E) as u8).collect();
			}
			if acceptable(&t, &v) {
				b.extend(t);
				b.push(v.len() as u8);
				b.extend(v);
				break;
			}
		}
	}
	b
}

/// What a forest encodes to, and what it should be read as (at a given depth).
pub fn encode(r: &mut Rng, objs: &[Obj], masks: &[char], depth: usize) -> (Vec<u8>, Vec<Node>) {
	let mut bytes = Vec::new();
	let mut nodes = Vec::new();
	for o in objs {
		let (value, kids) = match &o.content {
			Content::Leaf(v) => (v.clone(), Vec::new()),
			Content::Kids(k) => encode(r, k, masks, depth + 1),
		};
		bytes.extend(object(r, &o.tag, &value));
		let masked = model::bytes_masked(&value, masks);
		nodes.push(Node {
			tag:  o.tag.clone(),
			kids: if masked { Vec::new() } else { kids },
			val:  if masked { Val::Masked } else { Val::Bytes(value) },
		});
	}
	(bytes, nodes)
}

/// A forest with accepted values only. Constructed objects only hold objects.
pub fn forest(r: &mut Rng, depth: usize, width: usize, small: bool) -> Vec<Obj> {
	let n = if r.one_in(12) { 0 } else { r.range(1, width.max(1)) };
	let n = if width > 1 { novel::once_in(r, 10).and_then(|p| p.count(r, 40)).unwrap_or(n) } else { n };
	let mut out: Vec<Obj> = Vec::new();
	for _ in 0..n {
		let o = match r.below(10) {
			0..=2 if depth > 0 => Obj {
				tag:     constructed_tag(r),
				content: Content::Kids(forest(r, depth - 1, width, small)),
			},
			3..=5 => {
				let tag = parsed_tag(r);
				let v = good_value(r, &tag);
				Obj { tag, content: Content::Leaf(v) }
			}
			7 if r.one_in(8) => {
				// Something short and empty
				let tag = loop {
					let b = if r.one_in(4) { 0 } else { r.byte() };
					if b & 0x3F < 0x1F && !is_parsed(&[b]) {
						break vec![b];
					}
				};
				Obj { tag, content: Content::Leaf(Vec::new()) }
			}
			6 if !out.is_empty() => {
				// The same tag again
				let mut o = r.pick(&out).clone();
				if let Content::Leaf(v) = &mut o.content {
					*v = good_value(r, &o.tag);
				}
				o
			}
			_ => {
				let tag = opaque_tag(r);
				let v = if small {
					let n = r.below(20);
					content(r, n)
				} else {
					any_value(r)
				};
				Obj { tag, content: Content::Leaf(v) }
			}
		};
		out.push(o);
	}
	out
}

/// Changes something about well-formed data.
pub fn mutate(r: &mut Rng, b: &mut Vec<u8>) {
	for _ in 0..r.range(1, 3) {
		if b.is_empty() {
			b.push(r.byte());
			continue;
		}
		let i = r.below(b.len());
		if let Some(p) = novel::once_in(r, 3) {
			let s = p.seq(r);
			match r.below(4) {
				0 => b[i] = s[0],
				1 => {
					b.splice(i..i, s);
				}
				2 => b.extend(s),
				_ => {
					b.splice(0..0, s);
				}
			}
			continue;
		}
		match r.below(6) {
			0 => b.truncate(i),
			1 => b[i] = r.byte(),
			2 => b[i] ^= 1 << r.below(8),
			3 => b.insert(i, r.byte()),
			4 => {
				b.remove(i);
			}
			_ => b[i] = *r.pick(&[0, 0x1F, 0x80, 0x81, 0x84, 0x85, 0xFF, 0x7F]),
		}
	}
}

// ---------------------------------------------------------------------------------------------
// Text forms

pub fn noisy_hex(r: &mut Rng, b: &[u8]) -> String {
	const NOISE: &[&str] =
		&[" ", "-", ":", ",", "\t", "\n", "x", "é", "…", ".", "_", "|", "h", "\u{200b}", "Z", "ｆ", "٣", "/"];
	let mut s = String::new();
	let often = r.range(1, 6);
	let new = novel::once_in(r, 2);
	if let (Some(p), true) = (new, r.bool()) {
		s.push_str(&p.noise(r));
	}
	for c in hex(b).chars() {
		while r.one_in(often + 1) {
			match new {
				Some(p) if r.bool() => s.push_str(&p.noise(r)),
				_ => s.push_str(r.pick(NOISE)),
			}
		}
		s.push(if r.bool() { c.to_ascii_lowercase() } else { c });
	}
	while r.one_in(2) {
		match new {
			Some(p) if r.bool() => s.push_str(&p.noise(r)),
			_ => s.push_str(r.pick(NOISE)),
		}
	}
	s
}

/// Hex data with two characters that are not hex digits here and there; over the numbers, every
/// such pair of visible ASCII characters.
pub fn paired_hex(r: &mut Rng, b: &[u8], nr: usize) -> String {
	let digits = if r.bool() { hex(b) } else { hex_lower(b) };
	paired_text(&digits, nr)
}

pub fn paired_text(digits: &str, nr: usize) -> String {
	let noise: Vec<char> = (b' '..=b'~').map(char::from).filter(|c| !c.is_ascii_hexdigit()).collect();
	let mut s = String::new();
	for (at, c) in digits.chars().enumerate() {
		// Before the first digit, and then in half of the gaps
		if at % 2 == nr % 2 && at < 60 {
			let pair = nr * 17 + at / 2;
			s.push(noise[pair % noise.len()]);
			s.push(noise[pair / noise.len() % noise.len()]);
		}
		s.push(c);
	}
	s
}

pub fn case(r: &mut Rng, s: &str) -> String {
	match r.below(3) {
		0 => s.to_lowercase(),
		1 => s.to_uppercase(),
		_ => s.chars().map(|c| if r.bool() { c.to_ascii_lowercase() } else { c.to_ascii_uppercase() }).collect(),
	}
}

pub fn some_hex(r: &mut Rng, b: &[u8]) -> String {
	match r.below(6) {
		0 => noisy_hex(r, b),
		1 => hex_lower(b),
		2 => model_spaced(b),
		_ => hex(b),
	}
}

fn model_spaced(b: &[u8]) -> String {
	b.iter().map(|x| format!("{x:02X}")).collect::<Vec<_>>().join(" ")
}

/// One field of Ingenico data.
#[derive(Clone, Debug)]
pub struct Field {
	pub kind:   char,
	pub id:     Vec<u8>,
	pub format: char,
	/// The text of the data
	pub text:   String,
}

pub fn field_text(r: &mut Rng, f: &Field) -> String {
	let zeros = if r.one_in(6) { r.range(1, 3) } else { 0 };
	let mut id = vec![0u8; zeros];
	id.extend(&f.id);
	let n = if f.format == 'h' { f.text.len() / 2 } else { f.text.len() };
	let mut len: Vec<u8> = (n as u32).to_be_bytes().iter().copied().skip_while(|b| *b == 0).collect();
	let least = len.len().max(1);
	let want = if r.one_in(3) { r.range(least, 4) } else { least };
	while len.len() < want {
		len.insert(0, 0);
	}
	format!("{}{}:{}:{}{}", f.kind, case(r, &hex(&id)), case(r, &hex(&len)), f.format, f.text)
}

pub fn printable(v: &[u8]) -> bool {
	v.iter().all(|b| (32..127).contains(b))
}

pub fn emv_field(r: &mut Rng, tag: &[u8], v: &[u8]) -> Field {
	if v.is_ascii() && !v.contains(&0) && r.bool() {
		Field { kind: 'T', id: tag.to_vec(), format: 'a', text: String::from_utf8(v.to_vec()).unwrap() }
	} else {
		Field { kind: 'T', id: tag.to_vec(), format: 'h', text: case(r, &hex(v)) }
	}
}

/// A field of a kind that is skipped.
pub fn other_field(r: &mut Rng) -> Field {
	let new = novel::once_in(r, 3).and_then(|p| p.char(r)).filter(|c| c.is_ascii() && *c != 'T');
	let kind = if let Some(c) = new {
		c
	} else if r.one_in(5) {
		loop {
			let c = char::from(r.range(1, 127) as u8);
			if c != 'T' {
				break c;
			}
		}
	} else {
		*r.pick(&['C', 'D', 'F', 'X', 't', '0', ' ', '*', 'E', 'a', 'h', '~', '\n'])
	};
	let id = if r.bool() { dictionary_tag(r) } else { r.bytes(2) };
	let n = r.below(12);
	if r.bool() {
		let b = r.bytes(n);
		Field { kind, id, format: 'h', text: case(r, &hex(&b)) }
	} else {
		// Text that looks like fields itself
		let text = match r.below(3) {
			0 => "T9A:03:h210101,".to_owned(),
			1 => (0..n).map(|_| r.range(32, 126) as u8 as char).collect(),
			_ => ":,:T:a:h*"[..r.below(10)].to_owned(),
		};
		Field { kind, id, format: 'a', text }
	}
}

pub fn join_fields(r: &mut Rng, fields: &[Field]) -> String {
	const SEPARATORS: &[char] =
		&[',', ';', ' ', '|', '\n', '\r', '\t', ':', 'T', '0', 'a', '*', '/', '~', '\u{1}', '\u{7f}'];
	let mut s = String::new();
	let new = novel::once_in(r, 3).and_then(|p| p.char(r)).filter(char::is_ascii);
	let one = new.unwrap_or_else(|| if r.bool() { ',' } else { *r.pick(SEPARATORS) });
	for (i, f) in fields.iter().enumerate() {
		s.push_str(&field_text(r, f));
		if i + 1 < fields.len() || r.bool() {
			s.push(if r.one_in(8) { *r.pick(SEPARATORS) } else { one });
		}
	}
	s
}

/// All in hex, with commas.
pub fn ingenico_hex(items: &[(Vec<u8>, Vec<u8>)]) -> String {
	items
		.iter()
		.map(|(t, v)| {
			let mut l = hex(&(v.len() as u32).to_be_bytes());
			while l.len() > 2 && l.starts_with("00") {
				l.drain(..2);
			}
			format!("T{}:{l}:h{}", hex(t), hex(v))
		})
		.collect::<Vec<_>>()
		.join(",")
}

// ---------------------------------------------------------------------------------------------
// Whole requests

#[derive(Clone, Debug)]
pub struct Request {
	pub op:    Op,
	pub value: String,
	pub set:   Settings,
}

impl Request {
	pub fn new(op: Op, value: impl Into<String>) -> Self {
		Request { op, value: value.into(), set: Settings::default() }
	}
	pub fn sort(mut self, on: bool) -> Self {
		self.set.sort = on;
		self
	}
	pub fn masks(mut self, m: &[char]) -> Self {
		self.set.masks = m.to_vec();
		self
	}
	/// The command for it. Values are joined to their option so that none is taken for an option.
	pub fn req(&self) -> Req {
		let mut q = Req::new([format!("{}={}", self.op.long(), self.value)]);
		if self.op.is_tlv() {
			if !self.set.sort {
				q = q.arg("--no-sort");
			}
			if self.set.masks != ['*'] {
				for m in &self.set.masks {
					q = q.arg(format!("--masking-character={m}"));
				}
			}
		}
		q
	}
	pub fn wanted(&self) -> Result<model::Doc, model::Refusal> {
		model::breakdown(self.op, &self.value, &self.set)
	}
}

/// The longest argument a program can be given, with some room.
pub const MAX_VALUE: usize = 130_900;

/// Data that has so many of something, or something new somewhere.
pub fn novel_block(r: &mut Rng, p: &novel::Pool, most: usize) -> Vec<u8> {
	let tag = |r: &mut Rng| match r.below(3) {
		0 => novel_tag(r, p).map_or(vec![0x5A], |mut t| {
			t[0] &= !0x20;
			t
		}),
		1 => vec![0x5A],
		_ => opaque_tag(r),
	};
	let small = |r: &mut Rng| {
		for _ in 0..8 {
			let t = tag(r);
			let n = r.below(5);
			let v = content(r, n);
			if acceptable(&t, &v) {
				return object_plain(&t, &v);
			}
		}
		vec![0x5A, 1, 1]
	};
	let b = match r.below(8) {
		// A value of the size
		0 | 1 => {
			let n = p.count(r, most - 64).unwrap_or(9);
			let t = tag(r);
			let v = content(r, n);
			object(r, &t, &v)
		}
		// Data of the size
		2 => {
			let n = p.count(r, most).unwrap_or(9).max(2);
			let head = [2, 3, 4].into_iter().find_map(|h| {
				let b = object_plain(&[0x5A], &vec![0x11; n.saturating_sub(h)]);
				(b.len() == n).then_some(b)
			});
			head.unwrap_or_else(|| object_plain(&[0x5A], &vec![0x11; n.saturating_sub(3)]))
		}
		// So many objects
		3 => {
			let n = p.count(r, most / 12).unwrap_or(3);
			if n < 50 || r.bool() {
				(0..n).flat_map(|_| small(r)).collect()
			} else {
				let one = small(r);
				one.repeat(n)
			}
		}
		// Children
		4 => {
			let n = p.count(r, most / 14).unwrap_or(3);
			let one = small(r);
			let kids = if r.bool() { one.repeat(n) } else { (0..n.min(200)).flat_map(|_| small(r)).collect() };
			object_plain(&constructed_tag(r), &kids)
		}
		// Levels
		5 => {
			let n = p.count(r, 252).unwrap_or(3);
			let same = r.bool();
			let t = constructed_tag(r);
			let mut b = small(r);
			for _ in 0..n {
				let t = if same || b.len() > most / 2 { vec![0x70] } else if r.bool() { t.clone() } else { constructed_tag(r) };
				b = object_plain(&t, &b);
			}
			if r.one_in(4) {
				b.extend(small(r));
			}
			b
		}
		// Something new at either end of a value, with children or not
		6 => {
			let mut v = if r.bool() { small(r) } else { any_value(r) };
			v.truncate(most / 4);
			let s = p.seq(r);
			if r.bool() {
				v.extend(s);
			} else {
				v.splice(0..0, s);
			}
			object_plain(&if r.bool() { constructed_tag(r) } else { tag(r) }, &v)
		}
		_ => {
			let t = parsed_tag(r);
			let mut v = good_value(r, &t);
			novelise(r, p, &mut v);
			object_plain(&t, &v)
		}
	};
	if b.len() <= most {
		b
	} else {
		small(r)
	}
}

pub fn ber_block(r: &mut Rng) -> Vec<u8> {
	if let Some(p) = novel::once_in(r, 3) {
		let most = if r.one_in(4) { 60_000 } else { 6000 };
		for _ in 0..4 {
			let b = novel_block(r, p, most);
			if model::ber(&b, &['*'], 0).is_ok_and(|n| model::show_nodes(n, false).is_ok()) {
				return b;
			}
		}
	}
	let depth = match r.below(8) {
		0 => 0,
		1..=4 => r.range(1, 3),
		5 | 6 => r.range(2, 6),
		_ => r.range(4, 10),
	};
	let width = r.range(1, 5);
	let small = r.bool();
	loop {
		let f = forest(r, depth, width, small);
		let (b, _) = encode(r, &f, &['*'], 0);
		if b.len() < 20_000 {
			return b;
		}
	}
}

/// Something of everything that is ever shown: every interpreted tag several times, unknown and
/// known tags, masked values, nested objects.
pub fn rich(r: &mut Rng) -> Request {
	let mut items: Vec<(Vec<u8>, Vec<u8>)> = Vec::new();
	for t in model::PARSED_TAGS {
		for _ in 0..r.range(2, 4) {
			let t = unhex(t);
			let v = good_value(r, &t);
			items.push((t, v));
		}
	}
	for _ in 0..10 {
		let t = dictionary_tag(r);
		let v = good_value(r, &t);
		items.push((t, v));
		let t = opaque_tag(r);
		let n = r.below(40);
		let v = content(r, n);
		items.push((t, v));
	}
	for _ in 0..4 {
		let t = any_tag(r);
		let n = r.range(2, 9);
		items.push((t, vec![b'*'; n]));
		let f = forest(r, 2, 3, true);
		let v = encode(r, &f, &['*'], 1).0;
		items.push((constructed_tag(r), v));
	}
	items.retain(|(t, v)| acceptable(t, v));
	for i in (1..items.len()).rev() {
		items.swap(i, r.below(i + 1));
	}
	let q = match r.below(3) {
		0 => Request::new(Op::Ingenico, ingenico_hex(&items)),
		k => {
			let mut b: Vec<u8> = items.iter().flat_map(|(t, v)| object_plain(t, v)).collect();
			if r.bool() {
				b = object_plain(&[0x70], &b);
			}
			Request::new(if k == 1 { Op::Auto } else { Op::Ber }, hex(&b))
		}
	};
	q.sort(r.bool())
}

pub fn ingenico_block(r: &mut Rng) -> String {
	let n = r.range(1, 7);
	let mut fields = Vec::new();
	for _ in 0..n {
		fields.push(match r.below(8) {
			0 => other_field(r),
			1 | 2 => {
				let f = forest(r, 2, 3, true);
				let (b, _) = encode(r, &f, &['*'], 1);
				let t = constructed_tag(r);
				emv_field(r, &t, &b)
			}
			3 | 4 => {
				let t = parsed_tag(r);
				let v = good_value(r, &t);
				emv_field(r, &t, &v)
			}
			5 => {
				let t = any_tag(r);
				let n = r.range(0, 12);
				let c = *r.pick(&['*', '*', '#', 'A']);
				Field {
					kind:   'T',
					id:     t,
					format: *r.pick(&['a', 'h']),
					text:   c.to_string().repeat(n * 2),
				}
			}
			6 if novel::pool().is_some() => {
				// So much of it, or something new in it
				let t = opaque_tag(r);
				let n = novel::pool().and_then(|p| p.count(r, 50_000)).unwrap_or(4);
				let v = if r.bool() { content(r, n) } else { any_value(r) };
				emv_field(r, &t, &v)
			}
			_ => {
				let t = opaque_tag(r);
				let v = any_value(r);
				emv_field(r, &t, &v)
			}
		});
	}
	// Interpreted tags whose ASCII data is short etc. may be refused: that is for the model to say
	join_fields(r, &fields)
}

/// A request of any kind, mostly one that is accepted.
pub fn request(r: &mut Rng) -> Request {
	if r.one_in(16) {
		return rich(r);
	}
	let op = if r.one_in(2) { *r.pick(&[Op::Ber, Op::Ingenico, Op::Auto]) } else { *r.pick(model::OPS) };
	let odd = r.one_in(4);
	let mut q = match op {
		Op::Tvr => leaf(r, op, "95", odd),
		Op::Tsi => leaf(r, op, "9B", odd),
		Op::CvmResults => leaf(r, op, "9F34", odd),
		Op::CvmList => leaf(r, op, "8E", odd),
		Op::Iad => {
			let v = if odd { odd_value(r, &unhex("9F10")) } else { ccd_iad(r) };
			Request::new(op, some_hex(r, &v))
		}
		Op::Cvr => {
			let mut v = flag_bytes(r, 5);
			if odd {
				v.truncate(r.below(5));
			}
			Request::new(op, some_hex(r, &v))
		}
		Op::Identify => {
			let t = if odd { any_value(r) } else { any_tag(r) };
			Request::new(op, some_hex(r, &t))
		}
		Op::ServiceCode => {
			let n = r.below(1000);
			let n = match novel::once_in(r, 3) {
				Some(p) => p.int(r),
				None => n,
			};
			let s = if odd {
				match r.below(6) {
					0 => format!("{}", r.below(100_000)),
					1 => format!("-{n}"),
					2 => format!("{n}x"),
					3 => format!(" {n} "),
					4 => "٣٣٣".to_owned(),
					_ => format!("{n:09}"),
				}
			} else if r.bool() {
				format!("{n:03}")
			} else {
				format!("{n}")
			};
			Request::new(op, s)
		}
		Op::Ber => {
			let mut b = ber_block(r);
			if odd {
				match r.below(3) {
					0 => {
						let t = parsed_tag(r);
						let v = odd_value(r, &t);
						b.extend(object(r, &t, &v));
					}
					_ => mutate(r, &mut b),
				}
			}
			Request::new(op, some_hex(r, &b))
		}
		Op::Ingenico => {
			let mut s = ingenico_block(r);
			if odd {
				mutate_text(r, &mut s);
			}
			Request::new(op, s)
		}
		Op::Auto => {
			let s = match r.below(5) {
				0 | 1 => {
					let b = ber_block(r);
					some_hex(r, &b)
				}
				2 => {
					let mut b = ber_block(r);
					mutate(r, &mut b);
					some_hex(r, &b)
				}
				3 => ingenico_block(r),
				_ => {
					let mut s = ingenico_block(r);
					mutate_text(r, &mut s);
					s
				}
			};
			Request::new(op, s)
		}
	};
	if q.value.is_empty() {
		q.value = "-".to_owned();
	}
	if op.is_tlv() {
		q.set.sort = !r.one_in(3);
		if r.one_in(4) {
			q.set.masks = masks(r);
		}
	}
	if q.value.len() > MAX_VALUE || q.value.contains('\0') {
		return request(r);
	}
	q
}

fn leaf(r: &mut Rng, op: Op, tag: &str, odd: bool) -> Request {
	let tag = unhex(tag);
	let v = if odd { odd_value(r, &tag) } else { good_value(r, &tag) };
	Request::new(op, some_hex(r, &v))
}

pub fn masks(r: &mut Rng) -> Vec<char> {
	let n = match r.below(60) {
		0..=9 => r.range(4, 12),
		10 | 11 => r.range(13, 70),
		12 => r.range(70, 700),
		_ => r.range(1, 3),
	};
	(0..n).map(|_| mask(r)).collect()
}

/// A character that can be configured, however unlikely.
pub fn mask(r: &mut Rng) -> char {
	if let Some(c) = novel::once_in(r, 4).and_then(|p| p.char(r)) {
		if c != '\0' {
			return c;
		}
	}
	match r.below(6) {
		0 => char::from(r.range(0x21, 0x7E) as u8),
		1 => match r.below(4) {
			0 => char::from(r.range(0x80, 0xFF) as u8),
			// Low bytes that look like common values
			1 => char::from_u32(r.range(1, 0x1F) as u32 * 0x100 + 0x2A).unwrap_or('*'),
			2 => char::from_u32(0x1_0000 + r.below(0x1000) as u32).unwrap_or('*'),
			_ => char::from_u32(r.range(0x100, 0xD7FF) as u32).unwrap_or('*'),
		},
		_ => *r.pick(&['*', '#', 'X', '0', 'F', 'A', ' ', '.', 'é', 'ÿ', '\u{80}', '漢', 'a', '1', 'p']),
	}
}

pub fn mutate_text(r: &mut Rng, s: &mut String) {
	for _ in 0..r.range(1, 2) {
		let mut c: Vec<char> = s.chars().collect();
		if c.is_empty() {
			return;
		}
		let i = r.below(c.len());
		if let Some(p) = novel::once_in(r, 3) {
			let new = match r.below(3) {
				0 if !p.strings.is_empty() => r.pick(&p.strings).replace('\0', ""),
				1 => hex(&p.seq(r)),
				_ => p.char(r).map_or(String::new(), String::from),
			};
			let at = *r.pick(&[0, i, c.len()]);
			c.splice(at..at, new.chars());
			*s = c.into_iter().collect();
			continue;
		}
		match r.below(5) {
			0 => c.truncate(i),
			1 => c[i] = *r.pick(&[':', 'T', 'a', 'h', 'g', '0', 'é', ' ', ',', 'F', '-', '+']),
			2 => {
				c.remove(i);
			}
			3 => c.insert(i, *r.pick(&[':', '0', 'F', 'T', 'a', 'h', ',', '\n', '漢'])),
			_ => {
				let n = c.len();
				c.swap(i, n - 1 - i);
			}
		}
		*s = c.into_iter().collect();
	}
}
