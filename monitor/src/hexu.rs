//! Hex and JSON text helpers.

pub fn hex(bytes: &[u8]) -> String {
	const D: &[u8; 16] = b"0123456789ABCDEF";
	let mut s = String::with_capacity(bytes.len() * 2);
	for b in bytes {
		s.push(D[usize::from(b >> 4)] as char);
		s.push(D[usize::from(b & 15)] as char);
	}
	s
}

pub fn hex_lower(bytes: &[u8]) -> String {
	hex(bytes).to_lowercase()
}

/// Strict; panics on anything else (for literals).
pub fn unhex(s: &str) -> Vec<u8> {
	let d: Vec<u8> = s.chars().map(|c| c.to_digit(16).expect("hex literal") as u8).collect();
	assert!(d.len() % 2 == 0);
	d.chunks(2).map(|p| p[0] * 16 + p[1]).collect()
}

pub fn json_str(s: &str) -> String {
	let mut o = String::with_capacity(s.len() + 2);
	o.push('"');
	for c in s.chars() {
		match c {
			'"' => o.push_str("\\\""),
			'\\' => o.push_str("\\\\"),
			'\n' => o.push_str("\\n"),
			'\t' => o.push_str("\\t"),
			c if (c as u32) < 0x20 || c == '\u{7f}' => o.push_str(&format!("\\u{:04x}", c as u32)),
			c => o.push(c),
		}
	}
	o.push('"');
	o
}

/// Printable, unambiguous form of arbitrary bytes; long values are shortened in the middle.
pub fn show(bytes: &[u8], max: usize) -> String {
	let s: String = String::from_utf8_lossy(bytes).into_owned();
	let n = s.chars().count();
	if n <= max {
		s
	} else {
		let head: String = s.chars().take(max / 2).collect();
		let tail: String = s.chars().skip(n - max / 2).collect();
		format!("{head}...<{n} chars>...{tail}")
	}
}
