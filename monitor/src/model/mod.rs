//! An independent reference model of what the program should show for a request.
//!
//! It is written from the EMV specifications and the documented behaviour, with other data
//! structures and algorithms than the program. It produces styled text (who is a header, what is
//! bold, what is a warning), so that both the plain and the coloured output can be judged.

pub mod tables;

use std::{collections::HashMap, sync::OnceLock};

use crate::hexu::{hex, unhex};

/// How a piece of text is emphasised.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Sty {
	/// Nothing
	P,
	/// Header: bold cyan
	H,
	/// Bold
	B,
	/// Warning: yellow
	W,
	/// Error: red
	E,
}
use Sty::{B, H, P};

pub type Line = Vec<(Sty, String)>;

#[derive(Clone, Default, Debug)]
pub struct Doc {
	pub lines: Vec<Line>,
}

impl Doc {
	fn push(&mut self, indent: usize, segs: &[(Sty, &str)]) {
		let mut l = Vec::with_capacity(segs.len() + 1);
		if indent > 0 {
			l.push((P, "\t".repeat(indent)));
		}
		l.extend(segs.iter().map(|(s, t)| (*s, (*t).to_owned())));
		self.lines.push(l);
	}
	pub fn text(&self) -> String {
		let mut s = String::new();
		for l in &self.lines {
			for (_, t) in l {
				s.push_str(t);
			}
			s.push('\n');
		}
		s
	}
}

/// Why a value is refused.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Refusal {
	Exactly(usize, usize),
	AtLeast(usize, usize),
	NotDivisible,
	InvalidBytes,
	InvalidNumber,
	NonCompliant,
	NonCcd,
	Unsupported,
	Unrecognised,
}

impl Refusal {
	pub fn message(&self) -> String {
		let size = |kind: &str, e: usize, f: usize| {
			format!(
				"The wrong number of bytes were provided for the value. Perhaps you provided the wrong value? Expected: {kind} {e}, Found: {f}"
			)
		};
		match self {
			Refusal::Exactly(e, f) => size("exactly", *e, *f),
			Refusal::AtLeast(e, f) => size("greater than or equal to", *e, *f),
			Refusal::NotDivisible => "The number of bytes provided is not divisible into the components of the value. Please check the format of the input data.".into(),
			Refusal::InvalidBytes => "The bytes provided are not valid.".into(),
			Refusal::InvalidNumber => "The value provided is not a valid number, or is too large.".into(),
			Refusal::NonCompliant => "The value provided isn't compliant with the specifications in some way, or this tool is out of date. If you have reason to believe it's the latter, please make sure you're using the latest version then open an issue on GitHub.".into(),
			Refusal::NonCcd => "The value provided isn't compliant with the EMV Common Core Definitions (CCD) in some way. This isn't a problem necessarily, but it does mean that the value can't be parsed.".into(),
			Refusal::Unsupported => "The value provided is in some way unsupported. If you have genuine need for the unsupported feature, please open an issue on GitHub.".into(),
			Refusal::Unrecognised => "The value provided is in some way unrecognised. This isn't a problem necessarily, but it does mean that the value can't be parsed.".into(),
		}
	}
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Op {
	Tvr,
	Iad,
	Cvr,
	Tsi,
	CvmResults,
	CvmList,
	Identify,
	Auto,
	Ber,
	Ingenico,
	ServiceCode,
}

pub const OPS: &[Op] = &[
	Op::Tvr,
	Op::Iad,
	Op::Cvr,
	Op::Tsi,
	Op::CvmResults,
	Op::CvmList,
	Op::Identify,
	Op::Auto,
	Op::Ber,
	Op::Ingenico,
	Op::ServiceCode,
];

impl Op {
	pub fn long(self) -> &'static str {
		match self {
			Op::Tvr => "--tvr",
			Op::Iad => "--ccd-iad",
			Op::Cvr => "--ccd-cvr",
			Op::Tsi => "--tsi",
			Op::CvmResults => "--cvm-results",
			Op::CvmList => "--cvm-list",
			Op::Identify => "--identify",
			Op::Auto => "--auto-tlv",
			Op::Ber => "--ber-tlv",
			Op::Ingenico => "--ingenico-tlv",
			Op::ServiceCode => "--service-code",
		}
	}
	/// Every spelling.
	pub fn spellings(self) -> &'static [&'static str] {
		match self {
			Op::Tvr => &["--tvr", "-t", "--95", "--iac", "--tac"],
			Op::Iad => &["--ccd-iad", "--9F10", "--9f10", "--iad"],
			Op::Cvr => &["--ccd-cvr", "--cvr"],
			Op::Tsi => &["--tsi", "--9B", "--9b"],
			Op::CvmResults => &["--cvm-results", "-r", "--9F34", "--9f34", "--cvm-result"],
			Op::CvmList => &["--cvm-list", "--8E", "--8e"],
			Op::Identify => &["--identify", "--id"],
			Op::Auto => &["--auto-tlv", "-a", "--auto", "--parse-tlv", "--parse"],
			Op::Ber => &["--ber-tlv", "-b", "--ber"],
			Op::Ingenico => &["--ingenico-tlv", "-i", "--ingenico"],
			Op::ServiceCode => &["--service-code", "--5F30", "--5f30"],
		}
	}
	pub fn is_tlv(self) -> bool {
		matches!(self, Op::Auto | Op::Ber | Op::Ingenico)
	}
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Settings {
	pub masks: Vec<char>,
	pub sort:  bool,
}
impl Default for Settings {
	fn default() -> Self {
		Settings { masks: vec!['*'], sort: true }
	}
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Val {
	Bytes(Vec<u8>),
	Masked,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Node {
	pub tag:  Vec<u8>,
	pub val:  Val,
	pub kids: Vec<Node>,
}

pub fn name_of(tag: &[u8]) -> Option<&'static str> {
	static M: OnceLock<HashMap<Vec<u8>, &'static str>> = OnceLock::new();
	M.get_or_init(|| tables::DICTIONARY.iter().map(|(t, n)| (unhex(t), *n)).collect())
		.get(tag)
		.copied()
}

pub fn is_constructed(tag: &[u8]) -> bool {
	tag[0] & 0x20 != 0
}

/// The nesting that is followed. Deeper data is only shown raw.
pub const MAX_DEPTH: usize = 250;

/// Two or more of one and the same masking character, where each element is one character.
pub fn all_masked(chars: &[char], masks: &[char]) -> bool {
	chars.len() >= 2 && masks.contains(&chars[0]) && chars.iter().all(|c| *c == chars[0])
}
pub fn bytes_masked(b: &[u8], masks: &[char]) -> bool {
	b.len() >= 2
		&& b.iter().all(|x| *x == b[0])
		&& masks.contains(&char::from(b[0]))
}

// ---------------------------------------------------------------------------------------------
// Reading

pub fn read_hex(s: &str) -> Result<Vec<u8>, Refusal> {
	let digits: Vec<u8> =
		s.chars().filter(char::is_ascii_hexdigit).map(|c| c.to_digit(16).unwrap() as u8).collect();
	if digits.len() % 2 == 1 {
		return Err(Refusal::InvalidBytes);
	}
	Ok(digits.chunks(2).map(|p| (p[0] << 4) | p[1]).collect())
}

/// Takes one object off the front.
fn ber_object(b: &[u8]) -> Result<(&[u8], &[u8], &[u8]), Refusal> {
	let mut tag_len = 1;
	if b[0] & 31 == 31 {
		loop {
			let Some(x) = b.get(tag_len) else { return Err(Refusal::NonCompliant) };
			tag_len += 1;
			if x & 128 == 0 {
				break;
			}
		}
	}
	let (tag, rest) = b.split_at(tag_len);
	let Some((&l, rest)) = rest.split_first() else { return Err(Refusal::NonCompliant) };
	let (len, rest) = match l {
		0..=127 => (u64::from(l), rest),
		128 => return Err(Refusal::Unsupported),
		_ => {
			let n = usize::from(l & 127);
			if n > 4 {
				return Err(Refusal::Unsupported);
			}
			if rest.len() < n {
				return Err(Refusal::NonCompliant);
			}
			let (lb, rest) = rest.split_at(n);
			(lb.iter().fold(0u64, |a, x| a * 256 + u64::from(*x)), rest)
		}
	};
	if len > rest.len() as u64 {
		return Err(Refusal::NonCompliant);
	}
	let (val, rest) = rest.split_at(len as usize);
	Ok((tag, val, rest))
}

/// `depth`: the number of constructed objects around this data.
pub fn ber(b: &[u8], masks: &[char], depth: usize) -> Result<Vec<Node>, Refusal> {
	let mut rest = b;
	let mut nodes = Vec::new();
	while !rest.is_empty() {
		let (tag, val, next) = ber_object(rest)?;
		nodes.push(make_node(tag.to_vec(), val, bytes_masked(val, masks), masks, depth));
		rest = next;
	}
	Ok(nodes)
}

pub fn make_node(tag: Vec<u8>, val: &[u8], masked: bool, masks: &[char], depth: usize) -> Node {
	let kids = if masked || !is_constructed(&tag) || depth >= MAX_DEPTH {
		Vec::new()
	} else {
		ber(val, masks, depth + 1).unwrap_or_default()
	};
	Node { tag, val: if masked { Val::Masked } else { Val::Bytes(val.to_vec()) }, kids }
}

fn strict_hex(s: &str) -> Option<Vec<u8>> {
	if s.len() % 2 != 0 || !s.bytes().all(|c| c.is_ascii_hexdigit()) {
		return None;
	}
	read_hex(s).ok()
}

pub fn ingenico(s: &str, masks: &[char]) -> Result<Vec<Node>, Refusal> {
	if !s.is_ascii() {
		return Err(Refusal::NonCompliant);
	}
	let bad = Refusal::NonCompliant;
	let mut rest = s;
	let mut nodes = Vec::new();
	while !rest.is_empty() {
		let kind = &rest[..1];
		rest = &rest[1..];
		let (id, r) = rest.split_once(':').ok_or(bad.clone())?;
		let mut id = strict_hex(id).filter(|i| !i.is_empty()).ok_or(bad.clone())?;
		while id.len() > 1 && id[0] == 0 {
			id.remove(0);
		}
		let (len, r) = r.split_once(':').ok_or(bad.clone())?;
		let len = strict_hex(len).ok_or(bad.clone())?;
		if len.len() > 4 {
			return Err(Refusal::Unsupported);
		}
		let len = len.iter().fold(0usize, |a, x| a * 256 + usize::from(*x));
		let format = r.chars().next().ok_or(bad.clone())?;
		let r = &r[1..];
		let n = match format {
			'a' => len,
			'h' => 2 * len,
			_ => return Err(bad.clone()),
		};
		if r.len() < n {
			return Err(bad.clone());
		}
		let (text, r) = r.split_at(n);
		let masked = all_masked(&text.chars().collect::<Vec<_>>(), masks);
		let val = if masked {
			Vec::new()
		} else if format == 'a' {
			text.as_bytes().to_vec()
		} else {
			strict_hex(text).ok_or(bad.clone())?
		};
		// Any one separator
		rest = r.get(1..).unwrap_or("");
		if kind == "T" {
			nodes.push(make_node(id, &val, masked, masks, 0));
		}
	}
	Ok(nodes)
}

pub fn sort_nodes(nodes: &mut [Node]) {
	nodes.sort_by(|a, b| a.tag.cmp(&b.tag));
	for n in nodes {
		sort_nodes(&mut n.kids);
	}
}

// ---------------------------------------------------------------------------------------------
// Interpretation of single values

/// One explanation hanging from a bit (or range of bits; `high` is the leftmost one).
struct Arm {
	high: usize,
	len:  usize,
	text: String,
	sty:  Sty,
}

fn draw_bits(doc: &mut Doc, indent: usize, bytes: &[u8], arms: &[Arm], severity: bool) {
	let nbits = bytes.len() * 8;
	// A space between bytes
	let col = |bit: usize| {
		let from_left = nbits - 1 - bit;
		from_left + from_left / 8
	};
	let binary: Vec<String> = bytes.iter().map(|b| format!("{b:08b}")).collect();
	doc.push(indent, &[(B, &binary.join(" "))]);
	if arms.iter().any(|a| a.len > 1) {
		let mut row: Vec<char> = Vec::new();
		let mut put = |c: usize, ch: char| {
			if row.len() <= c {
				row.resize(c + 1, ' ');
			}
			row[c] = ch;
		};
		for a in arms {
			if a.len == 1 {
				put(col(a.high), '│');
			} else {
				for bit in (a.high + 1 - a.len)..=a.high {
					put(col(bit), '─');
				}
				put(col(a.high), '├');
				put(col(a.high + 1 - a.len), '┘');
			}
		}
		let row: String = row.into_iter().collect();
		doc.push(indent, &[(P, &row)]);
	}
	let mut order: Vec<&Arm> = arms.iter().collect();
	order.sort_by_key(|a| a.high);
	for a in &order {
		let mut row = vec![' '; col(a.high)];
		for other in arms {
			if other.high > a.high {
				row[col(other.high)] = '│';
			}
		}
		let row: String = row.into_iter().collect();
		doc.push(indent, &[
			(P, &format!("{row}└ ")),
			(if severity { a.sty } else { P }, &a.text),
		]);
	}
}

fn flag_arms(bytes: &[u8], table: &[(usize, u8, Sty, &str)]) -> Vec<Arm> {
	table
		.iter()
		.filter(|(i, m, _, _)| bytes[*i] & m != 0)
		.map(|(i, m, sty, text)| Arm {
			high: (bytes.len() - 1 - i) * 8 + m.trailing_zeros() as usize,
			len:  1,
			text: (*text).to_owned(),
			sty:  *sty,
		})
		.collect()
}

fn exactly(v: &[u8], n: usize) -> Result<(), Refusal> {
	if v.len() == n {
		Ok(())
	} else {
		Err(Refusal::Exactly(n, v.len()))
	}
}

fn flags(
	doc: &mut Doc,
	indent: usize,
	v: &[u8],
	n: usize,
	table: &[(usize, u8, Sty, &str)],
	severity: bool,
) -> Result<(), Refusal> {
	exactly(v, n)?;
	let mut used = vec![0u8; n];
	for (i, m, _, _) in table {
		used[*i] |= m;
	}
	let shown: Vec<u8> = v.iter().zip(&used).map(|(a, b)| a & b).collect();
	draw_bits(doc, indent, &shown, &flag_arms(v, table), severity);
	Ok(())
}

fn cvr(doc: &mut Doc, indent: usize, v: &[u8]) -> Result<(), Refusal> {
	exactly(v, 5)?;
	let aac = "AAC (Application Authentication Cryptogram)";
	let tc = "TC (Transaction Certificate)";
	let rfu = "RFU (Reserved For Use)";
	let second = [aac, tc, "Second GENERATE AC not requested", rfu][usize::from(v[0] >> 6)];
	let first = [aac, tc, "ARQC (Authorization Request Cryptogram)", rfu]
		[usize::from(v[0] >> 4 & 3)];
	let wide = |high, len, text| Arm { high, len, text, sty: P };
	let mut arms = vec![
		wide(39, 2, format!("Application cryptogram type returned in 2nd GENERATE AC: {second}")),
		wide(37, 2, format!("Application cryptogram type returned in 1st GENERATE AC: {first}")),
		wide(31, 4, format!("PIN try count: {}", v[1] >> 4)),
		wide(
			15,
			4,
			format!(
				"Number of successfully processed issuer script commands containing secure messaging: {}",
				v[3] >> 4
			),
		),
	];
	arms.extend(flag_arms(v, tables::CVR_FLAGS));
	draw_bits(doc, indent, &[v[0], v[1], v[2], v[3], 0], &arms, true);
	Ok(())
}

fn byte_line(v: &[u8]) -> String {
	v.iter().map(|b| format!("{b:02X}")).collect::<Vec<_>>().join(" ")
}

fn iad(doc: &mut Doc, indent: usize, v: &[u8]) -> Result<(), Refusal> {
	let version = match v.get(1) {
		Some(0xA5) => "Triple DES (3DES)",
		Some(0xA6) => "AES",
		_ => return Err(Refusal::NonCcd),
	};
	if v.len() != 32 || v[0] != 15 || v[16] != 15 {
		return Err(Refusal::NonCcd);
	}
	doc.push(indent, &[(H, "Common Core Identifier:")]);
	draw_bits(
		doc,
		indent + 1,
		&v[1..2],
		&[
			Arm { high: 7, len: 4, text: "IAD Format Code: Format A".into(), sty: P },
			Arm { high: 3, len: 4, text: format!("Cryptogram Version: {version}"), sty: P },
		],
		true,
	);
	doc.push(indent, &[(H, "Derivation Key Index:"), (P, &format!(" 0x{:02X}", v[2]))]);
	doc.push(indent, &[(H, "Card Verification Results:")]);
	cvr(doc, indent + 1, &v[3..8])?;
	doc.push(indent, &[(H, "Counters: (Payment System-Specific)")]);
	doc.push(indent + 1, &[(P, &byte_line(&v[8..16]))]);
	doc.push(indent, &[(H, "Issuer-Discretionary Data")]);
	doc.push(indent + 1, &[(P, &byte_line(&v[17..32]))]);
	Ok(())
}

fn cv_method(b: u8) -> &'static str {
	match b & 0x3F {
		0x00 => "Fail CVM processing",
		0x01 => "Plaintext PIN verification performed by ICC",
		0x02 => "Enciphered PIN verified online",
		0x03 => "Plaintext PIN verification performed by ICC and signature (paper)",
		0x04 => "Enciphered PIN verification performed by ICC",
		0x05 => "Enciphered PIN verification performed by ICC and signature (paper)",
		0x1E => "Signature (paper)",
		0x1F => "No CVM required",
		0x3F => "No CVM performed",
		_ => "Unknown (likely issuer or payment system-specific)",
	}
}

fn cvm_condition(b: u8) -> &'static str {
	match b {
		0 => "Always",
		1 => "If unattended cash",
		2 => "If not unattended cash and not manual cash and not purchase with cashback",
		3 => "If terminal supports the CVM",
		4 => "If manual cash",
		5 => "If purchase with cashback",
		6 => "If transaction is in the application currency and is under X value",
		7 => "If transaction is in the application currency and is over X value",
		8 => "If transaction is in the application currency and is under Y value",
		9 => "If transaction is in the application currency and is over Y value",
		_ => "Unknown (likely payment system-specific)",
	}
}

fn cvm_results(doc: &mut Doc, indent: usize, v: &[u8]) -> Result<(), Refusal> {
	exactly(v, 3)?;
	let (outcome, sty) = match v[2] {
		0 => ("Unknown", P),
		1 => ("Failed", Sty::E),
		2 => ("Successful", P),
		_ => return Err(Refusal::NonCompliant),
	};
	let mut arms = Vec::new();
	if v[0] & 0x40 != 0 {
		arms.push(Arm {
			high: 22,
			len: 1,
			text: "Apply succeeding CV Rule if this CVM is unsuccessful".into(),
			sty: P,
		});
	}
	arms.push(Arm { high: 21, len: 6, text: format!("Method: {}", cv_method(v[0])), sty: P });
	arms.push(Arm { high: 15, len: 8, text: format!("Condition: {}", cvm_condition(v[1])), sty: P });
	arms.push(Arm { high: 7, len: 8, text: format!("Result: {outcome}"), sty });
	draw_bits(doc, indent, &[v[0] & 0x7F, v[1], v[2]], &arms, true);
	Ok(())
}

fn cvm_list(doc: &mut Doc, indent: usize, v: &[u8]) -> Result<(), Refusal> {
	if v.len() < 8 {
		return Err(Refusal::AtLeast(8, v.len()));
	}
	if v.len() % 2 != 0 {
		return Err(Refusal::NotDivisible);
	}
	let num = |b: &[u8]| b.iter().fold(0u64, |a, x| a * 256 + u64::from(*x)).to_string();
	let (x, y) = (num(&v[0..4]), num(&v[4..8]));
	let rules: Vec<&[u8]> = v[8..].chunks(2).collect();
	if x != "0" || y != "0" || rules.iter().any(|r| (6..=9).contains(&r[1])) {
		let width = x.len().max(y.len()).max(3);
		let pad = |n: &str| format!(" {}{n}", "0".repeat(width - n.len()));
		doc.push(indent, &[
			(H, "X Value:"),
			(P, &pad(&x)),
			(P, " (implicit decimal point based on application currency)"),
		]);
		doc.push(indent, &[(H, "Y Value:"), (P, &pad(&y))]);
	}
	doc.push(indent, &[(H, "Cardholder Verification Rules:")]);
	for (i, r) in rules.iter().enumerate() {
		doc.push(indent, &[(B, &format!("CVM {}:", i + 1))]);
		let next = if r[0] & 0x40 != 0 { "Next CVM" } else { "Fail" };
		for (k, t) in [
			("Method:         ", cv_method(r[0])),
			("Condition:      ", cvm_condition(r[1])),
			("If Unsuccessful:", next),
		] {
			doc.push(indent + 1, &[(B, k), (P, &format!(" {t}"))]);
		}
	}
	Ok(())
}

pub fn service_code(doc: &mut Doc, indent: usize, text: &str) -> Result<(), Refusal> {
	let t = text.trim();
	let digits = t.strip_prefix('+').unwrap_or(t);
	if digits.is_empty() || !digits.bytes().all(|b| b.is_ascii_digit()) {
		return Err(Refusal::InvalidNumber);
	}
	let significant = digits.trim_start_matches('0');
	if significant.len() > 3 {
		return Err(Refusal::InvalidNumber);
	}
	let d = format!("{significant:0>3}");
	let c: Vec<char> = d.chars().collect();
	let interchange = match c[0] {
		'1' | '2' => "International",
		'5' | '6' => "National",
		'7' => "Private",
		'9' => "Test",
		_ => "RFU",
	};
	let technology = match c[0] {
		'2' | '6' => "Integrated circuit card (ICC)",
		_ => "Magnetic stripe only (MSR)",
	};
	let authorisation = match c[1] {
		'0' => "Normal",
		'2' => "By issuer only (no offline authorisation)",
		'4' => "By issuer only unless an explicit bilateral agreement applies (no offline authorisation)",
		_ => "RFU",
	};
	let services = match c[2] {
		'0' | '1' | '6' => "No restrictions",
		'2' | '5' | '7' => "Goods and services only",
		'3' => "ATM only",
		'4' => "Cash only",
		_ => "RFU",
	};
	let pin = match c[2] {
		'0' | '3' | '5' => "PIN required",
		'6' | '7' => "Prompt for PIN if PIN pad is present",
		_ => "None",
	};
	doc.push(indent, &[(B, &d)]);
	for (arm, title, value) in [
		("││├ ", "Allowed Services:", services),
		("││└ ", "PIN Requirements:", pin),
		("│└─ ", "Authorisation Processing:", authorisation),
		("├── ", "Interchange:", interchange),
		("└── ", "Technology:", technology),
	] {
		doc.push(indent, &[(P, arm), (B, title), (P, &format!("{:w$}", "", w = 26 - title.len())), (P, value)]);
	}
	Ok(())
}

fn coded(doc: &mut Doc, indent: usize, v: &[u8], table: &[(u8, &str)]) -> Result<(), Refusal> {
	exactly(v, 1)?;
	let (_, t) = table.iter().find(|(c, _)| *c == v[0]).ok_or(Refusal::Unrecognised)?;
	doc.push(indent, &[(P, t)]);
	Ok(())
}

/// The interpretation of the value of a tag: the name to show, and the breakdown if there is one.
pub fn interpret(
	tag: &[u8],
	v: &[u8],
	indent: usize,
) -> Result<(Option<String>, Option<Doc>), Refusal> {
	let mut d = Doc::default();
	let name = name_of(tag);
	let unrec = |n: &str| format!("{n} (Unrecognised - likely payment system-specific)");
	match hex(tag).as_str() {
		"5F30" => {
			exactly(v, 2)?;
			service_code(&mut d, indent, &hex(v))?;
		}
		"8A" => {
			exactly(v, 2)?;
			let text = std::str::from_utf8(v).map_err(|_| Refusal::InvalidNumber)?;
			match tables::RESPONSE_CODES.iter().find(|(c, _)| *c == text) {
				Some((_, t)) => d.push(indent, &[(P, t)]),
				None => return Ok((Some(unrec(name.unwrap())), None)),
			}
		}
		"8E" => cvm_list(&mut d, indent, v)?,
		"95" => flags(&mut d, indent, v, 5, tables::TVR, true)?,
		"9B" => flags(&mut d, indent, v, 2, tables::TSI, true)?,
		"9C" => match coded(&mut d, indent, v, tables::TRANSACTION_TYPES) {
			Err(Refusal::Unrecognised) => return Ok((Some(unrec(name.unwrap())), None)),
			r => r?,
		},
		t @ ("9F0D" | "9F0E" | "9F0F") => {
			exactly(v, 5)?;
			d.push(indent, &[(H, match t {
				"9F0D" => "If not an online transaction and any of the following match the TVR, reject the transaction:",
				"9F0E" => "If any of the following match the TVR, deny the transaction without even going online:",
				_ => "If any of the following match the TVR, complete the transaction online:",
			})]);
			flags(&mut d, indent, v, 5, tables::TVR, false)?;
		}
		"9F10" => match iad(&mut d, indent, v) {
			Err(Refusal::NonCcd) => {
				return Ok((Some("Issuer Application Data (Not CCD-Compliant)".into()), None))
			}
			r => r?,
		},
		"9F33" => flags(&mut d, indent, v, 3, tables::TERM_CAPS, true)?,
		"9F34" => cvm_results(&mut d, indent, v)?,
		"9F35" => coded(&mut d, indent, v, tables::TERMINAL_TYPES)?,
		"9F39" => coded(&mut d, indent, v, tables::POS_ENTRY_MODES)?,
		"9F40" => flags(&mut d, indent, v, 5, tables::ADD_TERM_CAPS, true)?,
		_ => return Ok((name.map(str::to_owned), None)),
	}
	Ok((name.map(str::to_owned), Some(d)))
}

/// The tags whose value is interpreted.
pub const PARSED_TAGS: &[&str] = &[
	"5F30", "8A", "8E", "95", "9B", "9C", "9F0D", "9F0E", "9F0F", "9F10", "9F33", "9F34", "9F35",
	"9F39", "9F40",
];

// ---------------------------------------------------------------------------------------------
// Whole requests

fn check_nodes(nodes: &[Node]) -> Result<(), Refusal> {
	for n in nodes {
		if let Val::Bytes(v) = &n.val {
			interpret(&n.tag, v, 0)?;
		}
		check_nodes(&n.kids)?;
	}
	Ok(())
}

fn draw_nodes(doc: &mut Doc, indent: usize, nodes: &[Node]) {
	for (i, n) in nodes.iter().enumerate() {
		if i > 0 {
			doc.push(0, &[]);
		}
		let (name, parsed) = match &n.val {
			Val::Masked => (name_of(&n.tag).map(str::to_owned), None),
			Val::Bytes(v) => interpret(&n.tag, v, indent + 1).expect("checked before"),
		};
		let size = match &n.val {
			Val::Masked => "?? bytes".to_owned(),
			Val::Bytes(v) if v.len() == 1 => "1 byte".to_owned(),
			Val::Bytes(v) => format!("{} bytes", v.len()),
		};
		doc.push(indent, &[
			(H, "Tag:"),
			(P, " 0x"),
			(B, &hex(&n.tag)),
			(P, &format!(" - {size} - {}", name.as_deref().unwrap_or("<Unknown>"))),
		]);
		match &n.val {
			Val::Masked => doc.push(indent, &[(H, "* Masked *")]),
			Val::Bytes(v) if !v.is_empty() => {
				doc.push(indent, &[(H, "Raw:")]);
				for row in v.chunks(16) {
					let text: String = row
						.iter()
						.map(|b| if (32..127).contains(b) { char::from(*b) } else { '.' })
						.collect();
					doc.push(indent + 1, &[(P, &format!("{:<47}  {text}", byte_line(row)))]);
				}
			}
			Val::Bytes(_) => {}
		}
		if let Some(p) = parsed {
			doc.push(indent, &[(H, "Parsed:")]);
			doc.lines.extend(p.lines);
		}
		if !n.kids.is_empty() {
			doc.push(indent, &[(H, "Constructed Data Object's Child Tags:")]);
			draw_nodes(doc, indent + 1, &n.kids);
		}
	}
}

pub fn show_nodes(mut nodes: Vec<Node>, sort: bool) -> Result<Doc, Refusal> {
	check_nodes(&nodes)?;
	if sort {
		sort_nodes(&mut nodes);
	}
	let mut d = Doc::default();
	draw_nodes(&mut d, 0, &nodes);
	Ok(d)
}

fn identify(tag: &[u8]) -> Result<Doc, Refusal> {
	let Some(&b) = tag.first() else { return Err(Refusal::AtLeast(1, 0)) };
	let mut d = Doc::default();
	let class = ["Universal", "Application", "Context-Specific", "Private"][usize::from(b / 64)];
	let kind = if b & 32 == 0 { "Primitive" } else { "Constructed" };
	d.push(0, &[(H, "Name:"), (P, "             "), (P, name_of(tag).unwrap_or("<Unknown>"))]);
	d.push(0, &[(H, "Tag:"), (P, "              0x"), (B, &hex(tag))]);
	d.push(0, &[(H, "Class:"), (P, "            "), (P, class)]);
	d.push(0, &[(H, "Data Object Type:"), (P, " "), (P, kind)]);
	Ok(d)
}

/// What should be shown for an operation.
pub fn breakdown(op: Op, value: &str, set: &Settings) -> Result<Doc, Refusal> {
	let mut d = Doc::default();
	match op {
		Op::Tvr => flags(&mut d, 0, &read_hex(value)?, 5, tables::TVR, true)?,
		Op::Tsi => flags(&mut d, 0, &read_hex(value)?, 2, tables::TSI, true)?,
		Op::Iad => iad(&mut d, 0, &read_hex(value)?)?,
		Op::Cvr => cvr(&mut d, 0, &read_hex(value)?)?,
		Op::CvmResults => cvm_results(&mut d, 0, &read_hex(value)?)?,
		Op::CvmList => cvm_list(&mut d, 0, &read_hex(value)?)?,
		Op::Identify => d = identify(&read_hex(value)?)?,
		Op::ServiceCode => service_code(&mut d, 0, value)?,
		Op::Ber => d = show_nodes(ber(&read_hex(value)?, &set.masks, 0)?, set.sort)?,
		Op::Ingenico => d = show_nodes(ingenico(value, &set.masks)?, set.sort)?,
		Op::Auto => {
			if value.chars().filter(char::is_ascii_hexdigit).count() < 2 {
				return Err(Refusal::Unrecognised);
			}
			let (name, nodes) = if let Ok(n) = ingenico(value, &set.masks) {
				("Ingenico", n)
			} else if let Ok(n) = read_hex(value).and_then(|b| ber(&b, &set.masks, 0)) {
				("BER-TLV", n)
			} else {
				return Err(Refusal::Unrecognised);
			};
			d.push(0, &[(H, "TLV Format: "), (P, name)]);
			d.push(0, &[]);
			d.lines.extend(show_nodes(nodes, set.sort)?.lines);
		}
	}
	Ok(d)
}
