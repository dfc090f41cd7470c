//! Reads displayed text back into a structure.
//!
//! It is lenient: what it cannot place is kept as stray lines, so that different aspects of an
//! output can be judged on their own.

#[derive(Clone, Default, Debug, PartialEq, Eq)]
pub struct VNode {
	/// As hex
	pub tag:    String,
	/// "5 bytes"
	pub size:   String,
	pub name:   String,
	pub masked: bool,
	/// Without the indentation
	pub raw:    Option<Vec<String>>,
	pub parsed: Option<Vec<String>>,
	pub kids:   Option<Vec<VNode>>,
	pub stray:  Vec<String>,
}

#[derive(Clone, Default, Debug, PartialEq, Eq)]
pub struct View {
	pub format: Option<String>,
	pub nodes:  Vec<VNode>,
	pub stray:  Vec<String>,
}

const CHILDREN: &str = "Constructed Data Object's Child Tags:";

fn tabs(l: &str) -> usize {
	l.len() - l.trim_start_matches('\t').len()
}

impl View {
	pub fn parse(text: &str) -> View {
		let lines: Vec<&str> = text.lines().collect();
		let mut v = View::default();
		let mut pos = 0;
		if let Some(f) = lines.first().and_then(|l| l.strip_prefix("TLV Format: ")) {
			v.format = Some(f.to_owned());
			pos = 1;
		}
		while pos < lines.len() {
			let before = pos;
			let (nodes, stray) = nodes(&lines, &mut pos, 0);
			v.nodes.extend(nodes);
			v.stray.extend(stray);
			if pos == before {
				if !lines[pos].is_empty() {
					v.stray.push(lines[pos].to_owned());
				}
				pos += 1;
			}
		}
		v
	}
	pub fn walk<'a>(&'a self, f: &mut dyn FnMut(usize, &'a VNode)) {
		fn go<'a>(ns: &'a [VNode], d: usize, f: &mut dyn FnMut(usize, &'a VNode)) {
			for n in ns {
				f(d, n);
				go(n.kids(), d + 1, f);
			}
		}
		go(&self.nodes, 0, f);
	}
	/// One line per tag, with its depth.
	pub fn project(&self, f: impl Fn(&VNode) -> String) -> String {
		let mut s = String::new();
		self.walk(&mut |d, n| {
			s.push_str(&format!("{}{}{}\n", "  ".repeat(d), f(n), if n.kids.as_ref().is_some_and(Vec::is_empty) {
				" (empty children)"
			} else {
				""
			}));
			for x in &n.stray {
				s.push_str(&format!("{}stray: {x}\n", "  ".repeat(d)));
			}
		});
		for x in &self.stray {
			s.push_str(&format!("stray: {x}\n"));
		}
		s
	}
	pub fn count(&self) -> u64 {
		let mut n = 0;
		self.walk(&mut |_, _| n += 1);
		n
	}
}

fn nodes(lines: &[&str], pos: &mut usize, level: usize) -> (Vec<VNode>, Vec<String>) {
	let mut out = Vec::new();
	let mut stray = Vec::new();
	loop {
		let mut p = *pos;
		while p < lines.len() && lines[p].is_empty() {
			p += 1;
		}
		if p >= lines.len() {
			*pos = p;
			break;
		}
		let t = tabs(lines[p]);
		if t < level {
			break;
		}
		*pos = p;
		let l = &lines[p][t..];
		if t == level && l.starts_with("Tag: 0x") {
			out.push(node(lines, pos, level));
		} else {
			stray.push(lines[p].to_owned());
			*pos += 1;
		}
	}
	(out, stray)
}

fn block(lines: &[&str], pos: &mut usize, level: usize) -> Vec<String> {
	let mut b = Vec::new();
	while *pos < lines.len() && tabs(lines[*pos]) > level {
		b.push(lines[*pos][level + 1..].to_owned());
		*pos += 1;
	}
	b
}

fn node(lines: &[&str], pos: &mut usize, level: usize) -> VNode {
	let mut n = VNode::default();
	let head = lines[*pos][level..].strip_prefix("Tag: 0x").unwrap_or("");
	*pos += 1;
	let mut parts = head.splitn(3, " - ");
	n.tag = parts.next().unwrap_or("").to_owned();
	n.size = parts.next().unwrap_or("").to_owned();
	n.name = parts.next().unwrap_or("").to_owned();
	while *pos < lines.len() {
		let l = lines[*pos];
		if l.is_empty() || tabs(l) != level {
			if l.is_empty() || tabs(l) < level {
				break;
			}
			n.stray.push(l.to_owned());
			*pos += 1;
			continue;
		}
		match &l[level..] {
			"* Masked *" if !n.masked => {
				n.masked = true;
				*pos += 1;
			}
			"Raw:" if n.raw.is_none() => {
				*pos += 1;
				n.raw = Some(block(lines, pos, level));
			}
			"Parsed:" if n.parsed.is_none() => {
				*pos += 1;
				n.parsed = Some(block(lines, pos, level));
			}
			CHILDREN if n.kids.is_none() => {
				*pos += 1;
				let (k, s) = nodes(lines, pos, level + 1);
				n.kids = Some(k);
				n.stray.extend(s);
			}
			x if x.starts_with("Tag: 0x") => break,
			x => {
				n.stray.push(x.to_owned());
				*pos += 1;
			}
		}
	}
	n
}

impl VNode {
	pub fn kids(&self) -> &[VNode] {
		self.kids.as_deref().unwrap_or(&[])
	}
	/// The bytes of the raw section, as far as they can be read; the hex text otherwise.
	pub fn raw_hex(&self) -> String {
		match &self.raw {
			None => String::new(),
			Some(rows) => {
				let mut s = String::new();
				for r in rows {
					let h: String = r.chars().take(47).collect();
					s.extend(h.chars().filter(|c| *c != ' '));
				}
				s
			}
		}
	}
	/// Everything that is shown about this tag, independent of where it stands.
	pub fn full(&self) -> String {
		let mut s = String::new();
		self.write(&mut s, 0);
		s
	}
	fn write(&self, s: &mut String, d: usize) {
		let ind = "\t".repeat(d);
		s.push_str(&format!("{ind}Tag: 0x{} - {} - {}\n", self.tag, self.size, self.name));
		if self.masked {
			s.push_str(&format!("{ind}* Masked *\n"));
		}
		for (k, b) in [("Raw:", &self.raw), ("Parsed:", &self.parsed)] {
			if let Some(b) = b {
				s.push_str(&format!("{ind}{k}\n"));
				for l in b {
					s.push_str(&format!("{ind}\t{l}\n"));
				}
			}
		}
		if let Some(k) = &self.kids {
			s.push_str(&format!("{ind}{CHILDREN}\n"));
			for n in k {
				n.write(s, d + 1);
			}
		}
		for l in &self.stray {
			s.push_str(&format!("{ind}stray: {l}\n"));
		}
	}
}

/// The aspects of a displayed tag.
pub mod aspect {
	use super::VNode;
	/// Which tag, how many bytes and which ones.
	pub fn structure(n: &VNode) -> String {
		format!("{} {} {}{}", n.tag, n.size, if n.masked { "masked " } else { "" }, n.raw_hex())
	}
	pub fn shown(n: &VNode) -> String {
		format!("{} parsed={}", structure(n), n.parsed.is_some())
	}
	pub fn all(n: &VNode) -> String {
		let mut m = n.clone();
		m.kids = None;
		m.stray.clear();
		m.full()
	}
}
