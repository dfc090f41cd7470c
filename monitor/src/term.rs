//! Interprets the colour codes of an output.

#[derive(Clone, Copy, PartialEq, Eq, Debug, Default)]
pub struct Look {
	pub bold: bool,
	/// The colour number, 0: none
	pub fg:   u32,
}

pub struct Screen {
	/// The text without the codes
	pub plain: Vec<u8>,
	/// How each of its bytes looks
	pub look:  Vec<Look>,
	/// How the next byte would look
	pub last:  Look,
	pub codes: usize,
	/// The line (from 0) at which a colour of the line before goes on
	pub over:  Option<usize>,
}

/// Fails on anything that is not a colour code.
pub fn interpret(bytes: &[u8]) -> Result<Screen, String> {
	let mut s = Screen { plain: Vec::new(), look: Vec::new(), last: Look::default(), codes: 0, over: None };
	let (mut line, mut fresh) = (0, false);
	let mut i = 0;
	while i < bytes.len() {
		if bytes[i] != 0x1B {
			if fresh && s.last != Look::default() && s.over.is_none() {
				s.over = Some(line);
			}
			fresh = bytes[i] == b'\n';
			line += usize::from(fresh);
			s.plain.push(bytes[i]);
			s.look.push(s.last);
			i += 1;
			continue;
		}
		let rest = &bytes[i..];
		let end = rest.iter().position(|b| b.is_ascii_alphabetic());
		match end {
			Some(e) if rest.get(1) == Some(&b'[') && rest[e] == b'm' => {
				let body = std::str::from_utf8(&rest[2..e]).map_err(|_| "bad code".to_owned())?;
				for p in body.split(';') {
					match p {
						"" | "0" => s.last = Look::default(),
						"1" => s.last.bold = true,
						"22" => s.last.bold = false,
						"39" => s.last.fg = 0,
						p => match p.parse::<u32>() {
							Ok(n @ (30..=37 | 90..=97)) => s.last.fg = n,
							_ => return Err(format!("the control code {body:?} is no plain colour code")),
						},
					}
				}
				s.codes += 1;
				fresh = false;
				i += e + 1;
			}
			_ => return Err(format!("an unknown control sequence at byte {i}")),
		}
	}
	Ok(s)
}

pub const RED: u32 = 31;
pub const YELLOW: u32 = 33;
pub const CYAN: u32 = 36;
