//! The interpretation of single values.

use std::collections::BTreeSet;

use super::{accepted, difference, judge, lines};
use crate::{
	ctx::Ctx,
	exec::{Req, Res},
	gen::{self, Request},
	hexu::{hex, unhex},
	model::{self, tables, Doc, Op, Refusal, Sty},
	rng::Rng,
	term,
	view::{aspect, View, VNode},
};

type Item = (Vec<u8>, Vec<u8>);

/// What the model says about one tag and value (without indentation).
fn expected(i: &Item) -> Result<(Option<String>, Option<Doc>), Refusal> {
	model::interpret(&i.0, &i.1, 0)
}

/// Gives many tags at once, and one at a time if that's refused. `each` gets the request, its
/// result, and the tag as shown (or none if it is refused alone).
fn batch(ctx: &Ctx, r: &mut Rng, items: &[Item], each: &mut dyn FnMut(&Req, &Res, &Item, Option<&VNode>)) {
	let (op, value) = match r.below(3) {
		0 => (Op::Ingenico, gen::ingenico_hex(items)),
		n => {
			let mut b: Vec<u8> = items.iter().flat_map(|(t, v)| gen::object_plain(t, v)).collect();
			if n == 1 {
				for _ in 0..r.range(1, 3) {
					b = gen::object_plain(&[0x70], &b);
				}
			}
			(Op::Ber, hex(&b))
		}
	};
	if value.len() > gen::MAX_VALUE {
		let (a, b) = items.split_at(items.len() / 2);
		batch(ctx, r, a, each);
		batch(ctx, r, b, each);
		return;
	}
	let q = Request::new(op, value).sort(false);
	let req = q.req();
	let res = ctx.run(&req);
	let view = View::parse(&res.text());
	let mut nodes: &[VNode] = &view.nodes;
	while nodes.len() == 1 && nodes[0].tag == "70" {
		nodes = nodes[0].kids();
	}
	let fits = accepted(&res)
		&& nodes.len() == items.len()
		&& nodes.iter().zip(items).all(|(n, i)| n.tag == hex(&i.0) && n.raw_hex() == hex(&i.1));
	if fits {
		for (n, i) in nodes.iter().zip(items) {
			each(&req, &res, i, Some(n));
		}
		ctx.events("tags judged", items.len() as u64);
		return;
	}
	if items.len() > 1 {
		let (a, b) = items.split_at(items.len() / 2);
		if !ctx.stopped() {
			batch(ctx, r, a, each);
		}
		if !ctx.stopped() {
			batch(ctx, r, b, each);
		}
		return;
	}
	ctx.events("tags judged", 1);
	if accepted(&res) {
		match nodes {
			[n] => each(&req, &res, &items[0], Some(n)),
			_ => ctx.event("shown in a way other properties are about"),
		}
	} else {
		each(&req, &res, &items[0], None);
	}
}

/// Judges the interpretation of many values in one aspect.
fn judge_parsed(
	ctx: &Ctx,
	r: &mut Rng,
	items: &[Item],
	aspect: &dyn Fn(&[String]) -> String,
	name_too: bool,
) {
	// Masked values aren't interpreted at all
	let items: Vec<Item> = items.iter().filter(|i| !model::bytes_masked(&i.1, &['*'])).cloned().collect();
	for part in items.chunks(400) {
		if ctx.stopped() {
			return;
		}
		batch(ctx, r, part, &mut |req, res, item, node| match (expected(item), node) {
			(Ok((name, d)), Some(n)) => {
				let want = d.as_ref().map(|d| aspect(&lines(d)));
				let got = n.parsed.as_ref().map(|p| aspect(p));
				let name = name.unwrap_or_else(|| "<Unknown>".into());
				if got != want {
					ctx.violation(
						&format!(
							"The value {} of tag {} is not explained as it should be: {}",
							hex(&item.1),
							hex(&item.0),
							difference(
								&got.unwrap_or_else(|| "no interpretation".into()),
								&want.unwrap_or_else(|| "no interpretation".into())
							)
						),
						&[(req, res)],
						&d.map_or("no interpretation".into(), |d| d.text()),
					);
				} else if name_too && n.name != name {
					ctx.violation(
						&format!("The tag {} with value {} is labelled '{}'", hex(&item.0), hex(&item.1), n.name),
						&[(req, res)],
						&name,
					);
				}
			}
			(Err(_), None) => ctx.event("refused"),
			(Ok(_), None) => ctx.violation(
				&format!("The value {} of tag {} was refused", hex(&item.1), hex(&item.0)),
				&[(req, res)],
				"an interpretation",
			),
			(Err(e), Some(_)) => ctx.violation(
				&format!("The value {} of tag {} was not refused", hex(&item.1), hex(&item.0)),
				&[(req, res)],
				&e.message(),
			),
		});
	}
}

/// Judges values that follow others that are much like them: what was explained before must not
/// matter.
fn one_after_another(ctx: &Ctx, tags: &'static [&'static str], aspect: &'static (dyn Fn(&[String]) -> String + Sync), name_too: bool) {
	ctx.many("one after another", ctx.size(900, 20_000), move |ctx, r, _| {
		let n = r.range(2, 14);
		let mut items: Vec<Item> = Vec::new();
		for _ in 0..n * 4 {
			if items.len() == n {
				break;
			}
			let tag = unhex(r.pick(tags));
			let near: Vec<Vec<u8>> = items.iter().filter(|i| expected(&(tag.clone(), i.1.clone())).is_ok()).map(|i| i.1.clone()).collect();
			let mut v = if near.is_empty() || r.one_in(4) { gen::good_value(r, &tag) } else { r.pick(&near).clone() };
			if !v.is_empty() {
				let at = r.below(v.len());
				match r.below(5) {
					0 => (),
					1 => v[at] ^= 1 << r.below(8),
					2 => v[at] = (v[at] & 0xF0) | r.below(16) as u8,
					3 => v[at] = (v[at] & 0x0F) | (r.below(16) as u8) << 4,
					_ => v[at] = r.byte(),
				}
			}
			if expected(&(tag.clone(), v.clone())).is_ok() {
				items.push((tag, v));
			}
		}
		ctx.events("values after others like them", items.len() as u64);
		judge_parsed(ctx, r, &items, aspect, name_too);
	});
	ctx.require("values after others like them", 2000);
}

fn everything(l: &[String]) -> String {
	l.join("\n")
}

// ---------------------------------------------------------------------------------------------
// Tags

pub fn c30(ctx: &Ctx) {
	// Names are distinct to begin with
	let names: BTreeSet<_> = tables::DICTIONARY.iter().map(|d| d.1).collect();
	ctx.events("names in the dictionary", names.len() as u64);
	let mut tags: Vec<Vec<u8>> = Vec::new();
	for a in 0..=255u8 {
		tags.push(vec![a]);
	}
	for a in 0..=255u8 {
		for b in 0..=255u8 {
			tags.push(vec![a, b]);
		}
	}
	let known: Vec<Vec<u8>> = tables::DICTIONARY.iter().map(|d| unhex(d.0)).collect();
	for k in &known {
		tags.push(k.clone());
		for bit in 0..k.len() * 8 {
			let mut t = k.clone();
			t[bit / 8] ^= 1 << (bit % 8);
			tags.push(t);
		}
		for x in [0, 1, 0x7F, 0x80, 0xFF] {
			let mut t = k.clone();
			t.push(x);
			tags.push(t.clone());
			t.rotate_right(1);
			tags.push(t);
		}
		if k.len() > 1 {
			tags.push(k[1..].to_vec());
			tags.push(k[..k.len() - 1].to_vec());
		}
		let mut t = k.clone();
		t.reverse();
		tags.push(t);
	}
	// In Ingenico data any bytes can be a tag (except for leading zeroes)
	let blocks: Vec<Vec<Vec<u8>>> =
		tags.iter().filter(|t| t[0] != 0 || t.len() == 1).cloned().collect::<Vec<_>>().chunks(700).map(<[_]>::to_vec).collect();
	ctx.many("in Ingenico data", blocks.len() as u64, |ctx, r, i| {
		in_tlv(ctx, r, &blocks[i as usize], Op::Ingenico);
	});
	// In BER-TLV data those that are tags there
	let ber: Vec<Vec<Vec<u8>>> = tags
		.iter()
		.filter(|t| gen::well_formed_tag(t))
		.cloned()
		.collect::<Vec<_>>()
		.chunks(700)
		.map(<[_]>::to_vec)
		.collect();
	ctx.many("in BER-TLV data", ber.len() as u64, |ctx, r, i| {
		in_tlv(ctx, r, &ber[i as usize], if i % 3 == 0 { Op::Auto } else { Op::Ber });
	});
	// Identified one by one
	let single: Vec<&Vec<u8>> = if ctx.quick() {
		tags.iter().enumerate().filter(|(i, t)| *i < 256 || t.len() != 2 || (*i * 7919) % 23 == 0 || *i >= 65_792).map(|x| x.1).collect()
	} else {
		tags.iter().collect()
	};
	ctx.many("identified", single.len() as u64, |ctx, _, i| {
		identify(ctx, single[i as usize]);
	});
	ctx.many("others", ctx.size(2500, 30_000), |ctx, r, i| {
		let t = if i % 2 == 0 {
			gen::any_tag(r)
		} else {
			let n = r.range(1, 12);
			r.bytes(n)
		};
		identify(ctx, &t);
	});
	ctx.require("tags named in TLV data", 20_000);
	ctx.require("tags identified", 1000);
}

fn identify(ctx: &Ctx, t: &[u8]) {
	let req = Request::new(Op::Identify, hex(t)).req();
	let res = ctx.run(&req);
	let class = match t[0] >> 6 {
		0 => "Universal",
		1 => "Application",
		2 => "Context-Specific",
		_ => "Private",
	};
	let kind = if t[0] & 0b0010_0000 == 0 { "Primitive" } else { "Constructed" };
	let name = model::name_of(t).unwrap_or("<Unknown>");
	let text = res.text();
	let value = |key: &str| {
		text.lines().find_map(|l| l.strip_prefix(key)).map(|v| v.trim().to_owned()).unwrap_or_default()
	};
	let got = [value("Name:"), value("Tag:"), value("Class:"), value("Data Object Type:")];
	let want = [name.to_owned(), format!("0x{}", hex(t)), class.to_owned(), kind.to_owned()];
	if accepted(&res) && got == want {
		ctx.event("tags identified");
		if name != "<Unknown>" {
			ctx.event("known tags identified");
		}
	} else {
		ctx.violation(
			&format!("The tag {} is identified as {got:?}", hex(t)),
			&[(&req, &res)],
			&format!("{want:?}"),
		);
	}
}

fn in_tlv(ctx: &Ctx, r: &mut Rng, tags: &[Vec<u8>], op: Op) {
	let items: Vec<Item> = tags
		.iter()
		.map(|t| {
			// Values that leave the name alone
			let v = if gen::is_parsed(t) {
				loop {
					let v = gen::good_value(r, t);
					if expected(&(t.clone(), v.clone())).is_ok_and(|(n, _)| n.as_deref() == model::name_of(t)) {
						break v;
					}
				}
			} else if t[0] & 0x20 != 0 {
				Vec::new()
			} else {
				let n = r.below(3);
				r.bytes(n).iter().map(|b| b | 0x80).collect()
			};
			(t.clone(), v)
		})
		.collect();
	let value = if op == Op::Ingenico {
		gen::ingenico_hex(&items)
	} else {
		hex(&items.iter().flat_map(|(t, v)| gen::object_plain(t, v)).collect::<Vec<_>>())
	};
	let q = Request::new(op, value).sort(false);
	let req = q.req();
	let res = ctx.run(&req);
	let view = View::parse(&res.text());
	if !accepted(&res) || view.nodes.len() != tags.len() {
		if tags.len() > 1 {
			let (a, b) = tags.split_at(tags.len() / 2);
			in_tlv(ctx, r, a, op);
			in_tlv(ctx, r, b, op);
		} else {
			ctx.violation("A tag was not shown", &[(&req, &res)], "the tag and its name");
		}
		return;
	}
	for (n, t) in view.nodes.iter().zip(tags) {
		let want = model::name_of(t).unwrap_or("<Unknown>");
		if n.name == want && n.tag == hex(t) {
			continue;
		}
		ctx.violation(
			&format!("The tag {} is called '{}' (shown as {})", hex(t), n.name, n.tag),
			&[(&req, &res)],
			want,
		);
		return;
	}
	ctx.events("tags named in TLV data", tags.len() as u64);
}

// ---------------------------------------------------------------------------------------------
// Bit fields

/// A bit breakdown taken apart.
#[derive(Debug, Clone, PartialEq, Eq)]
struct Bits {
	/// Lines before it
	head:   Vec<String>,
	binary: String,
	/// The column and text of each explanation, in order
	arms:   Vec<(usize, String)>,
	/// All lines from the binary line on
	rows:   Vec<Vec<char>>,
}

fn is_binary(l: &str) -> bool {
	!l.is_empty() && l.chars().all(|c| "01 ".contains(c)) && l.contains(['0', '1'])
}

/// All the bit breakdowns in an interpretation. Lines in between are the head of the next.
fn bits(all: &[String]) -> Vec<Bits> {
	let mut out: Vec<Bits> = Vec::new();
	let mut head = Vec::new();
	let mut i = 0;
	while i < all.len() {
		// Nested ones are indented
		let ind = all[i].len() - all[i].trim_start_matches('\t').len();
		let l = &all[i][ind..];
		if !is_binary(l) {
			head.push(all[i].clone());
			i += 1;
			continue;
		}
		let mut b = Bits {
			head:   std::mem::take(&mut head),
			binary: l.to_owned(),
			arms:   Vec::new(),
			rows:   vec![l.chars().collect()],
		};
		i += 1;
		while i < all.len() {
			let t = all[i].len() - all[i].trim_start_matches('\t').len();
			let l = &all[i][t..];
			let drawn = l.trim_start().starts_with(['│', '├', '└', '─', '┘']);
			if t != ind || !drawn {
				break;
			}
			let row: Vec<char> = l.chars().collect();
			if let Some(c) = row.iter().position(|x| *x == '└') {
				let text: String = row[c + 1..].iter().collect();
				b.arms.push((c, text.trim_start().to_owned()));
			}
			b.rows.push(row);
			i += 1;
		}
		out.push(b);
	}
	if !head.is_empty() {
		out.push(Bits { head, binary: String::new(), arms: Vec::new(), rows: Vec::new() });
	}
	out
}

/// What is said, without where it's drawn.
fn meaning(l: &[String]) -> String {
	let mut s = String::new();
	for b in bits(l) {
		for h in &b.head {
			s.push_str(&format!("{h}\n"));
		}
		s.push_str(&format!("{}\n", b.binary));
		let mut t: Vec<_> = b.arms.iter().map(|a| a.1.clone()).collect();
		t.sort();
		for x in t {
			s.push_str(&format!("- {x}\n"));
		}
	}
	s
}

const FLAG_TAGS: &[(&str, usize)] =
	&[("95", 5), ("9B", 2), ("9F33", 3), ("9F40", 5), ("9F0D", 5), ("9F0E", 5), ("9F0F", 5)];

/// Every interesting value of a flag field.
fn flag_values(r: &mut Rng, n: usize, random: usize) -> Vec<Vec<u8>> {
	let mut v = vec![vec![0; n], vec![0xFF; n]];
	for a in 0..n * 8 {
		let mut x = vec![0; n];
		x[a / 8] |= 1 << (a % 8);
		v.push(x.clone());
		v.push(x.iter().map(|b| !b).collect());
		for b in 0..a {
			let mut y = x.clone();
			y[b / 8] |= 1 << (b % 8);
			v.push(y);
		}
	}
	for byte in 0..n {
		for b in 0..=255u8 {
			let mut x = vec![0; n];
			x[byte] = b;
			v.push(x.clone());
			let mut y = r.bytes(n);
			y[byte] = b;
			v.push(y);
		}
	}
	v.extend((0..random).map(|_| gen::flag_bytes(r, n)));
	v
}

pub fn c40(ctx: &Ctx) {
	one_after_another(ctx, &["95", "9B", "9F0D", "9F0E", "9F0F", "9F33", "9F40"], &meaning, false);
	let random = ctx.size(1500, 40_000) as usize;
	for (tag, n) in FLAG_TAGS {
		let tag = unhex(tag);
		let mut all = flag_values(&mut Rng::new(ctx.seed, "values", u64::from(tag[tag.len() - 1])), *n, random);
		if *n == 2 {
			// Few enough for all of them
			all = (0..=u16::MAX).map(|x| x.to_be_bytes().to_vec()).collect();
		}
		if *n == 3 && !ctx.quick() {
			all.extend((0..1 << 18).map(|x: u32| (x * 64 + 1).to_be_bytes()[1..].to_vec()));
		}
		let parts: Vec<Vec<Item>> =
			all.chunks(400).map(|c| c.iter().map(|v| (tag.clone(), v.clone())).collect()).collect();
		ctx.many(&hex(&tag), parts.len() as u64, |ctx, r, i| {
			judge_parsed(ctx, r, &parts[i as usize], &meaning, false);
		});
	}
	ctx.many("alone", ctx.size(2500, 40_000), |ctx, r, i| {
		let (op, n, tag) = if i % 2 == 0 { (Op::Tvr, 5, "95") } else { (Op::Tsi, 2, "9B") };
		let v = match i / 2 {
			k if (k as usize) < n * 8 => {
				let mut v = vec![0; n];
				v[k as usize / 8] = 1 << (k % 8);
				v
			}
			_ => gen::flag_bytes(r, n),
		};
		let req = Request::new(op, hex(&v)).req();
		let res = ctx.run(&req);
		let want = expected(&(unhex(tag), v)).ok().and_then(|e| e.1).unwrap_or_default();
		let got: Vec<String> = res.text().lines().map(str::to_owned).collect();
		if accepted(&res) && meaning(&got) == meaning(&lines(&want)) {
			ctx.event("explained exactly, alone");
		} else {
			ctx.violation(
				&format!("Not explained as it should be: {}", difference(&meaning(&got), &meaning(&lines(&want)))),
				&[(&req, &res)],
				&want.text(),
			);
		}
	});
	ctx.require("tags judged", 20_000);
	ctx.require("explained exactly, alone", 200);
}

pub fn c41(ctx: &Ctx) {
	one_after_another(ctx, &["9F10"], &meaning, true);
	let tag = unhex("9F10");
	// Each byte of the layout with each value
	ctx.many("bytes", 32, |ctx, r, i| {
		let mut items = Vec::new();
		for b in 0..=255u8 {
			for _ in 0..2 {
				let mut v = gen::ccd_iad(r);
				v[i as usize] = b;
				items.push((tag.clone(), v));
			}
		}
		judge_parsed(ctx, r, &items, &meaning, true);
	});
	ctx.many("random", ctx.size(60, 1500), |ctx, r, _| {
		let items: Vec<Item> = (0..200)
			.map(|_| {
				let mut v = gen::ccd_iad(r);
				match r.below(8) {
					0 => {
						v.truncate(r.below(32));
					}
					1 => {
						let n = r.range(1, 40);
						v.extend(r.bytes(n));
					}
					2 => {
						// Lengths that say the same in another place
						let i = *r.pick(&[0, 16]);
						v[i] = *r.pick(&[0, 14, 16, 31, 32, 255]);
					}
					3 => v[1] = *r.pick(&[0xA4, 0xA7, 0xA0, 0xAF, 0xB5, 0xB6, 0x95, 0x05, 0x06, 0xA5, 0xA6]),
					4 => {
						// Shifted or with pieces exchanged
						let n = r.range(1, 31);
						v.rotate_left(n);
					}
					_ => {}
				}
				(tag.clone(), v)
			})
			.collect();
		judge_parsed(ctx, r, &items, &meaning, true);
	});
	// All sizes
	ctx.many("sizes", 80, |ctx, r, i| {
		let mut v = gen::ccd_iad(r);
		v.resize(i as usize, 0);
		judge_parsed(ctx, r, &[(tag.clone(), v.clone())], &meaning, true);
		alone(ctx, Op::Iad, &v);
	});
	ctx.many("alone", ctx.size(3000, 50_000), |ctx, r, i| {
		if i % 3 == 0 {
			let mut v = gen::ccd_iad(r);
			if r.one_in(3) {
				let k = *r.pick(&[0, 1, 16]);
				v[k] = r.byte();
			}
			alone(ctx, Op::Iad, &v);
		} else {
			let mut v = gen::flag_bytes(r, 5);
			if r.one_in(12) {
				v.truncate(r.below(5));
			}
			alone(ctx, Op::Cvr, &v);
		}
	});
	// The verification results with every value of each byte
	ctx.many("results", 5 * 256, |ctx, r, i| {
		let mut v = if r.bool() { vec![0; 5] } else { r.bytes(5) };
		v[i as usize / 256] = (i % 256) as u8;
		alone(ctx, Op::Cvr, &v);
	});
	ctx.require("tags judged", 10_000);
	ctx.require("explained exactly, alone", 500);
	ctx.require("refused, alone", 50);
}

/// Judges the meaning of a value under its own option.
fn alone(ctx: &Ctx, op: Op, v: &[u8]) {
	let q = Request::new(op, format!("-{}", hex(v)));
	let req = q.req();
	let res = ctx.run(&req);
	match q.wanted() {
		Ok(d) => {
			let got: Vec<String> = res.text().lines().map(str::to_owned).collect();
			if accepted(&res) && meaning(&got) == meaning(&lines(&d)) {
				ctx.event("explained exactly, alone");
			} else {
				ctx.violation(
					&format!("Not explained as it should be: {}", difference(&meaning(&got), &meaning(&lines(&d)))),
					&[(&req, &res)],
					&d.text(),
				);
			}
		}
		Err(e) => {
			if res.refused() {
				ctx.event("refused, alone");
			} else {
				ctx.violation("A value that should be refused was not", &[(&req, &res)], &e.message());
			}
		}
	}
}

/// Whether a drawing is right in itself: connectors are unbroken and end at bits, and the order
/// is from right to left.
fn drawn_well(b: &Bits) -> Result<(), String> {
	let binary = &b.rows[0];
	let at = |row: usize, col: usize| b.rows[row].get(col).copied().unwrap_or(' ');
	let first_arm = b.rows.iter().position(|r| r.contains(&'└')).unwrap_or(b.rows.len());
	if first_arm > 2 {
		return Err("more than one line between the bits and the explanations".into());
	}
	let mut last = usize::MAX;
	for (k, (col, text)) in b.arms.iter().enumerate() {
		let row = first_arm + k;
		if at(row, *col) != '└' {
			return Err(format!("a line without explanation above '{text}'"));
		}
		if *col >= last {
			return Err(format!("'{text}' is not to the left of the one before"));
		}
		last = *col;
		if !matches!(binary.get(*col), Some('0' | '1')) {
			return Err(format!("'{text}' does not hang from a bit"));
		}
		for r in 1..row {
			if !matches!(at(r, *col), '│' | '├') {
				return Err(format!("the connector of '{text}' is broken"));
			}
		}
		// Before it, only connectors of what's still to come
		let want: Vec<usize> = b.arms[k + 1..].iter().map(|a| a.0).collect();
		for c in 0..*col {
			let is = at(row, c);
			let should = if want.contains(&c) { '│' } else { ' ' };
			if is != should {
				return Err(format!("'{is}' instead of '{should}' in column {c} before '{text}'"));
			}
		}
	}
	// The bracket line
	if first_arm == 2 {
		let row = &b.rows[1];
		let mut c = 0;
		while c < row.len() {
			match row[c] {
				' ' => c += 1,
				'│' => {
					if !b.arms.iter().any(|a| a.0 == c) {
						return Err(format!("a connector without explanation in column {c}"));
					}
					c += 1;
				}
				'├' => {
					if !b.arms.iter().any(|a| a.0 == c) {
						return Err(format!("a bracket without explanation in column {c}"));
					}
					let end = row[c..].iter().position(|x| *x == '┘').ok_or("an open bracket")? + c;
					if row[c + 1..end].iter().any(|x| *x != '─') {
						return Err(format!("a broken bracket in column {c}"));
					}
					if !matches!(binary.get(end), Some('0' | '1')) {
						return Err("a bracket that does not end at a bit".into());
					}
					c = end + 1;
				}
				x => return Err(format!("'{x}' in the bracket line")),
			}
		}
	}
	Ok(())
}

pub fn c42(ctx: &Ctx) {
	let draw = |ctx: &Ctx, req: &Req, res: &Res, got: &[String], want: &[String]| {
		let (g, w) = (bits(got), bits(want));
		for b in g.iter().filter(|b| !b.rows.is_empty()) {
			if let Err(e) = drawn_well(b) {
				ctx.violation(&format!("A breakdown is drawn badly: {e}"), &[(req, res)], &want.join("\n"));
				return;
			}
			ctx.event("drawings that are consistent in themselves");
		}
		if meaning(got) != meaning(want) {
			// What is said is for other properties; where it's said can still be judged
			for (a, b) in g.iter().zip(&w) {
				for (col, text) in &a.arms {
					let same: Vec<_> = b.arms.iter().filter(|x| x.1 == *text).collect();
					if same.len() == 1 && a.arms.iter().filter(|x| x.1 == *text).count() == 1 && same[0].0 != *col && a.binary == b.binary {
						ctx.violation(&format!("'{text}' hangs from the wrong bit"), &[(req, res)], &want.join("\n"));
						return;
					}
				}
			}
			ctx.event("different in an aspect other properties are about");
			return;
		}
		let rows = |x: &[Bits]| {
			x.iter()
				.flat_map(|b| b.rows.iter().map(|r| r.iter().collect::<String>().trim_end().to_owned()))
				.collect::<Vec<_>>()
				.join("\n")
		};
		if rows(&g) == rows(&w) {
			ctx.event("drawings exactly as they should be");
		} else {
			ctx.violation(
				&format!("A breakdown is drawn wrongly: {}", difference(&rows(&g), &rows(&w))),
				&[(req, res)],
				&want.join("\n"),
			);
		}
	};
	ctx.many("alone", ctx.size(5500, 80_000), |ctx, r, i| {
		let (op, v) = match i % 6 {
			0 => (Op::Tvr, gen::flag_bytes(r, 5)),
			1 => (Op::Tsi, gen::flag_bytes(r, 2)),
			2 | 3 => (Op::Cvr, gen::flag_bytes(r, 5)),
			4 => (Op::Iad, gen::ccd_iad(r)),
			_ => (Op::CvmResults, gen::good_value(r, &unhex("9F34"))),
		};
		let q = Request::new(op, hex(&v));
		let Ok(want) = q.wanted() else { return };
		let req = q.req();
		let res = ctx.run(&req);
		if !accepted(&res) {
			ctx.event("not shown");
			return;
		}
		let got: Vec<String> = res.text().lines().map(str::to_owned).collect();
		draw(ctx, &req, &res, &got, &lines(&want));
	});
	const DRAWN: &[&str] = &["95", "9B", "9F0D", "9F0E", "9F0F", "9F10", "9F33", "9F34", "9F40"];
	ctx.many("in TLV data", ctx.size(250, 6000), |ctx, r, i| {
		// At any indentation
		let depth = match i % 4 {
			0 => 0,
			1 => r.range(1, 3),
			2 => r.range(4, 20),
			_ => r.range(20, 60),
		};
		let mut items: Vec<Item> = Vec::new();
		while items.len() < 40 {
			let t = unhex(r.pick(DRAWN));
			let v = gen::good_value(r, &t);
			if !model::bytes_masked(&v, &['*']) {
				items.push((t, v));
			}
		}
		let mut b: Vec<u8> = items.iter().flat_map(|(t, v)| gen::object_plain(t, v)).collect();
		for _ in 0..depth {
			b = gen::object_plain(&[0x70], &b);
		}
		let q = Request::new(Op::Ber, hex(&b)).sort(false);
		let req = q.req();
		let res = ctx.run(&req);
		let view = View::parse(&res.text());
		let mut ns: &[VNode] = &view.nodes;
		for _ in 0..depth {
			match ns {
				[n] => ns = n.kids(),
				_ => break,
			}
		}
		if !accepted(&res) || ns.len() != items.len() {
			ctx.event("not shown");
			return;
		}
		for (n, i) in ns.iter().zip(&items) {
			if let (Some(got), Ok((_, Some(want)))) = (&n.parsed, expected(i)) {
				draw(ctx, &req, &res, got, &lines(&want));
			}
			// Nothing of a breakdown may be outside of it
			if let Some(s) = n.stray.iter().find(|s| s.contains(['│', '└', '├'])) {
				ctx.violation(&format!("A line of a breakdown is indented wrongly: {s}"), &[(&req, &res)], "one indentation for all lines");
			}
		}
		if let Some(s) = view.stray.iter().find(|s| s.contains(['│', '└', '├']) || is_binary(s.trim())) {
			ctx.violation(&format!("A line of a breakdown is indented wrongly: {s}"), &[(&req, &res)], "one indentation for all lines");
		}
	});
	ctx.require("drawings exactly as they should be", 2000);
}

/// The text of each line with a mark for each character in a severity colour.
fn severity_actual(res: &Res) -> Result<Vec<(String, String)>, String> {
	let s = term::interpret(&res.out)?;
	let mut out = Vec::new();
	for (line, look) in split(&s) {
		let marks: String = line
			.iter()
			.zip(look)
			.filter(|(b, _)| !b.is_ascii_whitespace())
			.map(|(_, l)| match l.fg {
				term::RED => 'E',
				term::YELLOW => 'W',
				0 | term::CYAN => '.',
				_ => '?',
			})
			.collect();
		out.push((String::from_utf8_lossy(line).into_owned(), marks));
	}
	Ok(out)
}

fn split(s: &term::Screen) -> Vec<(&[u8], &[term::Look])> {
	let mut v = Vec::new();
	let mut a = 0;
	for (i, b) in s.plain.iter().enumerate() {
		if *b == b'\n' {
			v.push((&s.plain[a..i], &s.look[a..i]));
			a = i + 1;
		}
	}
	if a < s.plain.len() {
		v.push((&s.plain[a..], &s.look[a..]));
	}
	v
}

fn severity_wanted(d: &Doc) -> Vec<(String, String)> {
	d.lines
		.iter()
		.map(|l| {
			let text: String = l.iter().map(|s| s.1.as_str()).collect();
			let marks = l
				.iter()
				.flat_map(|(sty, t)| {
					let m = match sty {
						Sty::E => 'E',
						Sty::W => 'W',
						_ => '.',
					};
					t.bytes().filter(|b| !b.is_ascii_whitespace()).map(move |_| m)
				})
				.collect();
			(text, marks)
		})
		.collect()
}

pub fn c43(ctx: &Ctx) {
	let check = |ctx: &Ctx, req: &Req, res: &Res, want: &Doc, on: bool| {
		if !accepted(res) {
			ctx.event("not shown");
			return;
		}
		let got = match severity_actual(res) {
			Ok(g) => g,
			Err(e) => {
				ctx.violation(&format!("The colours cannot be understood: {e}"), &[(req, res)], "red, yellow, or no colour");
				return;
			}
		};
		if !on {
			if res.out.contains(&0x1B) {
				ctx.violation("There are colours although they're off", &[(req, res)], "no colours");
			} else {
				ctx.event("no colours when off");
			}
			return;
		}
		let wanted = severity_wanted(want);
		// Lines with the same text, in order
		let mut used = vec![false; wanted.len()];
		let mut n = [0u64; 3];
		for (k, (text, marks)) in got.iter().enumerate() {
			let place = if wanted.get(k).is_some_and(|w| w.0 == *text) {
				Some(k)
			} else {
				(0..wanted.len()).find(|j| !used[*j] && wanted[*j].0 == *text)
			};
			let Some(j) = place else {
				ctx.event("a line other properties are about");
				continue;
			};
			used[j] = true;
			if wanted[j].1 != *marks {
				ctx.violation(
					&format!("Wrong severity colour in '{}': {marks} instead of {}", text.trim(), wanted[j].1),
					&[(req, res)],
					"E: red, W: yellow, .: neither",
				);
				return;
			}
			if marks.contains('E') {
				n[0] += 1;
			} else if marks.contains('W') {
				n[1] += 1;
			} else {
				n[2] += 1;
			}
		}
		ctx.events("errors in red", n[0]);
		ctx.events("warnings in yellow", n[1]);
		ctx.events("lines without severity", n[2]);
	};
	ctx.many("alone", ctx.size(5000, 80_000), |ctx, r, i| {
		let (op, v) = match i % 6 {
			0 | 1 => (Op::Tvr, single_or_any(r, i as usize / 6, 5)),
			2 => (Op::Tsi, gen::flag_bytes(r, 2)),
			3 => (Op::Cvr, single_or_any(r, i as usize / 6, 5)),
			4 => (Op::Iad, gen::ccd_iad(r)),
			_ => (Op::CvmResults, gen::good_value(r, &unhex("9F34"))),
		};
		let q = Request::new(op, hex(&v));
		let Ok(want) = q.wanted() else { return };
		let how = *r.pick(&["ansi", "always", "ansi", "never", "auto"]);
		let req = q.req().arg(format!("--colour={how}"));
		let res = ctx.run(&req);
		check(ctx, &req, &res, &want, matches!(how, "ansi" | "always"));
	});
	const COLOURED: &[&str] = &["95", "9B", "9F0D", "9F0E", "9F0F", "9F10", "9F33", "9F34", "9F40", "9F35", "8A", "5F30", "8E"];
	ctx.many("in TLV data", ctx.size(900, 15_000), |ctx, r, i| {
		let mut items: Vec<Item> = Vec::new();
		for k in 0..20 {
			let t = unhex(r.pick(COLOURED));
			let v = match t.as_slice() {
				[0x95] | [0x9F, 0x0D..=0x0F] => single_or_any(r, i as usize * 20 + k, 5),
				_ => gen::good_value(r, &t),
			};
			items.push((t, v));
		}
		let mut b: Vec<u8> = items.iter().flat_map(|(t, v)| gen::object_plain(t, v)).collect();
		let levels = match r.below(8) {
			0 => r.range(3, 12),
			1 => r.range(12, 260),
			_ => r.below(3),
		};
		if levels >= 3 {
			// What's outside is to be coloured as well
			items.truncate(4);
			b = items.iter().flat_map(|(t, v)| gen::object_plain(t, v)).collect();
		}
		for k in 0..levels {
			b = gen::object_plain(&[0x70], &b);
			if k % 4 == 3 && r.one_in(4) {
				b.extend(gen::object_plain(&[0x95], &single_or_any(r, k, 5)));
			}
		}
		let q = match if levels < 3 { i % 3 } else { 1 + i % 2 } {
			0 => Request::new(Op::Ingenico, gen::ingenico_hex(&items)),
			1 => Request::new(Op::Auto, hex(&b)),
			_ => Request::new(Op::Ber, hex(&b)),
		};
		let q = q.sort(r.bool());
		let Ok(want) = q.wanted() else { return };
		let on = !r.one_in(8);
		let req = q.req().arg(if on { "--colour=ansi" } else { "--colour=never" });
		let res = ctx.run(&req);
		check(ctx, &req, &res, &want, on);
	});
	ctx.require("errors in red", 500);
	ctx.require("warnings in yellow", 500);
	ctx.require("no colours when off", 50);
}

fn single_or_any(r: &mut Rng, k: usize, n: usize) -> Vec<u8> {
	if k % 3 != 0 {
		let bit = (k / 3 * 2 + k % 3 - 1) % (n * 8);
		let mut v = vec![0; n];
		v[bit / 8] = 1 << (bit % 8);
		v
	} else {
		gen::flag_bytes(r, n)
	}
}

// ---------------------------------------------------------------------------------------------
// Cardholder verification

pub fn c44(ctx: &Ctx) {
	one_after_another(ctx, &["8E"], &everything, false);
	let tag = unhex("8E");
	// All rules
	ctx.many("all rules", 256, |ctx, r, i| {
		let mut v = if i % 2 == 0 { vec![0; 8] } else { r.bytes(8) };
		for c in 0..=255u8 {
			v.push(i as u8);
			v.push(c);
		}
		if i % 4 == 0 {
			judge_list_alone(ctx, &v);
		}
		judge_parsed(ctx, r, &[(tag.clone(), v)], &everything, false);
	});
	// Single rules decide whether the amounts are shown
	ctx.many("single rules", 64, |ctx, r, i| {
		let items: Vec<Item> = (0..400)
			.map(|k| {
				let mut v = vec![0; 8];
				if k % 5 == 0 {
					v[r.below(8)] = 1 << r.below(8);
				}
				v.push((i as u8).wrapping_mul(4).wrapping_add((k / 100) as u8));
				v.push((k % 100 % 20) as u8);
				if r.one_in(3) {
					// The deciding one is not the first or last
					let x = [0x1F, 3];
					if r.bool() {
						v.extend(x);
					}
					if r.bool() {
						v.splice(8..8, x);
					}
				}
				(tag.clone(), v)
			})
			.collect();
		judge_parsed(ctx, r, &items, &everything, false);
	});
	// Amounts
	ctx.many("amounts", 40, |ctx, r, _| {
		let items: Vec<Item> = (0..200)
			.map(|_| {
				let n = |r: &mut Rng| match r.below(6) {
					0 => 0,
					1 => 10u64.pow(r.below(10) as u32) as u32,
					2 => (10u64.pow(r.below(10) as u32) - 1) as u32,
					3 => u32::MAX - r.below(3) as u32,
					4 => 1 << r.below(32),
					_ => r.u64() as u32,
				};
				let mut v = n(r).to_be_bytes().to_vec();
				v.extend(n(r).to_be_bytes());
				for _ in 0..r.below(3) {
					v.extend([0x1F, r.below(12) as u8]);
				}
				(tag.clone(), v)
			})
			.collect();
		judge_parsed(ctx, r, &items, &everything, false);
	});
	ctx.many("lists", ctx.size(2500, 40_000), |ctx, r, i| {
		let v = gen::cvm_list(r);
		if i % 2 == 0 {
			judge_list_alone(ctx, &v);
		} else {
			judge_parsed(ctx, r, &[(tag.clone(), v)], &everything, false);
		}
	});
	// Long ones
	ctx.many("long lists", ctx.size(24, 300), |ctx, r, i| {
		let n = *r.pick(&[255, 256, 257, 127, 128, 1000, 9, 10, 99, 100, 5000, 32_000]);
		let mut v = r.bytes(8);
		v.extend(r.bytes(2 * n));
		if i % 3 == 0 {
			// Only the last one refers to an amount
			v[..8].fill(0);
			for c in v[8..].chunks_mut(2) {
				c[1] = 3;
			}
			let k = v.len() - 1;
			v[k] = 6 + (i % 4) as u8;
		}
		judge_list_alone(ctx, &v);
	});
	ctx.require("tags judged", 10_000);
	ctx.require("shown", 1000);
}

fn judge_list_alone(ctx: &Ctx, v: &[u8]) {
	let q = Request::new(Op::CvmList, hex(v));
	let req = q.req();
	let res = ctx.run(&req);
	let want = q.wanted().map(|d| d.text());
	match want {
		Ok(w) => {
			if accepted(&res) && res.text() == w {
				ctx.event("shown");
			} else {
				ctx.violation(
					&format!("A list is not explained as it should be: {}", difference(&res.text(), &w)),
					&[(&req, &res)],
					&w,
				);
			}
		}
		Err(e) => {
			if !res.refused() {
				ctx.violation("A list that should be refused was not", &[(&req, &res)], &e.message());
			}
		}
	}
}

pub fn c45(ctx: &Ctx) {
	one_after_another(ctx, &["9F34"], &meaning, false);
	let tag = unhex("9F34");
	// All of them
	ctx.many("all", 256 * 3, |ctx, r, i| {
		let items: Vec<Item> =
			(0..=255u8).map(|c| (tag.clone(), vec![(i / 3) as u8, c, (i % 3) as u8])).collect();
		judge_parsed(ctx, r, &items, &meaning, false);
	});
	ctx.many("alone", ctx.size(3000, 60_000), |ctx, r, i| {
		let v = match i {
			// Every outcome, every method
			0..=255 => vec![0x1E, 3, i as u8],
			256..=511 => vec![i as u8, 3, 2],
			512..=767 => vec![0x42, i as u8, 1],
			_ => {
				let mut v = gen::good_value(r, &tag);
				if r.one_in(4) {
					v[2] = r.byte();
				}
				v
			}
		};
		alone(ctx, Op::CvmResults, &v);
	});
	ctx.many("refused in TLV data", 253, |ctx, r, i| {
		let v = vec![gen::cvm_method(r), r.byte(), (i + 3) as u8];
		judge_parsed(ctx, r, &[(tag.clone(), v)], &meaning, false);
	});
	ctx.require("tags judged", 190_000);
	ctx.require("refused", 200);
	ctx.require("refused, alone", 200);
}

// ---------------------------------------------------------------------------------------------
// Codes

pub fn c46(ctx: &Ctx) {
	one_after_another(ctx, &["5F30"], &everything, true);
	ctx.many("alone", 1000, |ctx, r, i| {
		for s in [format!("{i:03}"), i.to_string(), format!("{i:0w$}", w = r.range(4, 12))] {
			judge(ctx, &Request::new(Op::ServiceCode, s), aspect::all);
			exact(ctx, Op::ServiceCode, &format!("{i:03}"));
		}
	});
	let tag = unhex("5F30");
	ctx.many("in TLV data", 10, |ctx, r, i| {
		let items: Vec<Item> = (0..100).map(|k| (tag.clone(), unhex(&format!("{:04}", i * 100 + k)))).collect();
		judge_parsed(ctx, r, &items, &everything, true);
	});
	// Two bytes that are no number up to 999
	ctx.many("other bytes", ctx.size(600, 8000), |ctx, r, i| {
		let v = match i % 3 {
			0 => unhex(&format!("{:04}", r.range(1000, 9999))),
			1 => vec![r.below(16) as u8, *r.pick(&[0x0A, 0xA0, 0x1F, 0xFF, 0xF1, 0x9A, 0xAA])],
			_ => vec![*r.pick(&[0x0A, 0x0F, 0xA0, 0x10, 0xF0, 0xFF]), r.byte()],
		};
		judge_parsed(ctx, r, &[(tag.clone(), v)], &everything, true);
	});
	// All two-byte values from 0000 to 0FFF
	ctx.many("all bytes", ctx.size(256, 4096), |ctx, r, i| {
		let x = if ctx.quick() { (i % 256 * 16 + r.below(16) as u64) as u16 } else { i as u16 };
		judge_parsed(ctx, r, &[(tag.clone(), x.to_be_bytes().to_vec())], &everything, true);
	});
	ctx.many("other texts", ctx.size(4000, 40_000), |ctx, r, i| {
		let s = match i {
			0 => "1000".to_owned(),
			1 => "-1".into(),
			2 => "65536".into(),
			3 => "65737".into(),
			4 => "4294967497".into(),
			5 => "18446744073709551817".into(),
			6 => "2 01".into(),
			7 => "0x201".into(),
			8 => "201.0".into(),
			9 => "2O1".into(),
			10 => "٢٠١".into(),
			11 => "２０１".into(),
			12 => "-0".into(),
			13 => " ".into(),
			14 => "201,".into(),
			15 => "--201".into(),
			16 => "0o311".into(),
			17 => "0b11".into(),
			18 => "2_01".into(),
			_ => match r.below(9) {
				0 => format!("{}", r.range(1000, 70_000)),
				1 => format!("{}", r.u64()),
				2 => format!("{}{}", *r.pick(&[r.clone().below(100), r.clone().below(1000)]), r.pick(&[
					"a", "F", " 1", "-", "+", "_0", "é", "e1", "e0", "E2", ".", ".0", ".00", ",0", ",", "d", "h", "H", "u16", "L", "%", "₀", "٠", "/1", ";", ":", "'", "\"", ")", "]",
					"=", "!", "#", "°", "½", "²", " 0", "\t1", "\n2", "--", "++", "\\", "|", "&", "*",
				])),
				3 => {
					let n = r.range(1, 5);
					(0..n).map(|_| r.range(1, 126) as u8 as char).collect()
				}
				_ => {
					let n = r.below(1000);
					let digits = match r.below(9) {
						0 => format!("{n:o}"),
						1 => format!("{n:x}"),
						2 => format!("{n:b}"),
						3 => format!("{n:03}"),
						4 => format!("{n:04}"),
						5 => format!("{n:0w$}", w = r.range(3, 8)),
						6 => format!("{:0w$}", r.below(100), w = r.range(2, 4)),
						_ => n.to_string(),
					};
					let before = *r.pick(&[
						"x", "0x", "0X", "-", "++", "+-", "#", "0o", "0O", "0b", "0B", "$", "&", "&H", "&O", "\\", "\\x", "'", "\"", "(", "[", ".", "0.", ",", "_", "=", "~", "!", "*", "/", "%", "@", "SC",
						"SC=", "no", "N", "o", "b", "h", "d", "0d", "2#", "8#", "10#", "16#", "\u{feff}", "\u{200b}", "−", "＋", "٠", "０", "1e", "e", "E", "0_", "0,", "0 ", "0\t", "1/", "|",
					]);
					let after = *r.pick(&["", "", "", "'", "\"", ")", "]", "_", "o", "h", "b"]);
					format!("{before}{digits}{after}")
				}
			},
		};
		let q = Request::new(Op::ServiceCode, s);
		// Whether white space or a plus sign around a number is accepted is not stated
		if q.wanted().is_ok() {
			return;
		}
		let req = q.req();
		let res = ctx.run(&req);
		if res.refused() {
			ctx.event("text that is no code refused");
		} else {
			ctx.violation("A text that is no service code was not refused", &[(&req, &res)], "an error");
		}
	});
	ctx.require("tags judged", 1000);
	ctx.require("shown", 3000);
	ctx.require("text that is no code refused", 200);
}

/// The whole text of a breakdown.
fn exact(ctx: &Ctx, op: Op, value: &str) {
	let q = Request::new(op, value);
	let req = q.req();
	let res = ctx.run(&req);
	if let Ok(d) = q.wanted() {
		if accepted(&res) && res.text() == d.text() {
			ctx.event("shown");
		} else {
			ctx.violation(
				&format!("Not explained as it should be: {}", difference(&res.text(), &d.text())),
				&[(&req, &res)],
				&d.text(),
			);
		}
	}
}

pub fn c47(ctx: &Ctx) {
	one_after_another(ctx, &["8A", "9C", "9F35", "9F39"], &everything, true);
	let mut items: Vec<Item> = Vec::new();
	for a in 0..128u8 {
		for b in 0..128u8 {
			items.push((vec![0x8A], vec![a, b]));
		}
	}
	for c in '\u{80}'..='\u{7FF}' {
		items.push((vec![0x8A], c.to_string().into_bytes()));
	}
	items.extend((0..=255u8).map(|b| (vec![0x9C], vec![b])));
	for (tag, table) in [("9F35", tables::TERMINAL_TYPES), ("9F39", tables::POS_ENTRY_MODES)] {
		items.extend(table.iter().map(|c| (unhex(tag), vec![c.0])));
	}
	// Masked values are something else
	items.retain(|i| !model::bytes_masked(&i.1, &['*']));
	let parts: Vec<&[Item]> = items.chunks(400).collect();
	ctx.many("accepted codes", parts.len() as u64, |ctx, r, i| {
		judge_parsed(ctx, r, parts[i as usize], &everything, true);
	});
	ctx.many("one byte", 512, |ctx, r, i| {
		let tag = unhex(if i < 256 { "9F35" } else { "9F39" });
		judge_parsed(ctx, r, &[(tag, vec![(i % 256) as u8])], &everything, true);
	});
	ctx.many("no text", ctx.size(600, 10_000), |ctx, r, i| {
		let v = match i % 4 {
			0 => vec![r.byte() | 0x80, r.below(128) as u8],
			1 => vec![r.below(128) as u8, r.byte() | 0x80],
			2 => vec![r.byte(), r.byte()],
			_ => vec![*r.pick(&[0xC0, 0xC1, 0xF5, 0xFF, 0xE0, 0xC2]), r.byte()],
		};
		if !model::bytes_masked(&v, &['*']) {
			judge_parsed(ctx, r, &[(vec![0x8A], v)], &everything, true);
		}
	});
	// Unknown codes do not affect their neighbours
	ctx.many("neighbours", ctx.size(1200, 20_000), |ctx, r, _| {
		let mut items: Vec<Item> = Vec::new();
		for _ in 0..r.range(2, 8) {
			let t = match r.below(4) {
				0 => vec![0x8A],
				1 => vec![0x9C],
				_ => gen::parsed_tag(r),
			};
			let v = match t.as_slice() {
				[0x8A] => (0..2).map(|_| r.range(48, 122) as u8).collect(),
				[0x9C] => vec![r.byte()],
				_ => gen::good_value(r, &t),
			};
			items.push((t, v));
		}
		let aspect = |n: &VNode| {
			if matches!(n.tag.as_str(), "8A" | "9C") {
				aspect::all(n)
			} else {
				aspect::shown(n)
			}
		};
		let b: Vec<u8> = items.iter().flat_map(|(t, v)| gen::object_plain(t, v)).collect();
		judge(ctx, &Request::new(Op::Ber, hex(&b)).sort(r.bool()), aspect);
	});
	// As text in Ingenico data
	ctx.many("as text", tables::RESPONSE_CODES.len() as u64, |ctx, _, i| {
		let c = tables::RESPONSE_CODES[i as usize].0;
		judge(ctx, &Request::new(Op::Ingenico, format!("T8A:02:a{c}")), aspect::all);
	});
	ctx.require("tags judged", 16_000);
	ctx.require("refused", 300);
}

/// What an error says about sizes is what counts.
fn says(res: &Res, why: &Refusal) -> bool {
	let e = res.etext().to_lowercase();
	let number = |n: usize| {
		e.split(|c: char| !c.is_ascii_digit()).any(|w| w == n.to_string())
	};
	match why {
		Refusal::Exactly(a, b) => number(*a) && number(*b) && e.contains("exactly"),
		Refusal::AtLeast(a, b) => number(*a) && number(*b) && e.contains("greater than or equal"),
		Refusal::NotDivisible => e.contains("not divisible"),
		_ => false,
	}
}

pub fn c48(ctx: &Ctx) {
	/// The tag, the size, whether it's a minimum, and the option
	const SIZES: &[(&str, usize, bool, Option<Op>)] = &[
		("5F30", 2, false, None),
		("8A", 2, false, None),
		("8E", 8, true, Some(Op::CvmList)),
		("95", 5, false, Some(Op::Tvr)),
		("9B", 2, false, Some(Op::Tsi)),
		("9C", 1, false, None),
		("9F0D", 5, false, None),
		("9F0E", 5, false, None),
		("9F0F", 5, false, None),
		("9F33", 3, false, None),
		("9F34", 3, false, Some(Op::CvmResults)),
		("9F35", 1, false, None),
		("9F39", 1, false, None),
		("9F40", 5, false, None),
		("", 5, false, Some(Op::Cvr)),
	];
	const LARGE: &[usize] = &[100, 127, 128, 200, 254, 255, 256, 257, 258, 259, 260, 261, 262, 264, 511, 512, 513, 517, 1000, 1029, 4096, 4101, 32_773, 65_000];
	let why = |n: usize, min: bool, k: usize| {
		if min && k < n {
			Some(Refusal::AtLeast(n, k))
		} else if min && k % 2 == 1 {
			Some(Refusal::NotDivisible)
		} else if !min && k != n {
			Some(Refusal::Exactly(n, k))
		} else {
			None
		}
	};
	let judge = |ctx: &Ctx, what: &str, q: &Request, why: &Refusal| {
		let req = q.req();
		let res = ctx.run(&req);
		if !res.refused() {
			ctx.violation(&format!("A value of the wrong size was not refused ({what})"), &[(&req, &res)], &why.message());
		} else if !says(&res, why) {
			ctx.violation(&format!("The reason given for refusing a value of the wrong size is wrong ({what})"), &[(&req, &res)], &why.message());
		} else {
			ctx.event(&format!("refused with the right sizes, {what}"));
		}
	};
	let per = 65 + LARGE.len();
	let repeat = ctx.size(1, 12) as usize;
	ctx.many("sizes", (SIZES.len() * per * repeat) as u64, |ctx, r, i| {
		let i = i as usize / repeat;
		let (tag, n, min, op) = SIZES[i / per];
		let k = i % per;
		let k = if k < 65 { k } else { LARGE[k - 65] + if min { 1 } else { 0 } };
		let Some(why) = why(n, min, k) else { return };
		let v = loop {
			let v = match r.below(3) {
				0 if k > n => {
					// A good value with something added
					let mut v = gen::good_value(r, &unhex(if tag.is_empty() { "95" } else { tag }));
					v.resize(k, 0);
					v
				}
				_ => gen::content(r, k),
			};
			if !model::bytes_masked(&v, &['*']) {
				break v;
			}
		};
		if let Some(op) = op {
			if k < 60_000 {
				judge(ctx, "alone", &Request::new(op, format!(" {}", hex(&v))), &why);
			}
		}
		if tag.is_empty() {
			return;
		}
		let tag = unhex(tag);
		// At the top level, nested, and in the formats; among acceptable neighbours
		let mut b = gen::object(r, &tag, &v);
		let good = |r: &mut Rng| {
			let t = gen::parsed_tag(r);
			let v = gen::good_value(r, &t);
			gen::object_plain(&t, &v)
		};
		let depth = r.below(4);
		for _ in 0..depth {
			if r.bool() {
				b.splice(0..0, good(r));
			}
			if r.bool() {
				b.extend(good(r));
			}
			b = gen::object_plain(&unhex(r.pick(&["70", "E1", "BF0C"])), &b);
		}
		if r.bool() {
			b.extend(good(r));
		}
		let small = hex(&b).len() < gen::MAX_VALUE;
		if small {
			let op = if r.one_in(3) { Op::Auto } else { Op::Ber };
			judge(ctx, if depth > 0 { "nested in BER-TLV data" } else { "in BER-TLV data" }, &Request::new(op, hex(&b)), &why);
		}
		let items = [(unhex("9F02"), vec![1]), (tag.clone(), v.clone())];
		judge(ctx, "in Ingenico data", &Request::new(Op::Ingenico, gen::ingenico_hex(&items)).sort(r.bool()), &why);
		if k < 1000 {
			let text: String = (0..k).map(|_| *r.pick(&['0', '1', 'A', 'z', ' '])).collect();
			judge(ctx, "as text in Ingenico data", &Request::new(Op::Ingenico, format!("T{}:{k:04X}:a{text}", hex(&tag))), &why);
		}
	});
	// Among many others, or within many levels
	ctx.many("surrounded", ctx.size(1500, 25_000), |ctx, r, i| {
		let (tag, n, min, _) = SIZES[i as usize % (SIZES.len() - 1)];
		let tag = unhex(tag);
		let k = match r.below(4) {
			0 => 0,
			1 => n + 1,
			2 => n - 1,
			_ => r.below(70),
		};
		let Some(why) = why(n, min, k) else { return };
		let v = r.bytes(k);
		if model::bytes_masked(&v, &['*']) {
			return;
		}
		let good = |r: &mut Rng| {
			let t = if r.one_in(3) { gen::opaque_tag(r) } else { gen::parsed_tag(r) };
			let v = gen::good_value(r, &t);
			(t, v)
		};
		let most = *r.pick(&[3, 8, 20, 60, 150]);
		let before = r.below(most + 1);
		let after = r.below(most + 1);
		let mut items: Vec<Item> = (0..before + after).map(|_| good(r)).collect();
		items.insert(before, (tag, v));
		let levels = match r.below(6) {
			0 => r.range(1, 6),
			1 => r.range(6, 60),
			2 => r.range(60, 240),
			_ => 0,
		};
		if levels > 6 {
			items.drain(..before.saturating_sub(2));
			items.truncate(6);
		}
		let q = if levels == 0 && r.one_in(3) {
			Request::new(Op::Ingenico, gen::ingenico_hex(&items))
		} else {
			let mut b: Vec<u8> = items.iter().flat_map(|(t, v)| gen::object_plain(t, v)).collect();
			for _ in 0..levels {
				b = gen::object_plain(&[0x70], &b);
			}
			Request::new(if r.one_in(4) { Op::Auto } else { Op::Ber }, hex(&b))
		};
		if q.value.len() < gen::MAX_VALUE {
			judge(ctx, if levels > 0 { "within levels" } else { "among others" }, &q.sort(r.bool()), &why);
		}
	});
	ctx.require("refused with the right sizes, within levels", 200);
	ctx.require("refused with the right sizes, among others", 200);
	// Good values along with what they may be surrounded by
	ctx.many("wrapped", (SIZES.len() * 16) as u64 * ctx.size(6, 100), |ctx, r, i| {
		let (tag, n, min, op) = SIZES[i as usize % SIZES.len()];
		let bytes = unhex(tag);
		let v = gen::good_value(r, &unhex(if tag.is_empty() { "95" } else { tag }));
		let header = [if tag.is_empty() { unhex("9F52") } else { bytes.clone() }, vec![v.len() as u8]].concat();
		let pad = *r.pick(&[0, 0xFF, 0x20, 0x30, 0x80, 0x0A, 0x0D]);
		let extra = r.range(1, 8);
		let w = match i as usize / SIZES.len() % 16 {
			0 => [&header[..], &v].concat(),
			1 => [&v[..], &v].concat(),
			2 => [&v[..], &vec![pad; extra]].concat(),
			3 => [&vec![pad; extra][..], &v].concat(),
			4 => [&v[..], &[0x90, 0]].concat(),
			5 => [&header[header.len() - 1..], &v].concat(),
			6 => [&header[..header.len() - 1], &v].concat(),
			7 => v[..v.len().saturating_sub(1)].to_vec(),
			8 => v[1.min(v.len())..].to_vec(),
			9 => [&[2][..], &v, &[3]].concat(),
			10 => hex(&v).into_bytes(),
			11 => [&v[..], &[v.iter().fold(0, |a, b| a ^ b)]].concat(),
			12 => [&v[..], &header, &v].concat(),
			13 => [&header[..], &header, &v].concat(),
			14 => [&header[..], &v, &[0x90, 0]].concat(),
			_ => [&[0x81][..], &header[header.len() - 1..], &v].concat(),
		};
		let Some(why) = why(n, min, w.len()) else { return };
		if model::bytes_masked(&w, &['*']) {
			return;
		}
		if let Some(op) = op {
			let text = match r.below(3) {
				0 => gen::some_hex(r, &w),
				1 => hex(&w).to_lowercase(),
				_ => hex(&w),
			};
			if text.starts_with('-') {
				return;
			}
			judge(ctx, "alone", &Request::new(op, text), &why);
		}
		if !tag.is_empty() {
			judge(ctx, "in BER-TLV data", &Request::new(Op::Ber, hex(&gen::object(r, &bytes, &w))), &why);
			judge(ctx, "in Ingenico data", &Request::new(Op::Ingenico, gen::ingenico_hex(&[(bytes, w)])).sort(r.bool()), &why);
		}
	});
	// Nothing to identify
	for s in ["-", "zz", "g", " "] {
		let q = Request::new(Op::Identify, s);
		let req = q.req();
		let res = ctx.run(&req);
		if res.refused() && says(&res, &Refusal::AtLeast(1, 0)) {
			ctx.event("refused with the right sizes, alone");
		} else {
			ctx.violation("A tag without bytes was not refused with the right reason", &[(&req, &res)], &Refusal::AtLeast(1, 0).message());
		}
	}
	ctx.require("refused with the right sizes, alone", 200);
	ctx.require("refused with the right sizes, nested in BER-TLV data", 200);
	ctx.require("refused with the right sizes, in Ingenico data", 500);
}

pub fn c49(ctx: &Ctx) {
	const PAIRS: &[(Op, &str)] = &[
		(Op::Tvr, "95"),
		(Op::Tsi, "9B"),
		(Op::CvmResults, "9F34"),
		(Op::CvmList, "8E"),
		(Op::Iad, "9F10"),
		(Op::ServiceCode, "5F30"),
	];
	ctx.many("values", ctx.size(5500, 90_000), |ctx, r, i| {
		let (op, tag) = PAIRS[i as usize % PAIRS.len()];
		let tag = unhex(tag);
		let v = match (op, r.below(9)) {
			(_, 5 | 6) => {
				// With something repeated before or after it
				let mut v = gen::good_value(r, &tag);
				let unit = match r.below(5) {
					0 | 1 => vec![0],
					2 => vec![*r.pick(&[0xFF, 0x20, 0x90, 0x80, 0x01])],
					3 => vec![r.byte()],
					_ => r.bytes(2),
				};
				let n = unit.repeat(if r.bool() { r.range(1, 4) } else { r.range(4, 40) });
				match r.below(4) {
					0 => v.splice(..0, n).for_each(drop),
					1 => {
						// In its place
						let k = n.len().min(v.len());
						let at = v.len() - k;
						v[at..].copy_from_slice(&n[..k]);
					}
					_ => v.extend(n),
				}
				v
			}
			(_, 7) => {
				// As a whole object, or the beginning of one
				let v = gen::good_value(r, &tag);
				let whole = gen::object_plain(&tag, &v);
				match r.below(4) {
					0 => whole,
					1 => [&whole[..whole.len() - v.len()], &v[..r.below(v.len() + 1)]].concat(),
					2 => [&whole[..whole.len() - v.len()], &r.bytes(3)].concat(),
					_ => [&tag, &v[..]].concat(),
				}
			}
			(Op::Iad, 0 | 1) => {
				let mut v = gen::ccd_iad(r);
				let k = r.below(32);
				v[k] = r.byte();
				v
			}
			(_, 0) => gen::odd_value(r, &tag),
			_ => gen::good_value(r, &tag),
		};
		if model::bytes_masked(&v, &['*']) || op == Op::ServiceCode && v.len() != 2 {
			return;
		}
		let text = if op == Op::ServiceCode { hex(&v) } else { format!(" {}", hex(&v)) };
		let colour = r.one_in(3);
		let mut areq = Request::new(op, text).req();
		let mut depth = 0;
		let mut q = match r.below(4) {
			0 => Request::new(Op::Ingenico, gen::ingenico_hex(&[(tag.clone(), v.clone())])),
			k => {
				let mut b = gen::object(r, &tag, &v);
				if k > 1 {
					depth = r.range(1, 5);
				}
				for _ in 0..depth {
					b = gen::object(r, &[0x70], &b);
				}
				Request::new(if k == 1 { Op::Auto } else { Op::Ber }, hex(&b))
			}
		}
		.req();
		if colour {
			areq = areq.arg("--colour=ansi");
			q = q.arg("--colour=ansi");
		}
		let (a, n) = (ctx.run(&areq), ctx.run(&q));
		let strip = |res: &Res| term::interpret(&res.out).map_or_else(|_| res.text(), |s| String::from_utf8_lossy(&s.plain).into_owned());
		let view = View::parse(&strip(&n));
		let mut ns: &[VNode] = &view.nodes;
		for _ in 0..depth {
			match ns {
				[x] => ns = x.kids(),
				_ => break,
			}
		}
		let label = ns.first().map(|x| x.name.clone()).unwrap_or_default();
		match (accepted(&a), accepted(&n)) {
			(true, true) => {
				let want: Vec<String> = strip(&a).lines().map(str::to_owned).collect();
				let got = match ns {
					[x] => x.parsed.clone().unwrap_or_default(),
					_ => Vec::new(),
				};
				let looks = !colour || tail_looks(&n, &a, depth + 1);
				if got == want && looks {
					ctx.event("explained alike");
				} else {
					ctx.violation(
						&format!("A value is explained differently in TLV data: {}", difference(&got.join("\n"), &want.join("\n"))),
						&[(&areq, &a), (&q, &n)],
						"the same explanation",
					);
				}
			}
			(false, false) => ctx.event("refused alike"),
			(false, true) if label.contains("Not CCD-Compliant") || label.contains("Unrecognised") => {
				if ns.first().is_some_and(|x| x.parsed.is_some()) {
					ctx.violation("A value refused alone is interpreted in TLV data", &[(&areq, &a), (&q, &n)], "no interpretation");
				} else {
					ctx.event("refused alone, labelled in TLV data");
				}
			}
			(sa, _) => ctx.violation(
				if sa { "A value shown alone is refused in TLV data" } else { "A value refused alone is interpreted in TLV data" },
				&[(&areq, &a), (&q, &n)],
				"the same decision",
			),
		}
	});
	ctx.require("explained alike", 1000);
	ctx.require("refused alike", 100);
}

/// The coloured lines of the nested output end with those of the other, apart from indentation.
fn tail_looks(nested: &Res, alone: &Res, indent: usize) -> bool {
	let (Ok(n), Ok(a)) = (term::interpret(&nested.out), term::interpret(&alone.out)) else { return false };
	let (n, a) = (split(&n), split(&a));
	if n.len() < a.len() {
		return false;
	}
	n[n.len() - a.len()..].iter().zip(&a).all(|(x, y)| {
		let k = indent.min(x.0.len());
		let visible = |l: (&[u8], &[term::Look])| {
			l.0.iter().zip(l.1).filter(|(b, _)| !b.is_ascii_whitespace()).map(|(b, s)| (*b, s.fg, s.bold)).collect::<Vec<_>>()
		};
		visible((&x.0[k..], &x.1[k..])) == visible(*y)
	})
}
