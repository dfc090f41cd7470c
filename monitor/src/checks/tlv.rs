//! Reading TLV data: fidelity, refusal, masking, sorting, raw values.

use super::{accepted, difference, judge, judge_res, only};
use crate::{
	ctx::Ctx,
	exec::Res,
	gen::{self, Content, Field, Obj, Request},
	hexu::{hex, hex_lower, unhex},
	model::{self, Node, Op, Settings},
	rng::Rng,
	view::{aspect, View, VNode},
};

fn fits(s: &str) -> bool {
	s.len() <= gen::MAX_VALUE && !s.contains('\0') && !s.is_empty()
}

fn depth_of(nodes: &[Node]) -> usize {
	nodes.iter().map(|n| 1 + depth_of(&n.kids)).max().unwrap_or(0)
}

fn count(nodes: &[Node]) -> usize {
	nodes.iter().map(|n| 1 + count(&n.kids)).sum()
}

/// Whether the model reads data as it was generated. Seldom it doesn't, where values that were meant
/// to be opaque happen to have a structure.
fn agree(ctx: &Ctx, a: &[Node], b: Result<Vec<Node>, model::Refusal>, what: &str) -> bool {
	if b.as_deref() == Ok(a) {
		return true;
	}
	ctx.event("skipped: generated ambiguously");
	if ctx.count("skipped: generated ambiguously") > 100 {
		crate::fatal(&format!("the model reads {what} differently from what was generated"));
	}
	false
}

// ---------------------------------------------------------------------------------------------
// BER-TLV

/// A chain of constructed objects around something.
fn chain(r: &mut Rng, levels: usize, inner: Vec<Obj>) -> Vec<Obj> {
	let mut f = inner;
	let varied = r.bool();
	let tag = gen::constructed_tag(r);
	for _ in 0..levels {
		let t = if varied { gen::constructed_tag(r) } else { tag.clone() };
		let mut level = vec![Obj { tag: t, content: Content::Kids(f) }];
		if r.one_in(10) {
			let tag = gen::opaque_tag(r);
			level.insert(r.below(2), Obj { tag, content: Content::Leaf(vec![7]) });
		}
		f = level;
	}
	f
}

/// Short blocks, all small changes of which are tried.
const SHORT_BER: &[&str] = &[
	"5A0101", "5A00", "9F1A020840", "70045A020102", "5A8102AABB", "5A83000002AABB", "5A0101500141", "BF0C055F20024142",
	"7F498200045002415A", "DF810103010203", "70025A0050", "6F06A5045F2D0165",
];
const SHORT_INGENICO: &[&str] = &[
	"T5A:01:h12", "T50:02:aAB", "T9F1A:02:h0840~", "C50:01:h41;T5A:01:h12", "T70:03:h5A0112~T50:00:a", "T5A:0002:h****", "T0050:01:a:",
];

/// The n-th way to change, leave out or add one byte.
fn edited(b: &[u8], n: usize) -> Option<Vec<u8>> {
	let (way, n) = (n % 513, n / 513);
	let mut v = b.to_vec();
	if n >= b.len() + usize::from(way > 256) {
		return None;
	}
	match way {
		0..=255 => v[n] = way as u8,
		256 => {
			v.remove(n);
		}
		_ => v.insert(n, (way - 257) as u8),
	}
	Some(v)
}

fn edits<F: Fn(&Ctx, &mut Rng, &[u8]) + Sync>(ctx: &Ctx, name: &str, of: &[&str], as_hex: bool, share: usize, f: F) {
	let all: Vec<Vec<u8>> = of.iter().map(|d| if as_hex { unhex(d) } else { d.as_bytes().to_vec() }).collect();
	let total: usize = all.iter().map(|d| (d.len() + 1) * 513).sum();
	ctx.many(name, (total / share) as u64, |ctx, r, i| {
		let mut k = if share > 1 { i as usize * share + r.below(share) } else { i as usize };
		for d in &all {
			let n = (d.len() + 1) * 513;
			if k < n {
				if let Some(v) = edited(d, k) {
					if !v.is_empty() {
						f(ctx, r, &v);
					}
				}
				return;
			}
			k -= n;
		}
	});
}

pub fn c10(ctx: &Ctx) {
	edits(ctx, "single changes", SHORT_BER, true, if ctx.quick() { 3 } else { 1 }, |ctx, _, b| {
		let q = Request::new(Op::Ber, hex(b)).sort(false);
		if let Ok(want) = q.wanted() {
			let req = q.req();
			let res = ctx.run(&req);
			judge_res(ctx, &req, &res, &Ok(want), aspect::structure);
		}
	});
	let masks = ['*'];
	ctx.many("forests", ctx.size(10_000, 150_000), |ctx, r, i| {
		let f = match i % 40 {
			0..=11 => gen::forest(r, 0, 8, false),
			12..=31 => {
				let (d, w) = (r.range(1, 5), r.range(1, 5));
				gen::forest(r, d, w, true)
			}
			32 => {
				let n = r.range(4, 10);
				let inner = gen::forest(r, 1, 2, true);
				chain(r, n, inner)
			}
			33 => {
				// Close to the deepest nesting there may be
				let inner = {
					let tag = gen::parsed_tag(r);
					let v = gen::good_value(r, &tag);
					vec![Obj { tag, content: Content::Leaf(v) }]
				};
				let n = if ctx.quick() && !r.one_in(4) { r.range(20, 60) } else { r.range(60, 250) };
				chain(r, n, inner)
			}
			34 => {
				// One large value
				let n = *r.pick(&[127, 128, 255, 256, 4095, 4096, 16_384, 32_767, 65_280, 65_279, 65_000]);
				let tag = loop {
					let t = gen::opaque_tag(r);
					if t.len() < 8 {
						break t;
					}
				};
				let v = gen::content(r, n);
				vec![Obj { tag, content: Content::Leaf(v) }]
			}
			35 => {
				// Many
				let n = if r.one_in(10) { r.range(800, 20_000) } else { r.range(100, 800) };
				(0..n)
					.map(|_| {
						let tag = gen::opaque_tag(r);
						let k = r.below(4);
						Obj { tag, content: Content::Leaf(r.bytes(k)) }
					})
					.collect()
			}
			36 => {
				// The edges of the length encodings, next to each other
				(0..r.range(2, 6))
					.map(|_| {
						let tag = gen::opaque_tag(r);
						let n = *r.pick(&[0, 1, 2, 126, 127, 128, 129, 255, 256, 257]);
						Obj { tag, content: Content::Leaf(gen::content(r, n)) }
					})
					.collect()
			}
			37 => {
				// A constructed object of an exact size
				let n = *r.pick(&[120, 124, 125, 126, 127, 128, 252, 253, 254, 255, 256]);
				let leaf = Obj { tag: vec![0x5A], content: Content::Leaf(gen::content(r, n)) };
				let n = r.range(1, 4);
				chain(r, n, vec![leaf])
			}
			_ => gen::forest(r, 2, 6, false),
		};
		let (b, nodes) = gen::encode(r, &f, &masks, 0);
		let text = if r.one_in(8) { hex_lower(&b) } else { hex(&b) };
		if !fits(&text) {
			ctx.event("too large for an argument");
			return;
		}
		if !agree(ctx, &nodes, model::ber(&b, &masks, 0), "BER-TLV data") {
			return;
		}
		ctx.event(&format!("depth {}", match depth_of(&nodes) {
			n @ 0..=5 => n.to_string(),
			6..=20 => "6-20".into(),
			21..=100 => "21-100".into(),
			_ => "over 100".into(),
		}));
		ctx.events("objects", count(&nodes) as u64);
		let q = Request::new(Op::Ber, text).sort(r.one_in(6));
		let want = model::show_nodes(nodes, q.set.sort);
		let req = q.req();
		let res = ctx.run(&req);
		judge_res(ctx, &req, &res, &want, aspect::structure);
	});
	// The deepest nesting for certain
	ctx.many("deepest", ctx.size(6, 40), |ctx, r, i| {
		let levels = [250, 249, 248, 128, 127, 200][i as usize % 6];
		let inner = vec![Obj { tag: unhex("9F02"), content: Content::Leaf(r.bytes(6)) }];
		let mut f = inner;
		for _ in 0..levels {
			f = vec![Obj { tag: vec![0x70], content: Content::Kids(f) }];
		}
		let (b, nodes) = gen::encode(r, &f, &['*'], 0);
		if !agree(ctx, &nodes, model::ber(&b, &['*'], 0), "deeply nested data") {
			return;
		}
		let q = Request::new(Op::Ber, hex(&b));
		let req = q.req();
		let res = ctx.run(&req);
		if judge_res(ctx, &req, &res, &model::show_nodes(nodes, true), aspect::structure) {
			ctx.event("nested as deeply as supported");
		}
	});
	// All tags of one and two bytes, at several levels, also without a value
	ctx.many("tags", 256 * ctx.size(6, 40), |ctx, r, i| {
		let mut f = Vec::new();
		for second in 0..=127u8 {
			let first = (i % 256) as u8;
			let tag = if first & 31 == 31 { vec![first, second] } else { vec![first] };
			if gen::is_parsed(&tag) {
				continue;
			}
			let content = if tag[0] & 0x20 != 0 {
				Content::Kids(Vec::new())
			} else {
				let n = r.below(4);
				Content::Leaf(r.bytes(n))
			};
			if r.bool() {
				// An empty one too
				let content = if tag[0] & 0x20 != 0 { Content::Kids(Vec::new()) } else { Content::Leaf(Vec::new()) };
				f.insert(r.below(f.len() + 1), Obj { tag: tag.clone(), content });
			}
			f.push(Obj { tag, content });
			if first & 31 != 31 {
				break;
			}
		}
		if f.is_empty() {
			return;
		}
		let levels = r.below(5);
		let f = if levels > 0 { chain(r, levels, f) } else { f };
		let (b, nodes) = gen::encode(r, &f, &['*'], 0);
		if !agree(ctx, &nodes, model::ber(&b, &['*'], 0), "tags") {
			return;
		}
		let q = Request::new(Op::Ber, hex(&b)).sort(false);
		let req = q.req();
		let res = ctx.run(&req);
		judge_res(ctx, &req, &res, &model::show_nodes(nodes, false), aspect::structure);
	});
	ctx.require("shown", 1000);
}

/// A malformed object of the given kind. `end`: whether anything may follow it.
fn malformed(r: &mut Rng, kind: usize) -> (&'static str, Vec<u8>, bool) {
	let tag = gen::any_tag(r);
	let mut b = tag.clone();
	match kind {
		0 => {
			// Only the leading bytes of a tag
			let n = r.range(0, 4);
			let mut t = vec![r.byte() | 31];
			t.extend((0..n).map(|_| r.byte() | 128));
			("a tag cut short", t, false)
		}
		1 => ("no length", b, false),
		2 => {
			let n = r.range(1, 4);
			b.push(0x80 | n as u8);
			let k = r.below(n);
			let lb = if r.bool() { vec![0; k] } else { r.bytes(k) };
			b.extend(lb);
			("a length cut short", b, false)
		}
		3 => {
			// Fewer bytes than the length says
			let n = match r.below(5) {
				0 => r.range(1, 3),
				1 => r.range(120, 300),
				_ => r.range(1, 60),
			};
			b.extend(gen::length_bytes(r, n));
			let k = match r.below(3) {
				0 => n - 1,
				1 => 0,
				_ => r.below(n),
			};
			b.extend(gen::content(r, k));
			("a value cut short", b, false)
		}
		4 => {
			// A length near the limits of the number types
			let l = *r.pick(&["84FFFFFFFF", "84FFFFFFFE", "847FFFFFFF", "8480000000", "83FFFFFF", "82FFFF", "8401000000", "8400010000", "84FFFFFFF0"]);
			b.extend(unhex(l));
			let k = r.below(40);
			b.extend(gen::content(r, k));
			("a huge length", b, false)
		}
		5 => {
			b.push(0x80);
			if r.bool() {
				let n = r.below(6);
				b.extend(r.bytes(n));
				b.extend([0, 0]);
			}
			("an indefinite length", b, true)
		}
		_ => {
			// More than four length bytes, which may say something sensible
			let n = if r.bool() { 5 } else { *r.pick(&[5, 6, 7, 8, 9, 16, 0x7F]) };
			b.push(0x80 | n as u8);
			let v = r.below(10);
			b.extend(vec![0; n - 1]);
			b.push(v as u8);
			b.extend(r.bytes(v));
			("more than four length bytes", b, true)
		}
	}
}

pub fn c11(ctx: &Ctx) {
	let refused = |ctx: &Ctx, b: &[u8]| {
		if model::ber(b, &['*'], 0).is_err() {
			let q = Request::new(Op::Ber, hex(b));
			let req = q.req();
			let res = ctx.run(&req);
			if res.refused() {
				ctx.event("refused: single changes and short ends");
			} else {
				ctx.violation("Malformed data was not refused", &[(&req, &res)], "an error and no breakdown");
			}
		}
	};
	edits(ctx, "single changes", SHORT_BER, true, if ctx.quick() { 3 } else { 1 }, |ctx, _, b| refused(ctx, b));
	// Everything that can follow a good object and is too short
	ctx.many("ends of one byte", 512, |ctx, _, i| {
		let mut b = unhex(if i < 256 { "5A0101" } else { "70045A02010250024142" });
		b.push(i as u8);
		refused(ctx, &b);
	});
	let share = ctx.size(16, 1);
	ctx.many("ends of two bytes", 65_536 / share, |ctx, r, i| {
		let k = i * share + r.below(share as usize) as u64;
		let mut b = if k % 3 == 0 { Vec::new() } else { unhex("5A0101") };
		b.extend([(k >> 8) as u8, k as u8]);
		refused(ctx, &b);
	});
	// Filled up with something
	ctx.many("filled up", 256 * ctx.size(12, 150), |ctx, r, i| {
		let unit = match r.below(5) {
			0 => vec![i as u8, r.byte()],
			1 => vec![i as u8, !(i as u8)],
			_ => vec![i as u8],
		};
		let n = match r.below(5) {
			0 => r.range(1, 4),
			1 => *r.pick(&[7, 8, 15, 16, 17, 31, 32, 64, 100, 127, 128, 200, 254, 255, 256, 300]),
			_ => r.range(2, 40),
		};
		let fill = unit.iter().copied().cycle().take(n).collect::<Vec<u8>>();
		let good = |r: &mut Rng| {
			let f = gen::forest(r, 1, 3, true);
			gen::encode(r, &f, &['*'], 0).0
		};
		let mut b = good(r);
		match r.below(6) {
			0 => b.splice(..0, fill).for_each(drop),
			1 => {
				b.extend(fill);
				b.extend(good(r));
			}
			2 => {
				// To a multiple of what's stored at once
				let m = *r.pick(&[8, 16, 32, 64, 128, 256]);
				let to = b.len().div_ceil(m) * m;
				b.extend(unit.iter().copied().cycle().take(to - b.len()));
			}
			_ => b.extend(fill),
		}
		refused(ctx, &b);
	});
	ctx.many("malformed", ctx.size(16_000, 250_000), |ctx, r, i| {
		let (kind, bad, open) = malformed(r, i as usize % 7);
		let mut b = Vec::new();
		let before = match r.below(4) {
			0 => 0,
			1 => 1,
			_ => r.range(1, 5),
		};
		for _ in 0..before {
			let f = gen::forest(r, 1, 2, true);
			b.extend(gen::encode(r, &f, &['*'], 0).0);
		}
		b.extend(&bad);
		if open && r.bool() {
			let f = gen::forest(r, 1, 3, true);
			b.extend(gen::encode(r, &f, &['*'], 0).0);
		}
		if model::ber(&b, &['*'], 0).is_ok() {
			ctx.event("skipped: generated ambiguously");
			return;
		}
		let q = Request::new(Op::Ber, hex(&b)).sort(r.bool());
		let req = q.req();
		let res = ctx.run(&req);
		if res.refused() {
			ctx.event(&format!("refused: {kind}"));
		} else {
			ctx.violation(&format!("Malformed data was not refused: {kind}"), &[(&req, &res)], "an error and no breakdown");
		}
	});
	// Every way of cutting a block short
	ctx.many("cut", ctx.size(160, 3000), |ctx, r, _| {
		let f = loop {
			let f = gen::forest(r, 2, 3, true);
			if !f.is_empty() {
				break f;
			}
		};
		let (b, _) = gen::encode(r, &f, &['*'], 0);
		for n in 1..b.len().min(200) {
			let whole = model::ber(&b[..n], &['*'], 0);
			let q = Request::new(Op::Ber, hex(&b[..n]));
			let req = q.req();
			match whole {
				Ok(_) => {
					// Between two objects: accepted
				}
				Err(_) => {
					let res = ctx.run(&req);
					if res.refused() {
						ctx.event("refused: cut");
					} else {
						ctx.violation("Data cut short was not refused", &[(&req, &res)], "an error and no breakdown");
					}
				}
			}
			if ctx.stopped() {
				return;
			}
		}
	});
	for k in ["a tag cut short", "no length", "a length cut short", "a value cut short", "a huge length", "an indefinite length", "more than four length bytes"] {
		ctx.require(&format!("refused: {k}"), 50);
	}
}

pub fn c12(ctx: &Ctx) {
	ctx.many("not TLV", ctx.size(9000, 150_000), |ctx, r, i| {
		let (d, w) = (r.range(0, 3), r.range(1, 4));
		let mut f = gen::forest(r, d, w, true);
		for _ in 0..r.range(1, 3) {
			let v = not_tlv(r, i as usize);
			let o = Obj { tag: gen::constructed_tag(r), content: Content::Leaf(v) };
			put_somewhere(r, &mut f, o);
		}
		let (b, _) = gen::encode(r, &f, &['*'], 0);
		let items: Vec<(Vec<u8>, Vec<u8>)> = f
			.iter()
			.map(|o| match &o.content {
				Content::Leaf(v) => (o.tag.clone(), v.clone()),
				Content::Kids(k) => (o.tag.clone(), gen::encode(r, k, &['*'], 1).0),
			})
			.collect();
		let q = if i % 3 == 0 {
			Request::new(Op::Ingenico, gen::ingenico_hex(&items))
		} else {
			Request::new(if r.one_in(5) { Op::Auto } else { Op::Ber }, hex(&b))
		};
		if !fits(&q.value) {
			return;
		}
		let q = q.sort(r.bool());
		let fallbacks = q.wanted().map_or(0, |d| {
			let v = View::parse(&d.text());
			let mut n = 0;
			v.walk(&mut |_, x| {
				n += u64::from(unhex(&x.tag)[0] & 0x20 != 0 && x.raw.is_some() && x.kids.is_none());
			});
			n
		});
		if judge(ctx, &q, aspect::shown) {
			ctx.events("constructed values shown raw", fallbacks);
		}
	});
	// Deeper than supported: raw from there on, as for any other value that isn't TLV
	ctx.many("too deep", ctx.size(40, 600), |ctx, r, i| {
		let levels = if i % 3 == 0 { 251 } else { r.range(249, 300) };
		let mut v = gen::object_plain(&unhex("9F02"), &[1]);
		for _ in 0..levels {
			v = gen::object_plain(&[0x70], &v);
		}
		let before = gen::object_plain(&[0x5A], &[0x12, 0x34]);
		let mut b = before.clone();
		b.extend(v);
		b.extend(before);
		let q = if i % 4 == 1 {
			Request::new(Op::Ingenico, gen::ingenico_hex(&[(vec![0x70], b)]))
		} else {
			Request::new(Op::Ber, hex(&b))
		};
		if fits(&q.value) && judge(ctx, &q.sort(false), aspect::shown) {
			ctx.event("nested too deeply, shown raw there");
		}
	});
	// Siblings and ancestors do not depend on it
	ctx.many("siblings", ctx.size(1500, 30_000), |ctx, r, i| {
		let left = gen::forest(r, 1, 3, true);
		let right = gen::forest(r, 1, 3, true);
		let tag = gen::constructed_tag(r);
		let bad = not_tlv(r, i as usize);
		// Well-formed, of the same size where possible
		let good = match bad.len() {
			0 => return,
			1 => unhex("5A00"),
			n => gen::object_plain(&[0x5A], &vec![1; (n - 2).min(127)]),
		};
		let outer: Vec<Vec<u8>> = (0..r.below(3)).map(|_| gen::constructed_tag(r)).collect();
		let mut views = Vec::new();
		for middle in [&bad, &good] {
			let mut b = gen::encode(&mut r.clone(), &left, &['*'], 0).0;
			b.extend(gen::object_plain(&tag, middle));
			b.extend(gen::encode(&mut r.clone(), &right, &['*'], 0).0);
			for t in &outer {
				b = gen::object_plain(t, &b);
			}
			let q = Request::new(Op::Ber, hex(&b)).sort(false);
			let req = q.req();
			let res = ctx.run(&req);
			if !accepted(&res) {
				ctx.violation("A constructed value that is not TLV was not accepted", &[(&req, &res)], "a breakdown");
				return;
			}
			views.push((req, res));
		}
		let cut = |res: &Res| {
			let v = View::parse(&res.text());
			let mut ns: &[VNode] = &v.nodes;
			for _ in &outer {
				match ns {
					[one] => ns = one.kids(),
					_ => break,
				}
			}
			ns.iter()
				.enumerate()
				.map(|(i, n)| if i == left.len() { n.tag.clone() + "\n" } else { n.full() })
				.collect::<String>()
		};
		let (a, b) = (cut(&views[0].1), cut(&views[1].1));
		if a == b {
			ctx.event("siblings and ancestors shown the same");
		} else {
			ctx.violation(
				&format!("A sibling is shown differently next to a value that is not TLV: {}", difference(&a, &b)),
				&[(&views[0].0, &views[0].1), (&views[1].0, &views[1].1)],
				"the same siblings",
			);
		}
	});
	ctx.require("constructed values shown raw", 1000);
	ctx.require("nested too deeply, shown raw there", 5);
}

/// A value that does not consist of whole TLV objects.
fn not_tlv(r: &mut Rng, i: usize) -> Vec<u8> {
	for _ in 0..100 {
		let v = match r.below(6) {
			5 => {
				// Good objects with something short after them, such as a status word
				let f = gen::forest(r, 1, 3, true);
				let mut b = gen::encode(r, &f, &['*'], 0).0;
				b.extend(match r.below(8) {
					0 => vec![0x61, r.byte()],
					1 => vec![0x6C, r.byte()],
					2 => vec![0x90, 0],
					3 => vec![0x60 | r.below(16) as u8, r.byte()],
					4 => vec![*r.pick(&[0, 0xFF, 0x80, 0x20, 0x0A]); r.range(1, 9)],
					5 => b.last().map(|l| vec![*l]).unwrap_or_default(),
					6 => vec![b.iter().fold(0, |a, x| a ^ x)],
					_ => {
						let n = r.range(1, 2);
						r.bytes(n)
					}
				});
				b
			}
			0 => malformed(r, i % 7).1,
			1 => {
				// Good objects first
				let f = gen::forest(r, 1, 3, true);
				let mut b = gen::encode(r, &f, &['*'], 0).0;
				b.extend(malformed(r, i % 7).1);
				b
			}
			2 => {
				let f = gen::forest(r, 1, 3, true);
				let mut b = gen::encode(r, &f, &['*'], 0).0;
				b.pop();
				b
			}
			3 => {
				let n = r.range(1, 40);
				gen::content(r, n)
			}
			_ => {
				let n = r.range(1, 3);
				r.bytes(n)
			}
		};
		if !v.is_empty() && model::ber(&v, &['*'], 0).is_err() && !model::bytes_masked(&v, &['*']) {
			return v;
		}
	}
	vec![0x5A]
}

fn put_somewhere(r: &mut Rng, f: &mut Vec<Obj>, o: Obj) {
	let inner: Vec<usize> = (0..f.len()).filter(|i| matches!(f[*i].content, Content::Kids(_))).collect();
	if !inner.is_empty() && r.bool() {
		let i = *r.pick(&inner);
		if let Content::Kids(k) = &mut f[i].content {
			return put_somewhere(r, k, o);
		}
	}
	let at = r.below(f.len() + 1);
	f.insert(at, o);
}

pub fn c13(ctx: &Ctx) {
	ctx.many("alone and elsewhere", ctx.size(5500, 90_000), |ctx, r, i| {
		let (tag, value) = match i % 6 {
			0..=2 => {
				let t = gen::parsed_tag(r);
				let v = if r.one_in(6) { gen::odd_value(r, &t) } else { gen::good_value(r, &t) };
				(t, v)
			}
			3 => {
				let f = gen::forest(r, 2, 3, true);
				(gen::constructed_tag(r), gen::encode(r, &f, &['*'], 0).0)
			}
			4 => (gen::constructed_tag(r), not_tlv(r, i as usize)),
			_ => (gen::any_tag(r), gen::any_value(r)),
		};
		let alone = Request::new(Op::Ber, hex(&gen::object_plain(&tag, &value))).sort(false);
		let areq = alone.req();
		let ares = ctx.run(&areq);
		for _ in 0..2 {
			// Somewhere in a tree
			let depth = if r.one_in(12) { r.range(5, 60) } else { r.below(5) };
			let mut b = Vec::new();
			let mut path = Vec::new();
			let mut inner = gen::object(r, &tag, &value);
			for level in 0..=depth {
				let mut before = 0;
				let mut all = Vec::new();
				if depth < 8 {
					for _ in 0..r.below(3) {
						let o = neighbour(r, &tag, &value);
						all.extend(gen::object_plain(&o.0, &o.1));
						before += 1;
					}
				}
				all.extend(&inner);
				if depth < 8 {
					for _ in 0..r.below(3) {
						let o = neighbour(r, &tag, &value);
						all.extend(gen::object_plain(&o.0, &o.1));
					}
				}
				path.push(before);
				if level == depth {
					b = all;
				} else {
					if model::bytes_masked(&all, &['*']) {
						return;
					}
					inner = gen::object(r, &gen::constructed_tag(&mut r.clone()), &all);
				}
			}
			path.reverse();
			let q = Request::new(Op::Ber, hex(&b)).sort(false);
			if !fits(&q.value) {
				continue;
			}
			let req = q.req();
			let res = ctx.run(&req);
			if !accepted(&ares) {
				if accepted(&res) {
					ctx.violation("A value refused alone is accepted elsewhere", &[(&areq, &ares), (&req, &res)], "the same treatment");
				} else {
					ctx.event("refused alike");
				}
				continue;
			}
			if q.wanted().is_err() {
				// Because of something else in it
				ctx.event("skipped: generated ambiguously");
				continue;
			}
			let (va, vb) = (View::parse(&ares.text()), View::parse(&res.text()));
			let a = only(&va).map(VNode::full);
			let mut at: &[VNode] = &vb.nodes;
			let mut found = None;
			for (i, p) in path.iter().enumerate() {
				match at.get(*p) {
					Some(n) if i + 1 == path.len() => found = Some(n.full()),
					Some(n) => at = n.kids(),
					None => break,
				}
			}
			if a.is_some() && a == found {
				ctx.event(&format!("explained alike at depth {}", if depth > 4 { "over 4".to_owned() } else { depth.to_string() }));
			} else {
				ctx.violation(
					&format!(
						"A tag is explained differently elsewhere: {}",
						difference(&found.unwrap_or_default(), &a.unwrap_or_default())
					),
					&[(&areq, &ares), (&req, &res)],
					"the same breakdown apart from indentation",
				);
			}
		}
	});
	// Several of a few, sorted or not: each is shown as often as it is there
	ctx.many("repeated", ctx.size(2500, 40_000), |ctx, r, _| {
		let mut pool: Vec<(Vec<u8>, String)> = Vec::new();
		let sort = r.bool();
		for _ in 0..r.range(1, 4) {
			let (tag, value) = match r.below(6) {
				0 | 1 => {
					let t = gen::parsed_tag(r);
					let v = gen::good_value(r, &t);
					(t, v)
				}
				2 | 3 => {
					let f = gen::forest(r, 2, 3, true);
					(gen::constructed_tag(r), gen::encode(r, &f, &['*'], 0).0)
				}
				4 if !pool.is_empty() => {
					// The same content as another one
					let (tag, v) = (gen::any_tag(r), pool[0].0.clone());
					(tag, v)
				}
				_ => (gen::any_tag(r), gen::any_value(r)),
			};
			let o = gen::object(r, &tag, &value);
			if o.len() > 2000 {
				continue;
			}
			let req = Request::new(Op::Ber, hex(&o)).sort(sort).req();
			let res = ctx.run(&req);
			if let (true, Some(n)) = (accepted(&res), only(&View::parse(&res.text()))) {
				pool.push((o, n.full()));
			}
		}
		if pool.is_empty() {
			return;
		}
		let n = *r.pick(&[2, 2, 2, 3, 3, 4, 5, 8, 20, 40]);
		let mut b = Vec::new();
		let mut want = Vec::new();
		for _ in 0..n {
			let (o, t) = r.pick(&pool);
			b.extend(o);
			want.push(t.clone());
		}
		let depth = if r.bool() { 0 } else { r.range(1, 4) };
		for _ in 0..depth {
			if model::bytes_masked(&b, &['*']) {
				return;
			}
			b = gen::object(r, &unhex("70"), &b);
		}
		let q = Request::new(Op::Ber, hex(&b)).sort(sort);
		if !fits(&q.value) || q.wanted().is_err() {
			return;
		}
		let req = q.req();
		let res = ctx.run(&req);
		let v = View::parse(&res.text());
		let mut at: &[VNode] = &v.nodes;
		for _ in 0..depth {
			at = at.first().map_or(&[], |n| n.kids());
		}
		let mut got: Vec<String> = at.iter().map(VNode::full).collect();
		if sort {
			got.sort();
			want.sort();
		}
		if accepted(&res) && got == want {
			ctx.event("each of several shown as alone");
		} else {
			ctx.violation(
				&format!(
					"Of {n} objects next to each other {} are shown as alone",
					want.iter().filter(|w| got.contains(w)).count().min(got.len())
				),
				&[(&req, &res)],
				&want.concat(),
			);
		}
	});
	ctx.require("each of several shown as alone", 1000);
	// Among very many others
	ctx.many("many siblings", ctx.size(30, 400), |ctx, r, i| {
		let tag = gen::parsed_tag(r);
		let value = gen::good_value(r, &tag);
		if value.len() > 300 {
			return;
		}
		let alone = Request::new(Op::Ber, hex(&gen::object_plain(&tag, &value))).sort(false);
		let areq = alone.req();
		let ares = ctx.run(&areq);
		let sa = View::parse(&ares.text());
		let Some(shown) = only(&sa).map(VNode::full) else { return };
		let n = *r.pick(&[100, 127, 128, 255, 256, 257, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 5000, 8192, 10_000]);
		let sibling = match r.below(3) {
			0 => unhex("5000"),
			1 => unhex("5A0112"),
			_ => unhex("C000"),
		};
		let deep = r.one_in(3);
		let mut b = sibling.repeat(n);
		b.extend(gen::object_plain(&tag, &value));
		let (q, among) = if deep {
			// Not on the outside
			let after = r.below(3);
			b.extend(sibling.repeat(after));
			(Request::new(Op::Ber, hex(&gen::object(r, &[0x70], &b))).sort(false), n)
		} else if i % 2 == 0 {
			(Request::new(Op::Ber, hex(&b)).sort(false), n)
		} else {
			let t = &sibling[..1];
			let mut items = vec![(t.to_vec(), sibling[2..].to_vec()); n.min(2500)];
			items.push((tag.clone(), value.clone()));
			(Request::new(Op::Ingenico, gen::ingenico_hex(&items)).sort(false), n.min(2500))
		};
		if !fits(&q.value) || q.wanted().is_err() {
			return;
		}
		let req = q.req();
		let res = ctx.run(&req);
		let v = View::parse(&res.text());
		let at = if deep { v.nodes.first().map(|n| n.kids()).unwrap_or_default() } else { &v.nodes[..] };
		let found = at.get(among).map(VNode::full);
		if found.as_ref() == Some(&shown) {
			ctx.event("explained alike among many");
		} else {
			ctx.violation(
				&format!("A tag is explained differently among many: {}", difference(&found.unwrap_or_default(), &shown)),
				&[(&areq, &ares), (&req, &res)],
				"the same breakdown apart from indentation",
			);
		}
	});
	ctx.require("explained alike among many", 10);
	ctx.many("joined", ctx.size(1800, 30_000), |ctx, r, i| {
		let part = |r: &mut Rng| loop {
			if i % 2 == 0 {
				let b = gen::ber_block(r);
				if !b.is_empty() {
					break hex(&b);
				}
			} else {
				let s = gen::ingenico_block(r);
				if model::ingenico(&s, &['*']).is_ok_and(|n| !n.is_empty()) {
					break s;
				}
			}
		};
		let a = part(r);
		let b = if r.one_in(5) { a.clone() } else { part(r) };
		let (op, joined) = if i % 2 == 0 {
			(Op::Ber, format!("{a}{b}"))
		} else {
			// Exactly one separator in between
			let n = {
				let mut n = a.len();
				while n > 0 && model::ingenico(&a[..n - 1], &['*']) == model::ingenico(&a, &['*']) {
					n -= 1;
				}
				n
			};
			(Op::Ingenico, format!("{},{b}", &a[..n]))
		};
		if !fits(&joined) {
			return;
		}
		let run = |s: &str| {
			let q = Request::new(op, s).sort(false);
			(ctx.run(&q.req()), q)
		};
		let (ra, qa) = run(&a);
		let (rb, qb) = run(&b);
		let (rj, qj) = run(&joined);
		if accepted(&ra) && accepted(&rb) {
			let want = format!("{}\n{}", ra.text(), rb.text());
			if accepted(&rj) && rj.text() == want {
				ctx.event("joined blocks shown as their parts");
			} else {
				ctx.violation(
					&format!("Joined blocks are not shown as their parts: {}", difference(&rj.text(), &want)),
					&[(&qa.req(), &ra), (&qb.req(), &rb), (&qj.req(), &rj)],
					&want,
				);
			}
		} else if accepted(&rj) {
			ctx.violation(
				"Joined blocks are accepted although one of them is not",
				&[(&qa.req(), &ra), (&qb.req(), &rb), (&qj.req(), &rj)],
				"an error",
			);
		} else {
			ctx.event("joined blocks refused as their parts");
		}
	});
	ctx.require("explained alike at depth 0", 100);
	ctx.require("explained alike at depth 3", 100);
	ctx.require("joined blocks shown as their parts", 200);
}

/// Something acceptable to stand next to a tag.
fn neighbour(r: &mut Rng, tag: &[u8], value: &[u8]) -> (Vec<u8>, Vec<u8>) {
	match r.below(6) {
		// The very same, which may be unacceptable
		5 => (tag.to_vec(), value.to_vec()),
		0 => {
			// The same tag with another value
			let v = gen::good_value(r, tag);
			(tag.to_vec(), v)
		}
		1 | 2 => {
			let t = gen::parsed_tag(r);
			let v = gen::good_value(r, &t);
			(t, v)
		}
		3 => (gen::constructed_tag(r), not_tlv(r, 3)),
		_ => {
			let t = gen::opaque_tag(r);
			let n = r.below(20);
			(t, gen::content(r, n))
		}
	}
}

// ---------------------------------------------------------------------------------------------
// Ingenico

pub fn c14(ctx: &Ctx) {
	edits(ctx, "single changes", SHORT_INGENICO, false, if ctx.quick() { 4 } else { 1 }, |ctx, _, b| {
		let Ok(s) = String::from_utf8(b.to_vec()) else { return };
		let q = Request::new(Op::Ingenico, s).sort(false);
		if !fits(&q.value) {
			return;
		}
		if let Ok(want) = q.wanted() {
			let req = q.req();
			let res = ctx.run(&req);
			judge_res(ctx, &req, &res, &Ok(want), aspect::structure);
		}
	});
	ctx.many("fields", ctx.size(14_000, 220_000), |ctx, r, i| {
		let n = match i % 20 {
			0 => r.range(20, 120),
			_ => r.range(1, 7),
		};
		let mut fields = Vec::new();
		let mut nodes = Vec::new();
		for _ in 0..n {
			if r.one_in(5) {
				fields.push(gen::other_field(r));
				continue;
			}
			let (tag, value) = match r.below(8) {
				0 => {
					let f = gen::forest(r, 2, 3, true);
					let (b, _) = gen::encode(r, &f, &['*'], 1);
					(gen::constructed_tag(r), b)
				}
				1 | 2 => {
					let t = gen::parsed_tag(r);
					let v = gen::good_value(r, &t);
					(t, v)
				}
				3 => {
					// Identifiers that are no BER tags
					let n = r.range(1, 5);
					let mut t = r.bytes(n);
					t[0] |= 1;
					if gen::is_parsed(&t) {
						t = vec![0x5A];
					}
					(t, gen::any_value(r))
				}
				4 if n < 20 && r.one_in(20) => {
					let n = *r.pick(&[255, 256, 4096, 20_000, 30_000]);
					(gen::opaque_tag(r), gen::content(r, n))
				}
				5 if r.one_in(4) => (gen::constructed_tag(r), gen::printable_tlv(r, 1)),
				_ => (gen::opaque_tag(r), gen::any_value(r)),
			};
			let f = gen::emv_field(r, &tag, &value);
			let chars: Vec<char> = f.text.chars().collect();
			let masked = model::all_masked(&chars, &['*']);
			nodes.push(model::make_node(tag, if masked { &[] } else { &value }, masked, &['*'], 0));
			fields.push(f);
		}
		let s = gen::join_fields(r, &fields);
		if !fits(&s) {
			return;
		}
		if !agree(ctx, &nodes, model::ingenico(&s, &['*']), "Ingenico data") {
			return;
		}
		for f in &fields {
			ctx.event(if f.kind != 'T' {
				"fields of other types"
			} else if f.format == 'a' {
				"fields with text"
			} else {
				"fields with hex data"
			});
		}
		let q = Request::new(Op::Ingenico, s).sort(r.one_in(6));
		let req = q.req();
		let res = ctx.run(&req);
		judge_res(ctx, &req, &res, &model::show_nodes(nodes, q.set.sort), aspect::structure);
	});
	// As much as an argument holds
	ctx.many("large fields", ctx.size(60, 400), |ctx, r, i| {
		let n = match i % 6 {
			0 => *r.pick(&[32_767, 32_768, 65_534, 65_535, 65_536, 65_537]),
			1 | 2 => r.range(65_536, 65_600),
			3 => r.range(65_536, 130_000),
			_ => r.range(30_000, 65_000),
		};
		let tag = gen::opaque_tag(r);
		let f = if i % 6 < 4 {
			let text = (0..n).map(|_| char::from(r.range(32, 126) as u8)).collect();
			Field { kind: if r.one_in(4) { 'X' } else { 'T' }, id: tag, format: 'a', text }
		} else {
			Field { kind: if r.one_in(4) { 'X' } else { 'T' }, id: tag, format: 'h', text: hex(&r.bytes(n)) }
		};
		let mut s = gen::field_text(r, &f);
		if r.bool() {
			s.push_str("~T50:02:h4142");
		}
		if fits(&s) {
			ctx.event("large fields");
			judge(ctx, &Request::new(Op::Ingenico, s).sort(false), aspect::structure);
		}
	});
	// Any separator
	ctx.many("separators", 127 * 4, |ctx, r, i| {
		let c = char::from((i % 127) as u8 + 1);
		// The type of the field in between
		let kind = match i / 127 {
			0 => 'T',
			1 => c,
			2 => match c {
				'\r' => '\n',
				'\n' => '\r',
				'\'' | '"' | '`' => ',',
				_ => *r.pick(&['\n', ' ', c, ',', '\t']),
			},
			_ => char::from(r.range(1, 127) as u8),
		};
		let mk = |r: &mut Rng, kind: char| {
			let t = gen::opaque_tag(r);
			let n = r.below(6);
			let v = r.bytes(n);
			let mut f = gen::emv_field(r, &t, &v);
			f.kind = kind;
			gen::field_text(r, &f)
		};
		let s = format!("{}{c}{}{c}{}", mk(r, 'T'), mk(r, kind), mk(r, 'T'));
		for s in [s.clone(), format!("{s}{c}")] {
			judge(ctx, &Request::new(Op::Ingenico, s).sort(false), aspect::structure);
		}
	});
	// Any text
	ctx.many("text", ctx.size(200, 2000), |ctx, r, i| {
		let v: Vec<u8> = if i == 0 {
			(1..128).collect()
		} else {
			let n = r.range(1, 60);
			(0..n).map(|_| r.range(1, 127) as u8).collect()
		};
		let t = gen::opaque_tag(r);
		let s = format!("T{}:{:02x}:a{},T9A:03:h210101", hex(&t), v.len(), String::from_utf8_lossy(&v));
		judge(ctx, &Request::new(Op::Ingenico, s).sort(false), aspect::structure);
	});
	ctx.require("shown", 1000);
}

pub fn c15(ctx: &Ctx) {
	edits(ctx, "single changes", SHORT_INGENICO, false, if ctx.quick() { 4 } else { 1 }, |ctx, _, b| {
		// Bytes from 128 are given as the character with that number
		let s: String = b.iter().map(|b| char::from(*b)).collect();
		if !fits(&s) || model::ingenico(&s, &['*']).is_ok() {
			return;
		}
		let req = Request::new(Op::Ingenico, s).req();
		let res = ctx.run(&req);
		if res.refused() {
			ctx.event("refused: single changes");
		} else {
			ctx.violation("Malformed data was not refused", &[(&req, &res)], "an error and no breakdown");
		}
	});
	ctx.many("malformed", ctx.size(16_000, 250_000), |ctx, r, i| {
		let n = r.range(1, 5);
		let mut texts: Vec<String> = (0..n)
			.map(|_| {
				let f = if r.one_in(4) {
					gen::other_field(r)
				} else {
					let t = gen::opaque_tag(r);
					let k = r.below(12);
					let v = gen::content(r, k);
					gen::emv_field(r, &t, &v)
				};
				gen::field_text(r, &f)
			})
			.collect();
		let at = match i % 3 {
			0 => 0,
			1 => n - 1,
			_ => r.below(n),
		};
		let kind = if r.one_in(3) { *r.pick(&['C', 'D', 'X', 't', ' ']) } else { 'T' };
		let id = hex(&gen::opaque_tag(r));
		let len = r.range(1, 8);
		let data = r.bytes(len);
		let l = format!("{len:02X}");
		let h = hex(&data);
		let not_hex = *r.pick(&['g', 'G', ' ', '-', '+', 'x', '.', '/', '@', '`']);
		let mut h2 = h.clone();
		let p = r.below(h.len());
		h2.replace_range(p..=p, &not_hex.to_string());
		let last = at + 1 == n;
		let (what, bad) = match i % 20 {
			0 => ("an identifier of half bytes", format!("{kind}{}:{l}:h{h}", &id[1..])),
			1 => ("an identifier of half bytes", format!("{kind}{id}0:{l}:h{h}")),
			2 => ("no identifier", format!("{kind}:{l}:h{h}")),
			3 => {
				let mut x = id.clone();
				let p = r.below(x.len());
				x.replace_range(p..=p, &not_hex.to_string());
				("an identifier that is no hex", format!("{kind}{x}:{l}:h{h}"))
			}
			4 => ("a length of half bytes", format!("{kind}{id}:{len:X}:h{h}")),
			5 => ("a length of half bytes", format!("{kind}{id}:{len:03X}:h{h}")),
			6 => {
				let mut x = l.clone();
				let p = r.below(2);
				x.replace_range(p..=p, &not_hex.to_string());
				("a length that is no hex", format!("{kind}{id}:{x}:h{h}"))
			}
			7 => ("hex data that is no hex", format!("{kind}{id}:{l}:h{h2}")),
			8 => {
				let f = *r.pick(&['A', 'H', 'b', 'x', ':', '0', ' ', 'F', ',', 'g', 'i', '`']);
				("an unknown data format", format!("{kind}{id}:{l}:{f}{h}"))
			}
			9 => ("no data format", format!("{kind}{id}:{l}:")),
			10 => ("no data", format!("{kind}{id}:{l}:h")),
			11 => ("no length", format!("{kind}{id}:")),
			12 => ("no separators", format!("{kind}{id}")),
			13 => ("only a type", format!("{kind}")),
			14 => ("less hex data than declared", format!("{kind}{id}:{l}:h{}", &h[..r.below(h.len())])),
			15 => {
				let k = r.below(len);
				("less text than declared", format!("{kind}{id}:{l}:a{}", "q".repeat(k)))
			}
			16 => {
				let x = *r.pick(&["FFFFFFFF", "7FFFFFFF", "80000000", "00FFFFFF", "FFFF", "80000001", "7FFFFFFF", "C0000000"]);
				let f = *r.pick(&['a', 'h']);
				("a huge length", format!("{kind}{id}:{x}:{f}{h}"))
			}
			17 => ("non-ASCII text", format!("{kind}{id}:02:aé")),
			18 => {
				let c = *r.pick(&["é", "漢", "\u{80}", "😀", "ｆ"]);
				("non-ASCII text", format!("{kind}{id}{c}:{l}:h{h}"))
			}
			_ => {
				let x = *r.pick(&["0000000001", "FFFFFFFFFF", "FFFFFFFFFFFFFFFF", "10000000000000001"]);
				("a length of too many bytes", format!("{kind}{id}:{x}:h{h}"))
			}
		};
		// Data that is missing has to be missing at the end, or what follows is taken for it
		let must_be_last = matches!(i % 20, 9..=16);
		if must_be_last && !last {
			texts.truncate(at + 1);
		}
		texts[at] = bad;
		let mut s = texts.join(",");
		if r.one_in(4) && !must_be_last {
			s.push(',');
		}
		if model::ingenico(&s, &['*']).is_ok() {
			// By coincidence something else
			ctx.event("well-formed by coincidence");
			return;
		}
		let q = Request::new(Op::Ingenico, s).sort(r.bool());
		let req = q.req();
		let res = ctx.run(&req);
		if res.refused() {
			ctx.event(&format!("refused: {what}"));
		} else {
			ctx.violation(&format!("Malformed data was not refused: {what}"), &[(&req, &res)], "an error and no breakdown");
		}
	});
	// Masked data that's shorter or longer than declared
	ctx.many("masked lengths", ctx.size(4000, 60_000), |ctx, r, i| {
		let masks = if i % 3 == 0 { gen::masks(r) } else { vec!['*'] };
		let m = if r.one_in(8) { *r.pick(&['*', 'X', 'x', '0', '.', '?', ' ', 'F', ',']) } else { *r.pick(&masks) };
		let id = gen::opaque_tag(r);
		let len = if r.one_in(5) { r.range(10, 200) } else { r.range(1, 9) };
		let f = if r.one_in(4) { 'a' } else { 'h' };
		let full = if f == 'h' { 2 * len } else { len };
		let k = match r.below(9) {
			0..=2 => len,
			3 => full - 1,
			4 => full + 1,
			5 => 2 * full,
			6 => 4 * len,
			7 => 1,
			_ => r.below(2 * full + 1),
		};
		let mut s = String::new();
		let other = |r: &mut Rng, s: &mut String| {
			let t = gen::opaque_tag(r);
			let n = r.below(6);
			let v = r.bytes(n);
			let x = gen::emv_field(r, &t, &v);
			s.push_str(&gen::field_text(r, &x));
		};
		for _ in 0..r.below(3) {
			other(r, &mut s);
			s.push(',');
		}
		let kind = if r.one_in(4) { *r.pick(&['C', 'D']) } else { 'T' };
		s.push_str(&format!("{kind}{}:{len:02X}:{f}{}", hex(&id), String::from(m).repeat(k)));
		if i % 2 == 0 {
			for _ in 0..r.range(1, 3) {
				s.push(*r.pick(&[',', ';', '\n', '~', '|']));
				other(r, &mut s);
			}
		}
		if !fits(&s) || model::ingenico(&s, &masks).is_ok() {
			ctx.event("well-formed by coincidence");
			return;
		}
		let req = Request::new(Op::Ingenico, s).masks(&masks).sort(r.bool()).req();
		let res = ctx.run(&req);
		if res.refused() {
			ctx.event("refused: masked data of another length");
		} else {
			ctx.violation("Malformed data was not refused: masked data of another length", &[(&req, &res)], "an error and no breakdown");
		}
	});
	ctx.require("refused: masked data of another length", 500);
	// More than one character between two fields, or before the first, or after the last
	ctx.many("separators", 127 * ctx.size(6, 100), |ctx, r, i| {
		let c = char::from((i % 127) as u8 + 1);
		let d = match r.below(4) {
			0 => *r.pick(&['\n', ' ', ',', '\t', ';', '\r']),
			1 => char::from(r.range(1, 127) as u8),
			_ => c,
		};
		let mut sep = format!("{c}{d}");
		while r.one_in(3) {
			sep.push(if r.bool() { c } else { d });
		}
		let mk = |r: &mut Rng| {
			let t = gen::opaque_tag(r);
			let n = r.below(6);
			let v = r.bytes(n);
			let f = gen::emv_field(r, &t, &v);
			gen::field_text(r, &f)
		};
		let s = match i / 127 % 6 {
			0 | 1 => format!("{}{sep}{}", mk(r), mk(r)),
			2 => format!("{}{c}{}{sep}", mk(r), mk(r)),
			3 => format!("{c}{}{c}{}", mk(r), mk(r)),
			4 => format!("{}{sep}{}{sep}{}{sep}", mk(r), mk(r), mk(r)),
			_ => format!("{}{c}{c}{}{d}{d}", mk(r), mk(r)),
		};
		if model::ingenico(&s, &['*']).is_ok() {
			ctx.event("well-formed by coincidence");
			return;
		}
		let req = Request::new(Op::Ingenico, s).sort(r.bool()).req();
		let res = ctx.run(&req);
		if res.refused() {
			ctx.event("refused: too many separators");
		} else {
			ctx.violation("Malformed data was not refused: too many separators", &[(&req, &res)], "an error and no breakdown");
		}
	});
	ctx.require("refused: too many separators", 300);
	// Anything else that is malformed
	ctx.many("mutated", ctx.size(5000, 100_000), |ctx, r, _| {
		let mut s = gen::ingenico_block(r);
		gen::mutate_text(r, &mut s);
		if !fits(&s) {
			return;
		}
		if model::ingenico(&s, &['*']).is_err() {
			let q = Request::new(Op::Ingenico, s);
			let req = q.req();
			let res = ctx.run(&req);
			if res.refused() {
				ctx.event("refused: damaged at random");
			} else {
				ctx.violation("Malformed data was not refused", &[(&req, &res)], "an error and no breakdown");
			}
		}
	});
	// Every way of cutting a block short
	ctx.many("cut", ctx.size(120, 2400), |ctx, r, _| {
		let mut fields = Vec::new();
		for _ in 0..r.range(1, 3) {
			let t = gen::opaque_tag(r);
			let k = r.below(6);
			let v = r.bytes(k);
			fields.push(gen::emv_field(r, &t, &v));
		}
		let s = gen::join_fields(r, &fields);
		for n in 1..s.len() {
			if ctx.stopped() {
				return;
			}
			if model::ingenico(&s[..n], &['*']).is_err() {
				let q = Request::new(Op::Ingenico, &s[..n]);
				let req = q.req();
				let res = ctx.run(&req);
				if res.refused() {
					ctx.event("refused: cut");
				} else {
					ctx.violation("Data cut short was not refused", &[(&req, &res)], "an error and no breakdown");
				}
			}
		}
	});
	ctx.require("refused: an identifier of half bytes", 100);
	ctx.require("refused: damaged at random", 100);
}

// ---------------------------------------------------------------------------------------------
// Formats

/// Automatic detection against the explicit options.
fn detected(ctx: &Ctx, r: &mut Rng, value: String) {
	if !fits(&value) {
		return;
	}
	let set = Settings {
		sort:  r.bool(),
		masks: if r.one_in(4) { gen::masks(r) } else { vec!['*'] },
	};
	let ask = |op| {
		let q = Request { op, value: value.clone(), set: set.clone() };
		let req = q.req();
		let res = ctx.run(&req);
		(req, res)
	};
	let (qa, a) = ask(Op::Auto);
	let digits = value.chars().filter(char::is_ascii_hexdigit).count();
	let kind = if digits < 2 {
		None
	} else if model::ingenico(&value, &set.masks).is_ok() {
		Some((Op::Ingenico, "Ingenico"))
	} else if model::read_hex(&value).and_then(|b| model::ber(&b, &set.masks, 0)).is_ok() {
		Some((Op::Ber, "BER-TLV"))
	} else {
		None
	};
	let Some((op, name)) = kind else {
		if a.refused() {
			ctx.event("neither format: refused");
		} else {
			ctx.violation("Input in neither format was not refused", &[(&qa, &a)], "an error and no breakdown");
		}
		return;
	};
	let (qe, e) = ask(op);
	if accepted(&e) {
		let want = format!("TLV Format: {name}\n\n{}", e.text());
		if accepted(&a) && a.text() == want {
			ctx.event(&format!("{name}: shown as with the explicit option"));
		} else {
			ctx.violation(
				&format!("Automatic detection shows something else than {name}: {}", difference(&a.text(), &want)),
				&[(&qa, &a), (&qe, &e)],
				&want,
			);
		}
	} else if a.refused() && a.err == e.err {
		ctx.event(&format!("{name}: refused as with the explicit option"));
	} else if a.refused() {
		ctx.violation(
			&format!("Automatic detection gives another reason than the explicit option for refusing {name} data"),
			&[(&qa, &a), (&qe, &e)],
			&e.etext(),
		);
	} else {
		ctx.violation(
			&format!("Automatic detection accepts {name} data that the explicit option refuses"),
			&[(&qa, &a), (&qe, &e)],
			"an error and no breakdown",
		);
	}
}

pub fn c16(ctx: &Ctx) {
	ctx.many("formats", ctx.size(7400, 110_000), |ctx, r, i| {
		let value = match i % 16 {
			14 | 15 => {
				// Data of any length with a digit missing or too many, or something after it
				let mut b = gen::ber_block(r);
				while r.bool() {
					b.extend(gen::ber_block(r));
				}
				let mut s: Vec<char> = gen::some_hex(r, &b).chars().collect();
				match r.below(4) {
					_ if s.is_empty() => (),
					0 => {
						let p = r.below(s.len());
						s.remove(p);
					}
					1 => s.push(*r.pick(&['0', '1', 'F', 'g', ' '])),
					2 => s.extend(*r.pick(&[&['0', '0'], &['9', '0'], &['0', ' ']])),
					_ => {
						let p = r.below(s.len() + 1);
						s.insert(p, *r.pick(&['0', '5', 'a', 'T', ':', 'x', 'X', '\\']));
					}
				}
				s.into_iter().collect()
			}
			0 | 1 => {
				let b = gen::ber_block(r);
				gen::some_hex(r, &b)
			}
			2 | 3 => gen::ingenico_block(r),
			4 => {
				let mut s = gen::ingenico_block(r);
				gen::mutate_text(r, &mut s);
				s
			}
			5 => {
				let mut b = gen::ber_block(r);
				gen::mutate(r, &mut b);
				gen::some_hex(r, &b)
			}
			6 => {
				// Ingenico data whose hex digits also make up BER-TLV data
				let n = r.below(10);
				let v = r.bytes(n);
				format!("{}5A:{:02X}:h{}", *r.pick(&['T', 'X']), n, hex(&v))
			}
			7 => {
				// BER-TLV data that looks like Ingenico data at first
				let n = r.below(10);
				let v = r.bytes(n);
				format!("T5A:{:02X}:{}{}", n, *r.pick(&['x', 'H', 'g']), hex(&v))
			}
			8 => (*r.pick(&["zz", "-", "T", ":", "5", "5A", "5A0", "5A00", "é", "TT::", "T5A:00:h", "T5A:00:a", "T5A::h", "X01:00:a", "g", "0", " 1 ", "x1y2z", "T:", "\n"])).to_owned(),
			9 => {
				// An unacceptable value in either
				let t = gen::parsed_tag(r);
				let v = gen::odd_value(r, &t);
				if r.bool() {
					gen::ingenico_hex(&[(t, v)])
				} else {
					hex(&gen::object_plain(&t, &v))
				}
			}
			10 => {
				let n = r.range(1, 12);
				let b = r.bytes(n);
				hex(&b)
			}
			11 | 12 => {
				// A small change
				let b = if r.bool() { r.pick(SHORT_BER) } else { r.pick(SHORT_INGENICO) }.as_bytes();
				let n = r.below((b.len() + 1) * 513);
				edited(b, n).unwrap_or_default().iter().map(|b| char::from(*b)).collect()
			}
			_ => {
				let n = r.range(1, 20);
				(0..n).map(|_| *r.pick(&['T', ':', 'a', 'h', '0', '1', '5', 'A', ',', 'é', 'z'])).collect()
			}
		};
		detected(ctx, r, value);
	});
	// Every character around data of either format
	let chars: Vec<char> = (1..=126u8).map(char::from).chain("\u{7f}\u{85}\u{a0}\u{ad}\u{3000}\u{200b}\u{feff}\u{2028}é漢😀".chars()).collect();
	let ways = 2 * 6;
	ctx.many("surrounded", (chars.len() * ways) as u64 * ctx.size(1, 40), |ctx, r, i| {
		let c = chars[i as usize / ways % chars.len()];
		let way = i as usize % ways;
		let base = if way % 2 == 0 {
			if r.bool() { gen::ingenico_block(r) } else { (*r.pick(SHORT_INGENICO)).to_owned() }
		} else if r.bool() {
			let b = gen::ber_block(r);
			gen::some_hex(r, &b)
		} else {
			(*r.pick(SHORT_BER)).to_owned()
		};
		let base: String = base.chars().take(2000).collect();
		let run: String = std::iter::repeat(c).take(r.range(1, 3)).collect();
		let value = match way / 2 {
			0 => format!("{c}{base}"),
			1 => format!("{base}{c}"),
			2 => format!("{c}{base}{c}"),
			3 => format!("{run}{base}"),
			4 => format!("{base}{run}"),
			_ => format!("{run}{base}{}", *r.pick(&chars)),
		};
		detected(ctx, r, value);
	});
	// What people write before and after hex
	let marks = [
		("0x", ""), ("0X", ""), ("\\x", ""), ("#", ""), ("hex:", ""), ("HEX ", ""), ("h'", "'"), ("H'", "'"), ("x'", "'"), ("b'", "'"),
		("$", ""), ("&H", ""), ("16#", "#"), ("base64:", ""), ("", "h"), ("", "H"), ("'", "'"), ("\"", "\""), ("[", "]"), ("(", ")"), ("{", "}"),
		("<", ">"), ("%", ""), ("0x ", ""), ("0h", ""), ("data=", ""), ("TLV:", ""), ("tlv ", ""), ("T", ""), ("X", ""), ("\u{feff}", ""), ("", "\r\n"),
		("", "\n"), ("\t", ""), ("", ";"), ("", ","), (",", ""), ("", "."), ("`", "`"), ("", "9000"), ("", "00"), ("00", ""), ("", "=="), ("-", ""), ("--", ""),
		("", "..."), ("> ", ""), ("< ", ""), ("# ", ""), ("// ", ""), ("0000: ", ""), ("STX", "ETX"), ("\u{2}", "\u{3}"), ("", "\\"), ("\\", ""), ("0b", ""), ("+", ""),
	];
	ctx.many("marked", marks.len() as u64 * ctx.size(12, 200), |ctx, r, i| {
		let (before, after) = marks[i as usize % marks.len()];
		let base = match r.below(5) {
			0 => gen::ingenico_block(r),
			1 => (*r.pick(SHORT_INGENICO)).to_owned(),
			2 => (*r.pick(SHORT_BER)).to_owned(),
			3 => {
				let b = gen::ber_block(r);
				hex(&b)
			}
			_ => {
				// On every byte
				let b = gen::ber_block(r);
				let sep = *r.pick(&["", " ", ", ", ","]);
				let s = b.iter().map(|b| format!("{before}{b:02x}{after}")).collect::<Vec<_>>().join(sep);
				return detected(ctx, r, s);
			}
		};
		let value = if r.one_in(4) { format!("{before}{base}") } else { format!("{before}{base}{after}") };
		detected(ctx, r, value);
	});
	for k in ["neither format: refused", "Ingenico: shown as with the explicit option", "BER-TLV: shown as with the explicit option"] {
		ctx.require(k, 200);
	}
	for k in ["Ingenico: refused as with the explicit option", "BER-TLV: refused as with the explicit option"] {
		ctx.require(k, 50);
	}
}

pub fn c17(ctx: &Ctx) {
	ctx.many("formats", ctx.size(5000, 80_000), |ctx, r, i| {
		let n = if i % 10 == 0 { r.range(8, 60) } else { r.range(1, 6) };
		let text_only = i % 3 == 0;
		let mut items: Vec<(Vec<u8>, Vec<u8>)> = Vec::new();
		while items.len() < n {
			let (t, v) = if text_only {
				let t = match r.below(5) {
					0 => vec![0x8A],
					1 => unhex("9F12"),
					2 => unhex("50"),
					3 => gen::constructed_tag(r),
					_ => gen::opaque_tag(r),
				};
				let n = r.below(30);
				let v = if t == [0x8A] {
					(0..2).map(|_| r.range(32, 126) as u8).collect()
				} else if t[0] & 0x20 != 0 && r.bool() {
					// With children
					gen::printable_tlv(r, 1)
				} else {
					(0..n).map(|_| r.range(32, 126) as u8).collect()
				};
				(t, v)
			} else {
				match r.below(6) {
					0 => {
						let f = gen::forest(r, 2, 3, true);
						(gen::constructed_tag(r), gen::encode(r, &f, &['*'], 1).0)
					}
					1 => (gen::constructed_tag(r), not_tlv(r, i as usize)),
					2 | 3 => {
						let t = gen::parsed_tag(r);
						let v = if r.one_in(12) { gen::odd_value(r, &t) } else { gen::good_value(r, &t) };
						(t, v)
					}
					_ => (gen::any_tag(r), gen::any_value(r)),
				}
			};
			// Masking is about what's written, which differs by format
			if !model::bytes_masked(&v, &['*']) {
				items.push((t, v));
				// The same one again, or its value with another tag
				while r.one_in(4) {
					let (mut t, v) = r.pick(&items).clone();
					if r.one_in(4) && !gen::is_parsed(&t) {
						t = if t[0] & 0x20 == 0 { gen::opaque_tag(r) } else { gen::constructed_tag(r) };
					} else {
						ctx.event("objects that are given again");
					}
					items.push((t, v));
				}
			}
		}
		let ber: Vec<u8> = items.iter().flat_map(|(t, v)| gen::object_plain(t, v)).collect();
		let ing = gen::ingenico_hex(&items);
		let mut forms = vec![
			("BER-TLV", Op::Ber, hex(&ber)),
			("Ingenico hex", Op::Ingenico, ing.clone()),
			("automatic BER-TLV", Op::Auto, hex(&ber)),
			("automatic Ingenico", Op::Auto, ing),
		];
		if items.iter().all(|(_, v)| gen::printable(v)) {
			let s = items
				.iter()
				.map(|(t, v)| {
					let f = Field { kind: 'T', id: t.clone(), format: 'a', text: String::from_utf8_lossy(v).into() };
					gen::field_text(r, &f)
				})
				.collect::<Vec<_>>()
				.join(";");
			forms.push(("Ingenico ASCII", Op::Ingenico, s.clone()));
			forms.push(("automatic Ingenico ASCII", Op::Auto, s));
			ctx.event("lists that are also given as text");
		}
		let sort = r.bool();
		let mut first = None;
		for (what, op, value) in forms {
			if !fits(&value) {
				continue;
			}
			let q = Request::new(op, value).sort(sort);
			let req = q.req();
			let res = ctx.run(&req);
			let text = res.text();
			let body = if op == Op::Auto && text.starts_with("TLV Format: ") {
				text.splitn(3, '\n').nth(2).unwrap_or("").to_owned()
			} else {
				text
			};
			let seen = (accepted(&res), body, res.etext());
			match &first {
				None => first = Some((req, res, seen)),
				Some((freq, fres, fseen)) => {
					if *fseen == seen {
						ctx.event(&format!("{what}: the same as BER-TLV"));
					} else {
						ctx.violation(
							&format!("{what} is explained differently from BER-TLV: {}", difference(&seen.1, &fseen.1)),
							&[(freq, fres), (&req, &res)],
							"the same breakdown",
						);
						return;
					}
				}
			}
		}
	});
	// Around the number of levels that are looked into
	ctx.many("levels", ctx.size(120, 1500), |ctx, r, i| {
		let levels = if i % 4 == 0 { r.range(1, 300) } else { 246 + (i / 4 % 10) as usize };
		let n = r.below(6);
		let tag = gen::parsed_tag(r);
		let v = if r.bool() { gen::good_value(r, &tag) } else { r.bytes(n) };
		let f = chain(r, levels, vec![Obj { tag, content: Content::Leaf(v) }]);
		let items: Vec<(Vec<u8>, Vec<u8>)> = f
			.iter()
			.map(|o| {
				let v = match &o.content {
					Content::Kids(k) => gen::encode(r, k, &['*'], 1).0,
					Content::Leaf(v) => v.clone(),
				};
				(o.tag.clone(), v)
			})
			.collect();
		if items.iter().any(|(_, v)| model::bytes_masked(v, &['*'])) {
			return;
		}
		let ber: Vec<u8> = items.iter().flat_map(|(t, v)| gen::object_plain(t, v)).collect();
		let (ber, ing) = (hex(&ber), gen::ingenico_hex(&items));
		if !fits(&ber) || !fits(&ing) {
			return;
		}
		let sort = r.bool();
		let a = Request::new(Op::Ber, ber).sort(sort).req();
		let b = Request::new(Op::Ingenico, ing).sort(sort).req();
		let (ra, rb) = (ctx.run(&a), ctx.run(&b));
		if (accepted(&ra), ra.text(), ra.etext()) == (accepted(&rb), rb.text(), rb.etext()) {
			ctx.event("many levels: the same as BER-TLV");
		} else {
			ctx.violation(
				&format!("{levels} levels in Ingenico are explained differently from BER-TLV: {}", difference(&rb.text(), &ra.text())),
				&[(&a, &ra), (&b, &rb)],
				"the same breakdown",
			);
		}
	});
	ctx.require("many levels: the same as BER-TLV", 50);
	ctx.require("Ingenico ASCII: the same as BER-TLV", 200);
	ctx.require("Ingenico hex: the same as BER-TLV", 1000);
	ctx.require("objects that are given again", 500);
}

// ---------------------------------------------------------------------------------------------
// Masking, sorting, raw values, hex input

pub fn c18(ctx: &Ctx) {
	ctx.many("masked", ctx.size(12_000, 180_000), |ctx, r, i| {
		let masks = match i % 4 {
			0 => vec!['*'],
			_ => gen::masks(r),
		};
		let n = r.range(1, 4);
		let mut items = Vec::new();
		for _ in 0..n {
			let tag = match r.below(4) {
				0 => gen::parsed_tag(r),
				1 => gen::constructed_tag(r),
				_ => gen::any_tag(r),
			};
			let len = match r.below(6) {
				0 => r.below(3),
				1 => r.range(100, 300),
				2 if r.one_in(3) => r.range(300, 9000),
				_ => r.range(1, 20),
			};
			let m = *r.pick(&masks);
			let others = gen::masks(r);
			let other = *r.pick(&others);
			// For characters that aren't a single byte, the low byte, which is something else
			let byte = |c: char| u32::from(c) as u8;
			let (m, other) = (byte(m), byte(other));
			let v: Vec<u8> = match r.below(7) {
				0..=2 => vec![m; len],
				3 => {
					// One byte differs
					let mut v = vec![m; len.max(2)];
					let p = match r.below(3) {
						0 => 0,
						1 => v.len() - 1,
						_ => r.below(v.len()),
					};
					v[p] = if r.bool() { other } else { m ^ (1 << r.below(8)) };
					v
				}
				4 => (0..len).map(|k| if k % 2 == 0 { m } else { other }).collect(),
				5 => vec![other; len],
				_ => gen::good_value(r, &tag),
			};
			items.push((tag, v));
		}
		let q = match i % 3 {
			0 => {
				let mut b: Vec<u8> = Vec::new();
				for (t, v) in &items {
					b.extend(gen::object(r, t, v));
				}
				// Masking inside constructed tags works the same
				for _ in 0..r.below(3) {
					b = gen::object(r, &gen::constructed_tag(&mut r.clone()), &b);
				}
				Request::new(Op::Ber, hex(&b))
			}
			1 => {
				// As text, where the value is masked as written
				let s: Vec<String> = items
					.iter()
					.map(|(t, v)| {
						let masked_hex = v.len() * 2;
						let c = *r.pick(&masks);
						if c.is_ascii() && r.bool() {
							let mut text = c.to_string().repeat(masked_hex);
							if r.one_in(4) && !text.is_empty() {
								let p = r.below(text.len());
								text.replace_range(p..=p, "B");
							}
							let ok = text.chars().all(|x| x.is_ascii_hexdigit()) || model::all_masked(&text.chars().collect::<Vec<_>>(), &masks);
							let (f, n) = if ok && r.bool() { ('h', v.len()) } else { ('a', text.len()) };
							format!("T{}:{n:04X}:{f}{text}", hex(t))
						} else if v.is_ascii() && !v.contains(&0) {
							format!("T{}:{:04X}:a{}", hex(t), v.len(), String::from_utf8_lossy(v))
						} else {
							format!("T{}:{:04X}:h{}", hex(t), v.len(), hex(v))
						}
					})
					.collect();
				Request::new(Op::Ingenico, s.join(","))
			}
			_ => Request::new(Op::Ingenico, gen::ingenico_hex(&items)),
		};
		if !fits(&q.value) {
			return;
		}
		let mut q = q.masks(&masks).sort(r.bool());
		if r.one_in(6) {
			q.op = Op::Auto;
		}
		// Where the characters are configured is for C50; here they come from the command line or,
		// sometimes, the environment
		let mut req = q.req();
		if r.one_in(5) && !masks.iter().any(|m| m.is_control() || ['"', '\\'].contains(m)) {
			let list = masks.iter().map(|m| format!("\"{m}\"")).collect::<Vec<_>>().join(", ");
			let mut plain = q.clone();
			plain.set.masks = vec!['*'];
			req = plain.req().env("PEMV_MASKING_CHARACTERS", format!("[{list}]"));
		}
		let res = ctx.run(&req);
		let want = q.wanted();
		let aspect = |n: &VNode| {
			format!("{} {}", aspect::shown(n), if n.masked { n.name.as_str() } else { "" })
		};
		if judge_res(ctx, &req, &res, &want, aspect) {
			View::parse(&res.text()).walk(&mut |_, n| {
				ctx.event(if n.masked { "tags shown as masked" } else { "tags shown as not masked" });
			});
		}
	});
	ctx.require("tags shown as masked", 1000);
	ctx.require("tags shown as not masked", 1000);
}

pub fn c19(ctx: &Ctx) {
	ctx.many("blocks", ctx.size(4500, 80_000), |ctx, r, i| {
		// A small set of tags, so that many are equal or related
		let mut pool: Vec<Vec<u8>> = vec![
			unhex("5F2A"), unhex("9F02"), unhex("9F"), unhex("9F0201"), unhex("5A"), unhex("57"), unhex("82"),
			unhex("95"), unhex("70"), unhex("7F49"), unhex("DF8104"), unhex("DF8105"), unhex("DF81"), unhex("FF"),
			unhex("01"), unhex("9F8181"), unhex("E1"), unhex("61"), unhex("BF0C"), unhex("9F80"), unhex("9F7F"),
		];
		for _ in 0..3 {
			pool.push(gen::any_tag(r));
		}
		if r.one_in(3) {
			// Tags that have much in common
			let mut start = vec![r.byte() | 0x1F];
			let n = r.range(1, 12);
			start.extend((0..n).map(|_| r.byte() | 0x80));
			for _ in 0..r.range(2, 6) {
				let mut t = start.clone();
				if r.one_in(3) {
					// Also in length
					t.truncate(r.range(1, t.len()));
				}
				for _ in 0..r.below(3) {
					t.push(r.byte() | 0x80);
				}
				t.push(r.byte() & 0x7F);
				pool.push(t);
			}
		}
		let ingenico = i % 4 == 0;
		if !ingenico {
			pool.retain(|t| gen::well_formed_tag(t));
		}
		if r.bool() {
			r.shuffle(&mut pool);
			pool.truncate(r.range(1, 5));
		}
		let n = match i % 6 {
			0 => r.range(50, 200),
			1 => r.range(20, 50),
			_ => r.range(1, 12),
		};
		let mut serial = 0u32;
		let mut f = sortable(r, &pool, n, if n > 20 { 1 } else { 3 }, &mut serial);
		if r.one_in(5) {
			// All of it within a single template
			f = vec![Obj { tag: unhex(r.pick(&["70", "E1", "7F49", "FF8123"])), content: Content::Kids(f) }];
		}
		let value = if ingenico {
			let items: Vec<_> = f
				.iter()
				.map(|o| {
					let v = match &o.content {
						Content::Leaf(v) => v.clone(),
						Content::Kids(k) => gen::encode(r, k, &['*'], 1).0,
					};
					(o.tag.clone(), v)
				})
				.collect();
			// What is masked is so in the text, there
			let each = items.iter().map(|i| {
				let text = gen::ingenico_hex(std::slice::from_ref(i));
				if !i.1.is_empty() && i.1.iter().all(|b| *b == b'*') {
					let (start, v) = text.rsplit_once('h').unwrap_or_default();
					format!("{start}h{}", "*".repeat(v.len()))
				} else {
					text
				}
			});
			each.collect::<Vec<_>>().join(",")
		} else {
			hex(&gen::encode(r, &f, &['*'], 0).0)
		};
		if !fits(&value) {
			return;
		}
		let op = match ingenico {
			_ if r.one_in(3) => Op::Auto,
			true => Op::Ingenico,
			false => Op::Ber,
		};
		let unsorted = Request::new(op, &value).sort(false);
		let sorted = Request::new(op, &value);
		let (uq, sq) = (unsorted.req(), sorted.req());
		let (u, s) = (ctx.run(&uq), ctx.run(&sq));
		judge_res(ctx, &uq, &u, &unsorted.wanted(), aspect::structure);
		if !accepted(&u) || !accepted(&s) {
			if accepted(&u) != accepted(&s) {
				ctx.violation("Sorting decides whether the data is accepted", &[(&uq, &u), (&sq, &s)], "the same decision");
			}
			return;
		}
		let (vu, vs) = (View::parse(&u.text()), View::parse(&s.text()));
		let mut by_hand = vu.nodes.clone();
		sort_views(&mut by_hand);
		let text = |ns: &[VNode]| ns.iter().map(VNode::full).collect::<String>();
		let (got, want) = (text(&vs.nodes), text(&by_hand));
		if got == want && vs.stray == vu.stray {
			ctx.event("sorted correctly");
			ctx.events("tags in sorted blocks", vs.count());
			if n > 20 {
				ctx.event("with more than 20 tags");
			}
		} else {
			ctx.violation(
				&format!("The sorted output is not the stably sorted unsorted one: {}", difference(&got, &want)),
				&[(&uq, &u), (&sq, &s)],
				&want,
			);
		}
	});
	ctx.require("sorted correctly", 500);
	ctx.require("with more than 20 tags", 50);
}

fn sortable(r: &mut Rng, pool: &[Vec<u8>], n: usize, depth: usize, serial: &mut u32) -> Vec<Obj> {
	(0..n)
		.map(|_| {
			let tag = r.pick(pool).clone();
			*serial += 1;
			let content = if tag[0] & 0x20 != 0 && depth > 0 {
				let k = if r.one_in(10) { 25 } else { r.below(5) };
				Content::Kids(sortable(r, pool, k, depth - 1, serial))
			} else if tag == [0x95] {
				Content::Leaf(vec![0, 0, 0, (*serial >> 8) as u8, *serial as u8])
			} else if r.one_in(6) {
				// Masked, among others with the same tag
				Content::Leaf(vec![b'*'; 1 + *serial as usize % 9])
			} else if gen::is_parsed(&tag) {
				let v = gen::good_value(r, &tag);
				Content::Leaf(v)
			} else {
				// Values in no particular order, all different
				let x = serial.wrapping_mul(0x9E37_79B1);
				Content::Leaf(vec![0x80, (x >> 24) as u8, (*serial >> 8) as u8, *serial as u8])
			};
			Obj { tag, content }
		})
		.collect()
}

fn sort_views(ns: &mut [VNode]) {
	// By the bytes of the tag; a prefix comes first
	ns.sort_by(|a, b| {
		let key = |n: &VNode| n.tag.as_bytes().chunks(2).map(<[u8]>::to_vec).collect::<Vec<_>>();
		key(a).cmp(&key(b))
	});
	for n in ns {
		if let Some(k) = &mut n.kids {
			sort_views(k);
		}
	}
}

pub fn c20(ctx: &Ctx) {
	let check = |ctx: &Ctx, r: &mut Rng, tag: &[u8], v: &[u8], form: usize| {
		let text = v.is_ascii() && !v.contains(&0);
		let nested = !(form <= 1 || form == 2 && text);
		let (q, mask_by_text) = match form {
			0 => (Request::new(Op::Ber, hex(&gen::object(r, tag, v))), false),
			1 => (Request::new(Op::Ingenico, gen::ingenico_hex(&[(tag.to_vec(), v.to_vec())])), true),
			2 if text => (
				Request::new(
					Op::Ingenico,
					format!("T{}:{:04X}:a{}", hex(tag), v.len(), String::from_utf8_lossy(v)),
				),
				false,
			),
			_ => {
				let inner = gen::object(r, tag, v);
				let outer = gen::constructed_tag(r);
				(Request::new(Op::Auto, hex(&gen::object(r, &outer, &inner))), false)
			}
		};
		if !fits(&q.value) || (!mask_by_text && model::bytes_masked(v, &['*'])) {
			return;
		}
		let req = q.req();
		let res = ctx.run(&req);
		if !accepted(&res) {
			// Only an interpreted value may be refused, also one that is found inside this one
			if res.refused() && q.wanted().is_err() {
				ctx.event("refused");
			} else {
				ctx.violation("A value was not shown", &[(&req, &res)], "its raw bytes");
			}
			return;
		}
		let view = View::parse(&res.text());
		let top = only(&view);
		let n = if nested { top.and_then(|t| t.kids().first()) } else { top };
		let n = n.filter(|n| n.tag == hex(tag));
		let Some(n) = n else {
			ctx.violation("A tag is missing", &[(&req, &res)], "the tag");
			return;
		};
		// Spelled out here once more, without the model
		let size = if v.len() == 1 { "1 byte".to_owned() } else { format!("{} bytes", v.len()) };
		let rows: Vec<String> = v
			.chunks(16)
			.map(|c| {
				let h = c.iter().map(|b| format!("{b:02X}")).collect::<Vec<_>>().join(" ");
				let t: String = c.iter().map(|b| if b.is_ascii_graphic() || *b == b' ' { char::from(*b) } else { '.' }).collect();
				format!("{h:<47}  {t}")
			})
			.collect();
		let want = if v.is_empty() { None } else { Some(rows) };
		if n.size == size && n.raw == want {
			ctx.event("raw values shown exactly");
			ctx.events("raw bytes compared", v.len() as u64);
		} else {
			ctx.violation(
				&format!(
					"The raw value is not shown exactly: {}",
					difference(
						&format!("{}\n{}", n.size, n.raw.clone().unwrap_or_default().join("\n")),
						&format!("{size}\n{}", want.clone().unwrap_or_default().join("\n"))
					)
				),
				&[(&req, &res)],
				&format!("{size}\n{}", want.unwrap_or_default().join("\n")),
			);
		}
	};
	// All small sizes, in each form
	ctx.many("sizes", 4 * 140 * 2, |ctx, r, i| {
		let n = i as usize % 140;
		let t = if r.one_in(4) { gen::constructed_tag(r) } else { gen::opaque_tag(r) };
		let form = i as usize / 140 % 4;
		let v = match form {
			2 => (0..n).map(|_| r.range(1, 127) as u8).collect(),
			_ => gen::content(r, n),
		};
		check(ctx, r, &t, &v, form);
	});
	// Every byte at every position of a line
	ctx.many("bytes", 256, |ctx, r, i| {
		let v: Vec<u8> = (0..=255u8).map(|b| b.wrapping_add(i as u8)).collect();
		let t = gen::opaque_tag(r);
		check(ctx, r, &t, &v, if i % 2 == 0 { 0 } else { 3 });
	});
	ctx.many("random", ctx.size(7000, 120_000), |ctx, r, i| {
		let t = match r.below(4) {
			0 => gen::constructed_tag(r),
			1 => gen::parsed_tag(r),
			_ => gen::any_tag(r),
		};
		let v = if gen::is_parsed(&t) { gen::good_value(r, &t) } else { gen::any_value(r) };
		check(ctx, r, &t, &v, i as usize % 4);
	});
	ctx.many("large", ctx.size(60, 800), |ctx, r, _| {
		let n = match r.below(3) {
			0 => r.range(1000, 30_000),
			1 => *r.pick(&[255, 256, 257, 511, 512, 1023, 1024, 4095, 4096, 4097]),
			_ => *r.pick(&[32_767, 32_768, 65_000, 65_400]),
		};
		let t = vec![0x5A];
		let v = gen::content(r, n);
		check(ctx, r, &t, &v, 0);
	});
	ctx.require("raw values shown exactly", 1000);
}

pub fn c21(ctx: &Ctx) {
	const HEX_OPS: &[Op] =
		&[Op::Tvr, Op::Iad, Op::Cvr, Op::Tsi, Op::CvmResults, Op::CvmList, Op::Identify, Op::Ber, Op::Auto];
	ctx.many("forms", ctx.size(5500, 90_000), |ctx, r, i| {
		let op = HEX_OPS[i as usize % HEX_OPS.len()];
		let b = match op {
			Op::Tvr | Op::Cvr => gen::flag_bytes(r, 5),
			Op::Tsi => gen::flag_bytes(r, 2),
			Op::Iad => gen::ccd_iad(r),
			Op::CvmResults => gen::good_value(r, &unhex("9F34")),
			Op::CvmList => gen::cvm_list(r),
			Op::Identify => gen::any_tag(r),
			_ => gen::ber_block(r),
		};
		let mut b = b;
		if r.one_in(8) {
			b.pop();
		}
		if b.is_empty() || b.len() > 4000 {
			return;
		}
		let plain = Request::new(op, hex(&b));
		let preq = plain.req();
		let pres = ctx.run(&preq);
		for k in 0..4 {
			let s = match k {
				0 => hex_lower(&b),
				1 => gen::noisy_hex(r, &b),
				3 => gen::paired_hex(r, &b, i as usize),
				_ => {
					// One character everywhere
					let c = loop {
						let c = match r.below(3) {
							0 => r.range(1, 127) as u8 as char,
							1 => char::from_u32(r.range(0x80, 0x3000) as u32).unwrap_or(' '),
							_ => char::from_u32(r.range(0x3000, 0x1_F000) as u32).unwrap_or('-'),
						};
						if !c.is_ascii_hexdigit() {
							break c;
						}
					};
					hex(&b).chars().map(|h| format!("{c}{h}")).collect::<String>() + &c.to_string()
				}
			};
			if !fits(&s) || op == Op::Auto && model::ingenico(&s, &['*']).is_ok() {
				continue;
			}
			let q = Request::new(op, s);
			let req = q.req();
			let res = ctx.run(&req);
			if res.same(&pres) {
				ctx.event(if accepted(&res) { "the same breakdown" } else { "the same error" });
			} else {
				ctx.violation("The same digits written differently give something else", &[(&preq, &pres), (&req, &res)], "the same output");
			}
		}
		// A digit missing or too many
		let mut s: Vec<char> = hex(&b).chars().collect();
		let p = r.below(s.len());
		if r.bool() {
			s.remove(p);
		} else {
			s.insert(p, *r.pick(&['0', '7', 'A', 'f']));
		}
		let s: String = if r.bool() {
			s.into_iter().collect()
		} else if r.one_in(3) {
			let s: String = s.into_iter().collect();
			gen::paired_text(&s, i as usize)
		} else {
			let c = *r.pick(&[' ', '-', 'x', 'é', 'g', '\n']);
			s.into_iter().map(|h| format!("{h}{c}")).collect()
		};
		if op == Op::Auto && model::ingenico(&s, &['*']).is_ok() {
			return;
		}
		let q = Request::new(op, format!("{}{s}", if r.bool() { "" } else { " " }));
		let req = q.req();
		let res = ctx.run(&req);
		if res.refused() {
			ctx.event("half a byte refused");
		} else {
			ctx.violation("Digits that make no whole bytes were not refused", &[(&req, &res)], "an error and no breakdown");
		}
	});
	// Words and notations of which some characters are digits as well
	const WORDS: &[&str] = &[
		"0x", " 0x", ", 0x", ",0x", "0X", " 0X", "\\x0", "0b", "0o", "&H0", "#F", "h'0", "0h", "\\u00", "U+00", "%0", "byte ", " Bytes: ", "Data", "data: ", "Tag ", "tag=", "Value: ", "Length", "hex ",
		"BE ", "dec ", " bcd ", "/* a */", "// c", "-- d", "e.g. ", "EOF", "e", "E", "a", "b ", "c.", "d,", "f;", "F ", "B", " A ", "D:", "(c)", "[0]", "[1] ", "{a}", "1. ", "2) ", "0: ", "0000: ", "0010  ",
		"00000010: ", "|..a.|", "= ", "\n0000 ", "_0", ".0", "O0", "l1", "1e", "\\0", "\\b", "\\f", "\\a", "\\n", "&amp;", "%20", "=3D", "=0A", "\u{1b}[0m", "TLV:", "APDU: ", "C: ", "R: ", "<- ", "9000 ",
	];
	ctx.many("words", HEX_OPS.len() as u64 * ctx.size(400, 6000), |ctx, r, i| {
		let op = HEX_OPS[i as usize % HEX_OPS.len()];
		// Where the words are within a value, so that it stays well-formed
		let (b, start) = match op {
			Op::Tvr | Op::Cvr => (r.bytes(5), 0),
			Op::Tsi => (r.bytes(2), 0),
			Op::Iad => (gen::ccd_iad(r), *r.pick(&[0, 4, 34])),
			Op::CvmResults => (gen::good_value(r, &unhex("9F34")), 0),
			Op::CvmList => (gen::cvm_list(r), 0),
			Op::Identify => (gen::any_tag(r), 0),
			_ => {
				let n = r.range(2, 40);
				let (t, v) = (gen::opaque_tag(r), r.bytes(n));
				let b = gen::object_plain(&t, &v);
				let start = 2 * (b.len() - n);
				(b, if r.one_in(4) { 0 } else { start })
			}
		};
		let word = *r.pick(WORDS);
		let every = *r.pick(&[0, 0, 2, 2, 2, 4, 1, 8, 16, 32]);
		let total = 2 * b.len() - if r.one_in(12) { 1 } else { 0 };
		let digits: Vec<char> = if r.bool() { hex(&b) } else { hex_lower(&b) }.chars().collect();
		let single = r.range(start.min(digits.len()), digits.len());
		let more = word.chars().filter(char::is_ascii_hexdigit).count();
		let (mut s, mut n) = (String::new(), 0);
		for (k, d) in digits.iter().enumerate() {
			let here = if every == 0 { k == single } else { k >= start && (k - start) % every == 0 };
			if here && n + more <= total {
				s.push_str(word);
				n += more;
			}
			if n < total {
				s.push(*d);
				n += 1;
			}
		}
		if s.is_empty() || s.starts_with('-') || !fits(&s) || op == Op::Auto && model::ingenico(&s, &['*']).is_ok() {
			return;
		}
		let plain: String = s.chars().filter(char::is_ascii_hexdigit).collect();
		let (preq, req) = (Request::new(op, plain).req(), Request::new(op, s).req());
		let (pres, res) = (ctx.run(&preq), ctx.run(&req));
		if res.same(&pres) {
			ctx.event(if accepted(&res) { "words: the same breakdown" } else { "words: the same error" });
		} else {
			ctx.violation("The same digits written differently give something else", &[(&preq, &pres), (&req, &res)], "the same output");
		}
	});
	ctx.require("words: the same breakdown", 500);
	// Every character there is, many at a time, within otherwise unchanged digits
	let size = 512;
	let blocks: Vec<u32> = (0..0x11_0000 / size).collect();
	let lowest = 0x1_0000 / size as u64;
	ctx.many("every character", HEX_OPS.len() as u64 * ctx.size(lowest + 16, u64::from(0x11_0000 / size)), |ctx, r, i| {
		let (op, k) = (HEX_OPS[i as usize % HEX_OPS.len()], i / HEX_OPS.len() as u64);
		let block = if !ctx.quick() || k < lowest {
			blocks[k as usize]
		} else if k % 2 == 0 {
			// Where most letters and digits are
			r.range(0x1_0000 / size as usize, 0x2_0000 / size as usize) as u32
		} else {
			*r.pick(&blocks)
		};
		let chars: String = (block * size..(block + 1) * size)
			.filter_map(char::from_u32)
			.filter(|c| *c != '\0' && !c.is_ascii_hexdigit())
			.collect();
		if chars.is_empty() {
			return;
		}
		let b = match op {
			Op::Tvr | Op::Cvr => gen::flag_bytes(r, 5),
			Op::Tsi => gen::flag_bytes(r, 2),
			Op::Iad => gen::ccd_iad(r),
			Op::CvmResults => gen::good_value(r, &unhex("9F34")),
			Op::CvmList => gen::cvm_list(r),
			Op::Identify => gen::any_tag(r),
			_ => unhex("5A021234"),
		};
		let plain = Request::new(op, hex(&b));
		let digits = hex(&b);
		let at = r.range(1, digits.len());
		let s = format!("{}{chars}{}", &digits[..at], &digits[at..]);
		if !fits(&s) || op == Op::Auto && model::ingenico(&s, &['*']).is_ok() {
			return;
		}
		let preq = plain.req();
		let pres = ctx.run(&preq);
		let req = Request::new(op, s).req();
		let res = ctx.run(&req);
		if res.same(&pres) {
			ctx.events("characters without meaning", chars.chars().count() as u64);
		} else {
			ctx.violation("A character that is no hex digit changes the result", &[(&preq, &pres), (&req, &res)], "the same output");
		}
	});
	ctx.require("characters without meaning", 65_000);
	ctx.require("the same breakdown", 500);
	ctx.require("half a byte refused", 500);
}

/// The lines with something on them, without what is at their start; and where each is.
fn layout(text: &str) -> (Vec<&str>, Vec<(usize, usize)>) {
	let (mut texts, mut places) = (Vec::new(), Vec::new());
	let mut blank = 0;
	for l in text.lines() {
		if l.trim().is_empty() {
			blank += 1;
			continue;
		}
		texts.push(l.trim());
		places.push((blank, l.bytes().take_while(|b| *b == b'\t').count()));
		blank = 0;
	}
	(texts, places)
}

/// Only the layout is judged: which line is indented how far, and where blank lines are. The places of
/// the columns within a drawing are C42's.
fn laid_out(ctx: &Ctx, q: &Request) {
	let Ok(want) = q.wanted() else { return };
	let req = q.req();
	let res = ctx.run(&req);
	if !accepted(&res) {
		ctx.event("not accepted: not judged");
		return;
	}
	let (got, want) = (res.text(), want.text());
	let ((texts, places), (wtexts, wplaces)) = (layout(&got), layout(&want));
	if texts != wtexts {
		ctx.event("shows something else: not judged");
		return;
	}
	let wrong = (0..texts.len()).find(|i| places[*i] != wplaces[*i]);
	if let Some(i) = wrong {
		let ((b, t), (wb, wt)) = (places[i], wplaces[i]);
		ctx.violation(
			&format!(
				"The layout is wrong at the line '{}': {t} steps of indentation after {b} blank lines",
				texts[i].chars().take(60).collect::<String>()
			),
			&[(&req, &res)],
			&format!("{wt} steps after {wb} blank lines"),
		);
	} else if got.ends_with('\n') != want.ends_with('\n') || got.ends_with("\n\n") != want.ends_with("\n\n") {
		ctx.violation("The layout is wrong at the end", &[(&req, &res)], "the last line ends with a line end");
	} else {
		ctx.events("lines in their place", texts.len() as u64);
		let deepest = places.iter().map(|p| p.1).max().unwrap_or(0);
		ctx.event(match deepest {
			0..=2 => "indented by up to 2",
			3..=5 => "indented by 3 to 5",
			6..=40 => "indented by 6 to 40",
			_ => "indented by more than 40",
		});
	}
}

pub fn c22(ctx: &Ctx) {
	ctx.many("general", ctx.size(6000, 100_000), |ctx, r, _| laid_out(ctx, &gen::request(r)));
	ctx.many("rich", ctx.size(300, 6000), |ctx, r, _| laid_out(ctx, &gen::rich(r)));
	// Everything that is interpreted, alone and at each depth, and next to others
	let tags = model::PARSED_TAGS;
	ctx.many("depths", ctx.size(2400, 30_000), |ctx, r, i| {
		let t = unhex(tags[i as usize % tags.len()]);
		let depth = (i as usize / tags.len()) % 12;
		let mut items = vec![(t.clone(), gen::good_value(r, &t))];
		while r.one_in(2) {
			let t = if r.bool() { gen::parsed_tag(r) } else { gen::opaque_tag(r) };
			let v = gen::good_value(r, &t);
			items.insert(r.below(items.len() + 1), (t, v));
		}
		items.retain(|(t, v)| gen::acceptable(t, v));
		let q = if depth == 11 {
			Request::new(Op::Ingenico, gen::ingenico_hex(&items))
		} else {
			let mut b: Vec<u8> = items.iter().flat_map(|(t, v)| gen::object_plain(t, v)).collect();
			for _ in 0..depth {
				b = gen::object_plain(&gen::constructed_tag(r), &b);
				if r.one_in(4) {
					b.extend(gen::object_plain(&gen::opaque_tag(r), &[1, 2, 3]));
				}
			}
			Request::new(if r.bool() { Op::Ber } else { Op::Auto }, hex(&b))
		};
		laid_out(ctx, &q.sort(r.bool()));
	});
	ctx.many("deep", ctx.size(120, 2000), |ctx, r, i| {
		let n = if i % 2 == 0 { r.range(100, 251) } else { r.range(20, 100) };
		let t = gen::parsed_tag(r);
		let v = gen::good_value(r, &t);
		if !gen::acceptable(&t, &v) {
			return;
		}
		let mut b = gen::object_plain(&t, &v);
		for _ in 0..n {
			b = gen::object_plain(&[0x70], &b);
			if r.one_in(30) {
				b.extend(gen::object_plain(&[0x5A], &[0x12]));
			}
		}
		laid_out(ctx, &Request::new(Op::Ber, hex(&b)).sort(false));
	});
	ctx.require("lines in their place", 20_000);
	ctx.require("indented by 3 to 5", 200);
	ctx.require("indented by more than 40", 20);
}
