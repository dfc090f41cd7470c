//! The checks, one per property.

pub mod cli;
pub mod effects;
pub mod effort;
pub mod help;
pub mod lookups;
pub mod memory;
pub mod robust;
pub mod tlv;
pub mod values;

use crate::{
	ctx::Ctx,
	exec::{Req, Res},
	gen::Request,
	model::{Doc, Refusal},
	view::{VNode, View},
};

pub struct Check {
	pub id:          &'static str,
	pub level:       &'static str,
	/// How cases are made and what counts as non-trivial.
	pub rule:        &'static str,
	pub assumptions: &'static [&'static str],
	pub run:         fn(&Ctx),
}

const MODEL: &str = "The reference model in monitor/src/model is right about what the EMV data means";
const LINUX: &str = "Executions on this Linux machine are representative of others";

macro_rules! checks {
	($($id:literal $level:literal $run:path, $rule:literal, [$($a:expr),*];)*) => {
		pub const CHECKS: &[Check] = &[$(Check {
			id: $id, level: $level, rule: $rule, assumptions: &[$($a),*], run: $run,
		}),*];
	};
}

checks! {
	"C01" "exploration" robust::c01, "Requests of every kind in both builds: generated well-formed and damaged data, raw byte strings, extreme sizes and nesting, arbitrary arguments, environments and configuration files. Counted when the program printed something; distinct by arguments and environment.", [LINUX, "A request that takes over 40 s counts as hanging"];
	"C02" "exploration" robust::c02, "Generated requests, half of them with exactly one unacceptable part at a random position and depth. Counted when the program printed something; distinct by arguments and environment.", [MODEL];
	"C03" "exploration" robust::c03, "Each generated request is run several times, with varied environments, directories, standard inputs and neighbours. Counted when the program printed something; distinct by arguments and environment.", [LINUX];
	"C04" "exploration" effects::c04, "Generated requests under a system call filter that kills the program when it asks for a side effect, with the contents of its directories compared before and after. Counted when the program printed something; distinct by arguments and environment.", [LINUX, "System calls not in the list of forbidden ones have no side effects outside the process"];
	"C05" "fault_enumeration" effects::c05, "For each request, a fault of each kind (full disk, size limit, closed pipe, interrupted and short writes) is put at each byte position of the output (or at a sample of them for long outputs). Distinct by request, kind and position.", [LINUX, "Failures of write(2) are the only way delivery fails"];
	"C06" "exploration" robust::c06, "The same request is given to the development and to the release build. Counted when the program printed something; distinct by arguments and environment.", ["The release build differs from the shipped one only in link-time optimisation, which is off to save time"];
	"C07" "exploration" memory::c07, "Requests of every kind in builds with AddressSanitizer and with the standard library's checks of unsafe operations, smaller ones with every tag that is interpreted also under Miri and valgrind memcheck. Counted when the program printed something; distinct by instrument, arguments and environment.", [LINUX, "AddressSanitizer, memcheck and Miri (tree borrows) report what they exist to report"];
	"C08" "exploration" effort::c08, "Requests of many shapes, and arbitrary ones repeated, in three sizes each, with the instructions counted (cachegrind) and with the memory measured under a limit of address space. Distinct by measurement, arguments and environment.", [LINUX, "Instructions counted stand for time"];
	"C10" "exploration" tlv::c10, "Random forests of objects, encoded with random legal length forms; what is shown is compared with the forest. Counted when something was shown; distinct by arguments.", [MODEL];
	"C11" "exploration" tlv::c11, "Well-formed data with one malformed object put at the top level, of each kind and at each position. Counted when the program printed something; distinct by arguments.", [MODEL];
	"C12" "exploration" tlv::c12, "Trees in which the value of some constructed objects is not TLV, or nested too deeply. Counted when something was shown; distinct by arguments.", [MODEL];
	"C13" "exploration" tlv::c13, "A tag shown alone is compared with the same tag among neighbours and nested; joined blocks are compared with their parts. Counted when something was shown; distinct by arguments.", [];
	"C14" "exploration" tlv::c14, "Random fields of all types, written in random ways; what is shown is compared with the fields. Counted when something was shown; distinct by arguments.", [MODEL];
	"C15" "exploration" tlv::c15, "Well-formed data with one malformed field of each kind at each position. Counted when the program printed something; distinct by arguments.", [MODEL];
	"C16" "exploration" tlv::c16, "The same input with automatic and with explicit formats. Counted when the program printed something; distinct by arguments.", [MODEL];
	"C17" "exploration" tlv::c17, "The same tags and values in every format. Counted when the program printed something; distinct by arguments.", [];
	"C18" "exploration" tlv::c18, "Values that are or are nearly masked, in each format, with each way of configuring masking characters. Counted when something was shown; distinct by arguments and environment.", [MODEL];
	"C19" "exploration" tlv::c19, "Blocks with many equal and related tags, sorted and unsorted. Counted when something was shown; distinct by arguments.", [MODEL];
	"C20" "exploration" tlv::c20, "Values of all small sizes and of selected large ones, with all bytes, in each format. Counted when something was shown; distinct by arguments.", [];
	"C21" "exploration" tlv::c21, "The same bytes written in different ways for every option that takes hex data, and with one digit missing. Counted when the program printed something; distinct by arguments.", [];
	"C22" "exploration" tlv::c22, "Requests of every kind, every interpreted tag at depths up to 10 among neighbours, and nesting up to the deepest there is; what is judged is which line is indented how far and where blank lines are. Counted when something was shown; distinct by arguments and environment.", [MODEL];
	"C30" "exploration" values::c30, "All tags of one and two bytes, all dictionary tags and their neighbours and extensions, and random tags. Counted when something was shown; distinct by arguments.", ["The copy of the EMV data dictionary in monitor/src/model/tables.rs is right"];
	"C40" "exploration" values::c40, "All single bits, all pairs, all values where there are few enough, and random ones, alone and in TLV data. Counted when something was shown; distinct by arguments.", [MODEL];
	"C41" "exploration" values::c41, "CCD data with all values of each field, and near misses of the layout. Counted when the program printed something; distinct by arguments.", [MODEL];
	"C42" "exploration" values::c42, "Breakdowns of every bit-level kind at several indentations, judged as drawings. Counted when something was shown; distinct by arguments.", [MODEL];
	"C43" "exploration" values::c43, "Each status bit alone and in combinations, with colour on and off, alone and nested. Counted when something was shown; distinct by arguments.", [MODEL];
	"C44" "exploration" values::c44, "All rules of two bytes, lists of up to thousands of rules, and selected and random amounts. Counted when something was shown; distinct by arguments.", [MODEL];
	"C45" "exploration" values::c45, "All values with a defined outcome code, and a sample of all others. Counted when the program printed something; distinct by arguments.", [MODEL];
	"C46" "exploration" values::c46, "All service codes in both forms, and texts that are not service codes. Counted when the program printed something; distinct by arguments.", [MODEL];
	"C47" "exploration" values::c47, "All codes of one byte and all textual codes of two bytes, and others. Counted when the program printed something; distinct by arguments.", [MODEL];
	"C48" "exploration" values::c48, "All wrong sizes up to 64 and selected larger ones for every field, alone and in TLV data. Counted when the program printed something; distinct by arguments.", [MODEL];
	"C49" "exploration" values::c49, "The same value under its own option and under its tag. Counted when the program printed something; distinct by arguments.", [];
	"C50" "exploration" cli::c50, "Random assignments of settings to all sources at once. Counted when something was shown; distinct by arguments and environment.", [MODEL];
	"C51" "exploration" cli::c51, "Each kind of invalid setting in each source. Counted when the program printed something; distinct by arguments and environment.", [];
	"C52" "exploration" cli::c52, "The same request with each colour setting, through a pipe and a terminal. Counted when the program printed something; distinct by arguments and environment.", [MODEL];
	"C53" "exploration" cli::c53, "The same request with every spelling and order of its options. Counted when the program printed something; distinct by arguments.", [];
	"C54" "exploration" cli::c54, "Contradictory and incomplete commands made from valid ones. Counted when the program printed something; distinct by arguments.", [];
	"C55" "exploration" help::c55, "Everything that help (short and long), the manual page and the completion scripts of a release build list or offer is tried on generated requests; requests for help and the version amid arbitrary options, settings and broken configuration. Counted when the program printed something; distinct by arguments and environment.", ["The scripts for shells other than bash, which are not there to run, offer what their text says"];
}

// ---------------------------------------------------------------------------------------------

pub type Aspect = fn(&VNode) -> String;

/// Runs a request and judges one aspect of the outcome by the model. Returns whether it was shown
/// as it should be.
pub fn judge(ctx: &Ctx, q: &Request, aspect: Aspect) -> bool {
	let req = q.req();
	let res = ctx.run(&req);
	judge_res(ctx, &req, &res, &q.wanted(), aspect)
}

pub fn judge_res(
	ctx: &Ctx,
	req: &Req,
	res: &Res,
	want: &Result<Doc, Refusal>,
	aspect: Aspect,
) -> bool {
	match want {
		Ok(doc) => {
			let text = doc.text();
			if !accepted(res) {
				ctx.violation(
					"Data that should be shown was not",
					&[(req, res)],
					&format!("status 0, nothing on stderr, and on stdout:\n{text}"),
				);
				return false;
			}
			if res.out == text.as_bytes() {
				ctx.event("shown");
				return true;
			}
			let got = View::parse(&res.text());
			let exp = View::parse(&text);
			let (g, e) = (got.project(aspect), exp.project(aspect));
			if g == e {
				ctx.event("shown, but different in an aspect other properties are about");
				return true;
			}
			ctx.violation(
				&format!("What was shown is wrong: {}", difference(&g, &e)),
				&[(req, res)],
				&text,
			);
			false
		}
		Err(why) => {
			if res.refused() {
				ctx.event("refused");
				return false;
			}
			ctx.violation(
				"Data that should be refused was not",
				&[(req, res)],
				&format!("nothing on stdout, and on stderr:\n{}", why.message()),
			);
			false
		}
	}
}

/// Ended successfully and without complaint.
pub fn accepted(res: &Res) -> bool {
	res.ordinary() && res.code == Some(0) && res.err.is_empty()
}

/// The first difference between two texts.
pub fn difference(got: &str, want: &str) -> String {
	let cut = |s: &str| crate::hexu::show(s.as_bytes(), 300);
	let (mut g, mut w) = (got.lines(), want.lines());
	loop {
		match (g.next(), w.next()) {
			(None, None) => return "no difference by lines".to_owned(),
			(a, b) if a == b => {}
			(a, b) => {
				return format!(
					"'{}' instead of '{}'",
					a.map_or("the end".to_owned(), cut),
					b.map_or("the end".to_owned(), cut)
				)
			}
		}
	}
}

/// The breakdown of the only tag of a block.
pub fn only(view: &View) -> Option<&VNode> {
	match view.nodes.as_slice() {
		[n] if view.stray.is_empty() => Some(n),
		_ => None,
	}
}

pub fn lines(doc: &Doc) -> Vec<String> {
	doc.text().lines().map(str::to_owned).collect()
}
