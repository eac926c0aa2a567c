//! C04: the transformations preserve the meaning of documents.
use super::util::*;
use crate::drv::{self, Opts, Out};
use crate::gen::{Gen, Profile};
use crate::json::{s, J};
use crate::model;
use crate::rng::Rng;
use crate::run::*;
use crate::{iso, norm};

fn round_case(mut r: Rng) -> J {
	let p = Profile { odd: 0, ..Profile::random(&mut r) };
	let mut c = doc_case_with(r.fork(), Some(p));
	let ctx = match (r.below(2), c.get("doc").and_then(|d| d.get("@context")).cloned()) {
		(0, Some(x)) => x,
		_ => {
			let p = Profile { odd: 0, remote: false, ..Profile::random(&mut r) };
			Gen::new(r.fork(), Some(p)).context(0)
		}
	};
	c.set("context", ctx);
	let mut o = J::new_obj();
	for k in ["compactArrays", "compactToRelative"] {
		if r.pc(30) {
			o.set(k, J::Bool(false))
		}
	}
	c.set("opts", o);
	c
}

fn judge_round(c: &J, o: &mut Obs) -> V {
	let (doc, docs, op) = (doc_of(c), docs_of(c), opts_of(c));
	let context = c.get("context").cloned().unwrap_or(J::new_obj());
	let l = drv::Rec::new(&docs);
	let ex = match drv::expand(&doc, &l, &op) {
		Out::Ok(d) => d,
		_ => return V::Skip("input not expandable"),
	};
	if ambiguous(&ex) {
		return V::Skip("identifiers equal modulo normalisation");
	}
	let co = match drv::compact(&doc, &context, &l, &op) {
		Out::Ok(d) => d,
		Out::Panic(p) => return fail("compaction panics", p),
		_ => return V::Skip("not compactable"),
	};
	let base = base_of(&op);
	let back = drv::expand(&co, &l, &op);
	let want = norm::expanded(&ex);
	if let Out::Ok(b) = &back {
		if norm::expanded(b) == want {
			o.hit("round trips");
			if want.len() > 0 {
				o.seen(&co.sorted());
			}
			return V::Pass;
		}
	}
	// The algorithms themselves lose some details.
	let env = drv::env(&docs, &op);
	let mc = model::compact::compact(
		&env,
		&ex,
		&context,
		model::compact::Opt { base: op.base.as_deref(), doc_url: op.url.as_deref(), compact_arrays: op.compact_arrays, compact_to_relative: op.compact_to_relative },
	);
	if let Ok(mc) = mc {
		let mb = model::expand::expand(&env, &mc, &model::expand::Opt { base: base.as_deref(), expand_context: None });
		if mb.map_or(true, |b| norm::expanded(&b) != want) {
			return V::Skip("lossy by the algorithms");
		}
	} else {
		return V::Skip("not compactable");
	}
	fail("the compact form means something else", format!("expanded {}\ncompact {}\nagain   {}", want.text(), co.text(), back.map(|b| norm::expanded(&b)).text()))
}

fn plain_case(mut r: Rng) -> J {
	let p = Profile { odd: 0, ..Profile::random(&mut r) };
	doc_case_with(r, Some(p))
}

/// Expanded documents are their own expanded form.
fn judge_stable(c: &J, o: &mut Obs) -> V {
	let (doc, docs, op) = (doc_of(c), docs_of(c), opts_of(c));
	let ex = match drv::expand(&doc, &drv::Rec::new(&docs), &op) {
		Out::Ok(d) => d,
		_ => return V::Skip("input not expandable"),
	};
	let l = drv::Rec::default();
	let again = drv::expand(&ex, &l, &Opts::default());
	if again.ok().map(norm::expanded) != Some(norm::expanded(&ex)) {
		// Values right under a graph container are lost by the algorithms.
		let m = model::expand::expand(&drv::env(&Default::default(), &Opts::default()), &ex, &model::expand::Opt { base: None, expand_context: None });
		if m.map_or(true, |m| norm::expanded(&m) != norm::expanded(&ex)) {
			return V::Skip("lossy by the algorithms");
		}
		return fail("expanding again changes the document", format!("expanded {}\nagain    {}", ex.text(), again.text()));
	}
	if !l.loads().is_empty() {
		return fail("an expanded document loads something", ex.text());
	}
	if ex.len() > 0 {
		o.hit("expanded again");
		o.seen(&ex.sorted());
	}
	V::Pass
}

/// Flattening keeps the quads, and changes nothing when done again.
fn judge_flat(c: &J, o: &mut Obs) -> V {
	let (doc, docs, op) = (doc_of(c), docs_of(c), opts_of(c));
	let l = drv::Rec::new(&docs);
	let ex = match drv::expand(&doc, &l, &op) {
		Out::Ok(d) => d,
		_ => return V::Skip("input not expandable"),
	};
	if ambiguous(&ex) {
		return V::Skip("identifiers equal modulo normalisation");
	}
	let flat = match drv::flatten(&doc, None, &l, &op) {
		Out::Ok(f) => f,
		Out::Panic(p) => return fail("flattening panics", p),
		_ => return V::Skip("not flattened"),
	};
	let none = Opts { url: None, ..Opts::default() };
	let (q1, q2) = match (drv::to_rdf(&doc, &l, &op), drv::to_rdf(&flat, &l, &none)) {
		(Out::Ok(a), Out::Ok(b)) => (J::Arr(a), J::Arr(b)),
		(a, b) => return fail("no quads", format!("{} {}", a.map(|x| J::Arr(x).text()).text(), b.map(|x| J::Arr(x).text()).text())),
	};
	match iso::quads(&q1, &q2) {
		Some(true) => (),
		Some(false) => return fail("flattening changes the quads", format!("expanded {}\nflat     {}\nquads of the document  {}\nquads of the flat form {}", ex.text(), flat.text(), q1.text(), q2.text())),
		None => return V::Skip("isomorphism undecided"),
	}
	let again = drv::flatten(&flat, None, &l, &none);
	match again.ok().map(|a| iso::docs(a, &flat)) {
		Some(Some(true)) => (),
		Some(None) => return V::Skip("isomorphism undecided"),
		_ => return fail("flattening again changes the document", format!("flat  {}\nagain {}", flat.text(), again.text())),
	}
	if flat.len() > 0 {
		o.hit("flattened again");
		o.add("quads compared", q1.len() as u64);
		o.seen(&norm::expanded(&flat));
	}
	V::Pass
}

pub fn c04() -> Prop {
	Prop {
		id: "C04",
		level: "exploration",
		rule: "Generated documents are compacted with their own or another context and expanded again: same expanded document, unless the reference algorithms themselves lose something. Expanded documents are expanded again without context: same document. Flattened documents are converted to RDF and flattened again: same quads and same flat form, up to blank node labels.",
		assumptions: &[],
		mons: vec![
			Mon { name: "round", gen: round_case, judge: judge_round, fixed: none, quick: 150000, threads: 0 },
			Mon { name: "stable", gen: plain_case, judge: judge_stable, fixed: none, quick: 100000, threads: 0 },
			Mon { name: "flat", gen: plain_case, judge: judge_flat, fixed: none, quick: 100000, threads: 0 },
		],
	}
}
