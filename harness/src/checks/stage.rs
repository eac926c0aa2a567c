//! Differential monitors: each stage of the library against the model.
use super::util::*;
use crate::drv::{self, Out};
use crate::gen::Profile;
use crate::json::{s, J};
use crate::model;
use crate::rng::Rng;
use crate::run::*;
use crate::{iso, norm};

// --- expansion

fn opts_case(mut c: J, r: &mut Rng, extra: &[&str]) -> J {
	let mut o = J::new_obj();
	if r.pc(10) {
		o.set("url", J::Null);
	}
	if r.pc(15) {
		o.set("base", s(["http://ex.org/doc/", "http://other.org/x/y/z?q#f", "http://base.org/"][r.below(3)]));
	}
	for e in extra {
		match *e {
			"ordered" | "generalized" => {
				if r.pc(40) {
					o.set(e, J::Bool(true))
				}
			}
			"rdfDirection" => match r.below(3) {
				0 => o.set(e, s("i18n-datatype")),
				1 => o.set(e, s("compound-literal")),
				_ => (),
			},
			_ => {
				if r.pc(30) {
					o.set(e, J::Bool(false))
				}
			}
		}
	}
	c.set("opts", o);
	c
}

fn expand_case(mut r: Rng) -> J {
	let mut c = doc_case(r.fork());
	c = opts_case(c, &mut r, &["ordered"]);
	if r.pc(10) {
		// An expansion context given by the options.
		let mut g = crate::gen::Gen::new(r.fork(), Some(Profile { remote: false, ..Profile::random(&mut r) }));
		let ec = g.context(0);
		if let Some(J::Obj(m)) = c.get_mut("opts") {
			m.push(("expandContext".into(), ec))
		}
	}
	c
}

fn old_expand(mut r: Rng) -> J {
	let c = expand_case(r.fork());
	old(c, &mut r)
}

fn old_compact(mut r: Rng) -> J {
	let c = compact_case(r.fork());
	old(c, &mut r)
}

pub fn judge_expand(c: &J, o: &mut Obs) -> V {
	judge_expand_with(c, o, model::Quirks::all())
}

/// Judges against the recommendation, without the listed deviation.
pub fn probe_reverse_map(c: &J, o: &mut Obs) -> V {
	judge_expand_with(c, o, model::Quirks { reverse_map: false })
}

fn judge_expand_with(c: &J, o: &mut Obs, quirks: model::Quirks) -> V {
	let (doc, docs, op) = (doc_of(c), docs_of(c), opts_of(c));
	let l = drv::Rec::new(&docs);
	let r = drv::expand(&doc, &l, &op);
	let mut env = drv::env(&docs, &op);
	env.quirks = quirks;
	let base = base_of(&op);
	let m = model::expand::expand(&env, &doc, &model::expand::Opt { base: base.as_deref(), expand_context: op.expand_context.as_ref() });
	match (&r, &m) {
		(Out::Panic(p), _) => fail("expansion panics", p.clone()),
		(_, Err(e)) if e.0.starts_with("model:") => V::Skip("undecided by the recommendation"),
		(Out::Ok(a), Ok(b)) => {
			let (x, y) = (norm::expanded(a), norm::expanded(b));
			if x != y {
				return fail("expansion differs", format!("real  {}\nmodel {}", x.text(), y.text()));
			}
			o.hit("expanded");
			features(&doc, o);
			features(&J::Obj(docs.into_iter().collect()), o);
			if x.len() > 0 {
				o.seen(&x);
			}
			V::Pass
		}
		(Out::Err(code, msg), Err(e)) => {
			o.hit("rejected");
			o.hit(&format!("error {}", e.0));
			let _ = (code, msg);
			V::Pass
		}
		(Out::Ok(a), Err(e)) => fail(&format!("accepted: {}", e.0), format!("real  {}\nmodel error {}", a.text(), e.0)),
		(Out::Err(code, msg), Ok(b)) => fail(&format!("rejected: {code}"), format!("real error {code}: {msg}\nmodel {}", b.text())),
	}
}

pub fn c01() -> Prop {
	Prop {
		id: "C01",
		level: "exploration",
		rule: "Expansion of generated documents (every keyword, container, scoped/remote/imported/protected context and malformed input class of the generator) with random options agrees with the executable reference model of the recommendation: same expanded document up to the order of sets and duplicate objects, or an error in both.",
		assumptions: &[],
		mons: vec![
			Mon { name: "expand", gen: expand_case, judge: judge_expand, fixed: none, quick: 400000, threads: 0 },
			Mon { name: "mode", gen: old_expand, judge: judge_expand, fixed: none, quick: 60000, threads: 0 },
		],
	}
}

// --- flattening

fn flat_case(mut r: Rng) -> J {
	let mut p = Profile::random(&mut r);
	p.odd = 0;
	let c = doc_case_with(r.fork(), Some(p));
	opts_case(c, &mut r, &["ordered"])
}

fn judge_flatten(c: &J, o: &mut Obs) -> V {
	let (doc, docs, op) = (doc_of(c), docs_of(c), opts_of(c));
	let l = drv::Rec::new(&docs);
	let d = match drv::expand_doc(&doc, &l, &op) {
		Out::Ok(d) => d,
		_ => return V::Skip("input not expandable"),
	};
	let ex = drv::doc_json(&d);
	if ambiguous(&ex) {
		return V::Skip("identifiers equal modulo normalisation");
	}
	let r = drv::flatten_expanded(&d, op.ordered);
	let m = model::flatten::flatten(&ex);
	match (&r, &m) {
		(Out::Panic(p), _) => fail("flattening panics", p.clone()),
		(Out::Ok(a), Ok(b)) => match iso::docs(a, b) {
			Some(true) => {
				o.hit("flattened");
				features(&ex, o);
				if a.len() > 0 {
					o.seen(&norm::expanded(b));
				}
				o.add("nodes", a.len() as u64);
				o.add("blank nodes", iso::labels(a, iso::map_expanded).len() as u64);
				V::Pass
			}
			None => V::Skip("isomorphism undecided"),
			Some(false) => fail("flattening differs", format!("expanded {}\nreal  {}\nmodel {}", ex.text(), norm::expanded(a).text(), norm::expanded(b).text())),
		},
		(Out::Err(..), Err(_)) => {
			o.hit("conflicting indexes");
			V::Pass
		}
		(Out::Ok(a), Err(e)) => fail("flattening accepted", format!("expanded {}\nreal  {}\nmodel error {}", ex.text(), a.text(), e.0)),
		(Out::Err(code, msg), Ok(b)) => fail("flattening rejected", format!("expanded {}\nreal error {code}: {msg}\nmodel {}", ex.text(), b.text())),
	}
}

pub fn c06() -> Prop {
	Prop {
		id: "C06",
		level: "exploration",
		rule: "Flattening of generated documents agrees with the reference model of node map generation up to blank node relabelling: same nodes, properties, types, indexes, lists and graphs, or conflicting indexes in both.",
		assumptions: &[],
		mons: vec![Mon { name: "flatten", gen: flat_case, judge: judge_flatten, fixed: none, quick: 250000, threads: 0 }],
	}
}

// --- RDF

fn rdf_case(mut r: Rng) -> J {
	let mut p = Profile::random(&mut r);
	p.odd = 0;
	let c = doc_case_with(r.fork(), Some(p));
	opts_case(c, &mut r, &["generalized", "rdfDirection"])
}

fn judge_rdf(c: &J, o: &mut Obs) -> V {
	let (doc, docs, op) = (doc_of(c), docs_of(c), opts_of(c));
	let l = drv::Rec::new(&docs);
	let d = match drv::expand_doc(&doc, &l, &op) {
		Out::Ok(d) => d,
		_ => return V::Skip("input not expandable"),
	};
	let ex = drv::doc_json(&d);
	let r = drv::to_rdf(&doc, &l, &op);
	let dir = op.rdf_direction.map(|d| match d {
		json_ld_core::rdf::RdfDirection::I18nDatatype => model::rdf::Dir::I18n,
		json_ld_core::rdf::RdfDirection::CompoundLiteral => model::rdf::Dir::Compound,
	});
	let m = model::rdf::to_rdf(&ex, model::rdf::Opt { dir, generalized: op.generalized });
	match (r, m) {
		(Out::Panic(p), _) => fail("to_rdf panics", p),
		(Out::Ok(a), Ok(b)) => {
			let n = a.len();
			let (a, b) = (J::Arr(a), J::Arr(b));
			match iso::quads(&a, &b) {
				Some(true) => {
					o.hit("converted");
					o.add("quads", n as u64);
					features(&ex, o);
					if n > 0 {
						o.seen(&b);
					}
					V::Pass
				}
				None => V::Skip("isomorphism undecided"),
				Some(false) => {
					let only = |x: &J, y: &J| {
						let strip = |q: &J| iso::map_quads(&J::Arr(vec![q.clone()]), &|_| "_:b".into()).text();
						let ys: Vec<String> = y.to_arr().iter().map(strip).collect();
						J::Arr(x.to_arr().into_iter().filter(|q| !ys.contains(&strip(q))).collect()).text()
					};
					fail("quads differ", format!("expanded {}\nreal only {}\nmodel only {}", ex.text(), only(&a, &b), only(&b, &a)))
				}
			}
		}
		(Out::Err(..), Err(_)) => {
			o.hit("rejected");
			V::Pass
		}
		(Out::Ok(a), Err(e)) => fail("to_rdf accepted", format!("expanded {}\nreal  {}\nmodel error {}", ex.text(), J::Arr(a).text(), e.0)),
		(Out::Err(code, msg), Ok(b)) => fail("to_rdf rejected", format!("expanded {}\nreal error {code}: {msg}\nmodel {}", ex.text(), J::Arr(b).text())),
	}
}

pub fn c08() -> Prop {
	Prop {
		id: "C08",
		level: "exploration",
		rule: "The quads produced for generated documents, with every rdfDirection and generalized setting, are isomorphic to those of the reference model of the Deserialize JSON-LD to RDF algorithms.",
		assumptions: &[],
		mons: vec![Mon { name: "rdf", gen: rdf_case, judge: judge_rdf, fixed: none, quick: 250000, threads: 0 }],
	}
}

// --- compaction

fn compact_case(mut r: Rng) -> J {
	let mut p = Profile::random(&mut r);
	p.odd = 0;
	let mut c = doc_case_with(r.fork(), Some(p));
	// Compact with the context of the document or another one.
	let ctx = match (r.below(3), c.get("doc").and_then(|d| d.get("@context")).cloned()) {
		(0..=1, Some(x)) => x,
		_ => {
			let mut p = Profile::random(&mut r);
			p.odd = 0;
			p.remote = false;
			let mut g = crate::gen::Gen::new(r.fork(), Some(p));
			g.context(0)
		}
	};
	c.set("context", ctx);
	opts_case(c, &mut r, &["compactArrays", "compactToRelative"])
}

fn judge_compact(c: &J, o: &mut Obs) -> V {
	let (doc, docs, op) = (doc_of(c), docs_of(c), opts_of(c));
	let context = c.get("context").cloned().unwrap_or(J::new_obj());
	let l = drv::Rec::new(&docs);
	let ex = match drv::expand(&doc, &l, &op) {
		Out::Ok(d) => d,
		_ => return V::Skip("input not expandable"),
	};
	if ambiguous(&ex) {
		return V::Skip("identifiers equal modulo normalisation");
	}
	let r = drv::compact(&doc, &context, &l, &op);
	let m = model::compact::compact(
		&drv::env(&docs, &op),
		&ex,
		&context,
		model::compact::Opt { base: op.base.as_deref(), doc_url: op.url.as_deref(), compact_arrays: op.compact_arrays, compact_to_relative: op.compact_to_relative },
	);
	match (r, m) {
		(Out::Panic(p), _) => fail("compaction panics", p),
		(Out::Ok(a), Ok(b)) => {
			if a.sorted() != b.sorted() {
				return fail("compaction differs", format!("expanded {}\nreal  {}\nmodel {}", ex.text(), a.text(), b.text()));
			}
			o.hit("compacted");
			features(&ex, o);
			o.seen(&a.sorted());
			V::Pass
		}
		(Out::Err(..), Err(_)) => {
			o.hit("rejected");
			V::Pass
		}
		(_, Err(e)) if e.0.starts_with("model:") => V::Skip("a map collides with another value"),
		(Out::Ok(a), Err(e)) => fail(&format!("compaction accepted {}", e.0), format!("expanded {}\nreal  {}\nmodel error {}", ex.text(), a.text(), e.0)),
		(Out::Err(code, msg), Ok(b)) => fail(&format!("compaction rejected {code}"), format!("expanded {}\nreal error {code}: {msg}\nmodel {}", ex.text(), b.text())),
	}
}

pub fn c05() -> Prop {
	Prop {
		id: "C05",
		level: "exploration",
		rule: "The compact form produced for generated documents and contexts equals, entry for entry, the compact form of the reference model, or both reject the input.",
		assumptions: &[],
		mons: vec![
			Mon { name: "compact", gen: compact_case, judge: judge_compact, fixed: none, quick: 250000, threads: 0 },
			Mon { name: "mode", gen: old_compact, judge: judge_compact, fixed: none, quick: 50000, threads: 0 },
		],
	}
}

