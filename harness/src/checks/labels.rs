//! C07: identifiers and literals of expanded documents.
use super::util::*;
use crate::drv::{self, Out};
use crate::gen::Profile;
use crate::json::{s, J};
use crate::model::rdf::{es_number, jcs};
use crate::rng::Rng;
use crate::run::*;
use crate::{iso, norm};
use contextual::WithContext;
use iref::IriBuf;
use json_ld::{ExpandedDocument, Id, IdentifyAll, Relabel};
use rdf_types::generator::Blank;
use rdf_types::vocabulary::{BlankIdVocabulary, IndexVocabulary, IriVocabulary, IriVocabularyMut, BlankIdVocabularyMut};
use rdf_types::BlankIdBuf;
use std::collections::BTreeSet;

const FRESH: &str = "fresh";

fn case(mut r: Rng) -> J {
	let p = Profile { odd: 0, bnodes: true, ..Profile::random(&mut r) };
	doc_case_with(r, Some(p))
}

fn gen() -> Blank {
	Blank::new_with_prefix(FRESH.into())
}

fn is_fresh(l: &str) -> bool {
	l.starts_with("_:fresh")
}

/// Calls `f` on the node objects of an expanded document.
pub fn nodes(j: &J, f: &mut dyn FnMut(&J)) {
	match j {
		J::Arr(a) => a.iter().for_each(|x| nodes(x, f)),
		J::Obj(m) => {
			if j.has("@value") {
				return;
			}
			if !j.has("@list") {
				f(j)
			}
			for (k, v) in m {
				match k.as_str() {
					"@id" | "@type" | "@index" => (),
					"@reverse" => v.as_obj().unwrap().iter().for_each(|(_, v)| nodes(v, f)),
					_ => nodes(v, f),
				}
			}
		}
		_ => (),
	}
}

/// Removes the generated identifiers.
fn strip(j: &J) -> J {
	match j {
		J::Arr(a) => J::Arr(a.iter().map(strip).collect()),
		J::Obj(m) => {
			if j.has("@value") {
				return j.clone();
			}
			J::Obj(m.iter().filter(|(k, v)| !(k == "@id" && v.as_str().map_or(false, is_fresh))).map(|(k, v)| (k.clone(), strip(v))).collect())
		}
		o => o.clone(),
	}
}

/// Canonical form of the literals, by the definition of JCS.
pub fn canonical(j: &J) -> J {
	match j {
		J::Arr(a) => J::Arr(a.iter().map(canonical).collect()),
		J::Obj(m) => {
			if j.has("@value") {
				let json = j.get("@type") == Some(&s("@json"));
				return J::Obj(
					m.iter()
						.map(|(k, v)| {
							let v = match (k.as_str(), v) {
								("@value", v) if json => J::parse(&jcs(v)).unwrap(),
								("@value", J::Num(n)) => J::Num(es_number(n)),
								(_, v) => v.clone(),
							};
							(k.clone(), v)
						})
						.collect(),
				);
			}
			J::Obj(m.iter().map(|(k, v)| (k.clone(), canonical(v))).collect())
		}
		o => o.clone(),
	}
}

/// Order of members is part of the canonical form of JSON literals.
fn json_texts(j: &J, out: &mut Vec<String>) {
	match j {
		J::Arr(a) => a.iter().for_each(|x| json_texts(x, out)),
		J::Obj(m) => {
			if let (Some(v), Some(_)) = (j.get("@value"), j.get("@type").filter(|t| **t == s("@json"))) {
				out.push(v.text());
				return;
			}
			m.iter().for_each(|(_, v)| json_texts(v, out))
		}
		_ => (),
	}
}

pub fn texts(j: &J) -> Vec<String> {
	let mut v = vec![];
	json_texts(j, &mut v);
	v.sort();
	v.dedup();
	v
}

fn map_all(j: &J, iri: &dyn Fn(&str) -> String, id: &dyn Fn(&str) -> String) -> J {
	match j {
		J::Arr(a) => J::Arr(a.iter().map(|x| map_all(x, iri, id)).collect()),
		J::Obj(m) => {
			if j.has("@value") {
				return J::Obj(
					m.iter()
						.map(|(k, v)| match (k.as_str(), v) {
							("@type", J::Str(t)) if t != "@json" => (k.clone(), s(&iri(t))),
							_ => (k.clone(), v.clone()),
						})
						.collect(),
				);
			}
			J::Obj(
				m.iter()
					.map(|(k, v)| match k.as_str() {
						"@id" => (k.clone(), s(&id(v.as_str().unwrap()))),
						"@type" => (k.clone(), J::Arr(v.to_arr().iter().map(|x| s(&id(x.as_str().unwrap()))).collect())),
						"@index" => (k.clone(), v.clone()),
						k if k.starts_with('@') => (k.to_string(), map_all(v, iri, id)),
						k => (id(k), map_all(v, iri, id)),
					})
					.collect(),
			)
		}
		o => o.clone(),
	}
}

fn judge(c: &J, o: &mut Obs) -> V {
	let (doc, docs, op) = (doc_of(c), docs_of(c), opts_of(c));
	let l = drv::Rec::new(&docs);
	let d = match drv::expand_doc(&doc, &l, &op) {
		Out::Ok(d) => d,
		_ => return V::Skip("input not expandable"),
	};
	let ex = drv::doc_json(&d);
	if ambiguous(&ex) {
		return V::Skip("identifiers equal modulo normalisation");
	}
	let labels = iso::labels(&ex, iso::map_expanded);
	if labels.iter().any(|l| rdf_types::BlankId::new(l.as_str()).is_err()) {
		return V::Skip("invalid blank node labels");
	}
	let mut anonymous = 0;
	nodes(&ex, &mut |n| {
		if !n.has("@id") {
			anonymous += 1
		}
	});
	let want = norm::expanded(&ex);

	// Every node gets an identifier, nothing else changes.
	let mut named = d.clone();
	named.identify_all(&mut gen());
	let nj = drv::doc_json(&named);
	let mut bad = None;
	let mut fresh = BTreeSet::new();
	nodes(&nj, &mut |n| match n.get("@id").and_then(|x| x.as_str()) {
		None => bad = Some(n.clone()),
		Some(x) if is_fresh(x) => {
			if !fresh.insert(x.to_string()) {
				bad = Some(n.clone())
			}
		}
		_ => (),
	});
	if let Some(n) = bad {
		return fail("identify_all: anonymous node or repeated identifier", format!("{} in {}", n.text(), nj.text()));
	}
	if norm::expanded(&strip(&nj)) != want || fresh.len() != anonymous {
		return fail("identify_all changes the document", format!("expanded {}\nnow      {}", ex.text(), nj.text()));
	}
	let mut twice = named.clone();
	twice.identify_all(&mut Blank::new_with_prefix("other".into()));
	if twice != named {
		return fail("identify_all changes identified nodes", nj.text());
	}

	// Relabelling is a renaming of the blank nodes.
	let mut re = d.clone();
	re.relabel(&mut gen());
	let rj = drv::doc_json(&re);
	let rl = iso::labels(&rj, iso::map_expanded);
	if rl.iter().any(|x| !is_fresh(x)) || rl.len() != labels.len() + anonymous {
		return fail("relabel: labels", format!("expanded {}\nnow      {}", ex.text(), rj.text()));
	}
	match iso::docs(&rj, &nj) {
		Some(true) => (),
		Some(false) => return fail("relabel is not a renaming", format!("identified {}\nrelabeled {}", nj.text(), rj.text())),
		None => return V::Skip("isomorphism undecided"),
	}

	// Literals.
	let mut ca = d.clone();
	ca.canonicalize();
	let cj = drv::doc_json(&ca);
	let mc = canonical(&ex);
	if norm::expanded(&cj) != norm::expanded(&mc) || texts(&cj) != texts(&mc) {
		return fail("canonicalize", format!("expanded {}\nreal  {}\nmodel {}", ex.text(), cj.text(), mc.text()));
	}
	let mut both = d.clone();
	both.relabel_and_canonicalize(&mut gen());
	let bj = drv::doc_json(&both);
	if iso::docs(&bj, &canonical(&rj)) == Some(false) || texts(&bj) != texts(&mc) {
		return fail("relabel_and_canonicalize", format!("expanded {}\nnow {}", ex.text(), bj.text()));
	}

	// Renaming of all the identifiers.
	let mi = |x: &str| format!("urn:m:{x}");
	let md = |x: &str| if let Some(b) = x.strip_prefix("_:") { format!("_:m{b}") } else if iref::Iri::new(x).is_ok() { format!("urn:i:{x}") } else { format!("!{x}") };
	let mapped: ExpandedDocument<IriBuf, BlankIdBuf> = d.clone().map_ids(
		|i| IriBuf::new(mi(i.as_str())).unwrap(),
		|i| match i {
			Id::Valid(json_ld::ValidId::Iri(i)) => Id::iri(IriBuf::new(md(i.as_str())).unwrap()),
			Id::Valid(json_ld::ValidId::Blank(b)) => Id::blank(BlankIdBuf::new(md(b.as_str())).unwrap()),
			Id::Invalid(x) => Id::Invalid(md(&x)),
		},
	);
	let (a, b) = (norm::expanded(&drv::doc_json(&mapped)), norm::expanded(&map_all(&ex, &mi, &md)));
	if a != b {
		return fail("map_ids", format!("expanded {}\nreal  {}\nmodel {}", ex.text(), a.text(), b.text()));
	}
	let same: ExpandedDocument = d.clone().map_ids(|i| i, |i| i);
	if same != d {
		return fail("map_ids: identity", ex.text());
	}

	// The same with an indexed vocabulary.
	let mut voc = <IndexVocabulary>::default();
	let vd = {
		let v = std::cell::RefCell::new(&mut voc);
		d.clone().map_ids(
			|i| v.borrow_mut().insert(i.as_iri()),
			|i| match i {
				Id::Valid(json_ld::ValidId::Iri(i)) => Id::iri(v.borrow_mut().insert(i.as_iri())),
				Id::Valid(json_ld::ValidId::Blank(b)) => Id::blank(v.borrow_mut().insert_blank_id(&b)),
				Id::Invalid(x) => Id::Invalid(x),
			},
		)
	};
	let mut vr = vd.clone();
	vr.relabel_and_canonicalize_with(&mut voc, &mut gen());
	let back: ExpandedDocument<IriBuf, BlankIdBuf> = vr.map_ids(
		|i| voc.iri(&i).unwrap().to_owned(),
		|i| match i {
			Id::Valid(json_ld::ValidId::Iri(i)) => Id::iri(voc.iri(&i).unwrap().to_owned()),
			Id::Valid(json_ld::ValidId::Blank(b)) => Id::blank(voc.blank_id(&b).unwrap().to_owned()),
			Id::Invalid(x) => Id::Invalid(x),
		},
	);
	if iso::docs(&drv::doc_json(&back), &bj) == Some(false) {
		return fail("relabel with a vocabulary", format!("{}\n{}", drv::doc_json(&back).text(), bj.text()));
	}

	// Blank node identifiers of the document.
	let ids: BTreeSet<String> = d.blank_ids().into_iter().map(|b| b.to_string()).collect();
	if ids != labels {
		return fail("blank_ids", format!("expanded {}\nreal {ids:?}\nmodel {labels:?}", ex.text()));
	}

	// Flattened documents.
	use json_ld::Flatten;
	if let Ok(mut f) = d.clone().flatten(Blank::new(), true) {
		let j = |f: &json_ld::FlattenedDocument<IriBuf, BlankIdBuf>| J::from_js(&json_ld::syntax::IntoJson::into_json(f.clone().into_with(&())));
		let before = j(&f);
		let mut g = f.clone();
		g.identify_all(&mut gen());
		if j(&g) != before && iso::labels(&j(&g), iso::map_expanded).len() == iso::labels(&before, iso::map_expanded).len() {
			return fail("identify_all of a flattened document", before.text());
		}
		f.relabel(&mut gen(), &mut Default::default());
		let after = j(&f);
		if iso::labels(&after, iso::map_expanded).iter().any(|x| !is_fresh(x)) || iso::docs(&after, &before) == Some(false) {
			return fail("relabel of a flattened document", format!("{}\n{}", before.text(), after.text()));
		}
	}
	o.add("anonymous nodes", anonymous as u64);
	o.add("labels", labels.len() as u64);
	o.add("json literals", texts(&ex).len() as u64);
	if anonymous + labels.len() > 0 {
		o.seen(&want);
	}
	V::Pass
}

pub fn c07() -> Prop {
	Prop {
		id: "C07",
		level: "exploration",
		rule: "Generated expanded documents are identified, relabelled, canonicalized and mapped, with and without an indexed vocabulary; the results are compared with what these operations mean on the JSON form.",
		assumptions: &[],
		mons: vec![Mon { name: "labels", gen: case, judge, fixed: none, quick: 120000, threads: 0 }],
	}
}
