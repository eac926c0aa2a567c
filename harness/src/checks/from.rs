//! C09: expanded documents made from RDF datasets.
use super::util::*;
use crate::drv::{self, Out};
use crate::iso;
use crate::json::{obj, s, J};
use crate::model::rdf::{lang_lit, lit, to_rdf, Opt, RDF, XSD};
use crate::rng::Rng;
use crate::run::*;
use iref::IriBuf;
use json_ld::ExpandedDocument;
use rdf_types::{BlankIdBuf, Id, Literal, LiteralType, Quad, Term};
use std::collections::{BTreeMap, BTreeSet};

const IRIS: [&str; 4] = ["urn:a", "urn:b", "http://e.org/c", "http://v.org/p"];

fn literal(r: &mut Rng) -> J {
	let x = |t: &str| format!("{XSD}{t}");
	match r.below(12) {
		0 => lit("text", &x("string")),
		1 => lit(&r.ps(&["1", "-7", "0", "42"]), &x("integer")),
		2 => lit(&r.ps(&["1.5", "1.5E0", "-0.1", "1E3", "100"]), &x("double")),
		3 => lit(&r.ps(&["true", "false", "1", "0"]), &x("boolean")),
		4 => lit(&r.ps(&["2020-01-01", ""]), &x("date")),
		5 => lang_lit("hi", &r.ps(&["en", "fr-CA", "zh-Hant"])),
		6 => lit(&r.ps(&["{\"a\":[1,null]}", "[]", "\"x\"", "true", "null"]), &format!("{RDF}JSON")),
		7 => lit("x", "https://www.w3.org/ns/i18n#en_rtl"),
		8 => lit(&r.ps(&["yes", "maybe"]), &x("boolean")),
		9 => lit(&r.ps(&["1.0", "abc", "1x"]), &x("integer")),
		10 => lit(&r.ps(&["1.50", "3"]), &x("decimal")),
		_ => lit(&r.ps(&["a", "b", ""]), &x("string")),
	}
}

fn gen(mut r: Rng) -> J {
	if r.pc(25) {
		// The dataset of a document.
		let c = doc_case(r.fork());
		let l = drv::Rec::new(&docs_of(&c));
		let mut op = opts_of(&c);
		op.rdf_direction = [None, Some(json_ld_core::rdf::RdfDirection::I18nDatatype), Some(json_ld_core::rdf::RdfDirection::CompoundLiteral)][r.below(3)];
		if let Out::Ok(q) = drv::to_rdf(&doc_of(&c), &l, &op) {
			if q.len() > 1 {
				return obj(vec![("quads", J::Arr(q))]);
			}
		}
	}
	let f = |p: &str| s(&format!("{RDF}{p}"));
	let blanks: Vec<String> = (0..r.range(1, 6)).map(|i| format!("_:n{i}")).collect();
	let graphs: Vec<J> = match r.below(4) {
		0 => vec![J::Null, s("urn:g")],
		1 => vec![J::Null, s("urn:a"), s(&blanks[0])],
		_ => vec![J::Null],
	};
	let id = |r: &mut Rng| if r.pc(70) { s(&r.pick(&blanks).clone()) } else { s(&r.ps(&IRIS)) };
	let mut q: Vec<J> = vec![];
	let mut n = 0;
	// Lists, well formed or not.
	for _ in 0..r.below(3) {
		let g = r.pick(&graphs).clone();
		let len = r.range(0, 3);
		let nodes: Vec<J> = (0..len)
			.map(|_| {
				n += 1;
				if r.pc(3) {
					s("urn:list")
				} else {
					s(&format!("_:l{n}"))
				}
			})
			.collect();
		for i in 0..len {
			let next = if i + 1 < len { nodes[i + 1].clone() } else { f("nil") };
			let v = if r.pc(50) { literal(&mut r) } else { id(&mut r) };
			q.push(J::Arr(vec![nodes[i].clone(), f("first"), v, g.clone()]));
			q.push(J::Arr(vec![nodes[i].clone(), f("rest"), next, g.clone()]));
		}
		let head = nodes.first().cloned().unwrap_or(f("nil"));
		for _ in 0..=r.pc(15) as usize {
			let sub = id(&mut r);
			let p = if r.pc(15) { f("first") } else { s(&r.ps(&IRIS)) };
			q.push(J::Arr(vec![sub, p, head.clone(), g.clone()]));
		}
		if len > 0 {
			let x = r.pick(&nodes).clone();
			let y = r.pick(&nodes).clone();
			let og = r.pick(&graphs).clone();
			match r.below(20) {
				0 => q.push(J::Arr(vec![x, f("type"), f("List"), g.clone()])),
				1 => q.push(J::Arr(vec![x, f("rest"), y, g.clone()])),
				2 => q.push(J::Arr(vec![x, f("first"), s("urn:b"), g.clone()])),
				3 => q.push(J::Arr(vec![x, s("urn:a"), y, g.clone()])),
				4 => q.push(J::Arr(vec![s("urn:b"), s("urn:a"), x, og])),
				5 => q.push(J::Arr(vec![s("urn:b"), s("urn:a"), s("urn:b"), x])),
				6 => q.push(J::Arr(vec![x, f("type"), s("urn:t"), og])),
				7 => q.push(J::Arr(vec![x, f("rest"), f("nil"), g.clone()])),
				_ => (),
			}
		}
	}
	for _ in 0..r.below(7) {
		let sub = id(&mut r);
		let p = match r.below(10) {
			0..=1 => f("type"),
			2 => f(&r.ps(&["first", "rest"])),
			3 => f(&r.ps(&["value", "direction", "language"])),
			_ => s(&r.ps(&IRIS)),
		};
		let o = match r.below(10) {
			0..=3 => literal(&mut r),
			4 => f(&r.ps(&["nil", "List", "type"])),
			_ => id(&mut r),
		};
		q.push(J::Arr(vec![sub, p, o, r.pick(&graphs).clone()]));
	}
	r.shuffle(&mut q);
	obj(vec![("quads", J::Arr(q))])
}

fn term(j: &J) -> Option<Term> {
	Some(match j {
		J::Str(x) => Term::Id(match x.strip_prefix("_:") {
			Some(_) => Id::Blank(BlankIdBuf::new(x.clone()).ok()?),
			None => Id::Iri(IriBuf::new(x.clone()).ok()?),
		}),
		o => {
			let v = o.get("v")?.as_str()?.to_string();
			Term::Literal(match (o.get("t"), o.get("l")) {
				(Some(t), _) => Literal::new(v, LiteralType::Any(IriBuf::new(t.as_str()?.to_string()).ok()?)),
				(_, Some(l)) => Literal::new(v, LiteralType::LangString(langtag::LangTagBuf::new(l.as_str()?.to_string()).ok()?)),
				_ => return None,
			})
		}
	})
}

fn is_number(v: &str) -> bool {
	json_syntax::NumberBuf::new(v.bytes().collect()).is_ok()
}

/// The literal after a round trip; None: it has no native form.
fn canonical(o: &J) -> Option<J> {
	let (v, t) = match (o.get("v").and_then(|x| x.as_str()), o.get("t").and_then(|x| x.as_str())) {
		(Some(v), Some(t)) => (v, t),
		_ => return Some(o.clone()),
	};
	let native = if t == format!("{RDF}JSON") {
		obj(vec![("@type", s("@json")), ("@value", J::parse(v)?)])
	} else if t == format!("{XSD}boolean") {
		let b = match v {
			"true" | "1" => true,
			"false" | "0" => false,
			_ => return None,
		};
		obj(vec![("@type", s(t)), ("@value", J::Bool(b))])
	} else if t == format!("{XSD}integer") || t == format!("{XSD}double") {
		if !is_number(v) {
			return None;
		}
		obj(vec![("@type", s(t)), ("@value", J::Num(v.into()))])
	} else {
		return Some(o.clone());
	};
	let d = J::Arr(vec![obj(vec![("@id", s("urn:s")), ("urn:p", J::Arr(vec![native]))])]);
	Some(to_rdf(&d, Opt::default()).ok()?[0].as_arr()?[2].clone())
}

fn parts(q: &J) -> (&J, &J, &J, &J) {
	let a = q.as_arr().unwrap();
	(&a[0], &a[1], &a[2], &a[3])
}

/// The lists that have no other description than their items: their nodes.
fn lists(qs: &[J]) -> Vec<Vec<String>> {
	let rdf = |p: &str| s(&format!("{RDF}{p}"));
	let (first, rest, nil, ty, list) = (rdf("first"), rdf("rest"), rdf("nil"), rdf("type"), rdf("List"));
	// Per blank node: (quads as object, graph of these, quads as subject, used elsewhere)
	let mut about: BTreeMap<&str, (Vec<&J>, Vec<&J>, bool)> = BTreeMap::new();
	let bl = |j: &J| j.as_str().map_or(false, |x| x.starts_with("_:"));
	for q in qs {
		let (su, p, o, g) = parts(q);
		for (i, x) in [su, p, o, g].into_iter().enumerate() {
			if bl(x) {
				let e = about.entry(x.as_str().unwrap()).or_default();
				match i {
					0 => e.1.push(q),
					2 => e.0.push(q),
					_ => e.2 = true,
				}
			}
		}
	}
	let ok = |b: &J, g: &J| -> Option<&J> {
		if !bl(b) {
			return None;
		}
		let (obj, sub, other) = about.get(b.as_str().unwrap())?;
		if *other || obj.len() != 1 || parts(obj[0]).1 == &ty || parts(obj[0]).3 != g || sub.iter().any(|q| parts(q).3 != g) {
			return None;
		}
		let n = |p: &J| sub.iter().filter(|q| parts(q).1 == p).count();
		let types = sub.iter().filter(|q| parts(q).1 == &ty && parts(q).2 == &list).count();
		if n(&first) == 1 && n(&rest) == 1 && sub.len() == 2 + types {
			Some(obj[0])
		} else {
			None
		}
	};
	let mut out = vec![];
	for q in qs {
		let (su, p, o, g) = parts(q);
		if *p == rest && *o == nil {
			let mut nodes = vec![];
			let mut at = su.clone();
			while let Some(up) = ok(&at, g) {
				nodes.push(at.as_str().unwrap().to_string());
				if parts(up).1 != &rest {
					break;
				}
				at = parts(up).0.clone();
			}
			if !nodes.is_empty() {
				out.push(nodes)
			}
		}
	}
	out
}

/// Does a list contain itself?
fn cyclic(qs: &[J], lists: &[Vec<String>]) -> bool {
	let up = |b: &str| qs.iter().map(parts).find(|p| p.2.as_str() == Some(b)).and_then(|p| p.0.as_str().map(|x| x.to_string()));
	let all: BTreeSet<&String> = lists.iter().flatten().collect();
	all.iter().any(|n| {
		let mut at = n.to_string();
		for _ in 0..=qs.len() {
			match up(&at) {
				Some(u) => at = u,
				None => return false,
			}
			if !all.contains(&at) {
				return false;
			}
		}
		true
	})
}

fn count_lists(j: &J) -> usize {
	match j {
		J::Arr(a) => a.iter().map(count_lists).sum(),
		J::Obj(m) => j.has("@list") as usize + m.iter().filter(|x| x.0 != "@value").map(|x| count_lists(&x.1)).sum::<usize>(),
		_ => 0,
	}
}

fn judge(c: &J, o: &mut Obs) -> V {
	let mut qs = c.get("quads").map(|x| x.to_arr()).unwrap_or_default();
	qs.sort();
	qs.dedup();
	let mut terms = vec![];
	for q in &qs {
		let a = match q.as_arr() {
			Some(a) if a.len() == 4 => a,
			_ => return V::Skip("not a dataset"),
		};
		match (term(&a[0]), term(&a[1]), term(&a[2]), term(&a[3])) {
			(Some(Term::Id(s)), Some(Term::Id(p)), Some(o), g) if g.is_some() != (a[3] == J::Null) => terms.push(Quad(Term::Id(s), Term::Id(p), o, g)),
			_ => return V::Skip("not a dataset"),
		}
	}
	if ambiguous(&J::Arr(qs.clone())) {
		return V::Skip("identifiers equal modulo normalisation");
	}
	let refs = terms.iter().map(|Quad(s, p, o, g)| Quad(s, p, o, g.as_ref()));
	let native = qs.iter().all(|q| canonical(parts(q).2).is_some());
	let d: ExpandedDocument = match ExpandedDocument::from_interpreted_quads(&(), &(), refs) {
		Ok(d) => d,
		Err(e) => {
			if native {
				return fail("dataset rejected", format!("{e} on {}", J::Arr(qs).text()));
			}
			o.hit("rejected");
			return V::Pass;
		}
	};
	if !native {
		return fail("ill-typed literal accepted", format!("{} from {}", drv::doc_json(&d).text(), J::Arr(qs).text()));
	}
	let j = drv::doc_json(&d);
	if let Out::Err(_, e) | Out::Panic(e) = drv::parse_expanded(&j) {
		return fail("invalid expanded document", format!("{e} {}", j.text()));
	}
	let well = lists(&qs);
	if cyclic(&qs, &well) {
		return V::Skip("list containing itself");
	}
	// The type of the nodes of lists is not kept.
	let dropped: BTreeSet<&String> = well.iter().flatten().collect();
	let mut want: Vec<J> = vec![];
	for q in &qs {
		let (su, p, ob, g) = parts(q);
		if p.as_str() == Some(&format!("{RDF}type")) && su.as_str().map_or(false, |x| dropped.contains(&x.to_string())) {
			continue;
		}
		want.push(J::Arr(vec![su.clone(), p.clone(), canonical(ob).unwrap(), g.clone()]));
	}
	let mut got = match to_rdf(&j, Opt { dir: None, generalized: true }) {
		Ok(q) => q,
		Err(e) => return fail("document without dataset", format!("{e:?} {}", j.text())),
	};
	got.sort();
	got.dedup();
	want.sort();
	want.dedup();
	match iso::quads(&J::Arr(got.clone()), &J::Arr(want.clone())) {
		Some(true) => (),
		None => return V::Skip("isomorphism undecided"),
		Some(false) => {
			let what = if got.len() < want.len() { "quads lost" } else if got.len() > want.len() { "quads invented" } else { "quads changed" };
			return fail(what, format!("quads {}\ndocument {}\ndenotes {}", J::Arr(want).text(), j.text(), J::Arr(got).text()));
		}
	}
	if count_lists(&j) != well.len() {
		return fail("lists", format!("{} lists expected in {}\nfrom {}", well.len(), j.text(), J::Arr(qs).text()));
	}
	o.add("quads", qs.len() as u64);
	o.add("lists", well.len() as u64);
	if !qs.is_empty() {
		o.seen(&qs);
	}
	V::Pass
}

pub fn c09() -> Prop {
	Prop {
		id: "C09",
		level: "exploration",
		rule: "Random datasets (well-formed and broken lists, shared and cyclic nodes, named graphs, all literal forms) and datasets of documents are turned into expanded documents; the dataset these denote, by the reference model, is compared with the original.",
		assumptions: &[],
		mons: vec![Mon { name: "from-rdf", gen, judge, fixed: none, quick: 200000, threads: 0 }],
	}
}
