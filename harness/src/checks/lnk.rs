//! Linked data: visiting documents and serializing linked data into documents.
use super::util::*;
use crate::drv::{self, Out};
use crate::gen::{Gen, Profile};
use crate::iso;
use crate::json::{obj, s, J};
use crate::model;
use crate::rng::Rng;
use crate::run::*;
use contextual::WithContext;
use json_ld::ser;
use json_ld::syntax::IntoJson;
use linked_data::{
	CowRdfTerm, GraphVisitor, LinkedData, LinkedDataGraph, LinkedDataPredicateObjects, LinkedDataResource, LinkedDataSubject, PredicateObjectsVisitor, RdfLiteral, ResourceInterpretation,
	SubjectVisitor, Visitor,
};
use rdf_types::vocabulary::{BlankIdVocabularyMut, IndexVocabulary, IriVocabularyMut};
use rdf_types::{BlankId, Id, Interpretation, LiteralType, Term, Vocabulary};

type Gen0 = rdf_types::interpretation::WithGenerator<rdf_types::generator::Blank>;

const RDF: &str = "http://www.w3.org/1999/02/22-rdf-syntax-ns#";
const XSD: &str = "http://www.w3.org/2001/XMLSchema#";

// --- quads

fn term_j(t: &Term) -> J {
	match t {
		Term::Id(i) => s(&i.to_string()),
		Term::Literal(l) => drv::literal_j(l),
	}
}

/// The quads a visit of the value yields.
fn visited(v: &impl LinkedData<Gen0>) -> Out<Vec<J>> {
	drv::guard(|| {
		let g = rdf_types::generator::Blank::new_with_prefix("visited".into());
		match linked_data::to_quads(g, v) {
			Ok(qs) => Out::Ok(
				qs.into_iter()
					.map(|rdf_types::Quad(a, b, c, g)| J::Arr(vec![s(&a.to_string()), s(b.as_str()), term_j(&c), g.map(|g| s(&g.to_string())).unwrap_or(J::Null)]))
					.collect(),
			),
			Err(e) => Out::Err("quads".into(), e.to_string()),
		}
	})
}

/// Literals in value space: JSON-LD has a single number type, whose datatype
/// and lexical form depend on the value.
fn value_space(q: &J) -> J {
	let J::Arr(q) = q else { return q.clone() };
	let mut q = q.clone();
	if let Some(l) = q.get_mut(2) {
		if l.is_obj() {
			*l = literal_value(l)
		}
	}
	J::Arr(q)
}

fn literal_value(l: &J) -> J {
	let (v, t) = (l.get("v").and_then(|x| x.as_str()).unwrap_or(""), l.get("t").and_then(|x| x.as_str()).unwrap_or(""));
	if let Some(t) = t.strip_prefix(XSD) {
		let numeric = [
			"integer", "decimal", "double", "float", "long", "int", "short", "byte", "nonNegativeInteger", "nonPositiveInteger", "negativeInteger", "positiveInteger", "unsignedLong", "unsignedInt",
			"unsignedShort", "unsignedByte",
		];
		if numeric.contains(&t) {
			if let Ok(f) = v.parse::<f64>() {
				return obj(vec![("number", s(&format!("{:.12e}", if f == 0.0 { 0.0 } else { f })))]);
			}
		}
		if t == "boolean" {
			return obj(vec![("boolean", s(if v == "1" || v == "true" { "true" } else { v }))]);
		}
	}
	if t == format!("{RDF}JSON") {
		if let Some(j) = J::parse(v) {
			return obj(vec![("json", s(&model::rdf::jcs(&j)))]);
		}
	}
	l.clone()
}

fn in_value_space(qs: &[J]) -> J {
	let mut v: Vec<J> = qs.iter().map(value_space).collect();
	v.sort();
	v.dedup();
	J::Arr(v)
}

/// Things an RDF dataset does not represent: identifiers which are no IRI,
/// malformed language tags, and blank node predicates.
fn outside_rdf(d: &J) -> bool {
	let bad = |i: &str| !i.starts_with("_:") && iref::Iri::new(i).is_err() || i.starts_with("_:") && BlankId::new(i).is_err();
	match d {
		J::Arr(a) => a.iter().any(outside_rdf),
		J::Obj(m) => {
			if let Some(v) = m.iter().find(|(k, _)| k == "@value").map(|x| &x.1) {
				let lang = m.iter().any(|(k, v)| k == "@language" && !v.as_str().map(model::rdf::lang_ok).unwrap_or(false));
				let ty = m.iter().any(|(k, v)| k == "@type" && v.as_str().map(|v| v != "@json" && bad(v)).unwrap_or(false));
				let _ = v;
				return lang || ty;
			}
			m.iter().any(|(k, v)| match k.as_str() {
				"@id" => v.as_str().map(bad).unwrap_or(true),
				"@type" => v.to_arr().iter().any(|v| v.as_str().map(bad).unwrap_or(true)),
				"@index" => false,
				"@reverse" | "@list" | "@graph" | "@included" => {
					if k == "@reverse" && v.as_obj().map(|m| m.iter().any(|(k, _)| k.starts_with("_:"))).unwrap_or(false) {
						return true;
					}
					outside_rdf(v)
				}
				k => bad(k) || k.starts_with("_:") || outside_rdf(v),
			})
		}
		_ => false,
	}
}

/// A list outside of any property: it is dropped, its nodes are not.
fn floating_list(d: &J) -> bool {
	match d {
		J::Arr(a) => a.iter().any(floating_list),
		J::Obj(m) => !d.has("@value") && m.iter().any(|(k, v)| k == "@graph" && v.to_arr().iter().any(|x| x.has("@list")) || floating_list(v)),
		_ => false,
	}
}

fn case(mut r: Rng) -> J {
	let mut p = Profile::random(&mut r);
	p.odd = 0;
	doc_case_with(r.fork(), Some(p))
}

fn same_quads(what: &str, a: &[J], b: &[J], o: &mut Obs) -> V {
	let (a, b) = (in_value_space(a), in_value_space(b));
	match iso::quads(&a, &b) {
		Some(true) => {
			if a.len() > 0 {
				o.seen(&a.text());
				o.add("quads compared", a.len() as u64);
			}
			V::Pass
		}
		Some(false) => fail(what, format!("got      {}\nexpected {}", a.text(), b.text())),
		None => V::Skip("isomorphism undecided"),
	}
}

fn prepare(c: &J) -> Result<(json_ld::ExpandedDocument, J, Vec<J>), V> {
	let (doc, docs, op) = (doc_of(c), docs_of(c), opts_of(c));
	let l = drv::Rec::new(&docs);
	let Out::Ok(ex) = drv::expand_doc(&doc, &l, &op) else { return Err(V::Skip("expansion fails")) };
	let j = drv::doc_json(&ex);
	if outside_rdf(&j) {
		return Err(V::Skip("not representable in RDF"));
	}
	if floating_list(&j) {
		return Err(V::Skip("free-floating list"));
	}
	match drv::to_rdf(&doc, &l, &op) {
		Out::Ok(q) => Ok((ex, j, q)),
		_ => Err(V::Skip("no RDF")),
	}
}

fn has_key(j: &J, k: &str) -> bool {
	match j {
		J::Arr(a) => a.iter().any(|x| has_key(x, k)),
		J::Obj(m) => m.iter().any(|(x, v)| x == k || has_key(v, k)),
		_ => false,
	}
}

/// Visiting an expanded document yields the quads of its RDF serialization.
fn judge_visit(c: &J, o: &mut Obs) -> V {
	let (ex, j, quads) = match prepare(c) {
		Ok(x) => x,
		Err(v) => return v,
	};
	for k in ["@list", "@graph", "@reverse", "@included", "@json"] {
		if has_key(&j, k) {
			o.hit(&format!("visited {k}"))
		}
	}
	match visited(&ex) {
		Out::Ok(q) => match same_quads("visiting a document yields other quads", &q, &quads, o) {
			V::Pass => (),
			x => return x,
		},
		x => return fail("visiting a document fails", x.map(|_| "").text()),
	}
	// Each object by itself.
	for x in &ex {
		let mut one = json_ld::ExpandedDocument::new();
		one.insert(x.clone());
		let (Out::Ok(a), Out::Ok(b)) = (visited(x.inner()), visited(&one)) else { return fail("visiting an object fails", String::new()) };
		match same_quads("visiting an object yields other quads", &a, &b, o) {
			V::Fail(a, b) => return V::Fail(a, b),
			_ => o.hit("objects visited"),
		}
	}
	V::Pass
}

fn count_lists(j: &J) -> usize {
	match j {
		J::Arr(a) => a.iter().map(count_lists).sum(),
		J::Obj(m) => m.iter().map(|(k, v)| if k == "@value" { 0 } else { (k == "@list") as usize + count_lists(v) }).sum(),
		_ => 0,
	}
}

fn serialized<T: LinkedData>(t: &T) -> Out<J> {
	drv::guard(|| match ser::serialize(t) {
		Ok(d) => Out::Ok(drv::doc_json(&d)),
		Err(e) => Out::Err(format!("{e:?}"), e.to_string()),
	})
}

/// Whether two members of a set differ by their indexes only: the serialization has no index and sets have no duplicates.
/// What expansion drops from graphs does not make a difference either.
fn index_only(j: &J) -> bool {
	fn strip(j: &J) -> J {
		match j {
			J::Arr(a) => J::Arr(a.iter().map(strip).collect()),
			J::Obj(m) => J::Obj(m.iter().filter(|(k, _)| k != "@index").map(|(k, v)| match (k.as_str(), v) {
				("@value", _) => (k.clone(), v.clone()),
				// Dropped by another expansion.
				("@graph", J::Arr(a)) => (k.clone(), J::Arr(a.iter().map(strip).filter(|x| !x.has("@value") && !x.has("@list") && x.len() > x.has("@id") as usize).collect())),
				_ => (k.clone(), strip(v)),
			}).collect()),
			x => x.clone(),
		}
	}
	fn twice(j: &J) -> bool {
		match j {
			J::Arr(a) => {
				let mut t: Vec<String> = a.iter().map(|x| x.sorted().text()).collect();
				let n = t.len();
				t.sort();
				t.dedup();
				t.len() < n || a.iter().any(twice)
			}
			J::Obj(m) => m.iter().any(|(k, v)| match (k.as_str(), v) {
				("@value", _) => false,
				("@list", J::Arr(a)) => a.iter().any(twice),
				_ => twice(v),
			}),
			_ => false,
		}
	}
	twice(&strip(j))
}

/// Serializing a document through its visit keeps its meaning and its lists.
fn judge_serialize(c: &J, o: &mut Obs) -> V {
	let (ex, j, quads) = match prepare(c) {
		Ok(x) => x,
		Err(v) => return v,
	};
	if index_only(&j) {
		return V::Skip("objects differing by their index");
	}
	let d = match serialized(&ex) {
		Out::Ok(d) => d,
		x => return fail("serializing a document fails", x.map(|_| "").text()),
	};
	let op = drv::Opts::default();
	let l = drv::Rec::default();
	let again = match drv::to_rdf(&d, &l, &op) {
		Out::Ok(q) => q,
		x => return fail("a serialized document is not valid", format!("{}\n{}", d.text(), x.map(|_| "").text())),
	};
	match same_quads("serializing a document changes its quads", &again, &quads, o) {
		V::Pass => (),
		V::Fail(a, b) => return V::Fail(a, format!("{b}\ndocument   {}\nserialized {}", j.text(), d.text())),
		x => return x,
	}
	if !j.text().contains(RDF) && count_lists(&j) != count_lists(&d) {
		return fail("serializing a document loses a list", format!("document   {}\nserialized {}", j.text(), d.text()));
	}
	o.add("lists serialized", count_lists(&d) as u64);
	V::Pass
}

// --- described values

/// A value described by JSON, visited as the description says.
#[derive(Clone, Copy)]
struct Sub<'a>(&'a J);
struct Pred<'a>(&'a str);
struct Objs<'a>(&'a [J]);
struct Graph<'a>(&'a [J]);
struct Named<'a>(&'a J);
struct Data<'a>(&'a J);

fn arr<'a>(j: &'a J, k: &str) -> &'a [J] {
	match j.get(k) {
		Some(J::Arr(a)) => a,
		_ => &[],
	}
}

fn entry(j: &J) -> Option<(&str, &[J])> {
	match j {
		J::Arr(a) if a.len() == 2 => Some((a[0].as_str()?, a[1].as_arr()?)),
		_ => None,
	}
}

fn xsd_value(l: &J) -> Option<xsd_types::Value> {
	let t = l.get("xsd")?.as_str()?;
	let iri = format!("{XSD}{t}");
	xsd_types::Datatype::from_iri(iref::Iri::new(&iri).ok()?)?.parse(l.get("lex")?.as_str()?).ok()
}

fn ld_term<V: Vocabulary + IriVocabularyMut + BlankIdVocabularyMut>(voc: &mut V, j: &J) -> Option<linked_data::RdfTerm<V>> {
	if let Some(i) = j.get("id").and_then(|x| x.as_str()) {
		return if i.starts_with("_:") { Some(Term::Id(Id::Blank(voc.insert_blank_id(BlankId::new(i).ok()?)))) } else { Some(Term::Id(Id::Iri(voc.insert(iref::Iri::new(i).ok()?)))) };
	}
	let l = j.get("lit")?;
	if let Some(x) = xsd_value(l) {
		return Some(Term::Literal(RdfLiteral::Xsd(x)));
	}
	if let Some(x) = l.get("json") {
		return Some(Term::Literal(RdfLiteral::Json(x.to_js())));
	}
	let v = l.get("v")?.as_str()?.to_string();
	if let Some(g) = l.get("lang").and_then(|x| x.as_str()) {
		return Some(Term::Literal(RdfLiteral::Any(v, LiteralType::LangString(langtag::LangTagBuf::new(g.to_string()).ok()?))));
	}
	let t = l.get("t")?.as_str()?;
	Some(Term::Literal(RdfLiteral::Any(v, LiteralType::Any(voc.insert(iref::Iri::new(t).ok()?)))))
}

impl<'a, I: Interpretation, V: Vocabulary + IriVocabularyMut + BlankIdVocabularyMut> LinkedDataResource<I, V> for Sub<'a> {
	fn interpretation(&self, voc: &mut V, _: &mut I) -> ResourceInterpretation<'_, I, V> {
		ResourceInterpretation::Uninterpreted(ld_term(voc, self.0).map(CowRdfTerm::Owned))
	}
}
impl<'a, I: Interpretation, V: Vocabulary + IriVocabularyMut + BlankIdVocabularyMut> LinkedDataResource<I, V> for Pred<'a> {
	fn interpretation(&self, voc: &mut V, _: &mut I) -> ResourceInterpretation<'_, I, V> {
		let i = iref::Iri::new(self.0).expect("harness predicate");
		ResourceInterpretation::Uninterpreted(Some(CowRdfTerm::Owned(Term::Id(Id::Iri(voc.insert(i))))))
	}
}
impl<'a, I: Interpretation, V: Vocabulary + IriVocabularyMut + BlankIdVocabularyMut> LinkedDataSubject<I, V> for Sub<'a> {
	fn visit_subject<S: SubjectVisitor<I, V>>(&self, mut v: S) -> Result<S::Ok, S::Error> {
		for e in arr(self.0, "preds") {
			if let Some((p, os)) = entry(e) {
				v.predicate(&Pred(p), &Objs(os))?;
			}
		}
		for e in arr(self.0, "reverse") {
			if let Some((p, os)) = entry(e) {
				v.reverse_predicate(&Pred(p), &Objs(os))?;
			}
		}
		for x in arr(self.0, "include") {
			v.include(&Sub(x))?;
		}
		for g in arr(self.0, "graphs") {
			if let J::Arr(g) = g {
				v.graph(&Graph(g))?;
			}
		}
		v.end()
	}
}
impl<'a, I: Interpretation, V: Vocabulary + IriVocabularyMut + BlankIdVocabularyMut> LinkedDataPredicateObjects<I, V> for Objs<'a> {
	fn visit_objects<S: PredicateObjectsVisitor<I, V>>(&self, mut v: S) -> Result<S::Ok, S::Error> {
		for x in self.0 {
			v.object(&Sub(x))?;
		}
		v.end()
	}
}
impl<'a, I: Interpretation, V: Vocabulary + IriVocabularyMut + BlankIdVocabularyMut> LinkedDataGraph<I, V> for Graph<'a> {
	fn visit_graph<S: GraphVisitor<I, V>>(&self, mut v: S) -> Result<S::Ok, S::Error> {
		for x in self.0 {
			v.subject(&Sub(x))?;
		}
		v.end()
	}
}
impl<'a, I: Interpretation, V: Vocabulary + IriVocabularyMut + BlankIdVocabularyMut> LinkedDataGraph<I, V> for Named<'a> {
	fn visit_graph<S: GraphVisitor<I, V>>(&self, v: S) -> Result<S::Ok, S::Error> {
		Graph(arr(self.0, "subjects")).visit_graph(v)
	}
}
impl<'a, I: Interpretation, V: Vocabulary + IriVocabularyMut + BlankIdVocabularyMut> LinkedDataResource<I, V> for Named<'a> {
	fn interpretation(&self, voc: &mut V, _: &mut I) -> ResourceInterpretation<'_, I, V> {
		ResourceInterpretation::Uninterpreted(ld_term(voc, self.0).map(CowRdfTerm::Owned))
	}
}
impl<'a, I: Interpretation, V: Vocabulary + IriVocabularyMut + BlankIdVocabularyMut> LinkedData<I, V> for Data<'a> {
	fn visit<S: Visitor<I, V>>(&self, mut v: S) -> Result<S::Ok, S::Error> {
		for g in arr(self.0, "graphs") {
			if g.has("default") {
				v.default_graph(&Graph(arr(g, "subjects")))?;
			} else {
				v.named_graph(&Named(g))?;
			}
		}
		v.end()
	}
}

/// The quads a description stands for, or the reason why it has no JSON-LD form.
struct Direct {
	quads: Vec<J>,
	fresh: usize,
	bad: Option<&'static str>,
}

impl Direct {
	fn label(&mut self, x: &J) -> J {
		if let Some(i) = x.get("id") {
			return i.clone();
		}
		if let Some(l) = x.get("lit") {
			if let Some(v) = xsd_value(l) {
				return model::rdf::lit(&v.to_string(), v.datatype().iri().as_str());
			}
			if let Some(v) = l.get("json") {
				return model::rdf::lit(&v.text(), &format!("{RDF}JSON"));
			}
			let v = l.get("v").and_then(|x| x.as_str()).unwrap_or("");
			return match l.get("lang").and_then(|x| x.as_str()) {
				Some(g) => model::rdf::lang_lit(v, g),
				None => model::rdf::lit(v, l.get("t").and_then(|x| x.as_str()).unwrap_or("")),
			};
		}
		self.fresh += 1;
		s(&format!("_:direct{}", self.fresh))
	}

	fn subject(&mut self, x: &J, g: &J) -> J {
		let me = self.label(x);
		for e in arr(x, "preds") {
			if let Some((p, os)) = entry(e) {
				for v in os {
					let t = self.subject(v, g);
					self.quads.push(J::Arr(vec![me.clone(), s(p), t, g.clone()]));
				}
			}
		}
		for e in arr(x, "reverse") {
			if let Some((p, os)) = entry(e) {
				for v in os {
					if v.has("lit") {
						self.bad = Some("literal subject")
					}
					let t = self.subject(v, g);
					self.quads.push(J::Arr(vec![t, s(p), me.clone(), g.clone()]));
				}
			}
		}
		for v in arr(x, "include") {
			if v.has("lit") {
				self.bad = Some("literal included")
			}
			self.subject(v, g);
		}
		for h in arr(x, "graphs") {
			if let J::Arr(h) = h {
				for v in h {
					self.subject(v, &me);
				}
			}
		}
		me
	}

	fn data(d: &J) -> Direct {
		let mut me = Direct { quads: vec![], fresh: 0, bad: None };
		for g in arr(d, "graphs") {
			let name = if g.has("default") { J::Null } else { me.label(g) };
			if name.is_obj() {
				me.bad = Some("literal graph")
			}
			for x in arr(g, "subjects") {
				me.subject(x, &name);
			}
		}
		me
	}
}

struct Tree {
	r: Rng,
	n: usize,
	broken: bool,
}

impl Tree {
	fn iri(&mut self) -> J {
		s(["http://t.org/a", "http://t.org/b", "http://t.org/c", "urn:x:y"][self.r.below(4)])
	}
	fn pred(&mut self) -> J {
		let r = &mut self.r;
		match r.below(12) {
			0 => s(&format!("{RDF}type")),
			1 => s(&format!("{RDF}first")),
			2 => s(&format!("{RDF}rest")),
			_ => s(["http://t.org/p", "http://t.org/q", "http://t.org/r"][r.below(3)]),
		}
	}
	fn name(&mut self, x: &mut J) {
		match self.r.below(10) {
			0..=3 => {
				let i = self.iri();
				x.set("id", i)
			}
			4 | 5 => x.set("id", s(["_:b0", "_:b1", "_:x"][self.r.below(3)])),
			_ => (),
		}
	}
	fn lit(&mut self) -> J {
		let r = &mut self.r;
		let l = match r.below(12) {
			0 => obj(vec![("v", s("text")), ("t", s(&format!("{XSD}string")))]),
			1 => obj(vec![("v", s("true")), ("t", s(&format!("{XSD}boolean")))]),
			2 => obj(vec![("v", s(&r.ps(&["12", "007", "x"]))), ("t", s(&r.ps(&["http://t.org/T", "http://www.w3.org/2001/XMLSchema#integer", "http://www.w3.org/1999/02/22-rdf-syntax-ns#JSON"])))]),
			3 => obj(vec![("v", s("chat")), ("lang", s(&r.ps(&["fr", "en-us", "de"])))]),
			4 => obj(vec![("json", J::parse(&r.ps(&["null", "{\"b\":1,\"a\":[]}", "[1,2.5,\"x\"]", "\"s\"", "1e3"])).unwrap())]),
			5 | 6 => {
				let t = r.ps(&["integer", "long", "int", "short", "byte", "nonNegativeInteger", "unsignedByte", "positiveInteger", "decimal"]);
				obj(vec![("xsd", s(&t)), ("lex", s(&r.ps(&["1", "42", "127", "7"])))])
			}
			7 => obj(vec![("xsd", s("decimal")), ("lex", s(&r.ps(&["0.5", "-12.25", "3.0", "123456789.125"])))]),
			8 => obj(vec![("xsd", s(&r.ps(&["double", "float"]))), ("lex", s(&r.ps(&["1.5", "1E3", "-0.25", "INF", "NaN", "0"])))]),
			9 => obj(vec![("xsd", s("boolean")), ("lex", s(&r.ps(&["true", "false", "1", "0"])))]),
			10 => obj(vec![("xsd", s("string")), ("lex", s(&r.ps(&["", "x y", "5", "null"])))]),
			_ => match r.below(4) {
				0 => obj(vec![("xsd", s("date")), ("lex", s("2020-02-29"))]),
				1 => obj(vec![("xsd", s("dateTime")), ("lex", s("2020-02-29T10:11:12Z"))]),
				2 => obj(vec![("xsd", s("integer")), ("lex", s(&r.ps(&["-5", "123456789012345678901234567890", "0"])))]),
				_ => obj(vec![("xsd", s("anyURI")), ("lex", s("http://t.org/u"))]),
			},
		};
		obj(vec![("lit", l)])
	}
	fn list(&mut self, d: usize) -> J {
		let n = self.r.below(4);
		let nil = format!("{RDF}nil");
		let mut l = obj(vec![("id", s(&nil))]);
		if self.r.pc(12) {
			// Ends with something else.
			l = match self.r.below(4) {
				0 => J::new_obj(),
				1 => obj(vec![("id", self.iri())]),
				2 => self.lit(),
				_ => obj(vec![("id", s(&nil)), ("preds", J::Arr(vec![J::Arr(vec![s("http://t.org/p"), J::Arr(vec![self.lit()])])]))]),
			};
		}
		for _ in 0..n {
			let x = self.object(d + 2);
			let mut ps = vec![J::Arr(vec![s(&format!("{RDF}first")), J::Arr(vec![x])]), J::Arr(vec![s(&format!("{RDF}rest")), J::Arr(vec![l])])];
			if self.r.pc(15) {
				ps.reverse()
			}
			let mut c = J::new_obj();
			match self.r.below(24) {
				// Not quite a list cell.
				0 => ps.push(J::Arr(vec![self.pred(), J::Arr(vec![self.lit()])])),
				1 => {
					ps.remove(self.r.below(2));
				}
				2 => c.set("id", s(["http://t.org/cell", "_:cell"][self.r.below(2)])),
				3 => c.set("reverse", J::Arr(vec![J::Arr(vec![s("http://t.org/r"), J::Arr(vec![obj(vec![("id", self.iri())])])])])),
				4 => c.set("include", J::Arr(vec![obj(vec![("id", s("http://t.org/inc")), ("preds", J::Arr(vec![J::Arr(vec![s("http://t.org/p"), J::Arr(vec![self.lit()])])]))])])),
				5 => {
					let x = self.lit();
					let k = self.r.below(2);
					if let Some(J::Arr(e)) = ps.get_mut(k) {
						if let J::Arr(os) = &mut e[1] {
							os.push(x)
						}
					}
				}
				6 => {
					let x = self.subject(d + 2, true);
					c.set("graphs", J::Arr(vec![J::Arr(vec![x])]))
				}
				7 => ps.push(J::Arr(vec![s(&format!("{RDF}type")), J::Arr(vec![obj(vec![("id", s(&format!("{RDF}List")))])])])),
				8 => {
					if let Some(J::Arr(e)) = ps.get_mut(0) {
						e[1] = J::Arr(vec![])
					}
				}
				_ => (),
			}
			c.set("preds", J::Arr(ps));
			l = c;
		}
		l
	}
	fn object(&mut self, d: usize) -> J {
		match self.r.below(if d > 4 { 5 } else { 11 }) {
			0..=2 => self.lit(),
			3 | 4 => {
				let mut x = J::new_obj();
				self.name(&mut x);
				x
			}
			5..=7 => self.list(d + 1),
			_ => self.subject(d + 1, false),
		}
	}
	/// `unique`: the subject is given a property no other one has, since the
	/// elements of a graph are a set in JSON-LD.
	fn subject(&mut self, d: usize, unique: bool) -> J {
		let mut x = J::new_obj();
		self.name(&mut x);
		let mut ps = vec![];
		if unique {
			self.n += 1;
			ps.push(J::Arr(vec![s("http://t.org/n"), J::Arr(vec![obj(vec![("lit", obj(vec![("xsd", s("string")), ("lex", s(&format!("u{}", self.n)))]))])])]));
		}
		for _ in 0..self.r.below(4) {
			let p = self.pred();
			let n = [1, 1, 1, 2, 2, 0][self.r.below(6)];
			let os = (0..n).map(|_| self.object(d + 1)).collect();
			ps.push(J::Arr(vec![p, J::Arr(os)]));
		}
		x.set("preds", J::Arr(ps));
		if d < 4 && self.r.pc(25) {
			let n = self.r.range(1, 2);
			let mut v = vec![];
			for _ in 0..n {
				let p = self.pred();
				let m = self.r.range(1, 2);
				let ss = (0..m).map(|_| if self.broken && self.r.pc(30) { self.lit() } else { self.subject(d + 1, false) }).collect();
				v.push(J::Arr(vec![p, J::Arr(ss)]));
			}
			x.set("reverse", J::Arr(v));
		}
		if d < 4 && self.r.pc(15) {
			let n = self.r.range(1, 2);
			let v = (0..n).map(|_| if self.broken && self.r.pc(30) { self.lit() } else { self.subject(d + 1, true) }).collect();
			x.set("include", J::Arr(v));
		}
		if d < 3 && self.r.pc(20) {
			let n = self.r.range(1, 2);
			let v = (0..n).map(|_| self.graph(d + 1)).collect();
			x.set("graphs", J::Arr(v));
		}
		x
	}
	fn graph(&mut self, d: usize) -> J {
		let n = self.r.below(3);
		J::Arr(
			(0..n)
				.map(|_| {
					if self.r.pc(10) {
						self.n += 1;
						let mut l = self.list(d + 1);
						if let Some(J::Arr(p)) = l.get_mut("preds") {
							p.push(J::Arr(vec![s("http://t.org/n"), J::Arr(vec![obj(vec![("lit", obj(vec![("xsd", s("string")), ("lex", s(&format!("u{}", self.n)))]))])])]))
						}
						if l.has("lit") {
							l = self.subject(d, true)
						}
						l
					} else {
						self.subject(d, true)
					}
				})
				.collect(),
		)
	}
	fn data(&mut self) -> J {
		let n = self.r.range(1, 3);
		let mut gs = vec![];
		for _ in 0..n {
			let subjects = self.graph(0);
			let mut g = J::new_obj();
			if self.r.pc(60) {
				g.set("default", J::Bool(true))
			} else if self.broken && self.r.pc(30) {
				g.set("lit", self.lit().get("lit").cloned().unwrap())
			} else {
				self.name(&mut g);
			}
			g.set("subjects", subjects);
			gs.push(g)
		}
		obj(vec![("graphs", J::Arr(gs))])
	}
}

fn tree_case(mut r: Rng) -> J {
	let broken = r.pc(8);
	let mut t = Tree { r: r.fork(), n: 0, broken };
	t.data()
}

/// Lists a faithful document has: anonymous cells with nothing but one
/// `rdf:first` and one `rdf:rest` which is itself a list, as property values.
fn is_list(x: &J) -> bool {
	if x.get("id").and_then(|i| i.as_str()) == Some(&format!("{RDF}nil")) {
		let d = |k: &str| arr(x, k).is_empty();
		return d("preds") && d("reverse") && d("include") && d("graphs");
	}
	if x.has("id") || x.has("lit") || ["reverse", "include", "graphs"].iter().any(|k| !arr(x, k).is_empty()) {
		return false;
	}
	let (mut first, mut rest, mut other) = (vec![], vec![], 0);
	for e in arr(x, "preds") {
		if let Some((p, os)) = entry(e) {
			match p.strip_prefix(RDF) {
				Some("first") => first.extend(os),
				Some("rest") => rest.extend(os),
				_ => other += 1,
			}
		}
	}
	first.len() == 1 && rest.len() == 1 && other == 0 && is_list(rest[0])
}

/// Lists which are values of properties (or of list items), counted once.
fn lists_in(x: &J, cell: bool) -> usize {
	let mut n = 0;
	for e in arr(x, "preds") {
		if let Some((p, os)) = entry(e) {
			for v in os {
				let l = is_list(v);
				let tail = cell && p == format!("{RDF}rest");
				n += (l && !tail) as usize + lists_in(v, l);
			}
		}
	}
	for e in arr(x, "reverse") {
		if let Some((_, os)) = entry(e) {
			n += os.iter().map(|v| lists_in(v, false)).sum::<usize>()
		}
	}
	n += arr(x, "include").iter().map(|v| lists_in(v, false)).sum::<usize>();
	for g in arr(x, "graphs") {
		if let J::Arr(g) = g {
			n += g.iter().map(|v| lists_in(v, false)).sum::<usize>()
		}
	}
	n
}

fn bad_ids(c: &J) -> bool {
	match c {
		J::Arr(a) => a.iter().any(bad_ids) || a.len() == 2 && a[1].is_arr() && a[0].as_str().map(|p| iref::Iri::new(p).is_err()).unwrap_or(false),
		J::Obj(m) => m.iter().any(|(k, v)| match k.as_str() {
			"id" => ld_term(&mut (), c).is_none(),
			"lit" => ld_term(&mut (), c).is_none(),
			_ => bad_ids(v),
		}),
		_ => false,
	}
}

/// Serializing a value gives a document with the quads of the value.
fn judge_tree(c: &J, o: &mut Obs) -> V {
	if bad_ids(c) {
		return V::Skip("not a value");
	}
	let direct = Direct::data(c);
	let d = Data(c);
	let r = serialized(&d);
	if let Some(b) = direct.bad {
		return match r {
			Out::Err(..) => {
				o.hit(&format!("refused: {b}"));
				V::Pass
			}
			x => fail("a value without JSON-LD form is accepted", format!("{b}: {}", x.text())),
		};
	}
	let doc = match r {
		Out::Ok(x) => x,
		x => return fail("serializing a value fails", x.text()),
	};
	let quads = match drv::to_rdf(&doc, &drv::Rec::default(), &drv::Opts::default()) {
		Out::Ok(q) => q,
		x => return fail("a serialized value is not a valid document", format!("{}\n{}", doc.text(), x.map(|_| "").text())),
	};
	match same_quads("a serialized value has other quads", &quads, &direct.quads, o) {
		V::Pass => (),
		V::Fail(a, b) => return V::Fail(a, format!("{b}\ndocument {}", doc.text())),
		x => return x,
	}
	let lists: usize = arr(c, "graphs").iter().flat_map(|g| arr(g, "subjects")).map(|x| lists_in(x, false)).sum();
	if count_lists(&doc) != lists {
		return fail("lists are not serialized as lists", format!("{} lists in {}, expected {lists}", count_lists(&doc), doc.text()));
	}
	o.add("lists serialized", lists as u64);
	// The same with a vocabulary of indexes.
	let indexed = drv::guard(|| {
		let mut voc: IndexVocabulary = IndexVocabulary::new();
		let mut int = rdf_types::interpretation::Indexed::new();
		match ser::serialize_with(&mut voc, &mut int, &d) {
			Ok(d) => Out::Ok(J::from_js(&d.into_objects().into_with(&voc).into_json())),
			Err(e) => Out::Err(format!("{e:?}"), e.to_string()),
		}
	});
	match indexed {
		Out::Ok(i) if crate::norm::expanded(&i) == crate::norm::expanded(&doc) => (),
		x => return fail("serialization depends on the vocabulary", format!("{}\nplain {}", x.text(), doc.text())),
	}
	// Single nodes and objects.
	if let Some(x) = arr(c, "graphs").first().and_then(|g| arr(g, "subjects").first()) {
		let whole = obj(vec![("graphs", J::Arr(vec![obj(vec![("default", J::Bool(true)), ("subjects", J::Arr(vec![x.clone()]))])]))]);
		let Out::Ok(doc) = serialized(&Data(&whole)) else { return V::Pass };
		let node = drv::guard(|| match ser::serialize_node(&Sub(x)) {
			Ok(n) => Out::Ok(J::from_js(&json_ld::Indexed::new(json_ld::Object::node(n), None).into_with(&()).into_json())),
			Err(e) => Out::Err(format!("{e:?}"), e.to_string()),
		});
		match node {
			Out::Ok(n) if crate::norm::expanded(&J::Arr(vec![n.clone()])) == crate::norm::expanded(&doc) => o.hit("node serialized alone"),
			x => return fail("a node serialized alone differs", format!("{}\n{}", x.text(), doc.text())),
		}
		let object = drv::guard(|| match ser::serialize_object(&Sub(x)) {
			Ok(n) => Out::Ok(J::from_js(&json_ld::Indexed::new(n, None).into_with(&()).into_json())),
			Err(e) => Out::Err(format!("{e:?}"), e.to_string()),
		});
		match object {
			Out::Ok(n) if is_list(x) == n.has("@list") && (is_list(x) || crate::norm::expanded(&J::Arr(vec![n.clone()])) == crate::norm::expanded(&doc)) => o.hit("object serialized alone"),
			x => return fail("an object serialized alone differs", format!("{}\n{}", x.text(), doc.text())),
		}
	}
	V::Pass
}

pub fn c23() -> Prop {
	let _ = Gen::new;
	Prop {
		id: "C23",
		level: "exploration",
		rule: "Visiting an expanded document through the linked-data interface yields the quads of its RDF serialization; serializing a linked-data value (generated trees visited in any order, and expanded documents) yields a valid document with exactly the quads of the value, keeping lists as lists; values without a JSON-LD form are refused.",
		assumptions: &["numbers and booleans are compared in value space"],
		mons: vec![
			Mon { name: "visit", gen: case, judge: judge_visit, fixed: none, quick: 40000, threads: 0 },
			Mon { name: "serialize", gen: case, judge: judge_serialize, fixed: none, quick: 40000, threads: 0 },
			Mon { name: "tree", gen: tree_case, judge: judge_tree, fixed: none, quick: 16000, threads: 0 },
		],
	}
}
