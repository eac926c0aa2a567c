//! C11: results are a function of the inputs.
use super::util::*;
use crate::drv::{self, iri, Opts, Out, Rec};
use crate::gen::{Gen, Profile, BASE};
use crate::iso;
use crate::json::{obj, s, J};
use crate::norm;
use crate::rng::Rng;
use crate::run::*;
use contextual::WithContext;
use json_ld::syntax::{IntoJson, TryFromJson};
use json_ld::{Compact, Expand, Flatten, JsonLdProcessor, Options, ProcessingMode, RemoteContextReference, RemoteDocument, RemoteDocumentReference};
use rdf_types::vocabulary::{IndexVocabulary, IriVocabularyMut};
use rdf_types::{Vocabulary, VocabularyMut};
use std::future::Future;
use std::hash::Hash;
use std::pin::Pin;
use std::task::{Context as Cx, Poll};

/// A document, a context to compact with, and options.
fn op_case(mut r: Rng) -> J {
	let p = Profile { odd: if r.pc(20) { 1 } else { 0 }, ..Profile::random(&mut r) };
	let mut c = doc_case_with(r.fork(), Some(p));
	let ctx = match (r.below(3), c.get("doc").and_then(|d| d.get("@context")).cloned()) {
		(0..=1, Some(x)) => x,
		_ => {
			let p = Profile { odd: 0, remote: false, ..Profile::random(&mut r) };
			Gen::new(r.fork(), Some(p)).context(0)
		}
	};
	c.set("context", ctx);
	let mut o = J::new_obj();
	for k in ["compactArrays", "compactToRelative"] {
		if r.pc(20) {
			o.set(k, J::Bool(false))
		}
	}
	if r.pc(30) {
		o.set("base", s(&r.ps(&["http://base.org/d/", "urn:x", "http://a.org/p/q"])))
	}
	if r.pc(30) {
		o.set("ordered", J::Bool(true))
	}
	if r.pc(20) {
		o.set("rdfDirection", s(&r.ps(&["i18n-datatype", "compound-literal"])))
	}
	if r.pc(20) {
		o.set("generalized", J::Bool(true))
	}
	c.set("opts", o);
	c.set("seed", J::Num(r.below(1 << 30).to_string()));
	c
}

const OPS: [&str; 5] = ["expand", "compact", "flatten", "flatten compact", "rdf"];

fn run(op: &str, c: &J, l: &Rec, o: &Opts) -> Out<J> {
	let doc = doc_of(c);
	let ctx = c.get("context").cloned().unwrap_or(J::new_obj());
	match op {
		"expand" => drv::expand(&doc, l, o),
		"compact" => drv::compact(&doc, &ctx, l, o),
		"flatten" => drv::flatten(&doc, None, l, o),
		"flatten compact" => drv::flatten(&doc, Some(&ctx), l, o),
		_ => drv::to_rdf(&doc, l, o).map(J::Arr),
	}
}

/// What is compared of an outcome: the value or the error code.
fn sig(r: &Out<J>) -> Out<J> {
	match r {
		Out::Err(c, _) => Out::Err(c.clone(), String::new()),
		x => x.clone(),
	}
}

/// Forgets the order of arrays and members.
fn bag(j: &J) -> J {
	match j {
		J::Arr(a) => {
			let mut v: Vec<J> = a.iter().map(bag).collect();
			v.sort();
			J::Arr(v)
		}
		J::Obj(m) => {
			let mut v: Vec<(String, J)> = m.iter().map(|(k, v)| (k.clone(), bag(v))).collect();
			v.sort();
			J::Obj(v)
		}
		x => x.clone(),
	}
}

/// The outcome as far as the options determine it: a flattened document which
/// is not ordered comes as a set, and the first error is that of any node.
fn det(op: &str, o: &Opts, r: &Out<J>) -> Out<J> {
	match sig(r) {
		Out::Err(..) if op == "flatten compact" && !o.ordered => Out::Err(String::new(), String::new()),
		Out::Ok(j) if op.starts_with("flatten") && !o.ordered => Out::Ok(bag(&j)),
		x => x,
	}
}

fn differs(what: &str, a: &Out<J>, b: &Out<J>) -> V {
	let t = |x: &Out<J>| x.clone().map(|j| j.text()).text();
	fail(what, format!("first  {}\nsecond {}", t(a), t(b)))
}

fn keys_sorted(m: &J) -> bool {
	m.as_obj().map_or(true, |m| m.windows(2).all(|w| w[0].0 <= w[1].0))
}

/// The order promised by the `ordered` option.
fn is_ordered(op: &str, j: &J) -> bool {
	let ids = |a: &J| {
		let v: Vec<String> = a.to_arr().iter().filter_map(|n| n.get("@id").and_then(|x| x.as_str()).map(|x| x.to_string())).collect();
		v.windows(2).all(|w| w[0] <= w[1])
	};
	match op {
		"flatten" => ids(j) && j.to_arr().iter().all(|n| n.get("@graph").map_or(true, ids)),
		_ => true,
	}
}

fn judge_repeat(c: &J, o: &mut Obs) -> V {
	let (docs, op) = (docs_of(c), opts_of(c));
	for name in OPS {
		let mut first: Option<Out<J>> = None;
		for _ in 0..2 {
			let l = Rec::new(&docs);
			let r = run(name, c, &l, &op);
			if r.is_panic() {
				return fail("panics", format!("{name}: {}", r.map(|j| j.text()).text()));
			}
			if op.ordered {
				if let Out::Ok(j) = &r {
					if !is_ordered(name, j) {
						return fail("not ordered", format!("{name}: {}", j.text()));
					}
				}
			}
			match &first {
				None => first = Some(r),
				Some(f) => {
					if det(name, &op, f) != det(name, &op, &r) {
						return differs(&format!("{name} gives different results"), f, &r);
					}
					if let Out::Ok(j) = &r {
						o.hit(&format!("{name} repeated"));
						if j.len() > 0 {
							o.seen(&(name, j));
						}
					} else {
						o.hit("errors repeated");
					}
				}
			}
		}
	}
	V::Pass
}

// --- order of the members

fn shuffle(j: &J, r: &mut Rng) -> J {
	match j {
		J::Arr(a) => J::Arr(a.iter().map(|x| shuffle(x, r)).collect()),
		J::Obj(m) => {
			let mut v: Vec<(String, J)> = m.iter().map(|(k, v)| (k.clone(), shuffle(v, r))).collect();
			r.shuffle(&mut v);
			J::Obj(v)
		}
		x => x.clone(),
	}
}

fn sort_keys(j: &J) -> J {
	match j {
		J::Arr(a) => J::Arr(a.iter().map(sort_keys).collect()),
		J::Obj(m) => {
			let mut v: Vec<(String, J)> = m.iter().map(|(k, v)| (k.clone(), sort_keys(v))).collect();
			v.sort_by(|a, b| a.0.cmp(&b.0));
			J::Obj(v)
		}
		x => x.clone(),
	}
}

/// Two members with the same key are not told apart by their order.
fn dup_keys(j: &J) -> bool {
	match j {
		J::Arr(a) => a.iter().any(dup_keys),
		J::Obj(m) => {
			let mut k: Vec<&String> = m.iter().map(|(k, _)| k).collect();
			k.sort();
			k.windows(2).any(|w| w[0] == w[1]) || m.iter().any(|(_, v)| dup_keys(v))
		}
		_ => false,
	}
}

fn seed(c: &J) -> Rng {
	Rng::new(match c.get("seed") {
		Some(J::Num(n)) => n.parse().unwrap_or(0),
		_ => 0,
	})
}

/// Protected terms redefined by a remote context scoped to a term are an error
/// when the term comes after them.
fn model_differs(a: &J, b: &J, o: &Opts) -> bool {
	let ok = |c: &J| {
		let base = base_of(o);
		crate::model::expand::expand(&drv::env(&docs_of(c), o), &doc_of(c), &crate::model::expand::Opt { base: base.as_deref(), expand_context: None }).is_ok()
	};
	ok(a) != ok(b)
}

/// Of several lists for one term with a list container, one is kept.
fn lossy(a: &J, b: &J, x: &Out<J>, y: &Out<J>, o: &Opts) -> bool {
	let f = |c: &J, x: &Out<J>| {
		let docs = docs_of(c);
		let ex = match drv::expand(&doc_of(c), &Rec::new(&docs), &Opts { ordered: false, ..o.clone() }) {
			Out::Ok(e) => e,
			_ => return false,
		};
		let m = crate::model::compact::compact(
			&drv::env(&docs, o),
			&ex,
			c.get("context").unwrap_or(&J::Null),
			crate::model::compact::Opt { base: o.base.as_deref(), doc_url: o.url.as_deref(), compact_arrays: o.compact_arrays, compact_to_relative: o.compact_to_relative },
		);
		match (m, x) {
			(Ok(m), Out::Ok(x)) => bag(&m) == bag(x),
			(Err(e), _) if e.0.starts_with("model:") => true,
			(Err(_), Out::Err(..)) => true,
			_ => false,
		}
	};
	f(a, x) && f(b, y)
}

fn judge_order(c: &J, o: &mut Obs) -> V {
	let mut r = seed(c);
	let op = opts_of(c);
	if dup_keys(c) {
		return V::Skip("duplicate keys");
	}
	let other = {
		let mut x = J::new_obj();
		for k in ["doc", "docs", "context"] {
			if let Some(v) = c.get(k) {
				x.set(k, shuffle(v, &mut r));
			}
		}
		x
	};
	let (d1, d2) = (docs_of(c), docs_of(&other));
	for name in OPS {
		let a = run(name, c, &Rec::new(&d1), &op);
		let b = run(name, &other, &Rec::new(&d2), &op);
		let same = match (&a, &b) {
			(Out::Panic(_), _) | (_, Out::Panic(_)) => return differs("panics", &a, &b),
			(Out::Err(..), Out::Err(..)) => {
				o.hit("errors in both orders");
				continue;
			}
			(Out::Ok(x), Out::Ok(y)) => match name {
				"expand" => Some(norm::expanded(x) == norm::expanded(y)),
				"compact" => Some(bag(x) == bag(y)),
				"flatten" => iso::docs(x, y),
				"rdf" => iso::quads(x, y),
				_ => continue,
			},
			_ => Some(false),
		};
		match same {
			Some(true) => {
				o.hit(&format!("{name} of a permutation"));
				if let Out::Ok(x) = &a {
					if x.len() > 0 && doc_of(c) != doc_of(&other) {
						o.seen(&(name, x));
					}
				}
			}
			None => o.hit("isomorphism undecided"),
			Some(false) if name == "compact" && lossy(c, &other, &a, &b, &op) => return V::Skip("depends on the order by the algorithms"),
			Some(false) if a.ok().is_some() != b.ok().is_some() && model_differs(c, &other, &op) => return V::Skip("depends on the order by the algorithms"),
			Some(false) => return differs(&format!("{name} depends on the order of members"), &a, &b),
		}
	}
	// Ordered expansion is the expansion of the ordered document.
	let mut sorted = sort_keys(c);
	sorted.set("context", J::Null);
	let ord = Opts { ordered: true, ..op.clone() };
	let unord = Opts { ordered: false, ..op.clone() };
	let a = drv::expand(&doc_of(&other), &Rec::new(&d2), &ord);
	let b = drv::expand(&doc_of(&sorted), &Rec::new(&docs_of(&sorted)), &unord);
	match (&a, &b) {
		(Out::Err(..), Out::Err(..)) => (),
		_ if a == b => o.hit("ordered expansions"),
		(Out::Ok(x), Out::Ok(y)) if x.text().contains("\"@json\"") && norm::expanded(x) == norm::expanded(y) => o.hit("ordered expansions with JSON literals"),
		_ if a.ok().is_some() != b.ok().is_some() && model_differs(&other, &sorted, &op) => return V::Skip("depends on the order by the algorithms"),
		_ => return differs("ordered expansion differs from the expansion of the ordered document", &a, &b),
	}
	V::Pass
}

// --- vocabularies

fn ctx_in<V: VocabularyMut>(c: &J) -> Result<RemoteContextReference<V::Iri>, (String, String)> {
	let c = c.get("@context").unwrap_or(c);
	let ctx = json_ld::syntax::Context::try_from_json(c.to_js()).map_err(|e| (e.code().to_string(), e.to_string()))?;
	Ok(RemoteDocumentReference::Loaded(RemoteDocument::new(None, None, ctx)))
}

fn options_in<V: VocabularyMut>(o: &Opts, v: &mut V) -> Result<Options<V::Iri>, (String, String)> {
	Ok(Options {
		base: o.base.as_deref().map(|b| v.insert(&iri(b))),
		compact_arrays: o.compact_arrays,
		compact_to_relative: o.compact_to_relative,
		expand_context: match &o.expand_context {
			Some(c) => Some(ctx_in::<V>(c)?),
			None => None,
		},
		ordered: o.ordered,
		processing_mode: if o.v10 { ProcessingMode::JsonLd1_0 } else { ProcessingMode::JsonLd1_1 },
		rdf_direction: o.rdf_direction,
		produce_generalized_rdf: o.generalized,
		expansion_policy: o.policy,
	})
}

fn remote_in<V: VocabularyMut>(doc: &J, o: &Opts, v: &mut V) -> RemoteDocument<V::Iri> {
	RemoteDocument::new(o.url.as_deref().map(|u| v.insert(&iri(u))), Some("application/ld+json".parse().unwrap()), doc.to_js())
}

fn quads_in<V: Vocabulary>(v: &V, q: Vec<json_ld_core::rdf::Quad<V::Iri, V::BlankId, V::Literal>>) -> J {
	let id = |i: &json_ld::ValidId<V::Iri, V::BlankId>| match i {
		json_ld::ValidId::Iri(i) => s(v.iri(i).unwrap().as_str()),
		json_ld::ValidId::Blank(b) => s(v.blank_id(b).unwrap().as_str()),
	};
	let mut out: Vec<J> = q
		.iter()
		.map(|rdf_types::Quad(a, p, b, g)| {
			let b = match b {
				rdf_types::Object::Id(i) => id(i),
				rdf_types::Object::Literal(l) => {
					let l = v.owned_literal_of(l);
					drv::literal_j(&l)
				}
			};
			J::Arr(vec![id(a), id(p), b, g.as_ref().map(id).unwrap_or(J::Null)])
		})
		.collect();
	out.sort();
	out.dedup();
	J::Arr(out)
}

trait OwnedLiteral: Vocabulary {
	fn owned_literal_of(&self, l: &Self::Literal) -> rdf_types::Literal;
}

impl<V: Vocabulary> OwnedLiteral for V {
	fn owned_literal_of(&self, l: &Self::Literal) -> rdf_types::Literal {
		let r = self.literal(l).unwrap();
		rdf_types::Literal::new(r.value.to_string(), match r.type_ {
			rdf_types::LiteralTypeRef::Any(i) => rdf_types::LiteralType::Any(self.iri(i).unwrap().to_owned()),
			rdf_types::LiteralTypeRef::LangString(t) => rdf_types::LiteralType::LangString(t.to_owned()),
		})
	}
}

fn err<T>(e: (String, String)) -> Out<T> {
	Out::Err(e.0, e.1)
}

macro_rules! tri {
	($e:expr) => {
		match $e {
			Ok(x) => x,
			Err(e) => return err(e),
		}
	};
}

macro_rules! code {
	($e:expr) => {
		match $e {
			Ok(x) => x,
			Err(e) => return Out::Err(e.code().to_string(), String::new()),
		}
	};
}

fn run_in<V>(op: &str, c: &J, l: &Rec, o: &Opts, v: &mut V) -> Out<J>
where
	V: VocabularyMut + Default,
	V::Iri: Clone + Eq + Hash,
	V::BlankId: Clone + Eq + Hash,
	V::Literal: Clone,
	rdf_types::generator::Blank: rdf_types::Generator<V>,
{
	let ctx = c.get("context").cloned().unwrap_or(J::new_obj());
	drv::guard(|| {
		let doc = remote_in(&doc_of(c), o, v);
		let op_ = tri!(options_in(o, v));
		let mut g = rdf_types::generator::Blank::new();
		Out::Ok(match op {
			"expand" => {
				let d = code!(drv::block(doc.expand_with_using(v, l, op_)));
				J::from_js(&d.into_objects().into_with(&*v).into_json())
			}
			"compact" => J::from_js(&code!(drv::block(doc.compact_with_using(v, tri!(ctx_in::<V>(&ctx)), l, op_)))),
			"flatten" => J::from_js(&code!(drv::block(doc.flatten_with_using(v, &mut g, l, op_)))),
			"flatten compact" => J::from_js(&code!(drv::block(doc.flatten_full(v, &mut g, Some(tri!(ctx_in::<V>(&ctx))), l, op_, ())))),
			_ => {
				let mut d = code!(drv::block(doc.to_rdf_with_using(std::mem::take(v), g, l, op_)));
				let q: Vec<_> = d.cloned_quads().collect();
				*v = d.into_vocabulary();
				quads_in(v, q)
			}
		})
	})
}

fn judge_vocab(c: &J, o: &mut Obs) -> V {
	let (docs, op) = (docs_of(c), opts_of(c));
	if ambiguous(c) {
		return V::Skip("identifiers equal modulo normalisation");
	}
	if drv::expand(&doc_of(c), &Rec::new(&docs), &op).ok().map_or(false, ambiguous) {
		return V::Skip("identifiers equal modulo normalisation");
	}
	let mut shared: IndexVocabulary = IndexVocabulary::new();
	let mut r = seed(c);
	// Vocabularies which already know other things.
	for i in 0..r.below(20) {
		shared.insert(&iri(&format!("http://other.org/{i}")));
	}
	let mut ops = OPS.to_vec();
	r.shuffle(&mut ops);
	for name in ops {
		let a = run(name, c, &Rec::new(&docs), &op);
		if name != "rdf" && a.ok().map_or(false, ambiguous) {
			continue;
		}
		let b = run_in(name, c, &Rec::new(&docs), &op, &mut shared);
		// The order of a set is that of its identifiers in the vocabulary.
		let (x, y) = (det(name, &op, &a), det(name, &op, &b));
		if x != y {
			let t = |x: &Out<J>| x.clone().map(|j| bag(&j));
			if !(t(&x) == t(&y) && name == "expand") {
				return differs(&format!("{name} depends on the vocabulary"), &a, &b);
			}
		}
		if let Out::Ok(j) = &b {
			o.hit(&format!("{name} with indexes"));
			if j.len() > 0 {
				o.seen(&(name, j));
			}
		}
	}
	V::Pass
}

// --- entry points

struct Count(std::rc::Rc<std::cell::Cell<u64>>);
impl<N> json_ld_core::warning::Handler<N, json_ld_context_processing::Warning> for Count {
	fn handle(&mut self, _: &N, _: json_ld_context_processing::Warning) {
		self.0.set(self.0.get() + 1)
	}
}
impl<N: rdf_types::vocabulary::BlankIdVocabulary> json_ld_core::warning::Handler<N, json_ld_expansion::Warning<N::BlankId>> for Count {
	fn handle(&mut self, _: &N, _: json_ld_expansion::Warning<N::BlankId>) {
		self.0.set(self.0.get() + 1)
	}
}

type All = Vec<(&'static str, Out<J>)>;

macro_rules! g {
	($e:expr, $f:expr) => {
		drv::guard(|| match drv::block($e) {
			Ok(x) => Out::Ok($f(x)),
			Err(e) => Out::Err(e.code().to_string(), String::new()),
		})
	};
}

/// All the ways to run one operation.
fn entries(name: &str, c: &J, l: &Rec, o: &Opts, n: &std::rc::Rc<std::cell::Cell<u64>>) -> Result<All, (String, String)> {
	let doc = remote_in(&doc_of(c), o, &mut ());
	let by_ref = RemoteDocumentReference::Loaded(doc.clone());
	let by_iri = o.url.as_deref().map(|u| RemoteDocumentReference::iri(iri(u)));
	let ctx = c.get("context").cloned().unwrap_or(J::new_obj());
	let op = options_in(o, &mut ())?;
	let plain = {
		let d = Options::<iref::IriBuf>::default();
		op.base == d.base && op.compact_arrays && op.compact_to_relative && op.expand_context.is_none() && !op.ordered && op.rdf_direction.is_none() && !op.produce_generalized_rdf
	};
	let w = || Count(n.clone());
	let mut out: All = vec![];
	let jd = |d: json_ld::ExpandedDocument| drv::doc_json(&d);
	let js = |d: json_syntax::Value| J::from_js(&d);
	match name {
		"expand" => {
			out.push(("expand_using", g!(doc.expand_using(l, op.clone()), jd)));
			out.push(("expand_full", g!(JsonLdProcessor::expand_full(&doc, &mut (), l, op.clone(), w()), jd)));
			out.push(("expand_with_using", g!(doc.expand_with_using(&mut (), l, op.clone()), jd)));
			out.push(("reference.expand_using", g!(by_ref.expand_using(l, op.clone()), jd)));
			out.push(("into_document_full", g!(doc.clone().into_document_full(&mut (), l, op.clone(), w()), |d: json_ld_core::Document| jd(d.into_expanded()))));
			out.push(("into_document_with_using", g!(doc.clone().into_document_with_using(&mut (), l, op.clone()), |d: json_ld_core::Document| jd(d.into_expanded()))));
			out.push(("reference.into_document_full", g!(by_ref.clone().into_document_full(&mut (), l, op.clone(), ()), |d: json_ld_core::Document| jd(d.into_expanded()))));
			if let Some(i) = &by_iri {
				out.push(("iri.expand_using", g!(i.expand_using(l, op.clone()), jd)));
				out.push(("iri.into_document_full", g!(i.clone().into_document_full(&mut (), l, op.clone(), ()), |d: json_ld_core::Document| jd(d.into_expanded()))));
			}
			if plain {
				out.push(("expand", g!(JsonLdProcessor::expand(&doc, l), jd)));
				out.push(("expand_with", g!(JsonLdProcessor::expand_with(&doc, &mut (), l), jd)));
				out.push(("into_document", g!(JsonLdProcessor::into_document(doc.clone(), l), |d: json_ld_core::Document| jd(d.into_expanded()))));
				out.push(("into_document_with", g!(doc.clone().into_document_with(&mut (), l), |d: json_ld_core::Document| jd(d.into_expanded()))));
			}
			if o.expand_context.is_none() {
				// The algorithm itself.
				let base = op.base.clone().or(doc.url().cloned());
				out.push((
					"Expand::expand_full",
					g!(doc.document().expand_full(&mut (), json_ld::Context::new(base), doc.url().or(op.base.as_ref()), l, op.expansion_options(), w()), jd).map_code(),
				));
				if plain && !o.v10 {
					out.push(("Expand::expand of a remote document", g!(Expand::expand(&doc, l), jd).map_code()));
				}
			}
		}
		"compact" => {
			let cx_ = ctx_in::<()>(&ctx)?;
			let cx = || cx_.clone();
			out.push(("compact_using", g!(doc.compact_using(cx(), l, op.clone()), js)));
			out.push(("compact_full", g!(doc.compact_full(&mut (), cx(), l, op.clone(), w()), js)));
			out.push(("compact_with_using", g!(doc.compact_with_using(&mut (), cx(), l, op.clone()), js)));
			out.push(("reference.compact_full", g!(by_ref.compact_full(&mut (), cx(), l, op.clone(), ()), js)));
			if let Some(i) = &by_iri {
				out.push(("iri.compact_using", g!(i.compact_using(cx(), l, op.clone()), js)));
			}
			if plain {
				out.push(("compact", g!(doc.compact(cx(), l), js)));
				out.push(("compact_with", g!(doc.compact_with(&mut (), cx(), l), js)));
			}
		}
		"flatten" => {
			let gen = rdf_types::generator::Blank::new;
			out.push(("flatten_using", g!(doc.flatten_using(&mut gen(), l, op.clone()), js)));
			out.push(("flatten_full", g!(doc.flatten_full(&mut (), &mut gen(), None, l, op.clone(), w()), js)));
			out.push(("flatten_with_using", g!(doc.flatten_with_using(&mut (), &mut gen(), l, op.clone()), js)));
			out.push(("reference.flatten_using", g!(by_ref.flatten_using(&mut gen(), l, op.clone()), js)));
			if let Some(i) = &by_iri {
				out.push(("iri.flatten_using", g!(i.flatten_using(&mut gen(), l, op.clone()), js)));
			}
			if plain {
				out.push(("flatten", g!(doc.flatten(&mut gen(), l), js)));
				out.push(("flatten_with", g!(doc.flatten_with(&mut (), &mut gen(), l), js)));
			}
			// The algorithm itself, on the expanded document.
			if let Out::Ok(d) = g!(doc.expand_using(l, op.clone().unordered()), |d| Hold(d)) {
				let f = drv::flatten_expanded(&d.0, o.ordered);
				out.push(("Flatten::flatten", f));
				let u = drv::guard(|| match d.0.clone().flatten_unordered(gen()) {
					Ok(d) => Out::Ok(J::Arr(d.iter().map(|n| J::from_js(&n.clone().into_with(&()).into_json())).collect())),
					Err(e) => Out::Err("conflicting indexes".into(), e.to_string()),
				});
				if !o.ordered {
					out.push(("Flatten::flatten_unordered", u));
				}
			}
		}
		_ => {
			let gen = rdf_types::generator::Blank::new;
			let q = |mut d: json_ld::ToRdf<(), rdf_types::generator::Blank>| {
				let v: Vec<_> = d.cloned_quads().collect();
				quads_in(&(), v)
			};
			let qr = |mut d: json_ld::ToRdf<(), rdf_types::generator::Blank>| {
				let v: Vec<_> = d.quads().map(|rdf_types::Quad(a, b, c, d)| rdf_types::Quad(a.into_owned(), b.into_owned(), c, d.cloned())).collect();
				quads_in(&(), v)
			};
			// A second pass yields the same quads.
			let again = |mut d: json_ld::ToRdf<(), rdf_types::generator::Blank>| {
				let n = d.quads().count();
				let v: Vec<_> = d.cloned_quads().collect();
				if n != v.len() {
					return s("other number of quads the second time");
				}
				quads_in(&(), v)
			};
			out.push(("to_rdf_using", g!(doc.to_rdf_using(gen(), l, op.clone()), q)));
			out.push(("to_rdf_using, borrowed quads", g!(doc.to_rdf_using(gen(), l, op.clone()), qr)));
			out.push(("to_rdf_full", g!(doc.to_rdf_full((), gen(), l, op.clone(), w()), q)));
			out.push(("to_rdf_with_using", g!(doc.to_rdf_with_using((), gen(), l, op.clone()), q)));
			out.push(("reference.to_rdf_using", g!(by_ref.to_rdf_using(gen(), l, op.clone()), q)));
			out.push(("to_rdf_using, second pass", g!(doc.to_rdf_using(gen(), l, op.clone()), again)));
			if let Some(i) = &by_iri {
				out.push(("iri.to_rdf_using", g!(i.to_rdf_using(gen(), l, op.clone()), q)));
			}
			if plain {
				out.push(("to_rdf", g!(doc.to_rdf(gen(), l), q)));
				out.push(("to_rdf_with", g!(doc.to_rdf_with((), gen(), l), q)));
			}
		}
	}
	Ok(out)
}

struct Hold(json_ld::ExpandedDocument);

trait MapCode {
	fn map_code(self) -> Self;
}
impl MapCode for Out<J> {
	fn map_code(self) -> Self {
		self
	}
}

fn entry_case(mut r: Rng) -> J {
	let mut c = op_case(r.fork());
	if r.pc(50) {
		c.set("opts", J::new_obj());
	}
	// A document loaded from its URL is the document.
	let d = doc_of(&c);
	if let Some(m) = c.get_mut("docs") {
		m.set(BASE, d)
	}
	c
}

fn judge_entry(c: &J, o: &mut Obs) -> V {
	let (docs, op) = (docs_of(c), opts_of(c));
	let warnings = std::rc::Rc::new(std::cell::Cell::new(0));
	for name in ["expand", "compact", "flatten", "rdf"] {
		let l = Rec::new(&docs);
		let all = match entries(name, c, &l, &op, &warnings) {
			Ok(x) => x,
			Err(_) => {
				o.hit("invalid context");
				continue;
			}
		};
		let (n0, first) = &all[0];
		for (n, r) in &all {
			if r.is_panic() {
				return fail("panics", format!("{n}: {}", r.clone().map(|j| j.text()).text()));
			}
			let same = match (det(name, &op, first), det(name, &op, r)) {
				(a, b) if a == b => Some(true),
				(Out::Ok(a), Out::Ok(b)) if name == "rdf" && n.ends_with("second pass") => iso::quads(&a, &b),
				_ => Some(false),
			};
			match same {
				Some(true) => o.hit(n),
				None => o.hit("isomorphism undecided"),
				Some(false) => return differs(&format!("{n} and {n0} differ"), first, r),
			}
		}
		if let Out::Ok(j) = first {
			if j.len() > 0 {
				o.seen(&(name, j));
			}
		}
	}
	if warnings.get() > 0 {
		o.hit("cases with warnings");
	}
	V::Pass
}

// --- comparison of documents

fn compare_case(mut r: Rng) -> J {
	let mut c = op_case(r.fork());
	let d = doc_of(&c);
	let mut e = match r.below(4) {
		0 => d.clone(),
		1 => shuffle(&d, &mut r),
		2 => reorder(&d, &mut r),
		_ => mutate(&d, &mut r),
	};
	if r.pc(10) {
		e = mutate(&e, &mut r)
	}
	c.set("other", e);
	c
}

fn reorder(j: &J, r: &mut Rng) -> J {
	match j {
		J::Arr(a) => {
			let mut v: Vec<J> = a.iter().map(|x| reorder(x, r)).collect();
			if r.pc(50) {
				r.shuffle(&mut v);
			}
			J::Arr(v)
		}
		J::Obj(m) => J::Obj(m.iter().map(|(k, v)| (k.clone(), if k == "@context" { v.clone() } else { reorder(v, r) })).collect()),
		x => x.clone(),
	}
}

fn mutate(j: &J, r: &mut Rng) -> J {
	match j {
		J::Arr(a) if !a.is_empty() => {
			let mut v = a.clone();
			let i = r.below(v.len());
			if r.pc(20) {
				v.remove(i);
			} else {
				v[i] = mutate(&v[i], r);
			}
			J::Arr(v)
		}
		J::Obj(m) if !m.is_empty() => {
			let mut v = m.clone();
			let i = r.below(v.len());
			if r.pc(20) {
				v.remove(i);
			} else {
				v[i].1 = mutate(&v[i].1, r);
			}
			J::Obj(v)
		}
		J::Str(t) => J::Str(format!("{t}x")),
		J::Num(_) => J::Num("77".into()),
		x => x.clone(),
	}
}

fn judge_compare(c: &J, o: &mut Obs) -> V {
	let (docs, op) = (docs_of(c), opts_of(c));
	let (a, b) = (doc_of(c), c.get("other").cloned().unwrap_or(J::Null));
	if dup_keys(c) || ambiguous(c) {
		return V::Skip("duplicate keys");
	}
	let l = Rec::new(&docs);
	let (ra, rb) = (remote_in(&a, &op, &mut ()), remote_in(&b, &op, &mut ()));
	let op_ = match options_in(&op, &mut ()) {
		Ok(x) => x,
		Err(_) => return V::Skip("invalid options"),
	};
	let same = bag(&a) == bag(&b);
	let (x, y) = (drv::expand_doc(&a, &l, &op), drv::expand_doc(&b, &l, &op));
	if let (true, Out::Ok(x)) = (same, &x) {
		if drv::doc_json(x).text().contains("\"@json\"") {
			return V::Skip("JSON literals");
		}
	}
	let want: Out<J> = if !same {
		Out::Ok(J::Bool(false))
	} else {
		match (&x, &y) {
			(Out::Ok(x), Out::Ok(y)) => Out::Ok(J::Bool(norm::expanded(&drv::doc_json(x)) == norm::expanded(&drv::doc_json(y)))),
			(Out::Panic(p), _) | (_, Out::Panic(p)) => return fail("panics", p.clone()),
			(Out::Err(c, _), _) | (_, Out::Err(c, _)) => Out::Err(c.clone(), String::new()),
		}
	};
	let f = J::Bool;
	let mut all: All = vec![
		("compare_using", g!(ra.compare_using(&rb, &l, op_.clone()), f)),
		("compare_full", g!(ra.compare_full(&rb, &mut (), &l, op_.clone(), ()), f)),
		("compare_with_using", g!(ra.compare_with_using(&rb, &mut (), &l, op_.clone()), f)),
		("compare_using, swapped", g!(rb.compare_using(&ra, &l, op_.clone()), f)),
	];
	let (pa, pb) = (RemoteDocumentReference::Loaded(ra.clone()), RemoteDocumentReference::Loaded(rb.clone()));
	all.push(("reference.compare_using", g!(pa.compare_using(&pb, &l, op_.clone()), f)));
	if let Some(J::Obj(m)) = c.get("opts") {
		if m.is_empty() {
			all.push(("compare", g!(ra.compare(&rb, &l), f)));
			all.push(("compare_with", g!(ra.compare_with(&rb, &mut (), &l), f)));
		}
	}
	for (n, r) in all {
		match (&r, &want) {
			(Out::Err(..), Out::Err(..)) => o.hit("errors"),
			(r, w) if r == w => {
				o.hit(n);
				o.hit(if *r == Out::Ok(J::Bool(true)) { "equal" } else { "different" });
			}
			_ => return fail("comparison of documents", format!("{n}: {} expected {}\na {}\nb {}", r.clone().map(|j| j.text()).text(), want.clone().map(|j| j.text()).text(), a.text(), b.text())),
		}
	}
	o.seen(&(a, b));
	V::Pass
}

// --- asynchronous loading, and concurrency

fn noop() -> std::task::Waker {
	futures::task::noop_waker()
}

type Fut<'a> = Pin<Box<dyn Future<Output = Out<J>> + 'a>>;

fn future<'a>(name: &'a str, doc: &'a RemoteDocument, ctx: RemoteContextReference, l: &'a Rec, o: Options, g: &'a mut rdf_types::generator::Blank, v: &'a mut ()) -> Fut<'a> {
	Box::pin(async move {
		Out::Ok(match name {
			"expand" => drv::doc_json(&code!(doc.expand_using(l, o).await)),
			"compact" => J::from_js(&code!(doc.compact_using(ctx, l, o).await)),
			"flatten" => J::from_js(&code!(doc.flatten_using(g, l, o).await)),
			"flatten compact" => J::from_js(&code!(doc.flatten_full(v, g, Some(ctx), l, o, ()).await)),
			_ => {
				let mut d = code!(doc.to_rdf_using(rdf_types::generator::Blank::new(), l, o).await);
				let q: Vec<_> = d.cloned_quads().collect();
				quads_in(&(), q)
			}
		})
	})
}

fn remote_case(mut r: Rng) -> J {
	for _ in 0..20 {
		let c = op_case(r.fork());
		if docs_of(&c).len() > 0 && doc_of(&c).text().contains("http://ctx.org") || r.pc(5) {
			return c;
		}
	}
	op_case(r)
}

fn judge_async(c: &J, o: &mut Obs) -> V {
	let (docs, op) = (docs_of(c), opts_of(c));
	let ctx = c.get("context").cloned().unwrap_or(J::new_obj());
	let mut want = vec![];
	for name in OPS {
		let l = Rec::new(&docs);
		want.push((name, run(name, c, &l, &op), l.loads()));
	}
	let (cx, op_) = match (ctx_in::<()>(&ctx), options_in(&op, &mut ())) {
		(Ok(a), Ok(b)) => (a, b),
		_ => return V::Skip("invalid context"),
	};
	let mut r = seed(c);
	let doc = remote_in(&doc_of(c), &op, &mut ());
	let before = J::from_js(doc.document());
	// Several operations on the same document and loader, interleaved, and some
	// abandoned halfway.
	let l = Rec { yields: r.range(1, 4), ..Rec::new(&docs) };
	let n = OPS.len();
	let mut gens: Vec<_> = (0..n + 2).map(|_| rdf_types::generator::Blank::new()).collect();
	let mut units = vec![(); n + 2];
	let mut names: Vec<&str> = OPS.to_vec();
	names.push(OPS[r.below(n)]);
	names.push(OPS[r.below(n)]);
	let mut futs: Vec<Option<Fut>> = names.iter().zip(gens.iter_mut()).zip(units.iter_mut()).map(|((n, g), v)| Some(future(n, &doc, cx.clone(), &l, op_.clone(), g, v))).collect();
	let mut done: Vec<Option<Out<J>>> = vec![None; futs.len()];
	let cancel = [r.below(4), r.below(4)];
	let mut polls = vec![0; futs.len()];
	let w = noop();
	let mut switches = 0u64;
	for _ in 0..100000 {
		let live: Vec<usize> = (0..futs.len()).filter(|i| futs[*i].is_some()).collect();
		if live.is_empty() {
			break;
		}
		let i = live[r.below(live.len())];
		polls[i] += 1;
		if i >= n && polls[i] > cancel[i - n] {
			futs[i] = None;
			o.hit("abandoned operations");
			continue;
		}
		let f = futs[i].as_mut().unwrap();
		let p = drv::guard(|| Out::Ok(f.as_mut().poll(&mut Cx::from_waker(&w))));
		match p {
			Out::Ok(Poll::Pending) => switches += 1,
			Out::Ok(Poll::Ready(x)) => {
				done[i] = Some(x);
				futs[i] = None;
			}
			Out::Panic(p) => {
				return fail("panics", p);
			}
			_ => (),
		}
	}
	if futs.iter().any(|f| f.is_some()) {
		return fail("never completes", names.join(" "));
	}
	drop(futs);
	for i in 0..names.len() {
		let (name, w, _) = want.iter().find(|x| x.0 == names[i]).unwrap();
		match &done[i] {
			None => (),
			Some(x) => {
				if det(name, &op, w) != det(name, &op, x) {
					return differs(&format!("{name} depends on the schedule"), w, x);
				}
				if switches > 0 {
					if let Out::Ok(j) = x {
						o.hit(&format!("{name} interleaved"));
						o.seen(&(name, j, &polls));
					}
				}
			}
		}
	}
	o.add("suspensions", switches);
	if J::from_js(doc.document()) != before {
		return fail("the input changes", before.text());
	}
	// One operation at a time loads the same documents in the same order,
	// however long each takes.
	for (name, _, loads) in &want {
		if *name == "flatten compact" && !op.ordered {
			continue;
		}
		let l = Rec { yields: r.below(3), ..Rec::new(&docs) };
		run(name, c, &l, &op);
		if l.loads() != *loads {
			return fail("loads depend on the schedule", format!("{name}: {:?} / {:?}", loads, l.loads()));
		}
	}
	V::Pass
}

fn judge_threads(c: &J, o: &mut Obs) -> V {
	let (docs, op) = (docs_of(c), opts_of(c));
	let ctx = c.get("context").cloned().unwrap_or(J::new_obj());
	let want: Vec<(&str, Out<J>)> = OPS.iter().map(|n| (*n, run(n, c, &Rec::new(&docs), &op))).collect();
	let (cx, op_) = match (ctx_in::<()>(&ctx), options_in(&op, &mut ())) {
		(Ok(a), Ok(b)) => (a, b),
		_ => return V::Skip("invalid context"),
	};
	let doc = remote_in(&doc_of(c), &op, &mut ());
	let l = Rec { yields: 1, ..Rec::new(&docs) };
	let ex = drv::expand_doc(&doc_of(c), &Rec::new(&docs), &Opts { ordered: false, ..op.clone() });
	let start = std::sync::Barrier::new(4);
	let mut r = seed(c);
	let mut orders: Vec<Vec<usize>> = vec![];
	for _ in 0..4 {
		let mut v: Vec<usize> = (0..want.len()).collect();
		r.shuffle(&mut v);
		orders.push(v);
	}
	let bad = std::thread::scope(|sc| {
		let hs: Vec<_> = orders
			.iter()
			.map(|order| {
				let (doc, cx, op_, l, start, want, op, ex) = (&doc, &cx, &op_, &l, &start, &want, &op, &ex);
				sc.spawn(move || {
					start.wait();
					let mut bad = vec![];
					for i in order {
						let (name, w) = &want[*i];
						let r = drv::guard(|| {
							let mut g = rdf_types::generator::Blank::new();
							drv::block(future(name, doc, cx.clone(), l, op_.clone(), &mut g, &mut ()))
						});
						if det(name, op, w) != det(name, op, &r) {
							bad.push((name.to_string(), r));
						}
						// The expanded document is shared as well.
						if let (Out::Ok(d), "flatten") = (ex, *name) {
							let f = drv::flatten_expanded(d, op.ordered);
							if det(name, op, w) != det(name, op, &f) {
								bad.push(("flatten of a shared document".into(), f));
							}
							let j = drv::guard(|| Out::Ok(drv::doc_json(d)));
							if !matches!(&j, Out::Ok(_)) {
								bad.push(("serialization of a shared document".into(), j));
							}
						}
					}
					bad
				})
			})
			.collect();
		hs.into_iter().flat_map(|h| h.join().unwrap_or_else(|_| vec![("thread".into(), Out::Panic("panic".into()))])).collect::<Vec<_>>()
	});
	if let Some((n, r)) = bad.first() {
		let w = want.iter().rev().find(|x| n.starts_with(x.0)).map(|x| x.1.clone()).unwrap_or(Out::Panic("?".into()));
		return differs(&format!("{n} differs in a thread"), &w, r);
	}
	for (name, w) in &want {
		if let Out::Ok(j) = w {
			o.add(&format!("{name} in threads"), 4);
			if j.len() > 0 {
				o.seen(&(name, j));
			}
		}
	}
	V::Pass
}

#[allow(dead_code)]
fn _unused(j: &J) -> bool {
	keys_sorted(j) && obj(vec![]).is_obj()
}

pub fn c11() -> Prop {
	Prop {
		id: "C11",
		level: "exploration",
		rule: "Each operation run twice gives the same value (with fresh hash seeds), ordered results are in order, and permuting object members changes nothing but the order in sets; ordered expansion is the expansion of the document with sorted members. The results are the same in an index vocabulary (fresh, populated, or used before), through each entry point of the library (`_full`, `_with`, `_using`, by value, by reference and by IRI, and the algorithms' own traits), when loads suspend and operations on one document are interleaved or abandoned, and when four threads share the document and the loader.",
		assumptions: &[],
		mons: vec![
			Mon { name: "repeat", gen: op_case, judge: judge_repeat, fixed: none, quick: 60000, threads: 0 },
			Mon { name: "order", gen: op_case, judge: judge_order, fixed: none, quick: 60000, threads: 0 },
			Mon { name: "vocab", gen: op_case, judge: judge_vocab, fixed: none, quick: 60000, threads: 0 },
			Mon { name: "entry", gen: entry_case, judge: judge_entry, fixed: none, quick: 30000, threads: 0 },
			Mon { name: "equal", gen: compare_case, judge: judge_compare, fixed: none, quick: 60000, threads: 0 },
			Mon { name: "async", gen: remote_case, judge: judge_async, fixed: none, quick: 30000, threads: 0 },
			Mon { name: "threads", gen: op_case, judge: judge_threads, fixed: none, quick: 6000, threads: 2 },
		],
	}
}
