//! C10: the expanded data model against its JSON form. C12: equality and hashes.
use super::util::*;
use crate::drv::{self, Out};
use crate::gen::Profile;
use crate::iso;
use crate::json::{obj, s, J};
use crate::rng::Rng;
use crate::run::*;
use contextual::WithContext;
use iref::IriBuf;
use json_ld::object::MappedEq;
use json_ld::syntax::IntoJson;
use json_ld::{ExpandedDocument, Id, Indexed, Object};
use rdf_types::BlankIdBuf;
use std::collections::{BTreeMap, HashMap};
use std::hash::{Hash, Hasher};

type Obj = Indexed<Object<IriBuf, BlankIdBuf>>;
type Node = json_ld::Node<IriBuf, BlankIdBuf>;

fn js<T: json_ld::syntax::IntoJsonWithContext<()>>(t: T) -> J {
	J::from_js(&t.into_with(&()).into_json())
}

fn case(mut r: Rng) -> J {
	let p = Profile { odd: 5, bnodes: r.pc(70), ..Profile::random(&mut r) };
	let seed = r.next();
	let mut c = doc_case_with(r, Some(p));
	c.set("seed", J::Num((seed >> 12).to_string()));
	c
}

fn rng_of(c: &J) -> Rng {
	Rng::new(match c.get("seed") {
		Some(J::Num(n)) => n.parse().unwrap_or(0),
		_ => 0,
	})
}

macro_rules! want {
	($a:expr, $b:expr, $what:expr, $j:expr) => {
		let (a, b) = (&$a, &$b);
		if a != b {
			return Err(($what.to_string(), format!("library {a:?}, json {b:?} in {}", $j.text())));
		}
	};
}

type R = Result<(), (String, String)>;

fn list<'a>(j: Option<&'a J>) -> &'a [J] {
	match j {
		Some(J::Arr(a)) => a,
		_ => &[],
	}
}

fn strs(j: Option<&J>) -> Vec<String> {
	list(j).iter().filter_map(|x| x.as_str().map(|x| x.to_string())).collect()
}

/// Checks that an iterator announces its length exactly.
fn exact<I: ExactSizeIterator>(mut i: I) -> Result<usize, String> {
	let n = i.len();
	let mut left = n;
	loop {
		if i.len() != left || i.size_hint() != (left, Some(left)) {
			return Err(format!("len {} when {left} left of {n}", i.len()));
		}
		match i.next() {
			Some(_) if left == 0 => return Err(format!("more than {n} items")),
			Some(_) => left -= 1,
			None if left == 0 => return Ok(n),
			None => return Err(format!("{left} items missing")),
		}
	}
}

fn keys(j: &J) -> Vec<String> {
	let mut v: Vec<String> = j.as_obj().unwrap().iter().map(|(k, _)| k.clone()).collect();
	v.sort();
	v
}

/// The accessors of an object agree with its JSON form.
fn object(o: &Obj, j: &J) -> R {
	use json_ld::object::IndexedEntryRef as E;
	let index = j.get("@index").and_then(|x| x.as_str());
	want!(o.index(), index, "index", j);
	let (v, l) = (j.has("@value"), j.has("@list"));
	want!(o.is_value(), v, "is_value", j);
	want!(o.is_list(), l, "is_list", j);
	want!(o.is_node(), !v && !l, "is_node", j);
	want!((o.as_value().is_some(), o.as_list().is_some(), o.as_node().is_some()), (v, l, !v && !l), "as_value, as_list, as_node", j);
	let id = j.get("@id").and_then(|x| x.as_str());
	want!(o.id().map(|x| x.as_str()), id, "id", j);
	let is_iri = id.map_or(false, |x| iref::Iri::new(x).is_ok());
	want!(o.as_iri().map(|x| x.as_str()), id.filter(|_| is_iri), "as_iri", j);
	let types: Vec<String> = o.types().map(|t| t.as_str().to_string()).collect();
	let wt = match j.get("@type") {
		Some(J::Str(t)) => vec![t.clone()],
		t => strs(t),
	};
	want!(types, wt, "types", j);
	let val = j.get("@value");
	let json = j.get("@type") == Some(&s("@json"));
	let (ws, wb, wn) = match val {
		Some(J::Str(x)) if !json => (Some(x.as_str()), None, None),
		Some(J::Bool(b)) if !json => (None, Some(*b), None),
		Some(J::Num(n)) if !json => (None, None, Some(n.as_str())),
		_ => (id, None, None),
	};
	want!(o.as_str(), ws, "as_str", j);
	want!(o.as_bool(), wb, "as_bool", j);
	want!(o.as_number().map(|x| x.as_str()), wn, "as_number", j);
	let lang = j.get("@language").and_then(|x| x.as_str()).filter(|_| v);
	want!(o.language().map(|x| x.as_str()), lang, "language", j);

	let mut k: Vec<String> = o.entries().map(|e| e.key().as_str().to_string()).collect();
	k.sort();
	want!(k, keys(j), "entries", j);
	for e in o.entries() {
		let key = e.key();
		want!(key.as_keyword().map(|k| k.into_str()), Some(key.as_str()).filter(|k| k.starts_with('@')), "keyword of an entry", j);
		want!(e.key().into_str(), key.as_str(), "key of an entry", j);
		if let E::Index(i) = e {
			want!(Some(i), index, "@index entry", j);
		}
	}
	if let Err(e) = exact(o.entries()) {
		return Err(("length of entries".into(), format!("{e} in {}", j.text())));
	}
	if let Err(e) = exact(o.inner().entries()) {
		return Err(("length of entries".into(), format!("{e} in {}", j.text())));
	}

	let parts = (o.clone().into_indexed_node().is_some(), o.clone().into_indexed_value().is_some(), o.clone().into_indexed_list().is_some());
	want!(parts, (!v && !l, v, l), "into_indexed_*", j);
	let unnamed = j.has("@graph") && j.len() == 1;
	match o.clone().into_unnamed_graph() {
		Ok(g) => {
			want!(unnamed, true, "into_unnamed_graph", j);
			want!(js(g), j.get("@graph").unwrap().clone(), "into_unnamed_graph", j);
		}
		Err(same) => {
			want!(unnamed, false, "into_unnamed_graph", j);
			want!(same == *o, true, "into_unnamed_graph gives another object back", j);
		}
	}

	if let Some(x) = o.as_value() {
		want!(x.as_str(), ws, "as_str of a value", j);
		want!(x.typ().is_some(), j.has("@type"), "type of a value", j);
		want!(x.literal_type().map(|t| t.as_str()), j.get("@type").and_then(|x| x.as_str()).filter(|_| !json), "literal type", j);
		want!(x.direction().map(|d| d.as_str()), j.get("@direction").and_then(|x| x.as_str()), "direction", j);
		let mut back: Vec<&str> = x.entries().rev().map(|e| e.key().as_str()).collect();
		back.reverse();
		let fwd: Vec<&str> = x.entries().map(|e| e.key().as_str()).collect();
		want!(back, fwd, "reversed entries of a value", j);
		let mut it = x.entries();
		let mut n = 0;
		let total = it.len();
		while if n % 2 == 0 { it.next_back().is_some() } else { it.next().is_some() } {
			n += 1
		}
		want!(n, total, "entries of a value from both ends", j);
		let parsed = json_ld::Value::<IriBuf>::null();
		want!(parsed == *x, j.get("@value") == Some(&J::Null) && !json && !j.has("@type"), "null value", j);
	}
	if let Some(x) = o.as_list() {
		let items = list(j.get("@list"));
		want!((x.len(), x.is_empty()), (items.len(), items.is_empty()), "length of a list", j);
		for (o, j) in x.iter().zip(items) {
			object(o, j)?
		}
	}
	if let Some(x) = o.as_node() {
		node(x, j)?
	}
	Ok(())
}

fn node(n: &Node, j: &J) -> R {
	use json_ld::Term;
	let extra = |skip: &[&str]| j.as_obj().unwrap().iter().any(|(k, _)| !skip.contains(&k.as_str()));
	want!(n.is_empty(), !extra(&["@id", "@index"]), "is_empty", j);
	want!(n.is_graph(), j.has("@graph") && !extra(&["@id", "@index", "@graph"]), "is_graph", j);
	want!(n.is_simple_graph(), j.has("@graph") && !extra(&["@index", "@graph"]), "is_simple_graph", j);
	want!(n.is_unnamed_graph(), n.is_simple_graph(), "is_unnamed_graph", j);
	for k in ["@id", "@type", "@graph", "@included", "@reverse", "@value", "@list"] {
		let kw = json_ld::syntax::Keyword::try_from(k).unwrap();
		want!(n.has_key(&Term::Keyword(kw)), j.has(k), "has_key", j);
	}
	for t in strs(j.get("@type")) {
		let t = Id::<IriBuf, BlankIdBuf>::from_string(t);
		want!(n.has_type(&t), true, "has_type", j);
	}
	let absent = Id::<IriBuf, BlankIdBuf>::from_string("urn:absent".into());
	want!(n.has_type(&absent), false, "has_type", j);
	want!(n.has_key(&Term::Id(absent.clone())), false, "has_key", j);
	want!(n.get(&absent).count(), 0, "get", j);
	let props: Vec<(&String, &J)> = j.as_obj().unwrap().iter().filter(|(k, _)| !k.starts_with('@')).map(|(k, v)| (k, v)).collect();
	let odd = |k: &str| Id::<IriBuf, BlankIdBuf>::from_string(k.into());
	want!(n.properties().len(), props.len(), "number of properties", j);
	want!(n.properties().is_empty(), props.is_empty(), "number of properties", j);
	for (k, v) in props {
		let p = odd(k);
		want!(n.has_key(&Term::Id(p.clone())), true, "has_key", j);
		want!(n.properties().contains(&p), true, "contains", j);
		let got: Vec<&Obj> = n.get(&p).collect();
		want!(got.len(), v.len(), "get", j);
		want!(n.get_any(&p).is_some(), v.len() > 0, "get_any", j);
		if let Some(x) = n.get_any(&p) {
			want!(got.contains(&x), true, "get_any", j);
		}
		for (o, j) in got.iter().zip(list(Some(v))) {
			object(o, j)?
		}
	}
	want!(n.graph().map(|x| x.len()), j.get("@graph").map(|x| x.len()), "graph", j);
	want!(n.graph_entry().is_some(), j.has("@graph"), "graph entry", j);
	for (o, j) in n.graph_entry().into_iter().flatten().zip(list(j.get("@graph"))) {
		object(o, j)?
	}
	want!(n.included_entry().map(|x| x.len()), j.get("@included").map(|x| x.len()), "included", j);
	for (o, j) in n.included_entry().into_iter().flatten().zip(list(j.get("@included"))) {
		object(&o.clone().map_inner(Object::node), j)?
	}
	want!(n.reverse_properties().map(|x| x.len()), j.get("@reverse").map(|x| x.len()), "reverse properties", j);
	if let Some(r) = n.reverse_properties() {
		for (k, v) in j.get("@reverse").unwrap().as_obj().unwrap() {
			let p = odd(k);
			want!(r.contains(&p), true, "reverse contains", j);
			let got: Vec<_> = r.get(&p).collect();
			want!(got.len(), v.len(), "reverse get", j);
			want!(r.get_any(&p).is_some(), v.len() > 0, "reverse get_any", j);
			for (o, j) in got.iter().zip(list(Some(v))) {
				object(&(*o).clone().map_inner(Object::node), j)?
			}
		}
		want!(r.get(&absent).count(), 0, "reverse get", j);
	}
	Ok(())
}

/// What a traversal of the JSON form meets.
#[derive(Default, PartialEq, Debug)]
struct Seen {
	ids: BTreeMap<String, usize>,
	objects: usize,
	arrays: usize,
	nodes: usize,
	values: usize,
	lists: usize,
	indexes: usize,
}

fn raw(j: &J, w: &mut Seen) {
	match j {
		J::Arr(a) => {
			w.arrays += 1;
			a.iter().for_each(|x| raw(x, w))
		}
		J::Obj(m) => {
			w.objects += 1;
			m.iter().for_each(|(_, x)| raw(x, w))
		}
		_ => (),
	}
}

fn walk(j: &J, w: &mut Seen) {
	let mut id = |x: &str, w: &mut Seen| *w.ids.entry(x.to_string()).or_insert(0) += 1;
	match j {
		J::Arr(a) => {
			w.arrays += 1;
			a.iter().for_each(|x| walk(x, w))
		}
		J::Obj(m) => {
			w.objects += 1;
			if j.has("@index") {
				w.indexes += 1
			}
			if let Some(v) = j.get("@value") {
				w.values += 1;
				match j.get("@type").and_then(|x| x.as_str()) {
					Some("@json") => raw(v, w),
					Some(t) => id(t, w),
					None => (),
				}
				return;
			}
			if let Some(l) = j.get("@list") {
				w.lists += 1;
				walk(l, w);
				return;
			}
			w.nodes += 1;
			for (k, v) in m {
				match k.as_str() {
					"@id" => id(v.as_str().unwrap(), w),
					"@type" => {
						w.arrays += 1;
						strs(Some(v)).iter().for_each(|t| id(t, w))
					}
					"@index" => (),
					"@reverse" => {
						w.objects += 1;
						for (k, v) in v.as_obj().unwrap() {
							id(k, w);
							walk(v, w)
						}
					}
					k => {
						if !k.starts_with('@') {
							id(k, w)
						}
						walk(v, w)
					}
				}
			}
		}
		_ => (),
	}
}

fn traversed<'a>(t: impl Iterator<Item = json_ld::object::FragmentRef<'a, IriBuf, BlankIdBuf>>) -> Seen {
	use json_ld::object::{FragmentRef as F, Ref};
	let mut w = Seen::default();
	for f in t {
		if let Some(i) = f.as_id() {
			let i = match i {
				Id::Valid(json_ld::ValidId::Iri(i)) => i.to_string(),
				Id::Valid(json_ld::ValidId::Blank(b)) => b.to_string(),
				Id::Invalid(i) => i,
			};
			*w.ids.entry(i).or_insert(0) += 1
		}
		w.objects += f.is_json_object() as usize;
		w.arrays += f.is_json_array() as usize;
		if let F::IndexEntry(_) = f {
			w.indexes += 1
		}
		match f.into_ref() {
			Some(Ref::Node(_)) => w.nodes += 1,
			Some(Ref::Value(_)) => w.values += 1,
			Some(Ref::List(_)) => w.lists += 1,
			None => (),
		}
	}
	w
}

fn expanded(c: &J) -> Option<ExpandedDocument> {
	let (doc, docs, op) = (doc_of(c), docs_of(c), opts_of(c));
	let l = drv::Rec::new(&docs);
	match drv::expand_doc(&doc, &l, &op) {
		Out::Ok(d) => Some(d),
		_ => None,
	}
}

fn judge_form(c: &J, o: &mut Obs) -> V {
	let d = match expanded(c) {
		Some(d) => d,
		None => return V::Skip("input not expandable"),
	};
	let j = drv::doc_json(&d);

	// The JSON form is that of the document.
	let d2 = match drv::parse_expanded(&j) {
		Out::Ok(d2) => d2,
		Out::Err(_, e) => return fail("the JSON form is not accepted back", format!("{e} on {}", j.text())),
		Out::Panic(p) => return fail("panic", format!("{p} on {}", j.text())),
	};
	// Empty `@type` arrays have no JSON form.
	let j2 = drv::doc_json(&d2);
	if j2 != j {
		return fail("the JSON form changes when read back", format!("first  {}\nsecond {}", j.text(), j2.text()));
	}
	let empty_types = d.traverse().any(|f| f.into_ref().map_or(false, |r| matches!(r, json_ld::object::Ref::Node(n) if n.types.as_ref().map_or(false, |t| t.is_empty()))));
	if d2 != d && !empty_types && !ambiguous(&j) {
		return fail("the document read back differs", j.text());
	}

	// The same through an indexed vocabulary.
	let mut voc = <rdf_types::vocabulary::IndexVocabulary>::default();
	type Ix = rdf_types::vocabulary::IriIndex;
	type Bx = rdf_types::vocabulary::BlankIdIndex;
	match <ExpandedDocument<Ix, Bx> as json_ld::TryFromJson<Ix, Bx>>::try_from_json_in(&mut voc, j.to_js()) {
		Ok(v) => {
			let jv = J::from_js(&v.into_objects().into_with(&voc).into_json());
			if jv != j && !ambiguous(&j) {
				return fail("JSON form with a vocabulary", format!("{}\n{}", j.text(), jv.text()));
			}
		}
		Err(e) => return fail("the JSON form is not accepted back with a vocabulary", format!("{e:?} on {}", j.text())),
	}

	if empty_types {
		return V::Skip("empty @type");
	}
	// Accessors.
	for (x, y) in d.iter().zip(list(Some(&j))) {
		if let Err((class, e)) = object(x, y) {
			return fail(&class, e);
		}
	}
	if (d.len(), d.is_empty()) != (j.len(), j.len() == 0) {
		return fail("length of the document", j.text());
	}

	// Traversal.
	let mut w = Seen::default();
	list(Some(&j)).iter().for_each(|x| walk(x, &mut w));
	let got = traversed(d.traverse());
	if got != w {
		return fail("traversal", format!("document {}\nreal {got:?}\njson {w:?}", j.text()));
	}
	let n = d.count(|f| f.is_json_object());
	if n != w.objects {
		return fail("count", format!("{n} {} in {}", w.objects, j.text()));
	}
	for x in d.iter().filter_map(|x| x.as_node()) {
		let mut w = Seen::default();
		walk(&js(x.clone()), &mut w);
		let got = traversed(x.traverse());
		if got != w {
			return fail("traversal of a node", format!("node {}\nreal {got:?}\njson {w:?}", js(x.clone()).text()));
		}
		if x.count(|f| f.is_json_array()) != w.arrays {
			return fail("count of a node", js(x.clone()).text());
		}
	}
	for x in d.iter() {
		let mut w = Seen::default();
		walk(&js(x.inner().clone()), &mut w);
		let got = traversed(x.traverse());
		if got != w {
			return fail("traversal of an object", format!("object {}\nreal {got:?}\njson {w:?}", js(x.inner().clone()).text()));
		}
	}

	// The main node of a document is its only node.
	let tops: Vec<&J> = list(Some(&j)).iter().filter(|x| !x.has("@value") && !x.has("@list")).collect();
	let main = d.main_node().map(|n| js(n.clone()));
	let want = if tops.len() == 1 && j.len() == 1 {
		let mut t = tops[0].clone();
		t.remove("@index");
		Some(t)
	} else {
		None
	};
	if j.len() == 1 && main != want {
		return fail("main node", format!("{main:?} {want:?} in {}", j.text()));
	}
	if d.clone().into_main_node().map(js) != main {
		return fail("into_main_node", j.text());
	}

	o.add("fragments", d.traverse().count() as u64);
	o.add("objects", w.objects as u64);
	o.seen(&j);
	V::Pass
}

// Mutations of expanded JSON.

fn paths(j: &J, at: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
	out.push(at.clone());
	match j {
		J::Arr(a) => {
			for (i, x) in a.iter().enumerate() {
				at.push(i);
				paths(x, at, out);
				at.pop();
			}
		}
		J::Obj(m) => {
			for (i, x) in m.iter().enumerate() {
				at.push(i);
				paths(&x.1, at, out);
				at.pop();
			}
		}
		_ => (),
	}
}

fn at<'a>(j: &'a mut J, p: &[usize]) -> &'a mut J {
	match p.split_first() {
		None => j,
		Some((i, p)) => match j {
			J::Arr(a) => at(&mut a[*i], p),
			J::Obj(m) => at(&mut m[*i].1, p),
			_ => unreachable!(),
		},
	}
}

fn mutate(r: &mut Rng, j: &mut J) {
	let mut ps = vec![];
	paths(j, &mut vec![], &mut ps);
	let p = r.pick(&ps).clone();
	let vals = [
		J::Null,
		J::Bool(true),
		J::Num("1".into()),
		J::Num("1.50".into()),
		s("x"),
		s("http://e.org/x"),
		s("_:b0"),
		s("@json"),
		s("ltr"),
		s("en"),
		J::Arr(vec![]),
		J::new_obj(),
		obj(vec![("@id", s("urn:x"))]),
		obj(vec![("@value", s("v"))]),
		obj(vec![("@list", J::Arr(vec![]))]),
		J::Arr(vec![s("urn:t")]),
	];
	let v = r.pick(&vals).clone();
	let t = at(j, &p);
	match (t, r.below(6)) {
		(J::Obj(m), 0..=2) => {
			let ks = ["@id", "@type", "@value", "@list", "@index", "@language", "@direction", "@graph", "@included", "@reverse", "@set", "@context", "@nest", "http://p", "_:p", "not iri", ""];
			let k = r.ps(&ks);
			let i = r.below(m.len() + 1);
			if m.iter().any(|x| x.0 == k) && r.pc(80) {
				return;
			}
			m.insert(i, (k, v))
		}
		(J::Obj(m), 3) if !m.is_empty() => {
			let i = r.below(m.len());
			m.remove(i);
		}
		(J::Arr(a), 0..=2) => {
			let i = r.below(a.len() + 1);
			a.insert(i, v)
		}
		(J::Arr(a), 3) if !a.is_empty() => {
			let i = r.below(a.len());
			a.remove(i);
		}
		(t, _) => *t = v,
	}
}

/// Duplicates of a set are merged when read.
fn dedup_sets(j: &J) -> J {
	match j {
		J::Obj(m) => J::Obj(
			m.iter()
				.filter(|(k, v)| !(k == "@type" && v.len() == 0 && v.as_arr().is_some()))
				.map(|(k, v)| {
					if k == "@value" {
						return (k.clone(), v.clone());
					}
					if k == "@reverse" && v.is_obj() {
						return (k.clone(), J::Obj(v.as_obj().unwrap().iter().map(|(k, v)| (k.clone(), dedup_sets(v))).collect()));
					}
					(k.clone(), if k == "@graph" || k == "@included" { dedup_set(v) } else { dedup_sets(v) })
				})
				.collect(),
		)
		.sorted(),
		J::Arr(a) => J::Arr(a.iter().map(dedup_sets).collect()),
		o => o.clone(),
	}
}

fn dedup_set(v: &J) -> J {
	match dedup_sets(v) {
		J::Arr(a) => {
			let mut out: Vec<J> = vec![];
			for x in a {
				if !out.iter().any(|y| exact_norm(y) == exact_norm(&x)) {
					out.push(x)
				}
			}
			J::Arr(out)
		}
		o => o,
	}
}

fn judge_mutant(c: &J, o: &mut Obs) -> V {
	let d = match expanded(c) {
		Some(d) => d,
		None => return V::Skip("input not expandable"),
	};
	let mut j = drv::doc_json(&d);
	let mut r = rng_of(c);
	for _ in 0..=r.below(3) {
		mutate(&mut r, &mut j)
	}
	if ambiguous(&j) {
		return V::Skip("identifiers equal modulo normalisation");
	}
	let d = match drv::parse_expanded(&j) {
		Out::Ok(d) => d,
		Out::Err(_, e) => {
			o.hit("rejected");
			o.seen(&e);
			return V::Pass;
		}
		Out::Panic(p) => return fail("panic on expanded JSON", format!("{p} on {}", j.text())),
	};
	let back = drv::doc_json(&d);
	let (a, b) = (dedup_set(&j), dedup_set(&back));
	if a != b {
		return fail("accepted JSON is not kept", format!("input {}\nread  {}", a.text(), b.text()));
	}
	match drv::parse_expanded(&back) {
		Out::Ok(d2) => {
			let empty_types = d.traverse().any(|f| f.into_ref().map_or(false, |r| matches!(r, json_ld::object::Ref::Node(n) if n.types.as_ref().map_or(false, |t| t.is_empty()))));
			if d2 != d && !empty_types {
				return fail("the document read back differs", back.text());
			}
		}
		_ => return fail("the JSON form is not accepted back", back.text()),
	}
	o.hit("accepted");
	o.seen(&j);
	V::Pass
}

// C12

/// Two expanded documents are equal exactly when these are.
fn exact_norm(j: &J) -> J {
	norm_set(j, true)
}

fn norm_set(j: &J, dedup: bool) -> J {
	match j {
		J::Arr(a) => {
			let mut v: Vec<J> = a.iter().map(norm_object).collect();
			v.sort();
			if dedup {
				v.dedup();
			}
			J::Arr(v)
		}
		o => norm_object(o),
	}
}

fn norm_object(j: &J) -> J {
	match j {
		J::Obj(m) => {
			let json = j.get("@type") == Some(&s("@json"));
			let mut v: Vec<(String, J)> = m
				.iter()
				.map(|(k, v)| {
					let v = match k.as_str() {
						"@value" => {
							if json {
								v.clone()
							} else {
								v.clone()
							}
						}
						"@list" => J::Arr(list(Some(v)).iter().map(norm_object).collect()),
						"@graph" | "@included" => norm_set(v, true),
						"@language" => s(&v.as_str().unwrap_or("").to_ascii_lowercase()),
						"@type" => match v {
							J::Arr(a) => {
								let mut a = a.clone();
								a.sort();
								J::Arr(a)
							}
							o => o.clone(),
						},
						"@reverse" => match v {
							J::Obj(m) => {
								let mut v: Vec<(String, J)> = m.iter().map(|(k, v)| (k.clone(), norm_set(v, false))).collect();
								v.sort();
								J::Obj(v)
							}
							o => o.clone(),
						},
						"@id" | "@index" | "@direction" => v.clone(),
						_ => norm_set(v, false),
					};
					(k.clone(), v)
				})
				.collect();
			v.sort();
			J::Obj(v)
		}
		o => o.clone(),
	}
}

/// Another way to write the same document.
fn shuffled(r: &mut Rng, j: &J, ordered: bool) -> J {
	match j {
		J::Arr(a) => {
			let mut v: Vec<J> = a.iter().map(|x| shuffled(r, x, false)).collect();
			if !ordered {
				r.shuffle(&mut v)
			}
			J::Arr(v)
		}
		J::Obj(m) => {
			if j.has("@value") {
				let mut v = m.clone();
				r.shuffle(&mut v);
				return J::Obj(v);
			}
			let mut v: Vec<(String, J)> = m.iter().map(|(k, x)| (k.clone(), shuffled(r, x, k == "@list"))).collect();
			r.shuffle(&mut v);
			J::Obj(v)
		}
		o => o.clone(),
	}
}

fn hash<T: Hash>(t: &T) -> u64 {
	let mut h = std::collections::hash_map::DefaultHasher::new();
	t.hash(&mut h);
	h.finish()
}

/// A small change of the document.
fn tweak(r: &mut Rng, j: &J) -> J {
	let mut ps = vec![];
	paths(j, &mut vec![], &mut ps);
	for _ in 0..20 {
		let mut j = j.clone();
		let p = r.pick(&ps).clone();
		match at(&mut j, &p) {
			J::Arr(a) if !a.is_empty() => match r.below(4) {
				0 => {
					let i = r.below(a.len());
					a.remove(i);
				}
				1 => {
					let x = r.pick(a).clone();
					a.push(x)
				}
				2 => {
					let i = r.below(a.len());
					let k = r.below(a.len());
					a.swap(i, k)
				}
				_ => {
					let i = r.below(a.len());
					a[i] = a[0].clone()
				}
			},
			J::Obj(m) if !m.is_empty() => {
				let i = r.below(m.len());
				match (r.below(4), m[i].0.as_str()) {
					(0, "@value" | "@list") => continue,
					(0, _) => {
						m.remove(i);
					}
					(1, k) if !k.starts_with('@') => m[i].0 = "http://e.org/other".into(),
					(2, _) if !m.iter().any(|x| x.0 == "@index") => m.push(("@index".into(), s("i"))),
					(_, "@id") => m[i].1 = s("urn:other"),
					_ => continue,
				}
				let mut ks: Vec<&String> = m.iter().map(|x| &x.0).collect();
				ks.sort();
				if ks.windows(2).any(|w| w[0] == w[1]) {
					continue;
				}
			}
			J::Str(v) if !v.starts_with('@') => {
				*v = match r.below(4) {
					0 => format!("{v}x"),
					1 => v.to_uppercase(),
					2 => "_:b0".into(),
					_ => "_:b1".into(),
				}
			}
			J::Bool(b) => *b = !*b,
			J::Num(n) => *n = if r.pc(50) { format!("{n}0") } else { "7".into() },
			_ => continue,
		}
		return j;
	}
	j.clone()
}

fn rename<'a, 'b: 'a>(m: &'b HashMap<BlankIdBuf, BlankIdBuf>, other: &'b BlankIdBuf) -> impl 'b + Clone + Fn(&'a BlankIdBuf) -> &'b BlankIdBuf {
	move |x: &'a BlankIdBuf| m.get(x).unwrap_or(other)
}

fn judge_eq(c: &J, o: &mut Obs) -> V {
	let d = match expanded(c) {
		Some(d) => d,
		None => return V::Skip("input not expandable"),
	};
	let j = drv::doc_json(&d);
	if ambiguous(&j) {
		return V::Skip("identifiers equal modulo normalisation");
	}
	let empty_types = d.traverse().any(|f| f.into_ref().map_or(false, |r| matches!(r, json_ld::object::Ref::Node(n) if n.types.as_ref().map_or(false, |t| t.is_empty()))));
	if empty_types {
		return V::Skip("empty @type");
	}
	let mut r = rng_of(c);
	let read = |j: &J| match drv::parse_expanded(j) {
		Out::Ok(d) => Some(d),
		_ => None,
	};

	// Order.
	let sh = shuffled(&mut r, &j, false);
	let e = match read(&sh) {
		Some(e) => e,
		None => return fail("shuffled document not accepted", sh.text()),
	};
	if e != d || d != e {
		return fail("equality depends on the order", format!("{}\n{}", j.text(), sh.text()));
	}
	let objs = |d: &ExpandedDocument| d.iter().cloned().collect::<Vec<Obj>>();
	for a in objs(&d) {
		let twins: Vec<Obj> = objs(&e).into_iter().filter(|b| *b == a).collect();
		if twins.len() != 1 || !d.objects().contains(&twins[0]) || !e.objects().contains(&a) {
			return fail("membership depends on the order", format!("{} in {}", js(a).text(), sh.text()));
		}
		if hash(&a) != hash(&twins[0]) {
			return fail("equal objects have different hashes", format!("{}\n{}", js(a).text(), js(twins[0].clone()).text()));
		}
	}
	let eqv = |a: &Obj, b: &Obj| a.equivalent(b);

	// Equality is that of the normal forms.
	let small = tweak(&mut r, &j);
	if ambiguous(&small) {
		return V::Skip("identifiers equal modulo normalisation");
	}
	if let Some(t) = read(&small) {
		let tj = drv::doc_json(&t);
		let same = exact_norm(&tj) == exact_norm(&j);
		if (t == d) != same || (d == t) != same {
			return fail("equality", format!("equal: {}, normal forms equal: {same}\n{}\n{}", t == d, j.text(), tj.text()));
		}
		o.hit(if same { "equal variants" } else { "different variants" });
		for a in d.iter() {
			for b in t.iter() {
				let (ja, jb) = (js(a.clone()), js(b.clone()));
				let same = norm_object(&ja) == norm_object(&jb);
				if (a == b) != same {
					return fail("equality of objects", format!("{}\n{}", ja.text(), jb.text()));
				}
				if same && hash(a) != hash(b) {
					return fail("equal objects have different hashes", format!("{}\n{}", ja.text(), jb.text()));
				}
				let anon = !(ja.has("@value") || ja.has("@id"));
				if eqv(a, b) != (same && !anon) {
					return fail("equivalence of objects", format!("{}\n{}", ja.text(), jb.text()));
				}
				o.hit("pairs");
			}
		}

		// Equality under a renaming of the blank nodes.
		let labels = iso::labels(&j, iso::map_expanded);
		if labels.iter().all(|l| rdf_types::BlankId::new(l.as_str()).is_ok()) {
			let f = |l: &str| format!("_:r{}", &l[2..]);
			let mut map = HashMap::new();
			for l in labels.iter().chain(iso::labels(&tj, iso::map_expanded).iter()) {
				if let (Ok(a), Ok(b)) = (BlankIdBuf::new(l.clone()), BlankIdBuf::new(f(l))) {
					map.insert(a, b);
				}
			}
			let other = BlankIdBuf::new("_:unknown".to_string()).unwrap();
			for (src, what) in [(&sh, "same"), (&small, "changed")] {
				let rn = iso::map_expanded(src, &f);
				let rd = match read(&rn) {
					Some(x) => x,
					None => continue,
				};
				let want = exact_norm(&iso::map_expanded(&j, &f)) == exact_norm(&drv::doc_json(&rd));
				let got = d.objects().mapped_eq(rd.objects(), rename(&map, &other));
				if got != want {
					return fail("equality under a renaming", format!("real {got}, expected {want} ({what})\n{}\n{}", j.text(), rn.text()));
				}
				o.hit(if want { "renamed equal" } else { "renamed different" });
			}
		}

		// Comparison of JSON documents.
		use json_ld_core::utils::simple_json_ld_eq;
		let plain = |j: &J| !contains_json(j);
		if plain(&j) {
			if !simple_json_ld_eq(&j.to_js(), &sh.to_js()) {
				return fail("comparison of JSON depends on the order", format!("{}\n{}", j.text(), sh.text()));
			}
			let want = simple_norm(&j, false) == simple_norm(&small, false);
			if simple_json_ld_eq(&j.to_js(), &small.to_js()) != want {
				return fail("comparison of JSON", format!("{}\n{}", j.text(), small.text()));
			}
		}
	} else {
		o.hit("variants not accepted");
	}

	// Sets see equal objects as one.
	let mut twice = d.clone();
	for x in e.iter() {
		if twice.insert(x.clone()) {
			return fail("an equal object is inserted twice", js(x.clone()).text());
		}
	}
	o.seen(&j);
	V::Pass
}

fn contains_json(j: &J) -> bool {
	match j {
		J::Arr(a) => a.iter().any(contains_json),
		J::Obj(m) => m.iter().any(|(k, v)| (k == "@value" && !v.is_scalar()) || contains_json(v)),
		_ => false,
	}
}

fn simple_norm(j: &J, ordered: bool) -> J {
	match j {
		J::Arr(a) => {
			let mut v: Vec<J> = a.iter().map(|x| simple_norm(x, false)).collect();
			if !ordered {
				v.sort()
			}
			J::Arr(v)
		}
		J::Obj(m) => {
			let mut v: Vec<(String, J)> = m.iter().map(|(k, x)| (k.clone(), simple_norm(x, k == "@list"))).collect();
			v.sort();
			J::Obj(v)
		}
		o => o.clone(),
	}
}

fn print_case(mut r: Rng) -> J {
	let print = super::syn::options(&mut r);
	let mut c = case(r);
	c.set("print", print);
	c
}

/// Printed documents are their JSON form, in the layout of the JSON printer.
fn judge_print(c: &J, o: &mut Obs) -> V {
	use json_ld::print::Print;
	use json_ld::syntax::Parse;
	use rdf_types::vocabulary::IndexVocabulary;
	let d = match expanded(c) {
		Some(d) => d,
		None => return V::Skip("input not expandable"),
	};
	let opts = c.get("print").map(super::syn::opts_of).unwrap_or_else(json_syntax::print::Options::pretty);
	let opts = || opts.clone();
	let judge = |text: String, want: &json_syntax::Value, what: &str| -> Result<(), (String, String)> {
		let Ok((v, _)) = json_syntax::Value::parse_str(&text) else { return Err((format!("{what} does not parse"), text)) };
		if !json_syntax::BorrowUnordered::as_unordered(&v).eq(json_syntax::BorrowUnordered::as_unordered(want)) {
			return Err((format!("{what} is not its JSON form"), format!("{text}\n{}", J::from_js(want).text())));
		}
		let again = v.print_with(opts()).to_string();
		if again != text {
			return Err((format!("{what} is not laid out as JSON"), format!("{text}\n{again}")));
		}
		Ok(())
	};
	let mut voc: IndexVocabulary = Default::default();
	let j = drv::doc_json(&d);
	type Ix = rdf_types::vocabulary::IriIndex;
	type Bx = rdf_types::vocabulary::BlankIdIndex;
	let id = match <ExpandedDocument<Ix, Bx> as json_ld::TryFromJson<Ix, Bx>>::try_from_json_in(&mut voc, j.to_js()) {
		Ok(v) => v,
		Err(_) => return V::Skip("not read back"),
	};
	let r = (|| {
		let want = j.to_js();
		judge((&d).into_with(&()).print_with(opts()).to_string(), &want, "a printed document")?;
		// The sets of the other vocabulary have an order of their own.
		let want = id.clone().into_objects().into_with(&voc).into_json();
		judge((&id).into_with(&voc).print_with(opts()).to_string(), &want, "a document printed with a vocabulary")?;
		for x in d.iter() {
			if let Some(n) = x.inner().as_node() {
				let want = n.clone().into_with(&()).into_json();
				judge(n.into_with(&()).print_with(opts()).to_string(), &want, "a printed node")?;
				o.hit("nodes printed");
			}
		}
		Ok(())
	})();
	if let Err((a, b)) = r {
		return fail(&a, b);
	}
	o.hit(if c.get("print").is_some() { "printed with options" } else { "printed" });
	o.seen(&drv::doc_json(&d));
	V::Pass
}

fn ids_case(mut r: Rng) -> J {
	let f = |r: &mut Rng| match r.below(6) {
		0 => r.ps(&["@id", "@type", "@json", "@none", "@vocab", "@set", "@foo"]),
		1 => format!("_:{}", r.ps(&["a", "b", "0", "", "a b", "a.", "é", ":"])),
		2 => format!("{}{}", r.ps(&["http://ex.org/", "http://EX.org/", "urn:x:", "a:", "http://"]), r.ps(&["", "a", "b", "A", "%41", "a b", "é"])),
		_ => r.ps(&["", "a", "null", "x y", "_", "_:", "a:", ":a", "//a", "/a", "http://ex.org", "_:_", "urn:x"]),
	};
	J::Arr((0..4).map(|_| s(&f(&mut r))).collect())
}

/// Identifiers, terms and types against the text they stand for.
fn judge_ids(c: &J, o: &mut Obs) -> V {
	use indexmap::Equivalent;
	use json_ld::{Term, Type, ValidId};
	use rdf_types::vocabulary::{BlankIdVocabularyMut, IndexVocabulary, IriVocabularyMut};
	use std::convert::TryFrom;
	type I = Id<IriBuf, BlankIdBuf>;
	type T = Term<IriBuf, BlankIdBuf>;
	let list: Vec<String> = c.to_arr().iter().filter_map(|x| x.as_str().map(|x| x.to_string())).collect();
	let list: Vec<String> = list.into_iter().filter(|t| !ambiguous(&s(t))).collect();
	macro_rules! check {
		($e:expr, $w:expr, $t:expr) => {
			if !$e {
				return fail($w, format!("{} on {:?}", stringify!($e).split_whitespace().collect::<Vec<_>>().join(" "), $t));
			}
		};
	}
	let mut voc: IndexVocabulary = Default::default();
	// 0: IRI, 1: blank node identifier, 2: neither
	let kind = |t: &str| if iref::Iri::new(t).is_ok() { 0 } else if rdf_types::BlankId::new(t).is_ok() { 1 } else { 2 };
	for t in &list {
		let t = t.as_str();
		let k = kind(t);
		o.hit(["IRIs", "blank node identifiers", "invalid identifiers"][k]);
		o.seen(&t);
		let id = I::from_string(t.to_string());
		check!(id.is_iri() == (k == 0) && id.is_blank() == (k == 1) && id.is_valid() == (k != 2), "kind of an identifier", t);
		check!(id.as_iri().is_some() == (k == 0) && id.as_blank().is_some() == (k == 1) && id.clone().into_blank().is_some() == (k == 1), "kind of an identifier", t);
		check!(id.as_str() == t && id.to_string() == t && id.with(&()).as_str() == t && id.with(&()).to_string() == t, "text of an identifier", t);
		check!(js(id.clone()) == s(t), "text of an identifier", t);
		let r = id.as_ref();
		check!(matches!((&r, k), (json_ld::id::Ref::Iri(i), 0) if i.as_str() == t) || matches!((&r, k), (json_ld::id::Ref::Blank(b), 1) if b.as_str() == t) || matches!((&r, k), (json_ld::id::Ref::Invalid(x), 2) if *x == t), "reference to an identifier", t);
		let text: [Id<String, String>; 3] = [Id::iri(t.to_string()), Id::blank(t.to_string()), Id::Invalid(t.to_string())];
		check!(text.iter().all(|i| i.as_str() == t && *i == *t && *i != *"?"), "equality of an identifier with a text", t);
		check!(<ValidId<_, _>>::try_from(id.clone()).is_ok() == (k != 2) && <&ValidId<_, _>>::try_from(&id).is_ok() == (k != 2) && <&mut ValidId<_, _>>::try_from(&mut id.clone()).is_ok() == (k != 2), "valid identifiers", t);
		check!(I::try_from(id.clone().into_term()) == Ok(id.clone()) && T::from(id.clone()) == id && id == T::from(id.clone()), "an identifier as a term", t);
		let m = id.clone().map(|v| match v {
			ValidId::Iri(i) => ValidId::Blank(i),
			ValidId::Blank(b) => ValidId::Iri(b),
		});
		check!(m.as_str() == t && m.is_iri() == (k == 1) && m.is_blank() == (k == 0), "a mapped identifier", t);
		let byref: Id<&IriBuf, &BlankIdBuf> = (&id).into();
		check!(byref.is_iri() == (k == 0) && byref.is_blank() == (k == 1) && byref.as_str() == t, "reference to an identifier", t);
		if let Ok(v) = <ValidId<_, _>>::try_from(id.clone()) {
			check!(I::from(v.clone()) == id && v.equivalent(&id) && hash(&v) == hash(&id), "valid identifiers find the others", t);
		}
		if let Some(i) = id.as_iri() {
			check!(I::iri(i.clone()) == id && I::from(i.clone()) == id && id == *i && Equivalent::<I>::equivalent(i, &id) && Equivalent::<I>::equivalent(&i.as_iri(), &id), "IRIs find identifiers", t);
		}
		if let Some(b) = id.as_blank() {
			check!(I::blank(b.clone()) == id && Equivalent::<I>::equivalent(b, &id) && Equivalent::<I>::equivalent(b.as_blank_id_ref(), &id), "blank nodes find identifiers", t);
		}
		// in a vocabulary
		let x = Id::from_string_in(&mut voc, t.to_string());
		check!(x.is_iri() == (k == 0) && x.is_blank() == (k == 1) && x.with(&voc).as_str() == t && x.with(&voc).to_string() == t, "an identifier in a vocabulary", t);
		check!(J::from_js(&x.clone().into_with(&voc).into_json()) == s(t), "an identifier in a vocabulary", t);
		check!(x == Id::from_string_in(&mut voc, t.to_string()), "an identifier in a vocabulary", t);
		if let Ok(i) = iref::Iri::new(t) {
			check!(x == Id::iri(voc.insert(i)), "an identifier in a vocabulary", t);
		} else if let Ok(b) = rdf_types::BlankId::new(t) {
			check!(x == Id::blank(voc.insert_blank_id(b)), "an identifier in a vocabulary", t);
		}
		// terms
		let kw = json_ld::syntax::Keyword::try_from(t).ok();
		let term = kw.map(T::Keyword).unwrap_or(T::Id(id.clone()));
		check!(term.as_str() == t && term.to_string() == t && term.with(&()).as_str() == t && term.with(&()).to_string() == t && !term.is_null() && term.is_keyword() == kw.is_some(), "text of a term", t);
		let iri_term = kw.is_none() && k == 0;
		check!(term.as_iri().is_some() == iri_term && term.clone().into_iri().map_err(|e| e == term).map(|i| i.as_str() == t) == if iri_term { Ok(true) } else { Err(true) }, "IRI of a term", t);
		check!(term.clone().map_id(|i| i) == term && Term::<&IriBuf, &BlankIdBuf>::from(&term).as_iri().is_some() == iri_term, "a mapped term", t);
		check!((term == id) == kw.is_none() && I::try_from(term.clone()).is_ok() == kw.is_none(), "terms and identifiers", t);
		// types
		let ty = Type::try_from(term.clone());
		let valued = ["@id", "@json", "@none", "@vocab"].contains(&t) || iri_term;
		check!(ty.is_ok() == valued, "types", t);
		if let Ok(ty) = ty {
			check!(ty.as_str() == t && ty.to_string() == t && ty.as_iri().is_some() == iri_term && T::from(ty.clone()) == term && ty.clone().map(|x| x) == ty && Type::<&IriBuf>::from(&ty).cloned() == ty && ty.clone().into_iri().is_ok() == iri_term, "types", t);
		}
		let oty = json_ld::object::Type::from_reference(id.clone());
		let rty = json_ld::object::TypeRef::from_reference(&id);
		check!(oty.as_str() == t && oty.to_string() == t && rty.as_str() == t && rty.to_string() == t && oty == rty && rty == oty && hash(&rty) == hash(&oty) && oty.as_iri() == id.as_iri() && rty.as_iri() == id.as_iri() && rty.cloned() == oty && oty.clone().into_reference().ok() == Some(id.clone()), "types of objects", t);
		if let Some(i) = id.as_iri() {
			use json_ld::object::value;
			let vt = value::Type::Id(i.clone());
			check!(json_ld::object::Type::<_, BlankIdBuf>::from_value_type(vt) == oty && matches!(value::Type::Id(i.clone()).as_id(), Some(json_ld::id::Ref::Iri(x)) if x == i), "types of values", t);
		}
		let js: json_ld::object::Type<IriBuf, BlankIdBuf> = json_ld::object::Type::from_value_type(json_ld::object::value::Type::Json);
		check!(js != oty && js.as_str() == "@json" && js.to_string() == "@json" && js.as_iri().is_none() && js.into_reference().is_err(), "types of values", t);
	}
	check!(T::Null.is_null() && T::Null.as_str().is_empty() && T::Null.to_string() == "null" && !T::Null.is_keyword() && T::Null.into_iri().is_err(), "null", "");
	for a in &list {
		for b in &list {
			let (x, y) = (I::from_string(a.clone()), I::from_string(b.clone()));
			check!((x == y) == (a == b) && (x.cmp(&y) == std::cmp::Ordering::Equal) == (a == b) && x.cmp(&y) == y.cmp(&x).reverse() && x.partial_cmp(&y) == Some(x.cmp(&y)), "comparison of identifiers", (a, b));
			check!(a != b || hash(&x) == hash(&y), "hash of identifiers", (a, b));
			if let Some(i) = y.as_iri() {
				check!((x == *i) == (a == b) && Equivalent::<I>::equivalent(i, &x) == (a == b) && Equivalent::<I>::equivalent(&i.as_iri(), &x) == (a == b), "IRIs find identifiers", (a, b));
			}
			if let Some(i) = y.as_blank() {
				check!(Equivalent::<I>::equivalent(i, &x) == (a == b) && Equivalent::<I>::equivalent(i.as_blank_id_ref(), &x) == (a == b), "blank nodes find identifiers", (a, b));
			}
			if let Ok(v) = <ValidId<_, _>>::try_from(y.clone()) {
				check!(v.equivalent(&x) == (a == b), "valid identifiers find the others", (a, b));
			}
			let (p, q) = (Id::from_string_in(&mut voc, a.clone()), Id::from_string_in(&mut voc, b.clone()));
			check!((p == q) == (a == b), "identifiers in a vocabulary", (a, b));
			check!((T::from(x.clone()) == y) == (a == b) && (x == T::from(y.clone())) == (a == b) && (T::from(x) == T::from(y)) == (a == b), "equality of terms", (a, b));
		}
	}
	V::Pass
}

pub fn c10() -> Prop {
	Prop {
		id: "C10",
		level: "exploration",
		rule: "Generated expanded documents are written to JSON and read back; every accessor, entry and fragment of the data model is compared with the JSON form; mutated expanded JSON is rejected or kept as it is.",
		assumptions: &[],
		mons: vec![
			Mon { name: "form", gen: case, judge: judge_form, fixed: none, quick: 120000, threads: 0 },
			Mon { name: "mutant", gen: case, judge: judge_mutant, fixed: none, quick: 120000, threads: 0 },
			Mon { name: "print", gen: print_case, judge: judge_print, fixed: none, quick: 40000, threads: 0 },
		],
	}
}

pub fn c12() -> Prop {
	Prop {
		id: "C12",
		level: "exploration",
		rule: "Generated expanded documents are compared with shuffled, renamed and slightly changed versions of themselves; equality, hashes, equivalence, set membership, equality under a renaming and JSON comparison are judged by normal forms of their JSON.",
		assumptions: &[],
		mons: vec![
			Mon { name: "equality", gen: case, judge: judge_eq, fixed: none, quick: 120000, threads: 0 },
			Mon { name: "ids", gen: ids_case, judge: judge_ids, fixed: none, quick: 60000, threads: 0 },
		],
	}
}
