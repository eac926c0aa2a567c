//! C16: hostile inputs are answered, and what is answered is well formed.
use super::util::*;
use crate::drv::{self, Out};
use crate::gen::{Gen, Profile, BASE, TERMS};
use crate::json::{n, obj, s, J};
use crate::rng::Rng;
use crate::run::*;
use std::collections::BTreeMap;

pub const KW: &[&str] = &[
	"@id", "@type", "@value", "@language", "@direction", "@index", "@list", "@set", "@graph", "@reverse", "@included", "@nest", "@context", "@json", "@none", "@vocab", "@base", "@version", "@import", "@propagate", "@protected", "@prefix", "@container",
];
const ODD: &[&str] = &[
	"", " ", "@", "@foo", "@Id", "_:", "_:b", "_:b 0", "_", ":", "a:", ":a", "a:b", "a:b:c", "a:/b", "a://b", "http:", "http://", "http://[", "http://ex.org/%zz", "http://ex.org/ space", "//", "//h", "/", "/a/../..", "..", "../../../../x", ".", "?", "?q", "#", "#f", "%", "\u{0}", "\u{10FFFF}", "é", "😀", "a\nb", "\"", "\\", "en", "en-", "-", "x", "x-y", "en_US", "i-klingon", "und-001", "rtl", "ltr", "true", "null", "1.1", "json-ld-1.1", "ex:", "ex:a/b", "v", "v:x", "http://base.org", "http://ex.org/ns#", "urn:x:", "urn:x:a", "@json", "@none", "http://www.w3.org/1999/02/22-rdf-syntax-ns#nil", "http://www.w3.org/1999/02/22-rdf-syntax-ns#type", "https://www.w3.org/ns/i18n#en_rtl", "javascript:alert(1)", "data:,x", "c0", "c1",
];
const NUMS: &[&str] = &["0", "-0", "1", "-1", "1.0", "1.1", "0.1e-7", "1e21", "1E+2", "1e400", "-1e400", "1e-400", "123456789012345678901234567890", "9007199254740993", "18446744073709551616", "-9223372036854775809", "1.7976931348623157e308", "4.9e-324", "100000000000000000000.5", "5e-1"];

fn text(r: &mut Rng) -> String {
	match r.below(7) {
		0 | 1 => r.ps(KW),
		2 | 3 => r.ps(ODD),
		4 => r.ps(TERMS),
		5 => r.ps(crate::gen::IRIS),
		_ => match r.below(6) {
			0 => "x".repeat(1 + r.below(3000)),
			1 => format!("{}:{}", r.ps(ODD), r.ps(ODD)),
			2 => format!("{}{}", r.ps(KW), r.ps(ODD)),
			3 => format!("http://ex.org/{}", r.ps(ODD)),
			4 => format!("{}{}", "../".repeat(r.below(40)), r.ps(ODD)),
			_ => (0..r.below(6)).map(|_| char::from_u32(r.below(0x500) as u32).unwrap_or('?')).collect(),
		},
	}
}

fn key(r: &mut Rng) -> String {
	match r.below(10) {
		0..=5 => r.ps(KW),
		6 => r.ps(TERMS),
		_ => text(r),
	}
}

pub fn junk(r: &mut Rng, depth: usize) -> J {
	match r.below(if depth == 0 { 8 } else { 14 }) {
		0 => J::Null,
		1 => J::Bool(r.pc(50)),
		2 => J::Num(r.ps(NUMS)),
		3..=6 => J::Str(text(r)),
		7 => if r.pc(50) { J::Arr(vec![]) } else { J::new_obj() },
		8..=10 => J::Arr((0..r.below(4)).map(|_| junk(r, depth - 1)).collect()),
		_ => {
			let mut m = vec![];
			for _ in 0..1 + r.below(4) {
				let k = key(r);
				if !m.iter().any(|(a, _)| *a == k) {
					m.push((k, junk(r, depth - 1)));
				}
			}
			J::Obj(m)
		}
	}
}

fn paths(j: &J, p: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
	out.push(p.clone());
	match j {
		J::Arr(a) => {
			for (i, x) in a.iter().enumerate() {
				p.push(i);
				paths(x, p, out);
				p.pop();
			}
		}
		J::Obj(m) => {
			for (i, (_, x)) in m.iter().enumerate() {
				p.push(i);
				paths(x, p, out);
				p.pop();
			}
		}
		_ => (),
	}
}

fn at<'a>(j: &'a mut J, path: &[usize]) -> &'a mut J {
	let mut j = j;
	for i in path {
		j = match j {
			J::Arr(a) => &mut a[*i],
			J::Obj(m) => &mut m[*i].1,
			_ => unreachable!(),
		}
	}
	j
}

/// Damages `j` at a random place.
pub fn damage(r: &mut Rng, j: &mut J, dup: bool) {
	let mut ps = vec![];
	paths(j, &mut vec![], &mut ps);
	let p = r.pick(&ps).clone();
	let other = at(&mut j.clone(), r.pick(&ps)).clone();
	let x = at(j, &p);
	match r.below(12) {
		0 | 1 => *x = junk(r, 2),
		2 => *x = other,
		3 => *x = J::Arr(vec![x.clone()]),
		4 => *x = J::Obj(vec![(key(r), x.clone())]),
		5 => {
			let d = 1 + r.below(30);
			let k = if r.pc(60) { Some(key(r)) } else { None };
			for _ in 0..d {
				*x = match &k {
					Some(k) => J::Obj(vec![(k.clone(), x.clone())]),
					None => J::Arr(vec![x.clone()]),
				}
			}
		}
		6 | 7 => {
			if let J::Obj(m) = x {
				if m.is_empty() {
					return;
				}
				let i = r.below(m.len());
				let k = key(r);
				if dup || !m.iter().any(|(a, _)| *a == k) {
					m[i].0 = k
				}
			} else {
				*x = J::Str(text(r))
			}
		}
		8 | 9 => {
			if let J::Obj(m) = x {
				let k = key(r);
				if dup || !m.iter().any(|(a, _)| *a == k) {
					let v = if r.pc(30) { other } else { junk(r, 2) };
					let i = r.below(m.len() + 1);
					m.insert(i, (k, v))
				}
			} else if let J::Arr(a) = x {
				let i = r.below(a.len() + 1);
				let v = if r.pc(50) { other } else { junk(r, 2) };
				a.insert(i, v)
			}
		}
		10 => {
			if let J::Obj(m) = x {
				if !m.is_empty() {
					let i = r.below(m.len());
					if dup && r.pc(50) {
						let e = m[i].clone();
						m.push(e)
					} else {
						m.remove(i);
					}
				}
			} else if let J::Arr(a) = x {
				if !a.is_empty() {
					let i = r.below(a.len());
					if r.pc(50) {
						let e = a[i].clone();
						a.push(e)
					} else {
						a.remove(i);
					}
				}
			}
		}
		_ => *x = J::Str(text(r)),
	}
}

fn opts(r: &mut Rng) -> J {
	let mut o = vec![];
	match r.below(8) {
		0 => o.push(("url", J::Null)),
		1 => o.push(("url", s(*r.pick(&["urn:x:y", "http://h", "http://h?q", "http://ex.org/a/b/../c", "file:///a", "a:", "data:,x", "http://[::1]/x"])))),
		_ => (),
	}
	if r.pc(15) {
		o.push(("base", s(*r.pick(&["urn:x:y", "http://h", "http://h#f", "http://ex.org/a/b/../c", BASE, "a:"]))));
	}
	for k in ["v10", "ordered", "generalized"] {
		if r.pc(15) {
			o.push((k, b(true)))
		}
	}
	for k in ["compactArrays", "compactToRelative"] {
		if r.pc(20) {
			o.push((k, b(false)))
		}
	}
	if r.pc(40) {
		o.push(("rdfDirection", s(*r.pick(&["i18n-datatype", "compound-literal"]))));
	}
	if r.pc(15) {
		o.push(("policy", J::Arr(vec![s(*r.pick(&["keep", "drop", "reject"])), s(*r.pick(&["keep", "drop", "reject"])), b(r.pc(50))])));
	}
	obj(o)
}

fn context_of(d: &J) -> J {
	d.get("@context").cloned().unwrap_or(J::new_obj())
}

fn gen_hostile(mut r: Rng) -> J {
	let mut p = Profile::random(&mut r);
	p.size = 4 + r.below(10);
	if r.pc(40) {
		p.remote = true;
	}
	let dup = r.pc(20);
	let mut c = doc_case_with(r.fork(), Some(p));
	let kind = r.below(5);
	if kind == 0 {
		let d = 1 + r.below(5);
		c.set("doc", junk(&mut r, d));
	} else if let Some(d) = c.get_mut("doc") {
		for _ in 0..1 + r.below(4) {
			damage(&mut r, d, dup)
		}
	}
	if let Some(J::Obj(ds)) = c.get_mut("docs") {
		for (_, d) in ds.iter_mut() {
			if r.pc(40) {
				damage(&mut r, d, dup)
			}
		}
	}
	let mut x = match r.below(4) {
		0 => context_of(&doc_case(r.fork()).get("doc").cloned().unwrap_or(J::Null)),
		1 => junk(&mut r, 4),
		_ => context_of(c.get("doc").unwrap()),
	};
	if r.pc(60) {
		damage(&mut r, &mut x, dup)
	}
	c.set("context", x);
	let mut o = opts(&mut r);
	if r.pc(10) {
		o.set("expandContext", junk(&mut r, 3));
	}
	c.set("opts", o);
	c
}

/// Is `e` a well formed expanded document?
pub fn well_formed(e: &J) -> Result<(), String> {
	let a = e.as_arr().ok_or("the document is not an array")?;
	a.iter().try_for_each(|x| object(x, true))
}

fn string(v: &J, k: &str) -> Result<(), String> {
	v.as_str().map(|_| ()).ok_or(format!("{k} is not a string: {v}"))
}

fn object(x: &J, top: bool) -> Result<(), String> {
	let m = x.as_obj().ok_or(format!("not an object: {x}"))?;
	for (i, (k, _)) in m.iter().enumerate() {
		if m[..i].iter().any(|(a, _)| a == k) {
			return Err(format!("duplicate key {k}: {x}"));
		}
	}
	if x.has("@value") {
		for (k, v) in m {
			match k.as_str() {
				"@value" => {
					if x.get("@type") != Some(&s("@json")) && !v.is_scalar() {
						return Err(format!("value is not a scalar: {x}"));
					}
				}
				"@type" | "@language" | "@index" => string(v, k)?,
				"@direction" => {
					if *v != s("ltr") && *v != s("rtl") {
						return Err(format!("bad direction: {x}"));
					}
				}
				_ => return Err(format!("entry {k} in a value: {x}")),
			}
		}
		let lang = x.has("@language") || x.has("@direction");
		if lang && (x.has("@type") || !x.get("@value").unwrap().is_str()) {
			return Err(format!("bad language string: {x}"));
		}
		return Ok(());
	}
	if let Some(l) = x.get("@list") {
		for (k, v) in m {
			match k.as_str() {
				"@list" => (),
				"@index" => string(v, k)?,
				_ => return Err(format!("entry {k} in a list: {x}")),
			}
		}
		let _ = top;
		return l.as_arr().ok_or(format!("list is not an array: {x}"))?.iter().try_for_each(|y| object(y, false));
	}
	node(x)
}

fn node(x: &J) -> Result<(), String> {
	if x.has("@value") || x.has("@list") {
		return Err(format!("a node is expected: {x}"));
	}
	let m = x.as_obj().ok_or(format!("not an object: {x}"))?;
	for (k, v) in m {
		let arr = || v.as_arr().ok_or(format!("entry {k} is not an array: {v}"));
		match k.as_str() {
			"@id" | "@index" => string(v, k)?,
			"@type" => arr()?.iter().try_for_each(|t| string(t, k))?,
			"@graph" => arr()?.iter().try_for_each(|y| object(y, true))?,
			"@included" => arr()?.iter().try_for_each(node)?,
			"@reverse" => {
				for (p, v) in v.as_obj().ok_or(format!("reverse is not an object: {v}"))? {
					if crate::model::is_kw(p) {
						return Err(format!("keyword as reverse property: {x}"));
					}
					v.as_arr().ok_or(format!("entry {p} is not an array: {v}"))?.iter().try_for_each(node)?
				}
			}
			k if crate::model::is_kw(k) => return Err(format!("entry {k} in a node: {x}")),
			_ => arr()?.iter().try_for_each(|y| object(y, false))?,
		}
	}
	Ok(())
}

fn id_ok(t: &J, blank: bool) -> bool {
	match t.as_str() {
		Some(t) if t.starts_with("_:") => blank && rdf_types::BlankId::new(t).is_ok(),
		Some(t) => iref::Iri::new(t).is_ok(),
		None => false,
	}
}

pub fn quad_ok(q: &J, generalized: bool) -> bool {
	let Some([sb, p, o, g]) = q.as_arr().map(|a| a.as_slice()) else { return false };
	id_ok(sb, true)
		&& id_ok(p, generalized)
		&& (!o.is_str() || id_ok(o, true))
		&& (*g == J::Null || id_ok(g, true))
}

fn codes(code: &str) -> bool {
	json_ld::syntax::ErrorCode::try_from(code).is_ok() || code == "invalid expanded json"
}

fn answered<T>(what: &str, x: &Out<T>, o: &mut Obs) -> Option<V> {
	match x {
		Out::Panic(p) => {
			let class = p.rsplit(" at ").next().unwrap_or("").to_string();
			Some(fail(&format!("{what} panics at {class}"), format!("{what} panics: {p}")))
		}
		Out::Err(c, m) => {
			if !codes(c) {
				return Some(fail("no code", format!("{what}: the error {c:?} has no code ({m})")));
			}
			if m.is_empty() {
				return Some(fail("no message", format!("{what}: the error {c:?} has no message")));
			}
			o.hit(&format!("{what} rejected: {c}"));
			None
		}
		Out::Ok(_) => {
			o.hit(&format!("{what} accepted"));
			None
		}
	}
}

fn judge_hostile(c: &J, o: &mut Obs) -> V {
	let (doc, docs, op) = (doc_of(c), docs_of(c), opts_of(c));
	if op.url.as_deref().map_or(false, |u| iref::Iri::new(u).is_err()) || op.base.as_deref().map_or(false, |u| iref::Iri::new(u).is_err()) {
		return V::Skip("not an IRI");
	}
	let cx = c.get("context").cloned().unwrap_or(J::Null);
	let l = drv::Rec::new(&docs);
	macro_rules! check {
		($w:expr, $x:expr) => {{
			let x = $x;
			if let Some(f) = answered($w, &x, o) {
				return f;
			}
			x
		}};
	}
	// Contexts on their own.
	let syn = check!("context", drv::guard(|| match drv::context_ref(&cx) {
		Ok(r) => Out::Ok(r),
		Err(e) => {
			let (a, b) = e.split_once('|').unwrap_or((&e, ""));
			Out::Err(a.to_string(), b.to_string())
		}
	}));
	if let Out::Ok(json_ld::RemoteContextReference::Loaded(d)) = syn {
		check!("context printing", drv::guard(|| {
			use json_ld::Print;
			let x = json_ld::syntax::IntoJson::into_json(d.document().clone());
			let t = d.document().pretty_print().to_string();
			let u = d.document().compact_print().to_string();
			for y in [&t, &u] {
				use json_syntax::Parse;
				match json_syntax::Value::parse_str(y) {
					Ok((y, _)) if J::from_js(&y) == J::from_js(&x) => (),
					_ => return Out::Err("".into(), format!("printed context {y}")),
				}
			}
			Out::Ok(())
		}));
	}
	// Expansion.
	let e = check!("expansion", drv::expand(&doc, &l, &op));
	if let Out::Ok(e) = &e {
		if let Err(m) = well_formed(e) {
			return fail("ill formed", format!("{m} in {e}"));
		}
		o.seen(&e.text());
		// What was expanded is an expanded document, and its own expansion.
		match check!("reading back", drv::parse_expanded(e)) {
			Out::Ok(d) => {
				let f = drv::doc_json(&d);
				if crate::norm::expanded(&f) != crate::norm::expanded(e) {
					return fail("read back", format!("{e} is read back as {f}"));
				}
			}
			_ => return fail("read back", format!("{e} is not read back")),
		}
	}
	let q = check!("rdf", drv::to_rdf(&doc, &l, &op));
	if let Out::Ok(q) = &q {
		if let Some(q) = q.iter().find(|q| !quad_ok(q, op.generalized)) {
			return fail("bad quad", format!("{q}"));
		}
	}
	let f = check!("flattening", drv::flatten(&doc, None, &l, &op));
	if let Out::Ok(f) = &f {
		if let Err(m) = well_formed(f) {
			return fail("ill formed flat", format!("{m} in {f}"));
		}
	}
	check!("compaction", drv::compact(&doc, &cx, &l, &op));
	check!("flattening and compaction", drv::flatten(&doc, Some(&cx), &l, &op));
	// The document as an expanded document.
	if let Out::Ok(d) = check!("reading", drv::parse_expanded(&doc)) {
		check!("operations on a document", drv::guard(|| {
			use json_ld::Print as _;
			let _ = format!("{:?}", d);
			let e = drv::doc_json(&d);
			if let Err(m) = well_formed(&e) {
				return Out::Err("".into(), m);
			}
			let mut x = d.clone();
			let mut g = rdf_types::generator::Blank::new();
			x.relabel(&mut g);
			x.canonicalize();
			let _ = x == d;
			let _ = json_ld::Flatten::flatten(x.clone(), rdf_types::generator::Blank::new(), true).is_ok();
			let _ = d.blank_ids().len() + d.traverse().count();
			let _ = J::from_js(&doc.to_js()).to_js().compact_print().to_string();
			Out::Ok(())
		}));
	}
	// Comparison: reflexive, even when keys are duplicated.
	let same = check!("comparison", drv::guard(|| {
		use json_ld::syntax::Compare;
		let a = doc.to_js();
		Out::Ok((a.compare(&a), a.compare(&cx.to_js()), cx.to_js().compare(&a)))
	}));
	if let Out::Ok((r, x, y)) = same {
		if x != y {
			return fail("comparison", "comparison is not symmetric".into());
		}
		if !r && !duplicates(&doc) {
			return fail("comparison", "a document differs from itself".into());
		}
	}
	V::Pass
}

fn duplicates(d: &J) -> bool {
	match d {
		J::Arr(a) => a.iter().any(duplicates),
		J::Obj(m) => m.iter().enumerate().any(|(i, (k, v))| m[..i].iter().any(|(a, _)| a == k) || duplicates(v)),
		_ => false,
	}
}

/// Deeply nested documents, within the depth the operations are meant for.
fn gen_deep(mut r: Rng) -> J {
	let depth = 8 + r.below(MAX_DEPTH - 8);
	let k1 = r.ps(&["http://ex.org/p", "p", "@list", "@set", "@graph", "@included", "@nest", "l", "g", "@reverse", "n", "i", "[", "m"]);
	let k2 = if r.pc(50) { k1.clone() } else { r.ps(&["http://ex.org/p", "p", "@list", "@graph", "@included", "l", "g", "r", "[", "sc"]) };
	let mut x = match r.below(4) {
		0 => J::new_obj(),
		1 => obj(vec![("@id", s("urn:x:end"))]),
		2 => obj(vec![("@value", s("v"))]),
		_ => s("v"),
	};
	let json = r.pc(10);
	for i in 0..depth {
		let k = if i % 2 == 0 { &k1 } else { &k2 };
		x = match k.as_str() {
			"[" => J::Arr(vec![x]),
			"@reverse" => obj(vec![("@reverse", obj(vec![("http://ex.org/p", x)]))]),
			"m" => obj(vec![("m", obj(vec![("key", x)]))]),
			k => obj(vec![(k, x)]),
		}
	}
	if json {
		x = obj(vec![("http://ex.org/p", obj(vec![("@type", s("@json")), ("@value", x)]))]);
	}
	let mut cx = J::new_obj();
	for (t, d) in [
		("p", obj(vec![("@id", s("http://ex.org/p"))])),
		("l", obj(vec![("@id", s("http://ex.org/l")), ("@container", s("@list"))])),
		("g", obj(vec![("@id", s("http://ex.org/g")), ("@container", s("@graph"))])),
		("i", obj(vec![("@id", s("@included"))])),
		("n", s("@nest")),
		("r", obj(vec![("@reverse", s("http://ex.org/r"))])),
		("m", obj(vec![("@id", s("http://ex.org/m")), ("@container", s(*r.pick(&["@index", "@id", "@type", "@language"])))])),
		("sc", obj(vec![("@id", s("http://ex.org/sc")), ("@context", obj(vec![("sc2", s("http://ex.org/sc2"))]))])),
	] {
		cx.set(t, d)
	}
	if r.pc(30) {
		// Nested scoped contexts.
		let mut c = J::new_obj();
		for _ in 0..depth {
			c = obj(vec![("p", obj(vec![("@id", s("http://ex.org/p")), ("@context", c)]))]);
		}
		cx = c;
	}
	if let J::Obj(m) = &mut x {
		if r.pc(90) {
			m.insert(0, ("@context".into(), cx.clone()))
		}
	}
	obj(vec![("doc", x), ("context", cx), ("docs", J::new_obj()), ("depth", n(depth as i64))])
}

/// Levels of nesting every operation is expected to withstand on a stack of
/// 8 MB, unoptimised.
pub const MAX_DEPTH: usize = 128;

fn judge_deep(c: &J, o: &mut Obs) -> V {
	let c = c.clone();
	let mut inner = Obs::default();
	let (v, inner) = std::thread::Builder::new()
		.stack_size(8 << 20)
		.spawn(move || {
			let v = judge_hostile(&c, &mut inner);
			(v, inner)
		})
		.unwrap()
		.join()
		.unwrap();
	for (k, n) in inner.counters {
		o.add(&k, n)
	}
	o.distinct.extend(inner.distinct);
	v
}

/// Wide documents: many members, values, terms or nodes.
fn gen_wide(mut r: Rng) -> J {
	let size = 300 + r.below(3000);
	let shape = r.below(12);
	let mut cx = obj(vec![("@vocab", s("http://ex.org/")), ("l", obj(vec![("@container", s("@list"))])), ("i", obj(vec![("@container", s("@index"))])), ("lg", obj(vec![("@container", s("@language"))])), ("d", obj(vec![("@container", s("@id"))])), ("g", obj(vec![("@container", s("@graph"))]))]);
	let id = |i: usize| s(&format!("http://ex.org/n{i}"));
	let each = |f: &mut dyn FnMut(usize) -> J| J::Arr((0..size).map(f).collect());
	let map = |f: &mut dyn FnMut(usize) -> (String, J)| J::Obj((0..size).map(f).collect());
	let mut doc = match shape {
		0 => map(&mut |i| (format!("p{i}"), s("v"))),
		1 => obj(vec![("p", each(&mut |i| n(i as i64)))]),
		2 => obj(vec![("l", each(&mut |i| s(&format!("v{i}"))))]),
		3 => obj(vec![("i", map(&mut |i| (format!("k{i}"), s("v"))))]),
		4 => obj(vec![("lg", map(&mut |i| (format!("x-{i}"), s("v"))))]),
		5 => obj(vec![("d", map(&mut |i| (format!("k{i}"), J::new_obj())))]),
		6 => obj(vec![("@graph", each(&mut |i| obj(vec![("@id", id(i)), ("p", obj(vec![("@id", id((i * 7 + 1) % size))]))])))]),
		7 => obj(vec![("@graph", each(&mut |i| obj(vec![("p", s(&format!("v{}", i % 50)))])))]),
		8 => obj(vec![("@type", each(&mut |i| s(&format!("T{i}"))))]),
		9 => obj(vec![("@reverse", obj(vec![("p", each(&mut |i| obj(vec![("@id", id(i % 300))])))]))]),
		10 => {
			for i in 0..size {
				cx.set(&format!("t{i}"), if i % 3 == 0 { obj(vec![("@id", s(&format!("http://ex.org/t{}", i % 40))), ("@language", s(&format!("x-{i}")))]) } else { s(&format!("p{i}")) });
			}
			map(&mut |i| (format!("t{i}"), s("v")))
		}
		_ => obj(vec![("g", each(&mut |i| obj(vec![("@id", id(i % 100)), ("p", s("v"))])))]),
	};
	if let J::Obj(m) = &mut doc {
		m.insert(0, ("@context".into(), cx.clone()))
	}
	obj(vec![("doc", doc), ("context", cx), ("docs", J::new_obj())])
}

/// Contexts which refer to other contexts, possibly without end.
struct Gen2 {
	shape: String,
	n: usize,
	log: std::sync::Mutex<usize>,
}

impl json_ld::Loader for Gen2 {
	async fn load(&self, url: &iref::Iri) -> json_ld::LoadingResult<iref::IriBuf> {
		*self.log.lock().unwrap() += 1;
		let i: usize = url.as_str().rsplit('/').next().and_then(|x| x.parse().ok()).unwrap_or(0);
		let next = s(&format!("http://gen.org/{}", i + 1));
		let end = i + 1 >= self.n;
		let x = if end {
			obj(vec![("t", s("http://ex.org/t"))])
		} else {
			match self.shape.as_str() {
				"chain" => next,
				"array" => J::Arr(vec![obj(vec![(&format!("t{i}"), s("http://ex.org/u"))]), next]),
				"first" => J::Arr(vec![next, obj(vec![(&format!("t{i}"), s("http://ex.org/u"))])]),
				"scoped" => obj(vec![("t", obj(vec![("@id", s("http://ex.org/t")), ("@context", next)]))]),
				"back" => J::Arr(vec![s(&format!("http://gen.org/{}", i / 2)), next]),
				_ => obj(vec![("@import", next)]),
			}
		};
		Ok(json_ld::RemoteDocument::new(Some(url.to_owned()), None, obj(vec![("@context", x)]).to_js()))
	}
}

fn gen_chain(mut r: Rng) -> J {
	let len = *r.pick(&[1, 2, 3, 5, 8, 10, 20, 200, 1000, 0, 0]);
	obj(vec![("shape", s(*r.pick(&["chain", "array", "first", "scoped", "import", "back"]))), ("n", n(len)), ("where", s(*r.pick(&["doc", "compact", "expandContext", "nested", "term"])))])
}

/// Remote contexts nested this deep are accepted by every processor we know.
const NESTED_OK: usize = 10;

fn judge_chain(c: &J, o: &mut Obs) -> V {
	use json_ld::JsonLdProcessor;
	let shape = c.get("shape").and_then(|x| x.as_str()).unwrap_or("chain").to_string();
	let len: usize = c.get("n").map_or(0, |x| x.text().parse().unwrap_or(0));
	let wh = c.get("where").and_then(|x| x.as_str()).unwrap_or("doc").to_string();
	let endless = len == 0;
	let l = Gen2 { shape: shape.clone(), n: if endless { usize::MAX } else { len }, log: Default::default() };
	let (wh2, l2) = (wh.clone(), &l);
	let first = s("http://gen.org/0");
	let f = move || {
		let cx = first;
		let plain = obj(vec![("http://ex.org/t", s("x")), ("t", s("x"))]);
		let doc = match wh2.as_str() {
			"doc" => obj(vec![("@context", cx.clone()), ("t", s("x"))]),
			"nested" => obj(vec![("http://ex.org/p", obj(vec![("@context", cx.clone()), ("t", s("x"))]))]),
			"term" => obj(vec![("@context", obj(vec![("q", obj(vec![("@id", s("http://ex.org/q")), ("@context", cx.clone())]))])), ("q", obj(vec![("t", s("x"))]))]),
			_ => plain,
		};
		let rd = drv::remote(&doc, &drv::Opts::default());
		drv::guard(|| match wh2.as_str() {
			"compact" => match drv::block(rd.compact(drv::context_ref(&cx).unwrap(), l2)) {
				Ok(d) => Out::Ok(J::from_js(&d)),
				Err(e) => Out::Err(e.code().to_string(), e.to_string()),
			},
			"expandContext" => {
				let op = json_ld::Options { expand_context: Some(drv::context_ref(&cx).unwrap()), ..Default::default() };
				match drv::block(rd.expand_using(l2, op)) {
					Ok(d) => Out::Ok(drv::doc_json(&d)),
					Err(e) => Out::Err(e.code().to_string(), e.to_string()),
				}
			}
			_ => match drv::block(rd.expand(l2)) {
				Ok(d) => Out::Ok(drv::doc_json(&d)),
				Err(e) => Out::Err(e.code().to_string(), e.to_string()),
			},
		})
	};
	let out = std::thread::scope(|sc| std::thread::Builder::new().stack_size(8 << 20).spawn_scoped(sc, f).unwrap().join().unwrap());
	if let Some(f) = answered(&format!("{shape} contexts"), &out, o) {
		return f;
	}
	let loads = *l.log.lock().unwrap();
	o.add("contexts loaded", loads as u64);
	o.seen(&(shape.clone(), len, wh));
	match &out {
		Out::Err(code, m) => {
			let legit = match shape.as_str() {
				"import" => len != 1,
				_ => false,
			};
			if !endless && len <= NESTED_OK && !legit {
				return fail("refused", format!("{len} {shape} contexts are refused: {code} {m}"));
			}
			if !legit && code != "context overflow" && code != "invalid scoped context" {
				return fail("code", format!("{len} {shape} contexts: {code} {m}"));
			}
		}
		Out::Ok(x) => {
			if endless && matches!(shape.as_str(), "chain" | "array" | "first") {
				return fail("endless", format!("an endless chain of contexts is accepted: {x}"));
			}
		}
		_ => (),
	}
	V::Pass
}

pub fn c16() -> Prop {
	Prop {
		id: "C16",
		level: "exploration",
		rule: "no operation panics, aborts or runs on; errors have a code and a message; accepted documents expand to well formed documents and valid quads",
		assumptions: &["nesting is at most 128 levels on a stack of 8 MB; parsing of the JSON text is left to json-syntax", "remote contexts do not branch endlessly"],
		mons: vec![
			Mon { name: "hostile", gen: gen_hostile, judge: judge_hostile, fixed: none, quick: 60_000, threads: 0 },
			Mon { name: "deep", gen: gen_deep, judge: judge_deep, fixed: none, quick: 4_000, threads: 0 },
			Mon { name: "wide", gen: gen_wide, judge: judge_hostile, fixed: none, quick: 96, threads: 0 },
			Mon { name: "chain", gen: gen_chain, judge: judge_chain, fixed: none, quick: 600, threads: 0 },
		],
	}
}

#[allow(dead_code)]
fn _u(_: BTreeMap<String, J>, _: Gen) {}
