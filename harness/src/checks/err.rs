//! C03: documents with a single fault are rejected with the code of the fault.
use super::util::*;
use crate::drv::{self, Out};
use crate::gen::{Gen, Profile, TERMS};
use crate::json::{n, obj, s, J};
use crate::model;
use crate::rng::Rng;
use crate::run::*;

/// Paths to the objects of a document: (path, inside of a context).
fn objects(j: &J, path: &mut Vec<usize>, ctx: bool, out: &mut Vec<(Vec<usize>, bool, bool)>, def: bool) {
	match j {
		J::Arr(a) => {
			for (i, x) in a.iter().enumerate() {
				path.push(i);
				objects(x, path, ctx, out, def);
				path.pop();
			}
		}
		J::Obj(m) => {
			out.push((path.clone(), ctx, def));
			for (i, (k, x)) in m.iter().enumerate() {
				path.push(i);
				if k == "@context" {
					objects(x, path, true, out, false);
				} else if ctx {
					objects(x, path, true, out, !def);
				} else {
					objects(x, path, false, out, false);
				}
				path.pop();
			}
		}
		_ => (),
	}
}

fn at<'a>(j: &'a mut J, path: &[usize]) -> &'a mut J {
	let mut j = j;
	for i in path {
		j = match j {
			J::Arr(a) => &mut a[*i],
			J::Obj(m) => &mut m[*i].1,
			_ => unreachable!(),
		}
	}
	j
}

fn put(m: &mut J, k: &str, v: J, pos: usize) {
	if let J::Obj(m) = m {
		m.retain(|(a, _)| a != k);
		let i = pos % (m.len() + 1);
		m.insert(i, (k.to_string(), v));
	}
}

fn wrong(r: &mut Rng) -> J {
	match r.below(6) {
		0 => n(3),
		1 => J::Bool(r.pc(50)),
		2 => J::Arr(vec![n(1)]),
		3 => J::new_obj(),
		4 => s("_:b"),
		_ => J::Arr(vec![s("a"), J::Null]),
	}
}

/// Objects of a kind (0: data, 1: contexts, 2: term definitions).
fn places(j: &J, kind: usize) -> Vec<Vec<usize>> {
	let mut v = vec![];
	objects(j, &mut vec![], false, &mut v, false);
	v.into_iter().filter(|(_, c, d)| match kind { 0 => !*c, 1 => *c && !*d, _ => *c && *d }).map(|x| x.0).collect()
}

/// Puts the fault of the case in its document, or in its remote contexts.
fn inject(c: &J) -> Option<(J, J)> {
	let (mut doc, mut docs) = (doc_of(c), c.get("docs").cloned().unwrap_or(J::new_obj()));
	let f = c.get("fault")?;
	let num = |k: &str| f.get(k).and_then(|x| if let J::Num(n) = x { n.parse::<usize>().ok() } else { None });
	let kind = num("kind")?;
	let target = if f.get("remote") == Some(&J::Bool(true)) { &mut docs } else { &mut doc };
	let ps = places(target, kind);
	if ps.is_empty() {
		return None;
	}
	put(at(target, &ps[num("n")? % ps.len()]), f.get("key")?.as_str()?, f.get("value")?.clone(), num("pos")?);
	Some((doc, docs))
}

fn fault(doc: &J, docs: &J, r: &mut Rng) -> J {
	let remote = !places(docs, 1).is_empty() && r.pc(25);
	let target = if remote { docs } else { doc };
	let mut kind = r.below(3);
	if remote && kind == 0 {
		kind = 1;
	}
	if places(target, kind).is_empty() {
		kind = if remote { 1 } else { 0 };
	}
	let (ctx, def) = (kind > 0, kind == 2);
	let t = r.ps(TERMS);
	let w = wrong(r);
	let (k, v): (String, J) = if !ctx {
		match r.below(32) {
			0 => ("@id".into(), w),
			1 => ("@type".into(), w),
			2 => ("@value".into(), s("x")),
			3 => ("@language".into(), w),
			4 => ("@direction".into(), s("up")),
			5 => ("@index".into(), w),
			6 => ("@reverse".into(), w),
			7 => ("@reverse".into(), obj(vec![("@id", s("http://ex.org/x"))])),
			8 => ("@reverse".into(), obj(vec![("http://ex.org/r", s("lit"))])),
			9 => ("@included".into(), s("x")),
			10 => ("@included".into(), obj(vec![("@value", s("x"))])),
			11 => ("@nest".into(), w),
			12 => ("@nest".into(), obj(vec![("@value", s("x"))])),
			13 => ("@list".into(), J::Arr(vec![])),
			14 => ("@set".into(), J::Arr(vec![])),
			15 => ("@context".into(), n(1)),
			16 => ("@context".into(), s("http://ctx.org/missing")),
			17 => ("@graph".into(), w),
			18 => (t, obj(vec![("@value", J::Arr(vec![s("x")]))])),
			19 => (t, obj(vec![("@value", s("x")), ("@id", s("http://ex.org/x"))])),
			20 => (t, obj(vec![("@value", s("x")), ("@type", s("http://ex.org/t")), ("@language", s("en"))])),
			21 => (t, obj(vec![("@value", n(1)), ("@language", s("en"))])),
			22 => (t, obj(vec![("@value", s("x")), ("@type", s("_:t"))])),
			23 => (t, obj(vec![("@value", s("x")), ("@direction", s("up"))])),
			24 => (t, obj(vec![("@list", s("x")), ("@id", s("http://ex.org/x"))])),
			25 => (t, obj(vec![("@set", s("x")), ("@type", s("http://ex.org/x"))])),
			26 => (t, obj(vec![("@value", s("x")), ("@language", n(1))])),
			27 => (t, obj(vec![("@value", s("x")), ("@index", n(1))])),
			28 => ("@context".into(), obj(vec![("a", obj(vec![("@id", s("b:x"))])), ("b", obj(vec![("@id", s("a:x"))]))])),
			29 => ("@context".into(), J::Null),
			30 => ("id".into(), w),
			_ => (t, obj(vec![("@value", s("x")), ("@type", n(1))])),
		}
	} else if !def {
		match r.below(24) {
			0 => ("@base".into(), n(1)),
			1 => ("@base".into(), s("http://[bad")),
			2 => ("@vocab".into(), n(1)),
			3 => ("@vocab".into(), s("http://[bad")),
			4 => ("@language".into(), n(1)),
			5 => ("@direction".into(), s("up")),
			6 => ("@version".into(), J::Num(r.ps(&["1.0", "1", "2"]))),
			7 => ("@version".into(), s("1.1")),
			8 => ("@propagate".into(), s("x")),
			9 => ("@protected".into(), s("x")),
			10 => ("@import".into(), n(1)),
			11 => ("@import".into(), s("http://ctx.org/missing")),
			12 => ("".into(), s("http://ex.org/e")),
			13 => (t, n(1)),
			14 => (t, J::Arr(vec![])),
			15 => (t, s("@context")),
			16 => (r.ps(&["@id", "@value", "@list", "@container"]), s("http://ex.org/kw")),
			17 => ("@type".into(), r.pick(&[s("http://ex.org/kw"), J::new_obj(), obj(vec![("@container", s("@list"))]), obj(vec![("@id", s("http://ex.org/kw"))])]).clone()),
			18 => (t.clone(), s(&format!("{t}:x"))),
			19 => ("zz".into(), s("not-an-iri")),
			20 => ("zz".into(), J::new_obj()),
			21 => (format!("{}:zz", r.ps(crate::gen::PREFIXES)), s("http://other.org/zz")),
			22 => ("@type".into(), w),
			_ => ("@container".into(), s("@list")),
		}
	} else {
		match r.below(30) {
			0 => ("@id".into(), n(1)),
			1 => ("@id".into(), s("@context")),
			2 => ("@id".into(), s("http://[bad")),
			3 => ("@type".into(), n(1)),
			4 => ("@type".into(), s("_:b")),
			5 => ("@type".into(), s("rel")),
			6 => ("@type".into(), s("@list")),
			7 => ("@container".into(), s("@bad")),
			8 => ("@container".into(), n(1)),
			9 => ("@container".into(), J::Arr(vec![s("@list"), s("@set")])),
			10 => ("@container".into(), J::Arr(vec![s("@graph"), s("@language")])),
			11 => ("@container".into(), J::Arr(vec![s("@index"), s("@id")])),
			12 => ("@language".into(), n(1)),
			13 => ("@direction".into(), s("up")),
			14 => ("@index".into(), s("http://ex.org/k")),
			15 => ("@index".into(), n(1)),
			16 => ("@nest".into(), s("@id")),
			17 => ("@nest".into(), n(1)),
			18 => ("@prefix".into(), s("x")),
			19 => ("@prefix".into(), J::Bool(true)),
			20 => ("@protected".into(), s("x")),
			21 => ("@context".into(), n(1)),
			22 => ("@context".into(), obj(vec![("@vocab", n(1))])),
			23 => ("@context".into(), obj(vec![("zz", s("not-an-iri"))])),
			24 => ("@context".into(), s("http://ctx.org/missing")),
			25 => ("@reverse".into(), s("http://ex.org/r")),
			26 => ("@reverse".into(), n(1)),
			27 => ("@reverse".into(), s("not-an-iri")),
			28 => ("@foo".into(), n(1)),
			_ => ("@container".into(), s("@type")),
		}
	};
	obj(vec![
		("remote", J::Bool(remote)),
		("kind", n(kind as i64)),
		("n", n(r.below(1000) as i64)),
		("pos", n(r.below(1000) as i64)),
		("key", s(&k)),
		("value", v),
	])
}

fn gen_err(mut r: Rng) -> J {
	let p = Profile { odd: 0, ..Profile::random(&mut r) };
	let mut g = Gen::new(r.fork(), Some(p));
	let d = g.document();
	let mut c = case_of(&g, d);
	let f = fault(&doc_of(&c), c.get("docs").unwrap_or(&J::Null), &mut r);
	c.set("fault", f);
	c
}

/// The same, in the processing mode of JSON-LD 1.0.
fn gen_old(mut r: Rng) -> J {
	let p = Profile { odd: 0, ..Profile::random(&mut r) };
	let mut g = Gen::new(r.fork(), Some(p));
	let d = g.document();
	let mut c = super::util::old(case_of(&g, d), &mut r);
	let f = fault(&doc_of(&c), c.get("docs").unwrap_or(&J::Null), &mut r);
	c.set("fault", f);
	c
}

/// When several errors are found, the first reported one depends on the
/// order in which the steps are done.
fn same(model: &str, real: &str) -> bool {
	model == "colliding keywords"
		|| real == "colliding keywords"
		|| (model == "invalid reverse property" && matches!(real, "invalid IRI mapping" | "invalid container mapping" | "invalid @nest value"))
		|| (model == "invalid term definition" && real == "invalid @prefix value")
		|| (model == "invalid @protected value" && real == "keyword redefinition")
		|| (model == "invalid value object" && real == "invalid typed value")
}

/// What the processing mode of JSON-LD 1.0 rejects may be read, and found malformed, before.
fn read_before(model: &str, real: &str) -> bool {
	matches!(model, "invalid context entry" | "invalid term definition" | "keyword redefinition" | "processing mode conflict" | "invalid scoped context" | "invalid container mapping" | "invalid type mapping" | "invalid value object value")
		&& real.starts_with("invalid ")
}

/// Faults that change the way in which the values of a term are read: what
/// is wrong next depends on the order.
fn changes_values(c: &J) -> bool {
	c.get("fault").map_or(false, |f| f.get("key") == Some(&s("@container")) && f.get("value") == Some(&s("@type")))
}

fn judge_err(c: &J, o: &mut Obs) -> V {
	let op = opts_of(c);
	let base = base_of(&op);
	let mo = model::expand::Opt { base: base.as_deref(), expand_context: op.expand_context.as_ref() };
	if model::expand::expand(&drv::env(&docs_of(c), &op), &doc_of(c), &mo).is_err() {
		return V::Skip("already invalid");
	}
	let (doc, docs) = match inject(c) {
		Some((d, J::Obj(m))) => (d, m.into_iter().collect()),
		_ => return V::Skip("nowhere to put the fault"),
	};
	let l = drv::Rec::new(&docs);
	let r = drv::expand(&doc, &l, &op);
	let m = model::expand::expand(&drv::env(&docs, &op), &doc, &mo);
	match (&r, &m) {
		(Out::Panic(p), _) => fail("expansion panics", p.clone()),
		(_, Err(e)) if e.0.starts_with("model:") => V::Skip("undecided by the recommendation"),
		(Out::Ok(_), Ok(_)) => {
			o.hit("harmless");
			V::Pass
		}
		(Out::Err(code, msg), Err(e)) => {
			if code != e.0 && !same(e.0, code) && !changes_values(c) && !(op.v10 && read_before(e.0, code)) {
				return fail(&format!("real {code}, model {}", e.0), format!("{}\n{msg}", doc.text()));
			}
			o.hit(&format!("error {code}"));
			o.seen(&doc.sorted());
			V::Pass
		}
		// Known limitation: under `@nest`, set and list objects are ignored.
		(Out::Ok(_), Err(e)) if e.0 == "invalid set or list object" && c.text().contains("\"@nest\"") => V::Skip("set or list nested"),
		(Out::Ok(a), Err(e)) => fail(&format!("accepted: {}", e.0), format!("{}\nreal  {}\nmodel error {}", doc.text(), a.text(), e.0)),
		(Out::Err(code, msg), Ok(b)) => fail(&format!("rejected: {code}"), format!("{}\nreal error {code}: {msg}\nmodel {}", doc.text(), b.text())),
	}
}

/// Any damage at all.
fn gen_damaged(mut r: Rng) -> J {
	let mut p = Profile::random(&mut r);
	p.size = 4 + r.below(8);
	p.odd = 0;
	let mut c = doc_case_with(r.fork(), Some(p));
	let remote = r.pc(20) && c.get("docs").and_then(|d| d.as_obj()).map_or(false, |d| !d.is_empty());
	if remote {
		if let Some(J::Obj(ds)) = c.get_mut("docs") {
			let i = r.below(ds.len());
			super::safe::damage(&mut r, &mut ds[i].1, false)
		}
	} else if let Some(d) = c.get_mut("doc") {
		super::safe::damage(&mut r, d, false)
	}
	c
}

/// References which begin with a colon, contexts which are blank nodes.
fn odd_text(d: &J) -> bool {
	match d {
		J::Str(v) => v.starts_with(':'),
		J::Arr(a) => a.iter().any(odd_text),
		J::Obj(m) => m.iter().any(|(k, v)| k.starts_with(':') || odd_text(v)
			|| (k == "@base" && v.as_str().map_or(false, |v| v.contains("//") && !v[v.find("//").unwrap() + 2..].contains('/')))
			 || (k == "@context" && v.to_arr().iter().any(|x| x.as_str().map_or(false, |x| x.starts_with("_:"))))),
		_ => false,
	}
}

fn judge_damaged(c: &J, o: &mut Obs) -> V {
	// The resolution of dot segments is that of the iref library.
	if c.text().replace("://", "").contains("//") || c.text().contains("..") || c.text().contains("\".\"") {
		return V::Skip("dot segments");
	}
	if odd_text(c) || super::util::ambiguous(c) {
		return V::Skip("odd references");
	}
	if super::util::odd_blank(c) {
		return V::Skip("malformed blank node identifier");
	}
	if c.text().contains("\"@nest\"") && (c.text().contains("\"@set\"") || c.text().contains("\"@list\"")) {
		return V::Skip("set or list nested");
	}
	let op = opts_of(c);
	let base = base_of(&op);
	let mo = model::expand::Opt { base: base.as_deref(), expand_context: op.expand_context.as_ref() };
	let docs = docs_of(c);
	let doc = doc_of(c);
	let l = drv::Rec::new(&docs);
	let r = drv::expand(&doc, &l, &op);
	let m = model::expand::expand(&drv::env(&docs, &op), &doc, &mo);
	match (&r, &m) {
		(Out::Panic(p), _) => fail("expansion panics", p.clone()),
		(_, Err(e)) if e.0.starts_with("model:") => V::Skip("undecided by the recommendation"),
		(Out::Ok(a), Ok(b)) => {
			let (x, y) = (crate::norm::expanded(a), crate::norm::expanded(b));
			if x != y {
				return fail("result", format!("{}\nreal  {x}\nmodel {y}", doc.text()));
			}
			o.hit("accepted");
			V::Pass
		}
		(Out::Err(code, _), Err(_)) => {
			o.hit(&format!("error {code}"));
			o.seen(&doc.sorted());
			V::Pass
		}
		(Out::Ok(a), Err(e)) => fail(&format!("accepted: {}", e.0), format!("{}\nreal  {}\nmodel error {}", doc.text(), a.text(), e.0)),
		(Out::Err(_, msg), Ok(_)) if msg.contains("Invalid IRI reference") => V::Skip("odd references"),
		(Out::Err(code, msg), Ok(b)) => fail(&format!("rejected: {code}"), format!("{}\nreal error {code}: {msg}\nmodel {}", doc.text(), b.text())),
	}
}

pub fn c03() -> Prop {
	Prop {
		id: "C03",
		level: "exploration",
		rule: "A single fault of a catalogue of about ninety is put at a random place of a generated valid document or of one of its remote contexts; expansion fails if and only if the reference model does, with the same error code; any other damage is accepted or rejected as by the model, with the same result. Distinct: the rejected documents.",
		assumptions: &[],
		mons: vec![
			Mon { name: "fault", gen: gen_err, judge: judge_err, fixed: none, quick: 300000, threads: 0 },
			Mon { name: "mode", gen: gen_old, judge: judge_err, fixed: none, quick: 60000, threads: 0 },
			Mon { name: "damaged", gen: gen_damaged, judge: judge_damaged, fixed: none, quick: 200000, threads: 0 },
		],
	}
}
