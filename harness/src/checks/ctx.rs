//! C02: the active contexts computed by context processing.
use super::util::*;
use crate::drv::{self, Out};
use crate::gen::{Gen, Profile, BASE};
use crate::json::{obj, s, J};
use crate::model::context::{self as mc, Ctx};
use crate::rng::Rng;
use crate::run::*;
use iref::IriBuf;
use json_ld::{Context, Nullable, Process as _, Term, Type};
use json_ld_context_processing::Options;
use json_ld_syntax::{context::Context as Syntax, TryFromJson};
use rdf_types::BlankIdBuf;

type Ct = Context<IriBuf, BlankIdBuf>;

fn opt(x: Option<String>) -> J {
	x.map(J::Str).unwrap_or(J::Null)
}

fn term_text(t: &Term<IriBuf, BlankIdBuf>) -> Option<String> {
	match t {
		Term::Null => None,
		t => Some(t.to_string()),
	}
}

pub fn ctx_json(c: &Syntax) -> J {
	J::from_js(&json_ld_syntax::IntoJson::into_json(c.clone()))
}

/// What can be observed of an active context.
pub fn dump_real(c: &Ct) -> J {
	let mut terms = vec![];
	for b in c.definitions().iter() {
		let d = b.definition();
		let mut cont: Vec<String> = d.container().iter().map(|k| k.as_str().to_string()).collect();
		cont.sort();
		let is_type = b.term().as_str() == "@type";
		terms.push((
			b.term().as_str().to_string(),
			obj(vec![
				("iri", if is_type { s("@type") } else { opt(d.value().and_then(term_text)) }),
				("prefix", J::Bool(d.prefix())),
				("protected", J::Bool(d.protected())),
				("reverse", J::Bool(d.reverse_property())),
				("base", opt(d.base_url().filter(|_| d.context().is_some()).map(|x| x.to_string()))),
				("context", d.context().map(ctx_json).unwrap_or(J::Null).sorted()),
				("container", J::Arr(cont.into_iter().map(J::Str).collect())),
				(
					"language",
					match d.language() {
						None => s("-"),
						Some(Nullable::Null) => J::Null,
						Some(Nullable::Some(l)) => s(l.as_str()),
					},
				),
				(
					"direction",
					match d.direction() {
						None => s("-"),
						Some(Nullable::Null) => J::Null,
						Some(Nullable::Some(l)) => s(l.as_str()),
					},
				),
				("index", opt(d.index().map(|i| i.as_str().to_string()))),
				("nest", opt(d.nest().map(|i| i.as_str().to_string()))),
				(
					"type",
					opt(d.typ().map(|t| match t {
						Type::Id => "@id".into(),
						Type::Json => "@json".into(),
						Type::None => "@none".into(),
						Type::Vocab => "@vocab".into(),
						Type::Iri(i) => i.to_string(),
					})),
				),
			]),
		));
	}
	terms.sort();
	obj(vec![
		("base", opt(c.base_iri().map(|x| x.to_string()))),
		("original", opt(c.original_base_url().map(|x| x.to_string()))),
		("vocab", opt(c.vocabulary().and_then(term_text))),
		("language", opt(c.default_language().map(|x| x.as_str().to_string()))),
		("direction", opt(c.default_base_direction().map(|x| x.as_str().to_string()))),
		("terms", J::Obj(terms)),
		("previous", c.previous_context().map(dump_real).unwrap_or(J::Null)),
	])
}

pub fn dump_model(c: &Ctx) -> J {
	let od = |x: &Option<Option<String>>| match x {
		None => s("-"),
		Some(None) => J::Null,
		Some(Some(l)) => s(l),
	};
	let mut terms: Vec<(String, J)> = c
		.terms
		.iter()
		.map(|(k, d)| {
			let cont: Vec<J> = d.container.iter().map(|x| s(x)).collect();
			(
				k.clone(),
				obj(vec![
					("iri", if k == "@type" { s("@type") } else { opt(d.iri.clone()) }),
					("prefix", J::Bool(d.prefix)),
					("protected", J::Bool(d.protected)),
					("reverse", J::Bool(d.reverse)),
					("base", opt(d.base_url.clone().filter(|_| d.context.is_some()))),
					("context", d.context.clone().unwrap_or(J::Null).sorted()),
					("container", J::Arr(cont)),
					("language", od(&d.lang)),
					("direction", od(&d.dir)),
					("index", opt(d.index.clone())),
					("nest", opt(d.nest.clone())),
					("type", opt(d.typ.clone())),
				]),
			)
		})
		.collect();
	terms.sort();
	obj(vec![
		("base", opt(c.base.clone())),
		("original", opt(c.original.clone())),
		("vocab", opt(c.vocab.clone())),
		("language", opt(c.lang.clone())),
		("direction", opt(c.dir.clone())),
		("terms", J::Obj(terms)),
		("previous", c.previous.as_ref().map(|p| dump_model(p)).unwrap_or(J::Null)),
	])
}

fn gen_ctx(mut r: Rng) -> J {
	let p = if r.pc(50) { Profile { odd: 0, ..Profile::random(&mut r) } } else { Profile::random(&mut r) };
	let mut g = Gen::new(r.fork(), Some(p));
	let n = 1 + r.below(3);
	let steps = (0..n)
		.map(|_| obj(vec![("context", g.context(0)), ("override", J::Bool(r.pc(15))), ("propagate", J::Bool(!r.pc(15)))]))
		.collect();
	let mut c = case_of(&g, J::Null);
	c.set("steps", J::Arr(steps));
	c.set("base", if r.pc(85) { s(BASE) } else { J::Null });
	c
}

fn old_ctx(mut r: Rng) -> J {
	let mut c = gen_ctx(r.fork());
	if let Some(J::Arr(a)) = c.get_mut("steps") {
		// Contexts, where `old` looks for them.
		for x in a {
			let v = x.remove("context").unwrap_or(J::Null);
			x.set("@context", v)
		}
	}
	let mut c = old(c, &mut r);
	if let Some(J::Arr(a)) = c.get_mut("steps") {
		for x in a {
			let v = x.remove("@context").unwrap_or(J::Null);
			x.set("context", v)
		}
	}
	c
}

fn process(active: &Ct, cx: &J, l: &drv::Rec, base: Option<&str>, over: bool, propagate: bool, v10: bool) -> Out<Ct> {
	drv::guard(|| {
		let c = match Syntax::try_from_json(cx.to_js()) {
			Ok(c) => c,
			Err(e) => return Out::Err(e.code().to_string(), e.to_string()),
		};
		let processing_mode = if v10 { json_ld_core::ProcessingMode::JsonLd1_0 } else { json_ld_core::ProcessingMode::JsonLd1_1 };
		let o = Options { override_protected: over, propagate, processing_mode, ..Default::default() };
		let r = match drv::block(c.process_full(&mut (), active, l, base.map(drv::iri), o, ())) {
			Ok(p) => Out::Ok(p.into_processed()),
			Err(e) => Out::Err(e.code().to_string(), e.to_string()),
		};
		r
	})
}

/// Scoped contexts are validated against the terms defined so far: their protected terms depend on the order of the
/// definitions, which the recommendation leaves open.
fn rejected_otherwise(env: &crate::model::Env, ctx: &Ctx, cx: &J, base: Option<&str>, op: mc::PO) -> bool {
	fn order(j: &J, rev: bool) -> J {
		match j {
			J::Arr(a) => J::Arr(a.iter().map(|x| order(x, rev)).collect()),
			J::Obj(m) => {
				let mut m: Vec<_> = m.iter().map(|(k, v)| (k.clone(), order(v, rev))).collect();
				if rev {
					m.reverse()
				}
				m.sort_by_key(|(k, _)| k != "@type");
				J::Obj(m)
			}
			x => x.clone(),
		}
	}
	[false, true].iter().any(|r| mc::process(env, ctx, &order(cx, *r), base, op).is_err())
}

fn judge_ctx(c: &J, o: &mut Obs) -> V {
	let docs = docs_of(c);
	let l = drv::Rec::new(&docs);
	let op = opts_of(c);
	let env = drv::env(&docs, &op);
	let base = c.get("base").and_then(|x| x.as_str());
	let mut real: Ct = Context::new(base.map(drv::iri));
	let mut model = Ctx::new(base);
	let mut rejected = false;
	for (i, st) in c.get("steps").map(|x| x.to_arr()).unwrap_or_default().iter().enumerate() {
		let flag = |k: &str, d: bool| match st.get(k) {
			Some(J::Bool(b)) => *b,
			_ => d,
		};
		let (over, propagate) = (flag("override", false), flag("propagate", true));
		let cx = st.get("context").cloned().unwrap_or(J::Null);
		let r = process(&real, &cx, &l, base, over, propagate, op.v10);
		let m = mc::process(&env, &model, &cx, base, mc::PO { over, propagate, ..Default::default() });
		match (r, m) {
			(Out::Panic(p), _) => return fail("context processing panics", p),
			(Out::Ok(a), Ok(b)) => {
				let (x, y) = (dump_real(&a), dump_model(&b));
				if x != y {
					return fail("active context differs", format!("step {i}\nreal  {}\nmodel {}", x.text(), y.text()));
				}
				o.hit("processed");
				o.add("terms", a.len() as u64);
				if a.previous_context().is_some() {
					o.hit("with previous context");
				}
				if a.len() > 0 {
					o.seen(&x);
				}
				real = a;
				model = b;
			}
			(Out::Err(..), Err(e)) => {
				o.hit("rejected");
				rejected = true;
				o.hit(&format!("error {}", e.0));
				break;
			}
			(_, Err(e)) if e.0.starts_with("model:") => return V::Skip("undecided by the recommendation"),
			(Out::Ok(a), Err(e)) => return fail("context accepted", format!("step {i}: model error {}\nreal {}", e.0, dump_real(&a).text())),
			(Out::Err(code, _), Ok(_)) if code == "invalid scoped context" && rejected_otherwise(&env, &model, &cx, base, mc::PO { over, propagate, ..Default::default() }) => {
				return V::Skip("validity of a scoped context depends on the order of the definitions")
			}
			(Out::Err(code, msg), Ok(_)) => return fail("context rejected", format!("step {i}: real error {code}: {msg}")),
		}
	}
	features(c, o);
	let loads = l.loads();
	let ml = env.loads.borrow().clone();
	// A processor may validate a context before it dereferences what it refers to.
	if !rejected && loads.is_empty() != ml.is_empty() {
		return fail("dereferenced documents differ", format!("real {loads:?}\nmodel {ml:?}"));
	}
	o.add("dereferenced contexts", loads.len() as u64);
	V::Pass
}

// --- the exported definition of a context gives the same context

fn strip(mut d: J) -> J {
	d.remove("previous");
	d.remove("original");
	if let Some(J::Obj(ts)) = d.get_mut("terms") {
		for (_, t) in ts {
			t.remove("base");
			// Not used by the terms whose values are identifiers, and an
			// explicit type hides it.
			if t.get("type") == Some(&s("@id")) && t.get("container").map_or(false, |c| c.to_arr().contains(&s("@type"))) {
				t.remove("language");
				t.remove("direction");
			}
		}
	}
	d
}

fn judge_export(c: &J, o: &mut Obs) -> V {
	let docs = docs_of(c);
	let l = drv::Rec::new(&docs);
	let base = c.get("base").and_then(|x| x.as_str());
	let mut real: Ct = Context::new(base.map(drv::iri));
	for st in c.get("steps").map(|x| x.to_arr()).unwrap_or_default() {
		match process(&real, &st.get("context").cloned().unwrap_or(J::Null), &l, base, false, true, false) {
			Out::Ok(a) => real = a,
			_ => return V::Skip("rejected context"),
		}
	}
	let d0 = strip(dump_real(&real));
	let def = match drv::guard(|| Out::Ok(real.clone().into_syntax_definition(&()))) {
		Out::Ok(d) => d,
		Out::Panic(p) => return fail("export panics", p),
		_ => unreachable!(),
	};
	let j = J::from_js(&json_ld_syntax::IntoJson::into_json(def));
	// Scoped contexts are relative to the place they come from.
	if d0.text().contains("\"context\":") && d0.get("terms").map_or(false, |t| t.as_obj().unwrap().iter().any(|(_, t)| t.get("context") != Some(&J::Null))) {
		return V::Skip("scoped contexts");
	}
	// A compact IRI which does not expand to its mapping (the prefix was
	// redefined, or is not usable as a prefix) cannot be defined explicitly.
	if let Some(J::Obj(ts)) = d0.get("terms") {
		let odd = |k: &str, d: &J| match k.split_once(':') {
			Some((p, x)) => ts.iter().any(|(t, pd)| {
				t == p && (pd.get("prefix") == Some(&J::Bool(false)) || d.get("iri").and_then(|i| i.as_str()) != Some(&format!("{}{x}", pd.get("iri").and_then(|i| i.as_str()).unwrap_or(""))))
			}),
			None => false,
		};
		if ts.iter().any(|(k, d)| odd(k, d)) {
			return V::Skip("compact IRI term with another meaning");
		}
	}
	// Neither can a mapping whose text has another meaning in the context.
	if let Some(J::Obj(ts)) = d0.get("terms") {
		let is_term = |k: &str| ts.iter().any(|(t, _)| t == k);
		let odd = |v: &J| {
			v.as_str().map_or(false, |v| !v.starts_with('@') && (is_term(v) || v.split_once(':').map_or(false, |(p, x)| !x.starts_with("//") && is_term(p))))
		};
		if d0.get("vocab").map_or(false, odd) || ts.iter().any(|(_, d)| ["iri", "type", "index"].iter().any(|k| d.get(k).map_or(false, odd))) {
			return V::Skip("mapping to an IRI with another meaning");
		}
	}
	// Without base IRI, the one of the place where it is used applies.
	let b0 = if real.base_iri().is_some() { base } else { None };
	match process(&Context::new(b0.map(drv::iri)), &j, &l, base, false, true, false) {
		Out::Ok(b) => {
			let d1 = strip(dump_real(&b));
			if d0 != d1 {
				return fail("exported context differs", format!("context {}\nexported {}\nagain {}", d0.text(), j.text(), d1.text()));
			}
			o.hit("exported");
			if b.len() > 0 {
				o.seen(&d0);
			}
			V::Pass
		}
		Out::Err(a, b) => fail("exported context rejected", format!("context {}\nexported {}\nerror {a}: {b}", d0.text(), j.text())),
		Out::Panic(p) => fail("panic", p),
	}
}

pub fn c02() -> Prop {
	Prop {
		id: "C02",
		level: "exploration",
		rule: "Sequences of generated contexts (local, remote, imported, scoped, protected, non-propagated, malformed) are processed with random options; every observable part of each active context (base, vocabulary, defaults, all term definitions, previous context) equals that of the reference model, or both reject the context. Distinct: the active contexts with at least one term.",
		assumptions: &[],
		mons: vec![
			Mon { name: "context", gen: gen_ctx, judge: judge_ctx, fixed: none, quick: 400000, threads: 0 },
			Mon { name: "mode", gen: old_ctx, judge: judge_ctx, fixed: none, quick: 60000, threads: 0 },
			Mon { name: "export", gen: gen_ctx, judge: judge_export, fixed: none, quick: 100000, threads: 0 },
		],
	}
}
