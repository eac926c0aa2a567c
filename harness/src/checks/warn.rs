//! C22: what is reported to the warning handler.
use super::util::*;
use crate::drv::{self, Out};
use crate::gen::{Gen, Profile, BASE};
use crate::json::{obj, s, J};
use crate::model;
use crate::rng::Rng;
use crate::run::*;
use iref::IriBuf;
use json_ld::{Context, JsonLdProcessor as _, Process as _};
use json_ld_syntax::TryFromJson;
use rdf_types::BlankIdBuf;
use std::collections::BTreeSet;

type CtxWarning = json_ld::context_processing::Warning;
type ExpWarning = json_ld::expansion::Warning<BlankIdBuf>;

/// The warnings received: kind, what they are about, text.
#[derive(Default)]
struct Heard(Vec<(&'static str, String, String)>);

impl<N> json_ld::warning::Handler<N, CtxWarning> for Heard {
	fn handle(&mut self, _: &N, w: CtxWarning) {
		let t = w.to_string();
		self.0.push(match w {
			CtxWarning::KeywordLikeTerm(x) => ("term", x, t),
			CtxWarning::KeywordLikeValue(x) => ("value", x, t),
			CtxWarning::MalformedIri(x) => ("iri", x, t),
		})
	}
}

impl<N: rdf_types::Vocabulary<BlankId = BlankIdBuf>> json_ld::warning::Handler<N, ExpWarning> for Heard {
	fn handle(&mut self, v: &N, w: ExpWarning) {
		use contextual::WithContext;
		let t = w.to_string();
		let u = w.with(v).to_string();
		self.0.push(match w {
			ExpWarning::MalformedIri(x) => ("iri", x, t),
			ExpWarning::EmptyTerm => ("empty", String::new(), t),
			ExpWarning::BlankNodeIdProperty(b) => ("blank", b.to_string(), u),
			ExpWarning::MalformedLanguageTag(x, _) => ("lang", x, t),
		})
	}
}

const BAD: &[&str] = &["e n", "en_US", "fr--be", "en-", "?", "abcdefghijk"];
const GOOD: &[&str] = &["en", "fr-BE", "zh-Hant-TW", "de-1996", "x-priv", "en-a-bbb"];

fn keyword_like(k: &str) -> bool {
	k.len() > 1 && k.starts_with('@') && k[1..].chars().all(|c| c.is_ascii_alphabetic())
}

const KEYWORDS: &[&str] = &[
	"@base", "@container", "@context", "@default", "@direction", "@embed", "@explicit", "@first", "@graph", "@id", "@import", "@included", "@index", "@json",
	"@language", "@list", "@nest", "@none", "@null", "@omitDefault", "@prefix", "@preserve", "@propagate", "@protected", "@requireAll", "@reverse", "@set",
	"@type", "@value", "@version", "@vocab", "@any", "@always", "@last", "@link", "@never", "@once",
];

fn unknown_keyword(k: &str) -> bool {
	keyword_like(k) && !KEYWORDS.contains(&k)
}

/// What every warning must be.
fn sane(h: &Heard, text: &str) -> Option<V> {
	for (kind, x, shown) in &h.0 {
		let bad = match *kind {
			"term" | "value" => !unknown_keyword(x) || !text.contains(&format!("{}", s(x).text())),
			"iri" => model::iri::is_iri(x),
			"lang" => GOOD.contains(&x.as_str()) || x.chars().all(|c| c.is_ascii_alphabetic()) && x.len() == 2,
			"blank" => !x.starts_with("_:"),
			_ => !text.contains("\"\""),
		};
		if bad {
			return Some(fail(&format!("unfounded warning {kind}"), format!("{shown}")));
		}
		if !shown.contains(x.as_str()) || shown.trim().is_empty() {
			return Some(fail(&format!("text of warning {kind}"), format!("`{shown}` does not tell `{x}`")));
		}
	}
	None
}

// --- expansion

fn spice(r: &mut Rng, j: &mut J, top: bool) {
	match j {
		J::Arr(a) => a.iter_mut().for_each(|x| spice(r, x, top)),
		J::Obj(m) => {
			for (k, v) in m.iter_mut() {
				if k != "@context" && !v.has("@json") {
					spice(r, v, false)
				}
			}
			let value = m.iter().any(|(k, _)| matches!(k.as_str(), "@value" | "@list" | "@set" | "val" | "list" | "set"));
			if value || !r.pc(if top { 70 } else { 12 }) {
				return;
			}
			let mut put = |k: &str, v: J| {
				if !m.iter().any(|(x, _)| x == k) {
					m.push((k.into(), v))
				}
			};
			let tag = |r: &mut Rng| s(if r.pc(60) { r.pick(BAD) } else { r.pick(GOOD) });
			match r.below(7) {
				0 | 1 => put("http://ex.org/w1", obj(vec![("@value", s("v")), ("@language", tag(r))])),
				2 => {
					let t = tag(r);
					put(
						"http://ex.org/w2",
						obj(vec![
							("@context", obj(vec![("warnlm", obj(vec![("@id", s("http://ex.org/lm")), ("@container", s("@language"))]))])),
							("warnlm", J::Obj(vec![(t.as_str().unwrap().into(), s("v"))])),
						]),
					)
				}
				3 => put(r.pick(&["_:wp", "_:wq"]), s("v")),
				4 => put("", s("v")),
				5 => put("wq q", s("v")),
				_ => put("http://ex.org/w3", obj(vec![("@type", s(r.pick(&["wt t", "_:t", "w{t}"])))])),
			}
		}
		_ => (),
	}
}

fn gen_doc(mut r: Rng) -> J {
	let p = Profile { odd: 0, ..Profile::random(&mut r) };
	let mut c = doc_case_with(r.fork(), Some(p));
	if let Some(d) = c.get_mut("doc") {
		spice(&mut r, d, true)
	}
	let mut o = J::new_obj();
	if r.pc(15) {
		o.set("url", J::Null)
	}
	c.set("opts", o);
	c
}

/// What the result shows that must have been warned about.
fn due(j: &J, text: &str, out: &mut BTreeSet<(&'static str, String)>) {
	fn id(x: &str, text: &str, out: &mut BTreeSet<(&'static str, String)>) {
		if !x.contains(':') && !x.starts_with('@') && text.contains(&s(x).text()) {
			out.insert(("iri", x.into()));
		}
	}
	match j {
		J::Arr(a) => a.iter().for_each(|x| due(x, text, out)),
		J::Obj(m) if j.has("@value") => {
			if let Some((_, J::Str(l))) = m.iter().find(|(k, _)| k == "@language") {
				if BAD.contains(&l.as_str()) {
					out.insert(("lang", l.clone()));
				}
			}
		}
		J::Obj(m) => {
			for (k, v) in m {
				match k.as_str() {
					"@type" => v.to_arr().iter().filter_map(|x| x.as_str()).for_each(|x| id(x, text, out)),
					"@reverse" => {
						for (k, v) in v.as_obj().map(|x| &x[..]).unwrap_or(&[]) {
							id(k, text, out);
							due(v, text, out)
						}
					}
					"@id" => (),
					_ => {
						id(k, text, out);
						if rdf_types::BlankId::new(k.as_str()).is_ok() && !text.contains("@reverse") {
							out.insert(("blank", k.clone()));
						}
						due(v, text, out)
					}
				}
			}
		}
		_ => (),
	}
}

fn judge_expand(c: &J, o: &mut Obs) -> V {
	let (doc, docs, op) = (doc_of(c), docs_of(c), opts_of(c));
	let text = c.text();
	let l = drv::Rec::new(&docs);
	let silent = drv::expand(&doc, &l, &op);
	let mut h = Heard::default();
	let r = drv::guard(|| {
		let op2 = match drv::options(&op) {
			Ok(x) => x,
			Err(e) => return Out::Err("context".into(), e),
		};
		match drv::block(drv::remote(&doc, &op).expand_full(&mut (), &l, op2, &mut h)) {
			Ok(d) => Out::Ok(drv::doc_json(&d)),
			Err(e) => Out::Err(e.code().to_string(), e.to_string()),
		}
	});
	let x = match (silent, r) {
		(_, Out::Panic(p)) => return fail("expansion panics", p),
		(Out::Ok(a), Out::Ok(b)) => {
			if crate::norm::expanded(&a) != crate::norm::expanded(&b) {
				return fail("result depends on the handler", format!("{a}\n{b}"));
			}
			b
		}
		(Out::Err(..), Out::Err(..)) => return sane(&h, &text).unwrap_or(V::Skip("rejected")),
		(a, b) => return fail("result depends on the handler", format!("{} {}", matches!(a, Out::Ok(_)), matches!(b, Out::Ok(_)))),
	};
	if let Some(v) = sane(&h, &text) {
		return v;
	}
	let mut want = BTreeSet::new();
	due(&x, &text, &mut want);
	// The entries of the outermost object are always looked at.
	for d in doc.to_arr() {
		if d.has("@value") || d.has("@list") || d.has("@set") || d.as_obj().map_or(true, |m| m.len() < 2) {
			continue;
		}
		if d.has("") {
			want.insert(("empty", String::new()));
		}
		if d.has("wq q") && !x.text().contains("wq q") {
			want.insert(("iri", "wq q".into()));
		}
	}
	let heard: BTreeSet<(&str, String)> = h.0.iter().map(|(k, x, _)| (*k, x.clone())).collect();
	for (k, x) in &want {
		if !heard.contains(&(*k, x.clone())) {
			return fail(&format!("missing warning {k}"), format!("`{x}` in {}\nheard {heard:?}", doc.text()));
		}
		o.hit(&format!("warned about {k}"));
	}
	if !want.is_empty() {
		o.seen(&want);
		o.seen(&x.sorted());
	}
	V::Pass
}

// --- contexts

fn gen_context(mut r: Rng) -> J {
	let p = Profile { odd: 0, ..Profile::random(&mut r) };
	let mut g = Gen::new(r.fork(), Some(p));
	let mut cx = g.context(0);
	fn defs(r: &mut Rng, j: &mut J) {
		match j {
			J::Arr(a) => a.iter_mut().for_each(|x| defs(r, x)),
			J::Obj(m) => {
				for _ in 0..r.below(3) {
					let k = *r.pick(&["@foo", "@barBaz", "@ignored", "wk1", "wk2", "wk3"]);
					if m.iter().any(|(x, _)| x == k) {
						continue;
					}
					let kw = *r.pick(&["@foo", "@quux", "@Id", "http://ex.org/wk"]);
					let v = match r.below(4) {
						0 => s(kw),
						1 => obj(vec![("@id", s(kw))]),
						2 => obj(vec![("@reverse", s(kw))]),
						_ => obj(vec![("@id", s(kw)), ("@type", s("@id"))]),
					};
					let at = r.below(m.len() + 1);
					m.insert(at, (k.into(), v))
				}
			}
			_ => (),
		}
	}
	defs(&mut r, &mut cx);
	let mut c = case_of(&g, J::Null);
	c.set("context", cx);
	c
}

fn judge_context(c: &J, o: &mut Obs) -> V {
	let docs = docs_of(c);
	let l = drv::Rec::new(&docs);
	let text = c.text();
	let cx = c.get("context").cloned().unwrap_or(J::Null);
	let syntax = match json_ld_syntax::context::Context::try_from_json(cx.to_js()) {
		Ok(x) => x,
		Err(_) => return V::Skip("not a context"),
	};
	let active: Context<IriBuf, BlankIdBuf> = Context::new(Some(drv::iri(BASE)));
	let mut h = Heard::default();
	let r = drv::guard(|| match drv::block(syntax.process_full(&mut (), &active, &l, Some(drv::iri(BASE)), Default::default(), &mut h)) {
		Ok(p) => Out::Ok(super::ctx::dump_real(&p.into_processed())),
		Err(e) => Out::Err(e.code().to_string(), e.to_string()),
	});
	let q = drv::guard(|| match drv::block(syntax.process_full(&mut (), &active, &l, Some(drv::iri(BASE)), Default::default(), ())) {
		Ok(p) => Out::Ok(super::ctx::dump_real(&p.into_processed())),
		Err(e) => Out::Err(e.code().to_string(), e.to_string()),
	});
	match (r, q) {
		(Out::Panic(p), _) => return fail("context processing panics", p),
		(Out::Ok(a), Out::Ok(b)) => {
			if a != b {
				return fail("result depends on the handler", format!("{a}\n{b}"));
			}
		}
		(Out::Err(..), Out::Err(..)) => return sane(&h, &text).unwrap_or(V::Skip("rejected")),
		_ => return fail("result depends on the handler", String::new()),
	}
	if let Some(v) = sane(&h, &text) {
		return v;
	}
	let mut want: BTreeSet<(&str, String)> = BTreeSet::new();
	for d in cx.to_arr() {
		for (k, v) in d.as_obj().map(|x| &x[..]).unwrap_or(&[]) {
			if unknown_keyword(k) {
				want.insert(("term", k.clone()));
			} else if !k.starts_with('@') {
				let t = match v {
					J::Str(t) => Some(t.clone()),
					v => v.get("@id").or(v.get("@reverse")).and_then(|t| t.as_str()).map(|t| t.to_string()),
				};
				if let Some(t) = t.filter(|t| unknown_keyword(t)) {
					want.insert(("value", t));
				}
			}
		}
	}
	let heard: BTreeSet<(&str, String)> = h.0.iter().map(|(k, x, _)| (*k, x.clone())).collect();
	for (k, x) in &want {
		if !heard.contains(&(*k, x.clone())) {
			return fail(&format!("missing warning {k}"), format!("`{x}` in {}\nheard {heard:?}", cx.text()));
		}
		o.hit(&format!("warned about keyword-like {k}"));
	}
	if !want.is_empty() {
		o.seen(&cx.sorted());
	}
	V::Pass
}

pub fn c22() -> Prop {
	Prop {
		id: "C22",
		level: "exploration",
		rule: "generated documents and contexts holding what deserves a warning are processed with a recording handler; everything of the kind found in the result, or in the entries known to be looked at, has been reported, every report is about something of its kind, and the result is that of the silent handler",
		assumptions: &[],
		mons: vec![
			Mon { name: "expansion", gen: gen_doc, judge: judge_expand, fixed: none, quick: 60000, threads: 0 },
			Mon { name: "contexts", gen: gen_context, judge: judge_context, fixed: none, quick: 60000, threads: 0 },
		],
	}
}
