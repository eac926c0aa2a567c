use crate::drv::Opts;
use crate::gen::{Gen, Profile, BASE};
use crate::json::{obj, s, J};
use crate::rng::Rng;
use std::collections::BTreeMap;

/// Case with a document and its remote contexts.
pub fn doc_case_with(r: Rng, p: Option<Profile>) -> J {
	let mut g = Gen::new(r, p);
	let d = g.document();
	case_of(&g, d)
}

pub fn case_of(g: &Gen, d: J) -> J {
	obj(vec![("doc", d), ("docs", J::Obj(g.docs.iter().map(|(a, b)| (a.clone(), b.clone())).collect()))])
}

pub fn doc_case(r: Rng) -> J {
	doc_case_with(r, None)
}

/// The case in the processing mode of JSON-LD 1.0, without most of what this mode rejects.
pub fn old(mut c: J, r: &mut Rng) -> J {
	let keep = if r.pc(60) { 0 } else { 1 + r.below(6) as u32 };
	for k in ["doc", "docs", "context", "steps"] {
		if let Some(x) = c.get_mut(k) {
			downgrade(x, if k == "context" { 1 } else { 0 }, keep, r)
		}
	}
	if let Some(x) = c.get_mut("opts").and_then(|o| o.get_mut("expandContext")) {
		downgrade(x, 1, keep, r)
	}
	if c.get("opts").is_none() {
		c.set("opts", J::new_obj())
	}
	c.get_mut("opts").unwrap().set("v10", J::Bool(true));
	c
}

/// `at`: 0 in a document, 1 in a context, 2 in a term definition.
fn downgrade(j: &mut J, at: usize, keep: u32, r: &mut Rng) {
	match j {
		J::Arr(a) => a.iter_mut().for_each(|x| downgrade(x, at, keep, r)),
		J::Obj(m) => {
			let was = m.len();
			m.retain(|(k, v)| {
				let new = match at {
					1 => matches!(k.as_str(), "@version" | "@import" | "@propagate" | "@protected" | "@direction" | "@type"),
					2 => {
						matches!(k.as_str(), "@protected" | "@index" | "@context" | "@nest" | "@prefix")
							|| (k == "@container" && *v == J::Null)
							|| (k == "@type" && matches!(v.as_str(), Some("@json" | "@none")))
					}
					_ => k == "@type" && *v == J::Str("@json".into()),
				};
				!new || r.pc(keep)
			});
			let _ = was;
			for (k, v) in m.iter_mut() {
				let next = match (at, k.as_str()) {
					(_, "@context") => 1,
					(0, _) => 0,
					(1, _) => 2,
					_ => 3,
				};
				if at == 2 && k == "@container" && !r.pc(keep) {
					let l = v.to_arr();
					let ok: Vec<J> = l.into_iter().filter(|x| matches!(x.as_str(), Some("@list" | "@set" | "@index" | "@language"))).collect();
					*v = if ok.is_empty() { st("@set") } else { ok[r.below(ok.len())].clone() }
				}
				if next < 3 {
					downgrade(v, next, keep, r)
				}
			}
		}
		_ => (),
	}
}

pub fn docs_of(c: &J) -> BTreeMap<String, J> {
	match c.get("docs") {
		Some(J::Obj(m)) => m.iter().cloned().collect(),
		_ => BTreeMap::new(),
	}
}

pub fn doc_of(c: &J) -> J {
	c.get("doc").cloned().unwrap_or(J::Null)
}

/// Options of a case; absent members have their default value.
pub fn opts_of(c: &J) -> Opts {
	let o = c.get("opts").cloned().unwrap_or(J::new_obj());
	let flag = |k: &str, d: bool| match o.get(k) {
		Some(J::Bool(b)) => *b,
		_ => d,
	};
	let st = |k: &str| o.get(k).and_then(|x| x.as_str()).map(|x| x.to_string());
	Opts {
		url: match o.get("url") {
			Some(J::Null) => None,
			Some(J::Str(u)) => Some(u.clone()),
			_ => Some(BASE.into()),
		},
		base: st("base"),
		v10: flag("v10", false),
		ordered: flag("ordered", false),
		expand_context: o.get("expandContext").cloned(),
		compact_arrays: flag("compactArrays", true),
		compact_to_relative: flag("compactToRelative", true),
		rdf_direction: match st("rdfDirection").as_deref() {
			Some("i18n-datatype") => Some(json_ld_core::rdf::RdfDirection::I18nDatatype),
			Some("compound-literal") => Some(json_ld_core::rdf::RdfDirection::CompoundLiteral),
			_ => None,
		},
		generalized: flag("generalized", false),
		policy: match o.get("policy") {
			Some(J::Arr(p)) if p.len() == 3 => crate::drv::Policy { invalid: action(&p[0]), vocab: action(&p[1]), allow_undefined: p[2] != J::Bool(false) },
			_ => Default::default(),
		},
	}
}

fn action(j: &J) -> crate::drv::Action {
	match j.as_str() {
		Some("drop") => crate::drv::Action::Drop,
		Some("reject") => crate::drv::Action::Reject,
		_ => crate::drv::Action::Keep,
	}
}

pub fn base_of(o: &Opts) -> Option<String> {
	o.base.clone().or(o.url.clone())
}

pub fn with(c: &mut J, k: &str, v: J) {
	c.set(k, v)
}

pub fn b(v: bool) -> J {
	J::Bool(v)
}

pub fn st(v: &str) -> J {
	s(v)
}

/// Records which features of the language a document exercises.
pub fn features(d: &J, o: &mut crate::run::Obs) {
	fn go(d: &J, f: &mut dyn FnMut(&str)) {
		match d {
			J::Arr(a) => {
				if a.is_empty() {
					f("empty-array");
				}
				a.iter().for_each(|x| go(x, f))
			}
			J::Obj(m) => {
				for (k, v) in m {
					if k.starts_with('@') {
						f(k);
						if k == "@container" {
							for x in v.to_arr() {
								f(&format!("container:{}", x.as_str().unwrap_or("?")))
							}
						}
					}
					go(v, f)
				}
			}
			_ => (),
		}
	}
	let mut seen = std::collections::BTreeSet::new();
	go(d, &mut |k| {
		seen.insert(k.to_string());
	});
	for k in seen {
		o.hit(&format!("uses {k}"));
	}
}

/// True when an identifier of `d` has dot segments or escapes. The IRIs of the
/// `iref` library compare modulo normalisation, so these may denote the same
/// resource as another spelling.
pub fn ambiguous(d: &J) -> bool {
	let bad = |v: &str| {
		v.contains(':') && (v.contains('%') || v.contains("/./") || v.contains("/../") || v.ends_with("/.") || v.ends_with("/..") || v.contains("/.?") || v.contains("/..?") || v.contains("/.#") || v.contains("/..#"))
	};
	match d {
		J::Str(v) => bad(v),
		J::Arr(a) => a.iter().any(ambiguous),
		J::Obj(m) => m.iter().any(|(k, v)| bad(k) || ambiguous(v)),
		_ => false,
	}
}

/// True when a string of `d` looks like a blank node identifier but is none.
pub fn odd_blank(d: &J) -> bool {
	let bad = |v: &str| v.starts_with("_:") && rdf_types::BlankId::new(v).is_err();
	match d {
		J::Str(v) => bad(v),
		J::Arr(a) => a.iter().any(odd_blank),
		J::Obj(m) => m.iter().any(|(k, v)| bad(k) || odd_blank(v)),
		_ => false,
	}
}
