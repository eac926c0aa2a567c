//! Deserialisation to RDF (JSON-LD 1.1 API sections 8.1 to 8.4).
use super::flatten::*;
use super::*;
use crate::json::s;

pub const RDF: &str = "http://www.w3.org/1999/02/22-rdf-syntax-ns#";
pub const XSD: &str = "http://www.w3.org/2001/XMLSchema#";
pub const I18N: &str = "https://www.w3.org/ns/i18n#";

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Dir {
	I18n,
	Compound,
}

#[derive(Clone, Copy, Default, Debug)]
pub struct Opt {
	pub dir: Option<Dir>,
	pub generalized: bool,
}

/// A quad as a JSON array [subject, predicate, object, graph]; resources are
/// strings, literals are objects {v,t} or {v,l}; default graph is null.
pub type Quads = Vec<J>;

pub fn lit(v: &str, t: &str) -> J {
	crate::json::obj(vec![("v", s(v)), ("t", s(t))])
}
pub fn lang_lit(v: &str, l: &str) -> J {
	crate::json::obj(vec![("v", s(v)), ("l", s(&l.to_ascii_lowercase()))])
}

fn resource(v: &str) -> bool {
	(is_bnode(v) && rdf_bnode(v)) || iri::is_iri(v)
}

fn rdf_bnode(v: &str) -> bool {
	v.starts_with("_:fresh!") || rdf_types::BlankId::new(v).is_ok()
}

pub fn lang_ok(l: &str) -> bool {
	!l.is_empty()
		&& l.split('-').enumerate().all(|(i, p)| {
			p.len() > (i == 0) as usize && p.len() <= 8 && p.chars().all(|c| if i == 0 { c.is_ascii_alphabetic() } else { c.is_ascii_alphanumeric() })
		})
}

/// Canonical xsd:double: %1.15E with superfluous digits removed.
pub fn double(f: f64) -> String {
	// Shortest digits that denote the number.
	let t = format!("{:E}", f);
	let (m, e) = t.split_once('E').unwrap();
	let m = if m.contains('.') { m.to_string() } else { format!("{m}.0") };
	format!("{m}E{e}")
}

/// JSON canonicalisation (RFC 8785) for the values the generators produce.
pub fn jcs(v: &J) -> String {
	match v {
		J::Num(n) => es_number(n),
		J::Arr(a) => format!("[{}]", a.iter().map(jcs).collect::<Vec<_>>().join(",")),
		J::Obj(m) => {
			let mut m: Vec<_> = m.iter().collect();
			m.sort_by(|a, b| a.0.encode_utf16().cmp(b.0.encode_utf16()));
			format!("{{{}}}", m.iter().map(|(k, v)| format!("{}:{}", s(k).text(), jcs(v))).collect::<Vec<_>>().join(","))
		}
		J::Str(t) => {
			// RFC 8785 uses the short escapes for \b and \f.
			s(t).text().replace("\\u0008", "\\b").replace("\\u000c", "\\f")
		}
		o => o.text(),
	}
}

/// ECMAScript Number::toString.
pub fn es_number(n: &str) -> String {
	let f: f64 = n.parse().unwrap();
	if f == 0.0 {
		return "0".into();
	}
	let t = format!("{:e}", f.abs());
	let (m, e) = t.split_once('e').unwrap();
	let digits: String = m.chars().filter(|c| *c != '.').collect();
	let k = digits.len() as i32;
	let nn = e.parse::<i32>().unwrap() + 1;
	let body = if k <= nn && nn <= 21 {
		format!("{digits}{}", "0".repeat((nn - k) as usize))
	} else if 0 < nn && nn <= 21 {
		format!("{}.{}", &digits[..nn as usize], &digits[nn as usize..])
	} else if -6 < nn && nn <= 0 {
		format!("0.{}{}", "0".repeat((-nn) as usize), digits)
	} else {
		let ex = nn - 1;
		let sg = if ex < 0 { "-" } else { "+" };
		if k == 1 {
			format!("{digits}e{sg}{}", ex.abs())
		} else {
			format!("{}.{}e{sg}{}", &digits[..1], &digits[1..], ex.abs())
		}
	};
	if f < 0.0 {
		format!("-{body}")
	} else {
		body
	}
}

pub fn to_rdf(expanded: &J, o: Opt) -> R<Quads> {
	let mut nm = node_map_with(expanded, true)?;
	let graphs = std::mem::take(&mut nm.graphs);
	let mut out = vec![];
	let mut cx = Cx { nm, o };
	for (g, nodes) in graphs {
		let gj = if g == DEFAULT {
			J::Null
		} else if resource(&g) {
			s(&g)
		} else {
			continue;
		};
		for (id, nd) in nodes {
			if !resource(&id) {
				continue;
			}
			for (p, vals) in nd.as_obj().unwrap() {
				if p == "@type" {
					for t in vals.to_arr() {
						if let J::Str(t) = &t {
							if resource(t) {
								out.push(J::Arr(vec![s(&id), s(&format!("{RDF}type")), s(t), gj.clone()]));
							}
						}
					}
				} else if is_kw(p) {
					continue;
				} else if is_bnode(p) && !o.generalized {
					continue;
				} else if !resource(p) {
					continue;
				} else {
					for v in vals.to_arr() {
						let mut lt = vec![];
						if let Some(x) = cx.object(&v, &mut lt) {
							out.push(J::Arr(vec![s(&id), s(p), x, gj.clone()]));
						}
						for (a, b, c) in lt {
							out.push(J::Arr(vec![a, s(&b), c, gj.clone()]));
						}
					}
				}
			}
		}
	}
	out.sort();
	out.dedup();
	Ok(out)
}

struct Cx {
	nm: NodeMap,
	o: Opt,
}

impl Cx {
	fn object(&mut self, v: &J, lt: &mut Vec<(J, String, J)>) -> Option<J> {
		if let Some(items) = v.get("@list") {
			let items = items.to_arr();
			if items.is_empty() {
				return Some(s(&format!("{RDF}nil")));
			}
			let ids: Vec<String> = items.iter().map(|_| self.nm.fresh()).collect();
			for (i, it) in items.iter().enumerate() {
				if let Some(x) = self.object(it, lt) {
					lt.push((s(&ids[i]), format!("{RDF}first"), x));
				}
				let rest = ids.get(i + 1).map(|x| s(x)).unwrap_or_else(|| s(&format!("{RDF}nil")));
				lt.push((s(&ids[i]), format!("{RDF}rest"), rest));
			}
			return Some(s(&ids[0]));
		}
		if let Some(val) = v.get("@value") {
			let mut dt = v.get("@type").and_then(|t| t.as_str()).map(|t| t.to_string());
			if let Some(t) = &dt {
				if t != "@json" && !iri::is_iri(t) {
					return None;
				}
			}
			if let Some(J::Str(l)) = v.get("@language") {
				if !lang_ok(l) {
					return None;
				}
			}
			if dt.as_deref() == Some("@json") {
				return Some(lit(&jcs(val), &format!("{RDF}JSON")));
			}
			let lex = match val {
				J::Bool(b) => {
					dt = dt.or(Some(format!("{XSD}boolean")));
					b.to_string()
				}
				J::Num(n) => {
					let f: f64 = n.parse().unwrap();
					if f.fract() != 0.0 || f.abs() >= 1e21 || dt.as_deref() == Some(&format!("{XSD}double")[..]) {
						dt = dt.or(Some(format!("{XSD}double")));
						double(f)
					} else {
						dt = dt.or(Some(format!("{XSD}integer")));
						// An integer literal is exact when it is written as one.
						if n.chars().all(|c| c.is_ascii_digit() || c == '-') {
							if f == 0.0 {
								"0".into()
							} else if n.parse::<i64>().is_ok() {
								n.clone()
							} else {
								format!("{:.0}", f)
							}
						} else {
							if f == 0.0 { "0".into() } else { format!("{:.0}", f) }
						}
					}
				}
				J::Str(t) => t.clone(),
				_ => return None,
			};
			if let (Some(J::Str(d)), Some(dir)) = (v.get("@direction"), self.o.dir) {
				let l = v.get("@language").and_then(|l| l.as_str()).map(|l| l.to_ascii_lowercase());
				match dir {
					Dir::I18n => {
						// As documented by the library, no underscore without language.
						let l = v.get("@language").and_then(|l| l.as_str());
						let l = l.map(|l| format!("{l}_")).unwrap_or_default();
						return Some(lit(&lex, &format!("{I18N}{l}{d}")));
					}
					Dir::Compound => {
						let b = s(&self.nm.fresh());
						// As documented by the library, the language tags the value.
						let val = match l {
							Some(l) => lang_lit(&lex, &l),
							None => lit(&lex, &format!("{XSD}string")),
						};
						lt.push((b.clone(), format!("{RDF}value"), val));
						lt.push((b.clone(), format!("{RDF}direction"), lit(d, &format!("{XSD}string"))));
						return Some(b);
					}
				}
			}
			if let Some(J::Str(l)) = v.get("@language") {
				return Some(lang_lit(&lex, l));
			}
			let dt = dt.unwrap_or(format!("{XSD}string"));
			return Some(lit(&lex, &dt));
		}
		match v.get("@id") {
			Some(J::Str(i)) if resource(i) => Some(s(i)),
			_ => None,
		}
	}
}
