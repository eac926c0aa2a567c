//! Context processing, term definition creation and IRI expansion
//! (JSON-LD 1.1 API sections 4.1, 4.2 and 5.2).
use super::iri::{is_iri, is_iri_ref, resolve};
use super::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Term {
	pub iri: Option<String>,
	pub prefix: bool,
	pub protected: bool,
	pub reverse: bool,
	pub base_url: Option<String>,
	pub context: Option<J>,
	pub container: BTreeSet<String>,
	pub lang: Option<Option<String>>,
	pub dir: Option<Option<String>>,
	pub index: Option<String>,
	pub nest: Option<String>,
	pub typ: Option<String>,
}

impl Term {
	pub fn has(&self, c: &str) -> bool {
		self.container.contains(c)
	}
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Ctx {
	pub terms: BTreeMap<String, Term>,
	pub base: Option<String>,
	pub original: Option<String>,
	pub vocab: Option<String>,
	pub lang: Option<String>,
	pub dir: Option<String>,
	pub previous: Option<Rc<Ctx>>,
}

impl Ctx {
	pub fn new(base: Option<&str>) -> Ctx {
		Ctx { base: base.map(|b| b.to_string()), original: base.map(|b| b.to_string()), ..Default::default() }
	}
	pub fn term(&self, t: &str) -> Option<&Term> {
		self.terms.get(t)
	}
	pub fn container(&self, t: Option<&str>, c: &str) -> bool {
		t.and_then(|t| self.terms.get(t)).map_or(false, |d| d.has(c))
	}
	pub fn has_protected(&self) -> bool {
		self.terms.values().any(|t| t.protected)
	}
}

#[derive(Clone, Copy)]
pub struct PO {
	pub over: bool,
	pub propagate: bool,
	pub validate: bool,
}

impl Default for PO {
	fn default() -> Self {
		PO { over: false, propagate: true, validate: true }
	}
}

pub fn process(env: &Env, active: &Ctx, local: &J, base_url: Option<&str>, o: PO) -> R<Ctx> {
	let r = proc(env, active, local, base_url, &mut vec![], o)?;
	// Contexts that are not needed must be well-formed as well.
	syntax(local)?;
	Ok(r)
}

fn proc(env: &Env, active: &Ctx, local: &J, base_url: Option<&str>, remote: &mut Vec<String>, o: PO) -> R<Ctx> {
	let mut result = active.clone();
	let mut propagate = o.propagate;
	if let Some(p) = local.get("@propagate") {
		match p {
			J::Bool(b) => propagate = *b,
			_ => return err("invalid @propagate value"),
		}
	}
	if !propagate && result.previous.is_none() {
		result.previous = Some(Rc::new(active.clone()));
	}
	for context in local.to_arr() {
		match &context {
			J::Null => {
				// The recommendation says "active context"; with an array of
				// contexts this is the context built so far.
				if !o.over && result.has_protected() {
					return err("invalid context nullification");
				}
				let prev = result;
				result = Ctx::new(active.original.as_deref());
				if !propagate {
					result.previous = Some(Rc::new(prev));
				}
			}
			J::Str(u) => {
				let url = match base_url {
					Some(b) if is_iri_ref(u) => resolve(b, u),
					_ if is_iri(u) => u.clone(),
					_ => return err("loading document failed"),
				};
				// A remote context that is already being processed is not
				// processed again (processor defined limit of one).
				if remote.contains(&url) {
					continue;
				}
				let doc = env.load(&url)?;
				let loaded = match doc.get("@context") {
					Some(c) => c.clone(),
					None => return err("invalid remote context"),
				};
				syntax(&loaded)?;
				let mut st = remote.clone();
				st.push(url.clone());
				result = proc(env, &result, &loaded, Some(&url), &mut st, PO { over: false, propagate: true, validate: o.validate })?;
			}
			J::Obj(_) => {
				let mut context = context.clone();
				if let Some(v) = context.get("@version") {
					if !matches!(v, J::Num(n) if crate::json::is_1_1(n)) {
						return err("invalid @version value");
					}
					if env.v10() {
						return err("processing mode conflict");
					}
				}
				if let Some(i) = context.get("@import") {
					if env.v10() {
						return err("invalid context entry");
					}
					let i = match i {
						J::Str(i) => i,
						_ => return err("invalid @import value"),
					};
					let url = match base_url {
						Some(b) if is_iri_ref(i) => resolve(b, i),
						_ if is_iri(i) => i.clone(),
						_ => return err("invalid @import value"),
					};
					let doc = env.load(&url)?;
					let imp = match doc.get("@context") {
						Some(c @ J::Obj(_)) => c.clone(),
						_ => return err("invalid remote context"),
					};
					syntax(&imp)?;
					if imp.has("@import") {
						return err("invalid context entry");
					}
					let mut merged = imp;
					for (k, v) in context.as_obj().unwrap() {
						// Overridden entries come last, as in the library.
						merged.remove(k);
						merged.set(k, v.clone());
					}
					merged.remove("@import");
					context = merged;
				}
				if let (Some(b), true) = (context.get("@base"), remote.is_empty()) {
					match b {
						J::Null => result.base = None,
						J::Str(b) if is_iri(b) => result.base = Some(b.clone()),
						J::Str(b) if is_iri_ref(b) => match &result.base {
							Some(rb) => result.base = Some(resolve(rb, b)),
							None => return err("invalid base IRI"),
						},
						_ => return err("invalid base IRI"),
					}
				}
				if let Some(v) = context.get("@vocab") {
					match v {
						J::Null => result.vocab = None,
						J::Str(v) => {
							let x = expand_iri(&result, v, true, true);
							match x {
								Some(x) if !is_kw(&x) && (is_iri(&x) || bnode(&x)?) => result.vocab = Some(x),
								_ => return err("invalid vocab mapping"),
							}
						}
						_ => return err("invalid vocab mapping"),
					}
				}
				if let Some(v) = context.get("@language") {
					match v {
						J::Null => result.lang = None,
						J::Str(v) => result.lang = Some(v.clone()),
						_ => return err("invalid default language"),
					}
				}
				if let Some(v) = context.get("@direction") {
					if env.v10() {
						return err("invalid context entry");
					}
					match v {
						J::Null => result.dir = None,
						J::Str(v) if v == "ltr" || v == "rtl" => result.dir = Some(v.clone()),
						_ => return err("invalid base direction"),
					}
				}
				if let Some(v) = context.get("@propagate") {
					if env.v10() {
						return err("invalid context entry");
					}
					if !matches!(v, J::Bool(_)) {
						return err("invalid @propagate value");
					}
				}
				let protected = match context.get("@protected") {
					None => false,
					Some(J::Bool(b)) => *b,
					Some(_) => return err("invalid @protected value"),
				};
				let mut defined = HashMap::new();
				for (k, _) in context.as_obj().unwrap() {
					if matches!(
						k.as_str(),
						"@base" | "@direction" | "@import" | "@language" | "@propagate" | "@protected" | "@version" | "@vocab"
					) {
						continue;
					}
					let mut d = Def { env, local: &context, defined: &mut defined, remote, base_url, protected, over: o.over };
					d.create(&mut result, k, base_url, protected, o.over, o.validate)?;
				}
			}
			_ => return err("invalid local context"),
		}
	}
	Ok(result)
}

/// Checks the types of the entries of a dereferenced context, that must all be
/// right even when an entry is not used (overridden, or ignored such as `@base`).
/// Errors of a context that do not depend on where it is used.
fn syntax(c: &J) -> R<()> {
	let need = |ok: bool, code: &'static str| if ok { Ok(()) } else { err(code) };
	let opt_str = |v: &J| *v == J::Null || v.is_str();
	let is_bool = |v: &J| matches!(v, J::Bool(_));
	let dir = |v: &J| matches!(v.as_str(), Some("ltr" | "rtl")) || *v == J::Null;
	match c {
		J::Arr(a) => a.iter().try_for_each(|x| if x.is_arr() { err("invalid local context") } else { syntax(x) }),
		J::Null => Ok(()),
		J::Str(_) => Ok(()),
		J::Obj(m) => {
			for (k, v) in m {
				match k.as_str() {
					"@base" => need(*v == J::Null || v.as_str().map_or(false, is_iri_ref), "invalid base IRI")?,
					"@vocab" => need(opt_str(v), "invalid vocab mapping")?,
					"@language" => need(opt_str(v), "invalid default language")?,
					"@direction" => need(dir(v), "invalid base direction")?,
					"@import" => need(v.as_str().map_or(false, is_iri_ref), "invalid @import value")?,
					"@propagate" => need(is_bool(v), "invalid @propagate value")?,
					"@protected" => need(is_bool(v), "invalid @protected value")?,
					"@version" => need(matches!(v, J::Num(n) if crate::json::is_1_1(n)), "invalid @version value")?,
					// (A known limitation: `@container` is required here.)
					"@type" => need(
						matches!(v, J::Obj(m) if v.get("@container") == Some(&J::Str("@set".into()))
							&& m.iter().all(|(k, x)| k == "@container" || (k == "@protected" && is_bool(x)))),
						"keyword redefinition",
					)?,
					_ => match v {
						J::Null | J::Str(_) => (),
						J::Obj(t) => {
							for (k, v) in t {
								match k.as_str() {
									"@id" => need(opt_str(v), "invalid IRI mapping")?,
									"@type" => need(opt_str(v), "invalid type mapping")?,
									"@language" => need(opt_str(v), "invalid language mapping")?,
									"@direction" => need(dir(v), "invalid base direction")?,
									"@reverse" => need(v.is_str(), "invalid IRI mapping")?,
									"@index" => need(v.is_str(), "invalid term definition")?,
									"@nest" => need(v.as_str().map_or(false, |n| n == "@nest" || !is_kw(n)), "invalid @nest value")?,
									"@prefix" => need(is_bool(v), "invalid @prefix value")?,
									"@protected" => need(is_bool(v), "invalid @protected value")?,
									"@context" => match syntax(v) {
										Err(e) if e.0.starts_with("model:") => return Err(e),
										r => need(r.is_ok(), "invalid scoped context")?,
									},
									"@container" => need(
										match v {
											J::Arr(a) => a.iter().all(|x| x.as_str().map_or(false, |x| CONTAINERS.contains(&x))),
											J::Str(x) => CONTAINERS.contains(&x.as_str()),
											v => *v == J::Null,
										},
										"invalid container mapping",
									)?,
									"@propagate" if is_bool(v) && t.iter().any(|(k, _)| k == "@reverse") => return err("model: @propagate of a reverse term"),
									_ => return err("invalid term definition"),
								}
							}
						}
						_ => return err("invalid term definition"),
					},
				}
			}
			Ok(())
		}
		_ => err("invalid local context"),
	}
}

struct Def<'a> {
	env: &'a Env,
	local: &'a J,
	defined: &'a mut HashMap<String, bool>,
	remote: &'a [String],
	base_url: Option<&'a str>,
	protected: bool,
	over: bool,
}

/// Blank node identifiers with odd labels are undecided.
fn bnode(v: &str) -> R<bool> {
	if is_bnode(v) && (v.len() == 2 || v[2..].chars().any(|c| !c.is_ascii_alphanumeric() && c != '_')) {
		return err("model: odd blank node identifier");
	}
	Ok(is_bnode(v))
}

fn first_colon(v: &str) -> Option<usize> {
	// A colon anywhere after the first character.
	let mut it = v.char_indices();
	let f = it.next()?;
	let _ = f;
	for (i, c) in it {
		if c == ':' {
			return Some(i);
		}
	}
	None
}

const CONTAINERS: &[&str] = &["@graph", "@id", "@index", "@language", "@list", "@set", "@type"];

impl<'a> Def<'a> {
	fn xiri(&mut self, ctx: &mut Ctx, v: &str, doc: bool, vocab: bool) -> R<Option<String>> {
		if is_kw(v) {
			return Ok(Some(v.to_string()));
		}
		if kw_form(v) {
			return Ok(None);
		}
		if self.local.has(v) && self.defined.get(v) != Some(&true) {
			self.create(ctx, v, self.base_url, self.protected, self.over, true)?;
		}
		if !already_term(ctx, v, vocab) {
			if let Some(i) = first_colon(v) {
				let (p, suf) = (&v[..i], &v[i + 1..]);
				if is_kw(p) && self.local.has(p) {
					return err("model: keyword as prefix");
				}
				if !(p == "_" || suf.starts_with("//")) && self.local.has(p) && self.defined.get(p) != Some(&true) {
					self.create(ctx, p, self.base_url, self.protected, self.over, true)?;
				}
			}
		}
		Ok(expand_iri(ctx, v, doc, vocab))
	}

	fn create(&mut self, ctx: &mut Ctx, term: &str, base_url: Option<&str>, protected: bool, over: bool, _validate: bool) -> R<()> {
		let env = self.env;
		match self.defined.get(term) {
			Some(true) => return Ok(()),
			Some(false) => return err("cyclic IRI mapping"),
			None => (),
		}
		if term.is_empty() {
			return err("invalid term definition");
		}
		self.defined.insert(term.to_string(), false);
		let value = self.local.get(term).unwrap().clone();
		if term == "@type" {
			if env.v10() {
				return err("keyword redefinition");
			}
			let ok = match &value {
				J::Obj(m) => {
					!m.is_empty()
						&& m.iter().all(|(k, v)| match k.as_str() {
							"@container" => *v == crate::json::s("@set"),
							"@protected" => true,
							_ => false,
						})
				}
				_ => false,
			};
			if !ok {
				return err("keyword redefinition");
			}
		} else if is_kw(term) {
			return err("keyword redefinition");
		} else if kw_form(term) {
			return Ok(());
		}
		let previous = ctx.terms.remove(term);
		let mut simple = false;
		let value = match value {
			J::Null => crate::json::obj(vec![("@id", J::Null)]),
			J::Str(v) => {
				simple = true;
				crate::json::obj(vec![("@id", J::Str(v))])
			}
			v @ J::Obj(_) => v,
			_ => return err("invalid term definition"),
		};
		let mut d = Term { protected, ..Default::default() };
		if let Some(p) = value.get("@protected") {
			if env.v10() {
				return err("invalid term definition");
			}
			match p {
				J::Bool(b) => d.protected = *b,
				_ => return err("invalid @protected value"),
			}
		}
		if let Some(t) = value.get("@type") {
			let t = match t {
				J::Str(t) => t,
				_ => return err("invalid type mapping"),
			};
			let x = self.xiri(ctx, t, false, true)?;
			match x {
				Some(x) if x == "@json" || x == "@none" => {
					if env.v10() {
						return err("invalid type mapping");
					}
					d.typ = Some(x)
				}
				Some(x) if x == "@id" || x == "@vocab" => d.typ = Some(x),
				Some(x) if !is_kw(&x) && is_iri(&x) => d.typ = Some(x),
				_ => return err("invalid type mapping"),
			}
		}
		if let Some(r) = value.get("@reverse") {
			if value.has("@id") || value.has("@nest") {
				return err("invalid reverse property");
			}
			let r = match r {
				J::Str(r) => r,
				_ => return err("invalid IRI mapping"),
			};
			if kw_form(r) {
				return Ok(());
			}
			match self.xiri(ctx, r, false, true)? {
				Some(x) if !is_kw(&x) && (is_iri(&x) || bnode(&x)?) => d.iri = Some(x),
				_ => return err("invalid IRI mapping"),
			}
			match value.get("@container") {
				None | Some(J::Null) => (),
				Some(J::Str(c)) if c == "@set" || c == "@index" => {
					d.container.insert(c.clone());
				}
				Some(J::Arr(a)) if a.len() == 1 && matches!(a[0].as_str(), Some("@set" | "@index")) => {
					d.container.insert(a[0].as_str().unwrap().to_string());
				}
				_ => return err("invalid reverse property"),
			}
			d.reverse = true;
			ctx.terms.insert(term.to_string(), d);
			self.defined.insert(term.to_string(), true);
			return Ok(());
		}
		let idv = value.get("@id");
		if idv.is_some() && idv != Some(&crate::json::s(term)) {
			match idv.unwrap() {
				J::Null => (),
				J::Str(id) => {
					if !is_kw(id) && kw_form(id) {
						return Ok(());
					}
					let x = self.xiri(ctx, id, false, true)?;
					match &x {
						Some(x) if x == "@context" => return err("invalid keyword alias"),
						Some(x) if is_kw(x) || is_iri(x) || bnode(x)? => (),
						_ => return err("invalid IRI mapping"),
					}
					d.iri = x;
					let inner_colon = {
						let b: Vec<char> = term.chars().collect();
						b.len() > 2 && b[1..b.len() - 1].contains(&':')
					};
					if inner_colon || term.contains('/') {
						self.defined.insert(term.to_string(), true);
						let y = self.xiri(ctx, term, false, true)?;
						if y != d.iri {
							return err("invalid IRI mapping");
						}
					}
					if !term.contains(':') && !term.contains('/') && simple {
						let i = d.iri.as_deref().unwrap_or("x");
						if is_bnode(i) || (!is_kw(i) && i.ends_with([':', '/', '?', '#', '[', ']', '@'])) {
							d.prefix = true
						}
					}
				}
				_ => return err("invalid IRI mapping"),
			}
		} else if let Some(i) = first_colon(term) {
			let (p, suf) = (&term[..i], &term[i + 1..]);
			if p != "_" && !suf.starts_with("//") && self.local.has(p) {
				self.create(ctx, p, self.base_url, self.protected, self.over, true)?;
			}
			match ctx.terms.get(p) {
				Some(pd) if p != "_" && !suf.starts_with("//") => {
					let x = format!("{}{}", pd.iri.clone().unwrap_or_default(), suf);
					if !is_iri(&x) && !bnode(&x)? {
						return err("invalid IRI mapping");
					}
					d.iri = Some(x)
				}
				_ => {
					if !is_iri(term) && !bnode(term)? {
						return err("model: term with a colon");
					}
					d.iri = Some(term.to_string())
				}
			}
		} else if term.contains('/') {
			match expand_iri(ctx, term, false, true) {
				Some(x) if !is_kw(&x) && is_iri(&x) => d.iri = Some(x),
				_ => return err("invalid IRI mapping"),
			}
		} else if term == "@type" {
			d.iri = Some("@type".into())
		} else if let Some(v) = &ctx.vocab {
			let x = format!("{v}{term}");
			if !is_iri(&x) && !bnode(&x)? {
				return err("invalid IRI mapping");
			}
			d.iri = Some(x)
		} else {
			return err("invalid IRI mapping");
		}
		if env.v10() && value.get("@container") == Some(&J::Null) {
			return err("invalid container mapping");
		}
		if let Some(c) = value.get("@container").filter(|c| **c != J::Null) {
			if env.v10() {
				match c {
					J::Str(c) if !matches!(c.as_str(), "@graph" | "@id" | "@type") => (),
					_ => return err("invalid container mapping"),
				}
			}
			let mut set = BTreeSet::new();
			let list = match c {
				J::Arr(a) => a.clone(),
				x @ J::Str(_) => vec![x.clone()],
				_ => return err("invalid container mapping"),
			};
			for c in &list {
				match c {
					J::Str(c) if CONTAINERS.contains(&c.as_str()) => {
						if !set.insert(c.clone()) {
							return err("model: repeated container");
						}
					}
					_ => return err("invalid container mapping"),
				}
			}
			let has = |k: &str| set.contains(k);
			let ok = match set.len() {
				0 => false,
				1 => true,
				_ => {
					if has("@list") {
						false
					} else if has("@graph") {
						let rest: Vec<_> = set.iter().filter(|x| *x != "@graph" && *x != "@set").collect();
						rest.is_empty() || (rest.len() == 1 && (rest[0] == "@id" || rest[0] == "@index"))
					} else {
						has("@set") && set.len() == 2
					}
				}
			};
			if !ok {
				return err("invalid container mapping");
			}
			d.container = set;
			if d.has("@type") {
				match d.typ.as_deref() {
					None => d.typ = Some("@id".into()),
					Some("@id" | "@vocab") => (),
					_ => return err("invalid type mapping"),
				}
			}
		}
		if let Some(i) = value.get("@index") {
			if env.v10() || !d.has("@index") {
				return err("invalid term definition");
			}
			match i {
				J::Str(i) => match expand_iri(ctx, i, false, true) {
					Some(x) if !is_kw(&x) && is_iri(&x) => d.index = Some(i.clone()),
					_ => return err("invalid term definition"),
				},
				_ => return err("invalid term definition"),
			}
		}
		if let Some(c) = value.get("@context") {
			if env.v10() {
				return err("invalid term definition");
			}
			let mut st = self.remote.to_vec();
			match proc(env, ctx, c, base_url, &mut st, PO { over: true, propagate: true, validate: false }) {
				Err(e) if e.0.starts_with("model:") => return Err(e),
				Err(_) => return err("invalid scoped context"),
				Ok(_) => (),
			}
			d.context = Some(c.clone());
			d.base_url = base_url.map(|x| x.to_string());
		}
		match value.get("@language") {
			None => (),
			Some(J::Null) => d.lang = Some(None),
			Some(J::Str(l)) => d.lang = Some(Some(l.clone())),
			_ => return err("invalid language mapping"),
		}
		match value.get("@direction") {
			None => (),
			Some(J::Null) => d.dir = Some(None),
			Some(J::Str(l)) if l == "ltr" || l == "rtl" => d.dir = Some(Some(l.clone())),
			_ => return err("invalid base direction"),
		}
		if value.has("@type") {
			d.lang = None;
			d.dir = None;
		}
		if let Some(n) = value.get("@nest") {
			if env.v10() {
				return err("invalid term definition");
			}
			match n {
				J::Str(n) if !is_kw(n) || n == "@nest" => d.nest = Some(n.clone()),
				_ => return err("invalid @nest value"),
			}
		}
		if let Some(p) = value.get("@prefix") {
			if env.v10() || term.contains(':') || term.contains('/') {
				return err("invalid term definition");
			}
			match p {
				J::Bool(b) => d.prefix = *b,
				_ => return err("invalid @prefix value"),
			}
			if d.prefix && d.iri.as_deref().map_or(false, is_kw) {
				return err("invalid term definition");
			}
		}
		for (k, _) in value.as_obj().unwrap() {
			if !matches!(
				k.as_str(),
				"@id" | "@reverse" | "@container" | "@context" | "@direction" | "@index" | "@language" | "@nest" | "@prefix" | "@protected" | "@type"
			) {
				return err("invalid term definition");
			}
		}
		if let (false, Some(p)) = (over, &previous) {
			if p.protected {
				let mut a = d.clone();
				a.protected = true;
				if a.context.is_none() {
					a.base_url = p.base_url.clone();
				}
				if a != *p {
					return err("protected term redefinition");
				}
				d = p.clone();
			}
		}
		ctx.terms.insert(term.to_string(), d);
		self.defined.insert(term.to_string(), true);
		Ok(())
	}
}

fn already_term(ctx: &Ctx, v: &str, vocab: bool) -> bool {
	match ctx.terms.get(v) {
		Some(t) => vocab || t.iri.as_deref().map_or(false, is_kw),
		None => false,
	}
}

/// IRI expansion without a local context. `None` is null.
pub fn expand_iri(ctx: &Ctx, v: &str, doc: bool, vocab: bool) -> Option<String> {
	expand_iri_by(ctx, v, doc, vocab).0
}

/// Also tells whether the vocabulary mapping is used.
pub fn expand_iri_by(ctx: &Ctx, v: &str, doc: bool, vocab: bool) -> (Option<String>, bool) {
	let mut by_vocab = false;
	(expand_iri_with(ctx, v, doc, vocab, &mut by_vocab), by_vocab)
}

fn expand_iri_with(ctx: &Ctx, v: &str, doc: bool, vocab: bool, by_vocab: &mut bool) -> Option<String> {
	if is_kw(v) {
		return Some(v.to_string());
	}
	if kw_form(v) {
		return None;
	}
	if let Some(t) = ctx.terms.get(v) {
		if let Some(i) = &t.iri {
			if is_kw(i) {
				return Some(i.clone());
			}
		}
		if vocab {
			return t.iri.clone();
		}
	}
	if let Some(i) = first_colon(v) {
		let (p, suf) = (&v[..i], &v[i + 1..]);
		if p == "_" || suf.starts_with("//") {
			return Some(v.to_string());
		}
		if let Some(t) = ctx.terms.get(p) {
			if let (true, Some(iri)) = (t.prefix, &t.iri) {
				return Some(format!("{iri}{suf}"));
			}
		}
		if is_iri(v) {
			return Some(v.to_string());
		}
	}
	if vocab {
		if let Some(voc) = &ctx.vocab {
			*by_vocab = true;
			return Some(format!("{voc}{v}"));
		}
	}
	if doc {
		if let Some(b) = &ctx.base {
			if is_iri_ref(v) {
				return Some(resolve(b, v));
			}
		}
	}
	Some(v.to_string())
}
