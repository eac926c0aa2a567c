//! C15: contexts, keywords and names survive reading, writing, printing, serde.
use crate::drv::{guard, Out};
use crate::json::{is_1_1, obj, s, J};
use crate::rng::Rng;
use crate::run::*;
use json_ld::syntax::context::definition::{EntryValueRef, Key, KeyOrKeyword, KeyOrKeywordRef, TypeContainer, Version};
use json_ld::syntax::context::term_definition::{self, ExpandedRef, Nest, TypeKeyword};
use json_ld::syntax::context::{ContextDocument, FragmentRef};
use json_ld::syntax::{
	is_keyword, is_keyword_like, CompactIri, CompactIriBuf, Compare, Container, ContainerKind, Context, ContextEntry, Direction, ErrorCode, IntoJson, Keyword, LenientLangTag,
	LenientLangTagBuf, Nullable, Parse, Print, TryFromJson,
};
use json_ld::{LangStr, LangString, ProcessingMode};
use json_ld_core::rdf::RdfDirection;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

const KEYWORDS: [&str; 23] = [
	"@base", "@container", "@context", "@direction", "@graph", "@id", "@import", "@included", "@index", "@json", "@language", "@list", "@nest", "@none", "@prefix", "@propagate",
	"@protected", "@reverse", "@set", "@type", "@value", "@version", "@vocab",
];
const KINDS: [&str; 7] = ["@graph", "@id", "@index", "@language", "@list", "@set", "@type"];
const REFS: [&str; 10] = ["", "a", "#f", "../b", "http://e.org/c", "//h/p", "urn:x:y", "a?b", "http://é.org/ü", "./x:y"];
const BAD_REFS: [&str; 5] = ["a b", "<x>", "http://[", "%zz", "a\\b"];
const TERMS: [&str; 16] = ["a", "b", "term", "ex:p", "_:b0", "http://e.org/p", "@unknown", "é", "", "a b", "x:y:z", "a\"q", "t\n", "T", "@", "\u{1}"];

fn random_string(r: &mut Rng) -> String {
	let pool = ['a', 'Z', ':', '/', '_', '@', '-', '#', '?', ' ', '"', '\\', '\n', 'é', '😀', '%', '1', '.', '\u{0}', '<', '\u{2028}', '[', 'k'];
	(0..r.below(8)).map(|_| *r.pick(&pool)).collect()
}

fn junk(r: &mut Rng) -> J {
	match r.below(9) {
		0 => J::Null,
		1 => J::Bool(r.pc(50)),
		2 => J::Num(r.ps(&["0", "1.1", "1.0", "-3", "1e2", "1.10", "11e-1"])),
		3 => s(&r.ps(&KEYWORDS)),
		4 => J::Arr(vec![]),
		5 => J::new_obj(),
		6 => s(&random_string(r)),
		7 => J::Arr((0..r.below(3)).map(|_| s(&r.ps(&KINDS))).collect()),
		_ => s(&r.ps(&TERMS)),
	}
}

fn lang(r: &mut Rng) -> J {
	s(&r.ps(&["en", "EN-us", "fr", "x_y", "", "a-very-long-language-tag", "é", "de-Latn-1996"]))
}

struct Gc {
	r: Rng,
	/// Percentage of values of the wrong kind.
	bad: u32,
}

impl Gc {
	fn or_bad(&mut self, f: impl FnOnce(&mut Rng) -> J) -> J {
		if self.r.pc(self.bad) {
			junk(&mut self.r)
		} else {
			f(&mut self.r)
		}
	}
	fn iri(&mut self) -> J {
		if self.r.pc(self.bad) {
			s(&self.r.ps(&BAD_REFS))
		} else {
			s(&self.r.ps(&REFS))
		}
	}
	fn boolean(&mut self) -> J {
		self.or_bad(|r| J::Bool(r.pc(50)))
	}
	fn nullable(&mut self, v: J) -> J {
		if self.r.pc(15) {
			J::Null
		} else if self.r.pc(self.bad) {
			junk(&mut self.r)
		} else {
			v
		}
	}
	fn term(&mut self, d: usize) -> J {
		match self.r.below(10) {
			0 => return J::Null,
			1..=3 => return if self.r.pc(20) { s(&random_string(&mut self.r)) } else { s(&self.r.ps(&TERMS)) },
			4 if self.r.pc(self.bad) => return junk(&mut self.r),
			_ => (),
		}
		let mut m: Vec<(String, J)> = vec![];
		let mut keys: Vec<&str> = vec!["@id", "@type", "@context", "@reverse", "@index", "@language", "@direction", "@container", "@nest", "@prefix", "@propagate", "@protected"];
		self.r.shuffle(&mut keys);
		let n = if self.r.pc(10) { 12 } else { self.r.below(5) };
		for k in keys.into_iter().take(n) {
			let v = match k {
				"@id" => {
					let v = if self.r.pc(20) { s(&self.r.ps(&KEYWORDS)) } else { s(&self.r.ps(&TERMS)) };
					self.nullable(v)
				}
				"@type" => {
					let v = s(&self.r.ps(&["@id", "@vocab", "@json", "@none", "ex:t", "http://e.org/t", "T", "@list", "@nope"]));
					self.nullable(v)
				}
				"@context" => {
					if d == 0 {
						J::Null
					} else {
						self.context(d - 1)
					}
				}
				"@reverse" | "@index" => self.or_bad(|r| s(&r.ps(&TERMS))),
				"@language" => {
					let v = lang(&mut self.r);
					self.nullable(v)
				}
				"@direction" => {
					let v = s(&self.r.ps(&["ltr", "rtl"]));
					self.nullable(v)
				}
				"@container" => {
					let v = if self.r.pc(50) {
						s(&self.r.ps(&KINDS))
					} else {
						J::Arr((0..self.r.below(4)).map(|_| s(&self.r.ps(&KINDS))).collect())
					};
					self.nullable(v)
				}
				"@nest" => self.or_bad(|r| s(&r.ps(&["@nest", "n", "", "@nested"]))),
				_ => self.boolean(),
			};
			m.push((k.to_string(), v));
		}
		if self.r.pc(self.bad) {
			m.push((self.r.ps(&["@value", "@set", "x", "", "@ID", "@base"]), junk(&mut self.r)));
		}
		J::Obj(m)
	}
	fn entry(&mut self, d: usize) -> J {
		match self.r.below(12) {
			0 => return J::Null,
			1 => return self.iri(),
			2 if self.r.pc(self.bad) => return junk(&mut self.r),
			_ => (),
		}
		let mut m: Vec<(String, J)> = vec![];
		let mut put = |m: &mut Vec<(String, J)>, k: &str, v: J| {
			if !m.iter().any(|(a, _)| a == k) {
				m.push((k.to_string(), v))
			}
		};
		let many = if self.r.pc(10) { 100 } else { 18 };
		for k in ["@base", "@import", "@language", "@direction", "@propagate", "@protected", "@type", "@version", "@vocab"] {
			if !self.r.pc(many) {
				continue;
			}
			let v = match k {
				"@base" => {
					let v = self.iri();
					self.nullable(v)
				}
				"@import" => self.iri(),
				"@language" => {
					let v = lang(&mut self.r);
					self.nullable(v)
				}
				"@direction" => {
					let v = s(&self.r.ps(&["ltr", "rtl"]));
					self.nullable(v)
				}
				"@type" => {
					let mut t = vec![("@container", s("@set"))];
					if self.r.pc(50) {
						t.push(("@protected", self.boolean()));
					}
					if self.r.pc(self.bad) {
						t.push((*self.r.pick(&["@id", "x"]), J::Null));
					}
					if self.r.pc(self.bad) {
						t.remove(0);
					}
					self.or_bad(|_| obj(t))
				}
				"@version" => self.or_bad(|r| J::Num(r.ps(&["1.1", "1.1", "1.1", "1.10", "1.100", "1.1e0", "11e-1", "0.11E1", "110e-2", "1.1E+00"]))),
				"@vocab" => {
					let v = s(&self.r.ps(&["http://v.org/", "", "_:b", "ex:", "rel", "a b"]));
					self.nullable(v)
				}
				_ => self.boolean(),
			};
			put(&mut m, k, v);
		}
		let n = if self.r.pc(8) { 12 } else { self.r.below(5) };
		for _ in 0..n {
			let k = match self.r.below(20) {
				0 => self.r.ps(&KEYWORDS),
				1 => random_string(&mut self.r),
				_ => self.r.ps(&TERMS),
			};
			if ["@base", "@import", "@language", "@direction", "@propagate", "@protected", "@type", "@version", "@vocab"].contains(&k.as_str()) {
				continue;
			}
			let v = self.term(d);
			put(&mut m, &k, v);
		}
		self.r.shuffle(&mut m);
		J::Obj(m)
	}
	fn context(&mut self, d: usize) -> J {
		if self.r.pc(25) {
			let n = self.r.below(4);
			J::Arr((0..n).map(|_| self.entry(d)).collect())
		} else {
			self.entry(d)
		}
	}
}

pub fn options(r: &mut Rng) -> J {
	let mut m = vec![];
	let lim = |r: &mut Rng| match r.below(5) {
		0 => J::Null,
		1 => s("always"),
		2 => J::Arr(vec![s("item"), J::Num(r.below(4).to_string())]),
		3 => J::Arr(vec![s("width"), J::Num(r.below(60).to_string())]),
		_ => J::Arr(vec![s("both"), J::Num(r.below(4).to_string()), J::Num(r.below(60).to_string())]),
	};
	m.push(("tabs", J::Bool(r.pc(30))));
	m.push(("indent", J::Num(r.below(5).to_string())));
	m.push(("pad", J::Arr((0..11).map(|_| J::Num(r.below(3).to_string())).collect())));
	m.push(("al", lim(r)));
	m.push(("ol", lim(r)));
	obj(m)
}

fn num(j: Option<&J>) -> usize {
	match j {
		Some(J::Num(n)) => n.parse().unwrap_or(0),
		_ => 0,
	}
}

pub fn opts_of(j: &J) -> json_syntax::print::Options {
	use json_syntax::print::{Indent, Limit, Options};
	let mut o = Options::pretty();
	let i = num(j.get("indent")) as u8;
	o.indent = if j.get("tabs") == Some(&J::Bool(true)) { Indent::Tabs(i) } else { Indent::Spaces(i) };
	let p = j.get("pad").map(|x| x.to_arr()).unwrap_or_default();
	let g = |k: usize| num(p.get(k));
	o.array_begin = g(0);
	o.array_end = g(1);
	o.array_empty = g(2);
	o.array_before_comma = g(3);
	o.array_after_comma = g(4);
	o.object_begin = g(5);
	o.object_end = g(6);
	o.object_empty = g(7);
	o.object_before_comma = g(8);
	o.object_after_comma = g(9);
	o.object_before_colon = g(10);
	let lim = |v: Option<&J>| match v {
		Some(J::Str(_)) => Some(Limit::Always),
		Some(J::Arr(a)) => match a.first().and_then(|x| x.as_str()) {
			Some("item") => Some(Limit::Item(num(a.get(1)))),
			Some("width") => Some(Limit::Width(num(a.get(1)))),
			Some("both") => Some(Limit::ItemOrWidth(num(a.get(1)), num(a.get(2)))),
			_ => None,
		},
		_ => None,
	};
	o.array_limit = lim(j.get("al"));
	o.object_limit = lim(j.get("ol"));
	o
}

fn context_case(mut r: Rng) -> J {
	let bad = *r.pick(&[0, 0, 0, 2, 5, 12]);
	let print = options(&mut r);
	let d = r.below(3);
	let mut g = Gc { r, bad };
	let c = g.context(d);
	obj(vec![("context", c), ("print", print)])
}

// --- what a context may look like

fn ok_ref(v: &str) -> bool {
	iref::IriRef::new(v).is_ok()
}

fn null_or(v: &J, f: impl Fn(&str) -> bool) -> bool {
	match v {
		J::Null => true,
		J::Str(x) => f(x),
		_ => false,
	}
}

fn valid_term(v: &J) -> bool {
	match v {
		J::Null | J::Str(_) => true,
		J::Obj(m) => m.iter().all(|(k, v)| match k.as_str() {
			"@id" | "@type" | "@language" => null_or(v, |_| true),
			"@context" => valid_context(v),
			"@reverse" | "@index" => v.is_str(),
			"@direction" => null_or(v, |d| d == "ltr" || d == "rtl"),
			"@container" => match v {
				J::Arr(a) => a.iter().all(|x| x.as_str().map_or(false, |x| KINDS.contains(&x))),
				v => null_or(v, |x| KINDS.contains(&x)),
			},
			"@nest" => v.as_str().map_or(false, |x| x == "@nest" || !KEYWORDS.contains(&x)),
			"@prefix" | "@propagate" | "@protected" => matches!(v, J::Bool(_)),
			_ => false,
		}),
		_ => false,
	}
}

fn valid_entry(v: &J) -> bool {
	match v {
		J::Null => true,
		J::Str(x) => ok_ref(x),
		J::Obj(m) => m.iter().all(|(k, v)| match k.as_str() {
			"@base" => null_or(v, ok_ref),
			"@import" => v.as_str().map_or(false, ok_ref),
			"@language" | "@vocab" => null_or(v, |_| true),
			"@direction" => null_or(v, |d| d == "ltr" || d == "rtl"),
			"@propagate" | "@protected" => matches!(v, J::Bool(_)),
			"@type" => {
				v.get("@container") == Some(&s("@set"))
					&& v.as_obj().unwrap().iter().all(|(k, v)| k == "@container" || (k == "@protected" && matches!(v, J::Bool(_))))
			}
			"@version" => matches!(v, J::Num(n) if is_1_1(n)),
			_ => valid_term(v),
		}),
		_ => false,
	}
}

fn valid_context(v: &J) -> bool {
	match v {
		J::Arr(a) => a.iter().all(valid_entry),
		v => valid_entry(v),
	}
}

/// Every way to write the version number becomes `1.1`.
fn canon(v: &J, top: bool) -> J {
	match v {
		J::Obj(m) => J::Obj(
			m.iter()
				.map(|(k, v)| {
					let v = if top && k == "@version" { J::Num("1.1".into()) } else { canon(v, k == "@context" || !top) };
					(k.clone(), v)
				})
				.collect(),
		),
		J::Arr(a) => J::Arr(a.iter().map(|x| canon(x, top)).collect()),
		v => v.clone(),
	}
}

macro_rules! check {
	($c:expr, $class:expr, $($d:tt)*) => {
		if !$c {
			return fail($class, format!($($d)*));
		}
	};
}

/// A term definition described entry by entry.
fn term_json(e: &ExpandedRef) -> J {
	fn nul<T>(v: Nullable<T>, f: impl Fn(T) -> J) -> J {
		match v {
			Nullable::Null => J::Null,
			Nullable::Some(v) => f(v),
		}
	}
	let mut m = vec![];
	if let Some(v) = &e.id {
		m.push(("@id", match v {
			Nullable::Null => J::Null,
			Nullable::Some(v) => s(v.as_str()),
		}));
	}
	if let Some(v) = e.type_ {
		m.push(("@type", nul(v, |t| s(t.as_str()))));
	}
	if let Some(v) = e.context {
		m.push(("@context", J::from_js(&v.clone().into_json())));
	}
	if let Some(v) = e.reverse {
		m.push(("@reverse", s(v.as_str())));
	}
	if let Some(v) = e.index {
		m.push(("@index", s(v.as_str())));
	}
	if let Some(v) = e.language {
		m.push(("@language", nul(v, |t| s(t.as_str()))));
	}
	if let Some(v) = e.direction {
		m.push(("@direction", nul(v, |t| s(t.as_str()))));
	}
	if let Some(v) = e.container {
		m.push(("@container", nul(v, |t| match t {
			Container::One(k) => s(k.as_str()),
			Container::Many(k) => J::Arr(k.iter().map(|k| s(k.as_str())).collect()),
		})));
	}
	if let Some(v) = e.nest {
		m.push(("@nest", s(v.as_str())));
	}
	for (k, v) in [("@prefix", e.prefix), ("@propagate", e.propagate), ("@protected", e.protected)] {
		if let Some(b) = v {
			m.push((k, J::Bool(b)));
		}
	}
	obj(m)
}

fn value_json(v: &EntryValueRef) -> J {
	use EntryValueRef as E;
	match v {
		E::Base(Nullable::Some(i)) => s(i.as_str()),
		E::Import(i) => s(i.as_str()),
		E::Language(Nullable::Some(l)) => s(l.as_str()),
		E::Direction(Nullable::Some(d)) => s(d.as_str()),
		E::Propagate(b) | E::Protected(b) => J::Bool(*b),
		E::Type(t) => J::from_js(&t.into_json()),
		E::Version(v) => J::Num(v.into_str().to_string()),
		E::Vocab(Nullable::Some(v)) => s(v.as_str()),
		E::Definition(Nullable::Some(d)) => J::from_js(&(*d).clone().into_json()),
		_ => J::Null,
	}
}

fn hash<T: Hash + ?Sized>(t: &T) -> u64 {
	let mut h = DefaultHasher::new();
	t.hash(&mut h);
	h.finish()
}

fn exact<I: ExactSizeIterator>(mut i: I) -> Option<usize> {
	let n = i.len();
	for left in (0..n).rev() {
		i.next()?;
		if i.len() != left {
			return None;
		}
	}
	if i.next().is_some() {
		return None;
	}
	Some(n)
}

fn judge_context(c: &J, o: &mut Obs) -> V {
	let raw = match c.get("context") {
		Some(x) => x.clone().dedup(),
		None => return V::Skip("not a case"),
	};
	let valid = valid_context(&raw);
	let parsed = match guard(|| match Context::try_from_json(raw.to_js()) {
		Ok(c) => Out::Ok(c),
		Err(e) => Out::Err(e.code().as_str().to_string(), String::new()),
	}) {
		Out::Ok(c) => Some(c),
		Out::Err(..) => None,
		p => return fail("panic", p.map(|_| "").text()),
	};
	check!(parsed.is_some() == valid, if valid { "rejected" } else { "accepted" }, "reading {}", raw.text());
	let ctx = match parsed {
		Some(c) => c,
		None => {
			o.hit("invalid contexts refused");
			return V::Pass;
		}
	};
	match guard(|| Out::Ok(round(&ctx, &raw, c, o))) {
		Out::Ok(v) => v,
		p => fail("panic", p.map(|_| "").text()),
	}
}

fn round(ctx: &Context, raw: &J, c: &J, o: &mut Obs) -> V {
	let want = canon(raw, true).sorted();
	let js = ctx.clone().into_json();
	let out = J::from_js(&js);
	check!(out.sorted() == want, "written", "{} written as {}", raw.text(), out.text());
	let again = Context::try_from_json(js.clone());
	check!(matches!(&again, Ok(a) if a == ctx), "read back", "{} read back as {:?}", out.text(), again);

	// printing
	let opts = c.get("print").map(opts_of).unwrap_or_else(json_syntax::print::Options::pretty);
	for (name, a, b) in [
		("compact", ctx.compact_print().to_string(), js.compact_print().to_string()),
		("inline", ctx.inline_print().to_string(), js.inline_print().to_string()),
		("pretty", ctx.pretty_print().to_string(), js.pretty_print().to_string()),
		("options", ctx.print_with(opts.clone()).to_string(), js.print_with(opts.clone()).to_string()),
	] {
		match json_syntax::Value::parse_str(&a) {
			Ok((v, _)) => {
				let p = J::from_js(&v);
				check!(p == out, "printed value", "{name}: {} printed as {a}", out.text());
			}
			Err(e) => return fail("printed text", format!("{name}: {} printed as {a}: {e}", out.text())),
		}
		check!(a == b, "layout", "{name}: context printed as {a:?}, its JSON form as {b:?}");
		o.hit("texts printed and read back");
	}

	// serde
	match json_syntax::from_value::<Context>(raw.to_js()) {
		Ok(d) => check!(&d == ctx, "deserialize", "{} deserialized as {}", raw.text(), J::from_js(&d.into_json()).text()),
		Err(e) => return fail("deserialize", format!("{}: {e}", raw.text())),
	}
	match json_syntax::to_value(ctx) {
		Ok(v) => {
			let v = J::from_js(&v);
			check!(v.sorted() == want, "serialize", "{} serialized as {}", raw.text(), v.text());
		}
		Err(e) => return fail("serialize", format!("{}: {e}", raw.text())),
	}
	let doc = obj(vec![("@context", raw.clone())]);
	match json_syntax::from_value::<ContextDocument>(doc.to_js()) {
		Ok(d) => {
			check!(&d.context == ctx, "context document", "{}", doc.text());
			let v = J::from_js(&json_syntax::to_value(&d).unwrap());
			check!(v.sorted() == obj(vec![("@context", want.clone())]), "context document", "{} serialized as {}", doc.text(), v.text());
		}
		Err(e) => return fail("context document", format!("{}: {e}", doc.text())),
	}

	// accessors
	let entries = match raw {
		J::Arr(a) => a.clone(),
		x => vec![x.clone()],
	};
	check!(
		ctx.len() == entries.len() && ctx.is_empty() == entries.is_empty() && ctx.is_array() == raw.is_arr() && ctx.is_object() == raw.is_obj(),
		"shape",
		"{}",
		raw.text()
	);
	check!(
		ctx.iter().count() == entries.len() && ctx.clone().into_iter().eq(ctx.as_slice().iter().cloned()) && (&*ctx).into_iter().eq(ctx.iter()),
		"iteration",
		"{}",
		raw.text()
	);
	for (e, j) in ctx.iter().zip(&entries) {
		check!(e.is_object() == j.is_obj(), "shape", "{}", j.text());
		check!(Context::from(e.clone()) == Context::One(e.clone()), "from entry", "{}", j.text());
		let d = match e {
			ContextEntry::Definition(d) => d,
			ContextEntry::IriRef(i) => {
				check!(j.as_str() == Some(i.as_str()), "reference", "{}", j.text());
				continue;
			}
			ContextEntry::Null => continue,
		};
		let m = j.as_obj().unwrap();
		check!(exact(d.iter()) == Some(m.len()), "length", "{}", j.text());
		let want = canon(j, true);
		for entry in d.iter() {
			let (k, v) = entry.key_value();
			let w = want.get(k.as_str()).cloned().unwrap_or(s("(missing)"));
			let w = w.sorted();
			check!(value_json(&v).sorted() == w && value_json(&entry.value()).sorted() == w, "entry", "{} is {} in {}", k.as_str(), value_json(&v).text(), j.text());
			check!(entry.key().as_str() == k.as_str(), "entry key", "{}", j.text());
			let kk: KeyOrKeyword = KeyOrKeywordRef::from(k.as_str()).to_owned();
			check!(kk.as_str() == k.as_str() && kk.as_keyword().is_some() == KEYWORDS.contains(&k.as_str()), "name", "{}", k.as_str());
			// keywords that are not context entries are bindings
			let g = match d.get(&kk) {
				Some(g) => value_json(&g),
				None if d.bindings.get(&Key::from(k.as_str())).is_some() => w.clone(),
				None => s("(missing)"),
			};
			check!(g.sorted() == w, "get", "get {} is {} in {}", k.as_str(), g.text(), j.text());
			check!(v.is_object() == w.is_obj(), "shape of an entry", "{} in {}", k.as_str(), j.text());
		}
		check!(d.get(&KeyOrKeyword::Key(Key::from("(nowhere)"))).is_none(), "get", "{}", j.text());

		// bindings
		let terms: Vec<&(String, J)> = m.iter().filter(|(k, _)| !["@base", "@import", "@language", "@direction", "@propagate", "@protected", "@type", "@version", "@vocab"].contains(&k.as_str())).collect();
		let b = &d.bindings;
		check!(b.len() == terms.len() && b.is_empty() == terms.is_empty() && exact(b.iter()) == Some(terms.len()), "number of bindings", "{}", j.text());
		let names: Vec<&str> = b.iter().map(|x| x.0.as_str()).collect();
		check!(names.iter().copied().eq(terms.iter().map(|x| x.0.as_str())), "order of bindings", "{:?} in {}", names, j.text());
		check!(b.iter().rev().map(|x| x.0.as_str()).eq(names.iter().rev().copied()), "reverse order of bindings", "{}", j.text());
		check!(b.clone().into_iter().collect::<json_ld::syntax::context::definition::Bindings>() == *b, "collect bindings", "{}", j.text());
		for (i, (k, v)) in b.iter().enumerate() {
			check!(b.get(k) == Some(v) && b.get_entry(i) == Some((k, v)) && d.get_binding(k) == Some(v), "binding", "{} in {}", k, j.text());
			let x = term_json(&ExpandedRef::from(v));
			let w = match &want.get(k.as_str()).unwrap() {
				J::Null => obj(vec![("@id", J::Null)]),
				J::Str(t) => obj(vec![("@id", s(t))]),
				o => (*o).clone(),
			};
			check!(x.sorted() == w.sorted(), "definition", "{k}: {} for {}", x.text(), w.text());
			if let Nullable::Some(t) = v {
				check!(t.is_expanded() == want.get(k.as_str()).unwrap().is_obj() && t.is_object() == t.is_expanded(), "is_expanded", "{k} in {}", j.text());
				if let json_ld::syntax::context::TermDefinition::Expanded(e) = t {
					check!(exact(e.iter()) == Some(w.len()), "length of a definition", "{}", w.text());
					for f in e.iter() {
						check!(w.has(f.key().as_str()) && f.key().keyword().into_str() == f.key().as_str(), "key of a definition", "{}", w.text());
					}
					let simple = (**e).clone().simplify();
					let y = term_json(&ExpandedRef::from(simple.as_ref()));
					check!(y.sorted() == w.sorted(), "simplify", "{} simplified to {}", w.text(), y.text());
					let null = w == obj(vec![("@id", J::Null)]);
					check!(e.is_null() == null, "is_null", "{}", w.text());
					check!(e.is_simple_definition() == (w.len() == 1 && w.get("@id").map_or(false, |x| x.is_str())), "is_simple_definition", "{}", w.text());
				}
				o.hit("term definitions");
			}
		}
	}

	// fragments
	let (mut contexts, mut defs, mut arrays) = (0, 0, 0);
	for f in ctx.traverse() {
		match f {
			FragmentRef::ContextArray(_) => arrays += 1,
			FragmentRef::Context(_) => contexts += 1,
			FragmentRef::DefinitionFragment(d) => {
				if d.is_entry() {
					defs += 1
				}
			}
		}
	}
	let top: usize = entries.iter().map(|e| if e.is_obj() { e.len() } else { 0 }).sum();
	check!(contexts == entries.len() && arrays == raw.is_arr() as usize && defs >= top, "fragments", "{contexts} contexts, {arrays} arrays, {defs} entries in {}", raw.text());

	o.hit("valid contexts");
	o.seen(&want);
	if o.samples.len() < 2 && raw.size() > 8 {
		o.samples.push(format!("context: {}", raw.text()));
	}
	V::Pass
}

// --- names

fn name_case(mut r: Rng) -> J {
	let f = |r: &mut Rng| match r.below(12) {
		0 => r.ps(&KEYWORDS),
		1 => format!("@{}", r.ps(&["abc", "X", "", "a1", "é", "Type", "a-b", "ID", "json ", "@"])),
		2 => r.ps(&TERMS),
		3 => r.ps(&REFS),
		4 => r.ps(&BAD_REFS),
		5 => format!("{}:{}", r.ps(&["ex", "_", "", "a b", "é", "http", "1", "@id"]), r.ps(&["x", "//x", "/x", "", "a:b", "a b", "/", "#é"])),
		6 => r.ps(&["ltr", "rtl", "LTR", "1.1", "1.10", "json-ld-1.0", "json-ld-1.1", "i18n-datatype", "compound-literal", "@set"]),
		7 => r.ps(&["en", "EN", "eN-Us", "en-us", "en_us", "fr", "", "e", "é", "É", "k", "K", "[", "{", "@a", "`a"]),
		8 => {
			let mut k = r.ps(&KEYWORDS);
			let i = r.below(k.len());
			match r.below(3) {
				0 => {
					k.remove(i);
				}
				1 => k.insert(i, 'e'),
				_ => k = k.to_uppercase(),
			}
			k
		}
		_ => random_string(r),
	};
	let names: Vec<J> = (0..4).map(|_| s(&f(&mut r))).collect();
	let ops: Vec<J> = (0..r.below(8))
		.map(|_| {
			let l = if r.pc(50) { J::Null } else { lang(&mut r) };
			let d = if r.pc(50) { J::Null } else { s(&r.ps(&["ltr", "rtl"])) };
			J::Arr(vec![s(&r.ps(&["language", "direction", "both"])), l, d])
		})
		.collect();
	obj(vec![("names", J::Arr(names)), ("ops", J::Arr(ops))])
}

fn all_codes() -> Vec<ErrorCode> {
	use ErrorCode::*;
	vec![
		CollidingKeywords, ConflictingIndexes, ContextOverflow, CyclicIriMapping, InvalidIdValue, InvalidImportValue, InvalidIncludedValue, InvalidIndexValue, InvalidNestValue,
		InvalidPrefixValue, InvalidPropagateValue, InvalidProtectedValue, InvalidReverseValue, InvalidVersionValue, InvalidBaseDirection, InvalidBaseIri, InvalidContainerMapping,
		InvalidContextEntry, InvalidContextNullification, InvalidDefaultLanguage, InvalidIriMapping, InvalidJsonLiteral, InvalidKeywordAlias, InvalidLanguageMapValue,
		InvalidLanguageMapping, InvalidLanguageTaggedString, InvalidLanguageTaggedValue, InvalidLocalContext, InvalidRemoteContext, InvalidReverseProperty, InvalidReversePropertyMap,
		InvalidReversePropertyValue, InvalidScopedContext, InvalidScriptElement, InvalidSetOrListObject, InvalidTermDefinition, InvalidTypeMapping, InvalidTypeValue,
		InvalidTypedValue, InvalidValueObject, InvalidValueObjectValue, InvalidVocabMapping, IriConfusedWithPrefix, KeyExpansionFailed, KeywordRedefinition, LoadingDocumentFailed,
		LoadingRemoteContextFailed, MultipleContextLinkHeaders, ProcessingModeConflict, ProtectedTermRedefinition, DuplicateKey,
	]
}

/// The codes of the recommendation, spelled out.
const CODES: [&str; 49] = [
	"colliding keywords", "conflicting indexes", "context overflow", "cyclic IRI mapping", "invalid @id value", "invalid @import value", "invalid @included value",
	"invalid @index value", "invalid @nest value", "invalid @prefix value", "invalid @propagate value", "invalid @protected value", "invalid @reverse value",
	"invalid @version value", "invalid base direction", "invalid base IRI", "invalid container mapping", "invalid context entry", "invalid context nullification",
	"invalid default language", "invalid IRI mapping", "invalid JSON literal", "invalid keyword alias", "invalid language map value", "invalid language mapping",
	"invalid language-tagged string", "invalid language-tagged value", "invalid local context", "invalid remote context", "invalid reverse property",
	"invalid reverse property map", "invalid reverse property value", "invalid scoped context", "invalid script element", "invalid set or list object",
	"invalid term definition", "invalid type mapping", "invalid type value", "invalid typed value", "invalid value object", "invalid value object value",
	"invalid vocab mapping", "IRI confused with prefix", "keyword redefinition", "loading document failed", "loading remote context failed", "multiple context link headers",
	"processing mode conflict", "protected term redefinition",
];

fn judge_names(c: &J, o: &mut Obs) -> V {
	match guard(|| Out::Ok(names(c, o))) {
		Out::Ok(v) => v,
		p => fail("panic", p.map(|_| "").text()),
	}
}

fn ser<T: serde::Serialize>(t: &T) -> J {
	J::from_js(&json_syntax::to_value(t).unwrap())
}

fn de<T: serde::de::DeserializeOwned>(j: &J) -> Option<T> {
	json_syntax::from_value(j.to_js()).ok()
}

fn names(c: &J, o: &mut Obs) -> V {
	let list: Vec<String> = c.get("names").map(|x| x.to_arr()).unwrap_or_default().iter().filter_map(|x| x.as_str().map(|x| x.to_string())).collect();
	for t in &list {
		let t = t.as_str();
		o.hit("names");
		o.seen(&t);
		// keywords
		let kw = KEYWORDS.contains(&t);
		check!(is_keyword(t) == kw && Keyword::try_from(t).is_ok() == kw, "keyword", "{t:?}");
		let like = t.len() > 1 && t.starts_with('@') && t[1..].bytes().all(|b| b.is_ascii_alphabetic());
		check!(is_keyword_like(t) == like && Key::from(t).is_keyword_like() == like, "keyword-like", "{t:?}");
		check!(de::<Keyword>(&s(t)).is_some() == kw, "keyword deserialized", "{t:?}");
		if let Ok(k) = Keyword::try_from(t) {
			check!(k.into_str() == t && k.to_string() == t && ser(&k) == s(t) && de::<Keyword>(&s(t)) == Some(k), "keyword round trip", "{t:?}");
			check!(J::from_js(&k.into_json()) == s(t), "keyword round trip", "{t:?}");
			check!(ContainerKind::try_from(k).is_ok() == KINDS.contains(&t), "container keyword", "{t:?}");
			check!(TypeKeyword::try_from(k).is_ok() == ["@id", "@json", "@none", "@vocab"].contains(&t), "type keyword", "{t:?}");
		}
		let kind = KINDS.contains(&t);
		check!(ContainerKind::try_from(t).is_ok() == kind && de::<ContainerKind>(&s(t)).is_some() == kind, "container kind", "{t:?}");
		if let Ok(k) = ContainerKind::try_from(t) {
			check!(k.as_str() == t && k.keyword().into_str() == t && Keyword::from(k) == k.into_keyword() && ser(&k) == s(t) && de(&s(t)) == Some(k), "container kind", "{t:?}");
		}
		let tk = ["@id", "@json", "@none", "@vocab"].contains(&t);
		check!(TypeKeyword::try_from(t).is_ok() == tk && de::<TypeKeyword>(&s(t)).is_some() == tk, "type keyword", "{t:?}");
		if let Ok(k) = TypeKeyword::try_from(t) {
			check!(k.as_str() == t && k.into_str() == t && k.keyword().into_str() == t && ser(&k) == s(t) && de(&s(t)) == Some(k), "type keyword", "{t:?}");
		}
		let dir = t == "ltr" || t == "rtl";
		check!(Direction::try_from(t).is_ok() == dir && t.parse::<Direction>().is_ok() == dir && de::<Direction>(&s(t)).is_some() == dir, "direction", "{t:?}");
		if let Ok(d) = Direction::try_from(t) {
			check!(d.as_str() == t && d.into_str() == t && d.to_string() == t && ser(&d) == s(t) && de(&s(t)) == Some(d), "direction", "{t:?}");
		}
		check!(t.parse::<TypeContainer>().is_ok() == (t == "@set") && de::<TypeContainer>(&s(t)).is_some() == (t == "@set"), "type container", "{t:?}");
		check!(t.parse::<Version>().is_ok() == (t == "1.1"), "version", "{t:?}");
		let nest_ok = t == "@nest" || !kw;
		match Nest::try_from(t.to_string()) {
			Ok(n) => {
				check!(nest_ok && n.as_str() == t && matches!(n, Nest::Nest) == (t == "@nest") && ser(&n) == s(t) && de::<Nest>(&s(t)) == Some(n.clone()) && n.into_string() == t, "nest", "{t:?}");
			}
			Err(_) => {
				check!(!nest_ok && de::<Nest>(&s(t)).is_none(), "nest", "{t:?}");
			}
		}
		let id = term_definition::Id::from(t.to_string());
		check!(
			id.is_keyword() == kw && id.as_keyword().map(|k| k.into_str()) == Some(t).filter(|_| kw) && id.as_str() == t && id.to_string() == t && id.is_keyword_like() == like
				&& ser(&id) == s(t) && de(&s(t)) == Some(id.clone()) && id.as_id_ref().as_str() == t && id.as_id_ref().is_keyword() == kw && id.clone().into_string() == t,
			"id of a term",
			"{t:?}"
		);
		let ty = term_definition::Type::from(t.to_string());
		check!(
			ty.as_keyword().map(|k| k.into_str()) == Some(t).filter(|_| tk) && ty.as_str() == t && ser(&ty) == s(t) && de(&s(t)) == Some(ty.clone()) && ty.clone().into_string() == t,
			"type of a term",
			"{t:?}"
		);
		// compact IRIs
		let iri = iref::Iri::new(t).is_ok();
		let blank = rdf_types::BlankId::new(t).is_ok();
		let compact = match t.find(':') {
			Some(i) => &t[..i] != "_" && !t[i + 1..].starts_with("//") && ok_ref(t),
			None => false,
		};
		check!(CompactIri::new(t).is_ok() == compact && CompactIriBuf::new(t.to_string()).is_ok() == compact, "compact IRI", "{t:?}");
		if let Ok(x) = CompactIri::new(t) {
			let i = t.find(':').unwrap();
			check!(x.prefix() == &t[..i] && x.suffix() == &t[i + 1..] && x.as_str() == t && x.as_iri_ref().as_str() == t && &**x == t, "parts of a compact IRI", "{t:?}");
			let b = x.to_owned();
			check!(b.as_compact_iri() == x && b.clone().into_string() == t && b.clone().into_iri_ref().as_str() == t && hash(&b) == hash(&CompactIriBuf::new(t.to_string()).ok().unwrap()), "compact IRI round trip", "{t:?}");
		}
		let key = Key::from(t);
		check!(
			key.as_iri().is_some() == iri && key.as_blank_id().is_some() == blank && key.as_compact_iri().is_some() == compact && key.as_str() == t && key.len() == t.len()
				&& key.is_empty() == t.is_empty() && key.to_string() == t && ser(&key) == s(t) && de(&s(t)) == Some(key.clone()) && hash(&key) == hash(t) && key.clone().into_string() == t,
			"key",
			"{t:?}"
		);
		check!(
			id.as_iri().is_some() == (iri && !kw) && id.as_blank_id().is_some() == (blank && !kw) && id.as_compact_iri().is_some() == (compact && !kw) && ty.as_iri().is_some() == (iri && !tk),
			"kind of a name",
			"{t:?}"
		);
		let kk = KeyOrKeywordRef::from(t).to_owned();
		check!(
			kk.as_str() == t && kk.as_keyword().is_some() == kw && kk.as_key().is_some() != kw && kk.clone().into_keyword().is_some() == kw && kk.clone().into_key().is_some() != kw && kk.to_string() == t
				&& kk.is_empty() == t.is_empty() && KeyOrKeywordRef::from(&kk).as_str() == t && hash(&kk) == hash(t),
			"key or keyword",
			"{t:?}"
		);
		// codes and modes
		let code = CODES.contains(&t);
		check!(ErrorCode::try_from(t).is_ok() == (code || t == "duplicate key" || t == "key expansion failed"), "error code", "{t:?}");
		check!(ProcessingMode::try_from(t).is_ok() == (t == "json-ld-1.0" || t == "json-ld-1.1"), "processing mode", "{t:?}");
		if let Ok(m) = ProcessingMode::try_from(t) {
			check!(m.as_str() == t && m.to_string() == t, "processing mode", "{t:?}");
		}
		check!(t.parse::<RdfDirection>().is_ok() == (t == "i18n-datatype" || t == "compound-literal") && RdfDirection::try_from(t).is_ok() == t.parse::<RdfDirection>().is_ok(), "RDF direction", "{t:?}");
		// language tags
		let (l, err) = LenientLangTag::new(t);
		let (lb, eb) = LenientLangTagBuf::new(t.to_string());
		check!(
			l.as_str() == t && lb.as_str() == t && l.as_bytes() == t.as_bytes() && l == lb.as_lenient_lang_tag_ref() && l.to_owned() == lb && lb.to_string() == t && lb.clone().into_string() == t,
			"language tag",
			"{t:?}"
		);
		let wf = l.is_well_formed();
		check!(err.is_none() == wf && eb.is_none() == wf && l.as_well_formed().is_some() == wf && lb.clone().into_well_formed().is_ok() == wf, "well-formed tag", "{t:?}");
		check!(ser(&lb) == s(t) && de::<LenientLangTagBuf>(&s(t)).map(|x| x.into_string()) == Some(t.to_string()) && ser(&l) == s(t), "language tag round trip", "{t:?}");
	}
	// comparisons of tags do not depend on the case, and are total orders
	for a in &list {
		for b in &list {
			let (x, _) = LenientLangTag::new(a);
			let (y, _) = LenientLangTag::new(b);
			let same = a.to_ascii_lowercase() == b.to_ascii_lowercase();
			check!((x == y) == same && (x.cmp(y) == std::cmp::Ordering::Equal) == same && x.cmp(y) == y.cmp(x).reverse() && x.partial_cmp(y) == Some(x.cmp(y)), "comparison of tags", "{a:?} {b:?}");
			check!(!same || (hash(x) == hash(y) && hash(&x.to_owned()) == hash(y)), "hash of tags", "{a:?} {b:?}");
			check!((x.to_owned() == y.to_owned()) == same && x.to_owned().cmp(&y.to_owned()) == x.cmp(y), "comparison of owned tags", "{a:?} {b:?}");
			let (lx, _) = LenientLangTag::new(a);
			let low = a.to_ascii_lowercase();
			let (ll, _) = LenientLangTag::new(&low);
			check!(lx.cmp(y) == ll.cmp(y), "case of tags", "{a:?} {b:?}");
			for z in &list {
				let (z, _) = LenientLangTag::new(z);
				check!(!(x <= y && y <= z) || x <= z, "order of tags", "{a:?} {b:?} {z}");
			}
			let (ka, kb) = (KeyOrKeywordRef::from(a.as_str()).to_owned(), KeyOrKeywordRef::from(b.as_str()).to_owned());
			check!((ka == kb) == (a == b) && (Key::from(a.as_str()) == Key::from(b.as_str())) == (a == b), "equality of names", "{a:?} {b:?}");
			let (na, nb) = (Nest::try_from(a.clone()), Nest::try_from(b.clone()));
			if let (Ok(na), Ok(nb)) = (na, nb) {
				check!((na == nb) == (a == b) && (a != b || hash(&na) == hash(&nb)), "equality of nest values", "{a:?} {b:?}");
			}
			let (ia, ib) = (term_definition::Id::from(a.clone()), term_definition::Id::from(b.clone()));
			check!((ia == ib) == (a == b) && (a != b || hash(&ia) == hash(&ib)), "equality of ids", "{a:?} {b:?}");
			let (ta, tb) = (term_definition::Type::from(a.clone()), term_definition::Type::from(b.clone()));
			check!((ta == tb) == (a == b) && (a != b || hash(&ta) == hash(&tb)), "equality of types", "{a:?} {b:?}");
		}
	}
	lang_strings(c, o)
}

fn lang_strings(c: &J, o: &mut Obs) -> V {
	let ops = c.get("ops").map(|x| x.to_arr()).unwrap_or_default();
	let mut model: Option<(Option<String>, Option<String>)> = None;
	let mut real: Option<LangString> = None;
	for op in &ops {
		let a = op.to_arr();
		let name = a.first().and_then(|x| x.as_str()).unwrap_or("both").to_string();
		let l = a.get(1).and_then(|x| x.as_str()).map(|x| x.to_string());
		let d = a.get(2).and_then(|x| x.as_str()).map(|x| x.to_string());
		let rl = l.clone().map(LenientLangTagBuf::from);
		let rd = d.as_deref().and_then(|d| Direction::try_from(d).ok());
		let d = d.filter(|_| rd.is_some());
		match (&mut real, &mut model) {
			(Some(x), Some(m)) => {
				let next = match name.as_str() {
					"language" => (l, m.1.clone()),
					"direction" => (m.0.clone(), d),
					_ => (l, d),
				};
				let r = match name.as_str() {
					"language" => x.set_language(rl),
					"direction" => x.set_direction(rd),
					_ => x.set(rl, rd),
				};
				let ok = next.0.is_some() || next.1.is_some();
				check!(r.is_ok() == ok, "language string operation", "{} on {:?}", op.text(), m);
				if ok {
					*m = next
				}
			}
			_ => match LangString::new("text".into(), rl, rd) {
				Ok(x) => {
					check!(l.is_some() || d.is_some(), "language string without language", "{}", op.text());
					real = Some(x);
					model = Some((l, d));
				}
				Err(v) => check!(l.is_none() && d.is_none() && v.as_str() == "text", "language string refused", "{}", op.text()),
			},
		}
		if let (Some(x), Some(m)) = (&real, &model) {
			o.hit("states of language strings");
			let (l, d) = (m.0.as_deref(), m.1.as_deref());
			let ok = x.as_str() == "text" && x.language().map(|l| l.as_str()) == l && x.direction().map(|d| d.as_str()) == d;
			check!(ok, "language string", "{:?} should be {:?}", x, m);
			let r = x.as_lang_str();
			check!(r.as_str() == "text" && r.language().map(|l| l.as_str()) == l && r.direction().map(|d| d.as_str()) == d, "reference to a language string", "{:?} should be {:?}", r, m);
			let (pd, pl, pr) = r.into_parts();
			check!(LangStr::new(pd, pl, pr).ok() == Some(r), "parts of a language string", "{:?}", m);
			let p = x.parts();
			check!(p.0 == "text" && p.1.map(|x| x.as_str()) == l && p.2.map(|x| x.as_str()) == d, "parts of a language string", "{:?}", m);
			let (pd, pl, pr) = x.clone().into_parts();
			check!(LangString::new(pd, pl, pr).ok().as_ref() == Some(x), "parts of a language string", "{:?}", m);
			let mut w = vec![("@value", s("text"))];
			if let Some(l) = l {
				w.push(("@language", s(l)));
			}
			if let Some(d) = d {
				w.push(("@direction", s(d)));
			}
			let w = obj(w);
			check!(ser(x).sorted() == w.sorted() && ser(&r).sorted() == w.sorted() && de::<LangString>(&w).as_ref() == Some(x), "language string through serde", "{:?}", m);
		}
	}
	check!(de::<LangString>(&obj(vec![("@value", s("x"))])).is_none(), "language string without language", "serde");
	V::Pass
}

fn names_fixed() -> Vec<J> {
	let mut all: Vec<String> = KEYWORDS.iter().chain(CODES.iter()).chain(TERMS.iter()).chain(REFS.iter()).chain(BAD_REFS.iter()).map(|x| x.to_string()).collect();
	all.push("duplicate key".into());
	all.push("key expansion failed".into());
	all.chunks(4).map(|c| obj(vec![("names", J::Arr(c.iter().map(|x| s(x)).collect()))])).chain([s("codes")]).collect()
}

fn judge_names_or_codes(c: &J, o: &mut Obs) -> V {
	if c.as_str() != Some("codes") {
		return judge_names(c, o);
	}
	let mut seen = std::collections::BTreeSet::new();
	for e in all_codes() {
		check!(ErrorCode::try_from(e.as_str()) == Ok(e) && e.to_string() == e.as_str(), "error code", "{e:?} is {:?}", e.as_str());
		check!(seen.insert(e.as_str().to_string()), "error code", "{e:?} has the name of another");
		check!(CODES.contains(&e.as_str()) || e == ErrorCode::DuplicateKey || e == ErrorCode::KeyExpansionFailed, "error code", "{e:?} is {:?}", e.as_str());
	}
	for c in CODES {
		check!(seen.contains(c), "error code", "{c:?} missing");
	}
	for f in [1.1f64, 1.0, 1.10001, -1.1, 0.0, 2.1, f64::NAN] {
		check!(Version::try_from(f).is_ok() == (f == 1.1) && Version::try_from(f as f32).is_ok() == (f as f32 == 1.1), "version", "{f}");
	}
	for n in ["1.1", "1.10", "1.1e0", "11e-1", "0.11E1", "1.100", "1.11", "11", "1", "1.1e1", "-1.1", "1.01", "0.11", "110e-2"] {
		let b = json_syntax::NumberBuf::new(n.as_bytes().iter().copied().collect()).unwrap();
		check!(Version::try_from(b).is_ok() == is_1_1(n), "version", "{n}");
	}
	o.hit("tables of codes");
	V::Pass
}

// --- comparison modulo the order of arrays

fn value(r: &mut Rng, d: usize) -> J {
	match r.below(if d == 0 { 5 } else { 8 }) {
		0 => J::Null,
		1 => J::Bool(r.pc(50)),
		2 => J::Num(r.ps(&["0", "1", "1.0", "-0", "1e0", "2"])),
		3 => s(&r.ps(&["", "a", "b", "A"])),
		4 => s(&random_string(r)),
		5 | 6 => J::Arr((0..r.below(5)).map(|_| value(r, d - 1)).collect()),
		_ => {
			let mut m: Vec<(String, J)> = vec![];
			for k in ["a", "b", "@id", "", "c"] {
				if r.pc(45) {
					m.push((k.to_string(), value(r, d - 1)));
				}
			}
			J::Obj(m)
		}
	}
}

fn shuffle(r: &mut Rng, j: &J) -> J {
	match j {
		J::Arr(a) => {
			let mut a: Vec<J> = a.iter().map(|x| shuffle(r, x)).collect();
			r.shuffle(&mut a);
			J::Arr(a)
		}
		J::Obj(m) => {
			let mut m: Vec<(String, J)> = m.iter().map(|(k, v)| (k.clone(), shuffle(r, v))).collect();
			r.shuffle(&mut m);
			J::Obj(m)
		}
		x => x.clone(),
	}
}

/// Changes one place.
fn edit(r: &mut Rng, j: &J) -> J {
	match j {
		J::Arr(a) if !a.is_empty() && r.pc(80) => {
			let mut a = a.clone();
			let i = r.below(a.len());
			match r.below(6) {
				0 => {
					a.remove(i);
				}
				1 => a.push(a[i].clone()),
				2 => {
					let k = r.below(a.len());
					a[i] = a[k].clone()
				}
				_ => a[i] = edit(r, &a[i].clone()),
			}
			J::Arr(a)
		}
		J::Obj(m) if !m.is_empty() && r.pc(80) => {
			let mut m = m.clone();
			let i = r.below(m.len());
			match r.below(4) {
				0 => {
					m.remove(i);
				}
				1 => m[i].0 = "z".into(),
				_ => m[i].1 = edit(r, &m[i].1.clone()),
			}
			J::Obj(m)
		}
		_ => value(r, 1),
	}
}

fn compare_case(mut r: Rng) -> J {
	let d = r.range(1, 4);
	let a = value(&mut r, d);
	let mut b = shuffle(&mut r, &a);
	if r.pc(60) {
		b = edit(&mut r, &b);
	}
	obj(vec![("a", a), ("b", b)])
}

fn normal(j: &J) -> J {
	match j {
		J::Arr(a) => {
			let mut a: Vec<J> = a.iter().map(normal).collect();
			a.sort();
			J::Arr(a)
		}
		J::Obj(m) => {
			let mut m: Vec<(String, J)> = m.iter().map(|(k, v)| (k.clone(), normal(v))).collect();
			m.sort();
			J::Obj(m)
		}
		x => x.clone(),
	}
}

fn judge_compare(c: &J, o: &mut Obs) -> V {
	let (a, b) = match (c.get("a"), c.get("b")) {
		(Some(a), Some(b)) => (a.clone().dedup(), b.clone().dedup()),
		_ => return V::Skip("not a case"),
	};
	let same = normal(&a) == normal(&b);
	let (x, y) = (a.to_js(), b.to_js());
	let r = guard(|| Out::Ok((x.compare(&y), y.compare(&x), x.compare(&x))));
	match r {
		Out::Ok((p, q, i)) => {
			check!(p == same && q == same && i, "comparison", "{} and {}: {p}, {q}, itself {i}", a.text(), b.text());
		}
		p => return fail("panic", p.map(|_| "").text()),
	}
	o.hit(if same { "equal pairs" } else { "different pairs" });
	o.seen(&(normal(&a), normal(&b)));
	V::Pass
}

pub fn c15() -> Prop {
	Prop {
		id: "C15",
		level: "exploration",
		rule: "a context is read exactly when it has the shape of one; written, printed in any layout, or taken through serde it comes back the same; its accessors agree with its JSON form; keywords, names, tags, versions, codes convert both ways and compare as specified",
		assumptions: &["validity of IRI references is decided by the iref library", "duplicate keys are not generated"],
		mons: vec![
			Mon { name: "context", gen: context_case, judge: judge_context, fixed: none, quick: 60000, threads: 0 },
			Mon { name: "names", gen: name_case, judge: judge_names_or_codes, fixed: names_fixed, quick: 40000, threads: 0 },
			Mon { name: "compare", gen: compare_case, judge: judge_compare, fixed: none, quick: 60000, threads: 0 },
		],
	}
}
