//! Workload generators: contexts, documents, remote contexts.
use crate::json::{n, obj, s, J};
use crate::rng::Rng;
use std::collections::BTreeMap;

pub const TERMS: &[&str] = &["a", "b", "c", "d", "name", "knows", "tag", "label", "p1", "p2"];
pub const TYPES: &[&str] = &["T1", "T2", "T3"];
pub const PREFIXES: &[&str] = &["ex", "v", "w", "ab"];
pub const IRIS: &[&str] = &[
	"http://ex.org/a",
	"http://ex.org/b",
	"http://ex.org/ns#p1",
	"http://ex.org/ns#p2",
	"http://v.org/c",
	"http://v.org/voc/d",
	"urn:x:name",
	"http://ex.org/ns#T1",
	"http://v.org/voc/a",
	"http://v.org/voc/label",
];
pub const TYPE_IRIS: &[&str] = &["http://ex.org/ns#T1", "http://v.org/voc/T2", "http://ex.org/T3", "urn:x:T"];
pub const NS: &[&str] = &["http://ex.org/ns#", "http://ex.org/", "http://v.org/voc/", "http://v.org/", "urn:x:"];
pub const IDS: &[&str] = &[
	"http://ex.org/doc/1",
	"http://ex.org/doc/2",
	"http://ex.org/ns#s",
	"urn:x:i",
	"http://v.org/n",
	"http://base.org/dir/sub/x",
	"http://base.org/dir/doc",
];
pub const DTS: &[&str] = &[
	"http://www.w3.org/2001/XMLSchema#string",
	"http://www.w3.org/2001/XMLSchema#integer",
	"http://www.w3.org/2001/XMLSchema#double",
	"http://www.w3.org/2001/XMLSchema#boolean",
	"http://www.w3.org/2001/XMLSchema#date",
	"http://ex.org/ns#dt",
];
pub const LANGS: &[&str] = &["en", "fr", "de-AT", "EN"];
pub const BASE: &str = "http://base.org/dir/sub/doc.jsonld";

/// What the generators may produce.
#[derive(Clone, Debug)]
pub struct Profile {
	pub remote: bool,
	pub scoped: bool,
	pub maps: bool,
	pub direction: bool,
	pub bnodes: bool,
	pub json_lit: bool,
	pub reverse: bool,
	pub graphs: bool,
	pub included: bool,
	pub nest: bool,
	pub lists: bool,
	pub protected: bool,
	pub aliases: bool,
	pub relative: bool,
	pub indexes: bool,
	/// Percentage of locally odd (possibly invalid) constructs.
	pub odd: u32,
	pub size: usize,
}

impl Profile {
	pub fn full() -> Profile {
		Profile {
			remote: true,
			scoped: true,
			maps: true,
			direction: true,
			bnodes: true,
			json_lit: true,
			reverse: true,
			graphs: true,
			included: true,
			nest: true,
			lists: true,
			protected: true,
			aliases: true,
			relative: true,
			indexes: true,
			odd: 0,
			size: 14,
		}
	}
	/// A random restriction of the full profile, so that feature combinations
	/// are met in isolation as well as together.
	pub fn random(r: &mut Rng) -> Profile {
		let mut f = |p: u32| r.pc(p);
		Profile {
			remote: f(20),
			scoped: f(40),
			maps: f(60),
			direction: f(35),
			bnodes: f(60),
			json_lit: f(35),
			reverse: f(45),
			graphs: f(50),
			included: f(30),
			nest: f(30),
			lists: f(60),
			protected: f(20),
			aliases: f(40),
			relative: f(50),
			indexes: f(40),
			odd: if f(30) { 6 } else { 0 },
			size: 6 + r.below(14),
		}
	}
}

/// What is known about a term when writing data for it.
#[derive(Clone, Debug, Default)]
pub struct Hint {
	pub cont: Vec<String>,
	pub typ: Option<String>,
	pub reverse: bool,
	pub alias: Option<String>,
	pub nest: Option<String>,
	pub ctx: Option<J>,
	pub index: Option<String>,
}

pub struct Gen {
	pub r: Rng,
	pub p: Profile,
	pub docs: BTreeMap<String, J>,
	pub budget: isize,
	next_doc: usize,
}

pub type Hints = BTreeMap<String, Hint>;

impl Gen {
	pub fn new(mut r: Rng, p: Option<Profile>) -> Gen {
		let p = p.unwrap_or_else(|| Profile::random(&mut r));
		let budget = p.size as isize;
		Gen { r, p, docs: BTreeMap::new(), budget, next_doc: 0 }
	}

	fn odd(&mut self) -> bool {
		let o = self.p.odd;
		self.r.pc(o)
	}

	/// A reference usable as `@id` of a term or type.
	fn vocab_ref(&mut self, prefixes: &[String]) -> String {
		match self.r.below(10) {
			0..=4 => self.r.ps(IRIS),
			5..=7 if !prefixes.is_empty() => {
				let p = self.r.pick(prefixes).clone();
				format!("{p}:{}", self.r.ps(&["p1", "p2", "T1", "x/y", "a"]))
			}
			8 if self.p.bnodes && self.r.pc(10) => "_:bp".into(),
			_ => self.r.ps(IRIS),
		}
	}

	pub fn context(&mut self, depth: usize) -> J {
		match self.r.below(20) {
			0 if depth < 2 => {
				let k = self.r.range(1, 3);
				J::Arr((0..k).map(|_| self.context(depth + 1)).collect())
			}
			1 if depth > 0 => J::Null,
			2 | 3 | 4 | 5 if self.p.remote => s(&self.remote_ctx(depth)),
			_ => self.context_obj(depth),
		}
	}

	/// Creates (or reuses) a remote context and gives a reference to it.
	pub fn remote_ctx(&mut self, depth: usize) -> String {
		if !self.docs.is_empty() && self.r.pc(40) {
			let keys: Vec<_> = self.docs.keys().cloned().collect();
			return self.r.pick(&keys).clone();
		}
		let url = format!("http://ctx.org/c{}", self.next_doc);
		self.next_doc += 1;
		// Reserve the URL first: nested contexts may refer back to it.
		if self.r.pc(15) {
			self.docs.insert(url.clone(), obj(vec![("@context", J::new_obj())]));
		}
		let c = if depth > 2 { self.context_obj(3) } else { self.context(depth + 1) };
		self.docs.insert(url.clone(), obj(vec![("@context", c)]));
		url
	}

	pub fn context_obj(&mut self, depth: usize) -> J {
		let mut m: Vec<(String, J)> = vec![];
		let mut put = |k: &str, v: J| {
			if !m.iter().any(|(a, _)| a == k) {
				m.push((k.to_string(), v))
			}
		};
		let mut prefixes: Vec<String> = vec![];
		if self.r.pc(20) {
			put("@version", J::Num("1.1".into()));
		}
		let has_vocab = self.r.pc(if depth == 0 { 65 } else { 25 });
		if has_vocab {
			let v = match self.r.below(20) {
				0 => J::Null,
				1 if self.p.relative => s(self.r.pick(&["sub/", "#", "", "/abs/"])),
				2 if self.p.bnodes => s("_:v"),
				_ => s(self.r.pick(&["http://v.org/voc/", "http://v.org/voc/", "http://ex.org/ns#", "http://ex.org/"])),
			};
			put("@vocab", v);
		}
		if self.p.relative && self.r.pc(25) {
			let b = match self.r.below(6) {
				0 => J::Null,
				1 => s("../"),
				2 => s("other/"),
				3 => s("http://base.org/"),
				_ => s("http://base.org/dir/sub/"),
			};
			put("@base", b);
		}
		if self.r.pc(25) {
			let l = if self.r.pc(20) { J::Null } else { s(&self.r.ps(LANGS)) };
			put("@language", l);
		}
		if self.p.direction && self.r.pc(30) {
			let l = if self.r.pc(20) { J::Null } else { s(&self.r.ps(&["ltr", "rtl"])) };
			put("@direction", l);
		}
		if self.p.protected && self.r.pc(30) {
			put("@protected", J::Bool(self.r.pc(80)));
		}
		if depth > 0 && self.r.pc(20) {
			put("@propagate", J::Bool(self.r.pc(40)));
		}
		if self.p.remote && self.r.pc(8) && depth < 3 {
			let url = format!("http://ctx.org/i{}", self.next_doc);
			self.next_doc += 1;
			let c = self.context_obj(3);
			self.docs.insert(url.clone(), obj(vec![("@context", c)]));
			put("@import", s(&url));
		}
		for _ in 0..self.r.below(3) {
			let p = self.r.ps(PREFIXES);
			let ns = if self.p.bnodes && self.r.pc(4) { "_:n".into() } else { self.r.ps(NS) };
			prefixes.push(p.clone());
			let v = if self.r.pc(20) { obj(vec![("@id", s(&ns)), ("@prefix", J::Bool(self.r.pc(80)))]) } else { s(&ns) };
			put(&p, v);
		}
		if self.p.aliases {
			for (k, a) in [("@id", "id"), ("@type", "type"), ("@value", "val"), ("@graph", "graph"), ("@language", "lang"), ("@list", "list"), ("@set", "set"), ("@none", "none"), ("@index", "idx"), ("@nest", "nest"), ("@included", "inc"), ("@reverse", "rev")] {
				if self.r.pc(22) {
					put(a, s(k));
				}
			}
		}
		if self.r.pc(8) {
			put("@type", obj(vec![("@container", s("@set"))]));
		}
		let k = self.r.below(if depth == 0 { 7 } else { 4 });
		let nest_names: Vec<String> = vec!["@nest".into(), "nest".into(), "nst".into()];
		if self.p.nest && self.r.pc(40) {
			put("nst", s("@nest"));
		}
		for _ in 0..k {
			let t = if self.r.pc(10) && !prefixes.is_empty() {
				let p = self.r.pick(&prefixes).clone();
				format!("{p}:{}", self.r.ps(&["p1", "q"]))
			} else if self.r.pc(4) {
				self.r.ps(IRIS)
			} else {
				self.r.ps(TERMS)
			};
			let d = self.term_def(&t, depth, &prefixes, has_vocab, &nest_names);
			put(&t, d);
		}
		if self.r.pc(40) {
			for _ in 0..self.r.range(1, 2) {
				let t = self.r.ps(TYPES);
				let mut d = vec![("@id".to_string(), s(&self.r.ps(TYPE_IRIS)))];
				if self.p.scoped && depth < 2 && self.r.pc(60) {
					d.push(("@context".into(), self.scoped_ctx(depth + 1)));
				}
				put(&t, if d.len() == 1 && self.r.pc(50) { d[0].1.clone() } else { J::Obj(d) });
			}
		}
		if self.odd() {
			match self.r.below(12) {
				0 => put("@base", n(3)),
				1 => put("@vocab", J::Bool(true)),
				2 => put("@language", n(1)),
				3 => put("", s("http://ex.org/e")),
				4 => put("a", J::Arr(vec![])),
				5 => put("@foo", s("http://ex.org/foo")),
				6 => put("b", s("@context")),
				7 => put("c", s("d")),
				8 => put("@version", J::Num("1.0".into())),
				9 => put("p1", s("@bar")),
				10 => put("a:b", s("http://ex.org/other")),
				_ => put("@direction", s("up")),
			}
		}
		let mut m = m;
		if self.r.pc(30) {
			self.r.shuffle(&mut m);
		}
		J::Obj(m)
	}

	fn scoped_ctx(&mut self, depth: usize) -> J {
		match self.r.below(8) {
			0 => J::Null,
			1 if self.p.remote => s(&self.remote_ctx(depth)),
			2 => J::new_obj(),
			3 => {
				let c = self.context_obj(depth);
				J::Arr(vec![J::Null, c])
			}
			_ => self.context_obj(depth),
		}
	}

	fn container(&mut self) -> J {
		let all: &[&[&str]] = &[
			&["@set"],
			&["@list"],
			&["@index"],
			&["@language"],
			&["@id"],
			&["@type"],
			&["@graph"],
			&["@graph", "@id"],
			&["@graph", "@index"],
			&["@graph", "@set"],
			&["@graph", "@id", "@set"],
			&["@graph", "@index", "@set"],
			&["@index", "@set"],
			&["@language", "@set"],
			&["@id", "@set"],
			&["@type", "@set"],
		];
		loop {
			let c = *self.r.pick(all);
			if !self.p.maps && c.iter().any(|c| matches!(*c, "@index" | "@language" | "@id" | "@type")) {
				continue;
			}
			if !self.p.graphs && c.contains(&"@graph") || !self.p.lists && c.contains(&"@list") {
				continue;
			}
			let mut v: Vec<J> = c.iter().map(|x| s(x)).collect();
			if v.len() == 1 && self.r.pc(80) {
				return v.pop().unwrap();
			}
			self.r.shuffle(&mut v);
			return J::Arr(v);
		}
	}

	fn term_def(&mut self, t: &str, depth: usize, prefixes: &[String], has_vocab: bool, nests: &[String]) -> J {
		if self.r.pc(25) {
			return match self.r.below(12) {
				0 => J::Null,
				1 if t.contains(':') => s(t),
				_ => s(&self.vocab_ref(prefixes)),
			};
		}
		let mut m: Vec<(String, J)> = vec![];
		let rev = self.p.reverse && self.r.pc(12);
		let compact = t.contains(':');
		if rev {
			m.push(("@reverse".into(), s(&self.vocab_ref(prefixes))));
			match self.r.below(4) {
				0 => m.push(("@container".into(), s("@set"))),
				1 if self.p.maps => m.push(("@container".into(), s("@index"))),
				_ => (),
			}
			if self.r.pc(40) {
				m.push(("@type".into(), s(&self.r.ps(&["@id", "@vocab"]))));
			}
			return J::Obj(m);
		}
		if !compact && (!has_vocab || self.r.pc(70)) {
			if self.r.pc(4) {
				m.push(("@id".into(), J::Null));
			} else {
				m.push(("@id".into(), s(&self.vocab_ref(prefixes))));
			}
		}
		let mut typ = None;
		if self.r.pc(45) {
			let t = match self.r.below(10) {
				0..=2 => "@id".to_string(),
				3 | 4 => "@vocab".into(),
				5 => "@none".into(),
				6 if self.p.json_lit => "@json".into(),
				_ => self.r.ps(DTS),
			};
			typ = Some(t.clone());
			m.push(("@type".into(), s(&t)));
		} else {
			if self.r.pc(20) {
				m.push(("@language".into(), if self.r.pc(25) { J::Null } else { s(&self.r.ps(LANGS)) }));
			}
			if self.p.direction && self.r.pc(25) {
				m.push(("@direction".into(), if self.r.pc(25) { J::Null } else { s(&self.r.ps(&["ltr", "rtl"])) }));
			}
		}
		if self.r.pc(45) {
			let c = self.container();
			let has = |k: &str| c == s(k) || c.as_arr().map_or(false, |a| a.contains(&s(k)));
			if !(has("@type") && !matches!(typ.as_deref(), None | Some("@id") | Some("@vocab"))) || self.p.odd > 0 {
				let c = if self.r.pc(2) { J::Null } else { c };
				let has = |k: &str| c == s(k) || c.as_arr().map_or(false, |a| a.contains(&s(k)));
				m.push(("@container".into(), c.clone()));
				if has("@index") && self.r.pc(35) {
					m.push(("@index".into(), s(&self.r.ps(&["http://ex.org/ns#key", "http://ex.org/ns#p1"]))));
				}
			}
		}
		if self.p.scoped && depth < 2 && self.r.pc(20) {
			m.push(("@context".into(), self.scoped_ctx(depth + 1)));
		}
		if self.p.nest && self.r.pc(20) {
			m.push(("@nest".into(), s(self.r.pick(nests).as_str())));
		}
		if self.p.protected && self.r.pc(25) {
			m.push(("@protected".into(), J::Bool(self.r.pc(75))));
		}
		if !compact && self.r.pc(6) {
			m.push(("@prefix".into(), J::Bool(self.r.pc(70))));
		}
		if self.odd() {
			match self.r.below(10) {
				0 => m.push(("@container".into(), s("@bad"))),
				1 => m.push(("@type".into(), n(1))),
				2 => m.push(("@foo".into(), n(1))),
				3 => m.push(("@nest".into(), s("@id"))),
				4 => m.push(("@index".into(), s("http://ex.org/k"))),
				5 => m.push(("@language".into(), n(1))),
				6 => m.push(("@container".into(), J::Arr(vec![s("@list"), s("@set")]))),
				7 => m.push(("@type".into(), s("_:b"))),
				8 => m.push(("@prefix".into(), s("x"))),
				_ => m.push(("@reverse".into(), s("http://ex.org/r"))),
			}
			let mut seen = std::collections::HashSet::new();
			m.retain(|(k, _)| seen.insert(k.clone()));
		}
		J::Obj(m)
	}

	/// Collects what is known about the terms of a context.
	pub fn hints(&self, c: &J, h: &mut Hints, depth: usize) {
		match c {
			J::Arr(a) => {
				for x in a {
					self.hints(x, h, depth)
				}
			}
			J::Null => h.clear(),
			J::Str(u) if depth < 6 => {
				if let Some(d) = self.docs.get(u).and_then(|d| d.get("@context")).cloned() {
					self.hints(&d, h, depth + 1)
				}
			}
			J::Obj(m) => {
				if let Some(i) = c.get("@import") {
					self.hints(i, h, depth + 1)
				}
				for (k, v) in m {
					if k.starts_with('@') {
						continue;
					}
					let mut hint = Hint::default();
					match v {
						J::Str(x) if x.starts_with('@') => hint.alias = Some(x.clone()),
						J::Obj(_) => {
							hint.cont = v.get("@container").map(|c| c.to_arr().iter().filter_map(|x| x.as_str().map(|x| x.to_string())).collect()).unwrap_or_default();
							hint.typ = v.get("@type").and_then(|x| x.as_str()).map(|x| x.to_string());
							hint.reverse = v.has("@reverse");
							hint.nest = v.get("@nest").and_then(|x| x.as_str()).map(|x| x.to_string());
							hint.ctx = v.get("@context").cloned();
							hint.index = v.get("@index").and_then(|x| x.as_str()).map(|x| x.to_string());
						}
						_ => (),
					}
					h.insert(k.clone(), hint);
				}
			}
			_ => (),
		}
	}

	fn kw(&mut self, h: &Hints, k: &str) -> String {
		if self.r.pc(60) {
			for (t, x) in h {
				if x.alias.as_deref() == Some(k) {
					return t.clone();
				}
			}
		}
		k.to_string()
	}

	pub fn id(&mut self) -> String {
		match self.r.below(10) {
			0..=3 => self.r.ps(IDS),
			4 | 5 if self.p.bnodes => self.r.ps(&["_:b0", "_:b1", "_:x"]),
			6 | 7 if self.p.relative => self.r.ps(&["x", "../y", "#frag", "/abs", "?q=1", "./x", "sub/z", ""]),
			8 if self.r.pc(8) => self.r.ps(&["a b", "ex:a b", "v:a|b", "_:a b", "http://v.org/a b", ":x", "ex:", "_:", "a b:c", "ex://x", "v:a:b"]),
			8 => format!("{}:{}", self.r.ps(PREFIXES), self.r.ps(&["s", "t", "doc/1"])),
			_ => self.r.ps(IDS),
		}
	}

	pub fn scalar(&mut self) -> J {
		match self.r.below(12) {
			0..=5 => s(&self.r.ps(&["x", "y", "hello", "", "été", "a b", "http://ex.org/doc/1", "T1", "42"])),
			6 => J::Bool(self.r.pc(50)),
			7 => n(self.r.below(5) as i64),
			8 => J::Num(self.r.ps(&["1.5", "-3", "0", "1e3", "2.0", "100000000000000000000", "1.5e300", "-0.001"])),
			_ => s(&self.r.ps(&["x", "y", "z", "lorem"])),
		}
	}

	fn value_object(&mut self, h: &Hints) -> J {
		let mut m = vec![];
		let kv = self.kw(h, "@value");
		match self.r.below(8) {
			0 if self.p.json_lit => {
				let kt = self.kw(h, "@type");
				m.push((kv, self.json(2)));
				m.push((kt, s("@json")));
			}
			1 | 2 => {
				let kl = self.kw(h, "@language");
				m.push((kv, s(&self.r.ps(&["x", "y", "lorem"]))));
				m.push((kl, s(&self.r.ps(LANGS))));
				if self.p.direction && self.r.pc(40) {
					m.push(("@direction".into(), s(&self.r.ps(&["ltr", "rtl"]))));
				}
			}
			3 | 4 => {
				let kt = self.kw(h, "@type");
				m.push((kv, self.scalar()));
				m.push((kt, s(&self.r.ps(DTS))));
			}
			5 if self.p.direction => {
				m.push((kv, s(&self.r.ps(&["x", "y", "lorem"]))));
				m.push(("@direction".into(), s(&self.r.ps(&["ltr", "rtl"]))));
			}
			_ => m.push((kv, if self.r.pc(4) { J::Null } else { self.scalar() })),
		}
		if self.p.indexes && self.r.pc(15) {
			let k = self.kw(h, "@index");
			m.push((k, s(&self.r.ps(&["i1", "i2"]))));
		}
		if self.odd() {
			match self.r.below(5) {
				0 => m.push(("@language".into(), s("en"))),
				1 => m.push(("@type".into(), s("T1"))),
				2 => m.push(("http://ex.org/zzz".into(), n(1))),
				3 => m.push(("@direction".into(), s("ltr"))),
				_ => m.push(("@id".into(), s("http://ex.org/zzz"))),
			}
			let mut seen = std::collections::HashSet::new();
			m.retain(|(k, _)| seen.insert(k.clone()));
		}
		if self.r.pc(20) {
			self.r.shuffle(&mut m);
		}
		J::Obj(m)
	}

	pub fn json(&mut self, d: usize) -> J {
		match self.r.below(if d == 0 { 4 } else { 7 }) {
			0 => J::Null,
			1 => J::Bool(self.r.pc(50)),
			2 => J::Num(self.r.ps(&["1", "0", "-7", "10", "1.0", "4.50", "1e2", "333333333.33333329", "1E30", "0.000001"])),
			3 => s(&self.r.ps(&["", "a", "é", "\"q\"", "\n"])),
			4 | 5 => {
				let k = self.r.below(3);
				J::Arr((0..k).map(|_| self.json(d - 1)).collect())
			}
			_ => {
				let mut m = vec![];
				for k in ["z", "b", "a", "@id", "é"] {
					if self.r.pc(40) {
						let v = self.json(d - 1);
						m.push((k.to_string(), v))
					}
				}
				J::Obj(m)
			}
		}
	}

	fn item(&mut self, h: &Hints, hint: &Hint, depth: usize) -> J {
		self.budget -= 1;
		let node_ok = depth > 0 && self.budget > 0;
		let ty = hint.typ.as_deref();
		if hint.typ.as_deref() == Some("@json") {
			return self.json(2);
		}
		let mut h2 = h.clone();
		if let Some(c) = &hint.ctx {
			self.hints(c, &mut h2, 0);
		}
		if hint.reverse {
			return if node_ok && self.r.pc(60) { self.node(&h2, depth - 1) } else { self.node_ref(h, ty) };
		}
		match self.r.below(14) {
			0..=3 => match ty {
				Some("@id" | "@vocab") => s(&self.id_or_type()),
				_ => self.scalar(),
			},
			4 | 5 => self.value_object(h),
			6 => self.node_ref(h, ty),
			7 if self.p.lists && node_ok => {
				let k = self.kw(h, "@list");
				let m = self.r.below(3);
				let v: Vec<J> = (0..m).map(|_| self.item(&h2, &Hint { typ: hint.typ.clone(), ..Default::default() }, depth - 1)).collect();
				let mut o = vec![(k, J::Arr(v))];
				if self.p.indexes && self.r.pc(10) {
					o.push(("@index".into(), s("li")));
				}
				J::Obj(o)
			}
			8 if node_ok => {
				let k = self.kw(h, "@set");
				let m = self.r.below(3);
				let v: Vec<J> = (0..m).map(|_| self.item(&h2, hint, depth - 1)).collect();
				obj(vec![(&k, J::Arr(v))])
			}
			9 if self.p.graphs && node_ok => {
				let k = self.kw(h, "@graph");
				let m = self.r.below(3);
				let v: Vec<J> = (0..m).map(|_| self.node(&h2, depth - 1)).collect();
				let mut o = vec![(k, J::Arr(v))];
				if self.r.pc(40) {
					let id = self.id();
					let k = self.kw(h, "@id");
					o.push((k, s(&id)));
				}
				if self.p.indexes && self.r.pc(20) {
					o.push(("@index".into(), s("gi")));
				}
				J::Obj(o)
			}
			10..=12 if node_ok => self.node(&h2, depth - 1),
			13 if self.r.pc(20) => J::Null,
			_ => self.scalar(),
		}
	}

	fn id_or_type(&mut self) -> String {
		if self.r.pc(25) {
			self.r.ps(&["T1", "a", "name", "ex:p1"])
		} else {
			self.id()
		}
	}

	fn node_ref(&mut self, h: &Hints, ty: Option<&str>) -> J {
		if matches!(ty, Some("@id" | "@vocab")) && self.r.pc(60) {
			return s(&self.id_or_type());
		}
		let k = self.kw(h, "@id");
		let id = self.id();
		obj(vec![(&k, s(&id))])
	}

	fn items(&mut self, h: &Hints, hint: &Hint, depth: usize) -> J {
		match self.r.below(8) {
			0..=4 => self.item(h, hint, depth),
			5 => J::Arr(vec![self.item(h, hint, depth)]),
			6 => {
				let k = self.r.below(3) + 1;
				J::Arr((0..k).map(|_| self.item(h, hint, depth)).collect())
			}
			_ => {
				if self.r.pc(50) {
					J::Arr(vec![])
				} else if self.p.lists && self.r.pc(30) {
					let x = self.item(h, hint, depth);
					let y = self.item(h, hint, depth);
					J::Arr(vec![J::Arr(vec![x]), y])
				} else {
					J::Arr(vec![self.item(h, hint, depth), self.item(h, hint, depth)])
				}
			}
		}
	}

	fn prop_value(&mut self, h: &Hints, hint: &Hint, depth: usize) -> J {
		let has = |c: &str| hint.cont.iter().any(|x| x == c);
		let map_pc = 80;
		let plain = Hint { cont: vec![], ..hint.clone() };
		if has("@language") && self.r.pc(map_pc) {
			let mut m = vec![];
			for l in ["en", "fr", "@none", "de-AT"] {
				if self.r.pc(45) {
					let v = match self.r.below(5) {
						0 => J::Null,
						1 => J::Arr(vec![s("x"), s("y")]),
						_ => s(&self.r.ps(&["x", "y", "lorem"])),
					};
					let k = if l == "@none" { self.kw(h, "@none") } else { l.into() };
					m.push((k, v))
				}
			}
			if self.odd() {
				m.push(("xx".into(), n(1)))
			}
			return J::Obj(m);
		}
		if has("@index") && self.r.pc(map_pc) {
			let mut m = vec![];
			for k in ["i1", "i2", "@none"] {
				if self.r.pc(50) {
					let k = if k == "@none" { self.kw(h, "@none") } else { k.into() };
					let v = if hint.index.is_some() {
						self.node(h, depth.saturating_sub(1))
					} else {
						self.items(h, &plain, depth.saturating_sub(1))
					};
					m.push((k, v))
				}
			}
			return J::Obj(m);
		}
		if (has("@id") || has("@type")) && self.r.pc(map_pc) {
			let mut m: Vec<(String, J)> = vec![];
			for _ in 0..self.r.below(3) {
				let k = if has("@id") {
					if self.r.pc(15) { self.kw(h, "@none") } else { self.id() }
				} else if self.r.pc(15) {
					self.kw(h, "@none")
				} else {
					self.r.ps(&["T1", "T2", "ex:T1", "http://ex.org/T3"])
				};
				if m.iter().any(|(a, _)| *a == k) || k.is_empty() {
					continue;
				}
				let v = if has("@type") && self.r.pc(20) {
					s(&self.id_or_type())
				} else if self.r.pc(20) {
					J::Arr(vec![self.node(h, depth.saturating_sub(1)), self.node(h, depth.saturating_sub(1))])
				} else {
					self.node(h, depth.saturating_sub(1))
				};
				m.push((k, v))
			}
			return J::Obj(m);
		}
		if has("@graph") && self.r.pc(60) {
			return match self.r.below(4) {
				0 => J::Arr(vec![self.node(h, depth.saturating_sub(1)), self.node(h, depth.saturating_sub(1))]),
				_ => self.node(h, depth.saturating_sub(1)),
			};
		}
		self.items(h, &plain, depth)
	}

	pub fn node(&mut self, h: &Hints, depth: usize) -> J {
		self.budget -= 1;
		let mut m: Vec<(String, J)> = vec![];
		let mut h = h.clone();
		if depth > 0 && self.r.pc(7) {
			let c = self.context(1);
			self.hints(&c, &mut h, 0);
			m.push(("@context".into(), c));
		}
		self.node_body(&mut m, &h, depth);
		J::Obj(m)
	}

	fn node_body(&mut self, m: &mut Vec<(String, J)>, h0: &Hints, depth: usize) {
		let mut h = h0.clone();
		if self.r.pc(50) {
			let k = self.kw(&h, "@id");
			let id = self.id();
			m.push((k, s(&id)));
		}
		if self.r.pc(35) {
			let k = self.kw(&h, "@type");
			let mut ts: Vec<String> = vec![];
			for _ in 0..self.r.range(1, 2) {
				let t = match self.r.below(6) {
					0..=3 => self.r.ps(TYPES),
					4 => self.r.ps(TYPE_IRIS),
					_ => if self.p.bnodes && self.r.pc(30) { "_:bt".into() } else { "ex:T1".to_string() },
				};
				if let Some(c) = h0.get(&t).and_then(|x| x.ctx.clone()) {
					self.hints(&c, &mut h, 0);
				}
				ts.push(t);
			}
			let v = if ts.len() == 1 && self.r.pc(60) { s(&ts[0]) } else { J::Arr(ts.iter().map(|x| s(x)).collect()) };
			m.push((k, v));
		}
		if self.p.indexes && self.r.pc(8) {
			let k = self.kw(&h, "@index");
			m.push((k, s(&self.r.ps(&["i1", "i2"]))));
		}
		let np = if self.budget <= 0 { self.r.below(2) } else { self.r.below(4) };
		self.properties(m, &h, depth, np);
		if self.p.reverse && depth > 0 && self.r.pc(10) && self.budget > 0 {
			let k = self.kw(&h, "@reverse");
			let mut rm = vec![];
			for _ in 0..self.r.range(1, 2) {
				let p = self.prop_name(&h);
				let v = if self.r.pc(25) {
					J::Arr(vec![self.node(&h, depth - 1), self.node_ref(&h, None)])
				} else {
					self.node(&h, depth - 1)
				};
				rm.push((p, v));
			}
			dedup(&mut rm);
			m.push((k, J::Obj(rm)));
		}
		if self.p.included && depth > 0 && self.r.pc(10) && self.budget > 0 {
			let k = self.kw(&h, "@included");
			let x = self.node(&h, depth - 1);
			let v = if self.r.pc(50) { J::Arr(vec![x]) } else { x };
			m.push((k, v));
		}
		if self.p.graphs && depth > 0 && self.r.pc(10) && self.budget > 0 {
			let k = self.kw(&h, "@graph");
			let c = self.r.below(3);
			let v: Vec<J> = (0..c).map(|_| self.node(&h, depth - 1)).collect();
			m.push((k, J::Arr(v)));
		}
		if self.p.nest && depth > 0 && self.r.pc(20) {
			let k = self.kw(&h, "@nest");
			let mut nm = vec![];
			self.properties(&mut nm, &h, depth - 1, 2);
			dedup(&mut nm);
			let v = if self.r.pc(20) { J::Arr(vec![J::Obj(nm), J::new_obj()]) } else { J::Obj(nm) };
			m.push((k, v));
		}
		if self.odd() {
			match self.r.below(12) {
				0 => m.push(("@id".into(), n(1))),
				1 => m.push(("@type".into(), J::Arr(vec![n(1)]))),
				2 => m.push(("@index".into(), n(1))),
				3 => m.push(("@reverse".into(), s("x"))),
				4 => m.push(("@reverse".into(), obj(vec![("http://ex.org/r", s("x"))]))),
				5 => m.push(("@included".into(), s("x"))),
				6 => m.push(("@value".into(), s("x"))),
				7 => m.push(("@list".into(), J::Arr(vec![]))),
				8 => m.push(("@nest".into(), s("x"))),
				9 => m.push(("@language".into(), s("en"))),
				10 => m.push(("@foo".into(), s("en"))),
				_ => m.push(("@context".into(), n(1))),
			}
		}
		dedup(m);
		if self.r.pc(30) {
			self.r.shuffle(m);
		}
	}

	fn prop_name(&mut self, h: &Hints) -> String {
		let known: Vec<String> = h.iter().filter(|(_, x)| x.alias.is_none()).map(|(k, _)| k.clone()).collect();
		match self.r.below(10) {
			0..=5 if !known.is_empty() => self.r.pick(&known).clone(),
			6 => self.r.ps(IRIS),
			7 => format!("{}:{}", self.r.ps(PREFIXES), self.r.ps(&["p1", "p2", "a"])),
			_ => self.r.ps(TERMS),
		}
	}

	fn properties(&mut self, m: &mut Vec<(String, J)>, h: &Hints, depth: usize, k: usize) {
		for _ in 0..k {
			let p = self.prop_name(h);
			let hint = h.get(&p).cloned().unwrap_or_default();
			let v = self.prop_value(h, &hint, depth);
			m.push((p, v));
		}
	}

	/// A complete document: context (maybe) and data.
	pub fn document(&mut self) -> J {
		let mut h = Hints::new();
		let mut m = vec![];
		if self.r.pc(95) {
			let c = self.context(0);
			self.hints(&c, &mut h, 0);
			m.push(("@context".to_string(), c));
		}
		let depth = 3;
		if self.p.graphs && self.r.pc(25) {
			let k = self.kw(&h, "@graph");
			let c = self.r.below(4);
			let v: Vec<J> = (0..c).map(|_| self.node(&h, depth)).collect();
			if self.r.pc(30) {
				let id = self.id();
				m.push(("@id".into(), s(&id)));
			}
			m.push((k, J::Arr(v)));
			dedup(&mut m);
			return J::Obj(m);
		}
		self.node_body(&mut m, &h, depth);
		let d = J::Obj(m);
		if self.r.pc(6) {
			let e = self.node(&Hints::new(), 2);
			return J::Arr(vec![d, e]);
		}
		d
	}
}

pub fn dedup(m: &mut Vec<(String, J)>) {
	let mut seen = std::collections::HashSet::new();
	m.retain(|(k, _)| seen.insert(k.clone()));
}
