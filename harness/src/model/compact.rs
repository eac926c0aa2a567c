//! Compaction (JSON-LD 1.1 API sections 6.1, 4.3, 6.2, 6.3, 4.4).
use super::context::*;
use super::expand::is_graph_object;
use super::*;
use crate::json::{obj, s};
use std::collections::BTreeMap;
use std::rc::Rc;

#[derive(Clone, Copy)]
pub struct Opt<'a> {
	pub base: Option<&'a str>,
	pub doc_url: Option<&'a str>,
	pub compact_arrays: bool,
	pub compact_to_relative: bool,
}

type Inv = BTreeMap<String, BTreeMap<String, BTreeMap<&'static str, BTreeMap<String, String>>>>;

/// Active context with its inverse.
#[derive(Clone)]
pub struct AC {
	pub c: Rc<Ctx>,
	inv: Rc<Inv>,
}

impl AC {
	pub fn new(c: Ctx) -> AC {
		let inv = inverse(&c);
		AC { c: Rc::new(c), inv: Rc::new(inv) }
	}
	fn container(&self, t: Option<&str>, c: &str) -> bool {
		self.c.container(t, c)
	}
}

fn ld(lang: Option<&str>, dir: Option<&str>) -> String {
	// "lang_dir", "lang", "_dir".
	match dir {
		Some(d) => format!("{}_{}", lang.unwrap_or("").to_lowercase(), d),
		None => lang.map(|l| l.to_lowercase()).unwrap_or_else(|| "@none".into()),
	}
}

fn inverse(c: &Ctx) -> Inv {
	let mut r: Inv = BTreeMap::new();
	let default_lang = c.lang.as_ref().map(|l| l.to_lowercase()).unwrap_or_else(|| "@none".into());
	let mut terms: Vec<_> = c.terms.iter().collect();
	terms.sort_by(|a, b| (a.0.chars().count(), a.0).cmp(&(b.0.chars().count(), b.0)));
	for (t, d) in terms {
		if t == "@type" {
			// The redefinition of the keyword is not a candidate alias.
			continue;
		}
		let iri = match &d.iri {
			Some(i) => i,
			None => continue,
		};
		let cont = if d.container.is_empty() { "@none".to_string() } else { d.container.iter().cloned().collect::<String>() };
		let e = r.entry(iri.clone()).or_default().entry(cont).or_insert_with(|| {
			let mut m = BTreeMap::new();
			m.insert("@language", BTreeMap::new());
			m.insert("@type", BTreeMap::new());
			m.insert("@any", BTreeMap::from([("@none".to_string(), t.clone())]));
			m
		});
		let mut put = |k: &'static str, v: &str| {
			e.get_mut(k).unwrap().entry(v.to_string()).or_insert_with(|| t.clone());
		};
		if d.reverse {
			put("@type", "@reverse")
		} else if d.typ.as_deref() == Some("@none") {
			put("@language", "@any");
			put("@type", "@any");
			put("@any", "@any");
		} else if let Some(ty) = &d.typ {
			put("@type", ty)
		} else if let (Some(l), Some(dr)) = (&d.lang, &d.dir) {
			let k = match (l, dr) {
				(Some(l), Some(dr)) => ld(Some(l), Some(dr)),
				(Some(l), None) => l.to_lowercase(),
				(None, Some(dr)) => ld(None, Some(dr)),
				(None, None) => "@null".into(),
			};
			put("@language", &k)
		} else if let Some(l) = &d.lang {
			match l {
				Some(l) => put("@language", &l.to_lowercase()),
				None => put("@language", "@null"),
			}
		} else if let Some(dr) = &d.dir {
			match dr {
				Some(dr) => put("@language", &ld(None, Some(dr))),
				None => put("@language", "@none"),
			}
		} else if let Some(dr) = &c.dir {
			put("@language", &ld(c.lang.as_deref(), Some(dr)));
			put("@language", "@none");
			put("@type", "@none");
		} else {
			put("@language", &default_lang);
			put("@language", "@none");
			put("@type", "@none");
		}
	}
	r
}

struct C<'a> {
	env: &'a Env,
	arrays: bool,
}

pub fn compact(env: &Env, expanded: &J, context: &J, o: Opt) -> R<J> {
	let context = context.get("@context").unwrap_or(context).clone();
	let cbase = o.doc_url.or(o.base);
	let mut ctx = process(env, &Ctx::new(None), &context, cbase, PO::default())?;
	if let Some(b) = o.base {
		ctx.base = Some(b.to_string());
	} else if o.compact_to_relative && ctx.base.is_none() {
		ctx.base = o.doc_url.map(|x| x.to_string());
	}
	let ac = AC::new(ctx);
	let c = C { env, arrays: o.compact_arrays };
	let r = c.element(&ac, None, expanded)?;
	let mut r = match r {
		J::Arr(a) if a.is_empty() => J::new_obj(),
		J::Arr(a) => {
			let k = c.iri(&ac, "@graph", None, true, false)?;
			obj(vec![(&k, J::Arr(a))])
		}
		J::Null => J::new_obj(),
		r => r,
	};
	let empty = match &context {
		J::Null => true,
		J::Obj(m) => m.is_empty(),
		J::Arr(a) => a.is_empty(),
		_ => false,
	};
	// The library does not add a context to an empty document.
	if !empty && r.len() > 0 {
		if let J::Obj(m) = &mut r {
			m.insert(0, ("@context".into(), context));
		}
	}
	Ok(r)
}

fn add_value(o: &mut J, key: &str, v: J, as_array: bool) {
	match v {
		J::Arr(a) => {
			if as_array && !o.has(key) {
				o.set(key, J::Arr(vec![]));
			} else if let Some(e) = o.get_mut(key) {
				// Adding several values, even none, makes an array.
				let cur = std::mem::replace(e, J::Null).into_arr();
				*e = J::Arr(cur);
			}
			for x in a {
				add_value(o, key, x, as_array)
			}
		}
		v => match o.get_mut(key) {
			None => {
				let v = if as_array { J::Arr(vec![v]) } else { v };
				o.set(key, v)
			}
			Some(e) => {
				let mut cur = std::mem::replace(e, J::Null).into_arr();
				cur.push(v);
				*e = J::Arr(cur);
			}
		},
	}
}

impl<'a> C<'a> {
	fn element(&self, active: &AC, prop: Option<&str>, el: &J) -> R<J> {
		let mut type_scoped = active.clone();
		let mut ac = active.clone();
		let m = match el {
			J::Arr(a) => {
				let mut out = vec![];
				for x in a {
					let c = self.element(&ac, prop, x)?;
					if c != J::Null {
						out.push(c)
					}
				}
				if out.len() != 1
					|| !self.arrays
					|| prop == Some("@graph")
					|| prop == Some("@set")
					|| ac.container(prop, "@list")
					|| ac.container(prop, "@set")
				{
					return Ok(J::Arr(out));
				}
				return Ok(out.pop().unwrap());
			}
			J::Obj(m) => m,
			x => return Ok(x.clone()),
		};
		if let Some(p) = &ac.c.previous {
			// The library does not count the index, that is not part of the node.
			let n = m.iter().filter(|(k, _)| k != "@index").count();
			if !el.has("@value") && !(n == 1 && el.has("@id")) {
				ac = AC::new((**p).clone());
			}
		}
		let td = prop.and_then(|p| active.c.term(p)).cloned();
		if let Some(Term { context: Some(c), base_url, .. }) = &td {
			ac = AC::new(process(self.env, &ac.c, c, base_url.as_deref(), PO { over: true, ..Default::default() })?);
			type_scoped = type_scoped.clone();
		}
		if el.has("@value") || el.has("@id") {
			let r = self.value(&ac, prop, el)?;
			let json = prop.and_then(|p| ac.c.term(p)).map_or(false, |t| t.typ.as_deref() == Some("@json"));
			if !r.is_obj() || (json && el.get("@type") == Some(&s("@json"))) {
				if r.is_scalar() || r == J::Null || json {
					return Ok(r);
				}
			}
			if el.has("@value") {
				return Ok(r);
			}
		}
		if el.has("@list") && td.as_ref().map_or(false, |t| t.container.iter().any(|c| c == "@list")) {
			return self.element(&ac, prop, el.get("@list").unwrap());
		}
		let inside_reverse = prop == Some("@reverse");
		let mut result = J::new_obj();
		if let Some(t) = el.get("@type") {
			let mut ts = vec![];
			for t in t.to_arr() {
				if let J::Str(t) = t {
					ts.push(self.iri(&type_scoped, &t, None, true, false)?);
				}
			}
			ts.sort();
			for t in ts {
				let sc = type_scoped.c.term(&t).and_then(|d| d.context.clone().map(|c| (c, d.base_url.clone())));
				if let Some((c, b)) = sc {
					ac = AC::new(process(self.env, &ac.c, &c, b.as_deref(), PO { propagate: false, ..Default::default() })?);
				}
			}
		}
		let mut keys: Vec<&(String, J)> = m.iter().collect();
		keys.sort_by(|a, b| a.0.cmp(&b.0));
		for (ep, ev) in keys {
			match ep.as_str() {
				"@id" => {
					let v = match ev {
						J::Str(x) => s(&self.iri(&ac, x, None, false, false)?),
						o => o.clone(),
					};
					let a = self.iri(&ac, "@id", None, true, false)?;
					result.set(&a, v);
				}
				"@type" => {
					let mut out = vec![];
					for t in ev.to_arr() {
						if let J::Str(t) = t {
							out.push(s(&self.iri(&type_scoped, &t, None, true, false)?))
						}
					}
					let a = self.iri(&ac, "@type", None, true, false)?;
					let as_array = (!self.env.v10() && ac.container(Some(&a), "@set")) || !self.arrays;
					let v = if out.len() == 1 && ev.is_str() { out.pop().unwrap() } else { J::Arr(out) };
					add_value(&mut result, &a, v, as_array);
				}
				"@reverse" => {
					let mut cv = match &ac.c.previous {
						None => self.element(&ac, Some("@reverse"), ev)?,
						Some(p) => {
							// The content of `@reverse` is not in the scope of a context
							// that does not propagate, reverse terms are.
							let prev = AC::new((**p).clone());
							let (mut direct, mut inner) = (J::new_obj(), J::new_obj());
							for (p, vals) in ev.as_obj().unwrap() {
								let (mut a, mut b) = (vec![], vec![]);
								for v in vals.to_arr() {
									let t = self.iri(&ac, p, Some(&v), true, true)?;
									if ac.c.term(&t).map_or(false, |t| t.reverse) {
										a.push(v)
									} else {
										b.push(v)
									}
								}
								if !b.is_empty() || a.is_empty() {
									self.property(&prev, false, p, &J::Arr(b), &mut inner)?;
								}
								if !a.is_empty() {
									self.property(&ac, true, p, &J::Arr(a), &mut direct)?;
								}
							}
							for (p, v) in direct.as_obj().unwrap() {
								let as_array = ac.container(Some(p), "@set") || !self.arrays;
								add_value(&mut result, p, v.clone(), as_array);
							}
							if inner.len() > 0 {
								let a = self.iri(&ac, "@reverse", None, true, false)?;
								result.set(&a, inner);
							}
							continue;
						}
					};
					for (p, v) in cv.clone().as_obj().cloned().unwrap_or_default() {
						if ac.c.term(&p).map_or(false, |t| t.reverse) {
							let as_array = ac.container(Some(&p), "@set") || !self.arrays;
							add_value(&mut result, &p, v, as_array);
							cv.remove(&p);
						}
					}
					if cv.len() > 0 {
						let a = self.iri(&ac, "@reverse", None, true, false)?;
						result.set(&a, cv);
					}
				}
				"@index" if ac.container(prop, "@index") => (),
				"@index" | "@direction" | "@language" | "@value" => {
					let a = self.iri(&ac, ep, None, true, false)?;
					result.set(&a, ev.clone());
				}
				_ => self.property(&ac, inside_reverse, ep, ev, &mut result)?,
			}
		}
		Ok(result)
	}

	fn with_nest<T>(&self, ac: &AC, iap: &str, result: &mut J, f: impl FnOnce(&mut J) -> R<T>) -> R<T> {
		if let Some(n) = ac.c.term(iap).and_then(|t| t.nest.clone()) {
			if n != "@nest" && expand_iri(&ac.c, &n, false, true).as_deref() != Some("@nest") {
				return err("invalid @nest value");
			}
			if !result.has(&n) {
				result.set(&n, J::new_obj())
			}
			match result.get_mut(&n) {
				Some(x @ J::Obj(_)) => f(x),
				_ => err("model: nest collision"),
			}
		} else {
			f(result)
		}
	}

	fn property(&self, ac: &AC, inside_reverse: bool, ep: &str, ev: &J, result: &mut J) -> R<()> {
		let items = ev.to_arr();
		if items.is_empty() {
			let iap = self.iri(ac, ep, Some(ev), true, inside_reverse)?;
			return self.with_nest(ac, &iap, result, |nr| {
				add_value(nr, &iap, J::Arr(vec![]), true);
				Ok(())
			});
		}
		for item in &items {
			let iap = self.iri(ac, ep, Some(item), true, inside_reverse)?;
			let td = ac.c.term(&iap).cloned();
			let has = |c: &str| td.as_ref().map_or(false, |t| t.has(c));
			let as_array = has("@set") || iap == "@graph" || iap == "@list" || !self.arrays;
			let inner = if let Some(l) = item.get("@list") {
				l
			} else if is_graph_object(item) {
				item.get("@graph").unwrap()
			} else {
				item
			};
			let mut ci = self.element(ac, Some(&iap), inner)?;
			self.with_nest(ac, &iap, result, |nr| {
				let simple_graph = is_graph_object(item) && !item.has("@id");
				if item.has("@list") {
					let l = J::Arr(ci.into_arr());
					if !has("@list") {
						let mut o = J::new_obj();
						o.set(&self.iri(ac, "@list", None, true, false)?, l);
						self.add_indexed(ac, nr, &iap, td.as_ref(), o, item, as_array)?;
					} else {
						nr.set(&iap, l);
					}
					return Ok(());
				}
				if is_graph_object(item) {
					if has("@graph") && has("@id") {
						if !nr.has(&iap) {
							nr.set(&iap, J::new_obj())
						}
						let key = match item.get("@id").and_then(|x| x.as_str()) {
							Some(i) => self.iri(ac, i, None, false, false)?,
							None => self.iri(ac, "@none", None, true, false)?,
						};
						match nr.get_mut(&iap) {
							Some(mo @ J::Obj(_)) => add_value(mo, &key, ci, as_array),
							_ => return err("model: map collision"),
						}
					} else if has("@graph") && has("@index") && simple_graph {
						if !nr.has(&iap) {
							nr.set(&iap, J::new_obj())
						}
						let key = item.get("@index").and_then(|x| x.as_str()).unwrap_or("@none").to_string();
						match nr.get_mut(&iap) {
							Some(mo @ J::Obj(_)) => add_value(mo, &key, ci, as_array),
							_ => return err("model: map collision"),
						}
					} else if has("@graph") && simple_graph {
						if matches!(&ci, J::Arr(a) if a.len() > 1) {
							let k = self.iri(ac, "@included", None, true, false)?;
							ci = obj(vec![(&k, ci)]);
						}
						add_value(nr, &iap, ci, as_array);
					} else {
						let k = self.iri(ac, "@graph", None, true, false)?;
						ci = obj(vec![(&k, ci)]);
						if let Some(i) = item.get("@id").and_then(|x| x.as_str()) {
							let k = self.iri(ac, "@id", None, true, false)?;
							let v = self.iri(ac, i, None, false, false)?;
							ci.set(&k, s(&v));
						}
						self.add_indexed(ac, nr, &iap, td.as_ref(), ci, item, as_array)?;
					}
					return Ok(());
				}
				if (has("@language") || has("@index") || has("@id") || has("@type")) && !has("@graph") {
					let ck_of = |k: &str| self.iri(ac, k, None, true, false);
					let mut key = None;
					if has("@language") && item.has("@value") {
						key = item.get("@language").and_then(|x| x.as_str()).map(|x| x.to_string());
						ci = item.get("@value").unwrap().clone();
					} else if has("@index") {
						let ik = td.as_ref().unwrap().index.clone().unwrap_or_else(|| "@index".into());
						if ik == "@index" {
							key = item.get("@index").and_then(|x| x.as_str()).map(|x| x.to_string());
						} else {
							let xk = expand_iri(&ac.c, &ik, false, true).unwrap_or_default();
							let ck = ck_of(&xk)?;
							self.take_first(&mut ci, &ck, &mut key);
						}
					} else if has("@id") {
						let ck = ck_of("@id")?;
						if let Some(J::Str(k)) = ci.remove(&ck) {
							key = Some(k)
						}
					} else if has("@type") {
						let ck = ck_of("@type")?;
						self.take_first(&mut ci, &ck, &mut key);
						if let J::Obj(m) = &ci {
							if m.len() == 1 && expand_iri(&ac.c, &m[0].0, false, true).as_deref() == Some("@id") {
								let id = item.get("@id").cloned().unwrap_or(J::Null);
								ci = self.element(ac, Some(&iap), &obj(vec![("@id", id)]))?;
							}
						}
					}
					let key = match key {
						Some(k) => k,
						None => self.iri(ac, "@none", None, true, false)?,
					};
					if !nr.has(&iap) {
						nr.set(&iap, J::new_obj())
					}
					match nr.get_mut(&iap) {
						Some(mo @ J::Obj(_)) => add_value(mo, &key, ci, as_array),
						_ => return err("model: map collision"),
					}
					return Ok(());
				}
				add_value(nr, &iap, ci, as_array);
				Ok(())
			})?;
		}
		Ok(())
	}

	/// List and graph objects go to the index map of their term (where the
	/// specification makes their entries look like indexes).
	#[allow(clippy::too_many_arguments)]
	fn add_indexed(&self, ac: &AC, nr: &mut J, iap: &str, td: Option<&Term>, mut o: J, item: &J, as_array: bool) -> R<()> {
		let map = td.map_or(false, |t| t.has("@index"));
		let propval = td.map_or(false, |t| t.index.is_some());
		let mut key = None;
		if let Some(i) = item.get("@index") {
			if map && !propval {
				key = i.as_str().map(|x| x.to_string())
			} else {
				o.set(&self.iri(ac, "@index", None, true, false)?, i.clone());
			}
		}
		if map {
			let key = match key {
				Some(k) => k,
				None => self.iri(ac, "@none", None, true, false)?,
			};
			if !nr.has(iap) {
				nr.set(iap, J::new_obj())
			}
			match nr.get_mut(iap) {
				Some(mo @ J::Obj(_)) => add_value(mo, &key, o, as_array),
				_ => return err("model: map collision"),
			}
		} else {
			add_value(nr, iap, o, as_array);
		}
		Ok(())
	}

	fn take_first(&self, ci: &mut J, ck: &str, key: &mut Option<String>) {
		if let Some(v) = ci.get(ck).cloned() {
			let mut vals = v.into_arr();
			if let Some(J::Str(k)) = vals.first().cloned() {
				*key = Some(k);
				vals.remove(0);
				ci.remove(ck);
				if vals.len() == 1 {
					ci.set(ck, vals.pop().unwrap())
				} else if !vals.is_empty() {
					ci.set(ck, J::Arr(vals))
				}
			}
		}
	}

	pub fn iri(&self, ac: &AC, var: &str, value: Option<&J>, vocab: bool, reverse: bool) -> R<String> {
		let c = &ac.c;
		if vocab {
			if let Some(entry) = ac.inv.get(var) {
				if let Some(t) = self.select(ac, entry, value, reverse)? {
					return Ok(t);
				}
			}
		}
		if vocab {
			if let Some(v) = &c.vocab {
				if var.starts_with(v.as_str()) && var.len() > v.len() {
					let suf = &var[v.len()..];
					if !c.terms.contains_key(suf) {
						return Ok(suf.to_string());
					}
				}
			}
		}
		let mut best: Option<String> = None;
		for (t, d) in &c.terms {
			let iri = match &d.iri {
				Some(i) if i != var && var.starts_with(i.as_str()) && d.prefix => i,
				_ => continue,
			};
			let cand = format!("{t}:{}", &var[iri.len()..]);
			let better = match &best {
				None => true,
				Some(b) => (cand.chars().count(), &cand) < (b.chars().count(), b),
			};
			if better {
				let ok = match c.terms.get(&cand) {
					None => true,
					Some(d) => d.iri.as_deref() == Some(var) && value.is_none(),
				};
				if ok {
					best = Some(cand)
				}
			}
		}
		if let Some(b) = best {
			return Ok(b);
		}
		if iri::is_iri(var) {
			let p = iri::parse(var);
			if let (Some(sc), None) = (p.scheme, p.auth) {
				if c.terms.get(sc).map_or(false, |t| t.prefix) {
					return err("IRI confused with prefix");
				}
			}
		}
		if !vocab && !is_bnode(var) {
			if let Some(b) = &c.base {
				return Ok(relativize(b, var));
			}
		}
		Ok(var.to_string())
	}

	fn select(&self, ac: &AC, entry: &BTreeMap<String, BTreeMap<&'static str, BTreeMap<String, String>>>, value: Option<&J>, reverse: bool) -> R<Option<String>> {
		let c = &ac.c;
		let default_language = match &c.dir {
			Some(d) => ld(c.lang.as_deref(), Some(d)),
			None => ld(c.lang.as_deref(), None),
		};
		let mut containers: Vec<&str> = vec![];
		let mut tl = "@language";
		let mut tlv: Option<String> = Some("@null".into());
		let null = J::Null;
		let v = value.unwrap_or(&null);
		let graph = is_graph_object(v);
		if v.has("@index") && !graph {
			containers.extend(["@index", "@index@set"]);
		}
		if reverse {
			tl = "@type";
			tlv = Some("@reverse".into());
			containers.push("@set");
		} else if let Some(list) = v.get("@list") {
			if !v.has("@index") {
				containers.push("@list")
			}
			let list = list.to_arr();
			let mut ct: Option<String> = None;
			let mut cl: Option<String> = None;
			if list.is_empty() {
				cl = Some(default_language.clone());
			}
			for it in &list {
				let mut il = "@none".to_string();
				let mut ity = "@none".to_string();
				if it.has("@value") {
					if let Some(J::Str(d)) = it.get("@direction") {
						il = ld(it.get("@language").and_then(|l| l.as_str()), Some(d));
					} else if let Some(J::Str(l)) = it.get("@language") {
						il = l.to_lowercase();
					} else if let Some(J::Str(t)) = it.get("@type") {
						ity = t.clone();
					} else {
						il = "@null".into();
					}
				} else {
					ity = "@id".into();
				}
				match &cl {
					None => cl = Some(il),
					Some(x) if *x != il && it.has("@value") => cl = Some("@none".into()),
					_ => (),
				}
				match &ct {
					None => ct = Some(ity),
					Some(x) if *x != ity => ct = Some("@none".into()),
					_ => (),
				}
				if cl.as_deref() == Some("@none") && ct.as_deref() == Some("@none") {
					break;
				}
			}
			let cl = cl.unwrap_or("@none".into());
			let ct = ct.unwrap_or("@none".into());
			if list.is_empty() {
				tl = "@any";
				tlv = Some("@none".into());
				let _ = cl;
			} else if ct != "@none" {
				tl = "@type";
				tlv = Some(ct)
			} else {
				tlv = Some(cl)
			}
		} else if graph {
			if v.has("@index") {
				containers.extend(["@graph@index", "@graph@index@set"]);
			}
			if v.has("@id") {
				containers.extend(["@graph@id", "@graph@id@set"]);
			}
			containers.extend(["@graph", "@graph@set", "@set"]);
			if !v.has("@index") {
				containers.extend(["@graph@index", "@graph@index@set"]);
			}
			if !v.has("@id") {
				containers.extend(["@graph@id", "@graph@id@set"]);
			}
			containers.extend(["@index", "@index@set"]);
			tl = "@type";
			tlv = Some("@id".into());
		} else {
			if v.has("@value") {
				let l = v.get("@language").and_then(|l| l.as_str());
				if let (Some(J::Str(d)), false) = (v.get("@direction"), v.has("@index")) {
					tlv = Some(ld(l, Some(d)));
					containers.extend(["@language", "@language@set"]);
				} else if let (Some(l), false) = (l, v.has("@index")) {
					tlv = Some(l.to_lowercase());
					containers.extend(["@language", "@language@set"]);
				} else if let Some(J::Str(t)) = v.get("@type") {
					tl = "@type";
					tlv = Some(t.clone());
				}
			} else {
				tl = "@type";
				tlv = Some("@id".into());
				containers.extend(["@id", "@id@set", "@type", "@set@type"]);
			}
			containers.push("@set");
		}
		containers.push("@none");
		if !self.env.v10() {
			// The library lets indexed graph objects of a reverse property in
			// index maps.
			if !v.is_obj() || !v.has("@index") || reverse {
				containers.extend(["@index", "@index@set"]);
			}
			if v.is_obj() && v.len() == 1 && v.has("@value") {
				containers.extend(["@language", "@language@set"]);
			}
		}
		let tlv = tlv.unwrap_or("@null".into());
		let mut pref: Vec<String> = vec![];
		if tlv == "@reverse" {
			pref.push("@reverse".into());
		}
		if (tlv == "@id" || tlv == "@reverse") && v.is_obj() && v.has("@id") {
			let id = v.get("@id").and_then(|x| x.as_str()).unwrap_or("");
			let t = self.iri(ac, id, None, true, false)?;
			if c.term(&t).map_or(false, |d| d.iri.as_deref() == Some(id)) {
				pref.extend(["@vocab".into(), "@id".into(), "@none".into()]);
			} else {
				pref.extend(["@id".into(), "@vocab".into(), "@none".into()]);
			}
		} else {
			pref.push(tlv);
			pref.push("@none".into());
		}
		pref.push("@any".into());
		for p in pref.clone() {
			if let Some(i) = p.find('_') {
				pref.push(p[i..].to_string());
			}
		}
		for ct in containers {
			let ct_sorted = sort_container(ct);
			if let Some(m) = entry.get(&ct_sorted) {
				if let Some(m) = m.get(tl) {
					for p in &pref {
						if let Some(t) = m.get(p) {
							return Ok(Some(t.clone()));
						}
					}
				}
			}
		}
		Ok(None)
	}

	fn value(&self, ac: &AC, prop: Option<&str>, v: &J) -> R<J> {
		let c = &ac.c;
		let td = prop.and_then(|p| c.term(p));
		let lang = match td.and_then(|t| t.lang.clone()) {
			Some(l) => l,
			None => c.lang.clone(),
		};
		let dir = match td.and_then(|t| t.dir.clone()) {
			Some(l) => l,
			None => c.dir.clone(),
		};
		let typ = td.and_then(|t| t.typ.as_deref());
		let index_ok = !v.has("@index") || td.map_or(false, |t| t.has("@index"));
		if let Some(id) = v.get("@id") {
			if v.as_obj().unwrap().iter().all(|(k, _)| k == "@id" || k == "@index") {
				if let J::Str(id) = id {
					if typ == Some("@id") {
						return Ok(s(&self.iri(ac, id, None, false, false)?));
					}
					if typ == Some("@vocab") {
						return Ok(s(&self.iri(ac, id, None, true, false)?));
					}
				}
			}
			if !v.has("@value") {
				return Ok(v.clone());
			}
		}
		let val = v.get("@value").unwrap().clone();
		let vt = v.get("@type").and_then(|t| t.as_str());
		let mut r = v.clone();
		if vt.is_some() && vt == typ {
			if index_ok {
				return Ok(val);
			}
			r.set("@type", s(&self.iri(ac, vt.unwrap(), None, true, false)?));
		} else if typ.is_some() || vt.is_some() {
			// Stricter than the specification, which compacts untyped values of a
			// typed property (reached by its full IRI) to what expands to another value.
			if let Some(t) = vt {
				r.set("@type", s(&self.iri(ac, t, None, true, false)?));
			}
		} else if !val.is_str() {
			if index_ok {
				return Ok(val);
			}
		} else {
			let vl = v.get("@language").and_then(|l| l.as_str()).map(|l| l.to_lowercase());
			let vd = v.get("@direction").and_then(|l| l.as_str()).map(|l| l.to_string());
			if vl == lang.map(|l| l.to_lowercase()) && vd == dir && index_ok {
				return Ok(val);
			}
		}
		let mut out = J::new_obj();
		for (k, x) in r.as_obj().unwrap() {
			if k == "@index" && td.map_or(false, |t| t.has("@index")) {
				continue;
			}
			out.set(&self.iri(ac, k, None, true, false)?, x.clone());
		}
		Ok(out)
	}
}

fn sort_container(c: &str) -> String {
	let mut p: Vec<String> = c.split('@').filter(|x| !x.is_empty()).map(|x| format!("@{x}")).collect();
	p.sort();
	p.concat()
}

/// A relative reference that resolves back to `iri` against `base`.
/// Which one is not prescribed: this is the one of the `iref` library, provided
/// that it resolves back.
pub fn relativize(base: &str, iri: &str) -> String {
	match (iref::Iri::new(base), iref::Iri::new(iri)) {
		(Ok(b), Ok(i)) => {
			let r = i.relative_to(b).to_string();
			if iri::resolve(base, &r) == iri {
				if kw_form(&r) {
					format!("./{r}")
				} else {
					r
				}
			} else {
				iri.to_string()
			}
		}
		_ => iri.to_string(),
	}
}
