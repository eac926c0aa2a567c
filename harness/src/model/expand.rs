//! Expansion (JSON-LD 1.1 API sections 5.1, 5.3).
use super::context::{expand_iri as plain_iri, *};
use super::*;
use crate::json::{obj, s};
use std::cell::RefCell;

/// What to do with what a policy is about.
#[derive(Clone, Copy, Default, PartialEq, Eq, Debug)]
pub enum Act {
	#[default]
	Keep,
	Drop,
	Reject,
}

/// Expansion policy, and what was met that it could be about.
#[derive(Clone, Default, Debug)]
pub struct Policy {
	pub invalid: Act,
	pub vocab: Act,
	pub no_undefined: bool,
	pub rejected: bool,
	pub met_invalid: u64,
	pub met_vocab: u64,
	pub met_undefined: u64,
}

thread_local! {
	static POLICY: RefCell<Policy> = RefCell::new(Policy::default());
}

/// Runs the expansion with the given policy; gives back what was met.
pub fn with_policy(p: Policy, f: impl FnOnce() -> R<J>) -> (R<J>, Policy) {
	POLICY.with(|x| *x.borrow_mut() = p);
	let r = f();
	let p = POLICY.with(|x| std::mem::take(&mut *x.borrow_mut()));
	(if p.rejected && r.is_ok() { err("policy") } else { r }, p)
}

/// IRI expansion of a term of the document.
fn expand_iri(ctx: &Ctx, v: &str, doc: bool, vocab: bool) -> Option<String> {
	let (r, by_vocab) = expand_iri_by(ctx, v, doc, vocab);
	if !by_vocab {
		return r;
	}
	POLICY.with(|p| {
		let mut p = p.borrow_mut();
		p.met_vocab += 1;
		match p.vocab {
			Act::Keep => r,
			Act::Drop => None,
			Act::Reject => {
				p.rejected = true;
				None
			}
		}
	})
}

/// Whether a property or type is kept.
fn keep(id: &str) -> bool {
	if is_kw(id) || iri::is_iri(id) || rdf_types::BlankId::new(id).is_ok() {
		return true;
	}
	POLICY.with(|p| {
		let mut p = p.borrow_mut();
		p.met_invalid += 1;
		p.rejected |= p.invalid == Act::Reject;
		p.invalid == Act::Keep
	})
}

fn undefined() {
	POLICY.with(|p| {
		let mut p = p.borrow_mut();
		p.met_undefined += 1;
		p.rejected |= p.no_undefined || p.invalid == Act::Reject;
	})
}

pub struct Opt<'a> {
	pub base: Option<&'a str>,
	pub expand_context: Option<&'a J>,
}

fn is_value(j: &J) -> bool {
	j.has("@value")
}
fn is_list(j: &J) -> bool {
	j.has("@list")
}
pub fn is_graph_object(j: &J) -> bool {
	match j {
		J::Obj(m) => j.has("@graph") && m.iter().all(|(k, _)| matches!(k.as_str(), "@graph" | "@id" | "@index" | "@context")),
		_ => false,
	}
}

/// Top level expansion: always gives an array.
pub fn expand(env: &Env, doc: &J, o: &Opt) -> R<J> {
	let mut ctx = Ctx::new(o.base);
	if let Some(c) = o.expand_context {
		let c = c.get("@context").unwrap_or(c);
		ctx = process(env, &ctx, c, o.base, PO::default())?;
	}
	let mut x = element(env, &ctx, None, doc, o.base, false)?;
	if x.get("@id") == Some(&J::Null) {
		x.remove("@id");
	}
	let x = match x {
		J::Obj(ref m) if m.len() == 1 && m[0].0 == "@graph" => m[0].1.clone(),
		x => x,
	};
	Ok(match x {
		J::Null => J::Arr(vec![]),
		J::Arr(a) => J::Arr(a),
		x => J::Arr(vec![x]),
	})
}

fn add(result: &mut J, key: &str, v: J) {
	// Value of `key` is always an array; arrays are concatenated.
	let mut cur = match result.remove(key) {
		Some(c) => c.into_arr(),
		None => vec![],
	};
	match v {
		J::Arr(a) => cur.extend(a),
		x => cur.push(x),
	}
	result.set(key, J::Arr(cur));
}

fn sorted(m: &[(String, J)]) -> Vec<(String, J)> {
	let mut v = m.to_vec();
	v.sort_by(|a, b| a.0.cmp(&b.0));
	v
}

pub fn element(env: &Env, active: &Ctx, prop: Option<&str>, el: &J, base_url: Option<&str>, from_map: bool) -> R<J> {
	let scoped = prop.and_then(|p| active.term(p)).and_then(|t| t.context.clone().map(|c| (c, t.base_url.clone())));
	match el {
		J::Null => Ok(J::Null),
		J::Bool(_) | J::Num(_) | J::Str(_) => {
			if prop.is_none() || prop == Some("@graph") {
				return Ok(J::Null);
			}
			let mut a = active.clone();
			if let Some((c, b)) = &scoped {
				a = process(env, &a, c, b.as_deref(), PO::default())?;
			}
			Ok(value(&a, prop.unwrap(), el))
		}
		J::Arr(items) => {
			let mut out = vec![];
			for it in items {
				match element(env, active, prop, it, base_url, from_map)? {
					J::Arr(a) => out.extend(a),
					J::Null => (),
					x => out.push(x),
				}
			}
			// Same as turning nested arrays into lists, then the values of the property.
			if active.container(prop, "@list") {
				return Ok(obj(vec![("@list", J::Arr(out))]));
			}
			Ok(J::Arr(out))
		}
		J::Obj(m) => {
			let mut ctx = active.clone();
			if let Some(prev) = &active.previous {
				if !from_map {
					let exp: Vec<_> = m.iter().map(|(k, _)| plain_iri(&ctx, k, false, true)).collect();
					let has_value = exp.iter().any(|k| k.as_deref() == Some("@value"));
					let only_id = exp.len() == 1 && exp[0].as_deref() == Some("@id");
					if !has_value && !only_id {
						ctx = (**prev).clone();
					}
				}
			}
			if let Some((c, b)) = &scoped {
				ctx = process(env, &ctx, c, b.as_deref(), PO { over: true, ..Default::default() })?;
			}
			if let Some(c) = el.get("@context") {
				ctx = process(env, &ctx, c, base_url, PO::default())?;
			}
			let type_scoped = ctx.clone();
			let mut input_type: Option<String> = None;
			let mut first = true;
			for (k, v) in sorted(m) {
				if plain_iri(&ctx, &k, false, true).as_deref() == Some("@type") {
					let vals = v.to_arr();
					let mut ts: Vec<String> = vals.iter().filter_map(|t| t.as_str().map(|x| x.to_string())).collect();
					ts.sort();
					for t in &ts {
						if let Some(td) = type_scoped.term(t) {
							if let Some(c) = &td.context {
								ctx = process(env, &ctx, c, td.base_url.as_deref(), PO { propagate: false, ..Default::default() })?;
							}
						}
					}
					if first {
						if let Some(J::Str(t)) = vals.last() {
							input_type = Some(t.clone());
						}
						first = false;
					}
				}
			}
			let input_type = input_type.and_then(|t| plain_iri(&ctx, &t, false, true));
			// Objects made of a value, list or set are not given other entries, not
			// even null ones.
			let ks: Vec<String> = m.iter().filter_map(|(k, _)| expand_iri(&ctx, k, false, true)).filter(|k| k.contains(':') || is_kw(k)).collect();
			let has = |k: &str| ks.iter().any(|x| x == k);
			if has("@list") && prop.is_some() && prop != Some("@graph") {
				if ks.iter().any(|k| !matches!(k.as_str(), "@list" | "@index" | "@context")) {
					return err("invalid set or list object");
				}
			} else if has("@set") {
				if ks.iter().any(|k| !matches!(k.as_str(), "@set" | "@index" | "@context")) {
					return err("invalid set or list object");
				}
			} else if has("@value") {
				if ks.iter().any(|k| !matches!(k.as_str(), "@value" | "@type" | "@language" | "@direction" | "@index" | "@context")) {
					return err("invalid value object");
				}
				let types: Vec<&J> = m.iter().filter(|(k, _)| plain_iri(&ctx, k, false, true).as_deref() == Some("@type")).map(|(_, v)| v).collect();
				if types.len() > 1 && POLICY.with(|p| p.borrow().vocab == Act::Drop) {
					return err("model: several types, some of which may be dropped");
				}
				if types.iter().any(|v| !v.is_str()) {
					return err("invalid typed value");
				}
			}
			let mut result = J::new_obj();
			props(env, &ctx, &type_scoped, prop, m, base_url, input_type.as_deref(), &mut result)?;
			// 15
			if result.has("@value") {
				let rm = result.as_obj().unwrap();
				if rm.iter().any(|(k, _)| !matches!(k.as_str(), "@direction" | "@index" | "@language" | "@type" | "@value")) {
					return err("invalid value object");
				}
				if result.has("@type") && (result.has("@language") || result.has("@direction")) {
					return err("invalid value object");
				}
				let ty = result.get("@type").cloned();
				let is_json = matches!(&ty, Some(J::Arr(a)) if a.len() == 1 && a[0] == s("@json")) || ty == Some(s("@json"));
				let v = result.get("@value").unwrap();
				if is_json {
				} else if *v == J::Null || *v == J::Arr(vec![]) {
					return Ok(J::Null);
				} else if !v.is_str() && (result.has("@language") || result.has("@direction")) {
					return err("invalid language-tagged value");
				} else if let Some(t) = &ty {
					let t = match t {
						J::Arr(a) if a.len() == 1 => a[0].clone(),
						t => t.clone(),
					};
					match t {
						J::Str(t) if iri::is_iri(&t) => (),
						_ => return err("invalid typed value"),
					}
				}
				// In the expanded form the type of a value object is a string.
				if let Some(J::Arr(a)) = &ty {
					let t = a[0].clone();
					result.set("@type", t);
				}
			} else if result.has("@list") || result.has("@set") {
				let n = result.as_obj().unwrap().iter().filter(|(k, _)| !matches!(k.as_str(), "@list" | "@set" | "@index")).count();
				if n > 0 || (result.has("@list") && result.has("@set")) {
					return err("invalid set or list object");
				}
				if let Some(x) = result.remove("@set") {
					return finish(prop, x);
				}
			}
			if result.get("@type").map_or(false, |t| matches!(t, J::Arr(a) if a.is_empty())) {
				// No type at all.
				result.remove("@type");
			}
			if !result.has("@value") && result.get("@type").map_or(false, |t| t.to_arr().iter().any(|t| t.as_str().map_or(false, is_kw))) {
				return err("invalid type value");
			}
			if !result.has("@value") && (result.has("@language") || result.has("@direction")) {
				// `@language` and `@direction` have no meaning outside of value objects.
				result.remove("@language");
				result.remove("@direction");
				if result.as_obj().unwrap().iter().all(|(k, _)| k == "@index") {
					return Ok(J::Null);
				}
			}
			finish(prop, result)
		}
	}
}

fn finish(prop: Option<&str>, r: J) -> R<J> {
	if prop.is_none() || prop == Some("@graph") {
		match &r {
			J::Obj(m) => {
				if m.is_empty() || r.has("@value") || r.has("@list") {
					return Ok(J::Null);
				}
				if m.len() == 1 && r.has("@id") {
					return Ok(J::Null);
				}
			}
			// A set object is transparent at the top level.
			_ => (),
		}
	}
	Ok(r)
}

#[allow(clippy::too_many_arguments)]
fn props(
	env: &Env,
	ctx: &Ctx,
	type_scoped: &Ctx,
	prop: Option<&str>,
	m: &[(String, J)],
	base_url: Option<&str>,
	input_type: Option<&str>,
	result: &mut J,
) -> R<()> {
	let mut nests: Vec<(String, J)> = vec![];
	let is_value_obj = m.iter().any(|(k, _)| expand_iri(ctx, k, false, true).as_deref() == Some("@value"));
	// Keywords first, so that `@reverse` does not depend on its alias.
	let mut entries = sorted(m);
	entries.sort_by_key(|(k, _)| !expand_iri(ctx, k, false, true).map_or(false, |p| is_kw(&p)));
	for (key, val) in entries {
		if key == "@context" {
			continue;
		}
		let ep = match expand_iri(ctx, &key, false, true) {
			Some(p) if p.contains(':') || is_kw(&p) => p,
			Some(_) => {
				undefined();
				continue;
			}
			None => continue,
		};
		if !keep(&ep) {
			continue;
		}
		if is_kw(&ep) {
			if prop == Some("@reverse") {
				return err("invalid reverse property map");
			}
			// Stray `@language` and `@direction` entries of nodes are ignored.
			let stray = !is_value_obj && matches!(ep.as_str(), "@language" | "@direction");
			if result.has(&ep) && (env.v10() || ep != "@included" && ep != "@type") && !stray {
				return err("colliding keywords");
			}
			let mut ev = J::Null;
			match ep.as_str() {
				"@id" => match &val {
					J::Str(v) => {
						ev = match expand_iri(ctx, v, true, false) {
							Some(x) => J::Str(x),
							None => J::Null,
						}
					}
					_ => return err("invalid @id value"),
				},
				"@type" => {
					let mut ts = vec![];
					for t in val.to_arr() {
						match t {
							J::Str(t) => {
								if let Some(x) = expand_iri(type_scoped, &t, true, true) {
									if is_value_obj || keep(&x) {
										ts.push(J::Str(x))
									}
								}
							}
							_ => return err("invalid type value"),
						}
					}
					add(result, "@type", J::Arr(ts));
					continue;
				}
				"@graph" => {
					let x = element(env, ctx, Some("@graph"), &val, base_url, false)?;
					ev = J::Arr(match x {
						J::Null => vec![],
						x => x.into_arr(),
					});
				}
				"@included" => {
					if env.v10() {
						continue;
					}
					// Included blocks are node objects even when they only hold `@id`.
					let x = element(env, ctx, Some("@included"), &val, base_url, false)?;
					let mut a = match x {
						J::Null => vec![],
						x => x.into_arr(),
					};
					for x in &a {
						if !x.is_obj() || is_value(x) || is_list(x) || x.has("@set") {
							return err("invalid @included value");
						}
					}
					if let Some(J::Arr(p)) = result.remove("@included") {
						let mut q = p;
						q.append(&mut a);
						a = q;
					}
					ev = J::Arr(a);
				}
				"@value" => {
					if input_type == Some("@json") {
						if env.v10() {
							return err("invalid value object value");
						}
						ev = val.clone()
					} else if !(val == J::Null || val.is_scalar()) {
						return err("invalid value object value");
					} else {
						ev = val.clone();
						if ev == J::Null {
							result.set("@value", J::Null);
							continue;
						}
					}
				}
				"@language" | "@direction" if !is_value_obj => ev = J::Str("ltr".into()),
				"@language" => match &val {
					// (A reading: `@none` is no language.)
					J::Str(l) if l == "@none" => continue,
					J::Str(_) => ev = val.clone(),
					_ => return err("invalid language-tagged string"),
				},
				"@direction" => {
					if env.v10() {
						continue;
					}
					match &val {
						J::Str(d) if d == "ltr" || d == "rtl" => ev = val.clone(),
						_ => return err("invalid base direction"),
					}
				}
				"@index" => match &val {
					J::Str(_) => ev = val.clone(),
					_ => return err("invalid @index value"),
				},
				"@list" => {
					if prop.is_none() || prop == Some("@graph") {
						continue;
					}
					let mut items = vec![];
					for it in val.to_arr() {
						match element(env, ctx, prop, &it, base_url, false)? {
							J::Null => (),
							x => items.extend(x.into_arr()),
						}
					}
					ev = J::Arr(items);
				}
				"@set" => ev = element(env, ctx, prop, &val, base_url, false)?,
				"@reverse" => {
					if !val.is_obj() {
						return err("invalid @reverse value");
					}
					if env.quirks.reverse_map {
						for (rk, rv) in sorted(val.as_obj().unwrap()) {
							let rp = match expand_iri(ctx, &rk, false, true) {
								Some(p) if is_kw(&p) => return err("invalid reverse property map"),
								Some(p) if p.contains(':') => p,
								Some(_) => {
									undefined();
									continue;
								}
								None => continue,
							};
							if !keep(&rp) {
								continue;
							}
							let x = match element(env, ctx, Some(&rk), &rv, base_url, false)? {
								J::Arr(_) if ctx.container(Some(&rk), "@list") => return err("invalid reverse property value"),
								J::Null => vec![],
								x => x.into_arr(),
							};
							if ctx.term(&rk).map_or(false, |t| t.reverse) {
								add(result, &rp, J::Arr(x));
							} else {
								let mut rm = result.remove("@reverse").unwrap_or_else(J::new_obj);
								for it in x {
									if is_value(&it) || is_list(&it) {
										return err("invalid reverse property value");
									}
									add(&mut rm, &rp, it);
								}
								result.set("@reverse", rm);
							}
						}
						continue;
					}
					let mut x = element(env, ctx, Some("@reverse"), &val, base_url, false)?;
					if let Some(J::Obj(rr)) = x.remove("@reverse") {
						for (p, items) in rr {
							add(result, &p, items);
						}
					}
					if let J::Obj(xm) = &x {
						if !xm.is_empty() {
							let mut rm = result.remove("@reverse").unwrap_or_else(J::new_obj);
							for (p, items) in xm {
								for it in items.to_arr() {
									if is_value(&it) || is_list(&it) {
										return err("invalid reverse property value");
									}
									add(&mut rm, p, it);
								}
							}
							result.set("@reverse", rm);
						}
					}
					continue;
				}
				"@nest" => {
					nests.push((key.clone(), val.clone()));
					continue;
				}
				"@default" | "@embed" | "@explicit" | "@omitDefault" | "@requireAll" => {
					// Framing keywords are not interpreted outside of framing.
					continue;
				}
				_ => continue,
			}
			if !(ev == J::Null && ep == "@value" && input_type != Some("@json")) {
				result.set(&ep, ev);
			}
			continue;
		}
		let td = ctx.term(&key);
		let has = |c: &str| td.map_or(false, |t| t.has(c));
		let mut ev;
		if td.and_then(|t| t.typ.as_deref()) == Some("@json") {
			ev = obj(vec![("@value", val.clone()), ("@type", s("@json"))]);
		} else if has("@language") && val.is_obj() {
			let mut out = vec![];
			let mut dir = ctx.dir.clone();
			if let Some(d) = &td.unwrap().dir {
				dir = d.clone();
			}
			for (lang, lv) in sorted(val.as_obj().unwrap()) {
				for item in lv.into_arr() {
					match item {
						J::Null => continue,
						J::Str(x) => {
							let mut v = obj(vec![("@value", J::Str(x)), ("@language", J::Str(lang.clone()))]);
							if lang == "@none" || plain_iri(ctx, &lang, false, true).as_deref() == Some("@none") {
								v.remove("@language");
							}
							if let Some(d) = &dir {
								v.set("@direction", J::Str(d.clone()));
							}
							out.push(v)
						}
						_ => return err("invalid language map value"),
					}
				}
			}
			ev = J::Arr(out);
		} else if (has("@index") || has("@type") || has("@id")) && val.is_obj() {
			let td = td.unwrap();
			let mut out = vec![];
			let index_key = td.index.clone().unwrap_or_else(|| "@index".into());
			let as_graph = has("@graph");
			for (index, iv) in sorted(val.as_obj().unwrap()) {
				let mut mctx = ctx.clone();
				if has("@type") || has("@id") {
					if let Some(p) = &ctx.previous {
						mctx = (**p).clone();
					}
				}
				if has("@type") {
					let sc = mctx.term(&index).and_then(|t| t.context.clone().map(|c| (c, t.base_url.clone())));
					if let Some((c, b)) = sc {
						mctx = process(env, &mctx, &c, b.as_deref(), PO { propagate: false, ..Default::default() })?;
					}
				}
				if !has("@type") && !has("@id") {
					mctx = ctx.clone();
				}
				if mctx.container(Some(&key), "@list") != has("@list") {
					return err("model: type-scoped container");
				}
				let ei = if has("@type") { expand_iri(ctx, &index, false, true).filter(|x| keep(x)) } else { plain_iri(ctx, &index, false, true) };
				let x = element(env, &mctx, Some(&key), &J::Arr(iv.into_arr()), base_url, true)?;
				for mut item in x.into_arr() {
					if as_graph && !is_graph_object(&item) {
						item = obj(vec![("@graph", J::Arr(item.into_arr()))]);
					}
					let none = ei.as_deref() == Some("@none");
					if has("@index") && index_key != "@index" && !none {
						let re = value(ctx, &index_key, &J::Str(index.clone()));
						let Some(ek) = expand_iri(ctx, &index_key, false, true) else {
							return err("model: the index property is not an IRI");
						};
						let mut vals = vec![re];
						if let Some(ex) = item.remove(&ek) {
							vals.extend(ex.into_arr());
						}
						if is_value(&item) || is_list(&item) {
							return err("invalid value object");
						}
						item.set(&ek, J::Arr(vals));
					} else if has("@index") && index_key == "@index" && !item.has("@index") && !none {
						item.set("@index", J::Str(index.clone()));
					} else if has("@id") && item.get("@id").map_or(true, |i| *i == J::Null) && !none {
						// Only node objects are identified.
						match expand_iri(ctx, &index, true, false) {
							_ if is_value(&item) || is_list(&item) => (),
							Some(x) => item.set("@id", J::Str(x)),
							None => item.set("@id", J::Null),
						}
					} else if has("@type") && !none {
						if ei.as_deref().map_or(false, is_kw) {
							return err("invalid type value");
						}
						if is_value(&item) || is_list(&item) {
							out.push(item);
							continue;
						}
						let mut ts: Vec<J> = ei.iter().map(|x| J::Str(x.clone())).collect();
						if let Some(t) = item.remove("@type") {
							ts.extend(t.into_arr());
						}
						item.set("@type", J::Arr(ts));
					}
					out.push(item);
				}
			}
			ev = J::Arr(out);
		} else {
			ev = element(env, ctx, Some(&key), &val, base_url, false)?;
		}
		if ev == J::Null {
			continue;
		}
		if has("@list") && !is_list(&ev) {
			ev = obj(vec![("@list", J::Arr(ev.into_arr()))]);
		}
		if has("@graph") && !has("@id") && !has("@index") {
			ev = J::Arr(ev.into_arr().into_iter().map(|x| obj(vec![("@graph", J::Arr(x.into_arr()))])).collect());
		}
		if td.map_or(false, |t| t.reverse) {
			let mut rm = result.remove("@reverse").unwrap_or_else(J::new_obj);
			for it in ev.into_arr() {
				if is_value(&it) || is_list(&it) {
					return err("invalid reverse property value");
				}
				add(&mut rm, &ep, it);
			}
			result.set("@reverse", rm);
		} else {
			add(result, &ep, ev);
		}
	}
	for (nk, nv) in nests {
		// Steps 3, 8, 13 and 14 with the nesting key as active property.
		let mut nctx = ctx.clone();
		if let Some(t) = ctx.term(&nk) {
			if let Some(c) = &t.context {
				nctx = process(env, &nctx, c, t.base_url.as_deref(), PO { over: true, ..Default::default() })?;
			}
		}
		for v in nv.into_arr() {
			let vm = match &v {
				J::Obj(vm) => vm.clone(),
				_ => return err("invalid @nest value"),
			};
			if vm.iter().any(|(k, _)| expand_iri(ctx, k, false, true).as_deref() == Some("@value")) {
				return err("invalid @nest value");
			}
			props(env, &nctx, type_scoped, prop, &vm, base_url, input_type, result)?;
		}
	}
	Ok(())
}

/// Value expansion.
pub fn value(ctx: &Ctx, prop: &str, v: &J) -> J {
	let td = ctx.term(prop);
	let typ = td.and_then(|t| t.typ.as_deref());
	if let (Some("@id"), J::Str(x)) = (typ, v) {
		return obj(vec![("@id", opt(expand_iri(ctx, x, true, false)))]);
	}
	if let (Some("@vocab"), J::Str(x)) = (typ, v) {
		return obj(vec![("@id", opt(expand_iri(ctx, x, true, true)))]);
	}
	let mut r = obj(vec![("@value", v.clone())]);
	match typ {
		Some(t) if !matches!(t, "@id" | "@vocab" | "@none") => r.set("@type", s(t)),
		_ => {
			if v.is_str() {
				let lang = match td.and_then(|t| t.lang.clone()) {
					Some(l) => l,
					None => ctx.lang.clone(),
				};
				let dir = match td.and_then(|t| t.dir.clone()) {
					Some(l) => l,
					None => ctx.dir.clone(),
				};
				if let Some(l) = lang {
					r.set("@language", J::Str(l))
				}
				if let Some(d) = dir {
					r.set("@direction", J::Str(d))
				}
			}
		}
	}
	r
}

fn opt(v: Option<String>) -> J {
	match v {
		Some(v) => J::Str(v),
		None => J::Null,
	}
}
