//! Equality up to a renaming of the blank nodes.
use crate::json::J;
use std::collections::{BTreeMap, BTreeSet};
use std::hash::{Hash, Hasher};

pub type Ren<'a> = &'a dyn Fn(&str) -> String;

/// Applies `f` to the blank node identifiers of an expanded document.
pub fn map_expanded(j: &J, f: Ren) -> J {
	let id = |s: &str| if s.starts_with("_:") { f(s) } else { s.to_string() };
	match j {
		J::Arr(a) => J::Arr(a.iter().map(|x| map_expanded(x, f)).collect()),
		J::Obj(m) => {
			if j.has("@value") {
				return j.clone();
			}
			J::Obj(
				m.iter()
					.map(|(k, v)| match k.as_str() {
						"@id" => (k.clone(), v.as_str().map(|s| J::Str(id(s))).unwrap_or(v.clone())),
						"@type" => (
							k.clone(),
							match v {
								J::Arr(a) => J::Arr(a.iter().map(|x| x.as_str().map(|s| J::Str(id(s))).unwrap_or(x.clone())).collect()),
								J::Str(s) => J::Str(id(s)),
								o => o.clone(),
							},
						),
						"@index" => (k.clone(), v.clone()),
						_ => (id(k), map_expanded(v, f)),
					})
					.collect(),
			)
		}
		o => o.clone(),
	}
}

/// Applies `f` to the blank node identifiers of a list of quads.
pub fn map_quads(j: &J, f: Ren) -> J {
	let id = |x: &J| match x {
		J::Str(s) if s.starts_with("_:") => J::Str(f(s)),
		o => o.clone(),
	};
	match j {
		J::Arr(qs) => J::Arr(
			qs.iter()
				.map(|q| match q {
					J::Arr(q) => J::Arr(q.iter().map(id).collect()),
					o => o.clone(),
				})
				.collect(),
		),
		o => o.clone(),
	}
}

pub fn norm_quads(j: &J) -> J {
	match j {
		J::Arr(a) => {
			let mut a = a.clone();
			a.sort();
			a.dedup();
			J::Arr(a)
		}
		o => o.clone(),
	}
}

type Map = fn(&J, Ren) -> J;
type Norm = fn(&J) -> J;

pub fn labels(j: &J, map: Map) -> BTreeSet<String> {
	let out = std::cell::RefCell::new(BTreeSet::new());
	map(j, &|s| {
		out.borrow_mut().insert(s.to_string());
		s.to_string()
	});
	out.into_inner()
}

fn h<T: Hash>(t: &T) -> u64 {
	let mut s = std::collections::hash_map::DefaultHasher::new();
	t.hash(&mut s);
	s.finish()
}

type Col = BTreeMap<String, u64>;

fn refine(j: &J, col: &mut Col, map: Map, norm: Norm) {
	loop {
		let before: BTreeSet<u64> = col.values().copied().collect();
		let next: Col = col
			.keys()
			.map(|x| {
				let y = map(j, &|s| if s == x { "_:ME".into() } else { format!("_:{:x}", col.get(s).copied().unwrap_or(0)) });
				(x.clone(), h(&(col[x], norm(&y).text())))
			})
			.collect();
		let after: BTreeSet<u64> = next.values().copied().collect();
		*col = next;
		if after.len() <= before.len() {
			return;
		}
	}
}

fn classes(c: &Col) -> BTreeMap<u64, Vec<String>> {
	let mut m: BTreeMap<u64, Vec<String>> = BTreeMap::new();
	for (k, v) in c {
		m.entry(*v).or_default().push(k.clone())
	}
	m
}

/// None: undecided (too many candidates).
pub fn equal(a: &J, b: &J, map: Map, norm: Norm) -> Option<bool> {
	let (la, lb) = (labels(a, map), labels(b, map));
	if la.len() != lb.len() {
		return Some(false);
	}
	if la.len() > 60 {
		return None;
	}
	let ca: Col = la.into_iter().map(|x| (x, 0)).collect();
	let cb: Col = lb.into_iter().map(|x| (x, 0)).collect();
	let mut budget = 60;
	search(a, ca, b, cb, map, norm, &mut budget)
}

fn search(a: &J, mut ca: Col, b: &J, mut cb: Col, map: Map, norm: Norm, budget: &mut i32) -> Option<bool> {
	*budget -= 1;
	if *budget < 0 {
		return None;
	}
	refine(a, &mut ca, map, norm);
	refine(b, &mut cb, map, norm);
	let (ka, kb) = (classes(&ca), classes(&cb));
	if ka.len() != kb.len() || ka.iter().zip(&kb).any(|(x, y)| x.0 != y.0 || x.1.len() != y.1.len()) {
		return Some(false);
	}
	match ka.iter().find(|(_, v)| v.len() > 1) {
		None => {
			let m: BTreeMap<String, String> = ka.iter().map(|(k, v)| (v[0].clone(), kb[k][0].clone())).collect();
			let a2 = map(a, &|s| m.get(s).cloned().unwrap_or_else(|| s.to_string()));
			Some(norm(&a2) == norm(b))
		}
		Some((k, v)) => {
			let mut undecided = false;
			let mut c1 = ca.clone();
			c1.insert(v[0].clone(), h(&(k, "picked")));
			for y in &kb[k] {
				let mut c2 = cb.clone();
				c2.insert(y.clone(), h(&(k, "picked")));
				match search(a, c1.clone(), b, c2, map, norm, budget) {
					Some(true) => return Some(true),
					None => undecided = true,
					_ => (),
				}
			}
			if undecided {
				None
			} else {
				Some(false)
			}
		}
	}
}

pub fn docs(a: &J, b: &J) -> Option<bool> {
	equal(a, b, map_expanded, crate::norm::expanded)
}

pub fn quads(a: &J, b: &J) -> Option<bool> {
	equal(a, b, map_quads, norm_quads)
}
