//! Normal forms under which results are compared.
use crate::json::J;

/// Normal form of an expanded (or flattened) document: member order, order of
/// values outside of lists, and repetition in node sets are not significant.
pub fn expanded(j: &J) -> J {
	set(j)
}

fn set(j: &J) -> J {
	match j {
		J::Arr(a) => {
			// A node object of a graph with no entry but `@id` states nothing.
			let mut v: Vec<J> = a.iter().map(object).filter(|x| !matches!(x, J::Obj(m) if m.iter().all(|(k, _)| k == "@id"))).collect();
			v.sort();
			v.dedup();
			J::Arr(v)
		}
		o => o.clone(),
	}
}

fn bag(j: &J) -> J {
	match j {
		J::Arr(a) => {
			let mut v: Vec<J> = a.iter().map(object).collect();
			v.sort();
			J::Arr(v)
		}
		o => o.clone(),
	}
}

pub fn object(j: &J) -> J {
	let m = match j {
		J::Obj(m) => m,
		o => return o.clone(),
	};
	let mut out = vec![];
	for (k, v) in m {
		let v2 = match k.as_str() {
			"@graph" => set(v),
			"@included" => bag(v).dedup(),
			"@list" => match v {
				J::Arr(a) => J::Arr(a.iter().map(object).collect()),
				o => o.clone(),
			},
			"@id" if *v == J::Null => continue,
			"@value" => v.sorted(),
			"@language" => match v {
				J::Str(l) => J::Str(l.to_ascii_lowercase()),
				o => o.clone(),
			},
			"@reverse" => match v {
				J::Obj(rm) => {
					let mut r: Vec<(String, J)> = rm.iter().filter(|(_, v)| v.len() > 0).map(|(k, v)| (k.clone(), bag(v))).collect();
					r.sort();
					if r.is_empty() {
						continue;
					}
					J::Obj(r)
				}
				o => o.clone(),
			},
			"@type" => match v {
				J::Arr(a) => {
					if a.is_empty() {
						continue;
					}
					let mut a = a.clone();
					a.sort();
					J::Arr(a)
				}
				o => o.clone(),
			},
			k if crate::model::is_kw(k) => v.clone(),
			_ => bag(v),
		};
		out.push((k.clone(), v2));
	}
	out.sort();
	J::Obj(out)
}
