//! Node map generation and flattening (JSON-LD 1.1 API sections 7.1, 7.2),
//! keeping the blank node labels of the input; results are to be compared up to
//! blank node renaming.
use super::*;
use crate::json::{obj, s};
use std::collections::BTreeMap;

pub type Graph = BTreeMap<String, J>;

#[derive(Default)]
pub struct NodeMap {
	pub graphs: BTreeMap<String, Graph>,
	fresh: usize,
	/// The library streams the quads of a document without building its node
	/// map: indexes, that have no RDF representation, cannot conflict, and each
	/// occurrence of a directional string has its own compound literal.
	pub streaming: bool,
}

pub const DEFAULT: &str = "@default";

impl NodeMap {
	pub fn fresh(&mut self) -> String {
		self.fresh += 1;
		format!("_:fresh!{}", self.fresh)
	}

	fn node(&mut self, g: &str, id: &str) -> &mut J {
		self.graphs
			.entry(g.to_string())
			.or_default()
			.entry(id.to_string())
			.or_insert_with(|| obj(vec![("@id", s(id))]))
	}

	fn push(&mut self, g: &str, subj: &str, prop: &str, v: J, unique: bool) {
		let nd = self.node(g, subj);
		if !nd.has(prop) {
			nd.set(prop, J::Arr(vec![]));
		}
		if let Some(J::Arr(a)) = nd.get_mut(prop) {
			if !unique || !a.iter().any(|x| crate::norm::object(x) == crate::norm::object(&v)) {
				a.push(v)
			}
		}
	}

	pub fn generate(&mut self, el: &J, graph: &str, subject: Option<&str>, prop: Option<&str>, list: Option<&mut Vec<J>>) -> R<()> {
		match el {
			J::Arr(a) => {
				let mut list = list;
				for x in a {
					self.generate(x, graph, subject, prop, list.as_deref_mut())?
				}
				Ok(())
			}
			J::Obj(_) => {
				if el.has("@value") {
					match list {
						Some(l) => l.push(el.clone()),
						None => {
							if let (Some(sb), Some(p)) = (subject, prop) {
								let unique = !(self.streaming && el.has("@direction"));
								self.push(graph, sb, p, el.clone(), unique)
							}
						}
					}
				} else if let Some(items) = el.get("@list") {
					let mut l = vec![];
					self.generate(items, graph, subject, prop, Some(&mut l))?;
					let mut r = obj(vec![("@list", J::Arr(l))]);
					if let Some(i) = el.get("@index") {
						r.set("@index", i.clone())
					}
					match list {
						Some(pl) => pl.push(r),
						None => {
							if let (Some(sb), Some(p)) = (subject, prop) {
								self.push(graph, sb, p, r, false)
							}
						}
					}
				} else {
					self.node_object(el, graph, subject, prop, list, None)?;
				}
				Ok(())
			}
			_ => Ok(()),
		}
	}

	fn node_object(
		&mut self,
		el: &J,
		graph: &str,
		subject: Option<&str>,
		prop: Option<&str>,
		list: Option<&mut Vec<J>>,
		reverse_of: Option<(&str, &str)>,
	) -> R<()> {
		let id = match el.get("@id") {
			Some(J::Str(i)) => i.clone(),
			_ => self.fresh(),
		};
		self.node(graph, &id);
		if let Some((rp, rid)) = reverse_of {
			self.push(graph, &id, rp, obj(vec![("@id", s(rid))]), true);
		} else if let Some(p) = prop {
			let r = obj(vec![("@id", s(&id))]);
			match list {
				Some(l) => l.push(r),
				None => {
					if let Some(sb) = subject {
						self.push(graph, sb, p, r, true)
					}
				}
			}
		}
		if let Some(t) = el.get("@type") {
			for t in t.to_arr() {
				self.push(graph, &id, "@type", t, true)
			}
		}
		if let Some(i) = el.get("@index") {
			let streaming = self.streaming;
			let nd = self.node(graph, &id);
			match nd.get("@index") {
				Some(j) if j != i && !streaming => return err("conflicting indexes"),
				_ => nd.set("@index", i.clone()),
			}
		}
		if let Some(J::Obj(r)) = el.get("@reverse") {
			for (p, vals) in r {
				for v in vals.to_arr() {
					self.node_object(&v, graph, None, None, None, Some((p, &id)))?;
				}
			}
		}
		if let Some(g) = el.get("@graph") {
			self.graphs.entry(id.clone()).or_default();
			self.generate(g, &id, None, None, None)?;
		}
		if let Some(i) = el.get("@included") {
			self.generate(i, graph, None, None, None)?;
		}
		for (p, vals) in el.as_obj().unwrap() {
			if p.starts_with('@') && is_kw(p) {
				continue;
			}
			let nd = self.node(graph, &id);
			if !nd.has(p) {
				nd.set(p, J::Arr(vec![]));
			}
			self.generate(vals, graph, Some(&id), Some(p), None)?;
		}
		Ok(())
	}
}

pub fn node_map(expanded: &J) -> R<NodeMap> {
	node_map_with(expanded, false)
}

pub fn node_map_with(expanded: &J, streaming: bool) -> R<NodeMap> {
	let mut nm = NodeMap { streaming, ..Default::default() };
	nm.graphs.insert(DEFAULT.into(), Default::default());
	nm.generate(expanded, DEFAULT, None, None, None)?;
	Ok(nm)
}

pub fn only_id(nd: &J) -> bool {
	nd.len() == 1 && nd.has("@id")
}

/// Flattened document (array of nodes) of an expanded document.
pub fn flatten(expanded: &J) -> R<J> {
	let mut nm = node_map(expanded)?;
	let mut def = nm.graphs.remove(DEFAULT).unwrap();
	for (g, nodes) in nm.graphs {
		let e = def.entry(g.clone()).or_insert_with(|| obj(vec![("@id", s(&g))]));
		e.set("@graph", J::Arr(nodes.into_values().filter(|n| !only_id(n)).collect()));
	}
	Ok(J::Arr(def.into_values().filter(|n| !only_id(n)).collect()))
}
