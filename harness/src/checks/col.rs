//! C21: the collections of the data model behave as the collections they are,
//! whatever the history of operations.
use crate::drv;
use crate::json::{n, obj, s, J};
use crate::norm;
use crate::rng::Rng;
use crate::run::*;
use iref::IriBuf;
use json_ld::object::node::{Multiset, Properties, ReverseProperties};
use json_ld::object::{List, Literal};
use json_ld::syntax::{IntoJson, LenientLangTagBuf, Nullable};
use json_ld::{Container, Direction, ExpandedDocument, Id, Indexed, LangString, Object, Term, TryFromJson, Value};
use json_ld_core::context::inverse::{LangSelection, Selection, TypeSelection};
use json_ld_core::context::{Binding, NormalTermDefinition, TypeTermDefinition};
use json_ld_core::flattening::{NodeMap, NodeMapGraph};
use json_ld_core::Type;
use rdf_types::BlankIdBuf;
use std::collections::{BTreeMap, BTreeSet};
use std::hash::{Hash, Hasher};

type Iid = Id<IriBuf, BlankIdBuf>;
type Obj = Indexed<Object<IriBuf, BlankIdBuf>>;
type Node = json_ld::Node<IriBuf, BlankIdBuf>;
type INode = Indexed<Node>;
type R = Result<(), (String, String)>;

fn js<T: json_ld::syntax::IntoJsonWithContext<()>>(t: T) -> J {
	use contextual::WithContext;
	J::from_js(&t.into_with(&()).into_json())
}

fn hash<T: Hash>(t: &T) -> u64 {
	let mut h = std::collections::hash_map::DefaultHasher::new();
	t.hash(&mut h);
	h.finish()
}

macro_rules! want {
	($a:expr, $b:expr, $what:expr) => {
		let (a, b) = (&$a, &$b);
		if a != b {
			return Err(($what.to_string(), format!("library {a:?}, model {b:?}")));
		}
	};
}

// --- objects

const PROPS: &[&str] = &["http://ex.org/p", "http://ex.org/q", "_:p", "http://ex.org/p#", "not an id"];
const NIDS: &[&str] = &["http://ex.org/1", "http://ex.org/2", "_:b0", "_:b1", "bad id"];

fn val(r: &mut Rng) -> J {
	let mut v = vec![];
	match r.below(6) {
		0 => v.push(("@value", s(["x", "y", ""][r.below(3)]))),
		1 => v.push(("@value", n(r.below(2) as i64))),
		2 => v.push(("@value", J::Bool(r.pc(50)))),
		3 => {
			v.push(("@value", s("x")));
			v.push(("@language", s(["en", "fr"][r.below(2)])));
			if r.pc(30) {
				v.push(("@direction", s("rtl")))
			}
		}
		4 => {
			v.push(("@type", s(["http://ex.org/t", "@json"][r.below(2)])));
			v.push(("@value", s("x")));
		}
		_ => {
			v.push(("@value", s("x")));
			v.push(("@direction", s(["ltr", "rtl"][r.below(2)])));
		}
	}
	obj(v)
}

fn node(r: &mut Rng, depth: usize) -> J {
	let mut v = J::new_obj();
	if r.pc(75) {
		v.set("@id", s(r.pick(NIDS)))
	}
	if r.pc(25) {
		v.set("@type", J::Arr((0..r.range(1, 2)).map(|_| s(r.pick(NIDS))).collect()))
	}
	if depth > 0 {
		for _ in 0..r.below(3) {
			let p = r.ps(PROPS);
			let o = (0..r.range(1, 3)).map(|_| object(r, depth - 1)).collect();
			v.set(&p, J::Arr(o))
		}
	}
	v
}

fn object(r: &mut Rng, depth: usize) -> J {
	let mut o = match r.below(10) {
		0..=4 => val(r),
		5 if depth > 0 => obj(vec![("@list", J::Arr((0..r.below(3)).map(|_| object(r, depth - 1)).collect()))]),
		_ => node(r, depth),
	};
	if r.pc(12) {
		o.set("@index", s(["i", "j"][r.below(2)]))
	}
	o
}

fn parse(j: &J) -> Option<Obj> {
	Obj::try_from_json_in(&mut (), j.to_js()).ok()
}

fn parse_node(j: &J) -> Option<INode> {
	if j.has("@value") || j.has("@list") {
		return None;
	}
	INode::try_from_json_in(&mut (), j.to_js()).ok()
}

fn id(t: &str) -> Iid {
	Id::from_string(t.to_string())
}

fn bag(v: &[J]) -> Vec<J> {
	let mut v: Vec<J> = v.iter().map(norm::object).collect();
	v.sort();
	v
}

fn same(a: &J, b: &J) -> bool {
	norm::object(a) == norm::object(b)
}

/// The equivalence by which duplicates are recognised.
fn equivalent(a: &J, b: &J) -> bool {
	let kind = |x: &J| (x.has("@value"), x.has("@list"));
	match (kind(a), kind(b)) {
		((true, _), (true, _)) => same(a, b),
		((false, false), (false, false)) => a.has("@id") && b.has("@id") && same(a, b),
		_ => false,
	}
}

fn unique(l: &mut Vec<J>, v: &J) {
	if !l.iter().any(|x| equivalent(x, v)) {
		l.push(v.clone())
	}
}

// --- histories on a node

const OPS: &[&str] = &[
	"insert", "insert_unique", "insert_all", "insert_all_unique", "set", "extend_unique", "extend", "remove", "clear", "touch", "node_insert", "node_insert_all", "or_insert", "replace", "type", "types", "no_types",
	"graph", "included", "id", "rebuild",
];

fn node_case(mut r: Rng) -> J {
	let len = if r.pc(80) { r.range(1, 10) } else { r.range(10, 40) };
	let mut ops = vec![];
	for _ in 0..len {
		let op = r.ps(OPS);
		let rev = r.pc(40);
		let k = r.below(4);
		let vs: Vec<J> = (0..k).map(|_| if rev { node(&mut r, 1) } else { object(&mut r, 1) }).collect();
		ops.push(obj(vec![("op", s(&op)), ("rev", J::Bool(rev)), ("p", s(r.pick(PROPS))), ("q", s(r.pick(PROPS))), ("v", J::Arr(vs))]));
	}
	obj(vec![("ops", J::Arr(ops))])
}

#[derive(Default)]
struct M {
	id: Option<String>,
	types: Option<Vec<String>>,
	graph: Option<Vec<J>>,
	included: Option<Vec<J>>,
	props: BTreeMap<String, Vec<J>>,
	rev: Option<BTreeMap<String, Vec<J>>>,
}

impl M {
	fn json(&self) -> J {
		let mut v = J::new_obj();
		if let Some(i) = &self.id {
			v.set("@id", s(i))
		}
		if let Some(t) = &self.types {
			v.set("@type", J::Arr(t.iter().map(|t| s(t)).collect()))
		}
		if let Some(g) = &self.graph {
			v.set("@graph", J::Arr(g.clone()))
		}
		if let Some(g) = &self.included {
			v.set("@included", J::Arr(g.clone()))
		}
		if let Some(m) = &self.rev {
			v.set("@reverse", J::Obj(m.iter().map(|(k, v)| (k.clone(), J::Arr(v.clone()))).collect()))
		}
		for (k, x) in &self.props {
			v.set(k, J::Arr(x.clone()))
		}
		v
	}
}

fn check_node(x: &Node, m: &M) -> R {
	want!(x.id.as_ref().map(|i| i.as_str()), m.id.as_deref(), "id");
	want!(x.types().iter().map(|t| t.as_str().to_string()).collect::<Vec<_>>(), m.types.clone().unwrap_or_default(), "types");
	for t in NIDS {
		want!(x.has_type(&id(t)), m.types.iter().flatten().any(|u| u == t), "has_type");
	}
	let p = x.properties();
	want!((p.len(), p.is_empty()), (m.props.len(), m.props.is_empty()), "number of properties");
	for q in PROPS {
		let w = m.props.get(*q);
		let i = id(q);
		want!((p.contains(&i), x.has_key(&Term::Id(i.clone()))), (w.is_some(), w.is_some()), "contains");
		let got: Vec<J> = p.get(&i).map(|o| js(o.clone())).collect();
		want!(bag(&got), bag(w.map(|w| &w[..]).unwrap_or(&[])), "get");
		let got: Vec<J> = x.get(&i).map(|o| js(o.clone())).collect();
		want!(bag(&got), bag(w.map(|w| &w[..]).unwrap_or(&[])), "get of the node");
		for any in [p.get_any(&i), x.get_any(&i)] {
			match any {
				Some(o) => {
					let o = js(o.clone());
					want!(w.map_or(false, |w| w.iter().any(|x| same(x, &o))), true, "get_any");
				}
				None => {
					want!(w.map_or(true, |w| w.is_empty()), true, "get_any");
				}
			}
		}
	}
	want!(p.iter().len(), m.props.len(), "length of the iterator");
	let got: Vec<(String, Vec<J>)> = p.iter().map(|(k, v)| (k.as_str().to_string(), bag(&v.iter().map(|o| js(o.clone())).collect::<Vec<_>>()))).collect::<BTreeMap<_, _>>().into_iter().collect();
	let model: Vec<(String, Vec<J>)> = m.props.iter().map(|(k, v)| (k.clone(), bag(v))).collect();
	want!(got, model, "iter");
	want!(p.into_iter().count(), m.props.len(), "into_iter of a reference");
	want!(x.reverse_properties().is_some(), m.rev.is_some(), "reverse_properties");
	let none = BTreeMap::new();
	let mr = m.rev.as_ref().unwrap_or(&none);
	if let Some(p) = x.reverse_properties() {
		want!((p.len(), p.is_empty(), p.iter().len()), (mr.len(), mr.is_empty(), mr.len()), "number of reverse properties");
		for q in PROPS {
			let w = mr.get(*q);
			let i = id(q);
			want!(p.contains(&i), w.is_some(), "contains of reverse properties");
			let got: Vec<J> = p.get(&i).map(|o| js(o.clone())).collect();
			want!(bag(&got), bag(w.map(|w| &w[..]).unwrap_or(&[])), "get of reverse properties");
			match p.get_any(&i) {
				Some(o) => {
					let o = js(o.clone());
					want!(w.map_or(false, |w| w.iter().any(|x| same(x, &o))), true, "get_any of reverse properties");
				}
				None => {
					want!(w.map_or(true, |w| w.is_empty()), true, "get_any of reverse properties");
				}
			}
		}
		let got: BTreeMap<String, Vec<J>> = p.iter().map(|(k, v)| (k.as_str().to_string(), bag(&v.iter().map(|o| js(o.clone())).collect::<Vec<_>>()))).collect();
		let model: BTreeMap<String, Vec<J>> = mr.iter().map(|(k, v)| (k.clone(), bag(v))).collect();
		want!(got, model, "iter of reverse properties");
	}
	let only = |g: &Option<Vec<J>>| g.is_some();
	use json_ld::syntax::Keyword as K;
	let keys: Vec<bool> = [K::Id, K::Type, K::Graph, K::Included, K::Reverse, K::Value].iter().map(|k| x.has_key(&Term::Keyword(*k))).collect();
	want!(keys, vec![m.id.is_some(), m.types.is_some(), only(&m.graph), only(&m.included), m.rev.is_some(), false], "has_key");
	let bare = m.types.is_none() && m.included.is_none() && m.props.is_empty() && m.rev.is_none();
	want!(x.is_empty(), bare && m.graph.is_none(), "is_empty");
	want!(x.is_graph(), bare && m.graph.is_some(), "is_graph");
	want!((x.is_simple_graph(), x.is_unnamed_graph()), (bare && m.graph.is_some() && m.id.is_none(), bare && m.graph.is_some() && m.id.is_none()), "is_unnamed_graph");
	want!(norm::object(&js(x.clone())), norm::object(&m.json()), "JSON form");
	Ok(())
}

fn strs(v: &[J], k: &str) -> Vec<String> {
	v.iter().filter_map(|x| x.get(k).and_then(|x| x.as_str()).map(|x| x.to_string())).collect()
}

fn step(x: &mut Node, m: &mut M, op: &J) -> Result<bool, (String, String)> {
	let name = op.get("op").and_then(|x| x.as_str()).unwrap_or("");
	let p = op.get("p").and_then(|x| x.as_str()).unwrap_or("_:p").to_string();
	let q = op.get("q").and_then(|x| x.as_str()).unwrap_or("_:p").to_string();
	let vs: Vec<J> = op.get("v").and_then(|x| x.as_arr()).cloned().unwrap_or_default();
	let rev = op.get("rev") == Some(&J::Bool(true));
	let objs: Vec<Obj> = vs.iter().filter_map(parse).collect();
	let nodes: Vec<INode> = vs.iter().filter_map(parse_node).collect();
	if objs.len() != vs.len() || (rev && nodes.len() != vs.len()) || !PROPS.contains(&&p[..]) || !PROPS.contains(&&q[..]) {
		return Ok(false);
	}
	let h = vs.len() / 2;
	macro_rules! history {
		($c:expr, $mm:expr, $items:expr, $ty:ident) => {{
			let items = $items;
			match name {
				"insert" => {
					for (i, v) in items.into_iter().zip(&vs) {
						$c.insert(id(&p), i);
						$mm.entry(p.clone()).or_default().push(v.clone())
					}
				}
				"insert_unique" => {
					for (i, v) in items.into_iter().zip(&vs) {
						$c.insert_unique(id(&p), i);
						unique($mm.entry(p.clone()).or_default(), v)
					}
				}
				"insert_all" => {
					$c.insert_all(id(&p), items);
					$mm.entry(p.clone()).or_default().extend(vs.iter().cloned())
				}
				"insert_all_unique" => {
					$c.insert_all_unique(id(&p), items);
					let l = $mm.entry(p.clone()).or_default();
					vs.iter().for_each(|v| unique(l, v))
				}
				"set" => {
					$c.set(id(&p), items.into_iter().collect());
					$mm.insert(p.clone(), vs.clone());
				}
				"extend_unique" => {
					let (a, b) = (items[..h].to_vec(), items[h..].to_vec());
					$c.extend_unique(vec![(id(&p), a), (id(&q), b)]);
					let l = $mm.entry(p.clone()).or_default();
					vs[..h].iter().for_each(|v| unique(l, v));
					let l = $mm.entry(q.clone()).or_default();
					vs[h..].iter().for_each(|v| unique(l, v));
				}
				"extend" => {
					let (a, b) = (items[..h].to_vec(), items[h..].to_vec());
					$c.extend(vec![(id(&p), a), (id(&q), b)]);
					$mm.entry(p.clone()).or_default().extend(vs[..h].iter().cloned());
					$mm.entry(q.clone()).or_default().extend(vs[h..].iter().cloned());
				}
				"remove" => {
					let got = $c.remove(&id(&p));
					let want = $mm.remove(&p);
					want!(got.map(|g| bag(&g.iter().map(|o| js(o.clone())).collect::<Vec<_>>())), want.map(|w| bag(&w)), "removed");
				}
				"clear" => {
					$c.clear();
					$mm.clear();
				}
				"touch" => {
					// The values are accessible for modification.
					for (k, l) in $c.iter_mut() {
						if k.as_str() == p {
							for v in l.iter_mut() {
								v.set_index(Some("touched".into()))
							}
							for i in items.clone() {
								l.insert(i)
							}
						}
					}
					if let Some(l) = $mm.get_mut(&p) {
						l.iter_mut().for_each(|v| v.set("@index", s("touched")));
						l.extend(vs.iter().cloned());
					}
				}
				"rebuild" => {
					let old = std::mem::take($c);
					let mut parts: Vec<(Iid, Vec<_>)> = old.into_iter().map(|(k, v)| (k, v.into_iter().collect())).collect();
					parts.reverse();
					// A property given twice gets the values of both.
					let mut split = vec![];
					for (k, mut v) in parts {
						v.reverse();
						let b = v.split_off(v.len() / 2);
						split.push((k.clone(), v));
						split.push((k, b));
					}
					*$c = split.into_iter().collect::<$ty<IriBuf, BlankIdBuf>>();
				}
				_ => return Ok(false),
			}
		}};
	}
	match name {
		"id" => {
			let i = strs(&vs, "@id").pop();
			x.id = i.as_deref().map(id);
			m.id = i;
		}
		"type" => {
			for t in strs(&vs, "@id") {
				x.types_mut_or_default().push(id(&t));
				m.types.get_or_insert_with(Vec::new).push(t);
			}
		}
		"types" => {
			let t = strs(&vs, "@id");
			if t.is_empty() {
				return Ok(false);
			}
			let u: Vec<Iid> = t.iter().map(|t| id(t)).collect();
			if rev {
				x.types_mut_or_insert(u);
			} else {
				x.types_mut_or_insert_with(|| u);
			}
			m.types.get_or_insert(t);
			if let (Some(a), Some(b)) = (x.types_mut().first_mut(), m.types.as_mut().and_then(|t| t.first_mut())) {
				*a = id("http://ex.org/1");
				*b = "http://ex.org/1".into();
			}
		}
		"no_types" => {
			x.types = None;
			m.types = None;
		}
		"graph" => {
			if rev {
				x.set_graph_entry(None);
				m.graph = None;
			} else {
				x.set_graph_entry(Some(objs.iter().cloned().collect()));
				let mut g = vec![];
				for v in &vs {
					if !g.iter().any(|y| same(y, v)) {
						g.push(v.clone())
					}
				}
				want!(x.graph().map(|g| g.len()), Some(g.len()), "number of objects of a graph");
				m.graph = Some(g);
			}
		}
		"included" => {
			if !rev {
				x.set_included(None);
				m.included = None;
			} else {
				for (i, v) in nodes.into_iter().zip(&vs) {
					let new = x.included_mut_or_default().insert(i);
					let l = m.included.get_or_insert_with(Vec::new);
					let fresh = !l.iter().any(|y| same(y, v));
					want!(new, fresh, "insertion of an included node");
					if fresh {
						l.push(v.clone())
					}
				}
			}
		}
		"or_insert" => {
			let first = x.reverse_properties().is_none();
			let props: ReverseProperties<IriBuf, BlankIdBuf> = if rev { vec![(id(&p), nodes)].into_iter().collect() } else { Default::default() };
			if h == 0 {
				x.reverse_properties_or_insert(props);
			} else {
				x.reverse_properties_or_insert_with(|| props);
			}
			if first {
				m.rev = Some(if rev { [(p.clone(), vs.clone())].into_iter().collect() } else { BTreeMap::new() });
			}
		}
		"replace" => {
			if rev {
				x.set_reverse_properties(Some(vec![(id(&p), nodes)].into_iter().collect()));
				m.rev = Some([(p.clone(), vs.clone())].into_iter().collect());
			} else {
				x.set_reverse_properties(None);
				m.rev = None;
			}
		}
		"node_insert" => {
			for (i, v) in objs.into_iter().zip(&vs) {
				x.insert(id(&p), i);
				m.props.entry(p.clone()).or_default().push(v.clone());
			}
		}
		"node_insert_all" => {
			x.insert_all(id(&p), objs.into_iter());
			m.props.entry(p.clone()).or_default().extend(vs.iter().cloned());
		}
		_ if rev => {
			let mm = m.rev.get_or_insert_with(BTreeMap::new);
			let c = if h == 0 { x.reverse_properties_mut_or_default() } else { x.reverse_properties_or_default() };
			history!(c, mm, nodes, ReverseProperties)
		}
		_ => {
			let mm = &mut m.props;
			let c = x.properties_mut();
			history!(c, mm, objs, Properties)
		}
	}
	Ok(true)
}

fn judge_node(c: &J, o: &mut Obs) -> V {
	let ops = c.get("ops").and_then(|x| x.as_arr()).cloned().unwrap_or_default();
	let (mut x, mut m) = (Node::new(), M::default());
	let mut done = 0;
	for op in &ops {
		let name = op.get("op").and_then(|x| x.as_str()).unwrap_or("").to_string();
		let before = x.clone();
		let (mj, j0) = (norm::object(&m.json()), hash(&x));
		let r = step(&mut x, &mut m, op).and_then(|did| {
			if did {
				o.hit(&format!("op {name}"));
				done += 1;
			}
			check_node(&x, &m)?;
			// Equality and hashes follow the contents. The normal form drops
			// the empty nodes of graphs and cannot tell them.
			let unclear = m.graph.is_some() || mj.has("@graph");
			let now = norm::object(&m.json());
			if !unclear && mj == now {
				// Absent and empty entries have no fixed relation.
				let shape = |x: &Node| (x.types.is_some(), x.reverse_properties.as_ref().map(|r| r.iter().map(|(k, _)| k.to_string()).collect::<BTreeSet<_>>()), x.properties.len(), x.included.is_some());
				if shape(&before) == shape(&x) {
					want!((x == before, hash(&x) == j0), (true, true), "equality of equal nodes");
				}
			} else if !unclear {
				want!(x == before, false, "inequality of changed nodes");
			}
			Ok(())
		});
		if let Err((w, d)) = r {
			return fail(&format!("{w} after {name}"), format!("{d} after {}", op.text()));
		}
	}
	if done == 0 {
		return V::Skip("no operation".into());
	}
	o.add("operations", done);
	o.seen(&m.json().text());
	V::Pass
}

// --- multisets

fn multi_case(mut r: Rng) -> J {
	let len = r.range(1, 16);
	let ops = (0..len)
		.map(|_| {
			let k = r.below(4);
			let vs: Vec<J> = (0..k).map(|_| n(r.below(4) as i64)).collect();
			obj(vec![("op", s(["insert", "unique", "extend", "mut", "collect", "singleton", "swap"][r.below(7)])), ("v", J::Arr(vs))])
		})
		.collect();
	obj(vec![("ops", J::Arr(ops))])
}

fn judge_multi(c: &J, o: &mut Obs) -> V {
	let (mut x, mut y): (Multiset<u64>, Multiset<u64>) = (Multiset::new(), Multiset::with_capacity(3));
	let (mut a, mut b): (Vec<u64>, Vec<u64>) = (vec![], vec![]);
	let mut go = || -> R {
		for op in c.get("ops").and_then(|x| x.as_arr()).into_iter().flatten() {
			let vs: Vec<u64> = op
				.get("v")
				.and_then(|x| x.as_arr())
				.into_iter()
				.flatten()
				.filter_map(|x| match x {
					J::Num(n) => n.parse().ok(),
					_ => None,
				})
				.collect();
			match op.get("op").and_then(|x| x.as_str()).unwrap_or("") {
				"insert" => vs.iter().for_each(|v| {
					x.insert(*v);
					a.push(*v)
				}),
				"unique" => {
					for v in vs {
						let fresh = !a.contains(&v);
						want!(x.insert_unique(v), fresh, "insert_unique");
						if fresh {
							a.push(v)
						}
					}
				}
				"extend" => {
					x.extend(vs.clone());
					a.extend(vs)
				}
				"mut" => {
					for v in x.iter_mut() {
						*v = (*v + 1) % 4
					}
					for v in &mut x {
						*v = (*v + 1) % 4
					}
					a.iter_mut().for_each(|v| *v = (*v + 2) % 4)
				}
				"collect" => {
					x = vs.iter().copied().collect();
					a = vs
				}
				"singleton" => {
					let v = vs.first().copied().unwrap_or(0);
					x = Multiset::singleton(v);
					a = vec![v]
				}
				"swap" => {
					std::mem::swap(&mut x, &mut y);
					std::mem::swap(&mut a, &mut b);
				}
				_ => continue,
			}
			o.hit("operations");
			want!((x.len(), x.is_empty()), (a.len(), a.is_empty()), "len");
			for v in 0..5 {
				want!(x.contains(&v), a.contains(&v), "contains");
			}
			let sorted = |v: Vec<u64>| {
				let mut v = v;
				v.sort();
				v
			};
			let (sa, sb) = (sorted(a.clone()), sorted(b.clone()));
			want!(sorted(x.iter().copied().collect()), sa, "iter");
			want!(sorted((&x).into_iter().copied().collect()), sa, "into_iter of a reference");
			want!(sorted(x.clone().into_iter().collect()), sa, "into_iter");
			want!(sorted(x.as_slice().to_vec()), sa, "as_slice");
			want!((x == y, y == x), (sa == sb, sa == sb), "equality");
			if sa == sb {
				o.hit("equal pairs");
				want!(hash(&x), hash(&y), "hash of equal sets");
			}
			let rev: Multiset<u64> = a.iter().rev().copied().collect();
			want!((x == rev, hash(&x) == hash(&rev)), (true, true), "equality with the reverse");
		}
		Ok(())
	};
	if let Err((w, d)) = go() {
		return fail(&w, d);
	}
	o.seen(&a);
	V::Pass
}

// --- lists, indexed objects, strings and values

fn small_case(mut r: Rng) -> J {
	let len = r.range(1, 12);
	let ops = (0..len)
		.map(|_| {
			let op = r.ps(&["push", "pop", "retain", "index", "value", "lang", "dir", "both", "type", "map", "doc"]);
			obj(vec![("op", s(&op)), ("o", object(&mut r, 1)), ("a", n(r.below(3) as i64)), ("b", n(r.below(3) as i64))])
		})
		.collect();
	obj(vec![("ops", J::Arr(ops))])
}

fn judge_small(c: &J, o: &mut Obs) -> V {
	let mut list: List<IriBuf, BlankIdBuf> = List::new(vec![]);
	let mut ml: Vec<J> = vec![];
	let mut ls = LangString::new("x".into(), LenientLangTagBuf::new("en".into()).0.into(), None).unwrap();
	let (mut lang, mut dir): (Option<String>, Option<Direction>) = (Some("en".into()), None);
	let mut value: Value<IriBuf> = Value::Literal(Literal::String("x".into()), None);
	let mut ty: Option<String> = None;
	let mut doc = ExpandedDocument::new();
	let mut md: Vec<J> = vec![];
	let mut go = || -> R {
		for op in c.get("ops").and_then(|x| x.as_arr()).into_iter().flatten() {
			let num = |k: &str| match op.get(k) {
				Some(J::Num(n)) => n.parse::<usize>().unwrap_or(0),
				_ => 0,
			};
			let (a, b) = (num("a"), num("b"));
			let oj = op.get("o").cloned().unwrap_or(J::Null);
			let Some(ob) = parse(&oj) else { continue };
			let l = ["", "en", "fr-CA"][a.min(2)];
			let l = (a > 0).then(|| l.to_string());
			let lt = l.clone().map(|l| LenientLangTagBuf::new(l).0);
			let d = [None, Some(Direction::Ltr), Some(Direction::Rtl)][b.min(2)];
			match op.get("op").and_then(|x| x.as_str()).unwrap_or("") {
				"push" => {
					list.push(ob);
					ml.push(oj)
				}
				"pop" => {
					let (x, y) = (list.pop(), ml.pop());
					want!(x.map(|x| norm::object(&js(x))), y.map(|y| norm::object(&y)), "pop");
				}
				"retain" => {
					let mut k = 0;
					list.entry_mut().retain(|_| {
						k += 1;
						(k + a) % 2 == 0
					});
					let mut k = 0;
					ml.retain(|_| {
						k += 1;
						(k + a) % 2 == 0
					});
				}
				"index" => {
					let i = (b > 0).then(|| "k".to_string());
					let mut x = ob.clone();
					x.set_index(i.clone());
					want!(x.index(), i.as_deref(), "index");
					let mut y = oj.clone();
					y.remove("@index");
					if let Some(i) = &i {
						y.set("@index", s(i))
					}
					want!(norm::object(&js(x.clone())), norm::object(&y), "JSON form of an indexed object");
					let (inner, j) = x.clone().into_parts();
					want!(j, i, "into_parts");
					want!(x.clone().into_inner() == inner && *x.inner() == inner && *x == inner, true, "into_inner");
					want!(x == Indexed::new(inner.clone(), i.clone()), true, "equality of indexed objects");
					want!(x == Indexed::none(inner.clone()), i.is_none(), "equality of indexed objects");
					want!(Indexed::from(inner.clone()) == Indexed::none(inner), true, "from");
					want!(x.clone().map_inner(|_| 1u8), Indexed::new(1u8, i.clone()), "map_inner");
					want!(Indexed::new(7u8, i.clone()).cast::<u32>(), Indexed::new(7u32, i.clone()), "cast");
					want!(Indexed::new(7u32, i.clone()).try_cast::<u8>().map_err(|_| ()), Ok(Indexed::new(7u8, i.clone())), "try_cast");
					want!(Indexed::new(700u32, i.clone()).try_cast::<u8>().map_err(|e| e.index().map(|x| x.to_string())), Err(i.clone()), "failing try_cast");
				}
				"value" => {
					let v = Value::LangString(ls.clone());
					want!((v.as_str(), v.language().map(|x| x.as_str()), v.direction()), (Some("x"), lang.as_deref(), dir), "language value");
					want!((v.as_literal().is_some(), v.literal_type().is_some(), v.typ().is_some(), v.as_bool(), v.as_number().is_some()), (false, false, false, None, false), "language value as a literal");
					let mut w = v.clone();
					want!(w.set_literal_type(Some(drv::iri("http://ex.org/t"))), None, "type of a language value");
					w.map_literal_type(|_| Some(drv::iri("http://ex.org/t")));
					want!(w == v, true, "a language value has no literal type");
				}
				"lang" => {
					let ok = dir.is_some() || l.is_some();
					want!(ls.set_language(lt).is_ok(), ok, "set_language");
					if ok {
						lang = l
					}
				}
				"dir" => {
					let ok = d.is_some() || lang.is_some();
					want!(ls.set_direction(d).is_ok(), ok, "set_direction");
					if ok {
						dir = d
					}
				}
				"both" => {
					let ok = d.is_some() || l.is_some();
					want!(LangString::new("x".into(), lt.clone(), d).is_ok(), ok, "new");
					want!(ls.set(lt, d).is_ok(), ok, "set");
					if ok {
						dir = d;
						lang = l
					}
				}
				"type" => {
					let t = (a > 0).then(|| format!("http://ex.org/t{a}"));
					let old = value.set_literal_type(t.as_deref().map(drv::iri));
					want!(old.map(|x| x.to_string()), ty, "set_literal_type");
					ty = t
				}
				"map" => {
					let t = (a > 0).then(|| format!("http://ex.org/t{a}"));
					let mut seen = None;
					value.map_literal_type(|x| {
						seen = Some(x.map(|x| x.to_string()));
						t.as_deref().map(drv::iri)
					});
					want!(seen, Some(ty.clone()), "map_literal_type");
					ty = t
				}
				"doc" => {
					// Two equal objects are one.
					let fresh = !md.iter().any(|y| same(y, &oj));
					if a == 2 {
						doc.extend(vec![ob])
					} else {
						want!(doc.insert(ob), fresh, "insert in a document");
					}
					if fresh {
						md.push(oj)
					}
				}
				_ => continue,
			}
			o.hit("operations");
			want!((list.len(), list.is_empty(), list.iter().count(), list.entry().len(), list.as_slice().len()), (ml.len(), ml.is_empty(), ml.len(), ml.len(), ml.len()), "list len");
			let lj: Vec<J> = ml.iter().map(norm::object).collect();
			want!(list.iter().map(|x| norm::object(&js(x.clone()))).collect::<Vec<_>>(), lj, "list");
			want!(list.clone().into_iter().map(|x| norm::object(&js(x))).collect::<Vec<_>>(), lj, "into_iter of a list");
			want!(list.clone().into_entry().iter().map(|x| norm::object(&js(x.clone()))).collect::<Vec<_>>(), lj, "into_entry of a list");
			let mut back = ml.clone();
			back.reverse();
			let other = List::new(back.iter().filter_map(parse).collect::<Vec<_>>());
			let lb: Vec<J> = back.iter().map(norm::object).collect();
			want!(list == other, lj == lb, "equality of lists");
			want!((ls.as_str(), ls.language().map(|x| x.as_str()), ls.direction()), ("x", lang.as_deref(), dir), "language string");
			let (p0, p1, p2) = ls.parts();
			want!((p0, p1.map(|x| x.as_str()), p2.copied()), ("x", lang.as_deref(), dir), "parts of a language string");
			let ll = ls.as_lang_str();
			want!((ll.as_str(), ll.language().map(|x| x.as_str()), ll.direction()), ("x", lang.as_deref(), dir), "borrowed language string");
			want!((value.literal_type().map(|x| x.as_str()), value.typ().is_some(), value.as_str()), (ty.as_deref(), ty.is_some(), Some("x")), "literal type");
			want!((doc.len(), doc.is_empty(), doc.iter().count(), doc.objects().len()), (md.len(), md.is_empty(), md.len(), md.len()), "document len");
			want!(bag(&doc.iter().map(|x| js(x.clone())).collect::<Vec<_>>()), bag(&md), "document");
			let twin: ExpandedDocument = md.iter().rev().chain(&md).filter_map(parse).collect();
			want!(doc == twin, true, "equality of documents");
			let mut nodes = md.iter().filter(|x| !x.has("@value") && !x.has("@list"));
			let main = nodes.next().filter(|_| nodes.next().is_none()).map(|m| {
				let mut m = m.clone();
				m.remove("@index");
				norm::object(&m)
			});
			want!(doc.main_node().map(|x| norm::object(&js(x.clone()))), main, "main node");
			want!(doc.clone().into_main_node().map(|x| norm::object(&js(x))), main, "into_main_node");
			want!(bag(&doc.clone().into_objects().into_iter().map(js).collect::<Vec<_>>()), bag(&md), "into_objects");
		}
		Ok(())
	};
	if let Err((w, d)) = go() {
		return fail(&w, d);
	}
	o.seen(&c.text());
	V::Pass
}

// --- contexts

const TERMS: &[&str] = &["a", "b", "ex", "@type", "http://ex.org/p"];
const CONTAINERS: &[Container] = &[Container::None, Container::Set, Container::List, Container::Language, Container::GraphIdSet];

fn ctx_case(mut r: Rng) -> J {
	let len = r.range(1, 14);
	let ops = (0..len)
		.map(|_| {
			let op = r.ps(&["set", "set", "set", "set", "unset", "type", "base", "vocab", "language", "direction", "previous", "inverse", "inverse", "clone"]);
			let k = r.below(9);
			let mut v = vec![("op", s(&op)), ("t", s(r.pick(TERMS))), ("i", n(r.below(3) as i64)), ("c", n(r.below(CONTAINERS.len()) as i64)), ("k", n(k as i64))];
			for f in ["protected", "prefix", "reverse"] {
				if r.pc(20) {
					v.push((f, J::Bool(true)))
				}
			}
			obj(v)
		})
		.collect();
	obj(vec![("ops", J::Arr(ops))])
}

type Def = NormalTermDefinition<IriBuf, BlankIdBuf>;

fn definition(op: &J) -> Def {
	let num = |k: &str| match op.get(k) {
		Some(J::Num(n)) => n.parse::<usize>().unwrap_or(0),
		_ => 0,
	};
	let on = |k: &str| op.get(k) == Some(&J::Bool(true));
	let lt = |l: &str| LenientLangTagBuf::new(l.to_string()).0;
	let (typ, language, direction) = match num("k") {
		0 => (Some(Type::Id), None, None),
		1 => (Some(Type::Iri(drv::iri("http://ex.org/t"))), None, None),
		2 => (Some(Type::None), None, None),
		3 => (None, Some(Nullable::Some(lt("en"))), None),
		4 => (None, Some(Nullable::Null), None),
		5 => (None, Some(Nullable::Some(lt("en"))), Some(Nullable::Some(Direction::Rtl))),
		6 => (None, None, Some(Nullable::Null)),
		7 => (None, None, Some(Nullable::Some(Direction::Ltr))),
		_ => (None, None, None),
	};
	NormalTermDefinition {
		value: match num("i") {
			0 => Some(Term::Id(id("http://ex.org/p"))),
			1 => Some(Term::Id(id("http://ex.org/q"))),
			_ => None,
		},
		container: CONTAINERS[num("c").min(CONTAINERS.len() - 1)],
		typ,
		language,
		direction,
		protected: on("protected"),
		prefix: on("prefix"),
		reverse_property: on("reverse"),
		..Default::default()
	}
}

type Ctx = json_ld_core::Context<IriBuf, BlankIdBuf>;

/// Everything the inverse context answers on the vocabulary in use.
fn inverse(c: &Ctx) -> Vec<Option<String>> {
	let en = LenientLangTagBuf::new("en".into()).0;
	let en = en.as_lenient_lang_tag_ref();
	let inv = c.inverse();
	let mut out = vec![];
	for v in ["http://ex.org/p", "http://ex.org/q"] {
		let v = Term::Id(id(v));
		out.push(Some(inv.contains(&v).to_string()));
		for k in CONTAINERS {
			let mut sel: Vec<Selection<IriBuf>> = vec![Selection::Any];
			for t in [TypeSelection::Reverse, TypeSelection::Any, TypeSelection::Type(Type::None), TypeSelection::Type(Type::Id), TypeSelection::Type(Type::Iri(drv::iri("http://ex.org/t")))] {
				sel.push(Selection::Type(vec![t]))
			}
			for l in [
				LangSelection::Any,
				LangSelection::Lang(Nullable::Null),
				LangSelection::Lang(Nullable::Some((None, None))),
				LangSelection::Lang(Nullable::Some((Some(en), None))),
				LangSelection::Lang(Nullable::Some((None, Some(Direction::Ltr)))),
				LangSelection::Lang(Nullable::Some((Some(en), Some(Direction::Rtl)))),
			] {
				sel.push(Selection::Lang(vec![l]))
			}
			for q in sel {
				out.push(inv.select(&v, &[*k], &q).map(|x| x.as_str().to_string()))
			}
		}
	}
	out
}

#[derive(Clone, Default, PartialEq)]
struct MC {
	terms: BTreeMap<String, Def>,
	typ: Option<bool>,
	base: Option<String>,
	vocab: Option<String>,
	language: Option<String>,
	direction: Option<Direction>,
	previous: Option<Box<MC>>,
}

fn build(m: &MC) -> Ctx {
	let mut c = Ctx::default();
	for (k, d) in m.terms.iter().rev() {
		c.set_normal(k.as_str().into(), Some(d.clone()));
	}
	c.set_type(m.typ.map(|p| TypeTermDefinition { protected: p, ..Default::default() }));
	c.set_base_iri(m.base.as_deref().map(drv::iri));
	c.set_vocabulary(m.vocab.as_deref().map(|v| Term::Id(id(v))));
	c.set_default_language(m.language.clone().map(|l| LenientLangTagBuf::new(l).0));
	c.set_default_base_direction(m.direction);
	if let Some(p) = &m.previous {
		c.set_previous_context(build(p))
	}
	c
}

fn judge_ctx(c: &J, o: &mut Obs) -> V {
	let mut x = Ctx::default();
	let mut m = MC::default();
	let mut defs: json_ld_core::context::Definitions<IriBuf, BlankIdBuf> = Default::default();
	let mut go = || -> R {
		for op in c.get("ops").and_then(|x| x.as_arr()).into_iter().flatten() {
			let name = op.get("op").and_then(|x| x.as_str()).unwrap_or("");
			let t = op.get("t").and_then(|x| x.as_str()).unwrap_or("a").to_string();
			let k = match op.get("k") {
				Some(J::Num(n)) => n.parse::<usize>().unwrap_or(0),
				_ => 0,
			};
			let before = (x.clone(), m.clone());
			match name {
				"set" | "unset" if t == "@type" => {
					let p = (name == "set").then(|| k % 2 == 0);
					let new = p.map(|p| TypeTermDefinition { protected: p, ..Default::default() });
					want!(x.set_type(new.clone()).map(|d| d.protected), m.typ, "set_type");
					let old = match new {
						Some(d) if k > 4 => defs.insert(Binding::Type(d)).map(|d| d.protected()),
						Some(d) => defs.insert_type(d).map(|d| d.protected),
						None => defs.set_type(None).map(|d| d.protected),
					};
					want!(old, m.typ, "previous @type definition");
					m.typ = p
				}
				"set" => {
					let d = definition(op);
					let old = m.terms.insert(t.clone(), d.clone());
					want!(x.set_normal(t.as_str().into(), Some(d.clone())) == old, true, "set_normal");
					let got = match k % 3 {
						0 => defs.insert_normal(t.as_str().into(), d),
						1 => defs.set_normal(t.as_str().into(), Some(d)),
						_ => match defs.insert(Binding::Normal(t.as_str().into(), d)) {
							Some(json_ld_core::context::TermDefinition::Normal(d)) => Some(d),
							Some(_) => return Err(("kind of a previous definition".into(), t)),
							None => None,
						},
					};
					want!(got == old, true, "previous definition");
				}
				"unset" => {
					let old = m.terms.remove(&t);
					want!(x.set_normal(t.as_str().into(), None) == old, true, "set_normal");
					want!(defs.set_normal(t.as_str().into(), None) == old, true, "previous definition");
				}
				"type" => {
					x.set_type(None);
					defs.set_type(None);
					m.typ = None
				}
				"base" => {
					m.base = (k > 3).then(|| "http://base.org/".into());
					x.set_base_iri(m.base.as_deref().map(drv::iri))
				}
				"vocab" => {
					m.vocab = (k > 3).then(|| "http://ex.org/".into());
					x.set_vocabulary(m.vocab.as_deref().map(|v| Term::Id(id(v))))
				}
				"language" => {
					m.language = (k > 3).then(|| "en".into());
					x.set_default_language(m.language.clone().map(|l| LenientLangTagBuf::new(l).0))
				}
				"direction" => {
					m.direction = [None, Some(Direction::Ltr), Some(Direction::Rtl)][k % 3];
					x.set_default_base_direction(m.direction)
				}
				"previous" => {
					x.set_previous_context(before.0.clone());
					m.previous = Some(Box::new(before.1.clone()))
				}
				"inverse" => {
					x.inverse();
				}
				"clone" => x = x.clone(),
				_ => continue,
			}
			o.hit("operations");
			let len = m.terms.len() + m.typ.is_some() as usize;
			want!((x.len(), x.is_empty(), x.definitions().len(), defs.len(), defs.is_empty()), (len, len == 0, len, len, len == 0), "number of terms");
			for t in TERMS {
				let d = m.terms.get(*t);
				want!(x.get_normal(*t) == d && defs.get_normal(*t) == d, true, "get_normal");
				let (there, protected) = if *t == "@type" { (m.typ.is_some(), m.typ) } else { (d.is_some(), d.map(|d| d.protected)) };
				want!((x.contains_term(*t), defs.contains_term(*t)), (there, there), "contains_term");
				want!((x.get(*t).map(|d| d.protected()), defs.get(*t).map(|d| d.protected())), (protected, protected), "get");
				if *t != "@type" {
					want!(x.get(*t).map(|y| (y.value() == d.unwrap().value.as_ref(), y.prefix(), y.reverse_property(), y.container())), d.map(|d| (true, d.prefix, d.reverse_property, d.container)), "definition");
				}
			}
			want!(x.get_type().map(|d| d.protected), m.typ, "get_type");
			let names: BTreeSet<String> = m.terms.keys().cloned().chain(m.typ.map(|_| "@type".to_string())).collect();
			let it: Vec<String> = x.definitions().iter().map(|b| b.term().as_str().to_string()).collect();
			want!((it.len(), it.into_iter().collect::<BTreeSet<_>>()), (names.len(), names.clone()), "definitions");
			let it: Vec<String> = defs
				.clone()
				.into_iter()
				.map(|b| match b {
					Binding::Normal(k, _) => k.as_str().to_string(),
					Binding::Type(_) => "@type".into(),
				})
				.collect();
			want!((it.len(), it.into_iter().collect::<BTreeSet<_>>()), (names.len(), names), "into_iter of definitions");
			want!(defs == *x.definitions(), true, "equality of definitions");
			want!(x.has_protected_items(), m.terms.values().any(|d| d.protected) || m.typ == Some(true), "has_protected_items");
			want!(
				(x.base_iri().map(|x| x.as_str()), x.vocabulary().map(|x| x.as_str()), x.default_language().map(|x| x.as_str()), x.default_base_direction(), x.previous_context().is_some()),
				(m.base.as_deref(), m.vocab.as_deref(), m.language.as_deref(), m.direction, m.previous.is_some()),
				"fields"
			);
			let fresh = build(&m);
			want!(x == fresh, true, "equality of contexts");
			want!(x == before.0, m == before.1, "equality with the context before");
			// The inverse is that of the context as it is now.
			want!(inverse(&x.clone()), inverse(&fresh), "inverse of a copy");
			if k % 2 == 0 {
				want!(inverse(&x), inverse(&fresh), "inverse");
			}
		}
		Ok(())
	};
	if let Err((w, d)) = go() {
		return fail(&w, d);
	}
	o.seen(&c.text());
	V::Pass
}

// --- node maps

fn map_case(mut r: Rng) -> J {
	let len = r.range(1, 14);
	let ops = (0..len)
		.map(|_| {
			let op = r.ps(&["declare", "declare", "declare", "graph", "merge_node", "merge_node", "merge", "prop", "type"]);
			let mut nd = node(&mut r, 1);
			if r.pc(30) {
				nd.set("@index", s(["i", "j"][r.below(2)]))
			}
			if r.pc(20) {
				nd.set("@reverse", obj(vec![(PROPS[0], J::Arr(vec![node(&mut r, 0)]))]))
			}
			let mut v = vec![("op", s(&op)), ("id", s(r.pick(NIDS))), ("node", nd), ("o", object(&mut r, 1)), ("p", s(r.pick(PROPS)))];
			if r.pc(60) {
				v.push(("g", s(r.pick(NIDS))))
			}
			if r.pc(40) {
				v.push(("index", s(["i", "j"][r.below(2)])))
			}
			obj(v)
		})
		.collect();
	obj(vec![("ops", J::Arr(ops))])
}

#[derive(Default, Clone)]
struct MN {
	index: Option<String>,
	types: Vec<String>,
	props: BTreeMap<String, Vec<J>>,
	rev: BTreeMap<String, Vec<J>>,
}

type MG = BTreeMap<String, MN>;

fn merge(g: &mut MG, j: &J) {
	let Some(i) = j.get("@id").and_then(|x| x.as_str()) else { return };
	let e = g.entry(i.to_string()).or_default();
	if let Some(x) = j.get("@index").and_then(|x| x.as_str()) {
		e.index = Some(x.into())
	}
	for t in j.get("@type").and_then(|x| x.as_arr()).into_iter().flatten() {
		e.types.push(t.as_str().unwrap_or("").into())
	}
	for (k, v) in j.as_obj().unwrap() {
		if !k.starts_with('@') {
			let l = e.props.entry(k.clone()).or_default();
			v.as_arr().into_iter().flatten().for_each(|v| unique(l, v))
		}
	}
	for (k, v) in j.get("@reverse").and_then(|x| x.as_obj()).into_iter().flatten() {
		let l = e.rev.entry(k.clone()).or_default();
		v.as_arr().into_iter().flatten().for_each(|v| unique(l, v))
	}
}

fn mn_json(i: &str, e: &MN) -> J {
	let mut j = J::new_obj();
	j.set("@id", s(i));
	if let Some(x) = &e.index {
		j.set("@index", s(x))
	}
	if !e.types.is_empty() {
		j.set("@type", J::Arr(e.types.iter().map(|t| s(t)).collect()))
	}
	for (k, v) in &e.props {
		j.set(k, J::Arr(v.clone()))
	}
	if !e.rev.is_empty() {
		j.set("@reverse", J::Obj(e.rev.iter().map(|(k, v)| (k.clone(), J::Arr(v.clone()))).collect()))
	}
	j
}

fn check_graph(g: &NodeMapGraph<IriBuf, BlankIdBuf>, m: &MG, what: &str) -> R {
	for i in NIDS {
		let e = m.get(*i);
		want!(g.contains(&id(i)), e.is_some(), format!("contains of {what}"));
		want!(g.get(&id(i)).map(|x| norm::object(&js(x.clone()))), e.map(|e| norm::object(&mn_json(i, e))), format!("get of {what}"));
	}
	let all: Vec<J> = m.iter().map(|(i, e)| mn_json(i, e)).collect();
	want!(bag(&g.nodes().map(|x| js(x.clone())).collect::<Vec<_>>()), bag(&all), format!("nodes of {what}"));
	for (k, x) in g {
		want!(x.id.as_ref() == Some(k), true, format!("key of {what}"));
	}
	Ok(())
}

fn judge_map(c: &J, o: &mut Obs) -> V {
	let mut x: NodeMap<IriBuf, BlankIdBuf> = NodeMap::new();
	let mut m: BTreeMap<Option<String>, MG> = BTreeMap::new();
	m.insert(None, MG::new());
	let mut go = || -> R {
		for op in c.get("ops").and_then(|x| x.as_arr()).into_iter().flatten() {
			let st = |k: &str| op.get(k).and_then(|x| x.as_str()).map(|x| x.to_string());
			let (Some(i), g, p) = (st("id"), st("g"), st("p").unwrap_or("_:p".into())) else { continue };
			let gi = g.as_deref().map(id);
			let name = st("op").unwrap_or_default();
			if !NIDS.contains(&&i[..]) || g.as_deref().map_or(false, |g| !NIDS.contains(&g)) || !PROPS.contains(&&p[..]) {
				continue;
			}
			want!(x.graph(gi.as_ref()).is_some(), m.contains_key(&g), "graph");
			if name == "graph" {
				if let Some(gi) = gi {
					x.declare_graph(gi);
					m.entry(g).or_default();
				}
			} else {
				let (Some(xg), Some(mg)) = (x.graph_mut(gi.as_ref()), m.get_mut(&g)) else { continue };
				match &name[..] {
					"declare" => {
						let ix = st("index");
						let got = xg.declare_node(id(&i), ix.as_deref()).map(|e| e.id.as_ref().map(|x| x.to_string())).map_err(|e| (e.node_id.to_string(), e.defined_index, e.conflicting_index));
						let e = mg.entry(i.clone()).or_default();
						let w = match (&e.index, &ix) {
							(Some(a), Some(b)) if a != b => Err((i.clone(), a.clone(), b.clone())),
							(None, Some(b)) => {
								e.index = Some(b.clone());
								Ok(Some(i.clone()))
							}
							_ => Ok(Some(i.clone())),
						};
						if w.is_err() {
							o.hit("conflicting indexes")
						}
						want!(got, w, "declare_node");
					}
					"merge_node" => {
						let nd = op.get("node").cloned().unwrap_or(J::Null);
						let Some(nn) = (if nd.is_obj() { parse_node(&nd) } else { None }) else { continue };
						if !norm_ok(&nd) {
							continue;
						}
						xg.merge_node(nn);
						merge(mg, &nd)
					}
					"merge" => {
						let nd = op.get("node").cloned().unwrap_or(J::Null);
						let Some(nn) = (if nd.is_obj() { parse_node(&nd) } else { None }) else { continue };
						if !norm_ok(&nd) {
							continue;
						}
						let mut other = NodeMapGraph::new();
						other.merge_node(nn);
						let mut mo = MG::new();
						merge(&mut mo, &nd);
						if let Ok(e) = other.declare_node(id(&i), None) {
							if let Some(v) = op.get("o").and_then(parse) {
								e.insert(id(&p), v)
							}
						}
						if let Some(v) = op.get("o").filter(|v| parse(v).is_some()) {
							mo.entry(i.clone()).or_default().props.entry(p.clone()).or_default().push(v.clone())
						} else {
							mo.entry(i.clone()).or_default();
						}
						check_graph(&other, &mo, "the other graph")?;
						xg.merge_with(other);
						mo.iter().for_each(|(i, e)| merge(mg, &mn_json(i, e)))
					}
					"prop" => {
						let (Some(v), Some(e)) = (op.get("o"), mg.get_mut(&i)) else { continue };
						let Some(vo) = parse(v) else { continue };
						match xg.get_mut(&id(&i)) {
							Some(n) => n.insert(id(&p), vo),
							None => return Err(("get_mut".into(), i)),
						}
						e.props.entry(p).or_default().push(v.clone())
					}
					"type" => {
						let Some(e) = mg.get_mut(&i) else { continue };
						match xg.get_mut(&id(&i)) {
							Some(n) => n.types_mut_or_default().push(id(&p)),
							None => return Err(("get_mut".into(), i)),
						}
						e.types.push(p)
					}
					_ => continue,
				}
			}
			o.hit("operations");
			for (g, mg) in &m {
				match x.graph(g.as_deref().map(id).as_ref()) {
					Some(xg) => check_graph(xg, mg, "a graph")?,
					None => return Err(("graph".into(), format!("{g:?} is missing"))),
				}
			}
			let names: BTreeSet<Option<String>> = x.iter().map(|(g, _)| g.map(|g| g.to_string())).collect();
			want!(names, m.keys().cloned().collect::<BTreeSet<_>>(), "iter of the graphs");
			want!((x.iter().count(), x.iter_named().count()), (m.len(), m.len() - 1), "number of graphs");
		}
		Ok(())
	};
	if let Err((w, d)) = go() {
		return fail(&w, d);
	}
	// Merging the graphs: nothing is lost, nothing is invented. Which index
	// wins depends on an order that is not defined.
	let merged = std::mem::take(&mut x).merge();
	let mut mm = MG::new();
	for (g, mg) in &m {
		for (i, e) in mg {
			if g.is_none() {
				mm.insert(i.clone(), e.clone());
			} else {
				merge(&mut mm, &mn_json(i, e))
			}
		}
	}
	let view = |j: &J| {
		let mut j = j.clone();
		j.remove("@index");
		norm::object(&j)
	};
	let mut a: Vec<J> = merged.nodes().map(|x| view(&js(x.clone()))).collect();
	let mut b: Vec<J> = mm.iter().map(|(i, e)| view(&mn_json(i, e))).collect();
	a.sort();
	b.sort();
	if a != b {
		return fail("merge", format!("library {}, model {}", J::Arr(a).text(), J::Arr(b).text()));
	}
	o.seen(&c.text());
	V::Pass
}

/// Entries with an empty set of values are kept by some operations and not by
/// the JSON form of the model; a repeated key is one entry.
fn norm_ok(j: &J) -> bool {
	j.as_obj().map_or(false, |m| m.iter().all(|(k, v)| k != "@type" || v.len() > 0))
}

// --- containers

fn container_case(mut r: Rng) -> J {
	let k = r.below(6);
	J::Arr((0..k).map(|_| n(r.below(7) as i64)).collect())
}

/// All the sequences of up to four container keywords.
fn container_fixed() -> Vec<J> {
	let mut out = vec![J::Arr(vec![])];
	let mut last = out.clone();
	for _ in 0..4 {
		last = last
			.iter()
			.flat_map(|p| {
				(0..7).map(move |k| {
					let mut p = p.clone().into_arr();
					p.push(n(k));
					J::Arr(p)
				})
			})
			.collect();
		out.extend(last.clone());
	}
	out
}

fn allowed(k: &BTreeSet<&str>) -> bool {
	let mut k = k.clone();
	if k.len() <= 1 {
		return true;
	}
	if k.contains("@list") {
		return false;
	}
	k.remove("@set");
	if k.len() <= 1 {
		return true;
	}
	k.remove("@graph") && k.len() == 1 && (k.contains("@id") || k.contains("@index"))
}

fn judge_container(c: &J, o: &mut Obs) -> V {
	use json_ld::syntax::ContainerKind as K;
	const KINDS: &[(K, &str)] = &[(K::Graph, "@graph"), (K::Id, "@id"), (K::Index, "@index"), (K::Language, "@language"), (K::List, "@list"), (K::Set, "@set"), (K::Type, "@type")];
	let seq: Vec<(K, &str)> = c
		.as_arr()
		.into_iter()
		.flatten()
		.filter_map(|x| match x {
			J::Num(n) => n.parse::<usize>().ok().and_then(|k| KINDS.get(k).copied()),
			_ => None,
		})
		.collect();
	let kinds: Vec<K> = seq.iter().map(|x| x.0).collect();
	let set: BTreeSet<&str> = seq.iter().map(|x| x.1).collect();
	let go = |o: &mut Obs| -> R {
		let got = Container::from(&kinds);
		want!(got.is_ok(), allowed(&set), "whether the container is allowed");
		// Step by step.
		let mut x = Container::new();
		let mut have: BTreeSet<&str> = BTreeSet::new();
		for (k, name) in &seq {
			let mut after = have.clone();
			after.insert(name);
			let w = x.with(*k);
			want!(w.is_some(), allowed(&after), "with");
			let y = x;
			want!(x.add(*k), w.is_some(), "add");
			want!(x, w.unwrap_or(y), "container after add");
			if w.is_some() {
				have = after
			}
			let got: BTreeSet<&str> = x.iter().map(|k| k.as_str()).collect();
			want!((x.len(), x.as_slice().len(), x.is_empty()), (have.len(), have.len(), have.is_empty()), "len of a container");
			want!(got, have, "kinds of a container");
			for (k, n) in KINDS {
				want!(x.contains(*k), have.contains(n), "contains of a container");
			}
			let syn = x.into_syntax();
			want!(Container::from_syntax(syn.as_ref().map_or(Nullable::Null, Nullable::Some)).ok(), Some(x), "container through its syntax");
			o.hit("containers");
		}
		if let Ok(g) = got {
			want!(g, x, "container of a sequence");
			let many = json_ld::syntax::Container::Many(kinds.clone());
			want!(Container::from_syntax(Nullable::Some(&many)).ok(), Some(g).filter(|_| !kinds.is_empty()), "container of a syntax sequence");
		}
		Ok(())
	};
	match go(o) {
		Ok(()) => {
			o.seen(&c.text());
			V::Pass
		}
		Err((w, d)) => fail(&w, d),
	}
}

pub fn c21() -> Prop {
	Prop {
		id: "C21",
		level: "exploration",
		rule: "Random histories of the operations of the collections (properties, reverse properties, nodes, multisets, lists, indexed objects, language strings, literals, documents, term definitions, contexts with their inverse, node maps, containers) run beside a plain model; after every operation all the accessors, the JSON form, equality and hashes are compared with the model.",
		assumptions: &["an equal JSON form of the objects is an equal object (C12)"],
		mons: vec![
			Mon { name: "node", gen: node_case, judge: judge_node, fixed: none, quick: 60000, threads: 0 },
			Mon { name: "multiset", gen: multi_case, judge: judge_multi, fixed: none, quick: 60000, threads: 0 },
			Mon { name: "small", gen: small_case, judge: judge_small, fixed: none, quick: 60000, threads: 0 },
			Mon { name: "context", gen: ctx_case, judge: judge_ctx, fixed: none, quick: 40000, threads: 0 },
			Mon { name: "map", gen: map_case, judge: judge_map, fixed: none, quick: 60000, threads: 0 },
			Mon { name: "container", gen: container_case, judge: judge_container, fixed: container_fixed, quick: 6000, threads: 0 },
		],
	}
}
