//! Plays cases.json: [{op, doc, docs, context, opts, expect}], comparing the
//! outcome of each operation with the recorded one, up to the order of members
//! and of arrays outside of lists. With `--record`, prints the outcomes.
use iref::{Iri, IriBuf};
use json_ld::{syntax::{Parse, Print, TryFromJson, Value}, *};
use std::collections::HashMap;

#[derive(Clone)]
struct Docs(HashMap<String, Value>);
#[derive(Debug)]
struct Missing;
impl std::fmt::Display for Missing {
	fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
		f.write_str("missing")
	}
}
impl std::error::Error for Missing {}
impl Loader for Docs {
	async fn load(&self, url: &Iri) -> LoadingResult<IriBuf> {
		match self.0.get(url.as_str()) {
			Some(d) => Ok(RemoteDocument::new(Some(url.to_owned()), Some("application/ld+json".parse().unwrap()), d.clone())),
			None => Err(LoadError::new(url.to_owned(), Missing)),
		}
	}
}

fn get<'a>(v: &'a Value, k: &str) -> Option<&'a Value> {
	v.as_object().and_then(|o| o.get(k).next())
}

/// Canonical text.
fn canon(v: &Value, list: bool) -> String {
	match v {
		Value::Array(a) => {
			let mut t: Vec<String> = a.iter().map(|x| canon(x, false)).collect();
			if !list {
				t.sort();
			}
			format!("[{}]", t.join(","))
		}
		Value::Object(o) => {
			let mut t: Vec<String> = o.iter().map(|e| format!("{:?}:{}", e.key.as_str(), canon(&e.value, e.key.as_str() == "@list"))).collect();
			t.sort();
			format!("{{{}}}", t.join(","))
		}
		v => v.compact_print().to_string(),
	}
}

fn ctx(v: &Value) -> RemoteContextReference {
	let v = get(v, "@context").unwrap_or(v).clone();
	RemoteContextReference::Loaded(RemoteDocument::new(None, None, json_ld::syntax::Context::try_from_json(v).expect("context")))
}

fn text(d: ExpandedDocument) -> String {
	use contextual::WithContext;
	canon(&json_ld::syntax::IntoJson::into_json(d.into_objects().into_with(&())), false)
}

async fn expanded(doc: &RemoteDocument, l: &Docs, o: Options) -> ExpandedDocument {
	doc.expand_using(l, o).await.expect("expansion")
}

fn read(v: &Value) -> ExpandedDocument {
	json_ld::TryFromJson::try_from_json_in(&mut (), v.clone()).expect("expanded document")
}

fn action(v: &Value) -> expansion::Action {
	match v.as_str() {
		Some("drop") => expansion::Action::Drop,
		Some("reject") => expansion::Action::Reject,
		_ => expansion::Action::Keep,
	}
}

struct Heard(Vec<String>);
impl<N> warning::Handler<N, context_processing::Warning> for Heard {
	fn handle(&mut self, _: &N, w: context_processing::Warning) {
		self.0.push(w.to_string())
	}
}
impl<N> warning::Handler<N, expansion::Warning<BlankIdBuf>> for Heard {
	fn handle(&mut self, _: &N, w: expansion::Warning<BlankIdBuf>) {
		self.0.push(w.to_string())
	}
}

fn run(c: &Value) -> String {
	let mut docs = HashMap::new();
	if let Some(d) = get(c, "docs").and_then(|d| d.as_object()) {
		for e in d.iter() {
			docs.insert(e.key.as_str().to_string(), e.value.clone());
		}
	}
	let l = Docs(docs);
	let o = get(c, "opts").cloned().unwrap_or(Value::Null);
	let st = |k: &str| get(&o, k).and_then(|x| x.as_str()).map(|x| x.to_string());
	let flag = |k: &str, d: bool| get(&o, k).and_then(|x| x.as_boolean()).unwrap_or(d);
	let options = || Options {
		base: st("base").map(|b| IriBuf::new(b).unwrap()),
		expand_context: get(&o, "expandContext").map(ctx),
		ordered: flag("ordered", false),
		compact_arrays: flag("compactArrays", true),
		compact_to_relative: flag("compactToRelative", true),
		produce_generalized_rdf: flag("generalized", false),
		expansion_policy: match get(&o, "policy").and_then(|p| p.as_array()) {
			Some(p) => expansion::Policy { invalid: action(&p[0]), vocab: action(&p[1]), allow_undefined: p[2].as_boolean() != Some(false) },
			None => Default::default(),
		},
		processing_mode: match st("mode").as_deref() {
			Some("1.0") => ProcessingMode::JsonLd1_0,
			_ => ProcessingMode::JsonLd1_1,
		},
		rdf_direction: match st("rdfDirection").as_deref() {
			Some("i18n-datatype") => Some(rdf::RdfDirection::I18nDatatype),
			Some("compound-literal") => Some(rdf::RdfDirection::CompoundLiteral),
			_ => None,
		},
		..Default::default()
	};
	let url = st("url").unwrap_or("http://base.org/dir/doc".into());
	let doc = RemoteDocument::new(Some(IriBuf::new(url).unwrap()), None, get(c, "doc").cloned().unwrap_or(Value::Null));
	let op = get(c, "op").unwrap().as_str().unwrap();
	let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
		futures::executor::block_on(async {
			match op {
				"expand" => match doc.expand_using(&l, options()).await {
					Ok(d) => {
						use contextual::WithContext;
						canon(&json_ld::syntax::IntoJson::into_json(d.into_objects().into_with(&())), false)
					}
					Err(e) => format!("error {}", e.code()),
				},
				"compact" => match doc.compact_using(ctx(get(c, "context").unwrap()), &l, options()).await {
					Ok(d) => canon(&d, false),
					Err(e) => format!("error {}", e.code()),
				},
				"flatten" => match doc.flatten_full(&mut (), &mut rdf_types::generator::Blank::new(), get(c, "context").map(ctx), &l, options(), ()).await {
					Ok(d) => canon(&d, false),
					Err(e) => format!("error {}", e.code()),
				},
				"rdf" => match doc.to_rdf_using(rdf_types::generator::Blank::new(), &l, options()).await {
					Ok(mut d) => {
						let mut t: Vec<String> = d.cloned_quads().map(|rdf_types::Quad(s, p, o, g)| {
							let o = match o {
								rdf_types::Object::Id(i) => i.to_string(),
								rdf_types::Object::Literal(l) => match l.type_ {
									rdf_types::LiteralType::Any(t) => format!("{:?}^^{t}", l.value.to_string()),
									rdf_types::LiteralType::LangString(t) => format!("{:?}@{t}", l.value.to_string()),
								},
							};
							format!("{s} {p} {o} {}", g.map(|g| g.to_string()).unwrap_or_default())
						}).collect();
						t.sort();
						t.dedup();
						t.join("\n")
					}
					Err(e) => format!("error {}", e.code()),
				},
				"relabel" => {
					let mut d = expanded(&doc, &l, options()).await;
					d.relabel(&mut rdf_types::generator::Blank::new_with_prefix("g".into()));
					text(d)
				}
				// The quads of a visit of the document.
				"linked" => {
					let d = expanded(&doc, &l, options()).await;
					let mut t: Vec<String> = linked_data::to_quads(rdf_types::generator::Blank::new(), &d).unwrap().into_iter().map(|q| format!("{q:?}")).collect();
					t.sort();
					t.join("\n")
				}
				// Serialized through a visit.
				"serialize" => {
					let d = expanded(&doc, &l, options()).await;
					match ser::serialize(&d) {
						Ok(d) => text(d),
						Err(e) => format!("error {e}"),
					}
				}
				// Expanded documents as written, compared.
				"compare" => {
					let a = read(get(c, "doc").unwrap());
					let b = read(get(c, "other").unwrap());
					format!("{}", a == b)
				}
				"read" => text(read(get(c, "doc").unwrap())),
				"context" => match json_ld::syntax::Context::try_from_json(get(c, "context").unwrap().clone()) {
					Ok(x) => canon(&json_ld::syntax::IntoJson::into_json(x), false),
					Err(e) => format!("error {}", e.code()),
				},
				"quads" => {
					use rdf_types::{BlankIdBuf, Id, Literal, LiteralType, Quad, Term};
					let term = |v: &Value| -> Option<Term> {
						match v.as_str() {
							Some(x) if x.starts_with("_:") => Some(Term::Id(Id::Blank(BlankIdBuf::new(x.to_string()).unwrap()))),
							Some(x) => Some(Term::Id(Id::Iri(IriBuf::new(x.to_string()).unwrap()))),
							None => {
								let v0 = get(v, "v")?.as_str()?.to_string();
								let t = get(v, "t")?.as_str()?.to_string();
								Some(Term::Literal(Literal::new(v0, LiteralType::Any(IriBuf::new(t).unwrap()))))
							}
						}
					};
					let qs: Vec<Quad<Term, Term, Term, Term>> = get(c, "quads").unwrap().as_array().unwrap().iter().map(|q| {
						let q = q.as_array().unwrap();
						Quad(term(&q[0]).unwrap(), term(&q[1]).unwrap(), term(&q[2]).unwrap(), q.get(3).and_then(term))
					}).collect();
					match ExpandedDocument::from_interpreted_quads(&(), &(), qs.iter().map(|Quad(s, p, o, g)| Quad(s, p, o, g.as_ref()))) {
						Ok(d) => text(d),
						Err(e) => format!("error {e}"),
					}
				}
				"warnings" => {
					let mut w = Heard(vec![]);
					let r = JsonLdProcessor::expand_full(&doc, &mut (), &l, options(), &mut w).await;
					w.0.sort();
					w.0.dedup();
					format!("{} {:?}", r.is_ok(), w.0)
				}
				_ => panic!("op"),
			}
		})
	}));
	r.unwrap_or("panic".into())
}

fn main() {
	let f = std::env::args().nth(1).unwrap();
	let (cases, _) = Value::parse_str(&std::fs::read_to_string(f).unwrap()).unwrap();
	let record = std::env::args().nth(2).is_some();
	let mut bad = 0;
	for c in cases.as_array().unwrap() {
		let got = run(c);
		if record {
			let j: Value = Value::String(got.as_str().into());
			println!("{}", j.compact_print());
		} else if get(c, "expect").and_then(|x| x.as_str()) != Some(got.as_str()) {
			println!("got      {got}\nexpected {}", get(c, "expect").and_then(|x| x.as_str()).unwrap_or("?"));
			bad += 1;
		}
	}
	std::process::exit((bad > 0) as i32);
}
