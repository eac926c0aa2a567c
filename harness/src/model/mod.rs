//! Executable reference model of the JSON-LD 1.1 Processing Algorithms and API,
//! written from the W3C recommendation on a plain JSON type. It shares no code
//! with the library under test.
pub mod compact;
pub mod context;
pub mod expand;
pub mod flatten;
pub mod iri;
pub mod rdf;

use crate::json::J;
use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct E(pub &'static str);

pub type R<T> = Result<T, E>;

pub fn err<T>(c: &'static str) -> R<T> {
	Err(E(c))
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
pub enum Mode {
	V10,
	#[default]
	V11,
}

/// Listed deviations of the library (see known-findings.jsonl), which the model
/// reproduces when asked to.
#[derive(Clone, Copy, Default)]
pub struct Quirks {
	/// Containers and `@json` coercion are not applied to the entries of a
	/// `@reverse` map.
	pub reverse_map: bool,
}

impl Quirks {
	pub fn all() -> Self {
		Quirks { reverse_map: true }
	}
}

/// Fixed environment of a run of the model.
#[derive(Clone, Default)]
pub struct Env {
	pub docs: HashMap<String, J>,
	pub mode: Mode,
	pub quirks: Quirks,
	/// Sequence of remote documents dereferenced (in model order).
	pub loads: std::cell::RefCell<Vec<String>>,
}

impl Env {
	pub fn load(&self, url: &str) -> R<J> {
		self.loads.borrow_mut().push(url.to_string());
		match self.docs.get(url) {
			Some(d) => Ok(d.clone()),
			None => err("loading remote context failed"),
		}
	}
	pub fn v10(&self) -> bool {
		self.mode == Mode::V10
	}
}

pub const KEYWORDS: &[&str] = &[
	"@base", "@container", "@context", "@direction", "@graph", "@id", "@import", "@included", "@index", "@json", "@language", "@list", "@nest", "@none",
	"@prefix", "@propagate", "@protected", "@reverse", "@set", "@type", "@value", "@version", "@vocab",
];

pub fn is_kw(v: &str) -> bool {
	v.starts_with('@') && KEYWORDS.contains(&v)
}

pub fn kw_form(v: &str) -> bool {
	v.len() > 1 && v.starts_with('@') && v[1..].chars().all(|c| c.is_ascii_alphabetic())
}

pub fn is_bnode(v: &str) -> bool {
	v.starts_with("_:")
}
