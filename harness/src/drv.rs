//! Driver: runs the real library on JSON inputs, turning every outcome (value,
//! error, panic) into plain data the monitors look at.
use crate::json::J;
use iref::{Iri, IriBuf};
use json_ld::{
	syntax::TryFromJson as _, ExpandedDocument, Flatten, JsonLdProcessor, LoadError, Loader, LoadingResult, Options, ProcessingMode, RemoteContextReference,
	RemoteDocument, RemoteDocumentReference,
};
use json_ld_core::rdf::RdfDirection;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Mutex;

pub use json_ld_expansion::{Action, Policy};

#[derive(Clone, Debug, PartialEq)]
pub enum Out<T> {
	Ok(T),
	/// Error code (spec string) and message.
	Err(String, String),
	Panic(String),
}

impl<T> Out<T> {
	pub fn ok(&self) -> Option<&T> {
		match self {
			Out::Ok(t) => Some(t),
			_ => None,
		}
	}
	pub fn is_panic(&self) -> bool {
		matches!(self, Out::Panic(_))
	}
	pub fn map<U>(self, f: impl FnOnce(T) -> U) -> Out<U> {
		match self {
			Out::Ok(t) => Out::Ok(f(t)),
			Out::Err(a, b) => Out::Err(a, b),
			Out::Panic(p) => Out::Panic(p),
		}
	}
}

impl<T: std::fmt::Display> Out<T> {
	pub fn text(&self) -> String {
		match self {
			Out::Ok(t) => format!("Ok({t})"),
			Out::Err(c, m) => format!("Err({c}: {m})"),
			Out::Panic(p) => format!("PANIC({p})"),
		}
	}
}

thread_local! {
	static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

/// Replaces the panic hook by one which records the message and stays silent.
pub fn install_panic_hook() {
	std::panic::set_hook(Box::new(|i| {
		let m = i
			.payload()
			.downcast_ref::<&str>()
			.map(|s| s.to_string())
			.or_else(|| i.payload().downcast_ref::<String>().cloned())
			.unwrap_or_default();
		let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
		LAST_PANIC.with(|p| *p.borrow_mut() = format!("{m} at {l}"));
	}));
}

pub fn guard<T>(f: impl FnOnce() -> Out<T>) -> Out<T> {
	match catch_unwind(AssertUnwindSafe(f)) {
		Ok(r) => r,
		Err(_) => Out::Panic(LAST_PANIC.with(|p| p.borrow().clone())),
	}
}

/// A loader over a fixed set of documents, recording each request; it suspends
/// a number of times before answering.
#[derive(Default)]
pub struct Rec {
	pub docs: BTreeMap<String, J>,
	pub log: Mutex<Vec<String>>,
	pub yields: usize,
	/// (n, _): the n-th load fails.
	pub fail_at: Option<usize>,
}

impl Rec {
	pub fn new(docs: &BTreeMap<String, J>) -> Rec {
		Rec { docs: docs.clone(), ..Default::default() }
	}
	pub fn loads(&self) -> Vec<String> {
		self.log.lock().unwrap().clone()
	}
}

#[derive(Debug)]
pub struct Missing;
impl std::fmt::Display for Missing {
	fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
		f.write_str("missing")
	}
}
impl std::error::Error for Missing {}

pub struct YieldN(pub usize);
impl std::future::Future for YieldN {
	type Output = ();
	fn poll(mut self: std::pin::Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> std::task::Poll<()> {
		if self.0 == 0 {
			std::task::Poll::Ready(())
		} else {
			self.0 -= 1;
			cx.waker().wake_by_ref();
			std::task::Poll::Pending
		}
	}
}

impl Loader for Rec {
	async fn load(&self, url: &Iri) -> LoadingResult<IriBuf> {
		let n = {
			let mut l = self.log.lock().unwrap();
			l.push(url.to_string());
			l.len() - 1
		};
		YieldN(self.yields).await;
		if self.fail_at == Some(n) {
			return Err(LoadError::new(url.to_owned(), Missing));
		}
		match self.docs.get(url.as_str()) {
			Some(d) => Ok(RemoteDocument::new(Some(url.to_owned()), Some("application/ld+json".parse().unwrap()), d.to_js())),
			None => Err(LoadError::new(url.to_owned(), Missing)),
		}
	}
}

#[derive(Clone, Debug)]
pub struct Opts {
	pub url: Option<String>,
	pub base: Option<String>,
	pub v10: bool,
	pub ordered: bool,
	pub expand_context: Option<J>,
	pub compact_arrays: bool,
	pub compact_to_relative: bool,
	pub rdf_direction: Option<RdfDirection>,
	pub generalized: bool,
	pub policy: Policy,
}

impl Default for Opts {
	fn default() -> Self {
		Opts {
			url: None,
			base: None,
			v10: false,
			ordered: false,
			expand_context: None,
			compact_arrays: true,
			compact_to_relative: true,
			rdf_direction: None,
			generalized: false,
			policy: Policy::default(),
		}
	}
}

pub fn iri(v: &str) -> IriBuf {
	IriBuf::new(v.to_string()).expect("harness iri")
}

/// Parses a JSON context; a document with an `@context` member is unwrapped.
pub fn context_ref(c: &J) -> Result<RemoteContextReference, String> {
	let c = c.get("@context").unwrap_or(c);
	let ctx = json_ld::syntax::Context::try_from_json(c.to_js()).map_err(|e| format!("{}|{e}", e.code()))?;
	Ok(RemoteContextReference::Loaded(RemoteDocument::new(None, None, ctx)))
}

pub fn options(o: &Opts) -> Result<Options, String> {
	Ok(Options {
		base: o.base.as_deref().map(iri),
		compact_arrays: o.compact_arrays,
		compact_to_relative: o.compact_to_relative,
		expand_context: match &o.expand_context {
			Some(c) => Some(context_ref(c)?),
			None => None,
		},
		ordered: o.ordered,
		processing_mode: if o.v10 { ProcessingMode::JsonLd1_0 } else { ProcessingMode::JsonLd1_1 },
		rdf_direction: o.rdf_direction,
		produce_generalized_rdf: o.generalized,
		expansion_policy: o.policy,
	})
}

fn synerr<T>(e: String) -> Out<T> {
	let (a, b) = e.split_once('|').unwrap_or(("?", &e));
	Out::Err(a.to_string(), b.to_string())
}

pub fn remote(doc: &J, o: &Opts) -> RemoteDocument {
	RemoteDocument::new(o.url.as_deref().map(iri), Some("application/ld+json".parse().unwrap()), doc.to_js())
}

pub fn block<F: std::future::Future>(f: F) -> F::Output {
	futures::executor::block_on(f)
}

pub fn doc_json(d: &ExpandedDocument) -> J {
	use contextual::WithContext;
	J::from_js(&json_ld::syntax::IntoJson::into_json(d.clone().into_objects().into_with(&())))
}

pub fn expand_doc(doc: &J, l: &Rec, o: &Opts) -> Out<ExpandedDocument> {
	guard(|| {
		let op = match options(o) {
			Ok(x) => x,
			Err(e) => return synerr(e),
		};
		match block(remote(doc, o).expand_using(l, op)) {
			Ok(d) => Out::Ok(d),
			Err(e) => Out::Err(e.code().to_string(), e.to_string()),
		}
	})
}

pub fn expand(doc: &J, l: &Rec, o: &Opts) -> Out<J> {
	match expand_doc(doc, l, o) {
		Out::Ok(d) => guard(|| Out::Ok(doc_json(&d))),
		Out::Err(a, b) => Out::Err(a, b),
		Out::Panic(p) => Out::Panic(p),
	}
}

pub fn compact(doc: &J, context: &J, l: &Rec, o: &Opts) -> Out<J> {
	guard(|| {
		let op = match options(o) {
			Ok(x) => x,
			Err(e) => return synerr(e),
		};
		let c = match context_ref(context) {
			Ok(x) => x,
			Err(e) => return synerr(e),
		};
		match block(remote(doc, o).compact_using(c, l, op)) {
			Ok(d) => Out::Ok(J::from_js(&d)),
			Err(e) => Out::Err(e.code().to_string(), e.to_string()),
		}
	})
}

pub fn flatten(doc: &J, context: Option<&J>, l: &Rec, o: &Opts) -> Out<J> {
	guard(|| {
		let op = match options(o) {
			Ok(x) => x,
			Err(e) => return synerr(e),
		};
		let c = match context.map(context_ref).transpose() {
			Ok(x) => x,
			Err(e) => return synerr(e),
		};
		let mut g = rdf_types::generator::Blank::new();
		match block(remote(doc, o).flatten_full(&mut (), &mut g, c, l, op, ())) {
			Ok(d) => Out::Ok(J::from_js(&d)),
			Err(e) => Out::Err(e.code().to_string(), e.to_string()),
		}
	})
}

pub fn flatten_expanded(d: &ExpandedDocument, ordered: bool) -> Out<J> {
	guard(|| {
		use contextual::WithContext;
		let g = rdf_types::generator::Blank::new();
		match d.clone().flatten(g, ordered) {
			Ok(d) => Out::Ok(J::from_js(&json_ld::syntax::IntoJson::into_json(d.into_with(&())))),
			Err(e) => Out::Err("conflicting indexes".into(), e.to_string()),
		}
	})
}

pub fn quad_json<T>(q: &T) -> J
where
	T: QuadLike,
{
	q.j()
}

pub trait QuadLike {
	fn j(&self) -> J;
}

pub fn id_j(i: &json_ld::ValidId) -> J {
	J::Str(i.to_string())
}

pub fn literal_j(l: &rdf_types::Literal) -> J {
	match l.type_.clone() {
		rdf_types::LiteralType::Any(t) => crate::model::rdf::lit(&l.value, t.as_str()),
		rdf_types::LiteralType::LangString(t) => crate::model::rdf::lang_lit(&l.value, t.as_str()),
	}
}

pub fn object_j(o: &json_ld_core::rdf::Value<IriBuf, rdf_types::BlankIdBuf, rdf_types::Literal>) -> J {
	match o {
		rdf_types::Object::Id(i) => id_j(i),
		rdf_types::Object::Literal(l) => literal_j(l),
	}
}

pub fn to_rdf(doc: &J, l: &Rec, o: &Opts) -> Out<Vec<J>> {
	guard(|| {
		let op = match options(o) {
			Ok(x) => x,
			Err(e) => return synerr(e),
		};
		let g = rdf_types::generator::Blank::new();
		match block(remote(doc, o).to_rdf_using(g, l, op)) {
			Ok(mut d) => {
				let mut out = vec![];
				for rdf_types::Quad(s, p, ob, g) in d.cloned_quads() {
					out.push(J::Arr(vec![id_j(&s), id_j(&p), object_j(&ob), g.map(|g| id_j(&g)).unwrap_or(J::Null)]));
				}
				out.sort();
				out.dedup();
				Out::Ok(out)
			}
			Err(e) => Out::Err(e.code().to_string(), e.to_string()),
		}
	})
}

pub fn parse_expanded(j: &J) -> Out<ExpandedDocument> {
	guard(|| match <ExpandedDocument as json_ld::TryFromJson<_, _>>::try_from_json_in(&mut (), j.to_js()) {
		Ok(d) => Out::Ok(d),
		Err(e) => Out::Err("invalid expanded json".into(), format!("{e:?}")),
	})
}

pub fn env(docs: &BTreeMap<String, J>, o: &Opts) -> crate::model::Env {
	crate::model::Env {
		docs: docs.iter().map(|(a, b)| (a.clone(), b.clone())).collect::<HashMap<_, _>>(),
		mode: if o.v10 { crate::model::Mode::V10 } else { crate::model::Mode::V11 },
		quirks: crate::model::Quirks::all(),
		loads: Default::default(),
	}
}

#[allow(dead_code)]
fn _unused(_: RemoteDocumentReference) {}
