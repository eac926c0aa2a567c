//! C13: documents loaders, and documents taken through them.
use super::util::*;
use crate::drv::{self, Out};
use crate::json::{obj, s, J};
use crate::model;
use crate::rng::Rng;
use crate::run::*;
use iref::{Iri, IriBuf};
use json_ld::loader::{ChainLoader, FsLoader, NoLoader, ReqwestLoader};
use json_ld::{ExtractContext, JsonLdProcessor, LoadError, Loader, LoadingResult, RemoteDocument, RemoteDocumentReference};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::io::{Read, Write};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Mutex, OnceLock};

/// A remote document as plain data.
fn rd_json(d: &RemoteDocument<IriBuf>) -> J {
	let mut p: Vec<J> = d.profile.iter().map(|p| s(p.iri().as_str())).collect();
	p.sort();
	let o = |i: Option<&IriBuf>| i.map(|i| s(i.as_str())).unwrap_or(J::Null);
	obj(vec![
		("url", o(d.url())),
		("type", d.content_type().map(|m| s(m.as_ref())).unwrap_or(J::Null)),
		("context", o(d.context_url())),
		("profile", J::Arr(p)),
		("document", J::from_js(d.document())),
	])
}

fn outcome(r: LoadingResult) -> Result<J, (String, String)> {
	match r {
		Ok(d) => Ok(rd_json(&d)),
		Err(LoadError { target, cause }) => Err((target.to_string(), cause.to_string())),
	}
}

fn show(r: &Result<J, (String, String)>) -> String {
	match r {
		Ok(j) => j.text(),
		Err((a, b)) => format!("error on {a}: {b}"),
	}
}

// --- loaders in memory and chains of them

const URLS: [&str; 6] = ["http://a.org/x", "http://a.org/y", "urn:doc:1", "http://a.org/x?q", "http://a.org/x#f", "https://b.org/"];

fn map_case(mut r: Rng) -> J {
	fn node(r: &mut Rng, d: usize) -> J {
		match r.below(if d == 0 { 3 } else { 6 }) {
			0 => s("none"),
			1..=2 => {
				let mut m = BTreeMap::new();
				for _ in 0..r.below(4) {
					let mut e = vec![("document", r.pick(&[J::Null, s("text"), J::Num("1".into()), obj(vec![("a", J::Arr(vec![J::Num("1".into())]))])]).clone()), ("n", J::Num(r.below(1000).to_string()))];
					if r.pc(80) {
						e.push(("url", s(&r.ps(&URLS))));
					}
					if r.pc(50) {
						e.push(("type", s(&r.ps(&["application/ld+json", "text/html", "application/json"]))));
					}
					if r.pc(30) {
						e.push(("context", s(&r.ps(&URLS))));
					}
					if r.pc(40) {
						e.push(("profile", J::Arr((0..r.range(1, 3)).map(|_| s(&r.ps(&["http://www.w3.org/ns/json-ld#expanded", "http://www.w3.org/ns/json-ld#compacted", "http://www.w3.org/ns/json-ld#context", "http://www.w3.org/ns/json-ld#flattened", "http://www.w3.org/ns/json-ld#framed", "urn:profile"]))).collect())));
					}
					m.insert(r.ps(&URLS), obj(e));
				}
				obj(vec![(if r.pc(50) { "hash" } else { "tree" }, J::Obj(m.into_iter().collect()))])
			}
			_ => obj(vec![("chain", J::Arr(vec![node(r, d - 1), node(r, d - 1)]))]),
		}
	}
	obj(vec![("loader", node(&mut r, 3)), ("url", s(&r.ps(&URLS)))])
}

enum Any {
	None(NoLoader),
	Hash(HashMap<IriBuf, RemoteDocument>),
	Tree(BTreeMap<IriBuf, RemoteDocument>),
	Chain(Box<ChainLoader<Any, Any>>),
}

impl Loader for Any {
	async fn load(&self, url: &Iri) -> LoadingResult<IriBuf> {
		match self {
			Any::None(l) => l.load(url).await,
			Any::Hash(l) => l.load(url).await,
			Any::Tree(l) => l.load(url).await,
			Any::Chain(l) => Box::pin(l.load(url)).await,
		}
	}
}

fn entry(j: &J) -> Option<RemoteDocument> {
	let i = |k: &str| j.get(k).and_then(|x| x.as_str()).map(drv::iri);
	let mut d = RemoteDocument::new(i("url"), j.get("type").and_then(|x| x.as_str()).and_then(|x| x.parse().ok()), j.get("document")?.to_js());
	d.context_url = i("context");
	for p in j.get("profile").map(|x| x.to_arr()).unwrap_or_default() {
		d.profile.insert(json_ld::Profile::new(Iri::new(p.as_str()?).ok()?));
	}
	Some(d)
}

fn build(j: &J) -> Option<Any> {
	if j.as_str() == Some("none") {
		return Some(Any::None(NoLoader));
	}
	if let Some(J::Arr(a)) = j.get("chain") {
		return Some(Any::Chain(Box::new(ChainLoader::new(build(a.first()?)?, build(a.get(1)?)?))));
	}
	let hash = j.has("hash");
	match j.get("hash").or(j.get("tree"))? {
		J::Obj(m) => {
			let mut h = HashMap::new();
			let mut t = BTreeMap::new();
			for (k, v) in m {
				let k = IriBuf::new(k.clone()).ok()?;
				if hash {
					h.insert(k, entry(v)?);
				} else {
					t.insert(k, entry(v)?);
				}
			}
			Some(if hash { Any::Hash(h) } else { Any::Tree(t) })
		}
		_ => None,
	}
}

fn expected(j: &J, url: &str) -> Result<J, String> {
	if j.as_str() == Some("none") {
		return Err("no loader".into());
	}
	if let Some(J::Arr(a)) = j.get("chain") {
		return expected(&a[0], url).or_else(|e| expected(&a[1], url).map_err(|f| format!("{e}, then {f}")));
	}
	match j.get("hash").or(j.get("tree")).and_then(|m| m.get(url)) {
		None => Err("document not found".into()),
		Some(e) => {
			let g = |k: &str| e.get(k).cloned().unwrap_or(J::Null);
			let mut p = e.get("profile").map(|x| x.to_arr()).unwrap_or_default();
			p.sort();
			p.dedup();
			Ok(obj(vec![("url", g("url")), ("type", g("type")), ("context", g("context")), ("profile", J::Arr(p)), ("document", g("document"))]))
		}
	}
}

fn judge_map(c: &J, o: &mut Obs) -> V {
	let (l, url) = match (c.get("loader").and_then(build), c.get("url").and_then(|u| u.as_str())) {
		(Some(l), Some(u)) => (l, drv::iri(u)),
		_ => return V::Skip("not a loader"),
	};
	let want = expected(c.get("loader").unwrap(), url.as_str()).map_err(|e| (url.to_string(), e));
	let got = outcome(drv::block(l.load(&url)));
	if got != want {
		return fail("loaded document differs", format!("library {}\nexpected {}", show(&got), show(&want)));
	}
	// The same through references, a vocabulary and document references.
	let mut voc: rdf_types::vocabulary::IndexVocabulary = Default::default();
	use rdf_types::vocabulary::{IriVocabulary, IriVocabularyMut};
	for k in 0..5 {
		let i = voc.insert(&url);
		let r = match k {
			0 => drv::block((&l).load_with(&mut voc, i)),
			1 => drv::block((&mut &l).load_with(&mut voc, i)),
			2 => drv::block(RemoteDocumentReference::iri(i).load_with(&mut voc, &l)),
			3 => drv::block(RemoteDocumentReference::iri(i).loaded_with(&mut voc, &l)).map(|d| d.into_owned()),
			_ => match drv::block(l.load_with(&mut voc, i)) {
				Ok(d) => drv::block(RemoteDocumentReference::Loaded(d).load_with(&mut voc, &NoLoader)),
				e => e,
			},
		};
		let got = outcome(r.map(|d| d.map_iris(|i| voc.iri(&i).unwrap().to_owned())));
		if got != want {
			return fail("loaded document differs", format!("way {k}: library {}\nexpected {}", show(&got), show(&want)));
		}
	}
	o.hit(if want.is_ok() { "loaded" } else { "refused" });
	o.seen(&c.text());
	V::Pass
}

// --- documents on disk

pub static COUNTER: AtomicU64 = AtomicU64::new(0);

pub struct Scratch(pub PathBuf);
impl Scratch {
	pub fn new() -> Scratch {
		let p = std::env::temp_dir().join(format!("ldmon-{}-{}", std::process::id(), COUNTER.fetch_add(1, Ordering::Relaxed)));
		std::fs::create_dir_all(&p).expect("scratch directory");
		Scratch(p)
	}
}
impl Drop for Scratch {
	fn drop(&mut self) {
		let _ = std::fs::remove_dir_all(&self.0);
	}
}

const FILES: [&str; 9] = ["a.jsonld", "b", "d/a.jsonld", "d/b", "d/e/a.jsonld", "e/b", "x y", "é", "a:b"];

fn file_case(mut r: Rng) -> J {
	let hosts = ["http://h.org", "https://h.org", "http://k.org:8080"];
	let mut files = vec![];
	for d in ["m1", "m2", "m1/d", "out"] {
		for f in FILES {
			if r.pc(30) {
				files.push((format!("{d}/{f}"), s(&r.ps(&["{\"k\":1}", "[1,2]", "null", "{\"@context\":{}}", "{", "", "\"é\"", " {} \n", "{} {}"]))));
			}
		}
	}
	let mounts: Vec<J> = (0..r.range(0, 3))
		.map(|_| {
			let dir = r.ps(&["m1", "m2", "m1/d", "m1/"]);
			let p = r.ps(&["", "/p", "/p/q", "/", "/p/", "/p/./q", "/p/../p", "//p"]);
			J::Arr(vec![s(&dir), s(&format!("{}{p}", r.pick(&hosts)))])
		})
		.collect();
	let urls: Vec<J> = (0..r.range(1, 4))
		.map(|_| {
			let mut u = r.pick(&hosts).to_string();
			if let (true, Some(J::Arr(m))) = (r.pc(80), mounts.first()) {
				u = m[1].as_str().unwrap().to_string();
			}
			for _ in 0..r.range(0, 5) {
				u.push('/');
				u.push_str(&r.ps(&["a.jsonld", "b", "d", "e", "..", ".", "p", "q", "", "..", "a:b", "é", "out", "m1"]));
			}
			u.push_str(&r.ps(&["", "", "", "", "?q=/x", "#f/g"]));
			s(&u)
		})
		.collect();
	obj(vec![("files", J::Obj(files)), ("mounts", J::Arr(mounts)), ("urls", J::Arr(urls))])
}

/// Segments of the path without dot segments.
fn segments(u: &str) -> Option<(String, Vec<String>)> {
	let p = model::iri::parse(u);
	let path = model::iri::remove_dots(p.path);
	let segs = match path.strip_prefix('/') {
		None if path.is_empty() => vec![],
		None => return None,
		Some("") => vec![],
		Some(x) => x.split('/').map(|x| x.to_string()).collect(),
	};
	Some((format!("{}://{}", p.scheme?, p.auth?), segs))
}

fn judge_file(c: &J, o: &mut Obs) -> V {
	let dir = Scratch::new();
	if let Some(J::Obj(m)) = c.get("files") {
		for (k, v) in m {
			let p = dir.0.join(k);
			if k.split('/').any(|x| x.is_empty() || x.starts_with('.')) || std::fs::create_dir_all(p.parent().unwrap()).is_err() {
				return V::Skip("not a file name");
			}
			if std::fs::write(p, v.as_str().unwrap_or("")).is_err() {
				return V::Skip("not a file name");
			}
		}
	}
	let mut l = FsLoader::new();
	let mut mounts = vec![];
	for m in c.get("mounts").map(|x| x.to_arr()).unwrap_or_default() {
		match m.as_arr().map(|x| x.as_slice()) {
			Some([J::Str(d), J::Str(u)]) => match (IriBuf::new(u.clone()), segments(u)) {
				(Ok(i), Some(g)) => {
					l.mount(i, dir.0.join(d));
					mounts.push((dir.0.join(d), g));
				}
				_ => return V::Skip("not a mount point"),
			},
			_ => return V::Skip("not a mount point"),
		}
	}
	for u in c.get("urls").map(|x| x.to_arr()).unwrap_or_default() {
		let u = match u.as_str() {
			Some(u) => u,
			_ => return V::Skip("not a URL"),
		};
		if model::iri::parse(u).path.is_empty() {
			continue;
		}
		let (i, (origin, path)) = match (IriBuf::new(u.to_string()), segments(u)) {
			(Ok(i), Some(g)) => (i, g),
			_ => return V::Skip("not a URL"),
		};
		let want = mounts.iter().find_map(|(d, (o, p))| {
			// A prefix ending with a slash is the prefix of what follows it.
			let n = if p.last().is_some_and(|x| x.is_empty()) { p.len() - 1 } else { p.len() };
			if *o != origin || path.len() < n || path[..n] != p[..n] {
				return None;
			}
			let mut at = d.clone();
			for x in &path[n..] {
				at.push(x)
			}
			Some(at)
		});
		let got = l.filepath(&i);
		let clean = |p: &PathBuf| p.components().filter(|c| !matches!(c, std::path::Component::CurDir)).collect::<PathBuf>();
		if got.as_ref().map(clean) != want.as_ref().map(clean) {
			return fail("file path", format!("library {got:?}\nexpected {want:?} for {u} in {}", c.text()));
		}
		if let (Some(p), Some(w)) = (&got, &want) {
			let root = mounts.iter().map(|m| &m.0).find(|d| w.starts_with(d));
			if p.components().any(|c| matches!(c, std::path::Component::ParentDir)) || root.is_none_or(|d| !p.starts_with(d)) {
				return fail("file outside of the mounted directory", format!("{p:?} for {u} in {}", c.text()));
			}
		}
		let r = outcome(drv::block(l.load(&i)));
		let content = got.as_ref().and_then(|p| if p.to_string_lossy().ends_with('/') && !p.is_dir() { None } else { std::fs::read_to_string(p).ok() });
		let json = content.as_ref().and_then(|t| J::parse(t));
		match (&got, &content, &json, &r) {
			(None, _, _, Err((t, m))) if t == u && m == "no mount point" => o.hit("no mount point"),
			(Some(_), None, _, Err((t, m))) if t == u && m.starts_with("IO: ") => o.hit("no file"),
			(Some(_), Some(_), None, Err((t, m))) if t == u && m.starts_with("parse error") => o.hit("not JSON"),
			(Some(_), Some(_), Some(j), Ok(d)) => {
				let w = obj(vec![("url", s(u)), ("type", s("application/ld+json")), ("context", J::Null), ("profile", J::Arr(vec![])), ("document", j.clone())]);
				if w != *d {
					return fail("loaded file differs", format!("library {}\nexpected {}", d.text(), w.text()));
				}
				o.hit("loaded")
			}
			_ => return fail("loaded file differs", format!("library {}\nfile {got:?} containing {content:?} for {u}", show(&r))),
		}
	}
	o.seen(&c.text());
	V::Pass
}

// --- documents on the web

/// Answers of the server, by path; and the requests it has seen.
#[derive(Default)]
pub struct Site {
	pub pages: HashMap<String, (String, Vec<u8>)>,
	pub log: Vec<(String, String)>,
}

pub struct Web {
	pub port: u16,
	pub sites: Mutex<HashMap<u64, Site>>,
	runtime: tokio::runtime::Runtime,
	client: reqwest::Client,
}

pub fn web() -> &'static Web {
	static W: OnceLock<Web> = OnceLock::new();
	static STARTED: OnceLock<()> = OnceLock::new();
	let w = W.get_or_init(|| {
		let l = std::net::TcpListener::bind("127.0.0.1:0").expect("loopback");
		let port = l.local_addr().unwrap().port();
		std::thread::spawn(move || {
			for c in l.incoming().flatten() {
				std::thread::spawn(move || serve(c));
			}
		});
		Web {
			port,
			sites: Default::default(),
			runtime: tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().unwrap(),
			client: reqwest::Client::builder().no_proxy().timeout(std::time::Duration::from_secs(60)).build().unwrap(),
		}
	});
	STARTED.get_or_init(|| ());
	w
}

fn serve(mut c: std::net::TcpStream) {
	let mut buf = vec![];
	let mut b = [0u8; 4096];
	c.set_read_timeout(Some(std::time::Duration::from_secs(20))).ok();
	loop {
		let end = loop {
			if let Some(i) = buf.windows(4).position(|w| w == b"\r\n\r\n") {
				break i + 4;
			}
			match c.read(&mut b) {
				Ok(0) | Err(_) => return,
				Ok(n) => buf.extend_from_slice(&b[..n]),
			}
		};
		let head = String::from_utf8_lossy(&buf[..end]).to_string();
		buf.drain(..end);
		let path = head.split(' ').nth(1).unwrap_or("").to_string();
		let accept = head.lines().find_map(|l| l.split_once(':').filter(|(k, _)| k.eq_ignore_ascii_case("accept")).map(|(_, v)| v.trim().to_string())).unwrap_or_default();
		let n: u64 = path.split('/').nth(1).and_then(|x| x.parse().ok()).unwrap_or(0);
		let local = format!("/{}", path.splitn(3, '/').nth(2).unwrap_or(""));
		let mut sites = web().sites.lock().unwrap();
		let (h, body) = match sites.get_mut(&n) {
			Some(site) => {
				site.log.push((local.clone(), accept));
				site.pages.get(local.split('?').next().unwrap()).cloned().unwrap_or(("HTTP/1.1 404 Not Found\r\n".into(), vec![]))
			}
			None => ("HTTP/1.1 500 Error\r\n".into(), vec![]),
		};
		drop(sites);
		let mut out = format!("{h}Content-Length: {}\r\n\r\n", body.len()).into_bytes();
		out.extend(body);
		if c.write_all(&out).is_err() {
			return;
		}
	}
}

const CT: [(&str, &str, &[&str]); 18] = [
	("application/ld+json", "application/ld+json", &[]),
	("application/ld+json;profile=urn:p:1", "application/ld+json", &["urn:p:1"]),
	("application/ld+json; profile=\"http://www.w3.org/ns/json-ld#expanded\"", "application/ld+json", &["http://www.w3.org/ns/json-ld#expanded"]),
	("application/ld+json; charset=utf-8; profile=\"http://www.w3.org/ns/json-ld#flattened urn:p:2\"", "application/ld+json", &["http://www.w3.org/ns/json-ld#flattened", "urn:p:2"]),
	("application/ld+json; x=\"a;b\"; profile=\"urn:p:1  not-an-iri urn:p:1\"", "application/ld+json", &["urn:p:1"]),
	("application/ld+json ; profile=\"urn:p:1\" ; q=1", "application/ld+json", &["urn:p:1"]),
	("Application/LD+JSON", "application/ld+json", &[]),
	("application/json", "application/json", &[]),
	("application/json; charset=utf-8", "application/json", &[]),
	("application/json;profile=\"urn:p:3\"", "application/json", &["urn:p:3"]),
	("application/activity+json", "application/activity+json", &[]),
	("application/activity+json; profile=\"urn:p:1\"", "application/activity+json", &["urn:p:1"]),
	("text/html", "", &[]),
	("text/html; charset=utf-8", "", &[]),
	("application/xhtml+xml", "", &[]),
	("application/jsonx", "", &[]),
	("application/x-json", "", &[]),
	("text/plain;profile=\"application/ld+json\"", "", &[]),
];

fn http_case(mut r: Rng) -> J {
	let paths = ["/a", "/b", "/d/c", "/d/e", "/f"];
	let mut pages = vec![];
	for p in paths {
		let mut m = vec![];
		let status = *r.pick(&[200, 200, 200, 200, 200, 200, 200, 200, 301, 302, 307, 308, 404, 500, 204, 201]);
		m.push(("status", J::Num(status.to_string())));
		if (300..400).contains(&status) {
			m.push(("location", s(&r.ps(&["/a", "/b", "/d/c", "/d/e", "/f"]))));
		}
		let mut ct = vec![];
		for _ in 0..*r.pick(&[0, 1, 1, 1, 1, 1, 1, 2]) {
			ct.push(J::Num(r.below(CT.len()).to_string()));
		}
		m.push(("ct", J::Arr(ct)));
		let mut links = vec![];
		for _ in 0..*r.pick(&[0, 0, 1, 1, 1, 2, 3]) {
			let rel = r.ps(&["http://www.w3.org/ns/json-ld#context", "http://www.w3.org/ns/json-ld#context", "alternate", "alternate", "alternate", "stylesheet", "alternate http://www.w3.org/ns/json-ld#context", "up", "x\\\"y", ""]);
			let ty = match rel.as_str() {
				"alternate" => r.ps(&["application/ld+json", "application/ld+json", "application/ld+json", "text/html", ""]),
				_ => r.ps(&["", "application/ld+json", "text/css"]),
			};
			links.push(obj(vec![
				("href", s(&r.ps(&["/a", "/b", "/d/c", "e", "../f", "/d/e", "", "?q", "/a;b", "/a,b", "/b#f"]))),
				("rel", s(&rel)),
				("type", s(&ty)),
				("style", J::Num(r.below(7).to_string())),
			]));
		}
		m.push(("links", J::Arr(links)));
		m.push(("joined", J::Bool(r.pc(30))));
		m.push(("body", s(&r.ps(&["{\"k\":1}", "[]", "{\"@context\":{\"a\":\"urn:a\"}}", "null", "\"é\"", "{", "", "[1,]", "{\"a\":1}x"]))));
		m.push(("raw", J::Bool(r.pc(2))));
		pages.push((p.to_string(), obj(m)));
	}
	obj(vec![
		("pages", J::Obj(pages)),
		("url", s(&r.ps(&["/a", "/b", "/d/c", "/zzz", "/a?q", "/a#f"]))),
		("max", J::Num(r.pick(&[0, 1, 2, 3, 8]).to_string())),
		("profile", J::Arr((0..*r.pick(&[0, 0, 1, 2])).map(|_| s(&r.ps(&["http://www.w3.org/ns/json-ld#expanded", "http://www.w3.org/ns/json-ld#context", "urn:p:9"]))).collect())),
	])
}

fn num(j: Option<&J>) -> u64 {
	match j {
		Some(J::Num(n)) => n.parse().unwrap_or(0),
		_ => 0,
	}
}

fn link_text(l: &J) -> String {
	let g = |k: &str| l.get(k).and_then(|x| x.as_str()).unwrap_or("").to_string();
	let (href, rel, ty) = (format!("<{}>", g("href")), g("rel"), g("type"));
	let t = |sep: &str, q: bool| match ty.as_str() {
		"" => String::new(),
		t if q => format!("{sep}type=\"{t}\""),
		t => format!("{sep}type={t}"),
	};
	let token = !rel.is_empty() && rel.chars().all(|c| c.is_ascii_alphanumeric());
	match num(l.get("style")) {
		0 => format!("{href}; rel=\"{rel}\"{}", t("; ", true)),
		1 => format!("{href};rel=\"{rel}\"{}", t(";", true)),
		2 => format!("{href} ; rel=\"{rel}\"{} ; title=\"a, b; c\"", t(" ; ", true)),
		3 if token => format!("{href}; rel={rel}{}", t("; ", true)),
		4 => format!("{href}; title=\"<x>; rel=y\"; rel=\"{rel}\"{}", t("; ", true)),
		5 => format!("{href}{}; rel=\"{rel}\"", t("; ", true)),
		_ => format!("{href}; rel=\"{rel}\"; hreflang=en{}", t("; ", true)),
	}
}

/// The outcome, and the paths requested, in order.
fn http_model(c: &J, base: &str) -> (Result<J, (String, String)>, Vec<String>) {
	let mut url = format!("{base}{}", c.get("url").and_then(|x| x.as_str()).unwrap_or("/"));
	let mut log = vec![];
	let (mut links, max) = (0, num(c.get("max")));
	loop {
		if links > max {
			return (Err((url, "too many redirections".into())), log);
		}
		// What the HTTP client does.
		let mut hops = 0;
		let asked = url.clone();
		let page = loop {
			let path = match url.split('#').next().unwrap().strip_prefix(base) {
				Some(p) if p.starts_with('/') => p.to_string(),
				_ => return (Err((String::new(), "leaves the site".into())), log),
			};
			log.push(path.clone());
			let p = c.get("pages").and_then(|p| p.get(path.split('?').next().unwrap())).cloned();
			match p {
				None => return (Err((url, "query failed: status code 404 Not Found".into())), log),
				Some(p) if (300..400).contains(&num(p.get("status"))) => {
					hops += 1;
					if hops > 10 {
						return (Err((asked, "*".into())), log);
					}
					if url.contains('#') {
						return (Err((String::new(), "fragment".into())), log);
					}
					url = format!("{base}{}", p.get("location").and_then(|x| x.as_str()).unwrap_or(""));
				}
				Some(p) => break p,
			}
		};
		if num(page.get("status")) != 200 {
			let t = match num(page.get("status")) {
				404 => "404 Not Found",
				500 => "500 Internal Server Error",
				204 => "204 No Content",
				_ => "201 Created",
			};
			return (Err((url, format!("query failed: status code {t}"))), log);
		}
		let ct: Vec<usize> = page.get("ct").map(|x| x.to_arr()).unwrap_or_default().iter().map(|n| num(Some(n)) as usize).collect();
		let rels = |l: &J, r: &str| l.get("rel").and_then(|x| x.as_str()).is_some_and(|x| x.split(' ').any(|y| y == r));
		let ls = page.get("links").map(|x| x.to_arr()).unwrap_or_default();
		let href = |l: &J| model::iri::resolve(&url, l.get("href").and_then(|x| x.as_str()).unwrap_or(""));
		match ct.iter().find(|i| !CT[**i].1.is_empty()) {
			Some(i) => {
				let (_, ty, prof) = CT[*i];
				let mut context = J::Null;
				if ty != "application/ld+json" {
					let found: Vec<&J> = ls.iter().filter(|l| rels(l, "http://www.w3.org/ns/json-ld#context")).collect();
					if found.len() > 1 {
						return (Err((url, "multiple context link headers".into())), log);
					}
					if let Some(l) = found.first() {
						context = s(&href(l));
					}
				}
				let body = page.get("body").and_then(|x| x.as_str()).unwrap_or("");
				let doc = match J::parse(body) {
					Some(d) if page.get("raw") != Some(&J::Bool(true)) => d,
					_ => return (Err((url, "JSON parse error*".into())), log),
				};
				let mut p: Vec<J> = prof.iter().map(|x| s(x)).collect();
				p.sort();
				return (Ok(obj(vec![("url", s(&url)), ("type", s(ty)), ("context", context), ("profile", J::Arr(p)), ("document", doc)])), log);
			}
			None => {
				let alt = ls.iter().find(|l| rels(l, "alternate") && l.get("type").and_then(|x| x.as_str()) == Some("application/ld+json"));
				match alt {
					Some(l) => {
						url = href(l);
						links += 1;
					}
					None => return (Err((url, "invalid content type".into())), log),
				}
			}
		}
	}
}

fn judge_http(c: &J, o: &mut Obs) -> V {
	let w = web();
	let n = COUNTER.fetch_add(1, Ordering::Relaxed) + 1;
	let mut site = Site::default();
	if let Some(J::Obj(m)) = c.get("pages") {
		for (k, p) in m {
			if ![200, 201, 204, 301, 302, 307, 308, 404, 500].contains(&num(p.get("status"))) {
				return V::Skip("not a page");
			}
			let mut h = format!("HTTP/1.1 {} X\r\n", num(p.get("status")));
			if let Some(l) = p.get("location").and_then(|x| x.as_str()) {
				h.push_str(&format!("Location: /{n}{l}\r\n"));
			}
			for t in p.get("ct").map(|x| x.to_arr()).unwrap_or_default() {
				match CT.get(num(Some(&t)) as usize) {
					Some(t) => h.push_str(&format!("Content-Type: {}\r\n", t.0)),
					None => return V::Skip("not a page"),
				}
			}
			let ls: Vec<String> = p
				.get("links")
				.map(|x| x.to_arr())
				.unwrap_or_default()
				.into_iter()
				.map(|mut l| {
					if let Some(J::Str(x)) = l.get("href") {
						if x.starts_with('/') {
							let y = format!("/{n}{x}");
							l.set("href", s(&y));
						}
					}
					link_text(&l)
				})
				.collect();
			if p.get("joined") == Some(&J::Bool(true)) && !ls.is_empty() {
				h.push_str(&format!("Link: {}\r\n", ls.join(", ")));
			} else {
				for l in ls {
					h.push_str(&format!("Link: {l}\r\n"));
				}
			}
			let mut body = p.get("body").and_then(|x| x.as_str()).unwrap_or("").as_bytes().to_vec();
			if p.get("raw") == Some(&J::Bool(true)) {
				body = b"\"\xff\xfe\"".to_vec();
			}
			if num(p.get("status")) == 204 {
				body.clear();
			}
			site.pages.insert(k.clone(), (h, body));
		}
	}
	let base = format!("http://127.0.0.1:{}/{n}", w.port);
	let mut m = c.clone();
	// Absolute paths of the site are below its number.
	if let Some(J::Obj(ps)) = m.get_mut("pages") {
		for (_, p) in ps.iter_mut() {
			if let Some(J::Arr(ls)) = p.get_mut("links") {
				for l in ls {
					if let Some(J::Str(x)) = l.get("href") {
						if x.starts_with('/') {
							let y = format!("/{n}{x}");
							l.set("href", s(&y));
						}
					}
				}
			}
		}
	}
	let (want, log) = http_model(&m, &base);
	if matches!(&want, Err(e) if e.1 == "leaves the site") {
		return V::Skip("leaves the site");
	}
	if matches!(&want, Err(e) if e.1 == "fragment") {
		return V::Skip("fragment of a redirected URL");
	}
	w.sites.lock().unwrap().insert(n, site);
	let profiles: Vec<json_ld::Profile> = c.get("profile").map(|x| x.to_arr()).unwrap_or_default().iter().filter_map(|p| Some(json_ld::Profile::new(Iri::new(p.as_str()?).ok()?))).collect();
	let accept = match profiles.len() {
		0 => "application/ld+json, application/json".to_string(),
		_ => format!("application/ld+json; profile=\"{}\", application/json", profiles.iter().map(|p| p.iri().to_string()).collect::<Vec<_>>().join(" ")),
	};
	let l = ReqwestLoader::new_using(json_ld::loader::reqwest::Options {
		request_profile: profiles,
		max_redirections: num(c.get("max")) as usize,
		client: reqwest_middleware::ClientBuilder::new(w.client.clone()).build(),
	});
	let url = drv::iri(&format!("{base}{}", c.get("url").and_then(|x| x.as_str()).unwrap_or("/")));
	let r = w.runtime.block_on(l.load(&url));
	let got = outcome(r);
	let site = w.sites.lock().unwrap().remove(&n).unwrap();
	let same = match (&got, &want) {
		(Ok(a), Ok(b)) => a == b,
		(Err((t, a)), Err((u, b))) => t == u && (b.strip_suffix('*').map_or(a == b, |p| a.starts_with(p))),
		_ => false,
	};
	if !same {
		return fail("loaded page differs", format!("library {}\nexpected {}\nrequests {:?}", show(&got), show(&want), site.log));
	}
	let paths: Vec<String> = site.log.iter().map(|x| x.0.clone()).collect();
	if paths != log {
		return fail("requests differ", format!("library {paths:?}\nexpected {log:?}"));
	}
	if let Some(x) = site.log.iter().find(|x| x.1 != accept) {
		return fail("accept header", format!("library {:?}\nexpected {accept:?}", x.1));
	}
	match &want {
		Ok(_) => o.hit("loaded"),
		Err(e) => o.hit(&e.1),
	}
	o.add("requests", log.len() as u64);
	o.seen(&c.text());
	V::Pass
}

// --- documents expanded by reference

fn remote_case(mut r: Rng) -> J {
	let mut c = doc_case(r.fork());
	let mut g = crate::gen::Gen::new(r.fork(), None);
	let dirs = ["http://e.org/doc", "http://other.org/x/y/", "http://ctx.org/"];
	let mut docs: Vec<(String, J)> = docs_of(&c).into_iter().collect();
	let u = format!("{}main", r.ps(&dirs));
	c.set("at", s(&u));
	let mut put = |r: &mut Rng, name: &str| {
		let u = format!("{}{name}", r.ps(&dirs));
		let mut x = match r.below(8) {
			0 => s(&r.ps(&["rel", "../rel", "http://ctx.org/rel"])),
			1 => J::Arr(vec![s("rel"), g.context(1)]),
			_ => g.context(0),
		};
		if let (J::Obj(m), true) = (&mut x, r.pc(20)) {
			m.push(("@base".into(), s("http://base.org/b/")))
		}
		docs.push((u.clone(), match r.below(25) {
			0 => J::Arr(vec![]),
			1 => J::new_obj(),
			_ => obj(vec![("@context", x)]),
		}));
		u
	};
	if r.pc(40) {
		let u = put(&mut r, "linked");
		c.set("link", s(&u));
	}
	if r.pc(40) {
		let u = put(&mut r, "option");
		c.set("expand", s(&u));
	}
	for d in dirs {
		let rel = model::iri::resolve(d, "rel");
		docs.push((rel, obj(vec![("@context", obj(vec![("p1", s("http://rel.org/p1")), ("@vocab", s(&format!("http://v.rel.org/{}", d.len())))]))])));
	}
	docs.extend(g.docs.iter().map(|(a, b)| (a.clone(), b.clone())));
	c.set("docs", J::Obj(docs.into_iter().collect::<BTreeMap<_, _>>().into_iter().collect()));
	c
}

struct WithLink<'a>(&'a drv::Rec, String, Option<IriBuf>);
impl Loader for WithLink<'_> {
	async fn load(&self, url: &Iri) -> LoadingResult<IriBuf> {
		let mut d = self.0.load(url).await?;
		if url.as_str() == self.1 {
			d.context_url = self.2.clone();
		}
		Ok(d)
	}
}

fn judge_remote(c: &J, o: &mut Obs) -> V {
	let st = |k: &str| c.get(k).and_then(|x| x.as_str()).map(|x| x.to_string());
	let at = match st("at") {
		Some(a) if IriBuf::new(a.clone()).is_ok() => a,
		_ => return V::Skip("not a URL"),
	};
	let (link, ec) = (st("link"), st("expand"));
	let mut docs = docs_of(c);
	docs.insert(at.clone(), doc_of(c));
	let op = drv::Opts { url: Some(at.clone()), ..Default::default() };
	let env = drv::env(&docs, &op);
	let ctx: Vec<J> = ec.iter().map(|x| s(x)).chain(link.iter().map(|x| s(x))).collect();
	let ctx = J::Arr(ctx);
	let mopt = model::expand::Opt { base: Some(&at), expand_context: Some(&ctx) };
	let want = model::expand::expand(&env, &doc_of(c), &mopt);
	let rec = drv::Rec::new(&docs);
	let l = WithLink(&rec, at.clone(), link.as_deref().map(drv::iri));
	let options = json_ld::Options {
		expand_context: ec.as_deref().map(|u| json_ld::RemoteContextReference::Iri(drv::iri(u))),
		..Default::default()
	};
	let got: Out<J> = drv::guard(|| match drv::block(RemoteDocumentReference::iri(drv::iri(&at)).expand_using(&l, options)) {
		Ok(d) => Out::Ok(drv::doc_json(&d)),
		Err(e) => Out::Err(e.code().to_string(), e.to_string()),
	});
	let loads: BTreeSet<String> = rec.loads().into_iter().collect();
	let mut wanted: BTreeSet<String> = env.loads.borrow().iter().cloned().collect();
	wanted.insert(at.clone());
	if let (Some(u), Out::Ok(x), None) = (&ec, &got, &link) {
		// The same context to compact.
		let has_base = docs.iter().any(|(k, d)| *k != at && d.text().contains("\"@base\""));
		let l = drv::Rec::new(&docs);
		let got: Out<J> = drv::guard(|| match drv::block(RemoteDocument::new(Some(drv::iri(&at)), None, x.to_js()).compact(json_ld::RemoteContextReference::Iri(drv::iri(u)), &l)) {
			Ok(d) => Out::Ok(J::from_js(&d)),
			Err(e) => Out::Err(e.code().to_string(), e.to_string()),
		});
		let env = drv::env(&docs, &op);
		let again = match model::expand::expand(&env, x, &model::expand::Opt { base: Some(&at), expand_context: None }) {
			Ok(x) => x,
			Err(_) => return V::Skip("expanded document rejected"),
		};
		let want = model::compact::compact(&env, &again, &s(u), model::compact::Opt { base: None, doc_url: Some(&at), compact_arrays: true, compact_to_relative: true });
		let strip = |mut j: J| {
			j.remove("@context");
			j.sorted()
		};
		match (got, want) {
			_ if has_base || x.len() == 0 || x.text().contains(":[]") || ambiguous(x) => (),
			(_, Err(e)) if e.0.starts_with("model:") => (),
			(Out::Ok(a), Ok(b)) => {
				if strip(a.clone()) != strip(b.clone()) {
					return fail("document compacted by reference differs", format!("library {}\nmodel {}", a.text(), b.text()));
				}
				o.hit("compacted");
			}
			(Out::Err(..), Err(_)) => (),
			(a, b) => return fail("document compacted by reference differs", format!("library {}\nmodel {:?}", a.text(), b.map(|x| x.text()))),
		}
	}
	match (&got, &want) {
		(Out::Panic(p), _) => return fail("panic", p.clone()),
		(_, Err(e)) if e.0.starts_with("model:") => return V::Skip("undecided by the recommendation"),
		(Out::Ok(a), Ok(b)) => {
			if crate::norm::expanded(a) != crate::norm::expanded(b) {
				return fail("document expanded by reference differs", format!("library {}\nmodel {}", a.text(), b.text()));
			}
			if loads != wanted {
				return fail("documents requested", format!("library {loads:?}\nmodel {wanted:?}"));
			}
			o.hit("expanded");
			if link.is_some() {
				o.hit("linked context");
			}
			if ec.is_some() {
				o.hit("option context");
			}
			o.add("requests", loads.len() as u64);
			o.seen(&a.text());
		}
		(Out::Err(..), Err(_)) => o.hit("refused"),
		(a, b) => {
			let b = match b {
				Ok(x) => x.text(),
				Err(e) => format!("{e:?}"),
			};
			return fail("document expanded by reference differs", format!("library {}\nmodel {b}", a.text()));
		}
	}
	V::Pass
}

fn extract_case(mut r: Rng) -> J {
	let mut g = crate::gen::Gen::new(r.fork(), None);
	let x = g.context(0);
	obj(vec![(
		"value",
		match r.below(8) {
			0 => r.pick(&[J::Null, s("x"), J::Arr(vec![]), J::Bool(true), J::Num("1".into())]).clone(),
			1 => J::new_obj(),
			2 => J::Obj(vec![("@context".into(), x.clone()), ("@context".into(), x)]),
			3 => obj(vec![("@context", J::Num("3".into()))]),
			4 => obj(vec![("context", x)]),
			_ => J::Obj(vec![("a".into(), J::Null), ("@context".into(), x), ("@id".into(), s("urn:x"))]),
		},
	)])
}

fn judge_extract(c: &J, o: &mut Obs) -> V {
	use json_ld::syntax::{IntoJson, TryFromJson};
	let v = match c.get("value") {
		Some(v) => v.clone(),
		None => return V::Skip("no value"),
	};
	let direct = match &v {
		J::Obj(m) => {
			let n: Vec<&J> = m.iter().filter(|x| x.0 == "@context").map(|x| &x.1).collect();
			match n.len() {
				0 => Err("missing `@context` entry".to_string()),
				1 => json_ld::syntax::Context::try_from_json(n[0].to_js()).map(|c| J::from_js(&c.into_json())).map_err(|e| format!("JSON-LD context syntax error: {e}")),
				_ => Err("duplicate `@context` entry".to_string()),
			}
		}
		o => Err(format!("unexpected {}", o.to_js().kind())),
	};
	let url = drv::iri("http://a.org/c");
	let mut map: HashMap<IriBuf, RemoteDocument> = HashMap::new();
	map.insert(url.clone(), RemoteDocument::new(Some(url.clone()), None, v.to_js()));
	let got = [
		v.to_js().into_ld_context().map(|c| J::from_js(&c.into_json())).map_err(|e| e.to_string()),
		drv::block(json_ld::RemoteContextReference::Iri(url.clone()).load_context_with(&mut (), &map)).map(|d| J::from_js(&d.into_document().into_json())).map_err(|e| match e {
			json_ld::ContextLoadError::ContextExtractionFailed(e) => e.to_string(),
			e => format!("{e}"),
		}),
		drv::block(json_ld::RemoteContextReference::Iri(url.clone()).loaded_context_with(&mut (), &map)).map(|d| J::from_js(&d.into_owned().into_document().into_json())).map_err(|e| match e {
			json_ld::ContextLoadError::ContextExtractionFailed(e) => e.to_string(),
			e => format!("{e}"),
		}),
	];
	for g in got {
		if g != direct {
			return fail("extracted context", format!("library {g:?}\nexpected {direct:?}"));
		}
	}
	o.hit(if direct.is_ok() { "extracted" } else { "refused" });
	o.seen(&v.text());
	V::Pass
}

pub fn c13() -> Prop {
	Prop {
		id: "C13",
		level: "exploration",
		rule: "Loaders in memory, chains, files of a scratch directory and pages of a scripted loopback web server are loaded; the document, its URL, type, profile and linked context, the errors, and the requests the server saw are compared with what the documentation and RFC 8288 define. Documents expanded by reference are compared with the model, with the requests made.",
		assumptions: &["The HTTP client follows redirections itself, up to ten."],
		mons: vec![
			Mon { name: "memory", gen: map_case, judge: judge_map, fixed: none, quick: 40000, threads: 0 },
			Mon { name: "files", gen: file_case, judge: judge_file, fixed: none, quick: 10000, threads: 0 },
			Mon { name: "http", gen: http_case, judge: judge_http, fixed: none, quick: 8000, threads: 0 },
			Mon { name: "remote", gen: remote_case, judge: judge_remote, fixed: none, quick: 60000, threads: 0 },
			Mon { name: "extract", gen: extract_case, judge: judge_extract, fixed: none, quick: 20000, threads: 0 },
		],
	}
}

#[allow(dead_code)]
fn _p(_: &Path) {}
