//! C19: the command line prints what the library computes.
use super::labels;
use super::load::{self, Scratch, Site};
use super::util::*;
use crate::drv::{self, Action, Out};
use crate::gen::{Gen, Profile};
use crate::iso;
use crate::json::{s, J};
use crate::norm;
use crate::rng::Rng;
use crate::run::*;
use std::collections::BTreeMap;
use std::io::Write;
use std::process::{Command, Stdio};
use std::sync::atomic::Ordering;

/// Stands for the site of the case.
const HOST: &str = "http://ctx.org/";

fn gen_cli(mut r: Rng) -> J {
	let mut p = Profile::random(&mut r);
	if r.pc(70) {
		p.odd = 0;
	}
	p.bnodes |= r.pc(50);
	let mut g = Gen::new(r.fork(), Some(p));
	let d = g.document();
	let mut c = case_of(&g, d);
	if r.pc(20) {
		// Decides what the policies are about.
		let mut d = doc_of(&c);
		if let J::Obj(m) = &mut d {
			m.push((r.ps(&["undef", "http://ex.org/a b", "un def", "_:p"]), s("v")))
		}
		c.set("doc", d);
	}
	c.set("cmd", s(&r.ps(&["expand", "expand", "expand", "flatten", "flatten", "fetch"])));
	c.set("at", s(&r.ps(&["stdin", "file", "url", "url"])));
	if r.pc(12) {
		c.set("bad", s(&r.ps(&["syntax", "missing", "type"])))
	}
	if r.pc(60) {
		c.set("base", s(&r.ps(&["http://base.org/dir/sub/doc", "http://b.org", "urn:x:y"])))
	}
	let mut flags = vec![];
	for f in ["relabel", "canonicalize", "no-vocab", "no-undef", "short", "verbose"] {
		if r.pc(match f {
			"no-vocab" | "no-undef" => 12,
			_ => 35,
		}) {
			flags.push(s(f))
		}
	}
	c.set("flags", J::Arr(flags));
	c
}

fn binary() -> String {
	format!("{}/target/debug/ld-cli", std::env::var("LDMON_HOME").unwrap_or_else(|_| ".".into()))
}

/// Exit status, standard output, standard error.
fn run(args: &[String], input: Option<&str>) -> Result<(Option<i32>, String, String), String> {
	let mut c = Command::new(binary())
		.args(args)
		.env_clear()
		.env("NO_PROXY", "*")
		// Reading the certificates of the system is most of the work.
		.env("SSL_CERT_FILE", "/dev/null")
		.stdin(if input.is_some() { Stdio::piped() } else { Stdio::null() })
		.stdout(Stdio::piped())
		.stderr(Stdio::piped())
		.spawn()
		.map_err(|e| format!("cannot run {}: {e}", binary()))?;
	if let Some(t) = input {
		let mut i = c.stdin.take().unwrap();
		let t = t.to_string();
		std::thread::spawn(move || {
			let _ = i.write_all(t.as_bytes());
		});
	}
	let out = c.wait_with_output().map_err(|e| e.to_string())?;
	Ok((out.status.code(), String::from_utf8_lossy(&out.stdout).into_owned(), String::from_utf8_lossy(&out.stderr).into_owned()))
}

struct Unload(u64);
impl Drop for Unload {
	fn drop(&mut self) {
		if let Ok(mut s) = load::web().sites.lock() {
			s.remove(&self.0);
		}
	}
}

fn judge_cli(c: &J, o: &mut Obs) -> V {
	let w = load::web();
	let n = load::COUNTER.fetch_add(1, Ordering::Relaxed) + 1;
	let here = format!("http://127.0.0.1:{}/{n}/", w.port);
	let Some(c) = J::parse(&c.text().replace(HOST, &here)) else { return V::Skip("not a case") };
	if odd_blank(&c) {
		return V::Skip("malformed blank node identifier");
	}
	let st = |k: &str| c.get(k).and_then(|x| x.as_str()).unwrap_or("").to_string();
	let (cmd, at, bad) = (st("cmd"), st("at"), st("bad"));
	let flag = |f: &str| c.get("flags").map_or(false, |x| x.to_arr().contains(&s(f)));
	let (doc, mut docs) = (doc_of(&c), docs_of(&c));
	let url = format!("{here}d/main");
	let at = if cmd == "fetch" { "url".to_string() } else { at };
	docs.insert(url.clone(), doc.clone());

	// The site.
	let mut site = Site::default();
	for (u, d) in &docs {
		if let Some(p) = u.strip_prefix(&here) {
			let main = *u == url;
			if main && bad == "missing" {
				continue;
			}
			let ty = if main && bad == "type" { "text/plain" } else { "application/ld+json" };
			let body = if main && bad == "syntax" { "{\"a\":".to_string() } else { d.text() };
			site.pages.insert(format!("/{p}"), (format!("HTTP/1.1 200 X\r\nContent-Type: {ty}\r\n"), body.into_bytes()));
		}
	}
	w.sites.lock().unwrap().insert(n, site);
	let _unload = Unload(n);

	// The command.
	let short = flag("short");
	let mut args: Vec<String> = vec![];
	if flag("verbose") {
		args.push(if short { "-vv".into() } else { "--verbose".into() })
	}
	args.push(cmd.clone());
	let dir = Scratch::new();
	let text = if bad == "syntax" { "{\"a\":".to_string() } else { doc.text() };
	let mut input = None;
	match at.as_str() {
		"url" => args.push(url.clone()),
		"file" => {
			let p = dir.0.join("doc.jsonld");
			if bad != "missing" {
				std::fs::write(&p, &text).expect("scratch file");
			}
			args.push(p.display().to_string())
		}
		_ => input = Some(text.as_str()),
	}
	let base = st("base");
	if !base.is_empty() && cmd != "fetch" {
		args.push(if short { "-b".into() } else { "--base-url".into() });
		args.push(base.clone())
	}
	let (relabel, canonicalize) = (flag("relabel"), flag("canonicalize"));
	if cmd == "expand" {
		for f in ["relabel", "canonicalize", "no-vocab", "no-undef"] {
			if flag(f) {
				args.push(match (f, short) {
					("relabel", true) => "-l".into(),
					("canonicalize", true) => "-c".into(),
					_ => format!("--{f}"),
				})
			}
		}
	}

	// What the library does.
	let mut op = drv::Opts::default();
	op.url = match at.as_str() {
		"url" => Some(url.clone()),
		_ if base.is_empty() => None,
		_ => Some(base.clone()),
	};
	op.ordered = false;
	if cmd == "expand" {
		op.policy = drv::Policy { invalid: Action::Reject, vocab: if flag("no-vocab") { Action::Reject } else { Action::Keep }, allow_undefined: !flag("no-undef") };
	}
	let unreadable = match bad.as_str() {
		"syntax" => true,
		"missing" => at != "stdin",
		"type" => at == "url",
		_ => false,
	};
	let l = drv::Rec::new(&docs.into_iter().collect::<BTreeMap<_, _>>());
	let want = if unreadable {
		Out::Err(String::new(), "unreadable".into())
	} else if cmd == "fetch" {
		Out::Ok(doc.clone())
	} else {
		match drv::expand_doc(&doc, &l, &op) {
			Out::Ok(d) if cmd == "flatten" => drv::flatten_expanded(&d, false),
			Out::Ok(mut d) => {
				if relabel {
					d.identify_all(&mut rdf_types::generator::Blank::new_with_prefix("fresh".to_string()));
				}
				Out::Ok(drv::doc_json(&d))
			}
			Out::Err(a, b) => Out::Err(a, b),
			Out::Panic(p) => return fail("expansion panics", p),
		}
	};
	if l.loads().iter().any(|u| !u.starts_with(&here)) {
		return V::Skip("loads from elsewhere");
	}
	let (code, out, log) = match run(&args, input) {
		Ok(x) => x,
		Err(e) => return fail("the command does not run", e),
	};
	let shown = format!("{args:?}\nstatus {code:?}\nstdout {}\nstderr {}", out.trim(), log.trim());
	match want {
		Out::Ok(want) => {
			if code != Some(0) {
				return fail("the command fails", format!("{shown}\nlibrary {}", want.text()));
			}
			let Some(got) = J::parse(&out) else { return fail("the output is not JSON", shown) };
			let differs = |w: &J| fail("the output differs", format!("{shown}\nlibrary {}", w.text()));
			match cmd.as_str() {
				"fetch" => {
					if got != want {
						return differs(&want);
					}
				}
				"flatten" => match iso::docs(&got, &want) {
					Some(true) => (),
					Some(false) => return differs(&want),
					None => return V::Skip("isomorphism undecided"),
				},
				_ => {
					let want = if canonicalize { labels::canonical(&want) } else { want.clone() };
					if canonicalize && labels::texts(&got) != labels::texts(&want) {
						return differs(&want);
					}
					if relabel {
						match iso::docs(&got, &want) {
							Some(true) => (),
							Some(false) => return differs(&want),
							None => return V::Skip("isomorphism undecided"),
						}
						let odd = iso::labels(&got, iso::map_expanded).into_iter().find(|x| !x.strip_prefix("_:b").map_or(false, |k| k.bytes().all(|b| b.is_ascii_digit())));
						if let Some(x) = odd {
							return fail("a blank node is not relabelled", format!("{x}\n{shown}"));
						}
						o.hit("relabelled");
					} else if norm::expanded(&got) != norm::expanded(&want) {
						return differs(&want);
					}
					if canonicalize {
						o.hit("canonicalized");
					}
				}
			}
			o.hit(&format!("{cmd} from {at}"));
			if got.len() > 0 {
				o.seen(&want.sorted().text().replace(&here, HOST));
			}
		}
		Out::Err(..) => {
			if code != Some(1) {
				return fail("no error status", shown);
			}
			if !out.is_empty() {
				return fail("output in spite of an error", shown);
			}
			if !log.lines().any(|l| l.strip_prefix("error: ").map_or(false, |m| !m.trim().is_empty())) {
				return fail("no error message", shown);
			}
			o.hit(&format!("{cmd} from {at} fails"));
			if unreadable {
				o.hit(&format!("unreadable {bad}"));
			}
		}
		Out::Panic(p) => return fail("the library panics", p),
	}
	let asked = w.sites.lock().unwrap().get(&n).map_or(0, |s| s.log.len());
	o.add("requests", asked as u64);
	V::Pass
}

pub fn c19() -> Prop {
	Prop {
		id: "C19",
		level: "exploration",
		rule: "the command prints the document the library computes with the options its flags stand for, or an error with status 1",
		assumptions: &[],
		mons: vec![Mon { name: "command", gen: gen_cli, judge: judge_cli, fixed: none, quick: 6_000, threads: 0 }],
	}
}

