//! C14: no undefined behaviour. The monitors of other properties are run by an interpreter (Miri)
//! and with instrumented code (AddressSanitizer); the values built without validation are judged here.
use crate::json::{n, obj, s, J};
use crate::rng::Rng;
use crate::run::*;
use json_ld::syntax::{CompactIri, CompactIriBuf, LangTag, LenientLangTag, LenientLangTagBuf};
use std::hash::{Hash, Hasher};
use std::io::Read;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

fn hash<T: Hash + ?Sized>(t: &T) -> u64 {
	let mut h = std::collections::hash_map::DefaultHasher::new();
	t.hash(&mut h);
	h.finish()
}

fn text(r: &mut Rng) -> String {
	let parts = ["en", "EN", "de-AT", "x-y", "-", "", ":", "::", "_", "_:", "//", "a", "A", "é", "\u{0}", "𝄞", " ", "ex", "p", "#", "?", "%", "%41", "urn", "@none", "i-klingon", "zh-Hant-TW", "\u{130}", "ß", "."];
	(0..r.range(0, 5)).map(|_| *r.pick(&parts)).collect()
}

fn gen_values(mut r: Rng) -> J {
	let a = text(&mut r);
	let b = match r.below(4) {
		0 => a.to_ascii_uppercase(),
		1 => a.to_uppercase(),
		_ => text(&mut r),
	};
	obj(vec![("a", s(&a)), ("b", s(&b))])
}

fn judge_values(c: &J, o: &mut Obs) -> V {
	let st = |k: &str| c.get(k).and_then(|x| x.as_str()).unwrap_or("").to_string();
	let (a, b) = (st("a"), st("b"));
	for x in [&a, &b] {
		let (t, e) = LenientLangTag::new(x);
		let (u, f) = LenientLangTagBuf::new(x.clone());
		let ok = LangTag::new(x.as_str()).is_ok();
		if t.as_str() != x || t.as_bytes() != x.as_bytes() || u.as_str() != x || u.clone().into_string() != *x || t.to_string() != *x {
			return fail("a language tag changes", format!("{x:?} {t:?} {u:?}"));
		}
		if e.is_none() != ok || f.is_none() != ok || t.is_well_formed() != ok || u.clone().into_well_formed().is_ok() != ok || t.as_well_formed().is_some() != ok {
			return fail("well-formedness of a language tag", format!("{x:?}"));
		}
		if t.to_owned() != u || u.as_lenient_lang_tag_ref() != t || hash(&u) != hash(t) {
			return fail("owned and borrowed language tags", format!("{x:?}"));
		}
		o.hit(if ok { "well-formed tags" } else { "other tags" });
		let k = x.find(':');
		let valid = k.map_or(false, |k| &x[..k] != "_" && !x[k + 1..].starts_with("//")) && iref::IriRef::new(x.as_str()).is_ok();
		match (CompactIri::new(x), CompactIriBuf::new(x.clone())) {
			(Ok(p), Ok(q)) if valid => {
				let k = k.unwrap();
				if p.as_str() != x || p.prefix() != &x[..k] || p.suffix() != &x[k + 1..] || p.as_iri_ref().as_str() != x || q.as_compact_iri() != p || p.to_owned() != q || q.clone().into_iri_ref().as_str() != x || q.into_string() != *x {
					return fail("a compact IRI changes", format!("{x:?}"));
				}
				o.hit("compact IRIs")
			}
			(Err(p), Err(q)) if !valid => {
				if p.0 != x || q.0 != *x {
					return fail("a rejected compact IRI changes", format!("{x:?}"));
				}
			}
			_ => return fail("validity of a compact IRI", format!("{x:?} valid: {valid}")),
		}
	}
	let ((t, _), (u, _)) = (LenientLangTag::new(&a), LenientLangTag::new(&b));
	let same = a.eq_ignore_ascii_case(&b);
	if (t == u) != same || (t.cmp(u) == std::cmp::Ordering::Equal) != same || t.cmp(u) != u.cmp(t).reverse() || (same && hash(t) != hash(u)) {
		return fail("comparison of language tags", format!("{a:?} {b:?}"));
	}
	if same && a != b {
		o.hit("tags equal but for the case");
	}
	o.seen(&(a, b));
	V::Pass
}

// --- other workloads, watched from outside

/// Monitor, and cases per run under the interpreter.
const WORK: [(&str, i64); 23] = [
	("C14:values", 40),
	("C16:hostile", 2),
	("C21:multiset", 8),
	("C21:small", 4),
	("C21:node", 1),
	("C05:compact", 4),
	("C01:expand", 2),
	("C23:serialize", 1),
	("C09:from-rdf", 1),
	("C08:rdf", 1),
	("C12:equality", 2),
	("C02:export", 3),
	("C07:labels", 1),
	("C10:form", 2),
	("C10:mutant", 2),
	("C15:names", 2),
	("C15:compare", 30),
	("C21:map", 2),
	("C23:tree", 1),
	("C13:extract", 8),
	("C20:policy", 1),
	("C06:flatten", 1),
	("C11:threads", 1),
];

fn gen_miri(mut r: Rng) -> J {
	let (m, k) = *r.pick(&WORK);
	obj(vec![("mon", s(m)), ("from", n(r.below(1_000_000) as i64)), ("n", n(k))])
}

fn gen_asan(mut r: Rng) -> J {
	let (m, k) = *r.pick(&WORK);
	obj(vec![("mon", s(m)), ("from", n(r.below(1_000_000) as i64)), ("n", n(if m == "C11:threads" { 8 } else if m == "C23:tree" { 60 } else { 400 + 20 * k }))])
}

enum End {
	Done(Option<i32>, String, String),
	Late,
	NotRun(String),
}

fn run(mut c: Command, limit: Duration) -> End {
	let mut p = match c.stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn() {
		Ok(p) => p,
		Err(e) => return End::NotRun(e.to_string()),
	};
	let (mut so, mut se) = (p.stdout.take().unwrap(), p.stderr.take().unwrap());
	let rd = std::thread::spawn(move || {
		let mut b = vec![];
		let _ = so.read_to_end(&mut b);
		b
	});
	let re = std::thread::spawn(move || {
		let mut b = vec![];
		let _ = se.read_to_end(&mut b);
		b
	});
	let t0 = Instant::now();
	let st = loop {
		match p.try_wait() {
			Ok(Some(st)) => break Some(st),
			Ok(None) if t0.elapsed() > limit => {
				// The whole group: cargo starts the interpreter.
				let _ = Command::new("kill").args(["-9", "--", &format!("-{}", p.id())]).status();
				let _ = p.kill();
				let _ = p.wait();
				break None;
			}
			Ok(None) => std::thread::sleep(Duration::from_millis(20)),
			Err(e) => return End::NotRun(e.to_string()),
		}
	};
	let text = |b: std::thread::Result<Vec<u8>>| String::from_utf8_lossy(&b.unwrap_or_default()).into_owned();
	let (a, b) = (text(rd.join()), text(re.join()));
	match st {
		Some(st) => End::Done(st.code(), a, b),
		None => End::Late,
	}
}

fn home() -> String {
	std::env::var("LDMON_HOME").unwrap_or_else(|_| ".".into())
}

fn mini_args(c: &J) -> Option<Vec<String>> {
	let num = |k: &str| match c.get(k) {
		Some(J::Num(x)) => x.parse::<u64>().ok(),
		_ => None,
	};
	let m = c.get("mon")?.as_str()?;
	if !WORK.iter().any(|w| w.0 == m) {
		return None;
	}
	Some(vec!["mini".into(), m.into(), args().seed.to_string(), num("from")?.to_string(), num("n")?.to_string()])
}

/// Judges how the process ended.
fn ended(e: End, c: &J, what: &str, o: &mut Obs) -> V {
	let m = c.get("mon").and_then(|x| x.as_str()).unwrap_or("");
	match e {
		End::NotRun(e) => fail(&format!("{what} does not run"), e),
		End::Late => V::Skip("too slow, stopped"),
		End::Done(code, out, err) => {
			if code == Some(0) {
				let Some(l) = out.lines().find_map(|l| l.strip_prefix("done ")) else { return fail(&format!("{what} does not run"), format!("{out}\n{err}")) };
				let k: u64 = l.split(' ').next().and_then(|x| x.parse().ok()).unwrap_or(0);
				o.add(&format!("{what}: cases of {m}"), k);
				let skip: u64 = l.split(' ').nth(4).and_then(|x| x.parse().ok()).unwrap_or(0);
				o.add(&format!("{what}: cases decided"), k - skip.min(k));
				for l in out.lines().filter_map(|l| l.strip_prefix("counter ")) {
					if let Some((v, k)) = l.split_once(' ') {
						o.add(&format!("{what}: {m}: {k}"), v.parse().unwrap_or(0))
					}
				}
				o.seen(&c.text());
				return V::Pass;
			}
			let last = err.lines().rev().find(|l| l.starts_with("case ")).unwrap_or("").to_string();
			let at = err.find("Undefined Behavior").or(err.find("AddressSanitizer")).or(err.find("error: abnormal")).or(err.find("error:"));
			let report: String = err[at.map_or(0, |i| err[..i].rfind('\n').map_or(0, |x| x + 1))..].lines().take(40).collect::<Vec<_>>().join("\n");
			if err.contains("unsupported operation") || err.contains("resource exhaustion") {
				return V::Skip("not supported by the interpreter");
			}
			fail(if err.contains("Undefined Behavior") { "undefined behaviour" } else if err.contains("AddressSanitizer") { "memory error" } else { "abnormal end" }, format!("{what} {m} {last}, status {code:?}\n{report}"))
		}
	}
}

fn judge_miri(c: &J, o: &mut Obs) -> V {
	let Some(a) = mini_args(c) else { return V::Skip("not a workload") };
	let mut k = Command::new("cargo");
	k.args(["+nightly", "miri", "run", "--offline", "--locked", "-q", "--"]).args(a);
	k.current_dir(format!("{}/harness", home()));
	k.env("CARGO_TARGET_DIR", format!("{}/target/miri", home())).env("XDG_CACHE_HOME", format!("{}/target/cache", home())).env("MIRIFLAGS", "-Zmiri-disable-isolation -Zmiri-ignore-leaks");
	std::os::unix::process::CommandExt::process_group(&mut k, 0);
	ended(run(k, Duration::from_secs(100)), c, "miri", o)
}

fn judge_asan(c: &J, o: &mut Obs) -> V {
	let Some(a) = mini_args(c) else { return V::Skip("not a workload") };
	let mut k = Command::new(format!("{}/target/asan/x86_64-unknown-linux-gnu/debug/ldmon", home()));
	k.args(a).env("ASAN_OPTIONS", "detect_leaks=0:detect_stack_use_after_return=1:symbolize=0");
	std::os::unix::process::CommandExt::process_group(&mut k, 0);
	ended(run(k, Duration::from_secs(100)), c, "asan", o)
}

pub fn c14() -> Prop {
	Prop {
		id: "C14",
		level: "exploration",
		rule: "the interpreter and the sanitizer report nothing while the workloads of the other properties run; values built without validation are valid and read back as they are",
		assumptions: &["dependencies are watched as far as the workloads reach them", "leaks are not reported"],
		mons: vec![
			Mon { name: "values", gen: gen_values, judge: judge_values, fixed: none, quick: 200_000, threads: 0 },
			Mon { name: "asan", gen: gen_asan, judge: judge_asan, fixed: none, quick: 64, threads: 0 },
			Mon { name: "miri", gen: gen_miri, judge: judge_miri, fixed: || WORK.iter().map(|(m, k)| obj(vec![("mon", s(m)), ("from", n(0)), ("n", n(*k))])).collect(), quick: 40, threads: 0 },
		],
	}
}
