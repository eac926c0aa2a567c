//! Runner: executes the monitors of a property over generated cases, watched by
//! a parent process; records what was observed; shrinks and saves failures.
use crate::json::J;
use crate::rng::Rng;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub enum V {
	Pass,
	/// The case is outside of what the monitor decides.
	Skip(&'static str),
	/// Class of the violation (stable under shrinking) and description.
	Fail(String, String),
}

pub fn fail(class: &str, detail: String) -> V {
	V::Fail(class.to_string(), detail)
}

/// What the monitors observed.
#[derive(Default)]
pub struct Obs {
	pub evals: u64,
	pub skips: BTreeMap<&'static str, u64>,
	pub counters: BTreeMap<String, u64>,
	pub distinct: HashSet<u64>,
	pub samples: Vec<String>,
}

impl Obs {
	pub fn hit(&mut self, k: &str) {
		self.add(k, 1)
	}
	pub fn add(&mut self, k: &str, n: u64) {
		*self.counters.entry(k.to_string()).or_insert(0) += n
	}
	/// Counts a non-trivial execution, identified by what was observed.
	pub fn seen<T: Hash>(&mut self, t: &T) {
		let mut h = std::collections::hash_map::DefaultHasher::new();
		t.hash(&mut h);
		self.distinct.insert(h.finish());
	}
	fn merge(&mut self, o: Obs) {
		self.evals += o.evals;
		for (k, v) in o.skips {
			*self.skips.entry(k).or_insert(0) += v
		}
		for (k, v) in o.counters {
			*self.counters.entry(k).or_insert(0) += v
		}
		self.distinct.extend(o.distinct);
		for s in o.samples {
			if self.samples.len() < 6 {
				self.samples.push(s)
			}
		}
	}
}

#[derive(Clone, Copy)]
pub struct Mon {
	pub name: &'static str,
	/// Makes a case out of a random stream.
	pub gen: fn(Rng) -> J,
	/// Runs the code on the case and judges what was observed.
	pub judge: fn(&J, &mut Obs) -> V,
	/// Fixed cases, run before the generated ones.
	pub fixed: fn() -> Vec<J>,
	pub quick: u64,
	/// Number of worker threads (0: all).
	pub threads: usize,
}

pub fn none() -> Vec<J> {
	vec![]
}

pub struct Prop {
	pub id: &'static str,
	pub level: &'static str,
	pub rule: &'static str,
	pub assumptions: &'static [&'static str],
	pub mons: Vec<Mon>,
}

fn case_seed(seed: u64, name: &str, i: u64) -> u64 {
	let mut h = 0xcbf29ce484222325u64;
	for b in name.bytes() {
		h = (h ^ b as u64).wrapping_mul(0x100000001b3);
	}
	Rng::new(h ^ seed.wrapping_mul(0x9E3779B97F4A7C15)).next() ^ i.wrapping_mul(0xD1B54A32D192ED03)
}

pub fn case(m: &Mon, seed: u64, i: u64) -> J {
	let f = (m.fixed)();
	if (i as usize) < f.len() {
		f[i as usize].clone()
	} else {
		(m.gen)(Rng::new(case_seed(seed, m.name, i)))
	}
}

fn judge(m: &Mon, c: &J, o: &mut Obs) -> V {
	match crate::drv::guard(|| crate::drv::Out::Ok((m.judge)(c, o))) {
		crate::drv::Out::Ok(v) => v,
		crate::drv::Out::Panic(p) => {
			let class = p.rsplit(" at ").next().unwrap_or("").to_string();
			let class: String = class.chars().filter(|c| !c.is_ascii_digit()).collect();
			V::Fail(format!("panic {class}"), format!("panic: {p}"))
		}
		_ => V::Pass,
	}
}

/// Removes parts of the case as long as it keeps failing in the same way.
fn shrink(m: &Mon, c: &J, class: &str, limit: Duration) -> J {
	let t0 = Instant::now();
	let mut best = c.clone();
	let still = |x: &J| matches!(judge(m, x, &mut Obs::default()), V::Fail(c, _) if c == class);
	loop {
		let mut improved = false;
		for cand in reductions(&best) {
			if t0.elapsed() > limit {
				return best;
			}
			if cand.size() < best.size() || cand.text().len() < best.text().len() {
				if still(&cand) {
					best = cand;
					improved = true;
					break;
				}
			}
		}
		if !improved {
			return best;
		}
	}
}

fn reductions(j: &J) -> Vec<J> {
	let mut out = vec![];
	match j {
		J::Arr(a) => {
			for i in 0..a.len() {
				let mut b = a.clone();
				b.remove(i);
				out.push(J::Arr(b));
			}
			if a.len() == 1 {
				out.push(a[0].clone());
			}
			for i in 0..a.len() {
				for r in reductions(&a[i]) {
					let mut b = a.clone();
					b[i] = r;
					out.push(J::Arr(b));
				}
			}
		}
		J::Obj(m) => {
			for i in 0..m.len() {
				let mut b = m.clone();
				b.remove(i);
				out.push(J::Obj(b));
			}
			for i in 0..m.len() {
				for r in reductions(&m[i].1) {
					let mut b = m.clone();
					b[i].1 = r;
					out.push(J::Obj(b));
				}
			}
		}
		J::Str(s) if s.len() > 1 => out.push(J::Str("x".into())),
		_ => (),
	}
	out
}

fn verif() -> PathBuf {
	PathBuf::from(std::env::var("LDMON_HOME").unwrap_or_else(|_| "/verif".into()))
}

pub struct Args {
	pub seed: u64,
	pub thorough: bool,
}

pub fn args() -> Args {
	Args {
		seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1),
		thorough: std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough"),
	}
}

/// Known findings: {"property","monitor","case","class","what"} per line. Lines
/// starting with "fixed:" suppress nothing.
pub fn known(prop: &str) -> Vec<J> {
	let t = std::fs::read_to_string(verif().join("known-findings.jsonl")).unwrap_or_default();
	t.lines()
		.filter(|l| l.trim_start().starts_with('{'))
		.filter_map(J::parse)
		.filter(|j| j.get("property").and_then(|p| p.as_str()) == Some(prop))
		.collect()
}

fn save_replay(p: &str, m: &str, c: &J, class: &str, detail: &str) -> PathBuf {
	let dir = verif().join("evidence").join("replay");
	let _ = std::fs::create_dir_all(&dir);
	let f = dir.join(format!("{p}-{m}.json"));
	let j = crate::json::obj(vec![
		("property", crate::json::s(p)),
		("monitor", crate::json::s(m)),
		("case", c.clone()),
		("class", crate::json::s(class)),
		("detail", crate::json::s(detail)),
	]);
	let _ = std::fs::write(&f, j.text());
	f
}

const SLOT: u64 = 64;

/// Runs the property in this process (a child of `supervise`).
pub fn work(p: &Prop, slots: &Path) -> i32 {
	let a = args();
	let t0 = Instant::now();
	let only = std::env::var("LDMON_MON").ok();
	let mult: u64 = std::env::var("LDMON_MULT").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
	let max_fails: usize = std::env::var("LDMON_MAX").ok().and_then(|s| s.parse().ok()).unwrap_or(40);
	let soft = Duration::from_secs(std::env::var("LDMON_SECS").ok().and_then(|s| s.parse().ok()).unwrap_or(if a.thorough { 900 } else { 240 }));
	let mut total = Obs::default();
	let mut per_mon = vec![];
	let mut idle = vec![];
	let mut failed: Option<(Mon, J, String, String)> = None;
	let slot_file = std::fs::OpenOptions::new().create(true).write(true).truncate(true).open(slots).expect("slots");
	let mons: Vec<&Mon> = p.mons.iter().filter(|m| only.as_ref().map_or(true, |o| o == m.name)).collect();
	for (mi, m) in mons.iter().enumerate() {
		let share = soft.saturating_sub(t0.elapsed()) / (mons.len() - mi) as u32;
		let deadline = Instant::now() + share;
		let count = if a.thorough { u64::MAX } else { m.quick * mult };
		let next = AtomicU64::new(0);
		let stop = AtomicBool::new(false);
		let fails: Mutex<Vec<(u64, J, String, String)>> = Mutex::new(vec![]);
		let obs: Mutex<Obs> = Mutex::new(Obs::default());
		let nth = if m.threads == 0 { std::thread::available_parallelism().map_or(4, |n| n.get()).min(16) } else { m.threads };
		std::thread::scope(|sc| {
			for th in 0..nth {
				let (next, stop, fails, obs, slot_file) = (&next, &stop, &fails, &obs, &slot_file);
				let seed = a.seed;
				let body = move || {
					let mut o = Obs::default();
					loop {
						let i = next.fetch_add(1, Ordering::Relaxed);
						if i >= count || stop.load(Ordering::Relaxed) || Instant::now() > deadline {
							break;
						}
						let mut rec = format!("{} {} ", m.name, i).into_bytes();
						rec.resize(SLOT as usize, b' ');
						rec[SLOT as usize - 1] = b'\n';
						let _ = slot_file.write_at(&rec, th as u64 * SLOT);
						let c = case(m, seed, i);
						o.evals += 1;
						if o.samples.is_empty() && i % 37 == 5 {
							let t = c.text();
							o.samples.push(format!("{} #{i}: {}", m.name, t.chars().take(600).collect::<String>()));
						}
						match judge(m, &c, &mut o) {
							V::Pass => (),
							V::Skip(w) => *o.skips.entry(w).or_insert(0) += 1,
							V::Fail(cl, d) => {
								let mut f = fails.lock().unwrap();
								f.push((i, c, cl, d));
								if f.len() >= max_fails {
									stop.store(true, Ordering::Relaxed);
								}
							}
						}
					}
					let idle = vec![b' '; SLOT as usize];
					let _ = slot_file.write_at(&idle, th as u64 * SLOT);
					obs.lock().unwrap().merge(o);
				};
				std::thread::Builder::new().stack_size(128 << 20).spawn_scoped(sc, body).expect("thread");
			}
		});
		let o = obs.into_inner().unwrap();
		if o.distinct.is_empty() {
			idle.push(m.name);
		}
		let mut fs = fails.into_inner().unwrap();
		per_mon.push(format!("{{\"monitor\":{},\"evaluations\":{},\"distinct\":{}}}", crate::json::s(m.name).text(), o.evals, o.distinct.len()));
		// Listed findings found again by the random exploration are not alarms,
		// but only if the very same case was listed.
		let ks = known(p.id);
		fs.retain(|(_, c, _, _)| !ks.iter().any(|k| k.get("monitor").and_then(|x| x.as_str()) == Some(m.name) && k.get("case") == Some(c)));
		total.merge(o);
		if std::env::var("LDMON_ALL").is_ok() {
			fs.sort_by_key(|f| f.1.text().len());
			let mut seen: BTreeMap<String, u64> = BTreeMap::new();
			for f in &fs {
				*seen.entry(f.2.clone()).or_insert(0) += 1;
			}
			println!("{}: {} failures {:?}", m.name, fs.len(), seen);
			let mut k = 0;
			let mut done = HashSet::new();
			let mut classes = HashSet::new();
			for f in &fs {
				if std::env::var("LDMON_CLASS").is_ok() && !classes.insert(f.2.clone()) {
					continue;
				}
				let sh = shrink(m, &f.1, &f.2, Duration::from_secs(20));
				if !done.insert(sh.sorted().text()) {
					continue;
				}
				if let V::Fail(c, d) = judge(m, &sh, &mut Obs::default()) {
					println!("--- #{} {c}\n case {}\n{d}\n", f.0, sh.text());
				}
				k += 1;
				if k >= 8 && std::env::var("LDMON_CLASS").is_err() {
					break;
				}
			}
		}
		fs.sort_by_key(|f| f.1.text().len());
		if let Some((_, c, cl, d)) = fs.into_iter().next() {
			failed = Some((**m, c, cl, d));
			break;
		}
	}
	// Listed findings: they are checked again, one by one.
	let mut known_lines = vec![];
	for k in known(p.id) {
		let (mn, c) = (k.get("monitor").and_then(|x| x.as_str()).unwrap_or(""), k.get("case").cloned().unwrap_or(J::Null));
		let what = k.get("what").and_then(|x| x.as_str()).unwrap_or("").to_string();
		if let Some(m) = crate::checks::probes().into_iter().chain(p.mons.iter().copied()).find(|m| m.name == mn) {
			if let V::Fail(..) = judge(&m, &c, &mut total) {
				known_lines.push(what);
			}
			total.evals += 1;
		}
	}
	for k in &known_lines {
		println!("KNOWN-FINDING: property={} {}", p.id, k);
	}
	let code = if let Some((m, c, cl, d)) = failed {
		let small = shrink(&m, &c, &cl, Duration::from_secs(30));
		let d = match judge(&m, &small, &mut Obs::default()) {
			V::Fail(_, d) => d,
			_ => d,
		};
		let f = save_replay(p.id, m.name, &small, &cl, &d);
		println!("monitor {} failed: {cl}\n{d}", m.name);
		println!("VIOLATION property={} replay={}", p.id, f.display());
		evidence(p, &a, &total, &per_mon, t0, 1, &known_lines);
		1
	} else if !idle.is_empty() && only.is_none() {
		// Nothing was decided: no verdict.
		println!("property {}: nothing observed by {}", p.id, idle.join(", "));
		evidence(p, &a, &total, &per_mon, t0, 0, &known_lines);
		3
	} else {
		evidence(p, &a, &total, &per_mon, t0, 0, &known_lines);
		println!("property {} held on {} executions ({} distinct non-trivial)", p.id, total.evals, total.distinct.len());
		0
	};
	let _ = std::io::stdout().flush();
	code
}

fn evidence(p: &Prop, a: &Args, o: &Obs, per_mon: &[String], t0: Instant, violations: u64, known: &[String]) {
	use crate::json::s;
	let counters: Vec<String> = o.counters.iter().map(|(k, v)| format!("{}:{v}", s(k).text())).collect();
	let skips: Vec<String> = o.skips.iter().map(|(k, v)| format!("{}:{v}", s(k).text())).collect();
	let samples: Vec<String> = o.samples.iter().map(|x| s(x).text()).collect();
	let assumptions: Vec<String> = p.assumptions.iter().map(|x| s(x).text()).collect();
	let known: Vec<String> = known.iter().map(|x| s(x).text()).collect();
	let t = format!(
		"{{\n \"property\":\"{}\",\n \"tier\":\"{}\",\n \"seed\":{},\n \"level\":\"{}\",\n \"coverage\":{{\n  \"evaluations\":{},\n  \"distinct_nontrivial\":{},\n  \"rule\":{},\n  \"samples\":[{}],\n  \"monitors\":[{}],\n  \"observed\":{{{}}},\n  \"undecided\":{{{}}}\n }},\n \"assumptions\":[{}],\n \"known_findings\":[{}],\n \"wall_s\":{:.1},\n \"violations\":{}\n}}\n",
		p.id,
		if a.thorough { "thorough" } else { "quick" },
		a.seed,
		p.level,
		o.evals,
		o.distinct.len(),
		s(p.rule).text(),
		samples.join(","),
		per_mon.join(","),
		counters.join(","),
		skips.join(","),
		assumptions.join(","),
		known.join(","),
		t0.elapsed().as_secs_f64(),
		violations
	);
	let dir = verif().join("evidence");
	let _ = std::fs::create_dir_all(&dir);
	let _ = std::fs::write(dir.join(format!("{}.json", p.id)), t);
}

/// Runs `work` in a child process; an abnormal end (abort, stack overflow) or a
/// hang of the code under test is a violation.
pub fn supervise(p: &Prop) -> i32 {
	let exe = std::env::current_exe().expect("exe");
	let slots = std::env::temp_dir().join(format!("ldmon-{}-{}", p.id, std::process::id()));
	let t0 = Instant::now();
	let a = args();
	let mut ch = std::process::Command::new(&exe)
		.args(["work", p.id])
		.arg(&slots)
		.stderr(std::process::Stdio::null())
		.spawn()
		.expect("spawn");
	let mut last: Vec<(Vec<u8>, Instant)> = vec![];
	let mut hung = false;
	let status = loop {
		if let Some(s) = ch.try_wait().expect("wait") {
			break Some(s);
		}
		std::thread::sleep(Duration::from_millis(50));
		// A slot that keeps the same case for too long is stuck.
		let cur = std::fs::read(&slots).unwrap_or_default();
		for (i, c) in cur.chunks(SLOT as usize).enumerate() {
			if i >= last.len() {
				last.push((c.to_vec(), Instant::now()));
			} else if last[i].0 != c {
				last[i] = (c.to_vec(), Instant::now());
			} else if last[i].1.elapsed() > Duration::from_secs(120) && !c.iter().all(|b| b.is_ascii_whitespace()) {
				hung = true;
			}
		}
		if hung {
			let _ = ch.kill();
			let _ = ch.wait();
			break None;
		}
	};
	let slot_text = std::fs::read_to_string(&slots).unwrap_or_default();
	let _ = std::fs::remove_file(&slots);
	if let Some(s) = status {
		if let Some(c) = s.code() {
			if c == 0 || c == 1 || c == 3 {
				return c;
			}
		}
	}
	// Find the guilty case among the ones that were running.
	let running: Vec<(String, u64)> = slot_text
		.lines()
		.filter_map(|l| {
			let mut w = l.split_whitespace();
			Some((w.next()?.to_string(), w.next()?.parse().ok()?))
		})
		.collect();
	for (mn, i) in &running {
		if let Some(m) = p.mons.iter().find(|m| m.name == mn) {
			let c = case(m, a.seed, *i);
			let f = save_replay(p.id, m.name, &c, "abort", "the process running this case died or did not answer");
			let mut ch = std::process::Command::new(&exe).arg("replay").arg(&f).stderr(std::process::Stdio::null()).stdout(std::process::Stdio::null()).spawn().expect("spawn");
			let t = Instant::now();
			let bad = loop {
				match ch.try_wait().expect("wait") {
					Some(s) => break !matches!(s.code(), Some(0)),
					None if t.elapsed() > Duration::from_secs(60) => {
						let _ = ch.kill();
						let _ = ch.wait();
						break true;
					}
					None => std::thread::sleep(Duration::from_millis(20)),
				}
			};
			if bad {
				println!("monitor {} case #{i}: the process died or did not answer", m.name);
				println!("VIOLATION property={} replay={}", p.id, f.display());
				evidence(p, &a, &Obs { evals: 1, ..Default::default() }, &[], t0, 1, &[]);
				return 1;
			}
			let _ = std::fs::remove_file(&f);
		}
	}
	if hung {
		eprintln!("no progress, and no single case reproduces it");
	}
	// Not reproducible on its own: resources, not the code under test.
	eprintln!("worker ended abnormally: {status:?}");
	2
}

pub fn replay(f: &Path, props: &[Prop]) -> i32 {
	let j = J::parse(&std::fs::read_to_string(f).expect("replay file")).expect("replay json");
	let g = |k: &str| j.get(k).and_then(|x| x.as_str()).unwrap_or("").to_string();
	let p = props.iter().find(|p| p.id == g("property")).expect("property");
	let mn = g("monitor");
	let m = p.mons.iter().copied().chain(crate::checks::probes()).find(|m| m.name == mn).expect("monitor");
	match judge(&m, j.get("case").unwrap_or(&J::Null), &mut Obs::default()) {
		V::Pass => {
			println!("pass");
			0
		}
		V::Skip(w) => {
			println!("undecided: {w}");
			0
		}
		V::Fail(c, d) => {
			println!("{c}\n{d}\nVIOLATION property={} replay={}", p.id, f.display());
			1
		}
	}
}

/// Runs cases of a monitor in this thread only, for the interpreters and sanitizers which watch
/// the process from outside.
pub fn mini(props: &[Prop], what: &str, seed: u64, from: u64, n: u64) -> i32 {
	let (id, mon) = what.split_once(':').unwrap_or((what, ""));
	let Some(m) = props.iter().find(|p| p.id == id).and_then(|p| p.mons.iter().find(|m| m.name == mon)) else { return 2 };
	let mut o = Obs::default();
	let (mut pass, mut skip, mut bad) = (0, 0, 0);
	let t0 = Instant::now();
	for i in from..from + n {
		eprintln!("case {i}");
		let c = case(m, seed, i);
		match judge(m, &c, &mut o) {
			V::Pass => pass += 1,
			V::Skip(_) => skip += 1,
			V::Fail(..) => bad += 1,
		}
	}
	println!("time {:?}", t0.elapsed());
	println!("done {n} pass {pass} skip {skip} fail {bad} distinct {}", o.distinct.len());
	for (k, v) in &o.counters {
		println!("counter {v} {k}");
	}
	0
}
