//! C20: expansion policies only drop or forbid.
use super::util::*;
use crate::drv::{self, Action, Out};
use crate::json::{obj, s, J};
use crate::model::{self, expand::Act};
use crate::norm;
use crate::rng::Rng;
use crate::run::*;

/// Adds entries and types that the policies are about.
fn spice(r: &mut Rng, j: &mut J, ctx: bool) {
	match j {
		J::Arr(a) => a.iter_mut().for_each(|x| spice(r, x, ctx)),
		J::Obj(m) => {
			for (k, v) in m.iter_mut() {
				if ctx || k == "@context" || v.has("@json") {
					continue;
				}
				spice(r, v, false)
			}
			if r.pc(16) {
				let k = *r.pick(&["undef", "http://ex.org/a b", "un def", "und:e f", "T9", "@undef", "_:p", "http://ex.org/{x}"]);
				if !m.iter().any(|(x, _)| x == k) {
					m.push((k.into(), s("v")))
				}
			}
			if r.pc(10) && !m.iter().any(|(x, _)| x == "@type" || x == "@value") {
				let t: Vec<J> = (0..r.range(1, 3)).map(|_| s(*r.pick(&["undef", "http://ex.org/a b", "T1", "_:t", "http://ex.org/T", "a b"]))).collect();
				m.push(("@type".into(), J::Arr(t)))
			}
		}
		_ => (),
	}
}

fn gen_policy(mut r: Rng) -> J {
	let mut c = doc_case(r.fork());
	let mut d = doc_of(&c);
	if r.pc(66) {
		spice(&mut r, &mut d, false);
		c.set("doc", d);
	}
	let mut op = obj(vec![]);
	if r.pc(10) {
		op.set("url", J::Null)
	}
	let act = |r: &mut Rng| s(*r.pick(&["keep", "keep", "drop", "reject"]));
	let mut p = vec![act(&mut r), act(&mut r), J::Bool(r.pc(66))];
	if r.pc(50) {
		// One choice at a time.
		let k = r.below(3);
		for (i, x) in p.iter_mut().enumerate() {
			if i != k {
				*x = if i == 2 { J::Bool(true) } else { s("keep") }
			}
		}
	}
	op.set("policy", J::Arr(p));
	c.set("opts", op);
	c
}

fn act(a: Action) -> Act {
	match a {
		Action::Keep => Act::Keep,
		Action::Drop => Act::Drop,
		Action::Reject => Act::Reject,
	}
}

/// Properties and types of an expanded document that are neither IRIs nor blank node identifiers.
fn invalid_terms(j: &J, out: &mut Vec<String>) {
	let mut bad = |x: &str, out: &mut Vec<String>| {
		if !x.starts_with('@') && rdf_types::BlankId::new(x).is_err() && !model::iri::is_iri(x) {
			out.push(x.into())
		}
	};
	match j {
		J::Arr(a) => a.iter().for_each(|x| invalid_terms(x, out)),
		J::Obj(m) if !j.has("@value") => {
			for (k, v) in m {
				bad(k, out);
				if k == "@type" {
					v.to_arr().iter().filter_map(|x| x.as_str()).for_each(|x| bad(x, out))
				} else {
					invalid_terms(v, out)
				}
			}
		}
		_ => (),
	}
}

fn judge_policy(c: &J, o: &mut Obs) -> V {
	if odd_blank(c) {
		return V::Skip("malformed blank node identifier");
	}
	let (doc, docs, op) = (doc_of(c), docs_of(c), opts_of(c));
	let standard = drv::Opts { policy: Default::default(), ..op.clone() };
	let std = drv::expand(&doc, &drv::Rec::new(&docs), &standard);
	let real = drv::expand(&doc, &drv::Rec::new(&docs), &op);
	let base = base_of(&op);
	let p = model::expand::Policy { invalid: act(op.policy.invalid), vocab: act(op.policy.vocab), no_undefined: !op.policy.allow_undefined, ..Default::default() };
	let run = |p: model::expand::Policy| {
		let mut env = drv::env(&docs, &op);
		env.quirks = model::Quirks::all();
		model::expand::with_policy(p, || model::expand::expand(&env, &doc, &model::expand::Opt { base: base.as_deref(), expand_context: op.expand_context.as_ref() }))
	};
	let (m, met) = run(p.clone());
	if matches!(&m, Err(e) if e.0.starts_with("model:")) {
		return V::Skip("undecided by the recommendation");
	}
	let drops = p.invalid == Act::Drop || p.vocab == Act::Drop;
	match (&std, &real) {
		(_, Out::Panic(p)) => return fail("expansion panics", p.clone()),
		(Out::Ok(a), Out::Ok(b)) if !drops => {
			if a.sorted() != b.sorted() {
				return fail("a policy changes the expanded document", format!("standard {}\npolicy   {}", a.text(), b.text()));
			}
		}
		(Out::Err(code, _), Out::Ok(b)) if !drops => return fail("a policy makes a document valid", format!("standard error {code}\npolicy   {}", b.text())),
		_ => (),
	}
	if let (Out::Ok(b), Act::Drop | Act::Reject) = (&real, p.invalid) {
		let mut t = vec![];
		invalid_terms(b, &mut t);
		if !t.is_empty() {
			return fail("invalid terms in spite of the policy", format!("{t:?}\n{}", b.text()));
		}
		o.hit("no invalid term")
	}
	for (n, k) in [("invalid", met.met_invalid), ("vocab", met.met_vocab), ("undefined", met.met_undefined)] {
		if k > 0 {
			o.hit(&format!("{n} met"));
		}
	}
	match (&real, &m) {
		(Out::Ok(a), Ok(b)) => {
			let (x, y) = (norm::expanded(a), norm::expanded(b));
			if x != y {
				return fail("expansion with a policy differs", format!("real  {}\nmodel {}", x.text(), y.text()));
			}
			if drops && met.met_invalid + met.met_vocab > 0 {
				o.hit("something dropped");
			}
			o.hit("expanded");
			if x.len() > 0 {
				o.seen(&x);
			}
			V::Pass
		}
		(Out::Err(..), Err(e)) => {
			o.hit(if e.0 == "policy" { "forbidden" } else { "rejected" });
			o.seen(&doc);
			V::Pass
		}
		(Out::Ok(a), Err(e)) => fail(&format!("accepted: {}", e.0), format!("real  {}\nmet {met:?}", a.text())),
		(Out::Err(code, msg), Ok(b)) => fail(&format!("rejected: {code}"), format!("real error {code}: {msg}\nmodel {}\nmet {met:?}", b.text())),
		_ => unreachable!(),
	}
}

pub fn c20() -> Prop {
	Prop {
		id: "C20",
		level: "exploration",
		rule: "a policy without drops gives the standard expansion or an error, exactly when the model meets what it forbids; a policy with drops gives what the model gives without them",
		assumptions: &[],
		mons: vec![Mon { name: "policy", gen: gen_policy, judge: judge_policy, fixed: none, quick: 200_000, threads: 0 }],
	}
}
