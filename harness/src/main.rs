#![allow(dead_code)]
mod checks;
mod drv;
mod gen;
mod iso;
mod json;
mod model;
mod norm;
mod rng;
mod run;

fn main() {
	drv::install_panic_hook();
	let h = std::thread::Builder::new().stack_size(256 << 20).spawn(real_main).unwrap();
	let c = h.join().unwrap_or(2);
	std::process::exit(c);
}

fn real_main() -> i32 {
	let a: Vec<String> = std::env::args().collect();
	let arg = |i: usize| a.get(i).map(|s| s.as_str()).unwrap_or("");
	let props = checks::props();
	let find = |id: &str| props.iter().find(|p| p.id == id);
	match arg(1) {
		"list" => {
			for p in &props {
				println!("{}", p.id)
			}
			0
		}
		"check" => match find(arg(2)) {
			Some(p) => run::supervise(p),
			None => 2,
		},
		"work" => match find(arg(2)) {
			Some(p) => run::work(p, std::path::Path::new(arg(3))),
			None => 2,
		},
		"mini" => run::mini(&props, arg(2), arg(3).parse().unwrap_or(1), arg(4).parse().unwrap_or(0), arg(5).parse().unwrap_or(10)),
		"show" => {
			let c = json::J::parse(&std::fs::read_to_string(arg(2)).unwrap()).unwrap();
			let c = c.get("case").cloned().unwrap_or(c);
			let (doc, docs, op) = (checks::util::doc_of(&c), checks::util::docs_of(&c), checks::util::opts_of(&c));
			let l = drv::Rec::new(&docs);
			println!("expand  {}", drv::expand(&doc, &l, &op).map(|x| format!("{x:?}")).text());
			println!("flatten {}", drv::flatten(&doc, None, &l, &op).map(|x| format!("{x:?}")).text());
			println!("rdf     {}", drv::to_rdf(&doc, &l, &op).map(|x| format!("{x:?}")).text());
			if let Some(x) = c.get("context") {
				println!("compact {}", drv::compact(&doc, x, &l, &op).map(|x| x.text()).text());
				if let drv::Out::Ok(e) = drv::expand(&doc, &l, &op) {
					println!("expand  {}", e.text());
					let m = model::compact::compact(&drv::env(&docs, &op), &e, x, model::compact::Opt { base: op.base.as_deref(), doc_url: op.url.as_deref(), compact_arrays: op.compact_arrays, compact_to_relative: op.compact_to_relative });
					println!("model   {}", m.map_or_else(|e| format!("{e:?}"), |x| x.text()));
				}
			}
			0
		}
		"replay" => run::replay(std::path::Path::new(arg(2)), &props),
		_ => {
			eprintln!("usage: ldmon check ID | replay FILE | list");
			2
		}
	}
}
