//! A small JSON value type, independent of the code under test. Numbers are
//! kept lexically; object members keep their order.
use std::fmt;

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum J {
	Null,
	Bool(bool),
	Num(String),
	Str(String),
	Arr(Vec<J>),
	Obj(Vec<(String, J)>),
}

pub fn s(v: &str) -> J {
	J::Str(v.to_string())
}

pub fn n(v: i64) -> J {
	J::Num(v.to_string())
}

pub fn obj(v: Vec<(&str, J)>) -> J {
	J::Obj(v.into_iter().map(|(k, v)| (k.to_string(), v)).collect())
}

impl J {
	pub fn is_obj(&self) -> bool {
		matches!(self, J::Obj(_))
	}
	pub fn is_arr(&self) -> bool {
		matches!(self, J::Arr(_))
	}
	pub fn is_str(&self) -> bool {
		matches!(self, J::Str(_))
	}
	pub fn is_scalar(&self) -> bool {
		matches!(self, J::Bool(_) | J::Num(_) | J::Str(_))
	}
	pub fn as_str(&self) -> Option<&str> {
		match self {
			J::Str(s) => Some(s),
			_ => None,
		}
	}
	pub fn as_arr(&self) -> Option<&Vec<J>> {
		match self {
			J::Arr(s) => Some(s),
			_ => None,
		}
	}
	pub fn as_obj(&self) -> Option<&Vec<(String, J)>> {
		match self {
			J::Obj(s) => Some(s),
			_ => None,
		}
	}
	pub fn get(&self, k: &str) -> Option<&J> {
		match self {
			J::Obj(m) => m.iter().find(|(a, _)| a == k).map(|(_, v)| v),
			_ => None,
		}
	}
	pub fn get_mut(&mut self, k: &str) -> Option<&mut J> {
		match self {
			J::Obj(m) => m.iter_mut().find(|(a, _)| a == k).map(|(_, v)| v),
			_ => None,
		}
	}
	pub fn has(&self, k: &str) -> bool {
		self.get(k).is_some()
	}
	pub fn set(&mut self, k: &str, v: J) {
		if let J::Obj(m) = self {
			if let Some(e) = m.iter_mut().find(|(a, _)| a == k) {
				e.1 = v
			} else {
				m.push((k.to_string(), v))
			}
		} else {
			panic!("set on non-object")
		}
	}
	pub fn remove(&mut self, k: &str) -> Option<J> {
		if let J::Obj(m) = self {
			if let Some(i) = m.iter().position(|(a, _)| a == k) {
				return Some(m.remove(i).1);
			}
		}
		None
	}
	pub fn len(&self) -> usize {
		match self {
			J::Obj(m) => m.len(),
			J::Arr(a) => a.len(),
			_ => 0,
		}
	}
	pub fn new_obj() -> J {
		J::Obj(vec![])
	}
	/// Wraps in an array unless it is one.
	pub fn into_arr(self) -> Vec<J> {
		match self {
			J::Arr(a) => a,
			o => vec![o],
		}
	}
	pub fn to_arr(&self) -> Vec<J> {
		self.clone().into_arr()
	}
	pub fn size(&self) -> usize {
		match self {
			J::Arr(a) => 1 + a.iter().map(|x| x.size()).sum::<usize>(),
			J::Obj(m) => 1 + m.iter().map(|x| 1 + x.1.size()).sum::<usize>(),
			_ => 1,
		}
	}
	pub fn from_js(v: &json_syntax::Value) -> J {
		use json_syntax::Value as V;
		match v {
			V::Null => J::Null,
			V::Boolean(b) => J::Bool(*b),
			V::Number(n) => J::Num(n.as_str().to_string()),
			V::String(s) => J::Str(s.to_string()),
			V::Array(a) => J::Arr(a.iter().map(J::from_js).collect()),
			V::Object(o) => J::Obj(
				o.iter()
					.map(|e| (e.key.to_string(), J::from_js(&e.value)))
					.collect(),
			),
		}
	}
	pub fn to_js(&self) -> json_syntax::Value {
		use json_syntax::Value as V;
		match self {
			J::Null => V::Null,
			J::Bool(b) => V::Boolean(*b),
			J::Num(n) => V::Number(json_syntax::NumberBuf::new(n.as_bytes().iter().copied().collect()).expect("bad number in J")),
			J::Str(s) => V::String(s.as_str().into()),
			J::Arr(a) => V::Array(a.iter().map(J::to_js).collect()),
			J::Obj(m) => {
				let mut o = json_syntax::Object::new();
				for (k, v) in m {
					o.push(k.as_str().into(), v.to_js());
				}
				V::Object(o)
			}
		}
	}
	pub fn parse(t: &str) -> Option<J> {
		use json_syntax::Parse;
		json_syntax::Value::parse_str(t).ok().map(|v| J::from_js(&v.0))
	}
	fn write(&self, out: &mut String) {
		match self {
			J::Null => out.push_str("null"),
			J::Bool(b) => out.push_str(if *b { "true" } else { "false" }),
			J::Num(n) => out.push_str(n),
			J::Str(s) => wstr(s, out),
			J::Arr(a) => {
				out.push('[');
				for (i, x) in a.iter().enumerate() {
					if i > 0 {
						out.push(',')
					}
					x.write(out)
				}
				out.push(']')
			}
			J::Obj(m) => {
				out.push('{');
				for (i, (k, v)) in m.iter().enumerate() {
					if i > 0 {
						out.push(',')
					}
					wstr(k, out);
					out.push(':');
					v.write(out)
				}
				out.push('}')
			}
		}
	}
	pub fn text(&self) -> String {
		let mut o = String::new();
		self.write(&mut o);
		o
	}
	/// Canonical form: object members sorted by key, recursively.
	pub fn dedup(self) -> J {
		match self {
			J::Arr(mut a) => {
				a.dedup();
				J::Arr(a)
			}
			o => o,
		}
	}
	pub fn sorted(&self) -> J {
		match self {
			J::Arr(a) => J::Arr(a.iter().map(J::sorted).collect()),
			J::Obj(m) => {
				let mut v: Vec<_> = m.iter().map(|(k, v)| (k.clone(), v.sorted())).collect();
				v.sort();
				J::Obj(v)
			}
			o => o.clone(),
		}
	}
}

fn wstr(v: &str, out: &mut String) {
	out.push('"');
	for c in v.chars() {
		match c {
			'"' => out.push_str("\\\""),
			'\\' => out.push_str("\\\\"),
			'\n' => out.push_str("\\n"),
			'\r' => out.push_str("\\r"),
			'\t' => out.push_str("\\t"),
			c if (c as u32) < 0x20 => out.push_str(&format!("\\u{:04x}", c as u32)),
			c => out.push(c),
		}
	}
	out.push('"')
}

impl fmt::Display for J {
	fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
		f.write_str(&self.text())
	}
}

/// The value of a number is 1.1.
pub fn is_1_1(n: &str) -> bool {
	let (m, e) = match n.split_once(['e', 'E']) {
		Some((m, e)) => (m, e.parse::<i64>().unwrap_or(i64::MAX)),
		None => (n, 0),
	};
	if m.starts_with('-') {
		return false;
	}
	let (i, f) = m.split_once('.').unwrap_or((m, ""));
	let digits: String = format!("{i}{f}");
	let d = digits.trim_start_matches('0');
	let t = d.trim_end_matches('0');
	let exp = e.saturating_sub(f.len() as i64).saturating_add((d.len() - t.len()) as i64);
	t == "11" && exp == -1
}
