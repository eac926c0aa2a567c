//! RFC 3986 reference resolution and relativisation, on strings.

pub struct P<'a> {
	pub scheme: Option<&'a str>,
	pub auth: Option<&'a str>,
	pub path: &'a str,
	pub query: Option<&'a str>,
	pub frag: Option<&'a str>,
}

pub fn parse(mut v: &str) -> P<'_> {
	let mut frag = None;
	if let Some(i) = v.find('#') {
		frag = Some(&v[i + 1..]);
		v = &v[..i];
	}
	let mut query = None;
	if let Some(i) = v.find('?') {
		query = Some(&v[i + 1..]);
		v = &v[..i];
	}
	let mut scheme = None;
	if let Some(i) = v.find(':') {
		let sc = &v[..i];
		let mut ch = sc.chars();
		if ch.next().map_or(false, |c| c.is_ascii_alphabetic())
			&& ch.all(|c| c.is_ascii_alphanumeric() || c == '+' || c == '-' || c == '.')
		{
			scheme = Some(sc);
			v = &v[i + 1..];
		}
	}
	let mut auth = None;
	if let Some(r) = v.strip_prefix("//") {
		let e = r.find('/').unwrap_or(r.len());
		auth = Some(&r[..e]);
		v = &r[e..];
	}
	P { scheme, auth, path: v, query, frag }
}

pub fn unparse(p: &P, path: &str) -> String {
	let mut o = String::new();
	if let Some(x) = p.scheme {
		o += x;
		o.push(':')
	}
	if let Some(x) = p.auth {
		o += "//";
		o += x
	}
	o += path;
	if let Some(x) = p.query {
		o.push('?');
		o += x
	}
	if let Some(x) = p.frag {
		o.push('#');
		o += x
	}
	o
}

pub fn remove_dots(path: &str) -> String {
	let mut inp = path.to_string();
	let mut out = String::new();
	while !inp.is_empty() {
		if inp.starts_with("../") {
			inp.drain(..3);
		} else if inp.starts_with("./") {
			inp.drain(..2);
		} else if inp.starts_with("/./") {
			inp.drain(..2);
		} else if inp == "/." {
			inp = "/".into();
		} else if inp.starts_with("/../") || inp == "/.." {
			if inp == "/.." {
				inp = "/".into()
			} else {
				inp.drain(..3);
			}
			match out.rfind('/') {
				Some(i) => out.truncate(i),
				None => out.clear(),
			}
		} else if inp == "." || inp == ".." {
			inp.clear()
		} else {
			let st = if inp.starts_with('/') { 1 } else { 0 };
			let e = inp[st..].find('/').map(|i| i + st).unwrap_or(inp.len());
			out += &inp[..e];
			inp.drain(..e);
		}
	}
	out
}

/// RFC 3986 section 5.2.2 (strict).
pub fn resolve(base: &str, r: &str) -> String {
	let b = parse(base);
	let r = parse(r);
	if r.scheme.is_some() {
		let p = remove_dots(r.path);
		return unparse(&r, &p);
	}
	if r.auth.is_some() {
		let p = remove_dots(r.path);
		return unparse(&P { scheme: b.scheme, ..r }, &p);
	}
	let mut t = P { scheme: b.scheme, auth: b.auth, path: "", query: r.query, frag: r.frag };
	let path;
	if r.path.is_empty() {
		path = b.path.to_string();
		if r.query.is_none() {
			t.query = b.query
		}
	} else if r.path.starts_with('/') {
		path = remove_dots(r.path)
	} else {
		let m = if b.auth.is_some() && b.path.is_empty() {
			format!("/{}", r.path)
		} else {
			match b.path.rfind('/') {
				Some(i) => format!("{}{}", &b.path[..i + 1], r.path),
				None => r.path.to_string(),
			}
		};
		path = remove_dots(&m)
	}
	unparse(&t, &path)
}

pub fn is_iri(v: &str) -> bool {
	iref::Iri::new(v).is_ok()
}

pub fn is_iri_ref(v: &str) -> bool {
	iref::IriRef::new(v).is_ok()
}
