//! A small JSON value, writer and parser.
use std::fmt;
#[derive(Clone, Debug, PartialEq)]
pub enum J {
	Null,
	Bool(bool),
	Num(f64),
	Str(String),
	Arr(Vec<J>),
	Obj(Vec<(String, J)>),
}
impl J {
	pub fn n(v: u64) -> J {
		J::Num(v as f64)
	}
	pub fn s(v: impl ToString) -> J {
		J::Str(v.to_string())
	}
	pub fn obj(v: Vec<(&str, J)>) -> J {
		J::Obj(v.into_iter().map(|(k, v)| (k.to_string(), v)).collect())
	}
	pub fn get(&self, k: &str) -> Option<&J> {
		match self {
			J::Obj(o) => o.iter().find(|e| e.0 == k).map(|e| &e.1),
			_ => None,
		}
	}
	pub fn str(&self) -> Option<&str> {
		match self {
			J::Str(s) => Some(s),
			_ => None,
		}
	}
	pub fn num(&self) -> Option<f64> {
		match self {
			J::Num(n) => Some(*n),
			_ => None,
		}
	}
}
fn esc(s: &str, f: &mut fmt::Formatter<'_>) -> fmt::Result {
	write!(f, "\"")?;
	for c in s.chars() {
		match c {
			'"' => write!(f, "\\\"")?,
			'\\' => write!(f, "\\\\")?,
			'\n' => write!(f, "\\n")?,
			'\t' => write!(f, "\\t")?,
			c if (c as u32) < 32 => write!(f, "\\u{:04x}", c as u32)?,
			c => write!(f, "{c}")?,
		}
	}
	write!(f, "\"")
}
impl fmt::Display for J {
	fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
		match self {
			J::Null => write!(f, "null"),
			J::Bool(b) => write!(f, "{b}"),
			J::Num(n) if n.fract() == 0.0 && n.abs() < 1e15 => write!(f, "{}", *n as i64),
			J::Num(n) => write!(f, "{n:.3}"),
			J::Str(s) => esc(s, f),
			J::Arr(a) => {
				write!(f, "[")?;
				for (i, v) in a.iter().enumerate() {
					if i > 0 {
						write!(f, ", ")?
					}
					write!(f, "{v}")?
				}
				write!(f, "]")
			}
			J::Obj(o) => {
				write!(f, "{{")?;
				for (i, (k, v)) in o.iter().enumerate() {
					if i > 0 {
						write!(f, ", ")?
					}
					esc(k, f)?;
					write!(f, ": {v}")?
				}
				write!(f, "}}")
			}
		}
	}
}
pub fn parse(s: &str) -> Option<J> {
	let b: Vec<char> = s.chars().collect();
	let mut i = 0;
	val(&b, &mut i)
}
fn ws(b: &[char], i: &mut usize) {
	while *i < b.len() && b[*i].is_whitespace() {
		*i += 1
	}
}
fn val(b: &[char], i: &mut usize) -> Option<J> {
	ws(b, i);
	match *b.get(*i)? {
		'"' => {
			*i += 1;
			let mut s = String::new();
			loop {
				let c = *b.get(*i)?;
				*i += 1;
				match c {
					'"' => return Some(J::Str(s)),
					'\\' => {
						let e = *b.get(*i)?;
						*i += 1;
						match e {
							'n' => s.push('\n'),
							't' => s.push('\t'),
							'r' => s.push('\r'),
							'u' => {
								let h: String = b.get(*i..*i + 4)?.iter().collect();
								*i += 4;
								s.push(char::from_u32(u32::from_str_radix(&h, 16).ok()?)?)
							}
							c => s.push(c),
						}
					}
					c => s.push(c),
				}
			}
		}
		'[' => {
			*i += 1;
			let mut v = vec![];
			loop {
				ws(b, i);
				if *b.get(*i)? == ']' {
					*i += 1;
					return Some(J::Arr(v));
				}
				v.push(val(b, i)?);
				ws(b, i);
				if *b.get(*i)? == ',' {
					*i += 1
				}
			}
		}
		'{' => {
			*i += 1;
			let mut v = vec![];
			loop {
				ws(b, i);
				if *b.get(*i)? == '}' {
					*i += 1;
					return Some(J::Obj(v));
				}
				let J::Str(k) = val(b, i)? else { return None };
				ws(b, i);
				if *b.get(*i)? != ':' {
					return None;
				}
				*i += 1;
				v.push((k, val(b, i)?));
				ws(b, i);
				if *b.get(*i)? == ',' {
					*i += 1
				}
			}
		}
		't' => {
			*i += 4;
			Some(J::Bool(true))
		}
		'f' => {
			*i += 5;
			Some(J::Bool(false))
		}
		'n' => {
			*i += 4;
			Some(J::Null)
		}
		_ => {
			let st = *i;
			while *i < b.len() && (b[*i].is_ascii_digit() || "+-.eE".contains(b[*i])) {
				*i += 1
			}
			b[st..*i].iter().collect::<String>().parse().ok().map(J::Num)
		}
	}
}
