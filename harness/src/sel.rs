//! Selector AST, printer and the naive reference matcher (the CSS semantics oracle).
use crate::gen::*;
use crate::model::*;
use crate::rng::Rng;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Comb {
	Desc,
	Child,
	Next,
	NextAll,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum NthKind {
	Child,
	LastChild,
	OfType,
	LastOfType,
}
#[derive(Clone, Debug)]
pub enum Simple {
	All,
	Tag(String),
	Class(String),
	Id(String),
	Attr { name: String, op: Option<char>, val: String, text: String },
	Root,
	Empty,
	FirstChild,
	LastChild,
	OnlyChild,
	FirstOfType,
	LastOfType,
	OnlyOfType,
	Nth { kind: NthKind, a: i64, b: i64, text: String },
	Not(List),
	Has(List),
	Contains(String, String),
	Checked,
	Header,
	Input,
	Submit,
}
pub type Compound = Vec<Simple>;
#[derive(Clone, Debug)]
pub struct Complex {
	pub head: Option<Comb>,
	pub first: Compound,
	pub rest: Vec<(Comb, Compound)>,
}
#[derive(Clone, Debug)]
pub struct List(pub Vec<Complex>);

// ------------------------------------------------------------------ printing
pub fn esc_ident(s: &str) -> String {
	let mut o = String::new();
	for c in s.chars() {
		if c.is_ascii_alphanumeric() || c == '-' || c == '_' {
			o.push(c);
		} else {
			o.push('\\');
			o.push(c);
		}
	}
	o
}
/// the identifier grammar needs an ASCII letter or '_' first
pub fn ident_ok(s: &str) -> bool {
	s.chars().next().map_or(false, |c| c.is_ascii_alphabetic() || c == '_')
}
impl Simple {
	pub fn print(&self, o: &mut String) {
		use Simple::*;
		match self {
			All => o.push('*'),
			Tag(t) => o.push_str(t),
			Class(c) => {
				o.push('.');
				o.push_str(&esc_ident(c));
			}
			Id(c) => {
				o.push('#');
				o.push_str(&esc_ident(c));
			}
			Attr { text, .. } => o.push_str(text),
			Root => o.push_str(":root"),
			Empty => o.push_str(":empty"),
			FirstChild => o.push_str(":first-child"),
			LastChild => o.push_str(":last-child"),
			OnlyChild => o.push_str(":only-child"),
			FirstOfType => o.push_str(":first-of-type"),
			LastOfType => o.push_str(":last-of-type"),
			OnlyOfType => o.push_str(":only-of-type"),
			Nth { kind, text, .. } => {
				o.push_str(match kind {
					NthKind::Child => ":nth-child(",
					NthKind::LastChild => ":nth-last-child(",
					NthKind::OfType => ":nth-of-type(",
					NthKind::LastOfType => ":nth-last-of-type(",
				});
				o.push_str(text);
				o.push(')');
			}
			Not(l) => {
				o.push_str(":not(");
				o.push_str(&l.print());
				o.push(')');
			}
			Has(l) => {
				o.push_str(":has(");
				o.push_str(&l.print());
				o.push(')');
			}
			Contains(_, t) => {
				o.push_str(":contains(");
				o.push_str(t);
				o.push(')');
			}
			Checked => o.push_str(":checked"),
			Header => o.push_str(":header"),
			Input => o.push_str(":input"),
			Submit => o.push_str(":submit"),
		}
	}
}
fn comb_str(c: Comb) -> &'static str {
	match c {
		Comb::Desc => " ",
		Comb::Child => ">",
		Comb::Next => "+",
		Comb::NextAll => "~",
	}
}
impl Complex {
	pub fn print(&self, o: &mut String, style: usize) {
		let mut st = style;
		let mut comb = |o: &mut String, c: Comb| {
			st = st.wrapping_mul(31).wrapping_add(7);
			match c {
				Comb::Desc => o.push_str(["  ", " ", " ", "\t"][st % 4]),
				_ => {
					let (a, b) = [(" ", " "), ("", ""), (" ", " "), ("", " "), (" ", ""), ("  ", "  ")][st % 6];
					o.push_str(a);
					o.push_str(comb_str(c));
					o.push_str(b);
				}
			}
		};
		if let Some(h) = self.head {
			if h != Comb::Desc {
				o.push_str(comb_str(h));
				o.push(' ');
			}
		}
		for s in &self.first {
			s.print(o);
		}
		for (c, cp) in &self.rest {
			comb(o, *c);
			for s in cp {
				s.print(o);
			}
		}
	}
}
impl List {
	pub fn print(&self) -> String {
		let mut o = String::new();
		for (i, c) in self.0.iter().enumerate() {
			if i > 0 {
				o.push_str(if i % 2 == 1 { "," } else { " , " });
			}
			c.print(&mut o, i + c.rest.len() * 5 + c.first.len());
		}
		o
	}
	pub fn simples(&self, f: &mut dyn FnMut(&Simple)) {
		fn go(cp: &Compound, f: &mut dyn FnMut(&Simple)) {
			for s in cp {
				f(s);
				match s {
					Simple::Not(l) | Simple::Has(l) => l.simples(f),
					_ => {}
				}
			}
		}
		for c in &self.0 {
			go(&c.first, f);
			for (_, cp) in &c.rest {
				go(cp, f);
			}
		}
	}
}

// ------------------------------------------------------------------ reference semantics
/// is the 1-based position `pos` of the form a*k+b, k >= 0
pub fn nth_ok(a: i64, b: i64, pos: i64) -> bool {
	if a == 0 {
		return pos == b;
	}
	let d = pos - b;
	d % a == 0 && d / a >= 0
}
fn sibs(d: &Dom, i: Id) -> Option<Vec<Id>> {
	d.n[i].parent.map(|p| d.ekids(p))
}
fn same_type(d: &Dom, i: Id) -> Option<Vec<Id>> {
	let t = d.raw_tag(i);
	sibs(d, i).map(|v| v.into_iter().filter(|&x| d.raw_tag(x).eq_ignore_ascii_case(t)).collect())
}
pub fn attr_match(cur: Option<Option<&str>>, op: Option<char>, val: &str) -> bool {
	let op = match op {
		None => return cur.is_some(),
		Some(o) => o,
	};
	match cur {
		None => op == '!',
		Some(v) => {
			let v = v.unwrap_or("");
			let boolean = cur == Some(None);
			match op {
				'=' => v == val,
				'!' => v != val,
				'|' => v == val || (!boolean && v.starts_with(&format!("{}-", val))),
				'^' => !val.is_empty() && !boolean && v.starts_with(val),
				'$' => !val.is_empty() && !boolean && v.ends_with(val),
				'*' => !val.is_empty() && !boolean && v.contains(val),
				'~' => !val.is_empty() && v.split(|c: char| matches!(c, ' ' | '\t' | '\n' | '\r' | '\x0c')).any(|w| w == val),
				_ => unreachable!(),
			}
		}
	}
}
pub fn classes(d: &Dom, i: Id) -> Vec<String> {
	match d.attr(i, "class") {
		Some(Some(v)) => v
			.split(|c: char| matches!(c, ' ' | '\t' | '\n' | '\r' | '\x0c'))
			.filter(|s| !s.is_empty())
			.map(|s| s.to_string())
			.collect(),
		_ => vec![],
	}
}
pub fn m_simple(d: &Dom, i: Id, s: &Simple) -> bool {
	use Simple::*;
	match s {
		All => true,
		Tag(t) => d.tag(i) == t.to_ascii_lowercase(),
		Class(c) => classes(d, i).iter().any(|x| x == c),
		Id(c) => d.attr(i, "id") == Some(Some(c.as_str())),
		Attr { name, op, val, .. } => attr_match(d.attr(i, name), *op, val),
		Root => d.tag(i) == "html" && d.n[i].parent.map_or(false, |p| d.n[p].kind == Kind::Root),
		Empty => {
			d.content(i).map_or(true, |c| c.is_empty())
				&& d.n[i].kids.iter().all(|&k| matches!(d.n[k].kind, Kind::Comment(_)))
		}
		FirstChild => sibs(d, i).map_or(false, |v| v[0] == i),
		LastChild => sibs(d, i).map_or(false, |v| v[v.len() - 1] == i),
		OnlyChild => sibs(d, i).map_or(false, |v| v.len() == 1),
		FirstOfType => same_type(d, i).map_or(false, |v| v[0] == i),
		LastOfType => same_type(d, i).map_or(false, |v| v[v.len() - 1] == i),
		OnlyOfType => same_type(d, i).map_or(false, |v| v.len() == 1),
		Nth { kind, a, b, .. } => {
			let v = match kind {
				NthKind::Child | NthKind::LastChild => sibs(d, i),
				_ => same_type(d, i),
			};
			v.map_or(false, |v| {
				let p = v.iter().position(|&x| x == i).unwrap();
				let pos = match kind {
					NthKind::Child | NthKind::OfType => p + 1,
					_ => v.len() - p,
				};
				nth_ok(*a, *b, pos as i64)
			})
		}
		Not(l) => !m_list(d, i, l),
		Has(l) => d.desc_elems(i).iter().any(|&x| m_list(d, x, l)),
		Contains(t, _) => d.text(i).contains(t.as_str()),
		Checked => checked(d, i),
		Header => matches!(d.tag(i).as_str(), "h1" | "h2" | "h3" | "h4" | "h5" | "h6"),
		Input => matches!(d.tag(i).as_str(), "input" | "select" | "textarea" | "button"),
		Submit => {
			matches!(d.tag(i).as_str(), "input" | "button") && d.attr(i, "type") == Some(Some("submit"))
		}
	}
}
pub fn checked(d: &Dom, i: Id) -> bool {
	match d.tag(i).as_str() {
		"input" => match d.attr(i, "type") {
			Some(Some(t)) => {
				matches!(t.to_ascii_lowercase().as_str(), "checkbox" | "radio") && d.attr(i, "checked").is_some()
			}
			_ => false,
		},
		"option" => {
			if d.attr(i, "selected").is_some() {
				return true;
			}
			// the default option of a single select: first direct option, nothing selected inside
			match d.n[i].parent {
				Some(p) if d.tag(p) == "select" && d.attr(p, "multiple").is_none() => {
					let first = d.ekids(p).into_iter().find(|&x| d.tag(x) == "option");
					first == Some(i) && !select_options(d, p).iter().any(|&o| d.attr(o, "selected").is_some())
				}
				_ => false,
			}
		}
		_ => false,
	}
}
/// options of a select, at any depth, options nested in options excluded
pub fn select_options(d: &Dom, s: Id) -> Vec<Id> {
	let mut v = vec![];
	for k in d.ekids(s) {
		if d.tag(k) == "option" {
			v.push(k);
		} else {
			v.extend(select_options(d, k));
		}
	}
	v
}
pub fn m_compound(d: &Dom, i: Id, c: &Compound) -> bool {
	c.iter().all(|s| m_simple(d, i, s))
}
/// does `i` match the complex selector `c`, the head being related to `ctx` when given
pub fn m_complex(d: &Dom, i: Id, c: &Complex, ctx: Option<&[Id]>) -> bool {
	m_tail(d, i, c, c.rest.len(), ctx)
}
thread_local! {
	/// answers within one `r_find` over a big tree
	static MEMO: std::cell::RefCell<Option<std::collections::HashMap<(usize, Id, usize, bool), bool>>> = Default::default();
}
fn m_tail(d: &Dom, i: Id, c: &Complex, k: usize, ctx: Option<&[Id]>) -> bool {
	let key = (c as *const Complex as usize, i, k, ctx.is_some());
	if let Some(x) = MEMO.with(|m| m.borrow().as_ref().and_then(|m| m.get(&key).copied())) {
		return x;
	}
	let x = m_tail_new(d, i, c, k, ctx);
	MEMO.with(|m| {
		if let Some(m) = m.borrow_mut().as_mut() {
			m.insert(key, x);
		}
	});
	x
}
fn m_tail_new(d: &Dom, i: Id, c: &Complex, k: usize, ctx: Option<&[Id]>) -> bool {
	let cp = if k == 0 { &c.first } else { &c.rest[k - 1].1 };
	if !d.is_elem(i) || !m_compound(d, i, cp) {
		return false;
	}
	if k == 0 {
		return match ctx {
			None => true,
			Some(s) => head_ok(d, i, c.head.unwrap_or(Comb::Desc), s),
		};
	}
	match c.rest[k - 1].0 {
		Comb::Child => d.n[i].parent.map_or(false, |p| m_tail(d, p, c, k - 1, ctx)),
		Comb::Desc => d.ancestors(i).into_iter().any(|p| m_tail(d, p, c, k - 1, ctx)),
		Comb::Next => d.prev_el(i).map_or(false, |p| m_tail(d, p, c, k - 1, ctx)),
		Comb::NextAll => prevs(d, i).into_iter().any(|p| m_tail(d, p, c, k - 1, ctx)),
	}
}
fn prevs(d: &Dom, i: Id) -> Vec<Id> {
	let mut v = sibs(d, i).unwrap_or_default();
	v.truncate(v.iter().position(|&x| x == i).unwrap_or(0));
	v
}
fn head_ok(d: &Dom, i: Id, h: Comb, s: &[Id]) -> bool {
	match h {
		Comb::Desc => d.ancestors(i).iter().any(|p| s.contains(p)),
		Comb::Child => d.n[i].parent.map_or(false, |p| s.contains(&p)),
		Comb::Next => d.prev_el(i).map_or(false, |p| s.contains(&p)),
		Comb::NextAll => prevs(d, i).into_iter().any(|p| s.contains(&p)),
	}
}
pub fn m_list(d: &Dom, i: Id, l: &List) -> bool {
	l.0.iter().any(|c| m_complex(d, i, c, None))
}
/// reference `find`: all elements of the tree of `root` matching, in document order
pub fn r_find(d: &Dom, root: Id, ctx: &[Id], l: &List) -> Vec<Id> {
	let all = d.desc_elems(root);
	if all.len() > 100 {
		MEMO.with(|m| *m.borrow_mut() = Some(Default::default()));
	}
	let v = all.into_iter().filter(|&i| l.0.iter().any(|c| m_complex(d, i, c, Some(ctx)))).collect();
	MEMO.with(|m| *m.borrow_mut() = None);
	v
}

// ------------------------------------------------------------------ generation
pub struct SelGen<'a> {
	pub d: &'a Dom,
	pub p: &'a Profile,
	pub elems: Vec<Id>,
	/// avoid constructs
	pub no_id: bool,
	pub max_nest: usize,
}
impl<'a> SelGen<'a> {
	pub fn new(d: &'a Dom, p: &'a Profile) -> Self {
		let elems = (0..d.n.len()).filter(|&i| d.is_elem(i)).collect();
		SelGen { d, p, elems, no_id: false, max_nest: 2 }
	}
	pub fn any_elem(&self, r: &mut Rng) -> Option<Id> {
		if self.elems.is_empty() {
			None
		} else {
			Some(*r.pick(&self.elems))
		}
	}
	fn vary_case(&self, r: &mut Rng, t: &str) -> String {
		match r.below(8) {
			0 => t.to_ascii_uppercase(),
			1 => t.to_ascii_lowercase(),
			_ => t.to_string(),
		}
	}
	pub fn attr_simple(&self, r: &mut Rng, name: &str, op: Option<char>, val: &str) -> Simple {
		let name_p = self.vary_case(r, name);
		let text = match op {
			None => match r.below(4) {
				0 => format!("[ {} ]", name_p),
				_ => format!("[{}]", name_p),
			},
			Some(o) => {
				let os = if o == '=' { "=".to_string() } else { format!("{}=", o) };
				let plain = !val.is_empty() && val.chars().all(|c| c.is_ascii_alphanumeric() || c == '-' || c == '_');
				let v = if plain && r.chance(30) {
					val.to_string()
				} else if val.contains('"') {
					format!("'{}'", val)
				} else if val.contains('\'') || r.chance(50) {
					format!("\"{}\"", val)
				} else {
					format!("'{}'", val)
				};
				match r.below(6) {
					0 => format!("[ {} {} {} ]", name_p, os, v),
					1 => format!("[{}{} {}]", name_p, os, v),
					_ => format!("[{}{}{}]", name_p, os, v),
				}
			}
		};
		Simple::Attr { name: name.to_string(), op, val: val.to_string(), text }
	}
	pub fn nth(&self, r: &mut Rng) -> Simple {
		let kind = *r.pick(&[NthKind::Child, NthKind::LastChild, NthKind::OfType, NthKind::LastOfType]);
		self.nth_kind(r, kind)
	}
	pub fn nth_kind(&self, r: &mut Rng, kind: NthKind) -> Simple {
		let (a, b, text) = rand_nth(r);
		Simple::Nth { kind, a, b, text }
	}
	/// a simple selector that `t` (if given) is likely to satisfy
	pub fn simple(&self, r: &mut Rng, t: Option<Id>, nest: usize) -> Simple {
		let d = self.d;
		loop {
			match r.below(24) {
				0..=3 => {
					let c = match t {
						Some(t) if !classes(d, t).is_empty() && r.chance(80) => r.pick(&classes(d, t)).clone(),
						_ => r.pick(&self.p.classes).clone(),
					};
					if ident_ok(&c) {
						return Simple::Class(c);
					}
				}
				4 => {
					if self.no_id {
						continue;
					}
					let id = match t.and_then(|t| d.attr(t, "id")).flatten() {
						Some(v) if r.chance(85) => v.to_string(),
						_ => r.pick(&self.p.ids).clone(),
					};
					if ident_ok(&id) {
						return Simple::Id(id);
					}
				}
				5..=7 => {
					let (name, val) = match t {
						Some(t) if !d.attrs(t).is_empty() && r.chance(80) => {
							let a = r.pick(d.attrs(t)).clone();
							(a.key, a.val.unwrap_or_default())
						}
						_ => (r.pick(&self.p.attr_names).clone(), r.pick(&self.p.attr_vals).clone()),
					};
					if !name.chars().all(|c| c.is_alphanumeric() || matches!(c, '-' | '_' | '.' | ':')) {
						continue;
					}
					let op = *r.pick(&[None, Some('='), Some('='), Some('^'), Some('$'), Some('*'), Some('~'), Some('|'), Some('!')]);
					let mut val = val;
					if let Some(o) = op {
						let cs: Vec<char> = val.chars().collect();
						if cs.len() > 1 && r.chance(60) {
							match o {
								'^' => val = cs[..r.range(1, cs.len())].iter().collect(),
								'$' => val = cs[r.below(cs.len())..].iter().collect(),
								'*' => {
									let x = r.below(cs.len());
									val = cs[x..r.range(x + 1, cs.len())].iter().collect();
								}
								'~' => {
									if let Some(w) = val.split_ascii_whitespace().last() {
										val = w.to_string();
									}
								}
								'|' => {
									if let Some(w) = val.split('-').next() {
										val = w.to_string();
									}
								}
								_ => {}
							}
						}
						if r.chance(8) {
							val = String::new();
						}
						if val.contains('\\') || val.contains('\n') || (val.contains('"') && val.contains('\'')) {
							continue;
						}
						if o == '!' && val.is_empty() {
							continue;
						}
						if o == '|' && val.is_empty() {
							continue;
						}
					}
					return self.attr_simple(r, &name, op, &val);
				}
				8 => return Simple::FirstChild,
				9 => return Simple::LastChild,
				10 => return Simple::OnlyChild,
				11 => return Simple::FirstOfType,
				12 => return Simple::LastOfType,
				13 => return Simple::OnlyOfType,
				14 | 15 => return self.nth(r),
				16 => return Simple::Empty,
				17 | 18 => {
					if nest == 0 {
						continue;
					}
					return Simple::Not(self.list(r, nest - 1, 2, None));
				}
				19 => {
					if nest == 0 {
						continue;
					}
					let tt = t.and_then(|t| {
						let v = d.desc_elems(t);
						if v.is_empty() {
							None
						} else {
							Some(*r.pick(&v))
						}
					});
					return Simple::Has(self.list(r, nest - 1, 1, tt));
				}
				20 => {
					let tx = match t {
						Some(t) if r.chance(75) => {
							let s: Vec<char> = d.text(t).chars().collect();
							if s.is_empty() {
								continue;
							}
							let x = r.below(s.len());
							s[x..r.range(x + 1, (x + 6).min(s.len()))].iter().collect::<String>()
						}
						_ => decode(r.pick(&self.p.texts)),
					};
					if tx.contains('\\') || tx.contains('\n') || (tx.contains('"') && tx.contains('\'')) || tx.is_empty() {
						continue;
					}
					let plain = tx.chars().all(|c| c.is_ascii_alphanumeric());
					let p = if plain && r.chance(30) {
						tx.clone()
					} else if tx.contains('"') {
						format!("'{}'", tx)
					} else {
						format!("\"{}\"", tx)
					};
					return Simple::Contains(tx, p);
				}
				21 => return r.pick(&[Simple::Checked, Simple::Header, Simple::Input, Simple::Submit]).clone(),
				22 => return Simple::Root,
				_ => {
					let tag = match t {
						Some(t) if r.chance(70) => d.tag(t),
						_ => r.pick(&self.p.tags).clone(),
					};
					if tag_ok(&tag) {
						return Simple::Tag(self.vary_case(r, &tag));
					}
				}
			}
		}
	}
	pub fn compound(&self, r: &mut Rng, t: Option<Id>, nest: usize) -> Compound {
		let mut v: Compound = vec![];
		match r.below(10) {
			0..=4 => {
				let tag = match t {
					Some(t) if r.chance(85) => self.d.tag(t),
					_ => r.pick(&self.p.tags).clone(),
				};
				if tag_ok(&tag) {
					v.push(Simple::Tag(self.vary_case(r, &tag)));
				}
			}
			5 => v.push(Simple::All),
			_ => {}
		}
		let extra = match r.below(10) {
			0..=4 => 1,
			5 | 6 => 2,
			7 => 3,
			8 if r.chance(40) => r.range(4, 7),
			_ => 0,
		};
		for _ in 0..extra {
			let s = self.simple(r, t, nest);
			if matches!(s, Simple::Tag(_)) {
				if v.is_empty() {
					v.push(s);
				}
			} else {
				v.push(s);
			}
		}
		if v.is_empty() {
			let tag = t.map(|t| self.d.tag(t)).unwrap_or_else(|| self.p.tags[0].clone());
			v.push(if tag_ok(&tag) { Simple::Tag(tag) } else { Simple::All });
		}
		v
	}
	/// walks up/left from a target to build a chain likely to match it
	pub fn complex(&self, r: &mut Rng, t: Option<Id>, nest: usize, max_rest: usize) -> Complex {
		let d = self.d;
		// evaluation is polynomial of a high degree: big trees get short selectors
		let (nest, max_rest) = if self.p.max_kids > 200 || self.p.max_depth > 60 {
			(0, max_rest.min(1))
		} else if self.p.max_depth > 20 {
			(nest.min(1), max_rest)
		} else {
			(nest, max_rest)
		};
		let t = t.or_else(|| if r.chance(85) { self.any_elem(r) } else { None });
		let n = r.below(max_rest + 1);
		let mut chain: Vec<(Comb, Compound)> = vec![];
		let mut cur = t;
		let mut last = self.compound(r, cur, nest);
		for _ in 0..n {
			let comb = *r.pick(&[Comb::Desc, Comb::Desc, Comb::Child, Comb::Child, Comb::Next, Comb::NextAll]);
			cur = cur.and_then(|c| match comb {
				Comb::Child => d.parent_elem(c),
				Comb::Desc => {
					let v: Vec<Id> = d.ancestors(c).into_iter().filter(|&x| d.is_elem(x)).collect();
					if v.is_empty() {
						None
					} else {
						Some(*r.pick(&v))
					}
				}
				Comb::Next => d.prev_el(c),
				Comb::NextAll => {
					let mut v = vec![];
					let mut q = d.prev_el(c);
					while let Some(x) = q {
						v.push(x);
						q = d.prev_el(x);
					}
					if v.is_empty() {
						None
					} else {
						Some(*r.pick(&v))
					}
				}
			});
			chain.push((comb, last));
			last = self.compound(r, cur, nest);
		}
		chain.reverse();
		// chain[i] = (comb between previous and this, compound)
		Complex { head: None, first: last, rest: chain }
	}
	pub fn list(&self, r: &mut Rng, nest: usize, max_rest: usize, t: Option<Id>) -> List {
		let n = match r.below(10) {
			0..=6 => 1,
			7 | 8 => 2,
			_ if r.chance(30) => r.range(4, 7),
			_ => 3,
		};
		List((0..n).map(|_| self.complex(r, t, nest, max_rest)).collect())
	}
	/// list of compounds only (no combinators)
	pub fn simple_list(&self, r: &mut Rng, t: Option<Id>) -> List {
		self.list(r, 1, 0, t)
	}
}
pub fn tag_ok(t: &str) -> bool {
	!t.is_empty() && ident_ok(t) && t.chars().all(|c| c.is_ascii_alphanumeric() || c == '-' || c == '_')
}
/// (a, b, text)
pub fn rand_nth(r: &mut Rng) -> (i64, i64, String) {
	let sp = |r: &mut Rng| *r.pick(&["", "", " ", "  "]);
	let num = |r: &mut Rng| -> i64 {
		match r.below(12) {
			0 => 0,
			1..=6 => r.range(1, 4) as i64,
			7 | 8 => r.range(5, 12) as i64,
			9 => r.range(13, 60) as i64,
			10 if r.chance(50) => *r.pick(&[
				255,
				256,
				32767,
				65536,
				1 << 30,
				2147483647,
				2147483648,
				2147483649,
				4294967295,
				4294967296,
				4294967297,
				1_000_000_000_000,
				100_000_000_000_000_001,
				999_999_999_999_999_998,
			]),
			10 => *r.pick(&[99, 100, 1000, 12345]),
			_ => {
				if dict().nums.is_empty() {
					7
				} else {
					*r.pick(&dict().nums) as i64
				}
			}
		}
	};
	const BIG: i64 = 4_000_000_000_000_000_000;
	let (a, b, body) = match r.below(12) {
		0 if r.chance(25) => {
			// more digits than any integer type holds; only forms where no residue matters
			let big = *r.pick(&["99999999999999999999", "18446744073709551616", "9223372036854775808", "123456789012345678901234567890", "340282366920938463463374607431768211456"]);
			let k = r.range(0, 5) as i64;
			match r.below(9) {
				0 => (0, BIG, big.to_string()),
				1 => (0, -BIG, format!("-{}", big)),
				2 => (1, BIG, format!("n+{}", big)),
				3 => (1, -BIG, format!("n-{}", big)),
				4 => (-1, BIG, format!("-n + {}", big)),
				5 => (-1, -BIG, format!("-n - {}", big)),
				6 => (BIG, k, format!("{}n+{}", big, k)),
				7 => (-BIG, k, format!("-{}n+{}", big, k)),
				_ => (BIG, -k, format!("{}n-{}", big, k)),
			}
		}
		0 => (2, 1, "odd".to_string()),
		1 => (2, 0, "even".to_string()),
		2..=4 => {
			let n = num(r);
			match r.below(8) {
				0 => (0, n, format!("+{}", n)),
				1 => (0, -n, format!("-{}", n)),
				_ => (0, n, n.to_string()),
			}
		}
		_ => {
			let (a, at) = match r.below(8) {
				0 => (1, "n".to_string()),
				1 => (-1, "-n".to_string()),
				2 => (1, "+n".to_string()),
				3 | 4 => {
					let n = num(r);
					(-n, format!("-{}n", n))
				}
				5 => {
					let n = num(r);
					(n, format!("+{}n", n))
				}
				_ => {
					let n = num(r);
					(n, format!("{}n", n))
				}
			};
			if r.chance(25) {
				(a, 0, at)
			} else {
				let b = num(r);
				let (s1, s2) = (sp(r), sp(r));
				if r.chance(60) {
					(a, b, format!("{}{}+{}{}", at, s1, s2, b))
				} else {
					(a, -b, format!("{}{}-{}{}", at, s1, s2, b))
				}
			}
		}
	};
	let text = format!("{}{}{}", sp(r), body, sp(r));
	(a, b, text)
}
