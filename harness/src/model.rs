//! Reference DOM: an arena tree, written independently of visdom's representation.
pub type Id = usize;
pub const ROOT: Id = 0;

#[derive(Clone, Debug, PartialEq)]
pub struct MAttr {
	pub key: String,
	pub val: Option<String>,
	pub quote: Option<char>,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Kind {
	Root,
	Elem { name: String, attrs: Vec<MAttr>, content: Option<String> },
	Text(String),
	Comment(String),
	/// a CDATA section, it reads as its source
	Cdata(String),
	Doctype(String),
}
#[derive(Clone, Debug)]
pub struct MNode {
	pub kind: Kind,
	pub parent: Option<Id>,
	pub kids: Vec<Id>,
}
#[derive(Clone, Debug, Default)]
pub struct Dom {
	pub n: Vec<MNode>,
}

pub const VOID: &[&str] = &[
	"img", "input", "meta", "link", "br", "hr", "col", "base", "param", "source", "area", "embed",
	"track", "wbr",
];
pub const CONTENT: &[&str] = &["script", "style", "title", "textarea"];
pub fn is_void(t: &str) -> bool {
	VOID.contains(&t.to_ascii_lowercase().as_str())
}
pub fn is_content(t: &str) -> bool {
	CONTENT.contains(&t.to_ascii_lowercase().as_str())
}
pub fn is_plain(t: &str) -> bool {
	matches!(t.to_ascii_lowercase().as_str(), "title" | "textarea")
}

impl Dom {
	pub fn new() -> Dom {
		Dom { n: vec![MNode { kind: Kind::Root, parent: None, kids: vec![] }] }
	}
	pub fn add(&mut self, kind: Kind) -> Id {
		self.n.push(MNode { kind, parent: None, kids: vec![] });
		self.n.len() - 1
	}
	pub fn elem(&mut self, name: &str) -> Id {
		self.add(Kind::Elem { name: name.into(), attrs: vec![], content: None })
	}
	pub fn append(&mut self, p: Id, c: Id) {
		self.n[c].parent = Some(p);
		self.n[p].kids.push(c);
	}
	pub fn is_elem(&self, i: Id) -> bool {
		matches!(self.n[i].kind, Kind::Elem { .. })
	}
	pub fn is_text(&self, i: Id) -> bool {
		matches!(self.n[i].kind, Kind::Text(_))
	}
	/// lower-cased tag name ("" for others)
	pub fn tag(&self, i: Id) -> String {
		match &self.n[i].kind {
			Kind::Elem { name, .. } => name.to_ascii_lowercase(),
			_ => String::new(),
		}
	}
	pub fn raw_tag(&self, i: Id) -> &str {
		match &self.n[i].kind {
			Kind::Elem { name, .. } => name,
			_ => "",
		}
	}
	pub fn attrs(&self, i: Id) -> &[MAttr] {
		match &self.n[i].kind {
			Kind::Elem { attrs, .. } => attrs,
			_ => &[],
		}
	}
	pub fn attrs_mut(&mut self, i: Id) -> &mut Vec<MAttr> {
		match &mut self.n[i].kind {
			Kind::Elem { attrs, .. } => attrs,
			_ => panic!("model: attrs of non element"),
		}
	}
	/// attribute lookup: None absent, Some(None) boolean, Some(Some(v)) value
	pub fn attr(&self, i: Id, name: &str) -> Option<Option<&str>> {
		let lc = name.to_ascii_lowercase();
		self
			.attrs(i)
			.iter()
			.find(|a| a.key.to_ascii_lowercase() == lc)
			.map(|a| a.val.as_deref())
	}
	pub fn set_attr(&mut self, i: Id, name: &str, val: Option<String>) {
		let lc = name.to_ascii_lowercase();
		let attrs = self.attrs_mut(i);
		if let Some(a) = attrs.iter_mut().find(|a| a.key.to_ascii_lowercase() == lc) {
			a.val = val;
		} else {
			attrs.push(MAttr { key: name.into(), val, quote: Some('"') });
		}
	}
	pub fn remove_attr(&mut self, i: Id, name: &str) {
		let lc = name.to_ascii_lowercase();
		self.attrs_mut(i).retain(|a| a.key.to_ascii_lowercase() != lc);
	}
	pub fn content(&self, i: Id) -> Option<&str> {
		match &self.n[i].kind {
			Kind::Elem { content, .. } => content.as_deref(),
			_ => None,
		}
	}
	pub fn set_content(&mut self, i: Id, c: Option<String>) {
		if let Kind::Elem { content, .. } = &mut self.n[i].kind {
			*content = c;
		}
	}
	pub fn ekids(&self, i: Id) -> Vec<Id> {
		self.n[i].kids.iter().copied().filter(|&k| self.is_elem(k)).collect()
	}
	pub fn parent_elem(&self, i: Id) -> Option<Id> {
		self.n[i].parent.filter(|&p| self.is_elem(p))
	}
	pub fn ancestors(&self, i: Id) -> Vec<Id> {
		let mut v = vec![];
		let mut c = self.n[i].parent;
		while let Some(p) = c {
			v.push(p);
			c = self.n[p].parent;
		}
		v
	}
	pub fn top(&self, i: Id) -> Id {
		let mut c = i;
		while let Some(p) = self.n[c].parent {
			c = p;
		}
		c
	}
	/// document order of the subtree, including `i`
	pub fn subtree(&self, i: Id) -> Vec<Id> {
		let mut v = vec![];
		let mut st = vec![i];
		while let Some(x) = st.pop() {
			v.push(x);
			for &k in self.n[x].kids.iter().rev() {
				st.push(k);
			}
		}
		v
	}
	pub fn desc_elems(&self, i: Id) -> Vec<Id> {
		self.subtree(i).into_iter().skip(1).filter(|&x| self.is_elem(x)).collect()
	}
	pub fn index(&self, i: Id) -> usize {
		match self.n[i].parent {
			Some(p) => self.n[p].kids.iter().position(|&k| k == i).unwrap(),
			None => 0,
		}
	}
	pub fn next_el(&self, i: Id) -> Option<Id> {
		let p = self.n[i].parent?;
		let ix = self.index(i);
		self.n[p].kids[ix + 1..].iter().copied().find(|&k| self.is_elem(k))
	}
	pub fn prev_el(&self, i: Id) -> Option<Id> {
		let p = self.n[i].parent?;
		let ix = self.index(i);
		self.n[p].kids[..ix].iter().rev().copied().find(|&k| self.is_elem(k))
	}
	pub fn detach(&mut self, i: Id) {
		if let Some(p) = self.n[i].parent.take() {
			self.n[p].kids.retain(|&k| k != i);
		}
	}
	pub fn insert_at(&mut self, p: Id, at: usize, c: Id) {
		self.n[c].parent = Some(p);
		self.n[p].kids.insert(at, c);
	}
	/// deep copy inside the arena, returns the new top id and the id pairs
	pub fn copy(&mut self, i: Id, map: &mut Vec<(Id, Id)>) -> Id {
		let kind = self.n[i].kind.clone();
		let c = self.add(kind);
		map.push((i, c));
		for k in self.n[i].kids.clone() {
			let kc = self.copy(k, map);
			self.append(c, kc);
		}
		c
	}
	/// copy a subtree of another arena in; returns new id
	pub fn import(&mut self, o: &Dom, i: Id) -> Id {
		let c = self.add(o.n[i].kind.clone());
		for &k in &o.n[i].kids {
			let kc = self.import(o, k);
			self.append(c, kc);
		}
		c
	}
	/// the root is a "document" when one of its children is an <html> element
	pub fn is_document(&self, r: Id) -> bool {
		// some top level tag is <html>
		self.n[r].kids.iter().any(|&k| self.tag(k) == "html")
	}
	/// text(): concatenation of the decoded text of all text nodes, raw text of content tags,
	/// comments excluded
	pub fn text(&self, i: Id) -> String {
		let mut s = String::new();
		for x in self.subtree(i) {
			match &self.n[x].kind {
				Kind::Text(t) => s.push_str(&decode(t)),
				Kind::Cdata(t) => s.push_str(&cdata(t)),
				Kind::Elem { content: Some(c), .. } => s.push_str(c),
				_ => {}
			}
		}
		s
	}
	pub fn start_tag(&self, i: Id, out: &mut String) {
		if let Kind::Elem { name, attrs, .. } = &self.n[i].kind {
			out.push('<');
			out.push_str(name);
			for a in attrs {
				out.push(' ');
				out.push_str(&a.key);
				if let Some(v) = &a.val {
					out.push('=');
					if let Some(q) = a.quote {
						out.push(q);
						out.push_str(v);
						out.push(q);
					} else {
						out.push_str(v);
					}
				}
			}
			out.push('>');
		}
	}
	pub fn ser(&self, i: Id, out: &mut String) {
		match &self.n[i].kind {
			Kind::Root => {
				for &k in &self.n[i].kids {
					self.ser(k, out);
				}
			}
			Kind::Text(t) => out.push_str(t),
			Kind::Cdata(t) => out.push_str(&cdata(t)),
			Kind::Comment(t) => {
				out.push_str("<!--");
				out.push_str(t);
				out.push_str("-->");
			}
			Kind::Doctype(t) => out.push_str(t),
			Kind::Elem { name, content, .. } => {
				self.start_tag(i, out);
				if let Some(c) = content {
					out.push_str(c);
				}
				for &k in &self.n[i].kids {
					self.ser(k, out);
				}
				if !is_void(name) {
					out.push_str("</");
					out.push_str(name);
					out.push('>');
				}
			}
		}
	}
	pub fn html(&self, i: Id) -> String {
		let mut s = String::new();
		self.ser(i, &mut s);
		s
	}
	pub fn inner(&self, i: Id) -> String {
		let mut s = String::new();
		if let Some(c) = self.content(i) {
			s.push_str(c);
		}
		for &k in &self.n[i].kids {
			self.ser(k, &mut s);
		}
		s
	}
}

pub fn cdata(t: &str) -> String {
	format!("<![CDATA[{}]]>", t)
}
/// entity decoding restricted to the entities the generators emit
pub fn decode(s: &str) -> String {
	const T: &[(&str, &str)] = &[
		("&lt;", "<"),
		("&gt;", ">"),
		("&quot;", "\""),
		("&apos;", "'"),
		("&copy;", "\u{a9}"),
		("&#65;", "A"),
		("&#x42;", "B"),
		("&eacute;", "\u{e9}"),
		("&nbsp;", "\u{a0}"),
		("&amp;", "&"),
	];
	let mut out = String::new();
	let mut rest = s;
	'o: while !rest.is_empty() {
		if rest.starts_with('&') {
			for (e, c) in T {
				if rest.starts_with(e) {
					out.push_str(c);
					rest = &rest[e.len()..];
					continue 'o;
				}
			}
		}
		let ch = rest.chars().next().unwrap();
		out.push(ch);
		rest = &rest[ch.len_utf8()..];
	}
	out
}
