//! Generators: documents (as reference trees), names, values.
//! Swarm style: each case draws a profile, so runs mix tiny high-collision trees, wide sibling
//! lists, deep chains, documents, many attributes, odd characters, and so on.
use crate::model::*;
use crate::rng::Rng;
use std::sync::OnceLock;

/// Words and numbers that occur as literals in the code under test (like a fuzzing dictionary).
/// They only steer generation, never a verdict.
pub struct Dict {
	pub words: Vec<String>,
	pub nums: Vec<usize>,
}
static DICT: OnceLock<Dict> = OnceLock::new();
pub fn dict() -> &'static Dict {
	DICT.get_or_init(|| {
		let mut words = vec![];
		let mut nums = vec![];
		let mut st = vec![std::path::PathBuf::from(
			std::env::var("VMON_SRC").unwrap_or_else(|_| "/repo/src".into()),
		)];
		let mut files = vec![];
		while let Some(d) = st.pop() {
			if let Ok(rd) = std::fs::read_dir(&d) {
				for e in rd.flatten() {
					let p = e.path();
					if p.is_dir() {
						st.push(p);
					} else if p.extension().map_or(false, |x| x == "rs") {
						files.push(p);
					}
				}
			}
		}
		files.sort();
		for f in files {
			if let Ok(s) = std::fs::read_to_string(&f) {
				let mut line_mode_chars = String::new();
				for line in s.lines() {
					let l = line.trim();
					if l.starts_with("#[cfg(test)]") {
						break;
					}
					if l.starts_with("//") {
						continue;
					}
					// string literals
					for part in l.split('"').skip(1).step_by(2) {
						for w in part.split(|c: char| !(c.is_ascii_alphanumeric() || c == '-' || c == '_')) {
							push_word(&mut words, w);
						}
					}
					// 'c' 'h' 'a' 'r' runs
					let cs: Vec<char> = l.chars().collect();
					let mut i = 0;
					let mut run = String::new();
					while i + 2 < cs.len() {
						if cs[i] == '\'' && cs[i + 2] == '\'' {
							run.push(cs[i + 1]);
							i += 3;
							continue;
						}
						if !(cs[i] == ',' || cs[i] == ' ') && !run.is_empty() {
							push_word(&mut words, &run);
							run.clear();
						}
						i += 1;
					}
					if run.len() == 1 {
						line_mode_chars.push_str(&run);
					}
					push_word(&mut words, &run);
					// numbers
					for w in l.split(|c: char| !c.is_ascii_alphanumeric() && c != '_') {
						if let Ok(n) = w.trim_end_matches("usize").trim_end_matches("isize").replace('_', "").parse::<usize>() {
							if n > 2 && n <= 5000 && !nums.contains(&n) {
								nums.push(n);
							}
						}
					}
				}
			}
		}
		Dict { words, nums }
	})
}
fn push_word(words: &mut Vec<String>, w: &str) {
	if w.len() >= 1
		&& w.len() <= 14
		&& w.chars().next().unwrap().is_ascii_alphabetic()
		&& w.chars().all(|c| c.is_ascii_alphanumeric() || c == '-' || c == '_')
		&& !words.iter().any(|x| x == w)
	{
		words.push(w.to_string());
	}
}

pub const TAGS: &[&str] = &[
	"div", "p", "span", "a", "ul", "li", "b", "i", "em", "section", "h1", "h2", "h3", "h6", "table",
	"tr", "td", "dl", "dt", "dd", "form", "label", "button", "select", "option", "optgroup", "pre",
	"article", "x-y", "header", "body", "x-element-with-a-long-name-of-its-own-a", "x-element-with-a-long-name-of-its-own-b",
];
pub const MORE_TAGS: &[&str] = &[
	"strong", "strike", "small", "sub", "sup", "main", "mark", "nav", "figure", "figcaption", "fieldset", "details", "dialog", "blockquote", "caption", "code", "cite",
	"data", "datalist", "del", "dfn", "h4", "h5", "header-x", "headers", "footer", "ol", "map", "menu", "object", "output", "thead", "tbody", "tfoot", "th", "time", "var",
	"video", "audio", "canvas", "address", "abbr", "aside", "bdo", "noscript", "template", "iframe-x", "h7", "divs", "li-2", "x-y-z",
];
pub const ATTR_NAMES: &[&str] = &[
	"title", "href", "data-a", "data-b", "name", "type", "value", "lang", "rel", "a", "b", "checked",
	"disabled", "x:y", "data.z", "k_1", "role", "alt", "d\u{e9}", "\u{4f60}", "data-an-attribute-with-a-long-name-1", "data-an-attribute-with-a-long-name-2",
];
pub const ATTR_VALS: &[&str] = &[
	"a", "b", "ab", "abc", "a-b", "en", "en-us", "en_us", "a b", "b a c", " a ", "x", "1", "10",
	"submit", "checkbox", "text", "foo-bar", "a,b", "ba", "aa", "", "a=b", "x>y", "A", "\u{e9}t\u{e9}",
	"\u{4f60}\u{597d}", "a\tb", "a\r\nb", "b\x0ca", "http://x.y/z?q=1", "aab", "-a", "a-",
	" ", "\t \n",
];
pub const CLASSES: &[&str] = &[
	"a", "b", "c", "aa", "item", "active", "x-1", "X", "A", "a-b", "_u", "w:2", "\u{e9}l", "f.g", "sel",
	"p\\", "q\\:r", "b\\\\.c", "aLongClassName-Of-Thirty-Letters-A", "aLongClassName-Of-Thirty-Letters-a",
];
pub const IDS: &[&str] = &["a", "b", "main", "x1", "id-2", "A", "k:3", "header", "n.m", "z", "anIdentifier-With-Quite-Some-Letters-X", "anIdentifier-With-Quite-Some-Letters-x"];
pub const TEXTS: &[&str] = &[
	"a", "b", "ab", "foo", "bar", "foo bar", " x ", "1", "hello", "\u{e9}", "\u{4f60}\u{597d}\u{1f600}",
	"a&amp;b", "&lt;i&gt;", "x > y", "&copy;", "tail\n", "&#65;", "&quot;q&quot;", "p", "aab", "q'r", "s\"t", "world", "helli", "there",
];

#[derive(Clone, Debug)]
pub struct Profile {
	pub tags: Vec<String>,
	pub classes: Vec<String>,
	pub ids: Vec<String>,
	pub attr_names: Vec<String>,
	pub attr_vals: Vec<String>,
	pub texts: Vec<String>,
	pub max_nodes: usize,
	pub max_depth: usize,
	pub max_kids: usize,
	pub p_text: usize,
	pub p_ws: usize,
	pub p_comment: usize,
	pub p_content: usize,
	pub p_void: usize,
	pub p_attr: usize,
	pub p_class: usize,
	pub p_id: usize,
	pub dup_ids: bool,
	pub upper: bool,
	pub shape: Shape,
	/// title/textarea/script/style contents restricted to characters that survive html() encoding
	pub safe_content: bool,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Shape {
	Bushy,
	Wide,
	Deep,
	Tiny,
}

fn pool(r: &mut Rng, base: &[&str], lo: usize, hi: usize, words: bool) -> Vec<String> {
	let n = r.range(lo, hi);
	let mut v: Vec<String> = vec![];
	for _ in 0..n {
		let w = if words && r.chance(12) && !dict().words.is_empty() {
			let w = r.pick(&dict().words).clone();
			if std::ptr::eq(base, TAGS) { w.to_ascii_lowercase() } else { w }
		} else {
			r.pick(base).to_string()
		};
		if !v.contains(&w) {
			v.push(w);
		}
	}
	v
}

impl Profile {
	pub fn random(r: &mut Rng) -> Profile {
		let shape = match r.below(10) {
			0 | 1 => Shape::Wide,
			2 => Shape::Deep,
			3 | 4 => Shape::Tiny,
			_ => Shape::Bushy,
		};
		let (mut max_nodes, max_depth, mut max_kids) = match shape {
			Shape::Bushy => (r.range(6, 45), r.range(2, 7), r.range(2, 7)),
			Shape::Wide => (r.range(15, 70), r.range(1, 3), r.range(12, 45)),
			Shape::Deep => (r.range(15, 50), r.range(12, 40), 2),
			Shape::Tiny => (r.range(2, 9), r.range(1, 4), r.range(1, 4)),
		};
		if r.chance(3) && !dict().nums.is_empty() {
			let n = *r.pick(&dict().nums);
			if n < 200 {
				max_nodes = max_nodes.max(n + 3);
				max_kids = max_kids.max(n + 1);
			}
		}
		// rarely a size past every small counter: more than 256 siblings, or a chain more than 64 deep
		let mut max_depth = max_depth;
		let mut shape = shape;
		if r.below(150) == 0 {
			if r.chance(70) {
				shape = Shape::Wide;
				max_kids = r.range(258, 310);
				max_nodes = max_kids + r.range(5, 40);
				max_depth = r.range(1, 2);
			} else {
				shape = Shape::Deep;
				max_depth = r.range(66, 90);
				max_nodes = max_depth + r.range(5, 40);
				max_kids = 2;
			}
		}
		let mut tags: Vec<String> = pool(r, TAGS, 1, 5, true)
			.into_iter()
			.filter(|t| {
				!is_void(t) && !is_content(t) && !t.contains('_') && !matches!(t.to_ascii_lowercase().as_str(), "html" | "svg" | "math" | "doctype")
			})
			.collect();
		if tags.is_empty() {
			tags.push("div".into());
		}
		// now and then many different tags, some with the same beginning
		if r.chance(6) {
			for t in TAGS.iter().chain(MORE_TAGS) {
				if r.chance(40) && !tags.iter().any(|x| x == t) {
					tags.push(t.to_string());
				}
			}
		}
		let ids = pool(r, IDS, 1, 8, true);
		Profile {
			tags,
			classes: pool(r, CLASSES, 1, 5, true),
			ids,
			attr_names: pool(r, ATTR_NAMES, 1, 4, true)
				.into_iter()
				.filter(|n| !matches!(n.to_ascii_lowercase().as_str(), "id" | "class"))
				.chain(std::iter::once("data-q".to_string()))
				.collect(),
			attr_vals: pool(r, ATTR_VALS, 2, 6, true),
			// now and then texts that differ in nothing but their letters
			texts: if r.chance(6) {
				["hello", "world", "helli", "wordl", "there"].iter().map(|s| s.to_string()).collect()
			} else {
				pool(r, TEXTS, 1, 5, true)
			},
			max_nodes,
			max_depth,
			max_kids,
			p_text: *r.pick(&[0, 10, 30, 60]),
			p_ws: *r.pick(&[0, 0, 20, 60]),
			p_comment: *r.pick(&[0, 0, 5, 20]),
			p_content: *r.pick(&[0, 0, 5, 15]),
			p_void: *r.pick(&[0, 5, 15]),
			p_attr: *r.pick(&[0, 20, 50, 80]),
			p_class: *r.pick(&[0, 30, 60, 90]),
			p_id: *r.pick(&[0, 10, 40]),
			dup_ids: r.chance(15),
			upper: r.chance(15),
			shape,
			safe_content: true,
		}
	}
}

pub struct DocGen<'a> {
	pub p: &'a Profile,
	pub used_ids: Vec<String>,
	pub budget: usize,
}

impl<'a> DocGen<'a> {
	pub fn new(p: &'a Profile) -> Self {
		DocGen { p, used_ids: vec![], budget: p.max_nodes }
	}
	pub fn tag_case(&self, r: &mut Rng, t: &str) -> String {
		if self.p.upper && r.chance(40) {
			if r.chance(50) {
				t.to_ascii_uppercase()
			} else {
				let mut c = t.chars();
				let f = c.next().unwrap().to_ascii_uppercase();
				f.to_string() + c.as_str()
			}
		} else {
			t.to_string()
		}
	}
	pub fn quote_for(&self, r: &mut Rng, v: &str) -> Option<char> {
		let simple = !v.is_empty() && v.chars().all(|c| c.is_ascii_alphanumeric() || c == '-' || c == '_');
		if simple && r.chance(20) {
			return None;
		}
		if v.contains('"') {
			return Some('\'');
		}
		if v.contains('\'') || r.chance(75) {
			Some('"')
		} else {
			Some('\'')
		}
	}
	pub fn attrs(&mut self, r: &mut Rng, tag: &str) -> Vec<MAttr> {
		let p = self.p;
		let mut v: Vec<MAttr> = vec![];
		let mut put = |r: &mut Rng, g: &Self, key: String, val: Option<String>| {
			if v.iter().any(|a| a.key.eq_ignore_ascii_case(&key)) {
				return;
			}
			let key = if g.p.upper && r.chance(30) { key.to_ascii_uppercase() } else { key };
			let quote = val.as_ref().and_then(|x| g.quote_for(r, x));
			v.push(MAttr { key, val, quote });
		};
		if r.chance(p.p_id) {
			let id = r.pick(&p.ids).clone();
			if p.dup_ids || !self.used_ids.contains(&id) {
				self.used_ids.push(id.clone());
				put(r, self, "id".into(), Some(id));
			}
		}
		if r.chance(p.p_class) {
			let n = r.range(1, 3);
			let sep = *r.pick(&[" ", " ", " ", " ", "  ", "\t", "\n ", "\r\n", "\x0c"]);
			let mut cs: Vec<String> = vec![];
			for _ in 0..n {
				let c = r.pick(&p.classes).clone();
				if !cs.contains(&c) {
					cs.push(c);
				}
			}
			if r.chance(5) {
				cs.push(cs[0].clone());
			}
			let mut val = cs.join(sep);
			if r.chance(8) {
				val.push_str(r.pick(&[" ", "\t", "  ", "\n", "\r"]));
			}
			if r.chance(6) {
				val.insert_str(0, r.pick(&[" ", "\n ", "\t", "\x0c"]));
			}
			let val = match r.below(60) {
				0 => None,
				1 => Some(String::new()),
				2 => Some(" ".into()),
				_ => Some(val),
			};
			put(r, self, "class".into(), val);
		}
		while r.chance(p.p_attr) && v_len(&v) < 5 {
			let mut put = |r: &mut Rng, g: &Self, key: String, val: Option<String>| {
				if v.iter().any(|a| a.key.eq_ignore_ascii_case(&key)) {
					return;
				}
				let key = if g.p.upper && r.chance(30) { key.to_ascii_uppercase() } else { key };
				let quote = val.as_ref().and_then(|x| g.quote_for(r, x));
				v.push(MAttr { key, val, quote });
			};
			let name = r.pick(&p.attr_names).clone();
			if r.chance(15) {
				put(r, self, name, None);
			} else {
				let val = r.pick(&p.attr_vals).clone();
				put(r, self, name, Some(val));
			}
			if r.chance(40) {
				break;
			}
		}
		match tag.to_ascii_lowercase().as_str() {
			"input" => {
				let ty = r.pick(&["checkbox", "radio", "text", "submit", "CheckBox"]).to_string();
				push_new(&mut v, "type", Some(ty));
				if r.chance(40) {
					push_new(&mut v, "checked", None);
				}
			}
			"option" => {
				if r.chance(70) {
					let val = r.pick(&["1", "2", "3", "x y", ""]).to_string();
					push_new(&mut v, "value", Some(val));
				}
				if r.chance(25) {
					push_new(&mut v, "selected", None);
				}
			}
			"select" => {
				if r.chance(30) {
					push_new(&mut v, "multiple", None);
				}
			}
			"button" => {
				if r.chance(50) {
					push_new(&mut v, "type", Some("submit".into()));
				}
			}
			_ => {}
		}
		v
	}
	pub fn text(&self, r: &mut Rng) -> String {
		// rarely a long one
		if r.below(250) == 0 {
			let mut s = String::new();
			let n = r.range(100, 400);
			for _ in 0..n {
				s.push_str(r.pick(&["lorem ", "ipsum ", "a", "\n", "b ", ", "]));
			}
			return s + r.pick(&self.p.texts);
		}
		r.pick(&self.p.texts).clone()
	}
	pub fn node(&mut self, d: &mut Dom, r: &mut Rng, depth: usize) -> Id {
		let p = self.p;
		self.budget = self.budget.saturating_sub(1);
		if r.chance(p.p_void) {
			let t = self.tag_case(r, r.clone().pick(&["br", "img", "input", "hr", "input"]));
			let attrs = self.attrs(r, &t);
			return d.add(Kind::Elem { name: t, attrs, content: None });
		}
		if r.chance(p.p_content) {
			let t = r.pick(&["script", "style", "textarea", "title"]).to_string();
			let attrs = self.attrs(r, &t);
			let c = if r.chance(80) { Some(r.pick(&["abc", "x = 1;", " y ", "foo", "a b"]).to_string()) } else { None };
			return d.add(Kind::Elem { name: t, attrs, content: c });
		}
		let t = r.pick(&p.tags).clone();
		let t = self.tag_case(r, &t);
		let attrs = self.attrs(r, &t);
		let id = d.add(Kind::Elem { name: t, attrs, content: None });
		if depth < p.max_depth {
			self.kids(d, r, id, depth + 1);
		}
		id
	}
	pub fn kids(&mut self, d: &mut Dom, r: &mut Rng, parent: Id, depth: usize) {
		let p = self.p;
		let n = match p.shape {
			Shape::Deep => {
				if depth < p.max_depth {
					r.range(1, 2)
				} else {
					0
				}
			}
			Shape::Wide => {
				if depth <= 1 {
					p.max_kids
				} else {
					r.below(4)
				}
			}
			_ => r.below(p.max_kids + 1),
		};
		let mut last_text = false;
		for _ in 0..n {
			// a long run of nodes that are no elements
			if p.p_comment > 0 && r.below(150) == 0 {
				for _ in 0..r.range(3, 20) {
					let t = d.add(Kind::Comment("r".into()));
					d.append(parent, t);
				}
				last_text = false;
			}
			if !last_text && r.chance(p.p_ws) {
				let t = d.add(Kind::Text(r.pick(&["\n", " ", "\n  ", "\t"]).to_string()));
				d.append(parent, t);
				last_text = true;
			}
			if !last_text && r.chance(p.p_text) {
				let t = d.add(Kind::Text(self.text(r)));
				d.append(parent, t);
				last_text = true;
			}
			if r.chance(p.p_comment) {
				let t = d.add(Kind::Comment(r.pick(&["c", "cc", " note ", "<b>x</b>", "a\nb"]).to_string()));
				d.append(parent, t);
				last_text = false;
			}
			if self.budget == 0 {
				break;
			}
			if p.shape == Shape::Wide && depth > 1 && self.budget < 5 {
				break;
			}
			let c = self.node(d, r, depth);
			d.append(parent, c);
			last_text = false;
		}
		if !last_text && r.chance(p.p_text) {
			let t = d.add(Kind::Text(self.text(r)));
			d.append(parent, t);
		}
	}
	/// a whole root: fragment or full document
	pub fn root(&mut self, r: &mut Rng, document: bool) -> Dom {
		let mut d = Dom::new();
		if document {
			if r.chance(60) {
				let t = d.add(Kind::Doctype("<!DOCTYPE html>".into()));
				d.append(ROOT, t);
			}
			// any number of comments and line ends may stand before the root element
			if r.chance(12) {
				let mut text = false;
				for _ in 0..r.range(1, 6) {
					if r.chance(40) && !text {
						let t = d.add(Kind::Text(r.pick(&["\n", "\n\n", " "]).to_string()));
						d.append(ROOT, t);
						text = true;
					} else {
						let t = d.add(Kind::Comment(r.pick(&["c", " note "]).to_string()));
						d.append(ROOT, t);
						text = false;
					}
				}
			}
			let ht = self.tag_case(r, "html");
			let h = d.elem(&ht);
			d.append(ROOT, h);
			if r.chance(90) {
				let head = d.elem("head");
				d.append(h, head);
				if r.chance(80) {
					let t = d.elem("title");
					if r.chance(85) {
						d.set_content(t, Some(r.pick(&["doc", "a title", "T"]).to_string()));
					}
					d.append(head, t);
				}
			}
			let b = d.elem("body");
			d.append(h, b);
			self.kids(&mut d, r, b, 1);
		} else {
			self.kids(&mut d, r, ROOT, 0);
			if d.n[ROOT].kids.is_empty() {
				let c = self.node(&mut d, r, 0);
				d.append(ROOT, c);
			}
		}
		d
	}
}
fn v_len(v: &[MAttr]) -> usize {
	v.len()
}
fn push_new(v: &mut Vec<MAttr>, k: &str, val: Option<String>) {
	if !v.iter().any(|a| a.key.eq_ignore_ascii_case(k)) {
		let q = val.as_ref().map(|_| '"');
		v.push(MAttr { key: k.into(), val, quote: q });
	}
}

/// random document + profile
pub fn random_doc(r: &mut Rng) -> (Profile, Dom) {
	let p = Profile::random(r);
	let doc = r.chance(30);
	let d = DocGen::new(&p).root(r, doc);
	(p, d)
}
/// now and then an svg with CDATA sections among its nodes; such a document is not loaded back after edits
pub fn with_cdata(r: &mut Rng, d: &mut Dom) {
	if !r.chance(5) {
		return;
	}
	let doc = d.is_document(ROOT);
	let places: Vec<Id> = (0..d.n.len())
		.filter(|&i| match &d.n[i].kind {
			Kind::Root => !doc,
			Kind::Elem { name, .. } => !is_void(name) && !is_content(name) && !matches!(name.to_ascii_lowercase().as_str(), "html" | "head"),
			_ => false,
		})
		.collect();
	if places.is_empty() {
		return;
	}
	let at = *r.pick(&places);
	let svg = d.elem("svg");
	let ix = r.below(d.n[at].kids.len() + 1);
	d.insert_at(at, ix, svg);
	for _ in 0..r.range(1, 3) {
		let g = d.elem("g");
		d.append(svg, g);
		let mut text = false;
		for _ in 0..r.below(6) {
			let k = match r.below(if text { 4 } else { 5 }) {
				0 | 1 => d.add(Kind::Cdata(r.pick(&["x", "a<b>c", " ", "&amp;", "y]z"]).to_string())),
				2 | 3 => d.elem(r.pick(&["a", "path", "circle"])),
				_ => d.add(Kind::Text(r.pick(&["t", " u "]).to_string())),
			};
			text = d.is_text(k);
			d.append(g, k);
		}
	}
}
/// a small fragment without ids, for inserted content
pub fn random_frag(r: &mut Rng, p: &Profile) -> Dom {
	let mut q = p.clone();
	q.max_nodes = r.range(1, 6);
	q.max_depth = r.range(0, 2);
	q.max_kids = r.range(1, 3);
	q.shape = Shape::Bushy;
	let mut g = DocGen::new(&q);
	let d = g.root(r, false);
	d
}
