//! The monitored world: a real visdom document (plus fragments and detached nodes) shadowed by
//! the reference tree. Nodes are identified by the address of the underlying Rc, so the monitor
//! sees real identity, not just equal text.
use crate::model::*;
use std::cell::RefCell;
use std::collections::{HashMap, HashSet};
use std::rc::Rc;
use visdom::types::{BoxDynElement, BoxDynNode, Elements, IAttrValue, INodeType};
use visdom::Vis;

pub type El = BoxDynElement<'static>;
pub type Nd = BoxDynNode<'static>;
pub type Set = Elements<'static>;
pub type R<T = ()> = Result<T, String>;
type RcNode = Rc<RefCell<rphtml::parser::Node>>;

#[macro_export]
macro_rules! fail { ($($a:tt)*) => { return Err(format!($($a)*)) } }
#[macro_export]
macro_rules! ensure { ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)) } } }

pub fn addr(n: &Nd) -> usize {
	let any = n.clone_node().to_node();
	match any.downcast::<RcNode>() {
		Ok(rc) => Rc::as_ptr(&rc) as usize,
		Err(_) => panic!("harness: unexpected node implementation"),
	}
}
pub fn addr_el(n: &BoxDynElement) -> usize {
	let any = n.clone_node().to_node();
	match any.downcast::<RcNode>() {
		Ok(rc) => Rc::as_ptr(&rc) as usize,
		Err(_) => panic!("harness: unexpected node implementation"),
	}
}
pub fn to_el(n: &Nd) -> El {
	n.clone_node().typed().into_element().expect("harness: node is not an element")
}
pub fn node_of(e: &BoxDynElement) -> Nd {
	e.clone_node()
}
fn s(v: Vec<char>) -> String {
	v.into_iter().collect()
}
pub fn attr_list(e: &BoxDynElement) -> Vec<(String, Option<String>)> {
	e.get_attributes()
		.into_iter()
		.map(|(k, v)| {
			(
				k,
				match v {
					IAttrValue::Value(v, _) => Some(v),
					IAttrValue::True => None,
				},
			)
		})
		.collect()
}
pub fn attr_val(v: Option<IAttrValue>) -> Option<Option<String>> {
	v.map(|v| match v {
		IAttrValue::Value(v, _) => Some(v),
		IAttrValue::True => None,
	})
}
pub fn comment_text(n: &Nd) -> String {
	s(n.text_contents())
}

/// Reads a real tree into a reference tree, checking link integrity on the way.
pub struct Snap {
	pub d: Dom,
	pub addrs: Vec<usize>,
	seen: HashSet<usize>,
}
impl Snap {
	pub fn of(n: &Nd) -> R<Snap> {
		let mut sn = Snap { d: Dom::default(), addrs: vec![], seen: HashSet::new() };
		sn.walk(n, 0)?;
		Ok(sn)
	}
	pub fn of_el(e: &BoxDynElement) -> R<Snap> {
		Snap::of(&node_of(e))
	}
	fn walk(&mut self, n: &Nd, depth: usize) -> R<Id> {
		let a = addr(n);
		ensure!(self.seen.insert(a), "a node occurs twice in one tree (cycle or shared child)");
		ensure!(depth < 3000, "tree deeper than any input");
		let kind = match n.node_type() {
			INodeType::Element => {
				let e = to_el(n);
				let content = if is_content(&e.tag_name()) && e.child_nodes_length() == 0 {
					let c = s(n.text_chars());
					if c.is_empty() {
						None
					} else {
						Some(c)
					}
				} else {
					None
				};
				Kind::Elem {
					name: e.tag_name().to_ascii_lowercase(),
					attrs: attr_list(&e)
						.into_iter()
						.map(|(key, val)| MAttr { key, quote: val.as_ref().map(|_| '"'), val })
						.collect(),
					content,
				}
			}
			INodeType::Document | INodeType::DocumentFragement => Kind::Root,
			INodeType::Text => Kind::Text(s(n.text_chars())),
			INodeType::Comment => Kind::Comment(comment_text(n)),
			INodeType::HTMLDOCTYPE => Kind::Doctype(s(n.text_chars())),
			INodeType::XMLCDATA => {
				let t = s(n.text_chars());
				Kind::Cdata(t.strip_prefix("<![CDATA[").and_then(|t| t.strip_suffix("]]>")).map_or(t.clone(), |t| t.to_string()))
			}
			_ => Kind::Comment(format!("other:{}", s(n.text_chars()))),
		};
		let id = self.d.add(kind);
		self.addrs.push(a);
		if matches!(n.node_type(), INodeType::Element | INodeType::Document | INodeType::DocumentFragement) {
			let e = to_el(n);
			let kids: Vec<Nd> = e.child_nodes();
			ensure!(
				kids.len() == e.child_nodes_length(),
				"child_nodes() and child_nodes_length() disagree"
			);
			for (ix, k) in kids.iter().enumerate() {
				ensure!(k.index() == ix, "child #{} of <{}> reports index {}", ix, e.tag_name(), k.index());
				match k.parent() {
					Some(p) => ensure!(
						addr_el(&p) == a,
						"child #{} of <{}> reports another node as its parent",
						ix,
						e.tag_name()
					),
					None => fail!("child #{} of <{}> reports no parent", ix, e.tag_name()),
				}
				let c = self.walk(k, depth + 1)?;
				self.d.append(id, c);
			}
		}
		Ok(id)
	}
}

/// structural comparison of two reference trees (names and attribute names lower-cased)
pub fn same(a: &Dom, i: Id, b: &Dom, j: Id) -> R {
	let path = |d: &Dom, x: Id| format!("<{}>", d.tag(x));
	match (&a.n[i].kind, &b.n[j].kind) {
		(Kind::Root, Kind::Root) => {}
		(Kind::Elem { attrs: x, content: c1, .. }, Kind::Elem { attrs: y, content: c2, .. }) => {
			ensure!(a.tag(i) == b.tag(j), "tag {} vs {}", a.tag(i), b.tag(j));
			let f = |v: &Vec<MAttr>| v.iter().map(|m| (m.key.to_ascii_lowercase(), m.val.clone())).collect::<Vec<_>>();
			ensure!(f(x) == f(y), "attributes of {}: {:?} vs {:?}", path(a, i), f(x), f(y));
			let e = |c: &Option<String>| c.clone().unwrap_or_default();
			ensure!(e(c1) == e(c2), "content of {}: {:?} vs {:?}", path(a, i), c1, c2);
		}
		(Kind::Doctype(x), Kind::Doctype(y)) => {
			ensure!(x.eq_ignore_ascii_case(y), "doctype {:?} vs {:?}", x, y)
		}
		(x, y) => ensure!(x == y, "node {:?} vs {:?}", x, y),
	}
	ensure!(
		a.n[i].kids.len() == b.n[j].kids.len(),
		"{} has {} children vs {}",
		path(a, i),
		a.n[i].kids.len(),
		b.n[j].kids.len()
	);
	for (x, y) in a.n[i].kids.iter().zip(&b.n[j].kids) {
		same(a, *x, b, *y)?;
	}
	Ok(())
}
/// what a reparse can see: adjacent texts merged, empty texts dropped
pub fn normalized(d: &Dom, i: Id) -> Dom {
	fn go(d: &Dom, i: Id, o: &mut Dom) -> Id {
		let c = o.add(d.n[i].kind.clone());
		for &k in &d.n[i].kids {
			if let Kind::Text(t) = &d.n[k].kind {
				if t.is_empty() {
					continue;
				}
				if let Some(&l) = o.n[c].kids.last() {
					if let Kind::Text(x) = &mut o.n[l].kind {
						x.push_str(t);
						continue;
					}
				}
			}
			let kc = go(d, k, o);
			o.append(c, kc);
		}
		c
	}
	let mut o = Dom::default();
	go(d, i, &mut o);
	o
}

pub struct World {
	pub d: Dom,
	pub real: Vec<Option<Nd>>,
	pub ids: HashMap<usize, Id>,
	pub root: Set,
	pub keep: Vec<Set>,
	pub errs: Rc<RefCell<Vec<String>>>,
	pub log: Vec<String>,
}

pub fn load_catch(html: &str) -> (Set, Rc<RefCell<Vec<String>>>) {
	let errs = Rc::new(RefCell::new(vec![]));
	let e2 = Rc::clone(&errs);
	// the handler looks at the document, as user code does: it has to be readable at that moment
	let top: Rc<RefCell<std::rc::Weak<RefCell<rphtml::parser::Node>>>> = Default::default();
	let top2 = Rc::clone(&top);
	let root = Vis::load_catch(
		html.to_string(),
		Box::new(move |e| {
			if let Some(rc) = top2.borrow().upgrade() {
				let el: BoxDynElement = Box::new(rc);
				let s = Vis::dom(&el);
				let _ = (s.find("*").length(), s.outer_html().len(), s.text().len(), s.children("").length(), s.document().is_some());
			}
			e2.borrow_mut().push(e.to_string())
		}),
	);
	if let Some(e) = root.get(0) {
		if let Ok(rc) = e.cloned().to_node().downcast::<Rc<RefCell<rphtml::parser::Node>>>() {
			*top.borrow_mut() = Rc::downgrade(&rc);
		}
	}
	(root, errs)
}

impl World {
	pub fn load(d: Dom) -> R<World> {
		let html = d.html(ROOT);
		let (root, errs) = load_catch(&html);
		ensure!(root.length() == 1, "loading gave {} root elements for {:?}", root.length(), html);
		ensure!(errs.borrow().is_empty(), "loading reported {:?} for {:?}", errs.borrow(), html);
		let n = d.n.len();
		let mut w = World {
			d,
			real: (0..n).map(|_| None).collect(),
			ids: HashMap::new(),
			root,
			keep: vec![],
			errs,
			log: vec![format!("load {}", html)],
		};
		let rn = node_of(w.root.get(0).unwrap());
		w.bind(ROOT, rn, 0).map_err(|e| format!("parsed tree differs from the source: {}", e))?;
		Ok(w)
	}
	/// load a fragment as another document; returns the model id of its root
	pub fn load_frag(&mut self, f: &Dom) -> R<Id> {
		let html = f.html(ROOT);
		let set: Set = Vis::load(html.clone()).map_err(|e| format!("load of {:?} failed: {}", html, e))?;
		let id = self.d.import(f, ROOT);
		let rn = node_of(set.get(0).unwrap());
		self.keep.push(set);
		self.bind(id, rn, 0).map_err(|e| format!("parsed fragment {:?} differs from the source: {}", html, e))?;
		Ok(id)
	}
	fn slot(&mut self, id: Id) {
		while self.real.len() <= id {
			self.real.push(None);
		}
	}
	/// compare the real subtree with the model subtree; unknown model nodes get bound
	pub fn bind(&mut self, id: Id, n: Nd, depth: usize) -> R {
		ensure!(depth < 3000, "tree deeper than any input");
		self.slot(id);
		let a = addr(&n);
		match &self.real[id] {
			Some(old) => ensure!(addr(old) == a, "another node sits at the place of {}", self.show(id)),
			None => {
				if let Some(o) = self.ids.get(&a) {
					fail!("the node of {} occurs in the place of {}", self.show(*o), self.show(id));
				}
				self.ids.insert(a, id);
				self.real[id] = Some(n.clone_node());
			}
		}
		let want = self.d.n[id].kind.clone();
		match (&want, n.node_type()) {
			(Kind::Root, INodeType::Document) => {
				ensure!(self.d.is_document(id), "a fragment is reported as document");
			}
			(Kind::Root, INodeType::DocumentFragement) => {
				ensure!(!self.d.is_document(id), "a document is reported as fragment");
			}
			(Kind::Elem { name, attrs, content }, INodeType::Element) => {
				let e = to_el(&n);
				ensure!(
					e.tag_name() == name.to_ascii_uppercase(),
					"{} has tag name {}",
					self.show(id),
					e.tag_name()
				);
				let got = attr_list(&e);
				let exp: Vec<_> = attrs.iter().map(|m| (m.key.to_ascii_lowercase(), m.val.clone())).collect();
				ensure!(got == exp, "{} has attributes {:?}, expected {:?}", self.show(id), got, exp);
				for (k, v) in &exp {
					let one = attr_val(e.get_attribute(k));
					ensure!(one.as_ref() == Some(v), "attribute {} of {} reads {:?}, expected {:?}", k, self.show(id), one, v);
				}
				if !exp.iter().any(|(k, _)| k == "zz-none") {
					ensure!(e.get_attribute("zz-none").is_none() && !e.has_attribute("zz-none"), "{} has an attribute it was never given", self.show(id));
				}
				if is_content(name) && self.d.n[id].kids.is_empty() {
					let got = s(n.text_chars());
					let exp = content.clone().unwrap_or_default();
					ensure!(got == exp, "{} has content {:?}, expected {:?}", self.show(id), got, exp);
				}
			}
			(Kind::Text(t), INodeType::Text) => {
				let got = s(n.text_chars());
				ensure!(&got == t, "text node is {:?}, expected {:?}", got, t);
			}
			(Kind::Comment(t), INodeType::Comment) => {
				let got = comment_text(&n);
				ensure!(&got == t, "comment is {:?}, expected {:?}", got, t);
			}
			(Kind::Cdata(t), INodeType::XMLCDATA) => {
				let got = s(n.text_chars());
				ensure!(got == cdata(t), "CDATA section is {:?}, expected {:?}", got, t);
			}
			(Kind::Doctype(_), INodeType::HTMLDOCTYPE) => {}
			(k, t) => fail!("node is a {:?}, expected {:?}", t, k),
		}
		if matches!(want, Kind::Root | Kind::Elem { .. }) {
			let e = to_el(&n);
			let kids: Vec<Nd> = e.child_nodes();
			let mk = self.d.n[id].kids.clone();
			ensure!(
				kids.len() == mk.len() && e.child_nodes_length() == mk.len(),
				"{} has {} child nodes, expected {} (html {})",
				self.show(id),
				kids.len(),
				mk.len(),
				self.d.html(id)
			);
			for (ix, (k, m)) in kids.into_iter().zip(mk).enumerate() {
				ensure!(k.index() == ix, "child #{} of {} reports index {}", ix, self.show(id), k.index());
				match k.parent() {
					Some(p) => {
						ensure!(addr_el(&p) == a, "child #{} of {} reports another parent", ix, self.show(id))
					}
					None => fail!("child #{} of {} reports no parent", ix, self.show(id)),
				}
				self.bind(m, k, depth + 1)?;
			}
		}
		Ok(())
	}
	pub fn show(&self, id: Id) -> String {
		let mut o = String::new();
		match &self.d.n[id].kind {
			Kind::Root => o.push_str("#root"),
			Kind::Elem { .. } => self.d.start_tag(id, &mut o),
			k => o = format!("{:?}", k),
		}
		format!("{}(n{})", o, id)
	}
	pub fn show_ids(&self, v: &[Id]) -> String {
		let l: Vec<String> = v.iter().map(|&i| self.show(i)).collect();
		format!("[{}]", l.join(", "))
	}
	/// all trees: main document, fragments, detached nodes
	pub fn tops(&self) -> Vec<Id> {
		(0..self.d.n.len())
			.filter(|&i| self.d.n[i].parent.is_none() && self.real.get(i).map_or(false, |r| r.is_some()))
			.collect()
	}
	/// the full monitor: every tree known to the world equals its reference, node by node
	pub fn check(&mut self) -> R {
		for t in self.tops() {
			let n = self.real[t].as_ref().unwrap().clone_node();
			if self.d.n[t].kind != Kind::Root {
				if let Some(p) = n.parent() {
					fail!("detached {} still reports a parent <{}>", self.show(t), p.tag_name());
				}
			}
			self.bind(t, n, 0)?;
		}
		Ok(())
	}
	pub fn el(&self, id: Id) -> El {
		to_el(self.real[id].as_ref().expect("harness: unbound node"))
	}
	pub fn nd(&self, id: Id) -> Nd {
		self.real[id].as_ref().expect("harness: unbound node").clone_node()
	}
	pub fn set(&self, ids: &[Id]) -> Set {
		Elements::with_nodes(ids.iter().map(|&i| self.el(i)).collect())
	}
	pub fn id_of(&self, e: &BoxDynElement) -> R<Id> {
		match self.ids.get(&addr_el(e)) {
			Some(&i) => Ok(i),
			None => Err(format!("unknown node <{}> returned", e.tag_name())),
		}
	}
	pub fn ids_of(&self, set: &Elements) -> R<Vec<Id>> {
		set.get_ref().iter().map(|e| self.id_of(e)).collect()
	}
	/// elements attached below `top`
	pub fn elems(&self, top: Id) -> Vec<Id> {
		self.d.desc_elems(top)
	}
	pub fn attached(&self, id: Id) -> bool {
		self.d.top(id) == ROOT
	}
	pub fn errs_len(&self) -> usize {
		self.errs.borrow().len()
	}
	/// document order over all trees (tops in id order)
	pub fn order(&self, ids: &[Id]) -> Vec<Id> {
		let mut all = vec![];
		for t in self.tops() {
			all.extend(self.d.subtree(t));
		}
		all.into_iter().filter(|i| ids.contains(i)).collect()
	}
}
