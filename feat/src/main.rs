//! feat: one deterministic workload, compiled once per set of cargo features of visdom.
//!   feat run --seed S --secs T --cases N --out FILE --progress FILE   8 numbers per case: its seed, then a digest of what each part observed
//!   feat trace <case-seed> <part>                                   what one part of one case observes
//! A part only uses operations that its features provide, so parts present in two builds have to observe the same.
#![allow(dead_code, unused_imports, unused_mut)]
#[path = "../../harness/src/gen.rs"]
mod gen;
#[path = "../../harness/src/model.rs"]
mod model;
#[path = "../../harness/src/rng.rs"]
mod rng;
#[path = "../../harness/src/sel.rs"]
mod sel;
use gen::*;
use rng::{fnv, Rng};
use sel::SelGen;
use std::cell::RefCell;
use std::io::{Seek, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::time::Instant;
use visdom::types::*;
use visdom::Vis;

const PARTS: usize = 7;
const TEXT: bool = cfg!(feature = "text");
const MUTATION: bool = cfg!(feature = "destroy");
const INSERTION: bool = cfg!(feature = "insertion");
/// (uses text, uses remove/empty/clone, uses insertions)
const NEEDS: [(bool, bool, bool); PARTS] = [
	(false, false, false),
	(true, false, false),
	(false, true, false),
	(false, false, true),
	(true, true, false),
	(true, false, true),
	(true, true, true),
];
fn available(p: usize) -> bool {
	let (t, m, i) = NEEDS[p];
	(!t || TEXT) && (!m || MUTATION) && (!i || INSERTION)
}
fn path(e: &BoxDynElement) -> String {
	let mut o = format!("{}", e.index());
	let mut p = e.parent();
	while let Some(x) = p {
		o = format!("{}.{}", x.index(), o);
		p = x.parent();
	}
	format!("{}:{}", e.tag_name(), o)
}
fn set(s: &Elements) -> String {
	let v: Vec<String> = s.get_ref().iter().map(path).collect();
	v.join(" ")
}
fn attrs(e: &BoxDynElement) -> String {
	let v: Vec<String> = e.get_attributes().iter().map(|(k, v)| format!("{}={:?}", k, v)).collect();
	v.join(",")
}
fn nodes(e: &BoxDynElement, o: &mut String) {
	for n in e.child_nodes() {
		o.push_str(&format!("({:?} {} ", n.node_type(), n.index()));
		match n.typed() {
			IEnumTyped::Element(c) => {
				o.push_str(&attrs(&c));
				nodes(&c, o);
			}
			IEnumTyped::Text(t) => o.push_str(&format!("{:?} {:?}", t.text_content(), t.text_chars())),
			_ => {}
		}
		o.push(')');
	}
}
struct Case {
	html: String,
	frags: Vec<String>,
	sels: Vec<String>,
	bad: Vec<String>,
}
fn make(r: &mut Rng) -> Case {
	let (p, d) = random_doc(r);
	let html = d.html(model::ROOT);
	let frags = (0..4).map(|_| random_frag(r, &p).html(model::ROOT)).collect();
	let g = SelGen::new(&d, &p);
	let sels = (0..12)
		.map(|_| {
			let t = g.any_elem(r);
			if r.chance(50) {
				g.list(r, 1, 2, t).print()
			} else {
				g.simple_list(r, t).print()
			}
		})
		.collect();
	let bad = ["", "p:nosuch", "a[", "> >", ":nth-child(x)", "div,,p", "#"].iter().map(|s| s.to_string()).collect();
	Case { html, frags, sels, bad }
}
struct Run<'a> {
	o: String,
	c: &'a Case,
	errors: Rc<RefCell<Vec<String>>>,
	root: Elements<'a>,
	/// sets taken earlier: their elements may have been changed, moved or detached since
	old: Vec<Elements<'a>>,
}
impl<'a> Run<'a> {
	fn note(&mut self, k: &str, v: String) {
		self.o.push_str(k);
		self.o.push_str(": ");
		self.o.push_str(&v);
		self.o.push('\n');
	}
	fn sel(&self, r: &mut Rng) -> &'a str {
		if r.chance(4) {
			return r.pick(&self.c.bad);
		}
		r.pick(&self.c.sels)
	}
	fn some(&mut self, r: &mut Rng) -> Elements<'a> {
		if !self.old.is_empty() && r.chance(25) {
			return r.pick(&self.old).filter("*");
		}
		let s = self.fresh(r);
		if r.chance(40) {
			self.old.push(s.filter("*"));
		}
		s
	}
	fn fresh(&self, r: &mut Rng) -> Elements<'a> {
		let s = if r.chance(50) { self.root.find(self.sel(r)) } else { self.root.find("*") };
		if s.length() > 1 && r.chance(60) {
			let a = r.below(s.length());
			return s.slice(a..(a + 1 + r.below(3)));
		}
		s
	}
	fn state(&mut self) {
		let mut o = self.root.outer_htmls();
		for e in self.root.get_ref() {
			nodes(e, &mut o);
		}
		let e = self.errors.borrow().join("|");
		self.note("tree", o);
		self.note("reported", e);
	}
	fn base(&mut self, r: &mut Rng) {
		let s = self.some(r);
		let q = self.sel(r);
		let q2 = self.sel(r);
		let b = r.chance(50);
		let v = match r.below(30) {
			0 => set(&s.find(q)),
			1 => set(&s.filter(q)),
			2 => set(&s.not(q)),
			3 => set(&s.has(q)),
			4 => format!("{} {}", s.is(q), s.is_all(q)),
			5 => set(&s.children(q)),
			6 => set(&s.parent(q)),
			7 => set(&s.parents(q)),
			8 => set(&s.parents_until(q, q2, b)),
			9 => set(&s.closest(q)),
			10 => set(&s.siblings(q)),
			11 => set(&s.next(q)),
			12 => set(&s.next_all(q)),
			13 => set(&s.next_until(q, q2, b)),
			14 => set(&s.prev(q)),
			15 => set(&s.prev_all(q)),
			16 => set(&s.prev_until(q, q2, b)),
			17 => set(&s.add(self.root.find(q))),
			18 => format!("{} {} {}", set(&s.filter_in(&self.root.find(q))), set(&s.not_in(&self.root.find(q))), set(&s.has_in(&self.root.find(q)))),
			19 => format!("{} {} {}", set(&s.eq(1)), set(&s.first()), set(&s.last())),
			20 => format!("{:?}", (s.text(), s.html(), s.htmls(), s.outer_html(), s.outer_htmls())),
			21 => format!("{:?}", s.val()),
			22 => {
				let mut s = s;
				s.add_class("fa fb");
				s.toggle_class("fb fc");
				if b {
					s.remove_class("fa");
				}
				format!("{}", s.has_class("fc"))
			}
			23 => {
				let mut s = s;
				let n = *r.pick(&["id", "class", "data-x", "checked"]);
				if b {
					s.set_attr(n, Some("v \"1\" <&"));
				} else {
					s.remove_attr(n);
				}
				format!("{:?} {}", s.attr(n), s.has_attr(n))
			}
			24 => {
				let mut s = s;
				s.set_text(*r.pick(&["", "a<b>&amp;c", "t"]));
				s.text()
			}
			25 => {
				let mut s = s;
				s.set_html(r.pick(&self.c.frags));
				s.html()
			}
			26 => match s.document() {
				Some(d) => format!(
					"{:?} {:?} {:?} {:?} {:?}",
					d.title(),
					d.head().map(|e| path(&e)),
					d.body().map(|e| path(&e)),
					d.document_element().map(|e| path(&e)),
					d.source_code()
				),
				None => "none".into(),
			},
			27 => s
				.get_ref()
				.iter()
				.map(|e| format!("{} {} {:?} {:?}", path(e), attrs(e), e.next_element_sibling().map(|e| path(&e)), e.copied().outer_html()))
				.collect::<Vec<_>>()
				.join(";"),
			28 => set(&s.filter_by(|i, e| i % 2 == 0 || e.has_attribute("class"))),
			_ => {
				let f = Vis::load(r.pick(&self.c.frags).as_str()).map(|d| format!("{} {}", set(&d.find("*")), d.outer_htmls()));
				format!("{:?}", f.map_err(|e| e.to_string()))
			}
		};
		self.note("base", v);
	}
	fn text(&mut self, r: &mut Rng) {
		#[cfg(feature = "text")]
		{
			let s = self.some(r);
			let lim = r.below(4);
			let mut t: Texts = match r.below(3) {
				0 => s.texts(lim),
				1 => s.texts_by(lim, Box::new(|d, t| d % 2 == 0 || t.text_content().len() > 3)),
				_ => s.texts_by_rec(lim, Box::new(|_, _| true), Box::new(|e| e.tag_name() != "P")),
			};
			let k = r.below(6);
			let v = format!("{} {:?}", t.length(), t.get_ref().iter().map(|t| (t.index(), t.text_content())).collect::<Vec<_>>());
			match k {
				0 => t.remove(),
				1 => {
					t.for_each(|_, t| {
						t.append_text("x&lt;");
						t.prepend_text("y");
						true
					});
				}
				2 => {
					t.for_each(|i, t| {
						t.set_text(&format!("<{}>", i));
						true
					});
				}
				3 => {
					t.for_each(|_, t| {
						t.set_html("<i>h</i>z");
						true
					});
				}
				_ => {}
			}
			self.note("text", v);
		}
		#[cfg(not(feature = "text"))]
		let _ = r;
	}
	fn mutation(&mut self, r: &mut Rng) {
		#[cfg(feature = "destroy")]
		{
			let mut s = self.some(r);
			let v = match r.below(4) {
				0 => {
					let v = set(&s);
					s.remove();
					v
				}
				1 => {
					s.empty();
					s.outer_htmls()
				}
				2 => {
					let c = s.clone();
					format!("{} {}", c.outer_htmls(), set(&c))
				}
				_ => {
					let mut v = String::new();
					if let Some(e) = s.get(0) {
						if let Some(mut p) = e.parent() {
							let c = p.children();
							let c = c.get(r.below(c.length().max(1)));
							if let Some(c) = c {
								p.remove_child(c.cloned());
								v = p.outer_html();
							}
						}
					}
					v
				}
			};
			self.note("mutation", v);
		}
		#[cfg(not(feature = "destroy"))]
		let _ = r;
	}
	fn insertion(&mut self, r: &mut Rng) {
		#[cfg(feature = "insertion")]
		{
			let mut s = self.some(r);
			let frag = Vis::load(r.pick(&self.c.frags).as_str()).ok();
			let mut o = match frag {
				Some(f) if r.chance(50) => f.children(""),
				_ => self.some(r),
			};
			match r.below(9) {
				0 => s.append(&mut o),
				1 => s.prepend(&mut o),
				2 => s.append_to(&mut o),
				3 => s.prepend_to(&mut o),
				4 => s.insert_before(&mut o),
				5 => s.insert_after(&mut o),
				6 => s.before(&mut o),
				7 => s.after(&mut o),
				_ => s.replace_with(&mut o),
			};
			let v = format!("{} / {}", s.outer_htmls(), o.outer_htmls());
			self.note("insertion", v);
		}
		#[cfg(not(feature = "insertion"))]
		let _ = r;
	}
}
fn part(c: &Case, seed: u64, p: usize) -> String {
	let mut r = Rng::new(seed ^ (p as u64 + 1).wrapping_mul(0x9e37_79b9_7f4a_7c15));
	let errors = Rc::new(RefCell::new(vec![]));
	let e2 = errors.clone();
	let root = Vis::load_catch(c.html.as_str(), Box::new(move |e| e2.borrow_mut().push(e.to_string())));
	let mut run = Run { o: String::new(), c, errors, root, old: vec![] };
	let res = catch_unwind(AssertUnwindSafe(|| {
		let (t, m, i) = NEEDS[p];
		for _ in 0..r.range(6, 14) {
			let k = r.below(4);
			match k {
				0 if t => run.text(&mut r),
				1 if m => run.mutation(&mut r),
				2 if i => run.insertion(&mut r),
				_ => run.base(&mut r),
			}
			if r.chance(30) {
				run.state();
			}
		}
		run.state();
	}));
	let mut o = std::mem::take(&mut run.o);
	if res.is_err() {
		o.push_str("panic\n");
	}
	o
}
fn main() {
	std::thread::Builder::new().stack_size(64 << 20).spawn(real_main).expect("thread").join().expect("harness: worker");
}
fn real_main() {
	std::panic::set_hook(Box::new(|_| {}));
	let a: Vec<String> = std::env::args().skip(1).collect();
	let get = |k: &str| a.iter().position(|x| x == k).and_then(|p| a.get(p + 1)).cloned();
	match a.first().map(|s| s.as_str()) {
		Some("trace") => {
			let p: usize = a[2].parse().unwrap();
			if available(p) {
				let seed = a[1].parse().unwrap();
				print!("{}", part(&make(&mut Rng::new(seed)), seed, p));
			}
		}
		Some("html") => print!("{}", make(&mut Rng::new(a[1].parse().unwrap())).html),
		_ => {
			let num = |k: &str, d: u64| get(k).and_then(|s| s.parse().ok()).unwrap_or(d);
			let (seed, secs, cases) = (num("--seed", 1), num("--secs", 5), num("--cases", u64::MAX));
			let mut out = std::io::BufWriter::new(std::fs::File::create(get("--out").unwrap()).unwrap());
			let mut pr = std::fs::File::create(get("--progress").unwrap()).unwrap();
			let t = Instant::now();
			let mut i = 0;
			while i < cases && t.elapsed().as_secs() < secs {
				let cs = fnv(format!("features/{}/{}", seed, i).as_bytes());
				let _ = pr.rewind();
				let _ = pr.write_all(format!("{:>20}\n", cs).as_bytes());
				out.write_all(&cs.to_le_bytes()).unwrap();
				let c = make(&mut Rng::new(cs));
				for p in 0..PARTS {
					let d = if available(p) { fnv(part(&c, cs, p).as_bytes()) | 1 } else { 0 };
					out.write_all(&d.to_le_bytes()).unwrap();
				}
				i += 1;
			}
			out.flush().unwrap();
		}
	}
}
