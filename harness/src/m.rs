//! Parsing, rendering and mutation monitors.
use crate::ctx::Ctx;
use crate::gen::*;
use crate::model::*;
use crate::ops::*;
use crate::q::{any_world, some_set, some_world};
use crate::rng::Rng;
use crate::sel::*;
use crate::world::*;
use crate::{ensure, fail};
use std::cell::RefCell;
use std::rc::Rc;
use visdom::types::{IAttrValue, IFormValue, INodeType, Texts};
use visdom::Vis;

fn chars(v: Vec<char>) -> String {
	v.into_iter().collect()
}
fn small_shape(d: &Dom) -> String {
	let h = d.html(ROOT);
	let mut e = h.len().min(160);
	while !h.is_char_boundary(e) {
		e -= 1;
	}
	h[..e].to_string()
}
/// every rendering of every element equals the rendering of the reference tree
pub fn check_renderings(w: &World, r: &mut Rng, all: bool, ctx: &mut Ctx) -> R {
	let mut list = w.elems(ROOT);
	if !all {
		let pct = r.range(5, 60);
		list = r.subset(&list, pct);
	}
	for &i in &list {
		let e = w.el(i);
		let (o, h, t) = (e.outer_html(), e.inner_html(), e.text());
		let exp = w.d.html(i);
		ensure!(o == exp, "outer_html of {} is {:?}, expected {:?}", w.show(i), o, exp);
		let exp = w.d.inner(i);
		ensure!(h == exp, "html of {} is {:?}, expected {:?}", w.show(i), h, exp);
		ensure!(e.html() == h, "html() and inner_html() of {} differ", w.show(i));
		let exp = w.d.text(i);
		ensure!(t == exp, "text of {} is {:?}, expected {:?}", w.show(i), t, exp);
		ensure!(e.text_content() == t, "text_content() and text() of {} differ", w.show(i));
		ctx.judged("render", &format!("{}|{}", o, t), o.len() > 12);
	}
	if !list.is_empty() {
		let s = w.set(&list);
		let cat = |f: &dyn Fn(Id) -> String| list.iter().map(|&i| f(i)).collect::<String>();
		ensure!(s.outer_html() == w.d.html(list[0]), "outer_html() of a set is not that of its first element");
		ensure!(s.html() == w.d.inner(list[0]), "html() of a set is not that of its first element");
		ensure!(s.outer_htmls() == cat(&|i| w.d.html(i)), "outer_htmls() of a set is not the concatenation");
		ensure!(s.htmls() == cat(&|i| w.d.inner(i)), "htmls() of a set is not the concatenation");
		ensure!(s.text() == cat(&|i| w.d.text(i)), "text() of a set is not the concatenation");
		ctx.judged("render-set", &format!("{}", list.len()), list.len() > 1);
	}
	Ok(())
}
/// PROPERTY parse-lossless
pub fn parse_lossless(r: &mut Rng, ctx: &mut Ctx) -> R {
	let (mut p, mut d) = random_doc(r);
	if r.chance(2) {
		p.max_nodes = r.range(300, 2500);
		p.max_kids = 30;
		p.max_depth = 8;
		p.shape = Shape::Bushy;
		d = DocGen::new(&p).root(r, true);
	}
	with_cdata(r, &mut d);
	// the first or the last thing of the source is a text that begins or ends with an odd character
	if r.chance(6) && !d.is_document(ROOT) {
		let odd = *r.pick(&["\u{feff}", "\u{feff}x", "\u{0}", "\u{a0}", "\u{200b}a", "\u{2028}", "\u{1a}", "\u{fffe}"]);
		let kids = d.n[ROOT].kids.clone();
		let is_text = |i: Option<&Id>| i.map_or(false, |&i| matches!(d.n[i].kind, Kind::Text(_)));
		if r.chance(60) {
			if !is_text(kids.first()) {
				let t = d.add(Kind::Text(odd.to_string()));
				d.insert_at(ROOT, 0, t);
			}
		} else if !is_text(kids.last()) {
			let t = d.add(Kind::Text(odd.to_string()));
			d.append(ROOT, t);
		}
	}
	ctx.step(format!("load {}", d.html(ROOT)));
	let w = World::load(d)?;
	let src = w.d.html(ROOT);
	let doc = w.root.document();
	ensure!(doc.is_some(), "a loaded set has no document");
	let got = doc.unwrap().source_code();
	ensure!(got == src, "source_code is {:?} for {:?}", got, src);
	let root = w.root.outer_html();
	ensure!(root == src, "outer_html of the root is {:?} for {:?}", root, src);
	ensure!(w.root.text() == w.d.text(ROOT), "text of the root is {:?} for {:?}", w.root.text(), src);
	let ek = w.d.ekids(ROOT);
	let exp = if ek.len() == 1 { w.d.inner(ek[0]) } else { src.clone() };
	ensure!(w.root.html() == exp, "html of the root is {:?} for {:?}", w.root.html(), src);
	ctx.judged("load", &small_shape(&w.d), w.d.n.len() > 3);
	check_renderings(&w, r, true, ctx)?;
	// text nodes: raw and decoded form
	for i in w.d.subtree(ROOT) {
		if let Kind::Text(t) = &w.d.n[i].kind {
			let n = w.nd(i);
			ensure!(n.text() == decode(t), "text node {:?} reads {:?}", t, n.text());
			ensure!(chars(n.text_chars()) == *t, "text node {:?} has raw text {:?}", t, chars(n.text_chars()));
			ctx.judged("text-node", t, t.contains('&'));
		}
	}
	// reading changes nothing
	ensure!(w.root.outer_html() == src, "rendering is not repeatable");
	Ok(())
}
/// reparse `html` and compare with the reference subtree(s)
fn reparse(w: &World, html: &str, kids: &[Id], what: &str) -> R {
	let set: Set = match Vis::load(html.to_string()) {
		Ok(s) => s,
		Err(e) => fail!("{}: rendered html {:?} does not load: {}", what, html, e),
	};
	let sn = Snap::of_el(set.get(0).unwrap()).map_err(|e| format!("{}: {}", what, e))?;
	// expected tree: a root with copies of kids
	let mut x = Dom::new();
	for &k in kids {
		let c = x.import(&w.d, k);
		x.append(ROOT, c);
	}
	let x = content_normal(&normalized(&x, ROOT));
	let y = content_normal(&normalized(&sn.d, 0));
	same(&x, 0, &y, 0).map_err(|e| format!("{}: reparsing {:?} differs: {}", what, html, e))
}
/// title/textarea built from text children reparse as content
fn content_normal(d: &Dom) -> Dom {
	fn go(d: &Dom, i: Id, o: &mut Dom) -> Id {
		let mut k = d.n[i].kind.clone();
		let mut skip = false;
		if let Kind::Elem { name, content, .. } = &mut k {
			if is_content(name) {
				let mut c = content.clone().unwrap_or_default();
				for &x in &d.n[i].kids {
					if let Kind::Text(t) = &d.n[x].kind {
						c.push_str(t);
					}
				}
				*content = if c.is_empty() { None } else { Some(c) };
				skip = true;
			}
		}
		let c = o.add(k);
		if !skip {
			for &x in &d.n[i].kids {
				let y = go(d, x, o);
				o.append(c, y);
			}
		}
		c
	}
	let mut o = Dom::default();
	go(d, 0, &mut o);
	o
}
/// PROPERTY serialize-roundtrip
pub fn serialize_roundtrip(r: &mut Rng, ctx: &mut Ctx) -> R {
	let (p, mut w) = some_world(r, ctx, 0)?;
	let rounds = r.range(1, 4);
	for _ in 0..rounds {
		let n = r.range(0, 6);
		history(&mut w, r, &p, n, ctx)?;
		// values and texts with every markup character, also over what was there before
		let es = w.elems(ROOT);
		for _ in 0..r.below(3) {
			if es.is_empty() {
				break;
			}
			let i = *r.pick(&es);
			let names: Vec<String> = w.d.attrs(i).iter().map(|a| a.key.clone()).filter(|k| !k.eq_ignore_ascii_case("class")).collect();
			if r.chance(60) {
				let name = if names.is_empty() || r.chance(20) { "data-h".to_string() } else { r.pick(&names).clone() };
				if r.chance(35) {
					let (a, b, c) = (hostile_text(r), hostile_text(r), hostile_text(r));
					let q = if r.chance(50) { ('"', '\'') } else { ('\'', '"') };
					set_both_quotes(&mut w, i, &name, &format!("{}{}{}{}{}", a, q.0, b, q.1, c), ctx)?;
				} else {
					let v = hostile_value(r);
					set_attr(&mut w, &[i], &name, Some(&v), ctx)?;
				}
			} else {
				let t = w.d.tag(i);
				if !is_void(&t) && !is_content(&t) && !matches!(t.as_str(), "html" | "body") && w.attached(i) {
					let v = hostile_text(r);
					set_text(&mut w, &[i], &v, ctx)?;
				}
			}
		}
		let src = w.root.outer_html();
		let kids = w.d.n[ROOT].kids.clone();
		reparse(&w, &src, &kids, "outer_html of the root")?;
		let doc = w.root.document().map(|d| d.source_code());
		ensure!(doc.as_ref() == Some(&src), "source_code {:?} and outer_html {:?} differ", doc, src);
		ctx.judged("reparse-root", &src, src.len() > 20);
		let all = any_elems(&w);
		for _ in 0..6 {
			if all.is_empty() {
				break;
			}
			let i = *r.pick(&all);
			let o = w.el(i).outer_html();
			reparse(&w, &o, &[i], &format!("outer_html of {}", w.show(i)))?;
			ctx.judged("reparse-element", &o, o.len() > 12);
			if !is_content(&w.d.tag(i)) && !is_void(&w.d.tag(i)) {
				let h = w.el(i).inner_html();
				let k = w.d.n[i].kids.clone();
				reparse(&w, &h, &k, &format!("html of {}", w.show(i)))?;
				ctx.judged("reparse-inner", &h, h.len() > 12);
				let t = w.el(i).text();
				ensure!(t == w.d.text(i), "text of {} is {:?}, expected {:?}", w.show(i), t, w.d.text(i));
			}
		}
	}
	// writing back what was read keeps the tree
	let all: Vec<Id> = plain_elems(&w, ROOT).into_iter().filter(|&i| !is_void(&w.d.tag(i))).collect();
	if !all.is_empty() {
		let i = *r.pick(&all);
		ctx.step(format!("set_html(html()) on {}", w.show(i)));
		let before = w.root.outer_html();
		let mut s = w.set(&[i]);
		let h = s.html();
		s.set_html(&h);
		let kids = w.d.n[ROOT].kids.clone();
		reparse(&w, &w.root.outer_html(), &kids, &format!("set_html(html()) changed {:?}", before))?;
		ctx.judged("write-back", &h, h.len() > 12);
	}
	Ok(())
}
/// PROPERTY tree-integrity: long histories, with navigation cross-checks
pub fn tree_integrity(r: &mut Rng, ctx: &mut Ctx) -> R {
	let (p, mut d) = random_doc(r);
	with_cdata(r, &mut d);
	let mut w = World::load(d)?;
	ctx.step(w.log[0].clone());
	let rounds = r.range(1, 5);
	for _ in 0..rounds {
		let n = r.range(1, 8);
		history(&mut w, r, &p, n, ctx)?;
		for i in any_elems(&w) {
			let e = w.el(i);
			let ids = |s: &visdom::types::Elements| w.ids_of(s);
			ensure!(ids(&e.children())? == w.d.ekids(i), "children() of {}", w.show(i));
			let nx = e.next_element_sibling().map(|x| w.id_of(&x)).transpose()?;
			ensure!(nx == w.d.next_el(i), "next sibling of {}", w.show(i));
			let pv = e.previous_element_sibling().map(|x| w.id_of(&x)).transpose()?;
			ensure!(pv == w.d.prev_el(i), "previous sibling of {}", w.show(i));
			let par = e.parent().map(|x| w.id_of(&x)).transpose()?;
			let exp = w.d.n[i].parent;
			ensure!(
				par == exp || (exp.map_or(false, |x| !w.d.is_elem(x)) && par.is_none()),
				"parent of {}",
				w.show(i)
			);
			let k = w.d.n[i].kids.len();
			ensure!(e.child_nodes_item(k).is_none(), "{} has a child past its last one", w.show(i));
			ctx.judged("navigate", &format!("{}@{}/{}", w.d.tag(i), w.d.index(i), k), exp.is_some());
		}
	}
	if r.chance(25) {
		flawed_edits(&mut w, r, &p, ctx)?;
	}
	Ok(())
}
/// edits with markup of any quality: the reference tree can't follow, the links still have to be right
/// and what was not edited stays
fn flawed_edits(w: &mut World, r: &mut Rng, p: &Profile, ctx: &mut Ctx) -> R {
	let all: Vec<Id> = w.elems(ROOT).into_iter().filter(|&i| !is_content(&w.d.tag(i)) && !is_void(&w.d.tag(i))).collect();
	let texts: Vec<Id> = w.d.subtree(ROOT).into_iter().filter(|&i| w.d.is_text(i)).collect();
	if all.is_empty() {
		return Ok(());
	}
	let src = soup(r, p);
	let (i, what);
	if !texts.is_empty() && r.chance(30) {
		i = *r.pick(&texts);
		what = format!("text node {} set_html {:?}", w.show(i), src);
		ctx.step(what.clone());
		let mut tn = w.nd(i).typed().into_text().expect("harness: text");
		if let Err(e) = crate::guarded(|| tn.set_html(&src)) {
			if ctx.is_known("C12", &e) {
				return Ok(());
			}
			fail!("{}: {}", what, e);
		}
	} else {
		i = *r.pick(&all);
		what = format!("{} set_html {:?}", w.show(i), src);
		ctx.step(what.clone());
		let mut e = w.el(i);
		if let Err(e) = crate::guarded(|| e.set_html(&src)) {
			if ctx.is_known("C12", &e) {
				return Ok(());
			}
			fail!("{}: {}", what, e);
		}
	}
	let refused = w.errs_len() > 0;
	w.errs.borrow_mut().clear();
	let sn = Snap::of_el(&w.el(ROOT)).map_err(|e| format!("{}: {}", what, e))?;
	let inside = w.d.subtree(i);
	for k in w.d.subtree(ROOT) {
		let here = sn.addrs.contains(&addr(&w.nd(k)));
		if !inside.contains(&k) || (k == i && w.d.is_elem(i)) || refused {
			ensure!(here, "after {}: {} is gone", what, w.show(k));
		} else {
			ensure!(!here, "after {}: the replaced {} is still in the tree", what, w.show(k));
			ensure!(w.nd(k).parent().map_or(true, |p| !sn.addrs.contains(&addr_el(&p))), "after {}: the replaced {} still reports a parent in the tree", what, w.show(k));
		}
	}
	ctx.judged("flawed-markup", &src, !refused);
	for _ in 0..3 {
		let found = w.root.find("*");
		if found.length() < 2 {
			break;
		}
		let a = found.eq(r.below(found.length()));
		let op = r.below(4);
		ctx.step(format!("then {} <{}>", ["remove", "move", "empty", "replace"][op], a.get(0).unwrap().tag_name()));
		match op {
			0 => {
				a.remove();
			}
			1 => {
				let mut a = a;
				let mut b = found.eq(r.below(found.length()));
				if b.closest("*").add(b.parents("")).get_ref().iter().all(|x| !x.is(a.get(0).unwrap())) {
					b.after(&mut a);
				}
			}
			2 => {
				let mut a = a;
				a.empty();
			}
			_ => {
				let mut a = a;
				let mut f: Set = Vis::load("<u>1</u>2<i></i>").unwrap();
				a.replace_with(&mut f);
			}
		}
		Snap::of_el(&w.el(ROOT)).map_err(|e| format!("{}, then another edit: {}", what, e))?;
	}
	Ok(())
}
/// PROPERTY insert-semantics
pub fn insert_semantics(r: &mut Rng, ctx: &mut Ctx) -> R {
	let (p, mut w) = some_world(r, ctx, 15)?;
	let n = r.range(2, 7);
	for _ in 0..n {
		match r.below(10) {
			// content tags and void targets
			0 => {
				let t: Vec<Id> = w.elems(ROOT).into_iter().filter(|&i| is_plain(&w.d.tag(i)) || is_void(&w.d.tag(i))).collect();
				let c = pick_content(&mut w, r, &p, ctx)?;
				if let Some(&t) = t.first() {
					if !c.is_empty() && !w.d.ancestors(t).iter().any(|a| c.contains(a)) && !c.contains(&t) && w.d.content(t).is_none() {
						let pos = *r.pick(&[Pos::Append, Pos::Prepend]);
						insert(&mut w, pos, &[t], &c, ctx)?;
					}
				}
			}
			// element level API: same as a set of one
			1 => {
				let all: Vec<Id> = plain_elems(&w, ROOT);
				if all.len() > 1 {
					let (t, c) = (*r.pick(&all), *r.pick(&all));
					let pos = *r.pick(POSITIONS);
					insert(&mut w, pos, &[t], &[c], ctx)?;
				}
			}
			_ => random_insert(&mut w, r, &p, ctx)?,
		}
	}
	check_some_queries(&w, r, ctx)
}
/// after mutations, a few structural queries see the new tree
fn check_some_queries(w: &World, r: &mut Rng, ctx: &mut Ctx) -> R {
	let all = w.elems(ROOT);
	let got = w.ids_of(&w.root.find("*"))?;
	ensure!(got == all, "find(\"*\") gives {} expected {}", w.show_ids(&got), w.show_ids(&all));
	ctx.judged("find-all-after", &format!("{}", all.len()), all.len() > 2);
	if !all.is_empty() {
		let i = *r.pick(&all);
		let t = w.d.tag(i);
		if tag_ok(&t) {
			let exp: Vec<Id> = all.iter().copied().filter(|&x| w.d.tag(x) == t).collect();
			let got = w.ids_of(&w.root.find(&t))?;
			ensure!(got == exp, "find({:?}) gives {} expected {}", t, w.show_ids(&got), w.show_ids(&exp));
		}
	}
	Ok(())
}
/// PROPERTY remove-replace
pub fn remove_replace(r: &mut Rng, ctx: &mut Ctx) -> R {
	let (p, mut w) = some_world(r, ctx, 15)?;
	let n = r.range(2, 7);
	for _ in 0..n {
		match r.below(8) {
			0 | 1 => random_replace(&mut w, r, &p, ctx)?,
			2 | 3 => {
				let s: Vec<Id> = some_set(&w, r, ROOT).into_iter().filter(|&i| w.d.tag(i) != "html").collect();
				if !s.is_empty() {
					remove(&mut w, &s, ctx)?;
				}
			}
			4 => {
				let s: Vec<Id> = some_set(&w, r, ROOT);
				let s: Vec<Id> = s.into_iter().filter(|&i| !matches!(w.d.tag(i).as_str(), "html" | "body") && !is_void(&w.d.tag(i))).collect();
				// nested targets: outer first, as the set order says
				if !s.is_empty() {
					set_text(&mut w, &s, "", ctx)?;
				}
			}
			5 => {
				let all = any_elems(&w);
				if !all.is_empty() {
					let c = *r.pick(&all);
					let pp = match w.d.n[c].parent {
						Some(x) if r.chance(60) => x,
						// an ancestor that is not the parent: nothing happens
						Some(x) if r.chance(35) => w.d.n[x].parent.unwrap_or(ROOT),
						Some(_) if r.chance(15) && w.d.top(c) == ROOT => ROOT,
						_ => *r.pick(&all),
					};
					if w.d.tag(c) != "html" {
						remove_child(&mut w, pp, c, ctx)?;
					}
				}
			}
			6 => {
				// a removed element can be put back
				let t: Vec<Id> = w.tops().into_iter().filter(|&t| w.d.is_elem(t)).collect();
				let all = plain_elems(&w, ROOT);
				if !t.is_empty() && !all.is_empty() {
					let (c, t) = (*r.pick(&t), *r.pick(&all));
					let pos = *r.pick(POSITIONS);
					insert(&mut w, pos, &[t], &[c], ctx)?;
				}
			}
			_ => {
				let s: Vec<Id> = some_set(&w, r, ROOT).into_iter().filter(|&i| !matches!(w.d.tag(i).as_str(), "html") && !is_content(&w.d.tag(i))).collect();
				if !s.is_empty() {
					let f = random_frag(r, &p);
					set_html(&mut w, &s, &f, ctx)?;
				}
			}
		}
		// removed subtrees stay usable
		for t in w.tops() {
			if w.d.is_elem(t) {
				let o = w.el(t).outer_html();
				reparse(&w, &o, &[t], "a removed element")?;
				ctx.judged("removed-usable", &o, true);
			}
		}
	}
	check_some_queries(&w, r, ctx)
}
/// PROPERTY mutation-reject: impossible insertions leave everything unchanged and are reported
pub fn mutation_reject(r: &mut Rng, ctx: &mut Ctx) -> R {
	let (p, mut w) = some_world(r, ctx, 20)?;
	let n = r.range(2, 6);
	for _ in 0..n {
		let all: Vec<Id> = plain_elems(&w, ROOT);
		if all.is_empty() {
			return Ok(());
		}
		let t = *r.pick(&all);
		let pos = *r.pick(POSITIONS);
		let mut content = match r.below(5) {
			0 => vec![t],
			1 => {
				let a: Vec<Id> = w.d.ancestors(t).into_iter().filter(|&x| w.d.is_elem(x)).collect();
				if a.is_empty() {
					vec![t]
				} else {
					vec![*r.pick(&a)]
				}
			}
			2 => {
				// another document
				let mut q = p.clone();
				q.max_nodes = 6;
				let d = DocGen::new(&q).root(r, true);
				ctx.step(format!("load other document {:?}", d.html(ROOT)));
				vec![w.load_frag(&d)?]
			}
			3 => vec![ROOT],
			_ => {
				// mixed with something acceptable
				let mut c = pick_content(&mut w, r, &p, ctx)?;
				let a: Vec<Id> = w.d.ancestors(t).into_iter().filter(|&x| w.d.is_elem(x)).collect();
				let bad = if a.is_empty() || r.chance(50) { t } else { *r.pick(&a) };
				if !c.contains(&bad) {
					let at = r.below(c.len() + 1);
					c.insert(at, bad);
				}
				c
			}
		};
		content.dedup();
		let html = w.root.outer_html();
		if r.chance(75) {
			insert(&mut w, pos, &[t], &content, ctx)?;
		} else if content.len() == 1 {
			replace(&mut w, &[t], &content, ctx)?;
		} else {
			continue;
		}
		if content.len() == 1 {
			ensure!(w.root.outer_html() == html, "a rejected insertion changed the document");
			ctx.judged("rejected", &format!("{:?} {}", pos, html), true);
		}
	}
	Ok(())
}
pub fn hostile_text(r: &mut Rng) -> String {
	const PARTS: &[&str] = &[
		"<", ">", "&", "\"", "'", "&amp;", "&lt;", "&gt;", "&#60;", "&#x3c;", "</div>", "<script>", "-->", "<!--", "]]>", "a", "b c",
		"\n", "\t", " ", "\u{a0}", "\u{e9}", "\u{1f600}", "\u{4f60}", "&&", "&;", "&x", "amp;", "lt;", "<b>x</b>", "=", "/", "`", "\u{0}", "\r\n",
		"&copy;", "\u{2028}", "\u{feff}", "%3C", "\\", "&notit;", "&#0;", "&#xD800;", "&#99999999;",
	];
	let n = r.range(1, 6);
	let mut s = String::new();
	for _ in 0..n {
		if r.chance(8) {
			let c = loop {
				let x = r.below(0x11_0000) as u32;
				if let Some(c) = char::from_u32(x) {
					break c;
				}
			};
			s.push(c);
		} else {
			s.push_str(r.pick(PARTS));
		}
	}
	s
}
/// PROPERTY text-escape
pub fn text_escape(r: &mut Rng, ctx: &mut Ctx) -> R {
	let (_p, mut w) = some_world(r, ctx, 10)?;
	let n = r.range(2, 8);
	for _ in 0..n {
		let all: Vec<Id> = plain_elems(&w, ROOT)
			.into_iter()
			.filter(|&i| !is_void(&w.d.tag(i)) && !matches!(w.d.tag(i).as_str(), "html" | "body"))
			.collect();
		if all.is_empty() {
			return Ok(());
		}
		let k = if r.chance(70) { 1 } else { 2 };
		let mut ids: Vec<Id> = (0..k).map(|_| *r.pick(&all)).collect();
		ids = w.order(&ids);
		let s = hostile_text(r);
		set_text(&mut w, &ids, &s, ctx)?;
		for &i in &ids {
			let e = w.el(i);
			ensure!(e.text() == s, "text() gives {:?} after set_text {:?}", e.text(), s);
			let h = e.inner_html();
			ensure!(!h.contains('<') && !h.contains('>'), "set_text {:?} rendered markup {:?}", s, h);
			// a fresh parse sees one text with the same meaning
			let o = e.outer_html();
			let x: Set = Vis::load(o.clone()).map_err(|e| format!("{:?}: {}", o, e))?;
			ensure!(x.length() == 1, "reload");
			let c = x.children("");
			ensure!(c.length() == 1, "set_text {:?} changed the structure: {:?}", s, o);
			let c0 = c.get(0).unwrap();
			ensure!(c0.children().length() == 0 && c0.child_nodes_length() == 1, "set_text {:?} became markup: {:?}", s, o);
			ensure!(c0.text() == s, "after reparse set_text {:?} reads {:?}", s, c0.text());
			ctx.judged("set-read-reparse", &s, s.contains(|c| matches!(c, '<' | '>' | '&' | '"' | '\'')));
		}
		// an element whose content is escapable text (textarea, title): its rendering may not break out
		let esc: Vec<Id> = w.elems(ROOT).into_iter().filter(|&i| matches!(w.d.tag(i).as_str(), "textarea" | "title")).collect();
		if !esc.is_empty() && r.chance(50) {
			let i = *r.pick(&esc);
			let mut s = hostile_text(r);
			if r.chance(50) {
				s.push_str(r.pick(&["</textarea>", "</title>", "</TITLE ><b>", "</textarea><i>x</i>"]));
			}
			ctx.step(format!("{} set_text {:?}", w.show(i), s));
			w.set(&[i]).set_text(&s);
			if let Kind::Elem { content, .. } = &mut w.d.n[i].kind {
				*content = Some(s.clone());
			}
			let kids = w.d.n[i].kids.clone();
			for k in kids {
				w.d.detach(k);
			}
			let e = w.el(i);
			ensure!(e.text() == s, "text() of {} gives {:?} after set_text {:?}", w.show(i), e.text(), s);
			let h = e.inner_html();
			ensure!(!h.contains('<') && !h.contains('>'), "set_text {:?} rendered markup {:?}", s, h);
			let o = e.outer_html();
			let x: Set = Vis::load(o.clone()).map_err(|e| format!("{:?}: {}", o, e))?;
			let c = x.children("");
			ensure!(c.length() == 1 && x.find("*").length() == 1, "set_text {:?} changed the structure: {:?}", s, o);
			ensure!(c.get(0).unwrap().tag_name().eq_ignore_ascii_case(&w.d.tag(i)), "set_text {:?} changed the structure: {:?}", s, o);
			ctx.judged("set-render-textarea", &s, s.contains('<'));
			// the same for every element around it
			let raw = w.elems(ROOT).into_iter().any(|x| {
				matches!(w.d.tag(x).as_str(), "script" | "style") && matches!(&w.d.n[x].kind, Kind::Elem { content: Some(c), .. } if c.contains('<'))
			});
			let top = w.d.parent_elem(i).filter(|_| r.chance(60)).unwrap_or(ROOT);
			if !raw && w.d.top(i) == ROOT {
				let o = w.el(top).outer_html();
				let x: Set = Vis::load(o.clone()).map_err(|e| format!("{:?}: {}", o, e))?;
				let got: Vec<String> = x.find("*").map(|_, e| e.tag_name().to_ascii_lowercase());
				let mut exp: Vec<String> = if top == ROOT { vec![] } else { vec![w.d.tag(top)] };
				exp.extend(w.d.desc_elems(top).into_iter().map(|x| w.d.tag(x)));
				ensure!(got == exp, "after set_text {:?} of {} the markup {:?} holds {:?}, expected {:?}", s, w.show(i), o, got, exp);
				ctx.judged("set-render-around", &s, s.contains('<'));
			}
		}
		// text of ancestors contains it at the right place
		if let Some(p) = w.d.parent_elem(ids[0]) {
			let t = w.el(p).text();
			let exp: String = w.d.subtree(p).iter().filter_map(|&x| match &w.d.n[x].kind {
				Kind::Text(t) => Some(full_decode(t)),
				Kind::Elem { content: Some(c), .. } => Some(c.clone()),
				_ => None,
			}).collect();
			ensure!(t == exp, "text of the parent is {:?} expected {:?}", t, exp);
		}
	}
	Ok(())
}
/// references the generators emit, named and numeric
fn full_decode(s: &str) -> String {
	let named = s.replace("&copy;", "\u{a9}").replace("&eacute;", "\u{e9}").replace("&nbsp;", "\u{a0}");
	if named == s {
		unescape(s)
	} else {
		decode(s)
	}
}
fn hostile_value(r: &mut Rng) -> String {
	let mut s = hostile_text(r);
	if s.contains('"') && s.contains('\'') {
		// which of the two is the delimiter is the library's choice: checked separately
		s = if r.chance(50) { s.replace('"', "") } else { s.replace('\'', "") };
	}
	s
}
/// a value with both quote kinds: it may be escaped but must mean the same
fn set_both_quotes(w: &mut World, i: Id, name: &str, v: &str, ctx: &mut Ctx) -> R {
	ctx.step(format!("set_attr {:?}={:?} on {}", name, v, w.show(i)));
	w.set(&[i]).set_attr(name, Some(v));
	let raw = attr_val(w.el(i).get_attribute(name));
	match raw {
		Some(Some(x)) => {
			ensure!(unquote(&x) == unquote(v), "set_attr {:?} stored {:?}", v, x);
			w.d.set_attr(i, name, Some(x));
		}
		o => fail!("set_attr {:?} stored {:?}", v, o),
	}
	w.check()
}
/// PROPERTY attributes
pub fn attributes(r: &mut Rng, ctx: &mut Ctx) -> R {
	let (p, mut w) = some_world(r, ctx, 10)?;
	let n = r.range(3, 10);
	for _ in 0..n {
		let all = w.elems(ROOT);
		if all.is_empty() {
			return Ok(());
		}
		let k = r.range(1, 3);
		let ids: Vec<Id> = w.order(&(0..k).map(|_| *r.pick(&all)).collect::<Vec<_>>());
		let name = random_attr_name(r, &p);
		let i0 = ids[0];
		match r.below(8) {
			0 | 1 => remove_attr(&mut w, &ids, &name, ctx)?,
			2 => set_attr(&mut w, &ids, &name, None, ctx)?,
			3 if !name.eq_ignore_ascii_case("class") => {
				let v = format!("{}\"x'{}", hostile_text(r), hostile_text(r));
				set_both_quotes(&mut w, i0, &name, &v, ctx)?;
				ctx.judged("set_attr-both-quotes", &v, true);
			}
			_ => {
				let v = if name.eq_ignore_ascii_case("class") {
					random_class_names(r, &p)
				} else if r.chance(60) {
					hostile_value(r)
				} else {
					r.pick(&p.attr_vals).clone()
				};
				set_attr(&mut w, &ids, &name, Some(&v), ctx)?;
				for &i in &ids {
					let low = name.to_ascii_lowercase();
					let up = name.to_ascii_uppercase();
					for nm in [&name, &low, &up] {
						let g = attr_val(w.el(i).get_attribute(nm));
						ensure!(g == Some(Some(v.clone())), "attribute {:?} reads {:?} after set_attr {:?}={:?}", nm, g, name, v);
						ensure!(w.el(i).has_attribute(nm), "has_attribute({:?}) is false", nm);
					}
				}
			}
		}
		if r.below(150) == 0 {
			let from = r.below(20);
			for k in from..from + r.range(60, 75) {
				set_attr(&mut w, &[i0], &format!("n-{}", k), Some(&k.to_string()), ctx)?;
			}
		}
		// set level readers
		let name = match w.d.attrs(i0) {
			a if !a.is_empty() && r.chance(40) => r.pick(a).key.clone(),
			_ => name,
		};
		let s = w.set(&ids);
		let g = attr_val(s.attr(&name));
		let e = w.d.attr(i0, &name).map(|x| x.map(|y| y.to_string()));
		ensure!(g == e, "attr({:?}) of the set is {:?}, of its first element {:?}", name, g, e);
		let any = ids.iter().any(|&i| w.d.attr(i, &name).is_some());
		ensure!(s.has_attr(&name) == any, "has_attr({:?}) is {}", name, s.has_attr(&name));
		if let Some(v) = s.attr(&name) {
			match (&v, &e) {
				(IAttrValue::True, Some(None)) => ensure!(v.is_true() && v.is_str("") && v.to_string().is_empty() && v.to_list().is_empty(), "boolean attribute readers"),
				(IAttrValue::Value(..), Some(Some(x))) => {
					ensure!(!v.is_true() && v.is_str(x) && v.to_string() == *x, "attribute value readers of {:?}", x);
					for other in [format!("{} ", x), format!(" {}", x), x.trim().to_string(), x.to_uppercase(), x.to_lowercase(), format!("{}x", x), String::new()] {
						ensure!(v.is_str(&other) == (other == *x), "is_str({:?}) of the value {:?} is {}", other, x, v.is_str(&other));
					}
					let l: Vec<&str> = x.split_ascii_whitespace().collect();
					// leading and trailing exotic spaces are left open
					ensure!(x.trim() != x.trim_matches(|c: char| c.is_ascii_whitespace()) || v.to_list() == l, "to_list of {:?} is {:?}", x, v.to_list());
				}
				_ => fail!("attr kind of {:?}", name),
			}
		}
		ctx.judged("read", &format!("{}={:?}", name, e), e.is_some());
		// only the named elements changed and the rendering says the same
		let i = *r.pick(&ids);
		let o = w.el(i).outer_html();
		let x: Set = Vis::load(o.clone()).map_err(|e| format!("{:?}: {}", o, e))?;
		let c = x.children("");
		ensure!(c.length() == 1, "attributes broke the structure: {:?}", o);
		let got = attr_list(c.get(0).unwrap());
		let exp = attr_list(&w.el(i));
		ensure!(got == exp, "attributes {:?} reparse as {:?} from {:?}", exp, got, o);
		ctx.judged("reparse", &o, !exp.is_empty());
		// attribute selectors see the current value
		let lname = name.to_ascii_lowercase();
		if ident_ok(&lname) && !matches!(lname.as_str(), "class" | "id") {
			let sel = format!("[{}]", lname);
			let exp: Vec<Id> = w.elems(ROOT).into_iter().filter(|&i| w.d.attr(i, &name).is_some()).collect();
			let got = w.ids_of(&w.root.find(&sel))?;
			ensure!(got == exp, "find({:?}) gives {} expected {}", sel, w.show_ids(&got), w.show_ids(&exp));
			ctx.judged("select-by-attr", &sel, !exp.is_empty());
		}
	}
	Ok(())
}
fn unquote(s: &str) -> String {
	s.replace("&quot;", "\"").replace("&apos;", "'").replace("&#39;", "'").replace("&#34;", "\"")
}
/// PROPERTY classes
pub fn classes_check(r: &mut Rng, ctx: &mut Ctx) -> R {
	let (p, mut w) = some_world(r, ctx, 15)?;
	let n = r.range(3, 10);
	for _ in 0..n {
		let all = w.elems(ROOT);
		if all.is_empty() {
			return Ok(());
		}
		let k = r.range(1, 4);
		let ids: Vec<Id> = w.order(&(0..k).map(|_| *r.pick(&all)).collect::<Vec<_>>());
		let names = if r.chance(4) { " ".to_string() } else { random_class_names(r, &p) };
		let op = r.below(3);
		if r.chance(10) {
			// irregular spelling already in the document
			let s1 = *r.pick(&["\n\t", "\r", "\x0c", "\r\n", " \t "]);
			let v = format!("{}{}{}{} ", r.pick(&["  ", "", "\r"]), r.pick(&p.classes), s1, r.pick(CLASSES));
			set_attr(&mut w, &ids[..1], "class", Some(&v), ctx)?;
		}
		class_op(&mut w, &ids, op, &names, ctx)?;
		let list = words(&names);
		let s = w.set(&ids);
		let exp = !list.is_empty()
			&& ids.iter().any(|&i| {
				let c = classes(&w.d, i);
				list.iter().all(|x| c.contains(x))
			});
		ensure!(s.has_class(&names) == exp, "has_class({:?}) on {} is {}", names, w.show_ids(&ids), !exp);
		ctx.judged("has_class", &format!("{} on {}", names, w.show_ids(&ids)), exp);
		if op == 0 && !list.is_empty() {
			for &i in &ids {
				ensure!(w.set(&[i]).has_class(&names), "has_class is false right after add_class({:?})", names);
			}
		}
		if op == 1 {
			for &i in &ids {
				for c in &list {
					ensure!(!w.set(&[i]).has_class(c), "has_class({:?}) is true right after remove_class", c);
				}
			}
		}
		if let Some(c) = list.iter().find(|c| ident_ok(c)) {
			let exp: Vec<Id> = w.elems(ROOT).into_iter().filter(|&i| classes(&w.d, i).contains(c)).collect();
			let got = w.ids_of(&w.root.find(&format!(".{}", esc_ident(c))))?;
			ensure!(got == exp, "find(\".{}\") gives {} expected {}", c, w.show_ids(&got), w.show_ids(&exp));
			ctx.judged("select-by-class", &format!("{}->{}", c, exp.len()), !exp.is_empty());
		}
	}
	Ok(())
}
/// PROPERTY clone-independent
pub fn clone_independent(r: &mut Rng, ctx: &mut Ctx) -> R {
	let (p, mut w) = any_world(r, ctx, 30)?;
	let n = r.range(1, 4);
	for _ in 0..n {
		let all = any_elems(&w);
		if all.is_empty() {
			return Ok(());
		}
		let k = r.range(1, 3);
		let mut ids: Vec<Id> = (0..k).map(|_| *r.pick(&all)).collect();
		ids.sort();
		ids.dedup();
		let ids = w.order(&ids);
		let copies = clone_set(&mut w, &ids, ctx)?;
		for (a, b) in ids.iter().zip(&copies) {
			let (x, y) = (w.el(*a).outer_html(), w.el(*b).outer_html());
			ensure!(x == y, "the copy of {:?} renders {:?}", x, y);
			ensure!(!w.el(*a).is(&w.el(*b)), "the copy is the original");
		}
		// element level copies
		let a = *r.pick(&all);
		let c = w.el(a).copied();
		let id = w.d.copy(a, &mut vec![]);
		w.bind(id, node_of(&c), 0).map_err(|e| format!("copied(): {}", e))?;
		w.keep.push(Vis::dom(&c));
		// cloned() is the same node
		let cl = w.el(a).cloned();
		ensure!(cl.is(&w.el(a)) && addr_el(&cl) == addr_el(&w.el(a)), "cloned() is another node");
		let sc = w.set(&[a]).cloned();
		ensure!(w.ids_of(&sc)? == vec![a], "Elements::cloned() gives other nodes");
		// mutate one side: the whole-world monitor checks that the other one is untouched
		let m = r.range(1, 4);
		history(&mut w, r, &p, m, ctx)?;
		let t: Vec<Id> = copies.iter().copied().filter(|&c| !is_content(&w.d.tag(c))).collect();
		if !t.is_empty() {
			let c = *r.pick(&t);
			let tgt = {
				let mut v = vec![c];
				v.extend(w.elems(c));
				*r.pick(&v)
			};
			match r.below(4) {
				0 => set_attr(&mut w, &[tgt], "data-q", Some("copy"), ctx)?,
				1 => class_op(&mut w, &[tgt], 2, "copyclass", ctx)?,
				2 if !is_void(&w.d.tag(tgt)) && !is_content(&w.d.tag(tgt)) => set_text(&mut w, &[tgt], "copy", ctx)?,
				_ => {
					if w.d.n[tgt].parent.is_some() {
						remove(&mut w, &[tgt], ctx)?
					}
				}
			}
		}
		ctx.judged("copy-history", &w.show_ids(&copies), true);
	}
	Ok(())
}
fn m_texts(d: &Dom, i: Id, depth: usize, limit: usize, rec: &dyn Fn(Id) -> bool, out: &mut Vec<(usize, Id)>) {
	if d.n[i].kids.is_empty() && is_content(&d.tag(i)) {
		out.push((depth, i));
		return;
	}
	for &k in &d.n[i].kids {
		if d.is_text(k) {
			out.push((depth, k));
		} else if d.is_elem(k) {
			if is_content(&d.tag(k)) {
				out.push((depth, k));
			} else if depth + 1 < limit && rec(k) {
				m_texts(d, k, depth + 1, limit, rec, out);
			}
		}
	}
}
fn text_ids(w: &World, t: &Texts) -> R<Vec<Id>> {
	t.get_ref()
		.iter()
		.map(|x| match w.ids.get(&addr(&x.clone_node())) {
			Some(&i) => Ok(i),
			None => Err("texts() returned an unknown node".to_string()),
		})
		.collect()
}
/// PROPERTY text-nodes
pub fn text_nodes(r: &mut Rng, ctx: &mut Ctx) -> R {
	let (p, mut w) = some_world(r, ctx, 20)?;
	let n = r.range(2, 7);
	for _ in 0..n {
		let all = any_elems(&w);
		if all.is_empty() {
			return Ok(());
		}
		let ids: Vec<Id> = if r.chance(20) { vec![ROOT] } else { (0..r.range(1, 2)).map(|_| *r.pick(&all)).collect() };
		if r.chance(12) {
			// an emptied script, title … is still a text
			let c: Vec<Id> = all.iter().copied().filter(|&i| is_content(&w.d.tag(i))).collect();
			if !c.is_empty() {
				set_text(&mut w, &[*r.pick(&c)], "", ctx)?;
			}
		}
		let set = w.set(&ids);
		let limit = if r.chance(15) { r.range(5, 12) } else { r.below(5) };
		let lim = if limit == 0 { usize::MAX } else { limit };
		let mode = r.below(3);
		let skip_tag = w.d.tag(*r.pick(&all));
		let mut exp: Vec<(usize, Id)> = vec![];
		let tagd = w.d.clone();
		let st = skip_tag.clone();
		let rec = move |i: Id| mode != 2 || tagd.tag(i) != st;
		for &i in &ids {
			m_texts(&w.d, i, 0, lim, &rec, &mut exp);
		}
		let what = format!("texts mode {} limit {} on {}", mode, limit, w.show_ids(&ids));
		ctx.step(what.clone());
		let seen = Rc::new(RefCell::new(vec![]));
		let s2 = Rc::clone(&seen);
		let mut got = match mode {
			0 => set.texts(limit),
			1 => set.texts_by(
				limit,
				Box::new(move |d, t| {
					s2.borrow_mut().push((d, addr(&t.clone_node())));
					d % 2 == 0
				}),
			),
			_ => {
				let st = skip_tag.clone();
				set.texts_by_rec(
					limit,
					Box::new(move |d, t| {
						s2.borrow_mut().push((d, addr(&t.clone_node())));
						d % 2 == 0 || d > 4
					}),
					Box::new(move |e| e.tag_name().to_ascii_lowercase() != st),
				)
			}
		};
		if mode != 0 {
			let s: Vec<(usize, Id)> = seen.borrow().iter().map(|(d, a)| (*d, *w.ids.get(a).unwrap_or(&usize::MAX))).collect();
			ensure!(s == exp, "{}: the handle saw {:?}, expected {:?}", what, s, exp);
			exp.retain(|x| x.0 % 2 == 0 || (mode == 2 && x.0 > 4));
		}
		let e: Vec<Id> = exp.iter().map(|x| x.1).collect();
		let g = text_ids(&w, &got)?;
		ensure!(g == e, "{} gave {} expected {}", what, w.show_ids(&g), w.show_ids(&e));
		ensure!(got.length() == e.len() && got.is_empty() == e.is_empty(), "{}: length", what);
		ctx.judged("texts", &what, !e.is_empty());
		let cat: String = got.get_ref().iter().map(|t| t.text()).collect();
		let exp_cat: String = e.iter().map(|&i| w.d.text(i)).collect();
		ensure!(cat == exp_cat, "{}: texts read {:?} expected {:?}", what, cat, exp_cat);
		// iteration helpers
		let mut vis = vec![];
		let stop = r.below(e.len() + 2);
		if r.chance(50) {
			got.for_each(|ix, t| {
				vis.push((ix, addr(&t.clone_node())));
				ix + 1 < stop
			});
		} else {
			got.each(|ix, t| {
				vis.push((ix, addr(&t.clone_node())));
				ix + 1 < stop
			});
		}
		let expv = e.len().min(stop.max(1));
		ensure!(vis.len() == expv && vis.iter().enumerate().all(|(k, v)| v.0 == k && w.ids.get(&v.1) == Some(&e[k])), "{}: for_each visited {:?}", what, vis);
		let f = got.filter_by(|ix, t| ix % 2 == 1 || t.text().len() > 3);
		let expf: Vec<Id> = e.iter().enumerate().filter(|(k, &i)| k % 2 == 1 || w.d.text(i).len() > 3).map(|x| *x.1).collect();
		let gf = text_ids(&w, &f)?;
		ensure!(gf == expf, "{}: filter_by gave {} expected {}", what, w.show_ids(&gf), w.show_ids(&expf));
		ctx.judged("texts-filter", &what, !expf.is_empty());
		// mutations through the collection
		match r.below(6) {
			0 if ids.len() == 1 => {
				ctx.step("texts.remove()".into());
				f.remove();
				for &i in &expf {
					w.d.detach(i);
				}
				w.check().map_err(|e| format!("{} remove: {}", what, e))?;
				ctx.judged("texts-remove", &what, !expf.is_empty());
			}
			1 if ids.len() == 1 => {
				ctx.step("append/prepend_text to all".into());
				got.for_each(|_, t| {
					t.append_text("+&amp;");
					t.prepend_text("-\u{e9}");
					true
				});
				for &i in &e {
					match &mut w.d.n[i].kind {
						Kind::Text(t) => *t = format!("-\u{e9}{}+&amp;", t),
						Kind::Elem { content, .. } => *content = Some(format!("-\u{e9}{}+&amp;", content.clone().unwrap_or_default())),
						_ => {}
					}
				}
				// a content tag built from text children keeps its content in front of them
				if e.iter().any(|&i| w.d.is_elem(i) && !w.d.n[i].kids.is_empty()) {
					return Ok(());
				}
				w.check().map_err(|e| format!("{} append/prepend: {}", what, e))?;
				ctx.judged("texts-extend", &what, !e.is_empty());
				// markup in content tags is not comparable afterwards
				if e.iter().any(|&i| w.d.is_elem(i)) {
					return Ok(());
				}
			}
			_ => {
				let ts = texts(&w);
				if !ts.is_empty() {
					let blank: Vec<Id> = ts.iter().copied().filter(|&t| w.d.text(t).trim().is_empty()).collect();
					let t = if !blank.is_empty() && r.chance(40) { *r.pick(&blank) } else { *r.pick(&ts) };
					let fr = random_frag(r, &p);
					let s = match r.below(8) {
						0 => String::new(),
						1..=3 => r.pick(&["&lt;", "&amp;", "a&gt;", " &#65;", "&quot;x", "&lt;b&gt;"]).to_string(),
						_ => some_text(r),
					};
					let op = r.below(5);
					let par = w.d.parent_elem(t);
					text_op(&mut w, t, op, &s, &fr, ctx)?;
					if let Some(par) = par {
						let g = w.el(par).text();
						ensure!(g == w.d.text(par), "text of the parent {} is {:?} expected {:?}", w.show(par), g, w.d.text(par));
					}
				}
			}
		}
		// element text follows
		let i = *r.pick(&any_elems(&w));
		let t = w.el(i).text();
		ensure!(t == w.d.text(i), "text of {} is {:?} expected {:?}", w.show(i), t, w.d.text(i));
		// only an element whose content is text can be used as one
		match w.el(i).into_text() {
			Ok(x) => ensure!(is_content(&w.d.tag(i)) && x.text() == t, "into_text of {}", w.show(i)),
			Err(_) => ensure!(!is_content(&w.d.tag(i)), "into_text of {} is refused", w.show(i)),
		}
	}
	Ok(())
}
/// PROPERTY form-values
pub fn form_values(r: &mut Rng, ctx: &mut Ctx) -> R {
	let mut d = Dom::new();
	let mut inputs = vec![];
	let n = r.range(1, 4);
	let fm = d.elem("form");
	d.append(ROOT, fm);
	let mut uniq = 0;
	for _ in 0..n {
		match r.below(5) {
			0 => {
				let i = d.elem("input");
				if r.chance(80) {
					d.set_attr(i, "type", Some(r.pick(&["text", "checkbox", "radio", "hidden", "RADIO", "CheckBox", "Radio", "radios", "check"]).to_string()));
				}
				if r.chance(80) {
					d.set_attr(i, "value", Some(r.pick(ATTR_VALS).to_string()));
				}
				if r.chance(30) {
					d.set_attr(i, "checked", None);
				}
				d.append(fm, i);
				inputs.push(i);
			}
			1 => {
				let i = d.elem("textarea");
				if r.chance(80) {
					d.set_content(i, Some(r.pick(&["a", "line\nline", " x ", "<b>x</b>", "q", "\nfirst", "\n\n two", "end\n", "\r\nx", "\t", "\u{a0}y"]).to_string()));
				}
				d.append(fm, i);
				inputs.push(i);
			}
			2 => {
				// names that only look like those of form fields
				let i = d.elem(r.pick(&[
					"div", "p", "label", "button", "xnput", "inpux", "inputs", "inpu", "x-input", "celect", "selecu", "selects", "sel", "aption", "optiom", "options", "opt", "dextarea",
					"textareb", "textareas", "text",
				]));
				if r.chance(70) {
					d.set_attr(i, "value", Some("no".into()));
				}
				if r.chance(50) {
					let t = d.add(Kind::Text("neither".into()));
					d.append(i, t);
				}
				d.append(fm, i);
				inputs.push(i);
			}
			_ => {
				let s = d.elem("select");
				if r.chance(40) {
					d.set_attr(s, "multiple", None);
				}
				let psel = *r.pick(&[0, 15, 50]);
				let mut option = |d: &mut Dom, r: &mut Rng, par: Id| {
					let o = d.elem("option");
					uniq += 1;
					if r.chance(95) {
						d.set_attr(o, "value", Some(if r.chance(5) { String::new() } else { format!("v{}", uniq) }));
					} else if r.chance(40) {
						d.set_attr(o, "value", None);
					}
					if r.chance(psel) {
						d.set_attr(o, "selected", None);
					}
					if r.chance(50) {
						let t = d.add(Kind::Text(format!("t{}", uniq)));
						d.append(o, t);
					}
					d.append(par, o);
				};
				let k = if r.chance(3) { r.range(6, 40) } else { r.below(6) };
				for _ in 0..k {
					if r.chance(8) {
						let t = d.add(Kind::Comment(" option ".into()));
						d.append(s, t);
					}
					if r.chance(1) {
						// far down
						let mut g = s;
						for _ in 0..*r.pick(&[2, 3, 127, 128, 255, 256, 257, 300]) {
							let x = d.elem("div");
							d.append(g, x);
							g = x;
						}
						option(&mut d, r, g);
					} else if r.chance(25) {
						let g = d.elem("optgroup");
						d.append(s, g);
						let m = r.below(4);
						for _ in 0..m {
							option(&mut d, r, g);
						}
					} else {
						if r.chance(30) {
							let t = d.add(Kind::Text("\n".into()));
							d.append(s, t);
						}
						option(&mut d, r, s);
					}
				}
				d.append(fm, s);
				inputs.push(s);
			}
		}
	}
	// attributes that say nothing about the value, and flags written with a value
	if r.chance(40) {
		for i in 0..d.n.len() {
			if !matches!(d.n[i].kind, Kind::Elem { .. }) {
				continue;
			}
			for f in ["checked", "selected", "multiple"] {
				if d.attr(i, f).is_some() && r.chance(40) {
					d.set_attr(i, f, Some(r.pick(&["", f, "false", "true", "0"]).to_string()));
				}
			}
			while r.chance(25) {
				let mut a = r
					.pick(&["disabled", "readonly", "required", "hidden", "size", "name", "autofocus", "form", "label", "placeholder", "data-value", "aria-checked", "values", "check", "select"])
					.to_string();
				if r.chance(20) && !dict().words.is_empty() {
					a = r.pick(&dict().words).to_ascii_lowercase();
				}
				if matches!(a.as_str(), "type" | "value" | "checked" | "selected" | "multiple") {
					continue;
				}
				let v = if r.chance(50) { None } else { Some(r.pick(&["", "1", "select", "option", "checked", "x"]).to_string()) };
				d.set_attr(i, &a, v);
			}
		}
	}
	// names may be written in any letter case
	if r.chance(30) {
		for n in d.n.iter_mut() {
			if let Kind::Elem { name, attrs, .. } = &mut n.kind {
				if r.chance(60) {
					*name = if r.chance(50) { name.to_ascii_uppercase() } else { name[..1].to_ascii_uppercase() + &name[1..] };
				}
				for a in attrs.iter_mut() {
					if r.chance(50) {
						a.key = a.key.to_ascii_uppercase();
					}
				}
			}
		}
	}
	let mut w = World::load(d)?;
	ctx.step(w.log[0].clone());
	let rounds = r.range(1, 4);
	for _ in 0..rounds {
		let opts: Vec<Id> = w.elems(ROOT).into_iter().filter(|&i| w.d.tag(i) == "option").collect();
		for &i in inputs.iter().chain(&opts) {
			let tag = w.d.tag(i);
			let got = w.el(i).value();
			let via = w.set(&[i]).val();
			let (gs, gm) = form(&got);
			ensure!(form(&via) == (gs.clone(), gm), "val() of the set and value() of {} differ", w.show(i));
			let value = |o: Id| w.d.attr(o, "value").flatten().unwrap_or("").to_string();
			match tag.as_str() {
				"input" | "option" => ensure!(gs == vec![value(i)] && !gm, "value of {} is {:?}", w.show(i), gs),
				"textarea" => ensure!(gs == vec![w.d.text(i)] && !gm, "value of {} is {:?}", w.show(i), gs),
				"select" => {
					let opts = select_options(&w.d, i);
					let sel: Vec<String> = opts.iter().filter(|&&o| w.d.attr(o, "selected").is_some()).map(|&o| value(o)).collect();
					let multiple = w.d.attr(i, "multiple").is_some();
					ensure!(gm == multiple, "value of {} multiple is {}", w.show(i), gm);
					if multiple {
						ensure!(gs == sel, "values of {} are {:?}, expected {:?}", w.d.html(i), gs, sel);
						ensure!(got.to_string() == sel.join(","), "to_string of a multiple value");
						ensure!(got.into_iter().collect::<Vec<_>>() == sel, "into_iter of a multiple value");
					} else {
						let first = w.d.ekids(i).into_iter().find(|&x| w.d.tag(x) == "option");
						let exp = sel.first().cloned().unwrap_or_else(|| first.map(value).unwrap_or_default());
						// a select whose options all sit in groups may report the first of them or nothing
						let alt = if sel.is_empty() && first.is_none() { opts.first().map(|&o| value(o)) } else { None };
						ensure!(gs == vec![exp.clone()] || alt.map_or(false, |a| gs == vec![a]), "value of {} is {:?}, expected {:?}", w.d.html(i), gs, exp);
						ensure!(got.to_string() == gs[0], "to_string of a single value");
					}
					// the checked options are those the value comes from
					let chk = w.ids_of(&w.set(&[i]).find(":checked"))?;
					let expc: Vec<Id> = w.d.desc_elems(i).into_iter().filter(|&o| checked(&w.d, o)).collect();
					ensure!(chk == expc, ":checked below {} gives {} expected {}", w.d.html(i), w.show_ids(&chk), w.show_ids(&expc));
					ctx.judged("select", &w.d.html(i), !opts.is_empty());
				}
				_ => ensure!(gs == vec![String::new()], "value of {} is {:?}", w.show(i), gs),
			}
			ctx.judged("value", &format!("{} {:?}", w.show(i), gs), !gs.is_empty());
		}
		let chk = w.ids_of(&w.set(&[fm]).find(":checked"))?;
		let expc: Vec<Id> = w.d.desc_elems(fm).into_iter().filter(|&o| checked(&w.d, o)).collect();
		ensure!(chk == expc, ":checked in {} gives {} expected {}", w.d.html(fm), w.show_ids(&chk), w.show_ids(&expc));
		let e = w.set(&[]).val();
		ensure!(form(&e) == (vec![String::new()], false), "val() of an empty set");
		// change something
		let all = w.elems(ROOT);
		let i = *r.pick(&all);
		match w.d.tag(i).as_str() {
			"option" => match r.below(3) {
				0 => set_attr(&mut w, &[i], "selected", None, ctx)?,
				1 => remove_attr(&mut w, &[i], "selected", ctx)?,
				_ => {
					remove(&mut w, &[i], ctx)?;
				}
			},
			"select" => {
				if r.chance(50) {
					set_attr(&mut w, &[i], "multiple", None, ctx)?
				} else {
					remove_attr(&mut w, &[i], "multiple", ctx)?
				}
			}
			"input" => set_attr(&mut w, &[i], "value", Some("changed"), ctx)?,
			"textarea" => {
				ctx.step(format!("set_text on {}", w.show(i)));
				w.set(&[i]).set_text("changed");
				w.d.set_content(i, Some("changed".into()));
			}
			_ => {}
		}
	}
	Ok(())
}
fn form(v: &IFormValue) -> (Vec<String>, bool) {
	match v {
		IFormValue::Single(s) => (vec![s.clone()], false),
		IFormValue::Multiple(l) => (l.clone(), true),
	}
}
/// PROPERTY document-api
pub fn document_api(r: &mut Rng, ctx: &mut Ctx) -> R {
	let p = Profile::random(r);
	if r.chance(8) {
		// the source is what was loaded, whatever is in it
		let t = *r.pick(&["title", "textarea", "script", "style", "TITLE", "p"]);
		let body = *r.pick(&["a &amp; b", "&lt;b&gt;", "x &copy; y", "a &amp;amp; b", "it's \"q\"", "a&#60;b"]);
		let (pre, post) = *r.pick(&[("", ""), ("", ""), (" ", ""), ("<div>", "</div>"), ("<b></b>", " x"), ("<!--c-->", "")]);
		let src = format!("{}<{}>{}</{}>{}", pre, t, body, t, post);
		let s: Set = Vis::load(src.clone()).map_err(|e| format!("{:?}: {}", src, e))?;
		let got = s.document().map(|d| d.source_code());
		ensure!(got.as_ref() == Some(&src), "source_code of {:?} is {:?}", src, got);
		let _ = s.outer_html();
		let got = s.find(&t.to_lowercase()).document().map(|d| d.source_code());
		ensure!(got.as_ref() == Some(&src), "source_code of {:?} is {:?} after rendering", src, got);
		ctx.judged("source-as-loaded", &src, true);
	}
	let isdoc = r.chance(65);
	let d = DocGen::new(&p).root(r, isdoc);
	let mut w = World::load(d)?;
	ctx.step(w.log[0].clone());
	let rounds = r.range(1, 4);
	for round in 0..rounds {
		if round > 0 {
			let n = r.range(1, 3);
			history(&mut w, r, &p, n, ctx)?;
		}
		let all = w.elems(ROOT);
		// an id is compared as it is
		let padded = format!("{}{}{}", r.pick(&["", " ", "\t"]), r.pick(&p.ids), r.pick(&["", " ", "\n", "x"]));
		if !all.is_empty() && r.chance(25) {
			let i = *r.pick(&all);
			set_attr(&mut w, &[i], "id", Some(&padded), ctx)?;
		}
		let doc = match w.root.document() {
			Some(d) => d,
			None => fail!("a loaded set has no document"),
		};
		let first = |t: &str| all.iter().copied().find(|&i| w.d.tag(i) == t);
		let id = |e: Option<El>| e.map(|x| w.id_of(&x)).transpose();
		let got = id(doc.document_element())?;
		ensure!(got == first("html"), "document_element is {:?}, expected {:?}", got, first("html"));
		let got = id(doc.head())?;
		ensure!(got == first("head"), "head is {:?}, expected {:?}", got, first("head"));
		let got = id(doc.body())?;
		ensure!(got == first("body"), "body is {:?}, expected {:?}", got, first("body"));
		let titles: Vec<Id> = first("head").map_or(vec![], |h| w.d.desc_elems(h).into_iter().filter(|&i| w.d.tag(i) == "title").collect());
		let exp = if titles.is_empty() { None } else { Some(titles.iter().map(|&t| w.d.text(t)).collect::<String>()) };
		ensure!(doc.title() == exp, "title is {:?}, expected {:?}", doc.title(), exp);
		ensure!(addr(&doc.get_root_node()) == addr(&w.nd(ROOT)), "get_root_node is another node");
		ctx.judged("document-parts", &format!("{:?} {:?} {:?} {:?}", first("html"), first("head"), first("body"), exp), isdoc);
		for want in p.ids.iter().chain([&"nope".to_string(), &padded, &padded.to_uppercase(), &String::new()]) {
			let exp = all.iter().copied().find(|&i| w.d.attr(i, "id") == Some(Some(want)));
			let got = id(doc.get_element_by_id(want))?;
			ensure!(got == exp, "get_element_by_id({:?}) is {:?}, expected {:?}", want, got, exp);
			ctx.judged("by-id", &format!("{} {:?}", want, exp), exp.is_some());
		}
		ensure!(doc.source_code() == w.root.outer_html(), "source_code and outer_html differ");
		// owner documents and roots follow the tree a node lives in
		let mut probe: Vec<Id> = (0..w.d.n.len()).filter(|&i| w.real.get(i).map_or(false, |x| x.is_some())).collect();
		r.shuffle(&mut probe);
		for &i in probe.iter().take(6) {
			let n = w.nd(i);
			let top = w.d.top(i);
			let root = n.root_element().map(|e| addr_el(&e));
			match &w.d.n[top].kind {
				Kind::Root => {
					ensure!(root == Some(addr(&w.nd(top))), "root_element of {} is not its root", w.show(i));
					let od = n.owner_document();
					ensure!(od.is_some(), "{} has no owner document", w.show(i));
					let rn = od.unwrap().get_root_node();
					ensure!(addr(&rn) == addr(&w.nd(top)), "owner document of {} is another document", w.show(i));
					ctx.judged("owner", &format!("{} in {}", w.show(i), top), top != i);
				}
				_ => {
					// a detached subtree may still name the document it was created by
					if let Some(od) = n.owner_document() {
						ensure!(w.ids.contains_key(&addr(&od.get_root_node())), "detached {} names an unknown document", w.show(i));
					}
					ctx.judged("owner-detached", &w.show(i), true);
				}
			}
		}
		// a set that holds an attached element has a document, one whose elements share a document that one
		let some: Vec<Id> = probe.iter().copied().filter(|&i| w.d.is_elem(i) || w.d.n[i].kind == Kind::Root).take(4).collect();
		let mut docs: Vec<Id> = some.iter().map(|&i| w.d.top(i)).filter(|&t| w.d.n[t].kind == Kind::Root).collect();
		docs.dedup();
		if !docs.is_empty() {
			match w.set(&some).document() {
				None => fail!("the set {} has no document", w.show_ids(&some)),
				Some(od) => {
					let at = w.ids.get(&addr(&od.get_root_node())).copied();
					let detached = some.iter().any(|&i| w.d.n[w.d.top(i)].kind != Kind::Root);
					ensure!(at.is_some(), "the document of the set {} is an unknown one", w.show_ids(&some));
					ensure!(at == Some(docs[0]) || detached, "the document of the set {} is not that of its first element", w.show_ids(&some));
					ctx.judged("owner-of-set", &format!("{} {}", docs.len(), detached), some.len() > 1);
				}
			}
		}
		if !all.is_empty() {
			let i = *r.pick(&all);
			let s = Vis::dom(&w.el(i));
			ensure!(w.ids_of(&s)? == vec![i], "Vis::dom wraps another node");
			ensure!(w.el(i).is(&w.el(i)), "an element is not itself");
			ensure!(!w.el(i).is_root_element() && w.el(ROOT).is_root_element(), "is_root_element");
		}
	}
	Ok(())
}
/// PROPERTY lenient-load: the documented repairs of `Vis::load` give the tree of the repaired source
pub fn lenient_load(r: &mut Rng, ctx: &mut Ctx) -> R {
	let p = Profile::random(r);
	let isdoc = r.chance(30);
	let d = DocGen::new(&p).root(r, isdoc);
	let mut model = d.clone();
	let mut st = Loose { r: r.clone(), kinds: vec![], toks: vec![] };
	r.next();
	st.ser(&mut model, ROOT);
	// end tags of nothing at the very start or end of a fragment
	if !isdoc && r.chance(15) {
		st.toks.insert(0, Tok::Close("zzz".into(), r.pick(&["</zzz>", "</ZZZ >"]).to_string()));
		st.kinds.push("stray-end-tag-first");
	}
	// unclosed tags at the end of the input
	if r.chance(60) {
		for _ in 0..r.range(1, 4) {
			if matches!(st.toks.last(), Some(Tok::Close(n, _)) if !is_content(n)) {
				st.toks.pop();
				st.kinds.push("unclosed");
			}
		}
	}
	if !isdoc && r.chance(10) {
		st.toks.push(Tok::Close("zzz".into(), r.pick(&["</zzz>", "</ZZZ >"]).to_string()));
		st.kinds.push("stray-end-tag-last");
	}
	let src: String = st.toks.iter().map(|t| t.source()).collect();
	let model = st.tree(&model);
	ctx.step(format!("load {:?}", src));
	for k in &st.kinds {
		ctx.count(k);
	}
	let set: Set = match Vis::load(src.clone()) {
		Ok(s) => s,
		Err(e) => fail!("repairable html {:?} does not load: {}", src, e),
	};
	let sn = Snap::of_el(set.get(0).unwrap())?;
	let x = normalized(&model, ROOT);
	let y = normalized(&sn.d, 0);
	same(&x, 0, &y, 0).map_err(|e| format!("{:?} loads as {:?}: {}", src, set.outer_html(), e))?;
	// loading through the other entry points gives the same tree
	let (c, errs) = load_catch(&src);
	ensure!(errs.borrow().is_empty(), "load_catch reports {:?} for html that loads", errs.borrow());
	ensure!(c.outer_html() == set.outer_html(), "load and load_catch differ for {:?}", src);
	ctx.judged("repair", &src, !st.kinds.is_empty());
	// set_html repairs the same way
	let holder: Set = Vis::load("<div></div>").unwrap();
	if !isdoc {
		holder.children("div").set_html(&src);
		let h = holder.children("div");
		let sn = Snap::of_el(h.get(0).unwrap())?;
		let mut y2 = Dom::new();
		for &k in &sn.d.n[0].kids {
			let c = y2.import(&sn.d, k);
			y2.append(ROOT, c);
		}
		let y2 = normalized(&y2, ROOT);
		same(&x, 0, &y2, 0).map_err(|e| format!("set_html({:?}) gives {:?}: {}", src, h.html(), e))?;
		ctx.judged("repair-set_html", &src, !st.kinds.is_empty());
	}
	Ok(())
}
/// a piece of flawed source: an end tag closes the innermost open element when it has its name and is
/// dropped otherwise; what is open at the end of the input is closed there
enum Tok {
	Open(Id, String),
	Whole(Id, String),
	Close(String, String),
}
impl Tok {
	fn source(&self) -> &str {
		match self {
			Tok::Open(_, s) | Tok::Whole(_, s) | Tok::Close(_, s) => s,
		}
	}
}
struct Loose {
	r: Rng,
	kinds: Vec<&'static str>,
	toks: Vec<Tok>,
}
impl Loose {
	fn tree(&self, d: &Dom) -> Dom {
		let mut o = Dom::new();
		let mut open = vec![ROOT];
		for t in &self.toks {
			let at = *open.last().unwrap();
			match t {
				Tok::Open(i, _) | Tok::Whole(i, _) => {
					let c = o.add(d.n[*i].kind.clone());
					o.append(at, c);
					if matches!(t, Tok::Open(..)) {
						open.push(c);
					}
				}
				Tok::Close(n, _) => {
					if at != ROOT && o.tag(at).eq_ignore_ascii_case(n) {
						open.pop();
					}
				}
			}
		}
		o
	}
	fn ser(&mut self, d: &mut Dom, i: Id) {
		match d.n[i].kind.clone() {
			Kind::Root => {
				for k in d.n[i].kids.clone() {
					self.ser(d, k);
				}
			}
			Kind::Text(t) => {
				let mut o = String::new();
				if self.r.chance(15) {
					let (add, means) = *self.r.pick(&[(" < ", " &lt; "), ("1<2", "1&lt;2"), (" <= ", " &lt;= ")]);
					o.push_str(&t);
					o.push_str(add);
					d.n[i].kind = Kind::Text(format!("{}{}", t, means));
					self.kinds.push("unescaped-lt");
				} else if self.r.chance(8) {
					let (add, means) = *self.r.pick(&[("< ", "&lt; "), ("<1", "&lt;1"), ("<=", "&lt;="), ("<3>", "&lt;3>")]);
					o.push_str(add);
					o.push_str(&t);
					d.n[i].kind = Kind::Text(format!("{}{}", means, t));
					self.kinds.push("leading-lt");
				} else {
					o.push_str(&t);
				}
				self.toks.push(Tok::Whole(i, o));
			}
			Kind::Elem { name, attrs, content } => {
				let void = is_void(&name);
				let mut o = String::new();
				d.start_tag(i, &mut o);
				o.pop();
				let empty = d.n[i].kids.is_empty() && content.is_none();
				let last_unquoted = attrs.last().map_or(false, |a| a.val.is_some() && a.quote.is_none());
				if empty && !last_unquoted && !is_content(&name) && self.r.chance(30) {
					o.push_str(if self.r.chance(50) { " />" } else { "/>" });
					self.kinds.push("self-closing");
					self.toks.push(Tok::Whole(i, o));
					return;
				}
				if self.r.chance(10) {
					o.push_str(self.r.clone().pick(&[" ", "\n", "  "]));
					self.kinds.push("space-in-tag");
				}
				o.push('>');
				if let Some(c) = content {
					o.push_str(&c);
				}
				if void {
					self.toks.push(Tok::Whole(i, o));
					return;
				}
				self.toks.push(Tok::Open(i, o));
				for k in d.n[i].kids.clone() {
					if self.r.chance(8) && !is_content(&name) {
						let s = self.r.pick(&["</zzz>", "</zzz>", "</ZZZ>", "</zzz\n>"]).to_string();
						self.toks.push(Tok::Close("zzz".into(), s));
						self.kinds.push("stray-end-tag");
					}
					self.ser(d, k);
				}
				if self.r.chance(3) && !is_content(&name) {
					self.kinds.push("unclosed-inside");
					return;
				}
				let mut end = name.clone();
				if self.r.chance(5) && !is_content(&name) {
					end = name.chars().map(|c| if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect();
					self.kinds.push("end-tag-case");
				}
				let sp = if self.r.chance(5) {
					self.kinds.push("space-in-end-tag");
					" "
				} else {
					""
				};
				self.toks.push(Tok::Close(name, format!("</{}{}>", end, sp)));
			}
			_ => {
				let mut o = String::new();
				d.ser(i, &mut o);
				self.toks.push(Tok::Whole(i, o));
			}
		}
	}
}
pub fn soup(r: &mut Rng, p: &Profile) -> String {
	const PARTS: &[&str] = &[
		"<", ">", "</", "/>", "<div", "<div>", "</div>", "<p", "<!--", "-->", "<!", "<!doctype html>", "<![CDATA[", "]]>", "<script>", "</script>",
		"<style>", "</style>", "<title>", "</title>", "<textarea>", "</textarea>", "<svg>", "</svg>", "<math>", "<br>", "<br/>", "<img ", " a", "=", "\"", "'", " b=c",
		" d='e'", " f=\"g\"", "&", "&amp;", "&#", ";", " ", "\n", "\t", "x", "\u{e9}", "\u{1f600}", "\u{0}", "<html>", "<body>", "</html>", "<head>", "<?php ?>", "<a href=x>", "=f",
		"<x:y>", "<1>", "< b", "<b", "\r\n", "--", "!>", "<select><option>", "</option>", "<pre>", "</pre>", "<!-->", "<!--->", "<table>",
	];
	let n = r.range(1, 14);
	let mut s = String::new();
	if r.chance(40) {
		// damage a good document
		let d = DocGen::new(p).root(r, r.clone().chance(30));
		let mut c: Vec<char> = d.html(ROOT).chars().collect();
		let k = r.range(1, 4);
		for _ in 0..k {
			if c.is_empty() {
				break;
			}
			let at = r.below(c.len());
			match r.below(4) {
				0 => {
					c.remove(at);
				}
				1 => {
					let ins: Vec<char> = r.pick(PARTS).chars().collect();
					c.splice(at..at, ins);
				}
				2 => c.truncate(at),
				_ => {
					let e = (at + r.below(12)).min(c.len());
					c.drain(at..e);
				}
			}
		}
		s = c.into_iter().collect();
	} else {
		for _ in 0..n {
			s.push_str(r.pick(PARTS));
		}
	}
	s
}
/// PROPERTY hostile-html: any string either loads or gives an error; what loads is usable
pub fn hostile_html(r: &mut Rng, ctx: &mut Ctx) -> R {
	let p = Profile::random(r);
	if r.below(2000) == 0 {
		// far deeper than any page (the depth at which the stack ends is a listed finding)
		let n = *r.pick(&[64, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1024, 1025, 2000]);
		ctx.step(format!("{} nested elements", n));
		crate::s::deep_usable(n).map_err(|e| format!("{} nested elements: {}", n, e))?;
		ctx.judged("deep", &n.to_string(), true);
	}
	for _ in 0..4 {
		let src = soup(r, &p);
		ctx.step(format!("load {:?}", src));
		let a = match crate::guarded(|| Vis::load(src.clone())) {
			Ok(a) => a,
			Err(e) => {
				// a listed defect of the parser: nothing more to see with this input
				if ctx.is_known("C12", &e) {
					continue;
				}
				fail!("Vis::load({:?}): {}", src, e);
			}
		};
		let (b, errs) = load_catch(&src);
		match a {
			Err(_) => {
				ensure!(errs.borrow().len() == 1, "load fails but load_catch reports {:?} for {:?}", errs.borrow(), src);
				ensure!(b.is_empty() && b.document().is_none(), "a failed load_catch gives elements for {:?}", src);
				ensure!(b.find("*").is_empty() && b.outer_html().is_empty() && b.text().is_empty(), "the empty set is not empty");
				ctx.judged("load-error", &src, true);
			}
			Ok(s) => {
				ensure!(errs.borrow().is_empty(), "load succeeds but load_catch reports {:?} for {:?}", errs.borrow(), src);
				let s: Set = s;
				let sn = Snap::of_el(s.get(0).unwrap()).map_err(|e| format!("{:?}: {}", src, e))?;
				let out = s.outer_html();
				ensure!(b.outer_html() == out, "load and load_catch differ for {:?}", src);
				let elems = sn.d.desc_elems(0).len();
				let all = s.find("*");
				ensure!(all.length() == elems, "find(\"*\") gives {} of {} elements for {:?}", all.length(), elems, src);
				let _ = (s.text(), s.html(), s.texts(0).length(), all.outer_htmls().len(), all.htmls().len(), all.text().len());
				let _ = s.find("div > p, .a:first-child, [a=b]:not(:empty), :contains(x)").length();
				let _ = s.document().map(|d| (d.title(), d.get_element_by_id("a").is_some(), d.body().is_some(), d.source_code()));
				// any selector and walk over it
				let g = SelGen::new(&sn.d, &p);
				for _ in 0..2 {
					let l = g.list(r, 1, 2, None).print();
					ctx.step(format!("search {:?}", l));
					let f = s.find(&l);
					let _ = (f.length(), all.is(&l), all.eq(r.below(all.length() + 1)).closest(&l).length(), all.filter(&l).next_until(&l, "", true).length());
					let _ = (f.parents(&l).length(), f.prev_all("").length(), f.siblings(&l).length(), f.children("").length());
				}
				ctx.judged("searched", &src, elems > 0);
				// usable for mutation too
				let mut holder: Set = Vis::load("<div><p>x</p></div>").unwrap();
				let before = holder.find("*").length();
				let mut frag: Set = Vis::load(src.clone()).unwrap();
				let mut div = holder.find("div");
				match r.below(3) {
					0 => {
						div.append(&mut frag);
						Snap::of_el(holder.get(0).unwrap()).map_err(|e| format!("append {:?}: {}", src, e))?;
						if !sn.d.is_document(0) {
							ensure!(holder.find("*").length() == before + elems, "appending {:?} gives {:?}", src, holder.outer_html());
						}
					}
					1 => {
						div.set_html(&src);
						let x = Snap::of_el(holder.get(0).unwrap()).map_err(|e| format!("set_html {:?}: {}", src, e))?;
						ensure!(x.d.desc_elems(0).len() == 1 + elems, "set_html({:?}) gives {:?}", src, holder.outer_html());
					}
					_ => {
						holder = s.clone();
						let c = Snap::of_el(holder.get(0).unwrap()).map_err(|e| format!("copy of {:?}: {}", src, e))?;
						same(&sn.d, 0, &c.d, 0).map_err(|e| format!("copy of {:?}: {}", src, e))?;
					}
				}
				all.remove();
				ensure!(s.find("*").is_empty(), "removing all elements of {:?} leaves {:?}", src, s.outer_html());
				Snap::of_el(s.get(0).unwrap()).map_err(|e| format!("{:?} after removal: {}", src, e))?;
				ctx.judged("loaded", &src, elems > 0);
			}
		}
	}
	Ok(())
}
#[allow(dead_code)]
fn kinds(n: &Nd) -> INodeType {
	n.node_type()
}
