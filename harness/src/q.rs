//! Query-side monitors: every result of the selection and traversal API is judged online
//! against the reference matcher over the shadow tree.
use crate::ctx::Ctx;
use crate::gen::*;
use crate::model::*;
use crate::ops;
use crate::rng::Rng;
use crate::sel::*;
use crate::world::*;
use crate::{ensure, fail};
use visdom::types::{BoxDynElement, Combinator};

/// a world, sometimes after a random mutation history
pub fn some_world(r: &mut Rng, ctx: &mut Ctx, mutate_pct: usize) -> R<(Profile, World)> {
	world_of(r, ctx, mutate_pct, false)
}
/// also with CDATA sections, which can not be loaded back everywhere
pub fn any_world(r: &mut Rng, ctx: &mut Ctx, mutate_pct: usize) -> R<(Profile, World)> {
	world_of(r, ctx, mutate_pct, true)
}
fn world_of(r: &mut Rng, ctx: &mut Ctx, mutate_pct: usize, cdata: bool) -> R<(Profile, World)> {
	let (p, mut d) = random_doc(r);
	if cdata {
		with_cdata(r, &mut d);
	}
	let mut w = World::load(d)?;
	ctx.step(w.log[0].clone());
	if r.chance(mutate_pct) {
		let n = r.range(1, 6);
		ops::history(&mut w, r, &p, n, ctx)?;
		w.check()?;
	}
	Ok((p, w))
}
/// a doc-ordered subset of the elements of one tree (often nested)
pub fn some_set(w: &World, r: &mut Rng, top: Id) -> Vec<Id> {
	let mut all = w.elems(top);
	if w.d.is_elem(top) {
		all.insert(0, top);
	}
	if all.is_empty() {
		return vec![];
	}
	if all.len() > 150 || w.d.ancestors(all[all.len() / 2]).len() > 50 {
		// a few elements of a big tree: everything at once takes visdom seconds
		let at = r.below(all.len());
		let n = r.range(1, 20);
		let v: Vec<Id> = if r.chance(50) {
			all[at..].iter().copied().take(n).collect()
		} else {
			let pick: Vec<Id> = (0..n).map(|_| *r.pick(&all)).collect();
			all.iter().copied().filter(|i| pick.contains(i)).collect()
		};
		return v;
	}
	match r.below(8) {
		0 | 1 => vec![*r.pick(&all)],
		2 => all,
		3 => {
			// siblings of one element
			let e = *r.pick(&all);
			let pct = r.range(30, 100);
			let k = w.d.n[e].parent.map_or_else(|| vec![e], |p| w.d.ekids(p));
			let v = r.subset(&k, pct);
			if v.is_empty() {
				vec![e]
			} else {
				v
			}
		}
		4 => {
			// a chain of ancestors
			let e = *r.pick(&all);
			let mut v: Vec<Id> = w.d.ancestors(e).into_iter().filter(|&x| w.d.is_elem(x)).collect();
			v.reverse();
			v.push(e);
			let pct = r.range(40, 100);
			let v2 = r.subset(&v, pct);
			if v2.is_empty() {
				vec![e]
			} else {
				v2
			}
		}
		_ => {
			let pct = r.range(5, 80);
			let v = r.subset(&all, pct);
			if v.is_empty() {
				vec![*r.pick(&all)]
			} else {
				v
			}
		}
	}
}
pub fn some_top(w: &World, r: &mut Rng) -> Id {
	if r.chance(85) {
		ROOT
	} else {
		let t: Vec<Id> = w.tops().into_iter().filter(|&t| w.d.is_elem(t) || !w.elems(t).is_empty()).collect();
		if t.is_empty() {
			ROOT
		} else {
			*r.pick(&t)
		}
	}
}
fn cmp(w: &World, what: &str, got: &[Id], exp: &[Id]) -> R {
	if got != exp {
		fail!("{} returned {} expected {}", what, w.show_ids(got), w.show_ids(exp));
	}
	Ok(())
}
fn shape(w: &World, ids: &[Id]) -> String {
	ids.iter().map(|&i| format!("{}.{}", w.d.tag(i), w.d.index(i))).collect::<Vec<_>>().join(",")
}
/// the selectors used against detached trees must not ask structure of the parentless top
fn safe_ctx(w: &World, top: Id) -> bool {
	w.d.n[top].kind == Kind::Root
}

pub fn css_select(r: &mut Rng, ctx: &mut Ctx) -> R {
	let (p, w) = any_world(r, ctx, 35)?;
	let n = r.range(6, 14);
	for _ in 0..n {
		let top = some_top(&w, r);
		let (ids, set) = if r.chance(60) && safe_ctx(&w, top) {
			(vec![top], w.set(&[top]))
		} else {
			let ids = some_set(&w, r, top);
			(ids.clone(), w.set(&ids))
		};
		if ids.is_empty() {
			continue;
		}
		let g = SelGen::new(&w.d, &p);
		let target = {
			let all = w.elems(top);
			if all.is_empty() || r.chance(10) {
				None
			} else {
				Some(*r.pick(&all))
			}
		};
		let mut list = if r.chance(70) {
			let mr = r.range(0, 4);
			List(vec![g.complex(r, target, 2, mr)])
		} else {
			g.list(r, 2, 3, target)
		};
		if list.0.len() == 1 && r.chance(12) {
			list.0[0].head = Some(*r.pick(&[Comb::Child, Comb::Next, Comb::NextAll]));
		}
		// detached tops: a selector may relate to the parentless top itself
		if !safe_ctx(&w, top) {
			let mut bad = false;
			list.simples(&mut |s| {
				if !matches!(s, Simple::Tag(_) | Simple::Class(_) | Simple::Id(_) | Simple::All | Simple::Attr { .. } | Simple::Contains(..)) {
					bad = true;
				}
			});
			if bad {
				continue;
			}
		}
		let text = list.print();
		ctx.step(format!("on {} find {:?}", w.show_ids(&ids), text));
		let exp = r_find(&w.d, top, &ids, &list);
		let got = w.ids_of(&set.find(&text))?;
		cmp(&w, &format!("find({:?}) on {}", text, w.show_ids(&ids)), &got, &exp)?;
		ensure!(w.errs_len() == 0, "valid selector {:?} reported {:?}", text, w.errs.borrow());
		ctx.judged("find", &format!("{} on {} -> {}", text, shape(&w, &ids), shape(&w, &exp)), !exp.is_empty());
		if exp.is_empty() {
			ctx.count("find-empty-result");
		}
	}
	Ok(())
}

pub fn match_filter(r: &mut Rng, ctx: &mut Ctx) -> R {
	let (p, w) = any_world(r, ctx, 35)?;
	let n = r.range(5, 10);
	for _ in 0..n {
		let top = some_top(&w, r);
		let ids = some_set(&w, r, top);
		if ids.is_empty() {
			continue;
		}
		let set = w.set(&ids);
		let g = SelGen::new(&w.d, &p);
		let t = if r.chance(80) { Some(*r.pick(&ids)) } else { None };
		let mr = if r.chance(10) { r.range(4, 6) } else { r.range(0, 3) };
		let list = g.list(r, 2, mr, t);
		let text = list.print();
		let m: Vec<Id> = ids.iter().copied().filter(|&i| m_list(&w.d, i, &list)).collect();
		let nm: Vec<Id> = ids.iter().copied().filter(|i| !m.contains(i)).collect();
		let on = format!("{:?} on {}", text, w.show_ids(&ids));
		ctx.step(format!("filters with {}", on));
		cmp(&w, &format!("filter {}", on), &w.ids_of(&set.filter(&text))?, &m)?;
		cmp(&w, &format!("not {}", on), &w.ids_of(&set.not(&text))?, &nm)?;
		ensure!(set.is(&text) == !m.is_empty(), "is {} gave {}", on, m.is_empty());
		ensure!(set.is_all(&text) == nm.is_empty(), "is_all {} gave {}", on, !nm.is_empty());
		let h: Vec<Id> = ids
			.iter()
			.copied()
			.filter(|&i| w.d.desc_elems(i).iter().any(|&x| m_list(&w.d, x, &list)))
			.collect();
		cmp(&w, &format!("has {}", on), &w.ids_of(&set.has(&text))?, &h)?;
		let mut c: Vec<Id> = vec![];
		for &i in &ids {
			let mut cur = Some(i);
			while let Some(x) = cur {
				if !w.d.is_elem(x) {
					break;
				}
				if m_list(&w.d, x, &list) {
					c.push(x);
					break;
				}
				cur = w.d.n[x].parent;
			}
		}
		let c = w.order(&c);
		cmp(&w, &format!("closest {}", on), &w.ids_of(&set.closest(&text))?, &c)?;
		// the variants that take a set or a closure agree
		let mut b: Vec<Id> = match r.below(3) {
			0 => m.clone(),
			1 => w.elems(top).into_iter().filter(|i| if ids.contains(i) { r.chance(70) } else { r.chance(25) }).collect(),
			_ => some_set(&w, r, top),
		};
		if r.chance(15) {
			b = ids.clone();
		}
		let b = w.order(&b);
		let sb = w.set(&b);
		let (inb, outb): (Vec<Id>, Vec<Id>) = ids.iter().copied().partition(|i| b.contains(i));
		let onb = format!("{} with {}", w.show_ids(&ids), w.show_ids(&b));
		cmp(&w, &format!("filter_in {}", onb), &w.ids_of(&set.filter_in(&sb))?, &inb)?;
		cmp(&w, &format!("not_in {}", onb), &w.ids_of(&set.not_in(&sb))?, &outb)?;
		ensure!(set.is_in(&sb) == !inb.is_empty(), "is_in {} gave {}", onb, inb.is_empty());
		ensure!(set.is_all_in(&sb) == outb.is_empty(), "is_all_in {} gave {}", onb, !outb.is_empty());
		let hb: Vec<Id> = ids.iter().copied().filter(|&i| w.d.desc_elems(i).iter().any(|x| b.contains(x))).collect();
		cmp(&w, &format!("has_in {}", onb), &w.ids_of(&set.has_in(&sb))?, &hb)?;
		ctx.judged("in-family", &onb, !inb.is_empty() || !hb.is_empty());
		let keep: Vec<usize> = m.iter().map(|&i| addr(&w.nd(i))).collect();
		let pred = |ix: usize, e: &BoxDynElement| keep.contains(&addr_el(e)) && ids.get(ix).map_or(false, |&i| addr(&w.nd(i)) == addr_el(e));
		cmp(&w, &format!("filter_by {}", on), &w.ids_of(&set.filter_by(pred))?, &m)?;
		cmp(&w, &format!("not_by {}", on), &w.ids_of(&set.not_by(pred))?, &nm)?;
		ensure!(set.is_by(pred) == !m.is_empty(), "is_by {} gave {}", on, m.is_empty());
		ensure!(set.is_all_by(pred) == nm.is_empty(), "is_all_by {} gave {}", on, !nm.is_empty());
		// a single element agrees with the set
		let one = *r.pick(&ids);
		ensure!(
			w.set(&[one]).is(&text) == m.contains(&one),
			"is({:?}) of the single {} differs from its membership in filter()",
			text,
			w.show(one)
		);
		ensure!(w.errs_len() == 0, "valid selector {:?} reported {:?}", text, w.errs.borrow());
		ctx.judged("filter-family", &format!("{} on {} -> {}", text, shape(&w, &ids), shape(&w, &m)), !m.is_empty() || !h.is_empty());
	}
	Ok(())
}

/// the element and its siblings
fn sibs_of(d: &Dom, i: Id) -> Vec<Id> {
	d.n[i].parent.map_or_else(|| vec![i], |p| d.ekids(p))
}
fn next_chain(d: &Dom, i: Id, f: &dyn Fn(&Dom, Id) -> Option<Id>) -> Vec<Id> {
	let mut v = vec![];
	let mut c = f(d, i);
	while let Some(x) = c {
		v.push(x);
		c = f(d, x);
	}
	v
}
pub fn traverse(r: &mut Rng, ctx: &mut Ctx) -> R {
	let (p, w) = any_world(r, ctx, 35)?;
	let d = &w.d;
	let n = r.range(6, 14);
	for _ in 0..n {
		let top = some_top(&w, r);
		let ids = some_set(&w, r, top);
		if ids.is_empty() {
			continue;
		}
		let set = w.set(&ids);
		let g = SelGen::new(d, &p);
		let t = if r.chance(50) {
			let e = *r.pick(&ids);
			let near: Vec<Id> = sibs_of(d, e).into_iter().chain(d.ekids(e)).chain(d.parent_elem(e)).collect();
			if near.is_empty() {
				None
			} else {
				Some(*r.pick(&near))
			}
		} else {
			None
		};
		let which = r.below(13);
		let sel = if r.chance(40) {
			None
		} else if ((8..=10).contains(&which) || which == 12) && r.chance(40) {
			// the filter of the *_until methods may have combinators
			Some(g.list(r, 1, 2, t))
		} else {
			Some(g.simple_list(r, t))
		};
		let text = sel.as_ref().map(|s| s.print()).unwrap_or_default();
		let ok = |i: Id| sel.as_ref().map_or(true, |s| m_list(d, i, s));
		let union = |f: &dyn Fn(Id) -> Vec<Id>| -> Vec<Id> {
			let mut v = vec![];
			for &i in &ids {
				for x in f(i) {
					if !v.contains(&x) && ok(x) {
						v.push(x);
					}
				}
			}
			w.order(&v)
		};
		let next = |d: &Dom, i: Id| d.next_el(i);
		let prev = |d: &Dom, i: Id| d.prev_el(i);
		let parent = |d: &Dom, i: Id| d.parent_elem(i);
		let on = format!("({:?}) on {}", text, w.show_ids(&ids));
		ctx.step(format!("traverse {}", on));
		let (name, got, exp) = match which {
			0 => {
				let sel2 = if r.chance(30) { Some(g.complex(r, t, 1, 2)) } else { None };
				match sel2 {
					Some(mut c) => {
						c.head = Some(Comb::Child);
						let mut shown = c.clone();
						shown.head = None;
						let l = List(vec![shown]);
						let tx = l.print();
						let exp = r_find(d, top, &ids, &List(vec![c]));
						ctx.step(format!("children {:?}", tx));
						("children", w.ids_of(&set.children(&tx))?, exp)
					}
					None => ("children", w.ids_of(&set.children(&text))?, union(&|i| d.ekids(i))),
				}
			}
			1 => ("parent", w.ids_of(&set.parent(&text))?, union(&|i| d.parent_elem(i).into_iter().collect())),
			2 => ("parents", w.ids_of(&set.parents(&text))?, union(&|i| next_chain(d, i, &parent))),
			3 => ("next", w.ids_of(&set.next(&text))?, union(&|i| d.next_el(i).into_iter().collect())),
			4 => ("next_all", w.ids_of(&set.next_all(&text))?, union(&|i| next_chain(d, i, &next))),
			5 => ("prev", w.ids_of(&set.prev(&text))?, union(&|i| d.prev_el(i).into_iter().collect())),
			6 => ("prev_all", w.ids_of(&set.prev_all(&text))?, union(&|i| next_chain(d, i, &prev))),
			7 => (
				"siblings",
				w.ids_of(&set.siblings(&text))?,
				union(&|i| sibs_of(d, i).into_iter().filter(|&x| x != i).collect()),
			),
			8..=10 => {
				// *_until(stop, filter, contains)
				let mr = if r.chance(30) { 1 } else { 0 };
				let stop = if r.chance(10) { None } else { Some(g.list(r, 1, mr, t)) };
				let st = stop.as_ref().map(|s| s.print()).unwrap_or_default();
				let contains = r.chance(50);
				let until = |i: Id, f: &dyn Fn(&Dom, Id) -> Option<Id>| -> Vec<Id> {
					let mut v = vec![];
					for x in next_chain(d, i, f) {
						let meet = stop.as_ref().map_or(false, |s| m_list(d, x, s));
						if meet && !contains {
							break;
						}
						v.push(x);
						if meet {
							break;
						}
					}
					v
				};
				ctx.step(format!("until {:?} filter {:?} contains {}", st, text, contains));
				match which {
					8 => (
						"next_until",
						w.ids_of(&set.next_until(&st, &text, contains))?,
						union(&|i| until(i, &next)),
					),
					9 => (
						"prev_until",
						w.ids_of(&set.prev_until(&st, &text, contains))?,
						union(&|i| until(i, &prev)),
					),
					_ => (
						"parents_until",
						w.ids_of(&set.parents_until(&st, &text, contains))?,
						union(&|i| until(i, &parent)),
					),
				}
			}
			12 => {
				// without a selector there is nothing to be close to
				let up = |i: Id| std::iter::once(i).chain(next_chain(d, i, &parent)).find(|&x| ok(x)).filter(|_| sel.is_some());
				("closest", w.ids_of(&set.closest(&text))?, union(&|i| up(i).into_iter().collect()))
			}
			_ => {
				// element level navigation
				let e = *r.pick(&ids);
				let el = w.el(e);
				let o = |x: Option<El>| -> R<Option<Id>> { x.map(|x| w.id_of(&x)).transpose() };
				ensure!(o(el.next_element_sibling())? == d.next_el(e), "next_element_sibling of {}", w.show(e));
				ensure!(o(el.previous_element_sibling())? == d.prev_el(e), "previous_element_sibling of {}", w.show(e));
				ensure!(o(el.parent())? == d.n[e].parent, "parent() of {}", w.show(e));
				cmp(&w, "next_element_siblings", &w.ids_of(&el.next_element_siblings())?, &next_chain(d, e, &next))?;
				let mut pv = next_chain(d, e, &prev);
				pv.reverse();
				cmp(&w, "previous_element_siblings", &w.ids_of(&el.previous_element_siblings())?, &pv)?;
				let sb: Vec<Id> = sibs_of(d, e).into_iter().filter(|&x| x != e).collect();
				cmp(&w, "siblings", &w.ids_of(&el.siblings())?, &sb)?;
				// the callback forms see the same elements, from any position, in both directions, until told to stop
				let mut seen: Vec<El> = vec![];
				el.children_by(Box::new(|c| seen.push(c.cloned())));
				let seen: Vec<Id> = seen.iter().map(|c| w.id_of(c)).collect::<R<_>>()?;
				cmp(&w, "children_by", &seen, &d.ekids(e))?;
				let kids = &d.n[e].kids;
				if !kids.is_empty() {
					let (at, rev, most) = (r.below(kids.len()), r.chance(50), r.range(1, 5));
					let mut seen: Vec<El> = vec![];
					el.child_nodes_item_since_by(
						at,
						rev,
						Box::new(|c| {
							seen.push(c.cloned());
							seen.len() < most
						}),
					);
					let seen: Vec<Id> = seen.iter().map(|c| w.id_of(c)).collect::<R<_>>()?;
					let mut exp: Vec<Id> = if rev { kids[..=at].iter().rev().copied().collect() } else { kids[at..].to_vec() };
					exp.retain(|&x| d.is_elem(x));
					exp.truncate(most);
					cmp(&w, "child_nodes_item_since_by", &seen, &exp)?;
				}
				ensure!(el.child_nodes().len() == kids.len() && el.child_nodes_length() == kids.len(), "child_nodes of {}", w.show(e));
				ensure!(el.tag_names().into_iter().collect::<String>().eq_ignore_ascii_case(&d.tag(e)), "tag_names of {}", w.show(e));
				let mut top = e;
				while let Some(p) = d.n[top].parent {
					top = p;
				}
				if !d.is_elem(top) {
					let got = el.root_element().map(|x| w.id_of(&x)).transpose()?;
					ensure!(got == Some(top), "root_element of {} is {:?}", w.show(e), got);
				}
				("element.children", w.ids_of(&el.children())?, d.ekids(e))
			}
		};
		cmp(&w, &format!("{}{}", name, on), &got, &exp)?;
		ensure!(w.errs_len() == 0, "valid call {}{} reported {:?}", name, on, w.errs.borrow());
		ctx.judged(name, &format!("{} {} -> {}", text, shape(&w, &ids), shape(&w, &exp)), !exp.is_empty());
	}
	Ok(())
}

/// order and uniqueness only, judged on the real tree positions
pub fn doc_order(r: &mut Rng, ctx: &mut Ctx) -> R {
	let (p, w) = any_world(r, ctx, 40)?;
	let n = r.range(6, 12);
	for _ in 0..n {
		let ids = some_set(&w, r, ROOT);
		if ids.is_empty() {
			continue;
		}
		let set = w.set(&ids);
		let g = SelGen::new(&w.d, &p);
		let t = Some(*r.pick(&ids));
		let lf = g.list(r, 1, 2, None);
		let ls = g.simple_list(r, t);
		let (f, s) = (lf.print(), if r.chance(60) { String::new() } else { ls.print() });
		let other = some_set(&w, r, ROOT);
		let (name, res) = match r.below(20) {
			0 | 1 => ("find", set.find(&f)),
			15 => ("add", set.add(w.set(&other))),
			16 => ("not", set.not(&f)),
			17 => ("has", set.has(&f)),
			18 => ("filter_in", set.filter_in(&w.set(&other))),
			19 => ("not_in", set.not_in(&w.set(&other))),
			2 => ("children", set.children(&s)),
			3 => ("parent", set.parent(&s)),
			4 => ("parents", set.parents(&s)),
			5 => ("next", set.next(&s)),
			6 => ("next_all", set.next_all(&s)),
			7 => ("prev", set.prev(&s)),
			8 => ("prev_all", set.prev_all(&s)),
			9 => ("siblings", set.siblings(&s)),
			10 => ("closest", set.closest(&f)),
			11 => ("next_until", set.next_until(&f, &s, r.chance(50))),
			12 => ("prev_until", set.prev_until(&f, &s, r.chance(50))),
			13 => ("parents_until", set.parents_until(&f, &s, r.chance(50))),
			_ => ("filter", set.filter(&f)),
		};
		ctx.step(format!("{}({:?}/{:?}) on {}", name, f, s, w.show_ids(&ids)));
		let got = w.ids_of(&res)?;
		let exp = w.order(&got);
		ensure!(
			got.len() == exp.len(),
			"{}({:?}/{:?}) on {} returned an element twice: {}",
			name,
			f,
			s,
			w.show_ids(&ids),
			w.show_ids(&got)
		);
		ensure!(
			got == exp,
			"{}({:?}/{:?}) on {} is not in document order: {}",
			name,
			f,
			s,
			w.show_ids(&ids),
			w.show_ids(&got)
		);
		// chained: results feed the next query
		let again = res.children("");
		let g2 = w.ids_of(&again)?;
		ensure!(g2 == w.order(&g2), "children of the result of {} not ordered/unique: {}", name, w.show_ids(&g2));
		let up = res.parents("");
		let g3 = w.ids_of(&up)?;
		ensure!(g3 == w.order(&g3), "parents of the result of {} not ordered/unique: {}", name, w.show_ids(&g3));
		let dn = res.find("*");
		let g4 = w.ids_of(&dn)?;
		ensure!(g4 == w.order(&g4), "descendants of the result of {} not ordered/unique: {}", name, w.show_ids(&g4));
		ctx.judged(name, &format!("{} | {} | {} -> {}", f, s, shape(&w, &ids), shape(&w, &got)), got.len() > 1);
	}
	Ok(())
}

pub fn nth_arith(r: &mut Rng, ctx: &mut Ctx) -> R {
	// a parent with a controlled number of children, a few tag names, texts and comments between
	let mut d = Dom::new();
	let top = d.elem("section");
	d.append(ROOT, top);
	let total = match r.below(10) {
		0 => 0,
		1 => 1,
		2..=6 => r.range(2, 9),
		7 | 8 => r.range(10, 30),
		_ => r.range(31, 120),
	};
	let names: Vec<&str> = match r.below(13) {
		0..=3 => vec!["li"],
		4 => vec!["li", "p", "strong", "strike", "section", "sect", "h1", "h2", "h3", "header", "head-x", "a", "ab", "abc", "abcd", "b"],
		5..=8 => vec!["li", "p"],
		_ => vec!["li", "p", "b"],
	};
	let noise = r.chance(50);
	let mut last_text = false;
	for _ in 0..total {
		if noise && !last_text && r.chance(30) {
			let t = d.add(Kind::Text(r.pick(&["x", " ", "\n"]).to_string()));
			d.append(top, t);
		}
		if noise && r.chance(15) {
			let t = d.add(Kind::Comment("c".into()));
			d.append(top, t);
		}
		let name = if r.chance(10) { r.pick(&names).to_uppercase() } else { r.pick(&names).to_string() };
		let e = d.elem(&name);
		if r.chance(40) {
			d.set_attr(e, "class", Some(r.pick(&["a", "b", "a b"]).to_string()));
		}
		if r.chance(15) {
			let c = d.elem(r.pick(&["li", "i"]));
			d.append(e, c);
		}
		d.append(top, e);
		last_text = false;
	}
	let mut w = World::load(d)?;
	ctx.step(w.log[0].clone());
	if r.chance(25) && total > 1 {
		// counting must follow mutations: remove or move a child
		let kids = w.d.ekids(top);
		let k = *r.pick(&kids);
		if r.chance(50) {
			ops::remove(&mut w, &[k], ctx)?;
		} else {
			ops::insert(&mut w, ops::Pos::Append, &[top], &[k], ctx)?;
		}
		w.check()?;
	}
	let d = &w.d;
	let p = Profile::random(r);
	let g = SelGen::new(d, &p);
	let root = w.set(&[ROOT]);
	let n = r.range(8, 20);
	for _ in 0..n {
		let nth = match r.below(6) {
			0 => r
				.pick(&[
					Simple::FirstChild,
					Simple::LastChild,
					Simple::OnlyChild,
					Simple::FirstOfType,
					Simple::LastOfType,
					Simple::OnlyOfType,
				])
				.clone(),
			_ => g.nth(r),
		};
		let mut cp: Compound = vec![];
		match r.below(4) {
			0 => cp.push(Simple::Tag(r.pick(&names).to_string())),
			1 => cp.push(Simple::Class("a".into())),
			_ => {}
		}
		cp.push(nth.clone());
		if r.chance(12) {
			cp.push(g.nth(r));
		}
		let list = List(vec![Complex { head: None, first: cp, rest: vec![] }]);
		let text = list.print();
		ctx.step(format!("nth {:?}", text));
		let exp = r_find(d, ROOT, &[ROOT], &list);
		let got = w.ids_of(&root.find(&text))?;
		cmp(&w, &format!("find({:?})", text), &got, &exp)?;
		let kids = d.ekids(top);
		if !kids.is_empty() {
			let pct = *r.pick(&[100, 100, 70, 40]);
			let sub = r.subset(&kids, pct);
			let exp2: Vec<Id> = sub.iter().copied().filter(|&i| m_list(d, i, &list)).collect();
			cmp(
				&w,
				&format!("filter({:?}) on {}", text, w.show_ids(&sub)),
				&w.ids_of(&w.set(&sub).filter(&text))?,
				&exp2,
			)?;
			let exp3: Vec<Id> = kids.iter().copied().filter(|&i| m_list(d, i, &list)).collect();
			cmp(&w, &format!("children({:?})", text), &w.ids_of(&w.set(&[top]).children(&text))?, &exp3)?;
			let e = *r.pick(&kids);
			ensure!(w.set(&[e]).is(&text) == exp3.contains(&e), "is({:?}) of {}", text, w.show(e));
		}
		ensure!(w.errs_len() == 0, "valid selector {:?} reported {:?}", text, w.errs.borrow());
		ctx.judged("nth", &format!("{} of {} -> {}", text, total, shape(&w, &exp)), !exp.is_empty());
	}
	Ok(())
}

pub fn set_algebra(r: &mut Rng, ctx: &mut Ctx) -> R {
	let (_p, w) = any_world(r, ctx, 30)?;
	let n = r.range(6, 14);
	for _ in 0..n {
		let a = if r.chance(6) { vec![] } else { some_set(&w, r, ROOT) };
		let b = if r.chance(6) {
			vec![]
		} else if r.chance(40) && !a.is_empty() {
			// overlapping
			let all = w.elems(ROOT);
			all.into_iter().filter(|i| (a.contains(i) && r.chance(60)) || r.chance(15)).collect()
		} else {
			some_set(&w, r, ROOT)
		};
		let (sa, sb) = (w.set(&a), w.set(&b));
		let on = format!("{} / {}", w.show_ids(&a), w.show_ids(&b));
		ctx.step(format!("algebra {}", on));
		let mut u = a.clone();
		u.extend(b.iter().copied());
		u.sort();
		u.dedup();
		let u = w.order(&u);
		cmp(&w, &format!("add {}", on), &w.ids_of(&sa.add(w.set(&b)))?, &u)?;
		let inb: Vec<Id> = a.iter().copied().filter(|i| b.contains(i)).collect();
		let notb: Vec<Id> = a.iter().copied().filter(|i| !b.contains(i)).collect();
		cmp(&w, &format!("filter_in {}", on), &w.ids_of(&sa.filter_in(&sb))?, &inb)?;
		cmp(&w, &format!("not_in {}", on), &w.ids_of(&sa.not_in(&sb))?, &notb)?;
		ensure!(sa.is_in(&sb) == !inb.is_empty(), "is_in {}", on);
		ensure!(sa.is_all_in(&sb) == notb.is_empty(), "is_all_in {}", on);
		let hasb: Vec<Id> = a.iter().copied().filter(|&i| w.d.desc_elems(i).iter().any(|x| b.contains(x))).collect();
		cmp(&w, &format!("has_in {}", on), &w.ids_of(&sa.has_in(&sb))?, &hasb)?;
		// positional
		ensure!(sa.length() == a.len() && sa.is_empty() == a.is_empty(), "length/is_empty {}", on);
		let ix = r.below(a.len() + 3);
		let at = |i: usize| a.get(i).copied().into_iter().collect::<Vec<Id>>();
		cmp(&w, &format!("eq({})", ix), &w.ids_of(&sa.eq(ix))?, &at(ix))?;
		ensure!(sa.get(ix).map(|e| w.id_of(e)).transpose()? == a.get(ix).copied(), "get({})", ix);
		cmp(&w, "first", &w.ids_of(&sa.first())?, &at(0))?;
		cmp(&w, "last", &w.ids_of(&sa.last())?, &a.last().copied().into_iter().collect::<Vec<_>>())?;
		let (x, y) = (r.below(a.len() + 3), r.below(a.len() + 3));
		let sl = |x: usize, y: usize| a.iter().copied().enumerate().filter(|(i, _)| *i >= x && *i < y).map(|(_, v)| v).collect::<Vec<Id>>();
		cmp(&w, &format!("slice({}..{})", x, y), &w.ids_of(&sa.slice(x..y))?, &sl(x, y))?;
		cmp(&w, &format!("slice({}..={})", x, y), &w.ids_of(&sa.slice(x..=y))?, &sl(x, y + 1))?;
		cmp(&w, &format!("slice({}..)", x), &w.ids_of(&sa.slice(x..))?, &sl(x, usize::MAX))?;
		cmp(&w, &format!("slice(..{})", y), &w.ids_of(&sa.slice(..y))?, &sl(0, y))?;
		cmp(&w, &format!("slice(..={})", y), &w.ids_of(&sa.slice(..=y))?, &sl(0, y + 1))?;
		{
			use std::ops::Bound::*;
			let big = if r.chance(10) { usize::MAX } else { x };
			cmp(&w, &format!("slice(excluded {}, ..)", big), &w.ids_of(&sa.slice((Excluded(big), Unbounded)))?, &sl(big.saturating_add(1), usize::MAX))?;
			cmp(&w, &format!("slice(excluded {}, included {})", x, y), &w.ids_of(&sa.slice((Excluded(x), Included(y))))?, &sl(x + 1, y + 1))?;
			cmp(&w, "slice(0..=MAX)", &w.ids_of(&sa.slice(0..=usize::MAX))?, &a)?;
		}
		cmp(&w, "slice(..)", &w.ids_of(&sa.slice(..))?, &a)?;
		cmp(&w, "cloned", &w.ids_of(&sa.cloned())?, &a)?;
		// callbacks see every element once, in order
		let seen: Vec<(usize, usize)> = sa.map(|i, e| (i, addr_el(e)));
		let exp: Vec<(usize, usize)> = a.iter().enumerate().map(|(i, &id)| (i, addr(&w.nd(id)))).collect();
		ensure!(seen == exp, "map visited {:?} expected {:?}", seen, exp);
		let stop = r.below(a.len() + 2);
		let mut visited = vec![];
		let mut sm = w.set(&a);
		sm.for_each(|i, e| {
			visited.push((i, addr_el(e)));
			i + 1 < stop
		});
		let k = if a.is_empty() { 0 } else { stop.max(1).min(a.len()) };
		ensure!(visited == exp[..k], "for_each visited {} of {} (stop {})", visited.len(), a.len(), stop);
		let modn = r.range(1, 3);
		let even: Vec<Id> = a.iter().copied().enumerate().filter(|(i, _)| i % modn == 0).map(|x| x.1).collect();
		let odd: Vec<Id> = a.iter().copied().enumerate().filter(|(i, _)| i % modn != 0).map(|x| x.1).collect();
		cmp(&w, "filter_by", &w.ids_of(&sa.filter_by(|i, _| i % modn == 0))?, &even)?;
		cmp(&w, "not_by", &w.ids_of(&sa.not_by(|i, _| i % modn == 0))?, &odd)?;
		ensure!(sa.is_by(|i, _| i % modn == 1) == a.iter().enumerate().any(|(i, _)| i % modn == 1), "is_by");
		ensure!(sa.is_all_by(|i, _| i % modn == 0) == odd.is_empty(), "is_all_by");
		// contains
		if !a.is_empty() {
			let all = w.elems(ROOT);
			let e = *r.pick(&all);
			let el = w.el(e);
			let anc = w.d.ancestors(e);
			ensure!(
				sa.contains(&el, &Combinator::ChildrenAll) == anc.iter().any(|x| a.contains(x)),
				"contains(ChildrenAll) of {} in {}",
				w.show(e),
				w.show_ids(&a)
			);
			ensure!(
				sa.contains(&el, &Combinator::Children) == w.d.n[e].parent.map_or(false, |x| a.contains(&x)),
				"contains(Children) of {}",
				w.show(e)
			);
			ensure!(
				sa.contains(&el, &Combinator::Next) == w.d.prev_el(e).map_or(false, |x| a.contains(&x)),
				"contains(Next) of {}",
				w.show(e)
			);
			ensure!(
				sa.contains(&el, &Combinator::NextAll)
					== next_chain(&w.d, e, &|d, i| d.prev_el(i)).iter().any(|x| a.contains(x)),
				"contains(NextAll) of {}",
				w.show(e)
			);
			ensure!(sa.contains(&el, &Combinator::Chain) == a.contains(&e), "contains(Chain) of {}", w.show(e));
		}
		ctx.judged("algebra", &format!("{} + {} = {}", shape(&w, &a), shape(&w, &b), shape(&w, &u)), !a.is_empty() && !b.is_empty());
	}
	Ok(())
}

/// queries leave no trace and are repeatable
pub fn query_readonly(r: &mut Rng, ctx: &mut Ctx) -> R {
	let (p, mut w) = any_world(r, ctx, 30)?;
	let root = w.set(&[ROOT]);
	let html = w.root.document().map(|d| d.source_code());
	ensure!(html.is_some(), "document() of a loaded root is None");
	let n = r.range(3, 8);
	for _ in 0..n {
		let ids = some_set(&w, r, ROOT);
		let set = w.set(&ids);
		let g = SelGen::new(&w.d, &p);
		let f = g.list(r, 2, 3, None).print();
		let s = if r.chance(50) { String::new() } else { g.simple_list(r, None).print() };
		ctx.step(format!("queries {:?} {:?} on {}", f, s, w.show_ids(&ids)));
		let run = |w: &World| -> R<Vec<Vec<Id>>> {
			Ok(vec![
				w.ids_of(&root.find(&f))?,
				w.ids_of(&set.find(&f))?,
				w.ids_of(&set.filter(&f))?,
				w.ids_of(&set.not(&f))?,
				w.ids_of(&set.has(&f))?,
				w.ids_of(&set.closest(&f))?,
				w.ids_of(&set.children(&s))?,
				w.ids_of(&set.parents(&s))?,
				w.ids_of(&set.siblings(&s))?,
				w.ids_of(&set.next_all(&s))?,
				w.ids_of(&set.prev_all(&s))?,
				w.ids_of(&set.next_until(&f, &s, true))?,
				w.ids_of(&set.add(root.find(&f)))?,
			])
		};
		let strings = |_: &World| -> Vec<String> {
			let mut v = vec![set.text(), set.outer_htmls(), set.htmls(), set.val().to_string()];
			v.push(format!("{:?}", set.attr("class")));
			v.push(format!("{:?}", set.texts(0).get_ref().iter().map(|t| t.text()).collect::<Vec<_>>()));
			v.push(set.has_class("a").to_string());
			v.push(root.text());
			v
		};
		let a = run(&w)?;
		let sa = strings(&w);
		w.check().map_err(|e| format!("after read-only queries {:?}/{:?}: {}", f, s, e))?;
		let b = run(&w)?;
		ensure!(a == b, "the same queries {:?}/{:?} gave different results when repeated", f, s);
		ensure!(sa == strings(&w), "the same reads gave different results when repeated");
		let now = w.root.document().map(|d| d.source_code());
		ensure!(now == html, "read-only queries changed the source code");
		ctx.judged("readonly", &format!("{} {} {}", f, s, shape(&w, &ids)), a.iter().any(|v| !v.is_empty()));
	}
	Ok(())
}

pub const BAD: &[&str] = &[
	">", "a >", "a,", ",a", "a,,b", "> > a", "a > > b", "a + ~ b", "", " ", "::", ":", ":foo", "[", "[]", "[a", "[a=", "[a='x]",
	"[a='x'", ":not(", ":not(a", ":not(a,", ":has(", ":has(a", ":nth-child(", ":nth-child()", ":nth-child(x)", ":nth-child(2",
	":nth-child(2n", ":nth-child(2n+", ":nth-child(-)", ":nth-child(2 3)", ".", "#", ".1", "#1", "a.", "a#", "a:", "a[", "..a", "a..b", "##a", "(", ")", "a)", "a(b)",
	":not(:not(a", ":contains(", ":contains('a", ":contains(\"a\"", "!", "@a", "$", "%", "a b >", "~", "+", "\\", ".\\", "a\\",
	"*|*", "a|b", "{}", "a{b}", "'a'", "\"", "<div>", "1", "-", "--x", ":nth-child(99999999999999999999999)",
	":nth-child(99999999999999999999999n+1)", ":nth-last-of-type(18446744073709551616)", ":not(>)", ":has(,)", ":not(a b", "[=x]", "[a!]", "[a~]", ":first-child(", "a:not(b):", "\u{0}", "\u{feff}a", "é",
];
/// strings that are certainly not selectors of the documented grammar
const SURELY_BAD: &[&str] = &[
	">", "a >", "a,", ",a", "a,,b", "> > a", "a > > b", ":foo", "[", "[]", "[a", "[a=", ":not(", ":not(a", ":has(", ":has(a", ":nth-child(",
	":nth-child()", ":nth-child(x)", ":nth-child(2", ".", "#", "a.", "a#", "a:", "a[", "..a", "(", ")", "a)", "@a", "$", "%", "<div>", "1", "~", "+", "{}",
];
/// parts that make any list of selectors invalid
const BAD_PART: &[&str] = &[
	"", " ", "a >", "a > > b", ":foo", "[]", ".", "#", "a.", "a#", "a:", "..a", ")", "a)", "@a", "$", "%", "<div>", "1", "b ~", "{}", "a + + b", "a:nth-child()", "a:nth-child(x)", "p:foo-bar",
];
pub fn selector_errors(r: &mut Rng, ctx: &mut Ctx) -> R {
	let (p, d) = random_doc(r);
	let w = World::load(d)?;
	ctx.step(w.log[0].clone());
	let g = SelGen::new(&w.d, &p);
	let root = w.set(&[ROOT]);
	let mut ids = some_set(&w, r, ROOT);
	if r.chance(15) {
		ids.retain(|&i| i != ROOT);
		ids.insert(0, ROOT);
	}
	let set = w.set(&ids);
	let empty = w.set(&[]);
	let n = r.range(4, 10);
	for _ in 0..n {
		let sure = r.chance(35);
		let text: String = if sure && r.chance(40) {
			// one broken part in a list of good ones
			let n = r.range(1, 6);
			let at = r.below(n + 1);
			let mut parts: Vec<String> = (0..n).map(|_| g.list(r, 1, 1, None).print()).collect();
			parts.insert(at, r.pick(BAD_PART).to_string());
			parts.join(*r.pick(&[",", ", ", " , "]))
		} else if sure {
			r.pick(SURELY_BAD).to_string()
		} else if r.chance(30) {
			r.pick(BAD).to_string()
		} else {
			let base = g.list(r, 2, 2, None).print();
			let mut cs: Vec<char> = base.chars().collect();
			match r.below(6) {
				0 => cs.truncate(r.below(cs.len() + 1)),
				1 => {
					let k = r.below(cs.len());
					cs.drain(..k);
				}
				_ => {
					for _ in 0..r.range(1, 3) {
						if cs.is_empty() {
							break;
						}
						let at = r.below(cs.len());
						match r.below(4) {
							0 => {
								cs.remove(at);
							}
							1 => {
								let c = cs[at];
								cs.insert(at, c);
							}
							2 => {
								let x = r.below(cs.len());
								cs.swap(at, x);
							}
							_ => {
								let c = *r.pick(&['(', ')', '[', ']', '>', ',', '.', '#', ':', '\'', '"', '\\', ' ', '*', '=', 'n', '9', '+', '-', '\u{e9}', '~', '|']);
								cs.insert(at, c);
							}
						}
					}
				}
			}
			cs.into_iter().collect()
		};
		ctx.step(format!("selector {:?}", text));
		// is it taken as a selector? (nested selectors are read when they are applied)
		let before = w.errs_len();
		w.ids_of(&root.find(&text))?;
		let refused = if text.contains('(') || text.trim().is_empty() { None } else { Some(w.errs_len() > before) };
		for (name, s) in [("root", &root), ("set", &set), ("empty", &empty)] {
			let m = r.below(20);
			let inc = r.chance(50);
			let before = w.errs_len();
			let (method, res): (&str, Option<Set>) = match m {
				0 | 1 => ("find", Some(s.find(&text))),
				2 => ("filter", Some(s.filter(&text))),
				3 => ("not", Some(s.not(&text))),
				4 => ("has", Some(s.has(&text))),
				5 => ("closest", Some(s.closest(&text))),
				6 => ("children", Some(s.children(&text))),
				7 => ("siblings", Some(s.siblings(&text))),
				8 => ("next_until", Some(s.next_until(&text, "", inc))),
				9 => ("prev_until", Some(s.prev_until(&text, "a", inc))),
				13 => ("parents_until", Some(s.parents_until(&text, "", inc))),
				14 => ("next_until filter", Some(s.next_until("b", &text, inc))),
				15 => ("prev_until filter", Some(s.prev_until("a", &text, inc))),
				16 => ("parents_until filter", Some(s.parents_until("a", &text, inc))),
				17 => ("next", Some(s.next(&text))),
				18 => ("prev", Some(s.prev(&text))),
				19 => ("parent", Some(s.parent(&text))),
				12 => ("prev_all", Some(s.prev_all(&text))),
				10 => ("parents", Some(s.parents(&text))),
				11 => {
					s.is(&text);
					s.is_all(&text);
					("is", None)
				}
				_ => ("next_all", Some(s.next_all(&text))),
			};
			let reported = w.errs_len() - before;
			if let (Some(refused), false) = (refused, s.is_empty()) {
				ensure!(
					refused == (reported > 0),
					"{:?} is {} by find() and {} by {}()",
					text,
					if refused { "reported" } else { "accepted" },
					if reported > 0 { "reported" } else { "accepted" },
					method
				);
			}
			if reported > 0 {
				ctx.count("reported-error");
				if let Some(res) = &res {
					// nested selectors are read when they are applied, so other parts may have matched
					ensure!(
						res.is_empty() || text.contains('('),
						"{}({:?}) on the {} reported an error yet returned {} elements",
						method,
						text,
						name,
						res.length()
					);
				}
			}
			if sure && !s.is_empty() {
				if let Some(res) = &res {
					ensure!(res.is_empty(), "{}({:?}) returned {} elements for an invalid selector", method, text, res.length());
				}
				ensure!(reported > 0, "{}({:?}) on the {} did not report the invalid selector to the error handler", method, text, name);
			}
			if let Some(res) = &res {
				w.ids_of(res)?;
			}
			ctx.judged(method, &format!("{:?} {} {}", text, name, reported), true);
		}
		// canary: the library still answers
		let all = w.ids_of(&root.find("*"))?;
		ensure!(all == w.elems(ROOT), "after selector {:?}, find(\"*\") is wrong", text);
	}
	Ok(())
}
