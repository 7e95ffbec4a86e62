//! Callbacks: what user code is called with, how often, in which order - and that it may use the document meanwhile.
use crate::ctx::Ctx;
use crate::gen::*;
use crate::model::*;
use crate::ops;
use crate::q::{some_set, some_top, any_world};
use crate::rng::Rng;
use crate::world::*;
use crate::{ensure, fail};
use std::cell::RefCell;
use std::rc::Rc;
use visdom::types::BoxDynElement;
use visdom::Vis;

/// what happens inside a callback
struct Inside<'a, 'c> {
	w: &'a RefCell<World>,
	r: &'a RefCell<Rng>,
	ctx: &'a RefCell<&'c mut Ctx>,
	p: &'a Profile,
	edits: bool,
	err: &'a RefCell<Option<String>>,
	calls: &'a RefCell<Vec<(usize, Id)>>,
}
impl<'a, 'c> Inside<'a, 'c> {
	fn call(&self, ix: usize, e: &BoxDynElement) {
		if self.err.borrow().is_some() {
			return;
		}
		if let Err(m) = self.go(ix, e) {
			*self.err.borrow_mut() = Some(format!("in the callback for #{}: {}", ix, m));
		}
	}
	fn go(&self, ix: usize, e: &BoxDynElement) -> R {
		let mut w = self.w.borrow_mut();
		let mut r = self.r.borrow_mut();
		let mut ctx = self.ctx.borrow_mut();
		let id = w.id_of(e)?;
		self.calls.borrow_mut().push((ix, id));
		let text = e.text_content();
		ensure!(text == w.d.text(id), "the element reads {:?}, expected {:?}", text, w.d.text(id));
		let s = Vis::dom(e);
		let got = w.ids_of(&s.find("*"))?;
		ensure!(got == w.d.desc_elems(id), "a search below the element finds {} of {} elements", got.len(), w.d.desc_elems(id).len());
		if self.edits && r.chance(60) {
			match r.below(4) {
				// the element itself goes away, or what is below it
				0 if w.d.n[id].parent.is_some() && id != ROOT => ops::remove(&mut w, &[id], &mut ctx)?,
				1 if w.d.is_elem(id) && !is_void(w.d.raw_tag(id)) => ops::set_text(&mut w, &[id], "cb", &mut ctx)?,
				_ => ops::one_op(&mut w, &mut r, self.p, &mut ctx)?,
			}
			ctx.count("edits in callbacks");
		}
		Ok(())
	}
}
pub fn callbacks(r: &mut Rng, ctx: &mut Ctx) -> R {
	let (p, w) = any_world(r, ctx, 40)?;
	let w = RefCell::new(w);
	let rr = RefCell::new(Rng::new(r.next()));
	let cx = RefCell::new(ctx);
	for _ in 0..4 {
		let top = some_top(&w.borrow(), r);
		let ids = some_set(&w.borrow(), r, top);
		let set = w.borrow().set(&ids);
		let n = ids.len();
		let want: Vec<(usize, Id)> = ids.iter().cloned().enumerate().collect();
		let yes: Vec<bool> = (0..n).map(|_| r.chance(50)).collect();
		let stop = if r.chance(40) { r.below(n + 1) } else { n };
		let (err, calls) = (RefCell::new(None), RefCell::new(vec![]));
		let edits = r.chance(60);
		let ins = Inside { w: &w, r: &rr, ctx: &cx, p: &p, edits, err: &err, calls: &calls };
		let k = r.below(9);
		let name = ["for_each", "each", "map", "filter_by", "not_by", "is_by", "is_all_by", "into_iter", "get"][k];
		let what = format!("{} on {}{}", name, w.borrow().show_ids(&ids), if edits { " with edits inside" } else { "" });
		cx.borrow_mut().step(what.clone());
		let pick = |b: bool| -> Vec<Id> { ids.iter().zip(&yes).filter(|x| *x.1 == b).map(|x| *x.0).collect() };
		let (mut all, mut bad) = (true, None);
		match k {
			0 | 1 => {
				let mut set = set;
				let f = |i: usize, e: &mut BoxDynElement| {
					ins.call(i, e);
					i + 1 < stop
				};
				let back = if k == 0 { set.for_each(f) } else { set.each(f) };
				let back = w.borrow().ids_of(back)?;
				all = false;
				let exp = stop.max(1).min(n);
				if err.borrow().is_none() && *calls.borrow() != want[..exp] {
					bad = Some(format!("called for {:?}, expected {:?}", calls.borrow(), &want[..exp]));
				}
				if back != ids {
					bad = Some("the set has changed".to_string());
				}
			}
			2 => {
				let got = set.map(|i, e| {
					ins.call(i, e);
					i * 3
				});
				if got != (0..n).map(|i| i * 3).collect::<Vec<_>>() {
					bad = Some(format!("map returns {:?}", got));
				}
			}
			3 | 4 => {
				let f = |i: usize, e: &BoxDynElement| {
					ins.call(i, e);
					yes.get(i).cloned().unwrap_or(false)
				};
				let got = if k == 3 { set.filter_by(f) } else { set.not_by(f) };
				let got = w.borrow().ids_of(&got)?;
				if got != pick(k == 3) {
					bad = Some(format!("keeps {}, expected {}", w.borrow().show_ids(&got), w.borrow().show_ids(&pick(k == 3))));
				}
			}
			5 | 6 => {
				let f = |i: usize, e: &BoxDynElement| {
					ins.call(i, e);
					yes.get(i).cloned().unwrap_or(false)
				};
				let got = if k == 5 { set.is_by(f) } else { set.is_all_by(f) };
				let exp = if k == 5 { yes.iter().any(|b| *b) } else { yes.iter().all(|b| *b) };
				if got != exp {
					bad = Some(format!("says {}, the callback said {:?}", got, yes));
				}
				// these stop as soon as the answer is known
				all = false;
				let end = yes.iter().position(|b| *b == (k == 5)).map_or(n, |x| x + 1);
				let c = calls.borrow();
				if err.borrow().is_none() && c[..] != want[..end] {
					bad = Some(format!("called for {:?}, expected {:?}", c, &want[..end]));
				}
			}
			7 => {
				for (i, e) in set.into_iter().enumerate() {
					ins.call(i, &e);
				}
			}
			_ => {
				for i in 0..set.length() {
					match set.get(i) {
						Some(e) => ins.call(i, e),
						None => bad = Some(format!("get({}) of {} is none", i, n)),
					}
				}
				if set.get(n).is_some() {
					bad = Some("get() past the end is some".to_string());
				}
			}
		}
		if let Some(e) = err.borrow_mut().take() {
			fail!("{}: {}", what, e);
		}
		if all && *calls.borrow() != want {
			bad = Some(format!("called for {:?}, expected {:?}", calls.borrow(), want));
		}
		if let Some(b) = bad {
			fail!("{}: {}", what, b);
		}
		w.borrow_mut().check().map_err(|e| format!("after {}: {}", what, e))?;
		cx.borrow_mut().judged(name, &format!("{} {:?} {}", what, yes, stop), n > 1);
	}
	// text nodes: every callback gets each node once, and may read the tree
	let top = some_top(&w.borrow(), r);
	let ids = some_set(&w.borrow(), r, top);
	let set = w.borrow().set(&ids);
	let limit = r.below(4);
	let seen: Rc<RefCell<Vec<(usize, usize)>>> = Default::default();
	let s2 = seen.clone();
	let html: Rc<RefCell<Option<El>>> = Rc::new(RefCell::new(set.get(0).map(|e| e.cloned())));
	let h2 = html.clone();
	let got = set.texts_by(
		limit,
		Box::new(move |d, t| {
			if let Some(e) = &*h2.borrow() {
				let _ = (e.outer_html().len(), e.text().len(), Vis::dom(e).find("*").length());
			}
			let a = addr(&t.clone_node());
			s2.borrow_mut().push((d, a));
			s2.borrow().len() % 2 == 0
		}),
	);
	*html.borrow_mut() = None;
	let plain: Vec<usize> = set.texts(limit).get_ref().iter().map(|t| addr(&t.clone_node())).collect();
	let called: Vec<usize> = seen.borrow().iter().map(|x| x.1).collect();
	ensure!(called == plain, "texts_by called its handler for {} texts, texts gives {}", called.len(), plain.len());
	let kept: Vec<usize> = got.get_ref().iter().map(|t| addr(&t.clone_node())).collect();
	let exp: Vec<usize> = plain.iter().cloned().enumerate().filter(|x| x.0 % 2 == 1).map(|x| x.1).collect();
	ensure!(kept == exp, "texts_by kept {} texts, its handler {}", kept.len(), exp.len());
	cx.borrow_mut().judged("texts_by", &format!("{:?} {}", ids, limit), plain.len() > 1);
	// the iterations of a collection of texts, which may change each text they are given
	let k = r.below(5);
	let n = plain.len();
	let stop = if r.chance(40) { r.below(n + 1) } else { n };
	let mut texts = set.texts(limit);
	let mut calls: Vec<(usize, usize)> = vec![];
	let mut exp: Vec<(usize, usize)> = plain.iter().cloned().enumerate().collect();
	let name = ["texts.for_each", "texts.each", "texts.filter_by", "texts.into_iter", "texts_by_rec"][k];
	let what = format!("{} on {} texts of {}, stop {}", name, n, w.borrow().show_ids(&ids), stop);
	cx.borrow_mut().step(what.clone());
	match k {
		0 | 1 => {
			let f = |i: usize, t: &mut visdom::types::BoxDynText| {
				let nd = t.clone_node();
				calls.push((i, addr(&nd)));
				// reading the tree from inside
				let _ = nd.parent().map(|p| (p.text_content().len(), p.outer_html().len()));
				i + 1 < stop
			};
			let back = if k == 0 { texts.for_each(f) } else { texts.each(f) };
			ensure!(back.length() == n, "{}: the collection has changed", what);
			exp.truncate(stop.max(1));
		}
		2 => {
			let c = RefCell::new(vec![]);
			let got = texts.filter_by(|i, t| {
				c.borrow_mut().push((i, addr(&t.clone_node())));
				i % 3 != 1
			});
			calls = c.into_inner();
			let got: Vec<usize> = got.get_ref().iter().map(|t| addr(&t.clone_node())).collect();
			let want: Vec<usize> = plain.iter().enumerate().filter(|x| x.0 % 3 != 1).map(|x| *x.1).collect();
			ensure!(got == want, "{}: keeps {} texts, the callback {}", what, got.len(), want.len());
		}
		3 => calls = texts.into_iter().enumerate().map(|(i, t)| (i, addr(&t.clone_node()))).collect(),
		_ => {
			// the element callback is asked about each element below once, the outer before the inner
			let asked: Rc<RefCell<Vec<usize>>> = Default::default();
			let a2 = asked.clone();
			let got = set.texts_by_rec(
				0,
				Box::new(|_, _| true),
				Box::new(move |e| {
					a2.borrow_mut().push(addr_el(e));
					true
				}),
			);
			let all: Vec<usize> = set.texts(0).get_ref().iter().map(|t| addr(&t.clone_node())).collect();
			let got: Vec<usize> = got.get_ref().iter().map(|t| addr(&t.clone_node())).collect();
			ensure!(got == all, "{}: gives {} texts, texts {}", what, got.len(), all.len());
			let w = w.borrow();
			let mut want = vec![];
			for &i in &ids {
				want.extend(w.d.desc_elems(i).into_iter().filter(|&x| !is_content(&w.d.tag(x))));
			}
			let asked: Vec<Id> = asked.borrow().iter().map(|a| *w.ids.get(a).unwrap_or(&usize::MAX)).collect();
			ensure!(asked == want, "{}: asked about {}, expected {}", what, w.show_ids(&asked), w.show_ids(&want));
			exp.clear();
		}
	}
	ensure!(calls == exp, "{}: called for {:?}, expected {:?}", what, calls, exp);
	cx.borrow_mut().judged(name, &what, n > 1);
	Ok(())
}
