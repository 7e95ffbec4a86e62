//! Mutations applied to the real document and to the shadow tree in lock-step.
//! The shadow side is the specification of every mutation method.
use crate::ctx::Ctx;
use crate::gen::*;
use crate::model::*;
use crate::rng::Rng;
use crate::sel::classes;
use crate::world::*;
use crate::{ensure, fail};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pos {
	Append,
	Prepend,
	Before,
	After,
}
pub const POSITIONS: &[Pos] = &[Pos::Append, Pos::Prepend, Pos::Before, Pos::After];

fn rejected(w: &World, t: Id, c: Id) -> bool {
	!w.d.is_elem(t)
		|| (w.d.n[c].kind == Kind::Root && w.d.is_document(c))
		|| c == t
		|| w.d.ancestors(t).contains(&c)
}
fn has_handler(w: &World, t: Id) -> bool {
	w.attached(t)
}
/// may the node `c` become a child of `t`
pub fn accepts(d: &Dom, t: Id, c: Id) -> bool {
	let tag = d.tag(t);
	if is_void(&tag) {
		return false;
	}
	if is_plain(&tag) {
		return d.is_text(c);
	}
	true
}
/// shadow of one insert_adjacent; returns true when it has to be reported as an error
fn m_insert(w: &mut World, pos: Pos, t: Id, c: Id, copy: bool) -> bool {
	if rejected(w, t, c) {
		return true;
	}
	if matches!(pos, Pos::Before | Pos::After) && w.d.n[t].parent.is_none() {
		return false;
	}
	let mut nodes: Vec<Id> = if w.d.n[c].kind == Kind::Root { w.d.n[c].kids.clone() } else { vec![c] };
	if matches!(pos, Pos::Append | Pos::Prepend) {
		nodes.retain(|&x| accepts(&w.d, t, x));
	}
	if copy && w.d.n[c].kind == Kind::Root {
		nodes = nodes.into_iter().map(|x| w.d.copy(x, &mut vec![])).collect();
	}
	for &x in &nodes {
		w.d.detach(x);
	}
	let (p, mut at) = match pos {
		Pos::Append => (t, w.d.n[t].kids.len()),
		Pos::Prepend => (t, 0),
		Pos::Before => (w.d.n[t].parent.unwrap(), w.d.index(t)),
		Pos::After => (w.d.n[t].parent.unwrap(), w.d.index(t) + 1),
	};
	for x in nodes {
		w.d.insert_at(p, at, x);
		at += 1;
	}
	false
}
fn expect_errs(w: &World, before: usize, want: usize, unknown: bool, what: &str) -> R {
	let got = w.errs_len() - before;
	if want > 0 {
		ensure!(got >= want || unknown, "{}: the invalid operation was not reported to the error handler", what);
	} else if !unknown {
		ensure!(got == 0, "{}: unexpected error report {:?}", what, w.errs.borrow());
	}
	w.errs.borrow_mut().truncate(before);
	Ok(())
}
pub fn insert(w: &mut World, pos: Pos, targets: &[Id], content: &[Id], ctx: &mut Ctx) -> R {
	let flip = ctx.log.len() % 2 == 0;
	let what = format!(
		"{:?}{} content {} target {}",
		pos,
		if flip { "" } else { " (reversed call form)" },
		w.show_ids(content),
		w.show_ids(targets)
	);
	ctx.step(what.clone());
	let mut ts = w.set(targets);
	let mut cs = w.set(content);
	let before = w.errs_len();
	match (pos, flip) {
		(Pos::Append, true) => {
			ts.append(&mut cs);
		}
		(Pos::Append, false) => {
			cs.append_to(&mut ts);
		}
		(Pos::Prepend, true) => {
			ts.prepend(&mut cs);
		}
		(Pos::Prepend, false) => {
			cs.prepend_to(&mut ts);
		}
		(Pos::Before, true) => {
			ts.before(&mut cs);
		}
		(Pos::Before, false) => {
			cs.insert_before(&mut ts);
		}
		(Pos::After, true) => {
			ts.after(&mut cs);
		}
		(Pos::After, false) => {
			cs.insert_after(&mut ts);
		}
	}
	let mut want = 0;
	let mut unknown = false;
	for (k, &t) in targets.iter().enumerate() {
		let order: Vec<Id> = match pos {
			Pos::Append | Pos::Before => content.to_vec(),
			_ => content.iter().rev().copied().collect(),
		};
		for c in order {
			let known = has_handler(w, t);
			if m_insert(w, pos, t, c, k + 1 < targets.len()) {
				if known {
					want += 1;
				} else {
					unknown = true;
				}
			}
		}
	}
	w.check().map_err(|e| format!("after {}: {}", what, e))?;
	expect_errs(w, before, want, unknown, &what)?;
	ctx.judged(&format!("{:?}", pos), &what, want == 0);
	if want > 0 {
		ctx.count("rejected-insertion");
	}
	Ok(())
}
/// replace_with: every target is replaced by the content, in order
pub fn replace(w: &mut World, targets: &[Id], content: &[Id], ctx: &mut Ctx) -> R {
	let what = format!("replace {} with {}", w.show_ids(targets), w.show_ids(content));
	ctx.step(what.clone());
	let mut ts = w.set(targets);
	let mut cs = w.set(content);
	let before = w.errs_len();
	let only = match content {
		[c] if w.d.n[*c].kind == Kind::Root => match w.d.n[*c].kids[..] {
			[k] if w.d.is_elem(k) => Some(k),
			_ => None,
		},
		[c] => Some(*c),
		_ => None,
	};
	// the operation of a single element does the same
	let direct = targets.len() == 1 && content.len() == 1 && ctx.log.len() % 3 == 0;
	if direct {
		let mut e = w.el(targets[0]);
		e.replace_with(&w.el(content[0]));
		ts = Set::with_nodes(vec![e]);
	} else {
		ts.replace_with(&mut cs);
	}
	let mut want = 0;
	let mut unknown = false;
	for (k, &t) in targets.iter().enumerate() {
		let known = has_handler(w, t);
		let mut any = false;
		for &c in content {
			if rejected(w, t, c) {
				if known {
					want += 1;
				} else {
					unknown = true;
				}
				continue;
			}
			if w.d.n[t].parent.is_none() {
				continue;
			}
			let n = if w.d.n[c].kind == Kind::Root { w.d.n[c].kids.len() } else { 1 };
			any |= n > 0;
			m_insert(w, Pos::Before, t, c, k + 1 < targets.len());
		}
		if any {
			w.d.detach(t);
		}
	}
	w.check().map_err(|e| format!("after {}: {}", what, e))?;
	expect_errs(w, before, want, unknown, &what)?;
	// a handle replaced by one element stands for that element
	if let [t] = targets {
		if let (Some(n), 0, false) = (only, want, unknown) {
			if w.d.n[*t].parent.is_none() && w.d.n[n].parent.is_some() && *t != n {
				let got = w.ids_of(&ts)?;
				ensure!(got == [n], "after {} the set holds {}", what, w.show_ids(&got));
			}
		}
	}
	ctx.judged("replace_with", &what, want == 0);
	Ok(())
}
pub fn remove(w: &mut World, ids: &[Id], ctx: &mut Ctx) -> R {
	let what = format!("remove {}", w.show_ids(ids));
	ctx.step(what.clone());
	w.set(ids).remove();
	for &i in ids {
		w.d.detach(i);
	}
	w.check().map_err(|e| format!("after {}: {}", what, e))?;
	ctx.judged("remove", &what, true);
	Ok(())
}
/// element level remove_child; a node that is not a child is left alone
pub fn remove_child(w: &mut World, p: Id, c: Id, ctx: &mut Ctx) -> R {
	let what = format!("remove_child {} from {}", w.show(c), w.show(p));
	ctx.step(what.clone());
	let mut pe = w.el(p);
	pe.remove_child(w.el(c));
	if w.d.n[c].parent == Some(p) {
		w.d.detach(c);
	}
	w.check().map_err(|e| format!("after {}: {}", what, e))?;
	ctx.judged("remove_child", &what, true);
	Ok(())
}
fn clear_kids(w: &mut World, i: Id) {
	for k in w.d.n[i].kids.clone() {
		w.d.detach(k);
	}
}
pub fn encode(s: &str) -> String {
	let mut o = String::new();
	for c in s.chars() {
		match c {
			'&' => o.push_str("&amp;"),
			'<' => o.push_str("&lt;"),
			'>' => o.push_str("&gt;"),
			'"' => o.push_str("&quot;"),
			'\'' => o.push_str("&apos;"),
			c => o.push(c),
		}
	}
	o
}
/// set_text/empty on elements: the shadow takes over the real escaped form after checking that it
/// decodes to the text that was set
pub fn set_text(w: &mut World, ids: &[Id], text: &str, ctx: &mut Ctx) -> R {
	let what = format!("set_text {:?} on {}", text, w.show_ids(ids));
	ctx.step(what.clone());
	let mut s = w.set(ids);
	if text.is_empty() && ctx.log.len() % 2 == 0 {
		s.empty();
	} else {
		s.set_text(text);
	}
	for &i in ids {
		if is_content(&w.d.tag(i)) {
			w.d.set_content(i, if text.is_empty() { None } else { Some(text.to_string()) });
			continue;
		}
		clear_kids(w, i);
		if !text.is_empty() {
			let e = w.el(i);
			ensure!(
				e.child_nodes_length() == 1,
				"after {}: {} child nodes instead of one text",
				what,
				e.child_nodes_length()
			);
			let raw: String = e.child_nodes_item(0).unwrap().text_chars().into_iter().collect();
			ensure!(
				!raw.contains('<') && !raw.contains('>'),
				"after {}: the text is not escaped: {:?}",
				what,
				raw
			);
			let dec = unescape(&raw);
			ensure!(dec == text, "after {}: stored {:?} which means {:?}", what, raw, dec);
			let t = w.d.add(Kind::Text(raw));
			w.d.append(i, t);
		}
	}
	w.check().map_err(|e| format!("after {}: {}", what, e))?;
	for &i in ids {
		if w.d.n[i].parent.is_some() || w.d.is_elem(i) {
			let got = w.el(i).text();
			// a later element of the set may have cleared this one only if nested; text is then still its own
			let exp = if is_content(&w.d.tag(i)) { text.to_string() } else { text.to_string() };
			ensure!(got == exp, "after {}: text() of {} is {:?}", what, w.show(i), got);
		}
	}
	ctx.judged("set_text", &what, true);
	Ok(())
}
/// decode named and numeric references of the five markup characters
pub fn unescape(s: &str) -> String {
	let mut o = String::new();
	let mut rest = s;
	while let Some(p) = rest.find('&') {
		o.push_str(&rest[..p]);
		rest = &rest[p..];
		let end = rest.find(';').filter(|&e| e <= 9);
		let mut done = false;
		if let Some(e) = end {
			let name = &rest[1..e];
			let c = match name {
				"lt" | "LT" => Some('<'),
				"gt" | "GT" => Some('>'),
				"amp" | "AMP" => Some('&'),
				"quot" | "QUOT" => Some('"'),
				"apos" => Some('\''),
				n if n.starts_with("#x") || n.starts_with("#X") => u32::from_str_radix(&n[2..], 16).ok().and_then(char::from_u32),
				n if n.starts_with('#') => n[1..].parse::<u32>().ok().and_then(char::from_u32),
				_ => None,
			};
			if let Some(c) = c {
				o.push(c);
				rest = &rest[e + 1..];
				done = true;
			}
		}
		if !done {
			o.push('&');
			rest = &rest[1..];
		}
	}
	o.push_str(rest);
	o
}
pub fn set_html(w: &mut World, ids: &[Id], frag: &Dom, ctx: &mut Ctx) -> R {
	let html = frag.html(ROOT);
	let what = format!("set_html {:?} on {}", html, w.show_ids(ids));
	ctx.step(what.clone());
	w.set(ids).set_html(&html);
	for &i in ids {
		if is_content(&w.d.tag(i)) {
			w.d.set_content(i, Some(html.clone()));
			continue;
		}
		clear_kids(w, i);
		if is_void(&w.d.tag(i)) {
			continue;
		}
		for &k in &frag.n[ROOT].kids {
			let c = w.d.import(frag, k);
			w.d.append(i, c);
		}
	}
	w.check().map_err(|e| format!("after {}: {}", what, e))?;
	ctx.judged("set_html", &what, true);
	Ok(())
}
/// operations on text nodes
pub fn text_op(w: &mut World, t: Id, op: usize, s: &str, frag: &Dom, ctx: &mut Ctx) -> R {
	let old = match &w.d.n[t].kind {
		Kind::Text(x) => x.clone(),
		_ => return Ok(()),
	};
	let mut tn = w.nd(t).typed().into_text().expect("harness: text");
	let before = w.errs_len();
	let mut want = 0;
	let what;
	match op {
		0 => {
			what = format!("text node {} set_text {:?}", w.show(t), s);
			ctx.step(what.clone());
			tn.set_text(s);
			if s.is_empty() {
				want = 1;
			} else {
				w.d.n[t].kind = Kind::Text(s.into());
			}
		}
		1 => {
			what = format!("text node {} append_text {:?}", w.show(t), s);
			ctx.step(what.clone());
			tn.append_text(s);
			w.d.n[t].kind = Kind::Text(old + s);
		}
		2 => {
			what = format!("text node {} prepend_text {:?}", w.show(t), s);
			ctx.step(what.clone());
			tn.prepend_text(s);
			w.d.n[t].kind = Kind::Text(s.to_string() + &old);
		}
		3 => {
			what = format!("text node {} remove", w.show(t));
			ctx.step(what.clone());
			tn.remove();
			w.d.detach(t);
		}
		_ => {
			let html = frag.html(ROOT);
			what = format!("text node {} set_html {:?}", w.show(t), html);
			ctx.step(what.clone());
			tn.set_html(&html);
			if let Some(p) = w.d.n[t].parent {
				let mut at = w.d.index(t);
				w.d.detach(t);
				for &k in &frag.n[ROOT].kids {
					let c = w.d.import(frag, k);
					w.d.insert_at(p, at, c);
					at += 1;
				}
			}
		}
	}
	let known = has_handler(w, t);
	w.check().map_err(|e| format!("after {}: {}", what, e))?;
	expect_errs(w, before, want, !known, &what)?;
	ctx.judged(["text.set_text", "text.append_text", "text.prepend_text", "text.remove", "text.set_html"][op.min(4)], &what, true);
	Ok(())
}
/// attribute value as set_attr stores it: the value is kept; only when both quote kinds occur the
/// later occurrences of the delimiter have to be escaped
pub fn set_attr(w: &mut World, ids: &[Id], name: &str, val: Option<&str>, ctx: &mut Ctx) -> R {
	let what = format!("set_attr {:?}={:?} on {}", name, val, w.show_ids(ids));
	ctx.step(what.clone());
	if ctx.log.len() % 3 == 0 {
		for &i in ids {
			w.el(i).set_attribute(name, val);
		}
	} else {
		w.set(ids).set_attr(name, val);
	}
	for &i in ids {
		w.d.set_attr(i, name, val.map(|s| s.to_string()));
	}
	w.check().map_err(|e| format!("after {}: {}", what, e))?;
	ctx.judged("set_attr", &what, true);
	Ok(())
}
pub fn remove_attr(w: &mut World, ids: &[Id], name: &str, ctx: &mut Ctx) -> R {
	let what = format!("remove_attr {:?} on {}", name, w.show_ids(ids));
	ctx.step(what.clone());
	if ctx.log.len() % 3 == 0 {
		for &i in ids {
			w.el(i).remove_attribute(name);
		}
	} else {
		w.set(ids).remove_attr(name);
	}
	for &i in ids {
		w.d.remove_attr(i, name);
	}
	w.check().map_err(|e| format!("after {}: {}", what, e))?;
	ctx.judged("remove_attr", &what, true);
	Ok(())
}
pub fn words(s: &str) -> Vec<String> {
	s.split_ascii_whitespace().map(|x| x.to_string()).collect()
}
/// op: 0 add, 1 remove, 2 toggle. Judged on the class lists; the exact spelling is adopted.
pub fn class_op(w: &mut World, ids: &[Id], op: usize, names: &str, ctx: &mut Ctx) -> R {
	let nm = ["add_class", "remove_class", "toggle_class"][op];
	let what = format!("{} {:?} on {}", nm, names, w.show_ids(ids));
	ctx.step(what.clone());
	let before: Vec<Vec<String>> = ids.iter().map(|&i| classes(&w.d, i)).collect();
	{
		let mut s = w.set(ids);
		match op {
			0 => s.add_class(names),
			1 => s.remove_class(names),
			_ => s.toggle_class(names),
		};
	}
	let list = words(names);
	for (&i, old) in ids.iter().zip(before) {
		let mut exp = old.clone();
		for c in &list {
			let has = exp.contains(c);
			match op {
				0 if !has => exp.push(c.clone()),
				1 => exp.retain(|x| x != c),
				2 if has => exp.retain(|x| x != c),
				2 => exp.push(c.clone()),
				_ => {}
			}
		}
		let raw = attr_val(w.el(i).get_attribute("class"));
		let got: Vec<String> = match &raw {
			Some(Some(v)) => words(v),
			_ => vec![],
		};
		ensure!(got == exp, "after {}: {} has classes {:?}, expected {:?}", what, w.show(i), got, exp);
		if list.is_empty() {
			let m = w.d.attr(i, "class").map(|x| x.map(|y| y.to_string()));
			ensure!(raw == m, "{} changed the attribute of {}", what, w.show(i));
		} else {
			match raw {
				None => ensure!(w.d.attr(i, "class").is_none() || exp.is_empty(), "after {}: class attribute lost", what),
				Some(v) => w.d.set_attr(i, "class", v),
			}
			if attr_val(w.el(i).get_attribute("class")).is_none() {
				w.d.remove_attr(i, "class");
			}
		}
	}
	w.check().map_err(|e| format!("after {}: {}", what, e))?;
	ctx.judged(nm, &what, true);
	Ok(())
}
/// Elements::clone: detached deep copies; returns their ids
pub fn clone_set(w: &mut World, ids: &[Id], ctx: &mut Ctx) -> R<Vec<Id>> {
	let what = format!("clone {}", w.show_ids(ids));
	ctx.step(what.clone());
	let c: Set = w.set(ids).clone();
	ensure!(c.length() == ids.len(), "{}: {} copies", what, c.length());
	let mut out = vec![];
	for (k, &i) in ids.iter().enumerate() {
		let id = w.d.copy(i, &mut vec![]);
		let n = node_of(c.get(k).unwrap());
		w.bind(id, n, 0).map_err(|e| format!("{}: {}", what, e))?;
		out.push(id);
	}
	w.keep.push(c);
	w.check().map_err(|e| format!("after {}: {}", what, e))?;
	ctx.judged("clone", &what, true);
	Ok(out)
}

/// elements that behave as ordinary containers
pub fn plain_elems(w: &World, top: Id) -> Vec<Id> {
	w.elems(top).into_iter().filter(|&i| !is_content(&w.d.tag(i))).collect()
}
pub fn any_elems(w: &World) -> Vec<Id> {
	let mut v = vec![];
	for t in w.tops() {
		if w.d.is_elem(t) {
			v.push(t);
		}
		v.extend(w.elems(t));
	}
	v
}
pub fn texts(w: &World) -> Vec<Id> {
	(0..w.d.n.len())
		.filter(|&i| w.d.is_text(i) && w.real.get(i).map_or(false, |r| r.is_some()))
		.filter(|&i| w.d.n[i].parent.map_or(true, |p| !is_content(&w.d.tag(p))))
		.collect()
}
pub fn some_text(r: &mut Rng) -> String {
	if r.chance(20) {
		// characters that mean nothing special in a text
		let mut s = String::new();
		for _ in 0..r.range(1, 4) {
			s.push_str(r.pick(&[
				"\u{0}", "\u{feff}", "\u{2028}", "\r\n", "\t", " ", "\\", "=", "`", "\"", "'", "%3C", "\u{a0}", "\u{10ffff}", "/", "{}", "x", "\u{301}", "\u{200b}", "#", "--", "]]",
			]));
		}
		return s;
	}
	r.pick(&["x", "new text", "a b", " ", "\u{e9}\u{1f600}", "1", "tail"]).to_string()
}
/// pick content for an insertion: existing elements, a new fragment, or copies
pub fn pick_content(w: &mut World, r: &mut Rng, p: &Profile, ctx: &mut Ctx) -> R<Vec<Id>> {
	match r.below(10) {
		0..=3 => {
			let mut f = random_frag(r, p);
			if r.below(60) == 0 {
				// more nodes than fit any small buffer
				for k in 0..r.range(9, 40) {
					let e = f.elem(if k % 3 == 0 { "b" } else { "i" });
					f.append(ROOT, e);
				}
			}
			ctx.step(format!("load fragment {:?}", f.html(ROOT)));
			let id = w.load_frag(&f)?;
			if r.chance(50) {
				let mut v = vec![id];
				// more than one fragment, or a fragment and elements
				if r.chance(20) {
					let f = random_frag(r, p);
					ctx.step(format!("load fragment {:?}", f.html(ROOT)));
					let x = w.load_frag(&f)?;
					if r.chance(60) {
						v.push(x);
					} else {
						let k = w.d.ekids(x);
						v.extend(k);
					}
					if r.chance(30) {
						v.rotate_left(1);
					}
				}
				Ok(v)
			} else {
				// the fragment's own elements, leaving its texts behind
				let k = w.d.ekids(id);
				if k.is_empty() {
					Ok(vec![id])
				} else {
					Ok(k)
				}
			}
		}
		4 => {
			let all = plain_elems(w, ROOT);
			if all.is_empty() {
				return Ok(vec![]);
			}
			let a = *r.pick(&all);
			clone_set(w, &[a], ctx)
		}
		_ => {
			let all: Vec<Id> = any_elems(w).into_iter().filter(|&i| !matches!(w.d.tag(i).as_str(), "html" | "head" | "title")).collect();
			if all.is_empty() {
				return Ok(vec![]);
			}
			let n = if r.chance(60) { 1 } else { r.range(2, 3) };
			let mut v: Vec<Id> = vec![];
			for _ in 0..n {
				let x = *r.pick(&all);
				if !v.contains(&x) {
					v.push(x);
				}
			}
			Ok(if r.chance(70) { w.order(&v) } else { v })
		}
	}
}
pub fn pick_targets(w: &World, r: &mut Rng) -> Vec<Id> {
	let all: Vec<Id> = plain_elems(w, ROOT);
	if all.is_empty() {
		return vec![];
	}
	let n = if r.chance(75) {
		1
	} else if r.chance(12) {
		r.range(4, 9)
	} else {
		r.range(2, 3)
	};
	let mut v: Vec<Id> = vec![];
	for _ in 0..n {
		let x = *r.pick(&all);
		if !v.contains(&x) {
			v.push(x);
		}
	}
	w.order(&v)
}
pub fn random_insert(w: &mut World, r: &mut Rng, p: &Profile, ctx: &mut Ctx) -> R {
	let c = pick_content(w, r, p, ctx)?;
	let mut t = pick_targets(w, r);
	if r.chance(8) {
		// a detached target
		let a: Vec<Id> = any_elems(w).into_iter().filter(|&i| !is_content(&w.d.tag(i))).collect();
		if !a.is_empty() {
			t = vec![*r.pick(&a)];
		}
	}
	if t.is_empty() || c.is_empty() {
		return Ok(());
	}
	let pos = *r.pick(POSITIONS);
	insert(w, pos, &t, &c, ctx)
}
pub fn random_replace(w: &mut World, r: &mut Rng, p: &Profile, ctx: &mut Ctx) -> R {
	let c = pick_content(w, r, p, ctx)?;
	let t: Vec<Id> = pick_targets(w, r)
		.into_iter()
		.filter(|t| !c.contains(t) && !w.d.ancestors(*t).iter().any(|a| c.contains(a)) && w.d.tag(*t) != "html")
		.collect();
	if t.is_empty() || c.is_empty() {
		return Ok(());
	}
	// nested targets are left to single targets
	let t = if t.iter().any(|x| w.d.ancestors(*x).iter().any(|a| t.contains(a))) { vec![t[0]] } else { t };
	if t.len() > 1 && c.iter().any(|x| t.iter().any(|y| w.d.ancestors(*x).contains(y))) {
		return Ok(());
	}
	replace(w, &t, &c, ctx)
}
pub fn random_attr_name(r: &mut Rng, p: &Profile) -> String {
	let n = match r.below(5) {
		0 => "class".to_string(),
		1 => "id".to_string(),
		_ if r.chance(4) => r.pick(&["\u{c9}t", "\u{130}", "\u{212a}ey", "a\u{3a3}"]).to_string(),
		_ => r.pick(&p.attr_names).clone(),
	};
	if r.chance(20) {
		n.to_ascii_uppercase()
	} else {
		n
	}
}
pub fn one_op(w: &mut World, r: &mut Rng, p: &Profile, ctx: &mut Ctx) -> R {
	match r.below(20) {
		0..=6 => random_insert(w, r, p, ctx),
		7 | 8 => {
			let all: Vec<Id> = any_elems(w).into_iter().filter(|&i| w.d.tag(i) != "html").collect();
			if all.is_empty() {
				return Ok(());
			}
			let n = r.range(1, 3);
			let mut v: Vec<Id> = (0..n).map(|_| *r.pick(&all)).collect();
			v.sort();
			v.dedup();
			remove(w, &v, ctx)
		}
		9 => random_replace(w, r, p, ctx),
		10 => {
			let t = pick_targets(w, r);
			let s = if r.chance(25) { String::new() } else { some_text(r) };
			let t: Vec<Id> = t.into_iter().filter(|&i| !matches!(w.d.tag(i).as_str(), "html" | "body") && !is_void(&w.d.tag(i))).collect();
			if t.is_empty() {
				return Ok(());
			}
			set_text(w, &t[..1], &s, ctx)
		}
		11 | 12 => {
			let t = pick_targets(w, r);
			let t: Vec<Id> = t.into_iter().filter(|&i| !matches!(w.d.tag(i).as_str(), "html")).collect();
			if t.is_empty() {
				return Ok(());
			}
			let f = random_frag(r, p);
			set_html(w, &t[..1], &f, ctx)
		}
		13 | 14 => {
			let ts = texts(w);
			if ts.is_empty() {
				return Ok(());
			}
			let t = *r.pick(&ts);
			let f = random_frag(r, p);
			let s = some_text(r);
			text_op(w, t, r.below(5), &s, &f, ctx)
		}
		15 | 16 => {
			let t = pick_targets(w, r);
			if t.is_empty() {
				return Ok(());
			}
			let n = random_attr_name(r, p);
			if r.chance(35) {
				remove_attr(w, &t, &n, ctx)
			} else {
				let v = if n.eq_ignore_ascii_case("id") {
					r.pick(&p.ids).clone()
				} else if n.eq_ignore_ascii_case("class") {
					let mut a = r.pick(&p.classes).clone();
					let b = r.pick(&p.classes).clone();
					if a != b {
						a = format!("{} {}", a, b);
					}
					a
				} else {
					r.pick(&p.attr_vals).clone()
				};
				set_attr(w, &t, &n, if r.chance(12) { None } else { Some(&v) }, ctx)
			}
		}
		17 => {
			let t = pick_targets(w, r);
			if t.is_empty() {
				return Ok(());
			}
			let n = random_class_names(r, p);
			let op = r.below(3);
			class_op(w, &t, op, &n, ctx)
		}
		18 => {
			let all = any_elems(w);
			if all.is_empty() {
				return Ok(());
			}
			let c = *r.pick(&all);
			let pp = match w.d.n[c].parent {
				Some(x) if r.chance(75) => x,
				// an ancestor that is not the parent: nothing happens
				Some(x) if r.chance(35) => w.d.n[x].parent.unwrap_or(ROOT),
				Some(_) if r.chance(15) && w.d.top(c) == ROOT => ROOT,
				_ => *r.pick(&all),
			};
			if w.d.tag(c) == "html" {
				return Ok(());
			}
			remove_child(w, pp, c, ctx)
		}
		_ => {
			let all = any_elems(w);
			if all.is_empty() {
				return Ok(());
			}
			let a = *r.pick(&all);
			clone_set(w, &[a], ctx).map(|_| ())
		}
	}
}
pub fn random_class_names(r: &mut Rng, p: &Profile) -> String {
	let n = r.range(1, 3);
	let mut v: Vec<String> = vec![];
	for _ in 0..n {
		let c = if r.chance(3) {
			// spaces of other scripts separate nothing
			r.pick(&["a\u{a0}b", "b\u{3000}d", "c\u{2003}a", "x\u{85}y", "a\u{b}b"]).to_string()
		} else if r.chance(75) {
			r.pick(&p.classes).clone()
		} else {
			r.pick(CLASSES).to_string()
		};
		if !v.contains(&c) {
			v.push(c);
		}
	}
	let mut s = v.join(*r.pick(&[" ", " ", " ", "  ", "\t", "\r\n", "\x0c"]));
	if r.chance(10) {
		s = format!(" {} ", s);
	}
	s
}
/// total nodes cap so histories stay small
pub fn history(w: &mut World, r: &mut Rng, p: &Profile, n: usize, ctx: &mut Ctx) -> R {
	for _ in 0..n {
		if w.d.n.len() > 900 {
			break;
		}
		one_op(w, r, p, ctx)?;
	}
	if w.errs_len() != 0 {
		fail!("harness: unexpected error log {:?}", w.errs.borrow());
	}
	Ok(())
}
