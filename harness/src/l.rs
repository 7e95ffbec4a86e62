//! Loading with options: which flaws are repaired, which are refused, and who is told.
use crate::ctx::Ctx;
use crate::gen::*;
use crate::model::*;
use crate::rng::Rng;
use crate::world::*;
use crate::{ensure, fail};
use std::cell::RefCell;
use std::rc::Rc;
use visdom::html::ParseOptions;
use visdom::types::BoxDynError;
use visdom::Vis;

const CASE: u8 = 1;
const EQ_ATTR: u8 = 2;
const SELF_CLOSE: u8 = 4;
const UNCLOSED: u8 = 8;
const END_TAG: u8 = 16;
const LT: u8 = 32;
fn options(m: u8) -> ParseOptions {
	ParseOptions {
		case_sensitive_tagname: m & CASE > 0,
		allow_attr_key_starts_with_equal_sign: m & EQ_ATTR > 0,
		allow_self_closing: m & SELF_CLOSE > 0,
		auto_fix_unclosed_tag: m & UNCLOSED > 0,
		auto_fix_unexpected_endtag: m & END_TAG > 0,
		auto_fix_unescaped_lt: m & LT > 0,
	}
}
fn name_of(m: u8) -> String {
	let n = ["case-sensitive", "allow =attr", "allow self-closing", "fix unclosed", "fix end tags", "fix <"];
	let v: Vec<&str> = (0..6).filter(|k| m >> k & 1 > 0).map(|k| n[k]).collect();
	v.join(", ")
}
/// the tree as text: kinds, tags, attributes, contents; a run of texts counts as one, like when it is printed
fn dump(e: &El, o: &mut String) {
	let mut text = String::new();
	for (ix, n) in e.child_nodes().into_iter().enumerate() {
		if n.index() != ix {
			o.push_str(&format!("[child {} says it is child {}]", ix, n.index()));
		}
		let is_text = matches!(n.node_type(), visdom::types::INodeType::Text);
		if !is_text && !text.is_empty() {
			o.push_str(&format!("({:?})", std::mem::take(&mut text)));
		}
		match n.typed() {
			visdom::types::IEnumTyped::Element(c) => {
				o.push_str(&format!("({} {:?} ", c.tag_name(), c.get_attributes()));
				if c.child_nodes_length() == 0 {
					o.push_str(&format!("{:?}", c.text_chars()));
				}
				dump(&c, o);
				o.push(')');
			}
			visdom::types::IEnumTyped::Text(t) => text.extend(t.text_chars()),
			x => o.push_str(&format!("({})", if matches!(x, visdom::types::IEnumTyped::UncareNode(_)) { "other" } else { "?" })),
		}
	}
	if !text.is_empty() {
		o.push_str(&format!("({:?})", text));
	}
}
fn shape(s: &Set) -> String {
	let mut o = s.outer_html();
	if let Some(e) = s.get(0) {
		dump(e, &mut o);
	}
	o
}
type Errs = Rc<RefCell<Vec<String>>>;
fn catcher() -> (Errs, Box<dyn Fn(BoxDynError)>) {
	let errs: Errs = Rc::new(RefCell::new(vec![]));
	let e2 = errs.clone();
	(errs, Box::new(move |e: BoxDynError| e2.borrow_mut().push(e.to_string())))
}
pub fn load_options(r: &mut Rng, ctx: &mut Ctx) -> R {
	let mut p = Profile::random(r);
	p.max_nodes = p.max_nodes.min(40);
	let isdoc = r.chance(30);
	let mut d = DocGen::new(&p).root(r, isdoc);
	// or nothing at all
	let nothing = r.below(60) == 0;
	if nothing {
		d = Dom::new();
	}
	// flaws; each needs some options on (need) or off (bar)
	let (mut need, mut bar) = (0u8, 0u8);
	let mut kinds = vec![];
	for _ in 0..if nothing { 0 } else { *r.pick(&[0usize, 1, 1, 1, 2, 3]) } {
		let mut hosts: Vec<Id> =
			(0..d.n.len()).filter(|&i| d.is_elem(i) && !is_void(d.raw_tag(i)) && !is_content(d.raw_tag(i))).collect();
		if !isdoc {
			hosts.push(ROOT);
		}
		let hosts: Vec<Id> = hosts.into_iter().filter(|&i| d.top(i) == ROOT).collect();
		if hosts.is_empty() {
			break;
		}
		let h = *r.pick(&hosts);
		let at = r.range(0, d.n[h].kids.len());
		let raw = match r.below(6) {
			0 => {
				kinds.push("unescaped <");
				need |= LT;
				*r.pick(&["1<2", "a < b", "x <= y", " <\t", "<1>"])
			}
			1 => {
				kinds.push("unexpected end tag");
				need |= END_TAG;
				*r.pick(&["</zq>", "a</zq-1>b", "</ZQ >"])
			}
			2 => {
				kinds.push("self-closing tag");
				need |= SELF_CLOSE;
				*r.pick(&["<zs/>", "<i />", "<div a=\"1\"/>", "<ZS\n/>"])
			}
			3 => {
				kinds.push("end tag in another case");
				bar |= CASE;
				*r.pick(&["<zc></ZC>", "<ZC>a</zc>", "<Zc><b>x</b></zC>"])
			}
			4 => {
				let es: Vec<Id> = hosts.iter().cloned().filter(|&i| i != ROOT).collect();
				if es.is_empty() {
					continue;
				}
				kinds.push("attribute starting with =");
				need |= EQ_ATTR;
				let v = if r.chance(50) { Some("v".to_string()) } else { None };
				let q = v.as_ref().map(|_| '"');
				d.attrs_mut(*r.pick(&es)).insert(0, MAttr { key: format!("=k{}", kinds.len()), val: v, quote: q });
				continue;
			}
			_ => {
				if h == ROOT {
					// at the very end of the input
					let t = d.add(Kind::Text(r.pick(&["<zu>", "<zu>a<b>c", "<zu><i>x</i>"]).to_string()));
					d.append(ROOT, t);
					need |= UNCLOSED;
					kinds.push("unclosed tag at the end");
					break;
				}
				kinds.push("unclosed tag");
				need |= UNCLOSED | END_TAG;
				*r.pick(&["<zu>", "<zu><zv>a", "<zu a=\"1\">b<i>c</i>"])
			}
		};
		// names of any length
		let raw = if r.chance(10) {
			let n = r.range(30, 200);
			raw.replace('z', &"z".repeat(n)).replace('Z', &"Z".repeat(n))
		} else {
			raw.to_string()
		};
		let t = d.add(Kind::Text(raw));
		d.insert_at(h, at, t);
	}
	if r.chance(15) {
		// any input whatever: an answer or an error, told the same way by both calls
		let src = crate::m::soup(r, &p);
		for _ in 0..4 {
			let m = r.below(64) as u8;
			let what = format!("options [{}] on {:?}", name_of(m), src);
			let one = crate::guarded(|| Vis::load_options(src.clone(), options(m)).map(|s: Set| shape(&s)).map_err(|e| e.to_string()));
			let one = match one {
				Ok(x) => x,
				Err(e) => {
					if ctx.is_known("C27", &e) || ctx.is_known("C12", &e) {
						continue;
					}
					fail!("load_options, {}: {}", what, e)
				}
			};
			let (errs, h) = catcher();
			let c: Set = Vis::load_options_catch(src.clone(), options(m), h);
			let got = errs.borrow().clone();
			match &one {
				Ok(s) => ensure!(got.is_empty() && &shape(&c) == s, "load_options and load_options_catch differ for {}: {:?}", what, got),
				Err(e) => ensure!(got.len() == 1 && &got[0] == e && c.is_empty(), "load_options_catch reports {:?}, load_options {:?} for {}", got, e, what),
			}
			ctx.judged("any input", &format!("{} {:x}", m, crate::rng::fnv(src.as_bytes())), true);
		}
		return Ok(());
	}
	let src = d.html(ROOT);
	ctx.step(format!("source {:?} with {:?}", src, kinds));
	for k in &kinds {
		ctx.count(k);
	}
	let lenient = EQ_ATTR | SELF_CLOSE | UNCLOSED | END_TAG | LT;
	let reference: Set = match Vis::load(src.clone()) {
		Ok(s) => s,
		Err(e) => fail!("load refuses {:?}: {}", src, e),
	};
	let want = shape(&reference);
	let masks: Vec<u8> = if r.chance(5) {
		(0..64).collect()
	} else {
		let mut v: Vec<u8> = (0..3).map(|_| r.below(64) as u8).collect();
		// exactly what is needed, and one option less
		v.push(need);
		v.push(need | CASE);
		v.push(lenient);
		for k in 0..6 {
			if need >> k & 1 > 0 {
				v.push((lenient | CASE) & !(1 << k) & !bar);
			}
		}
		v
	};
	for m in masks {
		let ok = need & !m == 0 && bar & m == 0;
		let what = format!("options [{}] on {:?}", name_of(m), src);
		let strict = crate::guarded(|| {
			Vis::load_options(src.clone(), options(m)).map(|s: Set| shape(&s)).map_err(|e| e.to_string())
		})
		.map_err(|e| format!("load_options, {}: {}", what, e))?;
		match &strict {
			Ok(s) => {
				ensure!(ok, "{} are accepted, though they don't allow {:?}", what, kinds);
				if s != &want {
					let n = s.chars().zip(want.chars()).take_while(|(a, b)| a == b).count();
					let cut = |t: &str| t.chars().skip(n.saturating_sub(40)).take(160).collect::<String>();
					fail!("{} give ..{}.., load gives ..{}..", what, cut(s), cut(&want));
				}
			}
			Err(e) => {
				ensure!(!ok, "{} are refused: {}", what, e);
				ensure!(!e.is_empty(), "{} are refused without a message", what);
			}
		}
		let (errs, h) = catcher();
		let c: Set = crate::guarded(|| Vis::load_options_catch(src.clone(), options(m), h)).map_err(|e| format!("load_options_catch, {}: {}", what, e))?;
		match &strict {
			Ok(s) => {
				ensure!(errs.borrow().is_empty(), "load_options_catch reports {:?} for {}", errs.borrow(), what);
				ensure!(&shape(&c) == s, "load_options and load_options_catch differ for {}", what);
			}
			Err(e) => {
				let got = errs.borrow().clone();
				ensure!(got.len() == 1 && &got[0] == e, "load_options_catch reports {:?}, load_options {:?} for {}", got, e, what);
				ensure!(c.is_empty(), "load_options_catch gives {} elements for refused {}", c.length(), what);
			}
		}
		ctx.judged(if ok { "accepted" } else { "refused" }, &format!("{:?} {} {:x}", kinds, m, crate::rng::fnv(src.as_bytes())), !kinds.is_empty());
		if ok {
			// later errors reach the handler of this document, once each, and no other
			let (errs2, h2) = catcher();
			let other: Set = Vis::load_options_catch("<p>x</p>".to_string(), options(m), h2);
			let deep = c.find("*");
			let from = if deep.is_empty() || r.chance(30) { c.find("") } else { deep.eq(r.below(deep.length())) };
			let from = if from.is_empty() { &c } else { &from };
			let before = errs.borrow().len();
			// someone may hold the handler meanwhile
			let held = if r.chance(30) { c.document().and_then(|d| d.onerror()) } else { None };
			ensure!(from.find("p:nosuch-pseudo").is_empty(), "an invalid selector found something");
			ensure!(errs.borrow().len() == before + 1, "an invalid selector was reported {} times", errs.borrow().len() - before);
			ensure!(errs2.borrow().is_empty(), "an error of one document was reported to another: {:?}", errs2.borrow());
			let _ = other.find("p:nosuch-pseudo");
			ensure!(errs.borrow().len() == before + 1 && errs2.borrow().len() == 1, "an error of one document was reported to another");
			let doc = match c.document() {
				Some(d) => d,
				None => fail!("no document for {}", what),
			};
			drop(held);
			ensure!(doc.onerror().is_some(), "the document has lost its error handler");
			doc.trigger_error("made up".into());
			let last = errs.borrow().last().cloned();
			ensure!(errs.borrow().len() == before + 2 && last.as_deref() == Some("made up"), "trigger_error did not reach the handler: {:?}", errs.borrow());
			ensure!(reference.document().map_or(false, |d| d.onerror().is_none()), "a document loaded without handler has one");
			ctx.judged("reporting", &format!("{} {:x}", m, crate::rng::fnv(src.as_bytes())), true);
		}
	}
	Ok(())
}
