//! Process level monitors: concurrency of the shared statics, and memory ownership.
use crate::ctx::Ctx;
use crate::gen::*;
use crate::model::*;
use crate::ops;
use crate::q;
use crate::rng::{fnv, Rng};
use crate::world::*;
use crate::{ensure, fail};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::process::{Command, Stdio};
use std::rc::{Rc, Weak};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Barrier, Mutex};
use std::time::{Duration, Instant};
use visdom::Vis;

pub struct Counting;
thread_local! {
	static LIVE: Cell<isize> = const { Cell::new(0) };
	static BLOCKS: Cell<isize> = const { Cell::new(0) };
}
fn note(bytes: isize, blocks: isize) {
	let _ = LIVE.try_with(|l| l.set(l.get() + bytes));
	let _ = BLOCKS.try_with(|l| l.set(l.get() + blocks));
}
unsafe impl GlobalAlloc for Counting {
	unsafe fn alloc(&self, l: Layout) -> *mut u8 {
		note(l.size() as isize, 1);
		System.alloc(l)
	}
	unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
		note(-(l.size() as isize), -1);
		System.dealloc(p, l)
	}
	unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
		note(n as isize - l.size() as isize, 0);
		System.realloc(p, l, n)
	}
}
fn live() -> (isize, isize) {
	(LIVE.with(|l| l.get()), BLOCKS.with(|l| l.get()))
}
type Node = rphtml::parser::Node;
fn weak_of(n: &Nd) -> Weak<RefCell<Node>> {
	match n.clone_node().to_node().downcast::<Rc<RefCell<Node>>>() {
		Ok(rc) => Rc::downgrade(&rc),
		Err(_) => panic!("harness: unexpected node implementation"),
	}
}
/// one history of a document and everything derived from it; everything is dropped at the end
fn life(seed: u64, ctx: &mut Ctx) -> R {
	let mut r = Rng::new(seed);
	let r = &mut r;
	let (p, d) = random_doc(r);
	let mut w = World::load(d)?;
	ctx.step(w.log[0].clone());
	let n = r.range(0, 6);
	ops::history(&mut w, r, &p, n, ctx)?;
	for _ in 0..3 {
		let all = w.elems(ROOT);
		if !all.is_empty() {
			let ids: Vec<Id> = w.order(&(0..2).map(|_| *r.pick(&all)).collect::<Vec<_>>());
			let s = w.set(&ids);
			let _ = (
				s.find("*").length(),
				s.parents("").length(),
				s.siblings("").length(),
				s.children(":first-child").length(),
				s.closest("div").length(),
				s.texts(0).length(),
				s.text().len(),
				s.outer_htmls().len(),
				s.clone().length(),
				s.add(s.cloned()).length(),
				w.root.find("div > p, :nth-child(2n+1):not(.a)").length(),
			);
		}
	}
	// weak observers of every node
	let weaks: Vec<(Id, Weak<RefCell<Node>>)> =
		(0..w.d.n.len()).filter(|&i| w.real.get(i).map_or(false, |x| x.is_some())).map(|i| (i, weak_of(&w.nd(i)))).collect();
	// keep one handle, drop everything else
	let all = ops::any_elems(&w);
	if !all.is_empty() {
		let i = *r.pick(&all);
		let keep = w.el(i);
		let sub = w.d.subtree(i);
		let d = w.d.clone();
		let html = keep.outer_html();
		drop(w);
		for (k, x) in &weaks {
			let alive = x.upgrade().is_some();
			let exp = sub.contains(k);
			ensure!(
				alive == exp,
				"after dropping all but a handle of <{}>, the node n{} <{}> is {}",
				d.tag(i),
				k,
				d.tag(*k),
				if alive { "still allocated" } else { "gone" }
			);
		}
		ensure!(keep.outer_html() == html, "a kept element changed when its document was dropped");
		ensure!(keep.parent().is_none(), "a kept element reports a dropped parent");
		let s = Vis::dom(&keep);
		let got = s.find("*").length();
		ensure!(got == d.desc_elems(i).len(), "a kept element finds {} of {} elements", got, d.desc_elems(i).len());
		let _ = (s.siblings("").length(), s.next_all("").length(), s.parents("").length(), s.closest("p").length(), s.document().is_some());
		ctx.judged("kept-handle", &html, sub.len() > 1);
	} else {
		drop(w);
	}
	for (k, x) in &weaks {
		ensure!(x.upgrade().is_none(), "node n{} is still allocated after every handle was dropped", k);
	}
	ctx.judged("freed-nodes", &format!("{}", seed), weaks.len() > 3);
	Ok(())
}
/// ever new documents, selectors, names and values: nothing of them may stay behind
fn stream(r: &mut Rng, ctx: &mut Ctx) -> R {
	let tag = r.next();
	let part = |from: usize, r: &mut Rng| -> R {
		for k in from..from + 300 {
			let n = format!("x{}-{}", tag % 100_000, k);
			let html = format!("<div id=\"{n}\" class=\"{n}\"><{n} data-{n}=\"{n}\">{n}</{n}<p>", n = n);
			let errs = Rc::new(Cell::new(0));
			let e2 = Rc::clone(&errs);
			let root = Vis::load_catch(html, Box::new(move |_| e2.set(e2.get() + 1)));
			let s = match r.below(10) {
				0 => format!("#{}", n),
				1 => format!("div.{} > {}", n, n),
				2 => format!("[data-{}='{}']", n, n),
				3 => format!(":contains('{}')", n),
				4 => format!(":not(.{})", n),
				5 => format!("div:has({})", n),
				6 => format!(":nth-child({}n+1)", k + 1),
				7 => format!("{}((", n),
				8 => format!("div , {}:first-of-type ~ *", n),
				_ => n.clone(),
			};
			let mut f = root.find(&s);
			f.set_attr(&n, Some(&n)).add_class(&n);
			let _ = (f.is(&s), f.closest(&s).length(), root.children(&s).length(), f.parents_until(&s, &s, true).length());
			f.set_text(&n);
			f.set_html(&format!("<{n}>{n}</{n}>", n = n));
			let _ = (root.outer_html().len(), root.texts(0).length());
			if r.chance(30) {
				f.remove();
			}
			let _ = errs.get();
		}
		Ok(())
	};
	part(0, r)?;
	let a = live();
	part(300, r)?;
	let b = live();
	let (bytes, blocks) = (b.0 - a.0, b.1 - a.1);
	ensure!(bytes < 300 * 16 && blocks < 150, "300 further documents and selectors keep {} bytes in {} blocks", bytes, blocks);
	ctx.judged("stream", &format!("{}", tag), true);
	Ok(())
}
/// PROPERTY memory-release
pub fn memory_release(r: &mut Rng, ctx: &mut Ctx) -> R {
	let seed = r.next();
	if r.chance(3) {
		return stream(r, ctx);
	}
	// warm up caches of compiled patterns, then measure
	life(seed, ctx)?;
	let mut last = None;
	for round in 0..3 {
		{
			let mut c = Ctx::default();
			life(seed, &mut c)?;
		}
		let now = live();
		if let Some(prev) = last {
			let prev: (isize, isize) = prev;
			ensure!(now == prev, "repeating the same history keeps {:?} more bytes/blocks (round {})", (now.0 - prev.0, now.1 - prev.1), round);
		}
		last = Some(now);
	}
	ctx.judged("stable-heap", &format!("{}", seed), true);
	Ok(())
}

/// a function given by the user panics in the middle of a call, and the user goes on
fn panicking_user(r: &mut Rng, ctx: &mut Ctx) -> R {
	for _ in 0..r.range(1, 4) {
		let how = r.below(6);
		let died = crate::guarded(|| {
			let root = Vis::load_catch("<p>a<b>b</b></p><i>c</i>", Box::new(|e| panic!("user handler: {}", e)));
			let mut s = root.find("*");
			match how {
				0 => s.filter_by(|ix, _| if ix == 1 { panic!("user") } else { true }).length(),
				1 => s.map(|_, e| if e.tag_name() == "B" { panic!("user") } else { 1 }).len(),
				2 => s.each(|_, _| panic!("user")).length(),
				3 => root.find("p >> b").length(),
				4 => s.filter(":not((").length(),
				_ => s.texts_by(0, Box::new(|_, _| panic!("user"))).length(),
			}
		});
		ensure!(died.is_err(), "a panic of the user's function did not reach the user ({})", how);
		let root = Vis::load("<p>a<b>b</b></p><i>c</i>").map_err(|e| format!("load after a user's panic: {}", e))?;
		ensure!(root.find("p > b:first-child, i").length() == 2 && root.find("p").children("").length() == 1, "results after a user's panic");
	}
	ctx.count("user-panics");
	Ok(())
}
/// body of the subprocess: threads start at once on a library nobody has initialised yet
pub fn race(seed: u64) -> i32 {
	let mut r = Rng::new(seed);
	let threads = r.range(2, 6);
	let bar = Arc::new(Barrier::new(threads));
	let seq = Arc::new(AtomicUsize::new(0));
	let order = Arc::new(Mutex::new(vec![]));
	let same_work = r.chance(40);
	let mut hs = vec![];
	for t in 0..threads {
		let (bar, seq, order) = (bar.clone(), seq.clone(), order.clone());
		let s = if same_work { seed ^ 77 } else { r.next() };
		let delay = r.below(4);
		hs.push(std::thread::Builder::new().stack_size(16 << 20).spawn(move || -> R<u64> {
			let mut r = Rng::new(s);
			let mut ctx = Ctx::default();
			bar.wait();
			for _ in 0..delay * r.below(40) {
				std::hint::spin_loop();
			}
			let k = r.range(1, 3);
			for _ in 0..k {
				let f: fn(&mut Rng, &mut Ctx) -> R = match r.below(8) {
					6 => panicking_user,
					7 => crate::m::text_nodes,
					0 => q::css_select,
					1 => q::match_filter,
					2 => q::nth_arith,
					3 => q::selector_errors,
					4 => crate::m::serialize_roundtrip,
					_ => q::traverse,
				};
				let at = seq.fetch_add(1, Ordering::SeqCst);
				crate::guarded(|| f(&mut r, &mut ctx)).unwrap_or_else(Err).map_err(|e| format!("thread {} of {}: {}", t, threads, e))?;
				let end = seq.fetch_add(1, Ordering::SeqCst);
				order.lock().unwrap().push((t, at, end));
			}
			Ok(ctx.events)
		}));
	}
	let mut ev = 0;
	let mut bad = None;
	for h in hs {
		match h.expect("thread").join() {
			Ok(Ok(e)) => ev += e,
			Ok(Err(e)) => bad = Some(e),
			Err(_) => bad = Some("a thread died".into()),
		}
	}
	let mut o = order.lock().unwrap().clone();
	o.sort_by_key(|x| x.1);
	let overlap = o.windows(2).any(|x| x[0].2 > x[1].1);
	println!("events {} order {} overlap {}", ev, fnv(format!("{:?}", o).as_bytes()), overlap as u8);
	if let Some(b) = bad {
		println!("bad {}", b.replace('\n', "\\n"));
		return 1;
	}
	0
}
/// PROPERTY thread-safety
pub fn thread_safety(r: &mut Rng, ctx: &mut Ctx) -> R {
	let seed = r.next();
	ctx.step(format!("race {}", seed));
	let exe = std::env::current_exe().map_err(|e| e.to_string())?;
	let mut c = Command::new(exe)
		.arg("race")
		.arg(seed.to_string())
		.stdout(Stdio::piped())
		.stderr(Stdio::null())
		.spawn()
		.map_err(|e| format!("harness: {}", e))?;
	let start = Instant::now();
	let st = loop {
		match c.try_wait() {
			Ok(Some(s)) => break s,
			_ => {
				if start.elapsed() > Duration::from_secs(60) {
					let _ = c.kill();
					let _ = c.wait();
					fail!("threads using the library did not finish in 60 s (deadlock), race seed {}", seed);
				}
				std::thread::sleep(Duration::from_millis(1));
			}
		}
	};
	let mut out = String::new();
	if let Some(mut o) = c.stdout.take() {
		use std::io::Read;
		let _ = o.read_to_string(&mut out);
	}
	if st.code() != Some(0) {
		let b = out.lines().find(|l| l.starts_with("bad ")).unwrap_or("the process died");
		fail!("race {}: {} ({:?})", seed, b, st);
	}
	let w: Vec<&str> = out.split_whitespace().collect();
	let (ev, order) = (w.get(1).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0), w.get(3).unwrap_or(&"?").to_string());
	ctx.events += ev;
	if w.get(5) == Some(&"1") {
		ctx.count("overlapping-runs");
	}
	ctx.judged("race", &order, true);
	Ok(())
}

/// what a user's program does with its 8 MB stack: load and search `n` nested elements, release them
pub fn deep(n: usize) -> i32 {
	let f = move || {
		let html = format!("{}x{}", "<div>".repeat(n), "</div>".repeat(n));
		Vis::load(html).map_or(0, |d| d.find("*").length())
	};
	let t = std::thread::Builder::new().stack_size(8 << 20).spawn(f).expect("thread");
	(t.join().unwrap_or(0) != n) as i32
}
/// a document of `n` nested elements is loaded, searched, copied, edited and released
pub fn deep_usable(n: usize) -> crate::world::R {
	let html = format!("{}x<b>y</b>{}", "<div>".repeat(n), "</div>".repeat(n));
	let d = Vis::load(html.clone()).map_err(|e| e.to_string())?;
	let all = d.find("*");
	crate::ensure!(all.length() == n + 1, "find(\"*\") gives {} of {} elements", all.length(), n + 1);
	let b = d.find("div > b:last-child");
	crate::ensure!(b.length() == 1, "the innermost element is found {} times", b.length());
	crate::ensure!(b.parents("").length() == n && b.parents("div:empty").is_empty(), "parents gives {} of {}", b.parents("").length(), n);
	crate::ensure!(b.closest("div").length() == 1 && b.is("div b"), "closest or is of the innermost element");
	crate::ensure!(d.text() == "xy" && d.texts(0).length() == 2, "the text is {:?}", d.text());
	crate::ensure!(d.outer_html() == html, "the rendering differs");
	let c = d.clone();
	crate::ensure!(c.outer_html() == html && c.find("b").length() == 1, "the copy differs");
	let s = b.add(all.eq(0)).add(all.eq(n / 2));
	crate::ensure!(s.length() == 3 && s.eq(0).is_in(&all.eq(0)) && s.eq(2).is_in(&b), "a set of three is not in document order");
	all.eq(n / 2).remove();
	crate::ensure!(d.find("*").length() == n / 2 && c.find("*").length() == n + 1, "after a removal {} elements are left", d.find("*").length());
	Ok(())
}

/// demonstrations of listed findings that the generators leave out: Some(true) while it still fails
pub fn probe(name: &str) -> Option<bool> {
	let outer = |html: &str| crate::guarded(|| Vis::load(html.to_string()).map(|d| d.outer_html()).unwrap_or_default()).unwrap_or_default();
	match name {
		"title-entity" => Some(outer("<title>a &amp; b</title>") != "<title>a &amp; b</title>"),
		"textarea-entity" => Some(outer("<textarea>a &lt; b</textarea>") != "<textarea>a &lt; b</textarea>"),
		"empty-comment" => Some(outer("<p><!----> b</p>") != "<p><!----> b</p>"),
		"doctype-slash" => Some(crate::guarded(|| Vis::load("<!DOCTYPE />html><p>a</p>").is_ok()).is_err()),
		"deep-nesting" => {
			let exe = std::env::current_exe().ok()?;
			let st = Command::new(exe).args(["deep", "100000"]).stdout(Stdio::null()).stderr(Stdio::null()).status().ok()?;
			Some(st.code() != Some(0))
		}
		"truncated-strict" => Some(crate::guarded(|| Vis::load_options("<p", Default::default()).is_ok()).is_err()),
		_ => None,
	}
}
