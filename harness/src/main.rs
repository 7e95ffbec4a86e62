//! vmon: workload driver and online monitors for visdom.
//!   vmon run <property> --seed S --shard K --shards N --cases C --secs T --out FILE
//!   vmon case <property> <case-seed>        replays one case, printing its steps
//!   vmon list
mod c;
mod ctx;
mod gen;
mod l;
mod m;
mod model;
mod ops;
mod q;
mod rng;
mod s;
mod sel;
mod world;
use ctx::Ctx;
use rng::{fnv, Rng};
use std::cell::RefCell;
use std::io::{Seek, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::Instant;

#[global_allocator]
static ALLOC: s::Counting = s::Counting;

type Check = fn(&mut Rng, &mut Ctx) -> world::R;
fn table() -> Vec<(&'static str, Check)> {
	vec![
		("css-select", q::css_select as Check),
		("match-filter", q::match_filter),
		("traverse", q::traverse),
		("doc-order", q::doc_order),
		("nth-arith", q::nth_arith),
		("set-algebra", q::set_algebra),
		("query-readonly", q::query_readonly),
		("selector-errors", q::selector_errors),
		("parse-lossless", m::parse_lossless),
		("serialize-roundtrip", m::serialize_roundtrip),
		("tree-integrity", m::tree_integrity),
		("insert-semantics", m::insert_semantics),
		("remove-replace", m::remove_replace),
		("mutation-reject", m::mutation_reject),
		("text-escape", m::text_escape),
		("attributes", m::attributes),
		("classes", m::classes_check),
		("clone-independent", m::clone_independent),
		("text-nodes", m::text_nodes),
		("form-values", m::form_values),
		("document-api", m::document_api),
		("lenient-load", m::lenient_load),
		("hostile-html", m::hostile_html),
		("load-options", l::load_options),
		("callbacks", c::callbacks),
		("thread-safety", s::thread_safety),
		("memory-release", s::memory_release),
	]
}
thread_local! {
	static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}
/// run code under test, turning a panic into a message with its location
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
	catch_unwind(AssertUnwindSafe(f))
		.map_err(|_| format!("panic: {}", LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default()))
}
fn js(s: &str) -> String {
	let mut o = String::from("\"");
	for c in s.chars() {
		match c {
			'"' => o.push_str("\\\""),
			'\\' => o.push_str("\\\\"),
			'\n' => o.push_str("\\n"),
			'\r' => o.push_str("\\r"),
			'\t' => o.push_str("\\t"),
			c if (c as u32) < 0x20 || c == '\u{2028}' || c == '\u{2029}' => o.push_str(&format!("\\u{:04x}", c as u32)),
			c => o.push(c),
		}
	}
	o.push('"');
	o
}
fn case_seed(prop: &str, seed: u64, i: u64) -> u64 {
	fnv(format!("{}/{}/{}", prop, seed, i).as_bytes())
}
fn run_case(f: Check, seed: u64, ctx: &mut Ctx) -> Result<(), String> {
	ctx.log.clear();
	let mut r = Rng::new(seed);
	guarded(|| f(&mut r, ctx)).unwrap_or_else(Err)
}
fn real_main() -> i32 {
	let args: Vec<String> = std::env::args().skip(1).collect();
	let get = |k: &str| args.iter().position(|a| a == k).and_then(|p| args.get(p + 1)).cloned();
	std::panic::set_hook(Box::new(|i| {
		let msg = i
			.payload()
			.downcast_ref::<&str>()
			.map(|s| s.to_string())
			.or_else(|| i.payload().downcast_ref::<String>().cloned())
			.unwrap_or_default();
		let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
		LAST_PANIC.with(|p| *p.borrow_mut() = Some(format!("{} at {}", msg, loc)));
	}));
	let t = table();
	match args.first().map(|s| s.as_str()) {
		Some("list") => {
			for (n, _) in t {
				println!("{}", n);
			}
			0
		}
		// listed findings that have a fixed demonstration: does it still fail?
		Some("probe") => match s::probe(&args[1]) {
			Some(true) => {
				println!("reproduced");
				0
			}
			Some(false) => {
				println!("gone");
				0
			}
			None => 2,
		},
		Some("deep") => s::deep(args[1].parse().expect("depth")),
		Some("race") => s::race(args[1].parse().expect("seed")),
		Some("case") => {
			let f = match t.iter().find(|x| x.0 == args[1]) {
				Some(x) => x.1,
				None => return 2,
			};
			let seed: u64 = args[2].parse().expect("case seed");
			let mut ctx = Ctx::default();
			let res = run_case(f, seed, &mut ctx);
			for l in &ctx.log {
				println!("step: {}", l);
			}
			match res {
				Ok(()) => {
					println!("held ({} judged events)", ctx.events);
					0
				}
				Err(e) => {
					println!("violated: {}", e);
					1
				}
			}
		}
		Some("run") => {
			let prop = args[1].clone();
			let f = match t.iter().find(|x| x.0 == prop) {
				Some(x) => x.1,
				None => return 2,
			};
			let num = |k: &str, d: u64| get(k).and_then(|s| s.parse().ok()).unwrap_or(d);
			let (seed, shard, shards) = (num("--seed", 1), num("--shard", 0), num("--shards", 1));
			let (cases, secs) = (num("--cases", 1000), num("--secs", 10));
			let out = get("--out").unwrap_or_else(|| "/dev/stdout".into());
			let mut progress = get("--progress").map(|p| std::fs::File::create(p).expect("progress file"));
			let mut ctx = Ctx { max_samples: 6, ..Default::default() };
			let start = Instant::now();
			let (mut done, mut i) = (0u64, shard);
			let mut viol = None;
			let mut slowest = (0u64, 0u64);
			while i < cases {
				if done % 16 == 0 && start.elapsed().as_secs() >= secs {
					break;
				}
				let cs = case_seed(&prop, seed, i);
				if let Some(p) = &mut progress {
					let _ = p.rewind();
					let _ = p.write_all(format!("{:>20}\n", cs).as_bytes());
				}
				let from = Instant::now();
				let res = run_case(f, cs, &mut ctx);
				slowest = slowest.max((from.elapsed().as_millis() as u64, cs));
				if let Err(e) = res {
					viol = Some((cs, e, ctx.log.clone()));
					break;
				}
				done += 1;
				i += shards;
			}
			let mut o = String::from("{");
			o.push_str(&format!("\"cases\":{},\"events\":{},\"distinct\":{},", done, ctx.events, ctx.obs.len()));
			o.push_str(&format!("\"slowest_ms\":{},\"slowest_case\":\"{}\",", slowest.0, slowest.1));
			o.push_str(&format!("\"seconds\":{:.2},\"complete\":{},", start.elapsed().as_secs_f64(), i >= cases));
			let k: Vec<String> = ctx.known_seen.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect();
			o.push_str(&format!("\"known\":{{{}}},", k.join(",")));
			let c: Vec<String> = ctx.counters.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect();
			o.push_str(&format!("\"counters\":{{{}}},", c.join(",")));
			let s: Vec<String> = ctx.samples.iter().map(|s| js(s)).collect();
			o.push_str(&format!("\"samples\":[{}]", s.join(",")));
			if let Some(p) = get("--obs") {
				let b: Vec<u8> = ctx.obs.iter().flat_map(|h| h.to_le_bytes()).collect();
				std::fs::write(p, b).expect("write observations");
			}
			let bad = viol.is_some();
			if let Some((cs, e, log)) = viol {
				let l: Vec<String> = log.iter().map(|s| js(s)).collect();
				o.push_str(&format!(",\"violation\":{{\"case_seed\":{},\"message\":{},\"steps\":[{}]}}", cs, js(&e), l.join(",")));
			}
			o.push_str("}\n");
			std::fs::write(&out, o).expect("write result");
			bad as i32
		}
		_ => {
			eprintln!("usage: vmon run|case|list");
			2
		}
	}
}
fn main() {
	// monitors walk trees recursively: give them room, so that only the code under test can overflow
	// the default 8 MB main stack when a check runs it there on purpose
	let h = std::thread::Builder::new().stack_size(64 << 20).spawn(real_main).expect("thread");
	let code = h.join().unwrap_or(3);
	std::process::exit(code);
}
