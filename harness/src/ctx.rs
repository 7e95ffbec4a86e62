//! Per-run monitor bookkeeping: what was observed.
use crate::rng::fnv;
use std::collections::{BTreeMap, HashSet};
#[derive(Default)]
pub struct Ctx {
	/// number of judged observations
	pub events: u64,
	/// distinct non trivial observations (hash of the judged situation)
	pub obs: HashSet<u64>,
	pub counters: BTreeMap<String, u64>,
	pub samples: Vec<String>,
	/// steps of the current case
	pub log: Vec<String>,
	pub max_samples: usize,
	/// listed findings met in this run: text -> times
	pub known_seen: BTreeMap<String, u64>,
}
/// the entries of the known-findings file: (property, text the message has to contain, description)
fn known() -> &'static Vec<(String, String, String)> {
	static K: std::sync::OnceLock<Vec<(String, String, String)>> = std::sync::OnceLock::new();
	K.get_or_init(|| {
		let p = std::env::var("VMON_KNOWN").unwrap_or_else(|_| "/verif/known-findings.txt".into());
		let mut v = vec![];
		for l in std::fs::read_to_string(p).unwrap_or_default().lines() {
			// known: property=<id> match=<text> :: <what fails>
			if let Some(x) = l.strip_prefix("known: property=") {
				if let Some((a, what)) = x.split_once(" :: ") {
					if let Some((prop, m)) = a.split_once(" match=") {
						v.push((prop.split(' ').next().unwrap_or("").to_string(), m.to_string(), what.to_string()));
					}
				}
			}
		}
		v
	})
}
impl Ctx {
	/// is this message one of the listed findings of the property
	pub fn is_known(&mut self, prop: &str, msg: &str) -> bool {
		for (p, m, what) in known() {
			if p == prop && msg.contains(m.as_str()) {
				*self.known_seen.entry(what.clone()).or_insert(0) += 1;
				return true;
			}
		}
		false
	}
	pub fn step(&mut self, s: String) {
		self.log.push(s);
	}
	pub fn judged(&mut self, what: &str, key: &str, nontrivial: bool) {
		self.events += 1;
		*self.counters.entry(what.to_string()).or_insert(0) += 1;
		if nontrivial {
			let h = fnv(format!("{}\0{}", what, key).as_bytes());
			if self.obs.insert(h) && self.samples.len() < self.max_samples && self.obs.len() % 97 == 1 {
				let mut s = format!("{}: {}", what, key);
				if s.len() > 300 {
					let mut e = 300;
					while !s.is_char_boundary(e) {
						e -= 1;
					}
					s.truncate(e);
				}
				self.samples.push(s);
			}
		}
	}
	pub fn count(&mut self, what: &str) {
		*self.counters.entry(what.to_string()).or_insert(0) += 1;
	}
}
