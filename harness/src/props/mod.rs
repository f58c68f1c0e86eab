use crate::model::Res;
use crate::tape::Src;
use std::collections::BTreeMap;

pub struct Ctx {
	pub desc: Vec<String>,
	want: bool,
	pub nontrivial: bool,
	pub evals: u64,
	pub stats: BTreeMap<&'static str, u64>,
	/// what is being evaluated right now (for fixed cases that panic)
	pub cur: String,
}

impl Ctx {
	pub fn new(want: bool) -> Ctx {
		Ctx {
			desc: vec![],
			want,
			nontrivial: false,
			evals: 0,
			stats: BTreeMap::new(),
			cur: String::new(),
		}
	}
	pub fn say<F: FnOnce() -> String>(&mut self, f: F) {
		if self.want {
			self.desc.push(f());
		}
	}
	pub fn count(&mut self, k: &'static str) {
		*self.stats.entry(k).or_insert(0) += 1;
	}
	pub fn hit(&mut self, k: &'static str) {
		self.nontrivial = true;
		self.count(k);
	}
}

pub struct Prop {
	pub id: &'static str,
	pub run: fn(&mut Src, &mut Ctx) -> Res,
	pub fixed: Option<fn(&mut Ctx) -> Res>,
	pub quick: u64,
	pub thorough: u64,
	pub hang_s: u64,
	pub rule: &'static str,
	pub assumptions: &'static [&'static str],
}

pub mod attr;
pub mod doc;
pub mod fuzz;
pub mod mutate;
pub mod query;
pub mod world;

/// A known finding: `f` is the minimal failing input. Listed in KNOWN_FINDINGS.txt -> reported as such,
/// not listed -> a violation.
pub fn probe<F: FnOnce() -> Res>(c: &mut Ctx, id: &str, sig: &str, f: F) -> Res {
	c.evals += 1;
	c.cur = sig.to_string();
	let e = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
		Ok(Ok(())) => return Ok(()),
		Ok(Err(e)) => e,
		Err(_) => "panic".to_string(),
	};
	let dir = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into());
	let list = std::fs::read_to_string(format!("{}/KNOWN_FINDINGS.txt", dir)).unwrap_or_default();
	let want = format!("finding: property={} {}", id, sig);
	if list.lines().any(|l| l.trim() == want) {
		println!("KNOWN-FINDING: property={} {}", id, sig);
		return Ok(());
	}
	Err(format!("{}: {}", sig, e))
}


pub const ALL: &[Prop] = &[
	query::C01,
	query::C02,
	query::C03,
	query::C04,
	query::C05,
	query::C06,
	doc::C07,
	doc::C08,
	attr::C09,
	attr::C10,
	mutate::C11,
	mutate::C12,
	mutate::C13,
	mutate::C14,
	doc::C15,
	doc::C16,
	fuzz::C17,
	fuzz::C18,
	mutate::C19,
];

pub fn get(id: &str) -> Option<&'static Prop> {
	ALL.iter().find(|p| p.id == id)
}
