//! vh: property-based checks for fefit/visdom.
//!   vh run <ID>            run the check (VERIF_SEED, VERIF_TIER), write evidence, report
//!   vh replay <file>       re-run one recorded case
//!   vh worker / vh eval    internal
mod model;
mod props;
mod sel;
mod tape;

use props::{Ctx, Prop};
use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{exit, Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use tape::{hash_bytes, mix, Src};

const EXIT_HANG: i32 = 97;

fn verif_dir() -> PathBuf {
	PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()))
}

fn case_seed(seed: u64, id: &str, index: u64) -> u64 {
	mix(seed ^ hash_bytes(id.as_bytes())).wrapping_add(mix(index))
}

static LAST_PANIC: Mutex<String> = Mutex::new(String::new());

fn install_hook() {
	std::panic::set_hook(Box::new(|info| {
		let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
			s.to_string()
		} else if let Some(s) = info.payload().downcast_ref::<String>() {
			s.clone()
		} else {
			"panic".to_string()
		};
		let loc = info
			.location()
			.map(|l| format!("{}:{}", l.file(), l.line()))
			.unwrap_or_default();
		if let Ok(mut g) = LAST_PANIC.lock() {
			*g = format!("{} ({})", msg, loc);
		}
	}));
}

/// runs one case; Err = violation
pub fn run_case(p: &Prop, src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
	let r = catch_unwind(AssertUnwindSafe(|| (p.run)(src, ctx)));
	match r {
		Ok(r) => r,
		Err(_) => {
			let m = LAST_PANIC.lock().map(|g| g.clone()).unwrap_or_default();
			Err(format!("panic: {}", m))
		}
	}
}

fn watchdog(limit: Duration) -> Arc<AtomicU64> {
	let t0 = Instant::now();
	let mark = Arc::new(AtomicU64::new(u64::MAX));
	let m2 = mark.clone();
	std::thread::spawn(move || {
		let mut last = u64::MAX;
		let mut since = t0.elapsed();
		loop {
			std::thread::sleep(Duration::from_millis(250));
			let cur = m2.load(Ordering::SeqCst);
			let now = t0.elapsed();
			if cur != last {
				last = cur;
				since = now;
			} else if cur != u64::MAX && now - since > limit {
				exit(EXIT_HANG);
			}
		}
	});
	mark
}

fn jesc(s: &str) -> String {
	let mut o = String::with_capacity(s.len() + 2);
	o.push('"');
	for c in s.chars() {
		match c {
			'"' => o.push_str("\\\""),
			'\\' => o.push_str("\\\\"),
			'\n' => o.push_str("\\n"),
			'\r' => o.push_str("\\r"),
			'\t' => o.push_str("\\t"),
			c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
			c => o.push(c),
		}
	}
	o.push('"');
	o
}

fn write_tape(path: &Path, t: &[u32]) {
	let mut b = Vec::with_capacity(t.len() * 4);
	for x in t {
		b.extend_from_slice(&x.to_le_bytes());
	}
	fs::write(path, b).expect("write tape");
}
fn read_tape(path: &Path) -> Vec<u32> {
	let b = fs::read(path).unwrap_or_default();
	b.chunks_exact(4)
		.map(|c| u32::from_le_bytes([c[0], c[1], c[2], c[3]]))
		.collect()
}

// ------------------------------------------------------------------------------------------------

struct WorkerOut {
	evals: u64,
	cases: u64,
	hashes: Vec<u64>,
	stats: BTreeMap<String, u64>,
	samples: Vec<String>,
	fail: Option<(u64, String, Vec<u32>)>,
}

fn worker(p: &Prop, seed: u64, cases: u64, w: u64, nw: u64, dir: &Path) {
	install_hook();
	let mark = watchdog(Duration::from_secs(p.hang_s));
	let prog = dir.join(format!("prog.{}", w));
	let mut progf = fs::File::create(&prog).unwrap();
	let mut evals = 0u64;
	let mut ran = 0u64;
	let mut hashes: Vec<u64> = vec![];
	let mut stats: BTreeMap<String, u64> = BTreeMap::new();
	let mut samples: Vec<String> = vec![];
	let mut fail: Option<(u64, String, Vec<u32>)> = None;
	let mut i = w;
	// worker 0 also runs the fixed part (bounded-exhaustive enumeration, regression cases)
	while i < cases {
		use std::io::Seek;
		let _ = progf.seek(std::io::SeekFrom::Start(0));
		let _ = progf.write_all(&i.to_le_bytes());
		mark.store(i, Ordering::SeqCst);
		let mut src = Src::from_seed(case_seed(seed, p.id, i));
		let want = samples.len() < 2;
		let mut ctx = Ctx::new(want);
		let t0 = Instant::now();
		let r = run_case(p, &mut src, &mut ctx);
		if t0.elapsed().as_secs() >= 4 {
			eprintln!("slow case: {} {} {:.1}s", p.id, i, t0.elapsed().as_secs_f64());
		}
		evals += ctx.evals;
		ran += 1;
		for (k, v) in ctx.stats {
			*stats.entry(k.to_string()).or_insert(0) += v;
		}
		if ctx.nontrivial {
			let mut b = Vec::with_capacity(src.tape.len() * 4);
			for x in &src.tape {
				b.extend_from_slice(&x.to_le_bytes());
			}
			hashes.push(hash_bytes(&b));
			if want && ctx.desc.len() > 1 {
				samples.push(ctx.desc.join("\n"));
			}
		}
		if let Err(e) = r {
			fail = Some((i, e, src.tape));
			break;
		}
		i += nw;
	}
	mark.store(u64::MAX, Ordering::SeqCst);
	// report
	let mut o: Vec<u8> = vec![];
	let put = |o: &mut Vec<u8>, s: &str| {
		o.extend_from_slice(&(s.len() as u64).to_le_bytes());
		o.extend_from_slice(s.as_bytes());
	};
	let put64 = |o: &mut Vec<u8>, v: u64| o.extend_from_slice(&v.to_le_bytes());
	put64(&mut o, evals);
	put64(&mut o, ran);
	put64(&mut o, hashes.len() as u64);
	for h in &hashes {
		put64(&mut o, *h);
	}
	put64(&mut o, stats.len() as u64);
	for (k, v) in &stats {
		put(&mut o, k);
		put64(&mut o, *v);
	}
	put64(&mut o, samples.len() as u64);
	for s in &samples {
		put(&mut o, s);
	}
	match &fail {
		None => put64(&mut o, 0),
		Some((i, e, t)) => {
			put64(&mut o, 1);
			put64(&mut o, *i);
			put(&mut o, e);
			put64(&mut o, t.len() as u64);
			for x in t {
				put64(&mut o, *x as u64);
			}
		}
	}
	fs::write(dir.join(format!("out.{}", w)), o).unwrap();
	let _ = std::io::stdout().flush();
	exit(0);
}

fn read_out(path: &Path) -> Option<WorkerOut> {
	let b = fs::read(path).ok()?;
	let mut at = 0usize;
	let g64 = |at: &mut usize| -> Option<u64> {
		let v = b.get(*at..*at + 8)?;
		*at += 8;
		Some(u64::from_le_bytes(v.try_into().ok()?))
	};
	let gs = |at: &mut usize| -> Option<String> {
		let n = g64(at)? as usize;
		let v = b.get(*at..*at + n)?;
		*at += n;
		Some(String::from_utf8_lossy(v).to_string())
	};
	let evals = g64(&mut at)?;
	let cases = g64(&mut at)?;
	let n = g64(&mut at)?;
	let mut hashes = vec![];
	for _ in 0..n {
		hashes.push(g64(&mut at)?);
	}
	let n = g64(&mut at)?;
	let mut stats = BTreeMap::new();
	for _ in 0..n {
		let k = gs(&mut at)?;
		let v = g64(&mut at)?;
		stats.insert(k, v);
	}
	let n = g64(&mut at)?;
	let mut samples = vec![];
	for _ in 0..n {
		samples.push(gs(&mut at)?);
	}
	let fail = if g64(&mut at)? == 1 {
		let i = g64(&mut at)?;
		let e = gs(&mut at)?;
		let n = g64(&mut at)?;
		let mut t = vec![];
		for _ in 0..n {
			t.push(g64(&mut at)? as u32);
		}
		Some((i, e, t))
	} else {
		None
	};
	Some(WorkerOut { evals, cases, hashes, stats, samples, fail })
}

// ------------------------------------------------------------------------------------------------
// evaluation of one tape in its own process

/// internal: `vh eval ID tapefile [print]` / `vh evalidx ID seed index dumpfile`
fn eval(p: &Prop, mut src: Src, print: bool) -> ! {
	install_hook();
	let mark = watchdog(Duration::from_secs(p.hang_s));
	mark.store(0, Ordering::SeqCst);
	let mut ctx = Ctx::new(print);
	let mut r;
	// what threads do depends on the schedule, so try a case several times
	let tries = if p.id == "C18" { 25 } else { 1 };
	let mut k = 0;
	loop {
		r = run_case(p, &mut src, &mut ctx);
		k += 1;
		if k == tries || r.is_err() {
			break;
		}
		src = Src::from_tape(src.tape.clone());
		ctx = Ctx::new(print);
		mark.store(k, Ordering::SeqCst);
	}
	if print {
		for l in &ctx.desc {
			println!("  {}", l);
		}
	}
	match r {
		Ok(()) => exit(0),
		Err(e) => {
			println!("FAIL {}", e);
			exit(1)
		}
	}
}

enum Outcome {
	Pass,
	Fail(String),
}

fn wait_eval(mut c: std::process::Child) -> Outcome {
	let mut s = String::new();
	use std::io::Read;
	if let Some(o) = &mut c.stdout {
		let mut b = vec![];
		let _ = o.read_to_end(&mut b);
		s = String::from_utf8_lossy(&b).to_string();
	}
	let st = c.wait().expect("wait");
	match st.code() {
		Some(0) => Outcome::Pass,
		Some(1) => Outcome::Fail(
			s.find("FAIL ").map(|k| s[k + 5..].trim_end().to_string()).unwrap_or_default(),
		),
		Some(EXIT_HANG) => Outcome::Fail("the case does not terminate (hang)".into()),
		Some(c) => Outcome::Fail(format!("the process running the case exited with {}", c)),
		None => Outcome::Fail("the process running the case was killed by a signal (abort / stack overflow)".into()),
	}
}

fn spawn_eval(id: &str, tape: &Path) -> std::process::Child {
	Command::new(std::env::current_exe().unwrap())
		.args(["eval", id])
		.arg(tape)
		.stdout(Stdio::piped())
		.stderr(Stdio::null())
		.spawn()
		.expect("spawn eval")
}

/// several cases one after another in one process: a failure that needs the history of earlier cases
/// `vh evalrange ID seed first step last [print]`
fn evalrange(p: &Prop, seed: u64, first: u64, step: u64, last: u64, print: bool) -> ! {
	install_hook();
	let mark = watchdog(Duration::from_secs(p.hang_s));
	let mut i = first;
	while i <= last {
		mark.store(i, Ordering::SeqCst);
		let mut src = Src::from_seed(case_seed(seed, p.id, i));
		let mut ctx = Ctx::new(print && i == last);
		let r = run_case(p, &mut src, &mut ctx);
		for l in &ctx.desc {
			println!("  {}", l);
		}
		if let Err(e) = r {
			println!("FAIL {}", e);
			exit(1)
		}
		i += step;
	}
	exit(0)
}

/// the latest first case from which the failure at `last` still shows, and its message
fn shrink_range(id: &str, seed: u64, step: u64, last: u64) -> Option<(u64, String)> {
	let t0 = Instant::now();
	let run = |first: u64| -> Option<String> {
		let c = Command::new(std::env::current_exe().unwrap())
			.args(["evalrange", id, &seed.to_string(), &first.to_string(), &step.to_string(), &last.to_string()])
			.stdout(Stdio::piped())
			.stderr(Stdio::null())
			.spawn()
			.expect("spawn evalrange");
		match wait_eval(c) {
			Outcome::Fail(m) => Some(m),
			Outcome::Pass => None,
		}
	};
	// 1, 2, 4, ... earlier cases
	let mut back = 1;
	loop {
		let first = if last >= back * step { last - back * step } else { last % step };
		if let Some(m) = run(first) {
			return Some((first, m));
		}
		if first == last % step || t0.elapsed() > Duration::from_secs(240) {
			return None;
		}
		back *= 2;
	}
}

fn shrink(id: &str, dir: &Path, tape: Vec<u32>, msg: String, hang: bool) -> (Vec<u32>, String, u64) {
	let t0 = Instant::now();
	let budget = Duration::from_secs(if hang { 60 } else { 45 });
	let mut best = tape;
	let mut best_msg = msg;
	let mut tried = 0u64;
	let width = 8;
	// try a list of candidates in order, in parallel batches; first failing one wins
	let try_list = |cands: Vec<Vec<u32>>, tried: &mut u64| -> Option<(Vec<u32>, String)> {
		let mut k = 0;
		while k < cands.len() {
			if t0.elapsed() > budget {
				return None;
			}
			let end = (k + width).min(cands.len());
			let mut ch = vec![];
			for (j, c) in cands[k..end].iter().enumerate() {
				let f = dir.join(format!("cand.{}", j));
				write_tape(&f, c);
				ch.push(spawn_eval(id, &f));
			}
			let mut win: Option<(Vec<u32>, String)> = None;
			for (j, c) in ch.into_iter().enumerate() {
				*tried += 1;
				if let Outcome::Fail(m) = wait_eval(c) {
					if win.is_none() {
						win = Some((cands[k + j].clone(), m));
					}
				}
			}
			if win.is_some() {
				return win;
			}
			k = end;
		}
		None
	};
	let mut progress = true;
	while progress && t0.elapsed() < budget {
		progress = false;
		// delete chunks
		let mut size = (best.len() / 2).max(1);
		loop {
			let mut start = 0usize;
			loop {
				let mut cands = vec![];
				let mut st = start;
				while st < best.len() && cands.len() < 64 {
					let mut c = best[..st].to_vec();
					c.extend_from_slice(&best[(st + size).min(best.len())..]);
					cands.push(c);
					st += size;
				}
				if cands.is_empty() {
					break;
				}
				if let Some((c, m)) = try_list(cands, &mut tried) {
					best = c;
					best_msg = m;
					progress = true;
				} else {
					start = st;
				}
				if t0.elapsed() > budget {
					break;
				}
			}
			if size == 1 || t0.elapsed() > budget {
				break;
			}
			size /= 2;
		}
		// zero and lower single entries
		let mut k = 0;
		while k < best.len() && t0.elapsed() < budget {
			let mut cands = vec![];
			let mut kk = k;
			while kk < best.len() && cands.len() < 32 {
				if best[kk] > 0 {
					let mut c = best.clone();
					c[kk] = 0;
					cands.push(c);
					if best[kk] > 1 {
						let mut c = best.clone();
						c[kk] /= 2;
						cands.push(c);
						let mut c = best.clone();
						c[kk] -= 1;
						cands.push(c);
					}
				}
				kk += 1;
			}
			if cands.is_empty() {
				break;
			}
			if let Some((c, m)) = try_list(cands, &mut tried) {
				best = c;
				best_msg = m;
				progress = true;
			} else {
				k = kk;
			}
		}
	}
	while best.last() == Some(&0) {
		best.pop();
	}
	(best, best_msg, tried)
}

// ------------------------------------------------------------------------------------------------

fn run(p: &Prop) -> ! {
	let t0 = Instant::now();
	let seed: u64 = std::env::var("VERIF_SEED")
		.ok()
		.and_then(|s| s.trim().parse::<i64>().ok())
		.map(|v| v as u64)
		.unwrap_or(1);
	let tier = match std::env::var("VERIF_TIER").as_deref() {
		Ok("thorough") => "thorough",
		_ => "quick",
	};
	let mut cases = if tier == "thorough" { p.thorough } else { p.quick };
	if let Some(v) = std::env::var("VH_CASES").ok().and_then(|s| s.parse().ok()) {
		cases = v;
	}
	let nw = std::env::var("VH_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or(8u64);
	let v = verif_dir();
	let scratch = v.join("scratch").join(format!("{}.{}", p.id, std::process::id()));
	fs::create_dir_all(&scratch).expect("scratch");
	let _ = fs::create_dir_all(v.join("evidence"));
	let _ = fs::create_dir_all(v.join("replays"));

	// fixed part in a process of its own
	let mut violation: Option<(String, Vec<u32>, bool)> = None; // message, tape, is_fixed
	let mut range: Option<(u64, u64, u64)> = None; // first, step, last case of a history
	let mut fixed_evals = 0u64;
	let exe = std::env::current_exe().unwrap();
	let fixed = Command::new(&exe)
		.args(["fixed", p.id])
		.stdout(Stdio::piped())
		.stderr(Stdio::null())
		.spawn()
		.expect("spawn fixed");
	let mut kids = vec![];
	for w in 0..nw {
		let c = Command::new(&exe)
			.args(["worker", p.id, &seed.to_string(), &cases.to_string(), &w.to_string(), &nw.to_string()])
			.arg(&scratch)
			.stdout(Stdio::null())
			.stderr(Stdio::null())
			.spawn()
			.expect("spawn worker");
		kids.push(c);
	}
	let mut outs: Vec<WorkerOut> = vec![];
	let mut broken: Option<String> = None;
	for (w, mut c) in kids.into_iter().enumerate() {
		let st = c.wait().expect("wait worker");
		if st.success() {
			match read_out(&scratch.join(format!("out.{}", w))) {
				Some(o) => outs.push(o),
				None => broken = Some(format!("worker {} left no readable report", w)),
			}
			continue;
		}
		// crashed or hung: reproduce that one case in a fresh process
		let b = fs::read(scratch.join(format!("prog.{}", w))).unwrap_or_default();
		if b.len() < 8 {
			broken = Some(format!("worker {} ended with {:?} before its first case", w, st));
			continue;
		}
		let idx = u64::from_le_bytes(b[..8].try_into().unwrap());
		let dump = scratch.join(format!("dump.{}", w));
		let child = Command::new(&exe)
			.args(["evalidx", p.id, &seed.to_string(), &idx.to_string()])
			.arg(&dump)
			.stdout(Stdio::piped())
			.stderr(Stdio::null())
			.spawn()
			.expect("spawn evalidx");
		match wait_eval(child) {
			Outcome::Fail(m) => {
				if violation.is_none() {
					violation = Some((m, read_tape(&dump), false));
				}
			}
			Outcome::Pass if violation.is_some() => {}
			Outcome::Pass => match shrink_range(p.id, seed, nw, idx) {
				Some((first, m)) => {
					range = Some((first, nw, idx));
					violation = Some((m, vec![], false));
				}
				None if p.id == "C18" => {
					// a race need not show again
					let what = if st.code() == Some(EXIT_HANG) { "does not terminate" } else { "ends the process" };
					violation = Some((format!("case {} of seed {} {} (schedule dependent: {:?})", idx, seed, what, st), read_tape(&dump), false));
				}
				None => broken = Some(format!("worker {} ended with {:?} at case {}, not reproducible", w, st, idx)),
			},
		}
	}
	{
		let out = fixed.wait_with_output().expect("fixed");
		let s = String::from_utf8_lossy(&out.stdout).to_string();
		for l in s.lines() {
			if let Some(n) = l.strip_prefix("EVALS ") {
				fixed_evals = n.trim().parse().unwrap_or(0);
			}
			if l.starts_with("KNOWN-FINDING:") {
				println!("{}", l);
			}
		}
		match out.status.code() {
			Some(0) => {}
			Some(1) => {
				let m = s.find("FAIL ").map(|k| s[k + 5..].trim_end().to_string()).unwrap_or_default();
				violation = Some((m, vec![], true));
			}
			c => {
				violation = Some((format!("fixed part of the check ended with {:?} (crash or hang)", c), vec![], true));
			}
		}
	}
	let mut evals = fixed_evals;
	let mut ran = 0;
	let mut set: HashSet<u64> = HashSet::new();
	let mut stats: BTreeMap<String, u64> = BTreeMap::new();
	let mut samples = vec![];
	for o in &outs {
		evals += o.evals;
		ran += o.cases;
		set.extend(o.hashes.iter());
		for (k, v) in &o.stats {
			*stats.entry(k.clone()).or_insert(0) += v;
		}
		for s in &o.samples {
			if samples.len() < 4 {
				samples.push(s.clone());
			}
		}
	}
	if violation.is_none() {
		// the failure with the smallest case index
		let mut best: Option<&(u64, String, Vec<u32>)> = None;
		for o in &outs {
			if let Some(f) = &o.fail {
				if best.map_or(true, |b| f.0 < b.0) {
					best = Some(f);
				}
			}
		}
		if let Some((i, m, t)) = best {
			let mut m = m.clone();
			let f = scratch.join("first.tape");
			write_tape(&f, t);
			if let Outcome::Pass = wait_eval(spawn_eval(p.id, &f)) {
				if let Some((first, msg)) = shrink_range(p.id, seed, nw, *i) {
					range = Some((first, nw, *i));
					m = msg;
				}
			}
			violation = Some((m, t.clone(), false));
		}
	}
	let mut code = 0;
	let mut nviol = 0;
	let mut shrink_tried = 0;
	if let Some((msg, tape, is_fixed)) = violation {
		nviol = 1;
		code = 1;
		let rp = v.join("replays").join(format!("{}-{}.json", p.id, seed));
		let (tape, msg, desc) = if is_fixed {
			(vec![], msg, vec!["fixed case (see message); re-run with: vh fixed".to_string()])
		} else if let Some((first, step, last)) = range {
			let out = Command::new(&exe)
				.args(["evalrange", p.id, &seed.to_string(), &first.to_string(), &step.to_string(), &last.to_string(), "print"])
				.stderr(Stdio::null())
				.output()
				.expect("evalrange final");
			let mut d = vec![format!("needs earlier cases in the same process: cases {}, {}, ... {}; the last one:", first, first + step, last)];
			d.extend(String::from_utf8_lossy(&out.stdout).lines().map(|s| s.to_string()));
			(vec![first as u32, step as u32, last as u32], msg, d)
		} else {
			let hang = msg.contains("hang");
			let (t, m, n) = shrink(p.id, &scratch, tape, msg, hang);
			shrink_tried = n;
			// readable description from a fresh process
			let f = scratch.join("final.tape");
			write_tape(&f, &t);
			let out = Command::new(&exe)
				.args(["eval", p.id])
				.arg(&f)
				.arg("print")
				.stderr(Stdio::null())
				.output()
				.expect("eval final");
			let d: Vec<String> = String::from_utf8_lossy(&out.stdout).lines().map(|s| s.to_string()).collect();
			(t, m, d)
		};
		let tj: Vec<String> = tape.iter().map(|x| x.to_string()).collect();
		let dj: Vec<String> = desc.iter().map(|x| jesc(x)).collect();
		let j = format!(
			"{{\"property\":{},\"kind\":{},\"seed\":{},\"message\":{},\"case\":[{}],\"tape\":[{}],\"replay_cmd\":{}}}\n",
			jesc(p.id),
			jesc(if is_fixed { "fixed" } else if range.is_some() { "range" } else { "tape" }),
			seed,
			jesc(&msg),
			dj.join(","),
			tj.join(","),
			jesc(&format!("/verif/run.sh replay {}", rp.display()))
		);
		fs::write(&rp, j).expect("write replay");
		println!("{}: {}", p.id, msg);
		for d in desc.iter().take(40) {
			println!("{}", d);
		}
		println!("VIOLATION property={} replay={}", p.id, rp.display());
	} else if let Some(b) = broken {
		eprintln!("check error: {}", b);
		code = 2;
	}
	// evidence
	let sj: Vec<String> = samples.iter().map(|x| jesc(x)).collect();
	let stj: Vec<String> = stats.iter().map(|(k, v)| format!("{}:{}", jesc(k), v)).collect();
	let ev = format!(
		"{{\"property\":{},\"tier\":{},\"seed\":{},\"level\":\"exploration\",\"coverage\":{{\"evaluations\":{},\"generated_cases\":{},\"distinct_nontrivial\":{},\"rule\":{},\"samples\":[{}],\"fixed_evaluations\":{},\"shrink_evaluations\":{},\"counts\":{{{}}}}},\"assumptions\":[{}],\"wall_s\":{:.2},\"violations\":{}}}\n",
		jesc(p.id),
		jesc(tier),
		seed,
		evals,
		ran,
		set.len(),
		jesc(p.rule),
		sj.join(","),
		fixed_evals,
		shrink_tried,
		stj.join(","),
		p.assumptions.iter().map(|a| jesc(a)).collect::<Vec<_>>().join(","),
		t0.elapsed().as_secs_f64(),
		nviol
	);
	fs::write(v.join("evidence").join(format!("{}.json", p.id)), ev).expect("write evidence");
	let _ = fs::remove_dir_all(&scratch);
	if code == 0 {
		println!(
			"{} held: {} evaluations in {} cases, {} distinct non-trivial, {:.1}s",
			p.id,
			evals,
			ran,
			set.len(),
			t0.elapsed().as_secs_f64()
		);
	}
	exit(code)
}

fn fixed(p: &Prop) -> ! {
	install_hook();
	let mark = watchdog(Duration::from_secs(300));
	mark.store(0, Ordering::SeqCst);
	let mut ctx = Ctx::new(false);
	let r = match p.fixed {
		None => Ok(Ok(())),
		Some(f) => catch_unwind(AssertUnwindSafe(|| f(&mut ctx))),
	};
	println!("EVALS {}", ctx.evals);
	match r {
		Ok(Ok(())) => exit(0),
		Ok(Err(e)) => {
			println!("FAIL {}", e);
			exit(1)
		}
		Err(_) => {
			let m = LAST_PANIC.lock().map(|g| g.clone()).unwrap_or_default();
			println!("FAIL panic: {} in fixed case: {}", m, ctx.cur);
			exit(1)
		}
	}
}

fn replay(path: &str) -> ! {
	let s = fs::read_to_string(path).expect("read replay file");
	let grab = |k: &str| -> String {
		let pat = format!("\"{}\":", k);
		let at = s.find(&pat).expect("field") + pat.len();
		s[at..].to_string()
	};
	let id = grab("property").trim_start_matches('"').split('"').next().unwrap().to_string();
	let kind = grab("kind").trim_start_matches('"').split('"').next().unwrap().to_string();
	let p = props::get(&id).expect("unknown property");
	if kind == "fixed" {
		fixed(p);
	}
	let t = grab("tape");
	let t = &t[1..t.find(']').unwrap()];
	let tape: Vec<u32> = t.split(',').filter_map(|x| x.trim().parse().ok()).collect();
	if kind == "range" {
		let seed = grab("seed");
		let seed: u64 = seed[..seed.find(',').unwrap()].trim().parse().expect("seed");
		evalrange(p, seed, tape[0] as u64, tape[1] as u64, tape[2] as u64, true);
	}
	eval(p, Src::from_tape(tape), true)
}

fn main() {
	let a: Vec<String> = std::env::args().collect();
	let cmd = a.get(1).map(|s| s.as_str()).unwrap_or("");
	let prop = |k: usize| props::get(a.get(k).map(|s| s.as_str()).unwrap_or("")).unwrap_or_else(|| {
		eprintln!("unknown property");
		exit(2)
	});
	match cmd {
		"run" => run(prop(2)),
		"worker" => worker(
			prop(2),
			a[3].parse().unwrap(),
			a[4].parse().unwrap(),
			a[5].parse().unwrap(),
			a[6].parse().unwrap(),
			Path::new(&a[7]),
		),
		"eval" => eval(prop(2), Src::from_tape(read_tape(Path::new(&a[3]))), a.get(4).is_some()),
		"evalrange" => {
			let n = |k: usize| a[k].parse::<u64>().unwrap();
			evalrange(prop(2), n(3), n(4), n(5), n(6), a.get(7).is_some())
		}
		"evalidx" => {
			let p = prop(2);
			let mut s = Src::from_seed(case_seed(a[3].parse().unwrap(), p.id, a[4].parse().unwrap()));
			s.dump_to(fs::File::create(&a[5]).unwrap());
			eval(p, s, false)
		}
		"seedcase" => {
			install_hook();
			exit(if props::fuzz::seedcase(&a[2], a[3].parse().unwrap()) { 0 } else { 1 })
		}
		"firstuse" => {
			install_hook();
			let mark = watchdog(Duration::from_secs(40));
			mark.store(0, Ordering::SeqCst);
			match props::fuzz::firstuse(a[2].parse().unwrap()) {
				Ok(()) => exit(0),
				Err(e) => {
					println!("{}", e);
					exit(1)
				}
			}
		}
		"firstuse-seq" => {
			install_hook();
			exit(if props::fuzz::firstuse_seq(a[2].parse().unwrap(), a[3].parse().unwrap()) { 0 } else { 1 })
		}
		"hotalone" => {
			install_hook();
			let seeds: Vec<u64> = a[2..].iter().map(|x| x.parse().unwrap()).collect();
			exit(if props::fuzz::hot_alone(&seeds) { 0 } else { 1 })
		}
		"fixed" => fixed(prop(2)),
		"replay" => replay(&a[2]),
		"list" => {
			for p in props::ALL {
				println!("{}", p.id);
			}
		}
		_ => {
			eprintln!("usage: vh run <ID> | replay <file> | list");
			exit(2)
		}
	}
}
