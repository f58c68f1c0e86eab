//! C17, C18: bad input, and threads.
use super::query::{at, call_rel, want_rel};
use super::world::BAD_HTML;
use super::{Ctx, Prop};
use crate::model::*;
use crate::sel::*;
use crate::tape::{mix, Src};
use std::cell::RefCell;
use std::process::{Command, Stdio};
use std::rc::Rc;
use std::sync::{Arc, Barrier};
use visdom::html::ParseOptions;
use visdom::types::Elements;
use visdom::Vis;

pub struct Told {
	n: Rc<RefCell<usize>>,
}
impl Told {
	fn take(&self) -> usize {
		std::mem::replace(&mut *self.n.borrow_mut(), 0)
	}
}

/// loads with an error handler that counts, and sometimes uses the library itself
fn load_counting(html: &str, reenter: bool) -> (Els, Told) {
	let n = Rc::new(RefCell::new(0));
	let n2 = n.clone();
	let els = Vis::load_catch(
		html.to_string(),
		Box::new(move |e| {
			*n2.borrow_mut() += 1;
			let _ = e.to_string();
			if reenter {
				if let Ok(d) = Vis::load("<p><b></b></p>") {
					let _ = (d.find("p > b").length(), d.find("p").has("b").length(), d.find("[").length());
				}
			}
		}),
	);
	(els, Told { n })
}

const STOK: &[&str] = &[
	"div", "p", "*", "#a", ".c1", "[", "]", "[a]", "[lang=en]", "[lang='en']", "[lang=\"en", "=", "~=", "|=", "^=", "$=", "*=", "!=", "'", "\"", "(", ")", ":", "::", ":not(", ":has(", ":contains(",
	":nth-child(", "2n+1", "odd", "even", "-n", "n", "+", "-", ">", "~", ",", " ", "  ", ".", "#", ":first-child", ":last-child", ":empty", ":root", ":checked", ":header", ":input", ":submit", "\\",
	"\\.", "\n", "\t", "中", "é", "\u{1F600}", "0", "1", "99999999999999999999", "-1", "n+", "2n", "a", "b", "x-y", "_u", "$", "@", "!", "{", "}", "/", "%", "^", "|", "&", ";", "?", "`", "\u{0}", "٣",
	":nth-last-child(", ":nth-of-type(", ":only-child", ":only-of-type", "li", "ul", "||", "[class~=c1]", ":not(p)", ":has(> b)", ":not(:not(p))", ":contains('x')", ":contains(\"", "--", "a--b", "-x", "A", "DIV",
];

const MODEL_ONLY: SelCfg = MIXED;

fn soup_selector(s: &mut Src, m: &Model) -> String {
	let mut t = String::new();
	if s.chance(55) {
		let g = gen_group(s, m, &MODEL_ONLY, None, &[m.root]);
		t = p_group(s, &g);
		for _ in 0..s.range(1, 3) {
			let cs: Vec<char> = t.chars().collect();
			let n = cs.len();
			let p = s.below(n + 1);
			let (a, b): (String, String) = (cs[..p].iter().collect(), cs[p..].iter().collect());
			match s.below(6) {
				0 => {
					let q = (p + s.range(1, 3)).min(n);
					t = a + &cs[q..].iter().collect::<String>();
				}
				1 => t = a,
				2 => t = a + s.picks(STOK) + &b,
				3 => t = b + &a,
				4 => {
					let q = (p + s.range(1, 6)).min(n);
					let w: String = cs[p..q].iter().collect();
					t = a + &w + &b;
				}
				_ => {
					let c = char::from_u32(s.below(0x800) as u32).unwrap_or('?');
					t = a + &c.to_string() + &b;
				}
			}
		}
	} else {
		for _ in 0..s.range(1, 9) {
			t.push_str(s.picks(STOK));
		}
	}
	if s.chance(3) {
		t = t.repeat(s.range(2, 20));
	}
	t
}

/// a string that is not a selector in the library's grammar or in CSS
fn invalid_selector(s: &mut Src, m: &Model) -> String {
	let plain = |s: &mut Src| -> String {
		let w = ["div", "p", ".c1", "#a", "li.c2", "[title]", "a:first-child", "ul > li", "p:not(.x)"];
		w[s.below(w.len())].to_string()
	};
	let a = if s.chance(60) {
		plain(s)
	} else {
		let g = gen_group(s, m, &MIXED, None, &[m.root]);
		p_group(s, &g).trim().to_string()
	};
	let b = plain(s);
	match s.below(36) {
		0 => format!("{} >", a),
		1 => format!("{},", a),
		2 => format!(",{}", a),
		3 => format!("{} > > {}", a, b),
		4 => format!("{} + ~ {}", a, b),
		5 => format!("{},,{}", a, b),
		6 => format!("{}:nosuch", a),
		7 => format!("{}:nth-child(", a),
		8 => format!("{}[", a),
		9 => format!("{}[]", a),
		10 => format!("{}[a=", a),
		11 => format!("{}[a='x]", a),
		12 => format!("{}.", a),
		13 => format!("{}#", a),
		14 => format!("{}:", a),
		15 => format!("{}:not(", a),
		16 => format!("{}:not({}", a, b),
		17 => format!("{} $", a),
		18 => format!("{}:nth-child(foo)", a),
		19 => format!("{}:nth-child()", a),
		20 => format!("{})", a),
		21 => format!("{}]", a),
		22 => format!("{} !", a),
		23 => format!("{} @x", a),
		24 => format!("{} {{", a),
		25 => format!("{}:has({}", a, b),
		26 => format!("{} ~", a),
		27 => format!("{}:nth-last-child(2n+", a),
		28 => format!("{}, , {}", a, b),
		29 => format!("{}:not({} >)", a, b),
		30 => format!("{}:has(,{})", a, b),
		31 => format!("{}:not({} > ~ p)", a, b),
		32 => format!("{}:has({}:nosuch)", a, b),
		33 => format!("{}:not(:has({}+), i)", a, b),
		34 => format!("{}:not({},)", a, b),
		_ => format!("{} \"{}\"", a, b),
	}
}

const METHODS: usize = 23;

/// calls selector-taking method `k`; Ok(set) or Err(bool)
fn call(set: &Els, k: usize, sel: &str) -> (&'static str, Result<Els, bool>) {
	match k {
		0 => ("find", Ok(set.find(sel))),
		1 => ("filter", Ok(set.filter(sel))),
		2 => ("not", Ok(set.not(sel))),
		3 => ("has", Ok(set.has(sel))),
		4 => ("is", Err(set.is(sel))),
		5 => ("is_all", Err(set.is_all(sel))),
		6 => ("children", Ok(set.children(sel))),
		7 => ("parent", Ok(set.parent(sel))),
		8 => ("parents", Ok(set.parents(sel))),
		9 => ("siblings", Ok(set.siblings(sel))),
		10 => ("next", Ok(set.next(sel))),
		11 => ("next_all", Ok(set.next_all(sel))),
		12 => ("prev", Ok(set.prev(sel))),
		13 => ("prev_all", Ok(set.prev_all(sel))),
		14 => ("closest", Ok(set.closest(sel))),
		15 => ("next_until(stop)", Ok(set.next_until(sel, "", false))),
		16 => ("prev_until(stop)", Ok(set.prev_until(sel, "", true))),
		17 => ("parents_until(stop)", Ok(set.parents_until(sel, "", false))),
		18 => ("next_until(filter)", Ok(set.next_until("", sel, false))),
		19 => ("prev_until(filter)", Ok(set.prev_until("p", sel, true))),
		20 => ("parents_until(filter)", Ok(set.parents_until("body", sel, false))),
		21 => ("next_until(both)", Ok(set.next_until(sel, sel, true))),
		_ => ("parents_until(both)", Ok(set.parents_until(sel, sel, true))),
	}
}

fn empty_of(r: &Result<Els, bool>) -> bool {
	match r {
		Ok(e) => e.is_empty() && e.length() == 0,
		Err(b) => !*b,
	}
}

fn same_result(a: &Result<Els, bool>, b: &Result<Els, bool>) -> bool {
	match (a, b) {
		(Ok(a), Ok(b)) => a.length() == b.length() && a.get_ref().iter().zip(b.get_ref()).all(|(x, y)| x.is(y)),
		(Err(a), Err(b)) => a == b,
		_ => false,
	}
}

/// may the head of some group be relative to the context
fn leading_comb(t: &str) -> bool {
	t.split(',').any(|g| g.trim_start().starts_with(|c| matches!(c, '>' | '+' | '~')))
}

fn good_query(s: &mut Src, c: &mut Ctx, m: &Model, b: &Bound) -> Res {
	let all = m.els();
	let target = if all.is_empty() { None } else { Some(all[s.below(all.len())]) };
	let g = gen_group(s, m, &MIXED, target, &[m.root]);
	let text = p_group(s, &g);
	let want = ref_find(m, &[m.root], &g);
	c.evals += 1;
	at(&format!("then find({:?})", text), || b.same(m, &b.root.find(&text), &want))?;
	if !all.is_empty() {
		let keep: Vec<Id> = all.iter().copied().filter(|i| m_group(m, *i, &g)).collect();
		at(&format!("then filter({:?})", text), || b.same(m, &b.set(&all).filter(&text), &keep))?;
	}
	Ok(())
}

fn c17_selectors(s: &mut Src, c: &mut Ctx) -> Res {
	let mut d = cfg();
	d.forms = true;
	d.max_els = 12;
	let m = gen_doc(s, &d);
	let html = m.html();
	c.say(|| format!("html: {}", html));
	let (els, told) = load_counting(&html, s.chance(30));
	let b = bind_with(&m, els, &STRICT).map_err(|e| format!("after loading {:?}: {}", html, e))?;
	let all = m.els();
	for _ in 0..s.range(1, 4) {
		let definite = s.chance(45);
		let sel = if definite { invalid_selector(s, &m) } else { soup_selector(s, &m) };
		// the set
		let (ids, set): (Vec<Id>, Els) = match s.weighted(&[4, 4, 2]) {
			0 => (vec![m.root], b.set(&[m.root])),
			1 if !all.is_empty() => {
				let v = gen_subset(s, &m, false);
				let e = b.set(&v);
				(v, e)
			}
			_ => (vec![], Elements::new()),
		};
		c.say(|| format!("{} on {}: {:?}", if definite { "invalid" } else { "soup" }, show_all(&m, &ids), sel));
		let mut told_find = None;
		for k in 0..METHODS {
			if k > 1 && s.chance(60) {
				continue;
			}
			told.take();
			let (name, r) = call(&set, k, &sel);
			let n = told.take();
			c.evals += 1;
			let ctx = || format!("{} of {} with {:?} on {:?}", name, show_all(&m, &ids), sel, html);
			if ids.is_empty() {
				if !empty_of(&r) {
					return Err(format!("{}: an empty set gives a result", ctx()));
				}
				continue;
			}
			if n > 0 && !empty_of(&r) {
				return Err(format!("{}: an error is reported but the result is not empty", ctx()));
			}
			if definite && n == 0 {
				return Err(format!("{}: the invalid selector is not reported", ctx()));
			}
			if definite && !empty_of(&r) {
				return Err(format!("{}: the invalid selector has a result", ctx()));
			}
			// the same call again gives the same
			let (_, r2) = call(&set, k, &sel);
			if !same_result(&r, &r2) || (told.take() > 0) != (n > 0) {
				return Err(format!("{}: a second call differs", ctx()));
			}
			if k == 0 {
				told_find = Some(n > 0);
			} else if matches!(k, 1..=5) && told_find != Some(n > 0) {
				return Err(format!("{}: reported {}, but find on the same set {:?}", ctx(), n > 0, told_find));
			}
		}
		// an accepted string means the same to find and to filter
		if told_find == Some(false) && !definite && !leading_comb(&sel) && !all.is_empty() && !sel.is_empty() {
			let f = b.root.find(&sel);
			let e = b.set(&all);
			let g = e.filter(&sel);
			told.take();
			c.evals += 2;
			if !same_result(&Ok(f), &Ok(g)) {
				return Err(format!("{:?} on {:?}: find from the root and filter of all elements differ", sel, html));
			}
			let (f, x) = (e.filter(&sel), e.not(&sel));
			if told.take() == 0 {
				let ok = f.length() + x.length() == all.len() && x.filter_in(&f).is_empty() && e.is(&sel) == !f.is_empty() && e.is_all(&sel) == (f.length() == all.len());
				if !ok {
					return Err(format!("{:?} on {:?}: filter, not, is and is_all disagree", sel, html));
				}
			}
			c.hit("accepted_soup");
		}
		if told_find == Some(true) {
			c.hit("rejected");
		}
		check_tree(&m, &b, &STRICT).map_err(|e| format!("after calls with {:?} on {:?}: {}", sel, html, e))?;
		told.take();
		at(&format!("after calls with {:?} on {:?}", sel, html), || good_query(s, c, &m, &b))?;
		if told.take() != 0 {
			return Err(format!("after calls with {:?} on {:?}: a valid selector is reported as an error", sel, html));
		}
	}
	if s.chance(4) {
		// another thread finds the library in order
		let seed = s.below(1 << 30) as u64;
		let r = std::thread::spawn(move || {
			let mut s = Src::from_seed(seed);
			let m = gen_doc(&mut s, &cfg());
			let b = load_bound(&m)?;
			good_query(&mut s, &mut Ctx::new(false), &m, &b)
		})
		.join();
		match r {
			Ok(r) => at("in another thread", || r)?,
			Err(_) => return Err("panic in another thread after bad selectors".into()),
		}
	}
	Ok(())
}

/// operations that the library refuses: reported, document unchanged
fn c17_misuse(s: &mut Src, c: &mut Ctx) -> Res {
	let mut d = cfg();
	d.forms = true;
	d.max_els = 10;
	d.skeleton = 40;
	let m = gen_doc(s, &d);
	let html = m.html();
	c.say(|| format!("html: {}", html));
	let (els, told) = load_counting(&html, s.chance(30));
	let b = bind_with(&m, els, &STRICT).map_err(|e| format!("after loading {:?}: {}", html, e))?;
	let all = m.els();
	if all.is_empty() {
		return Ok(());
	}
	for _ in 0..s.range(1, 4) {
		let i = all[s.below(all.len())];
		told.take();
		let insert = |s: &mut Src, t: Id, n: &mut Els| -> &'static str {
			let mut t = b.set(&[t]);
			match s.below(9) {
				0 => (t.append(n), "append").1,
				1 => (t.prepend(n), "prepend").1,
				2 => (t.before(n), "before").1,
				3 => (t.after(n), "after").1,
				4 => (n.append_to(&mut t), "append_to").1,
				5 => (n.prepend_to(&mut t), "prepend_to").1,
				6 => (n.insert_before(&mut t), "insert_before").1,
				7 => (n.insert_after(&mut t), "insert_after").1,
				_ => (t.replace_with(n), "replace_with").1,
			}
		};
		let what;
		let mut must = true;
		match s.below(7) {
			0 => {
				let op = insert(s, i, &mut b.set(&[i]));
				// replacing an element with itself may be a silent no-op
				must = op != "replace_with";
				what = format!("{} of {} with itself", op, show(&m, i));
			}
			1 => {
				let up = m.ancestors(i);
				if up.is_empty() {
					continue;
				}
				let a = up[s.below(up.len())];
				let op = insert(s, i, &mut b.set(&[a]));
				what = format!("{} of {} with its ancestor {}", op, show(&m, i), show(&m, a));
			}
			2 => {
				// a document cannot be inserted
				let other = load("<!DOCTYPE html><html><body><p>x</p></body></html>")?;
				let before = other.outer_html();
				let mut n = Elements::with_nodes(vec![other.get(0).unwrap().cloned()]);
				let op = insert(s, i, &mut n);
				what = format!("{} of {} with a document", op, show(&m, i));
				if other.outer_html() != before {
					return Err(format!("{}: the document is now {:?}", what, other.outer_html()));
				}
			}
			3 => {
				// nothing can be inserted beside or into the document root
				let e = load("<p>x</p>")?;
				let mut n = e.find("p");
				let op = insert(s, m.root, &mut n);
				what = format!("{} at the document root", op);
				if e.find("p").length() != 1 {
					return Err(format!("{}: the content is gone", what));
				}
			}
			4 => {
				let texts = b.set(&[i]).texts(0);
				let mut texts: Vec<_> = texts.into_iter().filter(|t| node_kind(&t.clone_node()) == "text").collect();
				if texts.is_empty() {
					continue;
				}
				let k = s.below(texts.len());
				texts[k].set_text("");
				what = format!("set_text(\"\") of text {} in {}", k, show(&m, i));
			}
			5 => {
				if m.is_content(i) {
					continue;
				}
				let bad = s.picks(BAD_HTML);
				b.set(&[i]).set_html(bad);
				what = format!("set_html({:?}) of {}", bad, show(&m, i));
			}
			_ => {
				// into_text of an ordinary element is an error
				if m.is_content(i) {
					continue;
				}
				if b.el(i).cloned().into_text().is_ok() {
					return Err(format!("into_text of {} succeeds", show(&m, i)));
				}
				must = false;
				what = format!("into_text of {}", show(&m, i));
			}
		}
		c.say(|| what.clone());
		c.evals += 1;
		let n = told.take();
		if must && n == 0 {
			return Err(format!("{} on {:?} is not reported", what, html));
		}
		check_tree(&m, &b, &STRICT).map_err(|e| format!("after {} on {:?}: {}", what, html, e))?;
		at(&format!("after {} on {:?}", what, html), || good_query(s, c, &m, &b))?;
		c.hit("misuse");
	}
	Ok(())
}

/// strict loading: malformed markup is reported once and gives an empty set
fn c17_strict(s: &mut Src, c: &mut Ctx) -> Res {
	let mut d = cfg();
	d.max_els = 6;
	d.skeleton = 0;
	let m = gen_doc(s, &d);
	let ok = m.html();
	let bad = match s.below(6) {
		0 => format!("{}<div>", ok),
		1 => format!("{}</div>", ok),
		2 => format!("<div><p>{}</div>", ok),
		3 => format!("<ul><li>{}</ul></li>", ok),
		4 => format!("{}<section><b>x</b>", ok),
		_ => format!("{}</b>{}", ok, ok),
	};
	for (html, broken) in [(&ok, false), (&bad, true)] {
		let n = Rc::new(RefCell::new(0));
		let n2 = n.clone();
		c.say(|| format!("strict load: {}", html));
		c.evals += 1;
		let els = Vis::load_options_catch(html.clone(), ParseOptions::default(), Box::new(move |_| *n2.borrow_mut() += 1));
		if broken {
			if *n.borrow() != 1 {
				return Err(format!("strict loading of {:?} reports {} errors", html, n.borrow()));
			}
			if !els.is_empty() || els.find("*").length() != 0 || !els.text().is_empty() {
				return Err(format!("strict loading of {:?} reports an error and gives elements", html));
			}
			if Vis::load_options(html.clone(), ParseOptions::default()).is_ok() {
				return Err(format!("strict loading of {:?} is not an error", html));
			}
			// the default options repair it
			let e = load(html)?;
			if e.length() != 1 {
				return Err(format!("default loading of {:?} gives {} roots", html, e.length()));
			}
			c.hit("strict");
		} else {
			if *n.borrow() != 0 {
				return Err(format!("strict loading of the well-formed {:?} reports an error", html));
			}
			bind_with(&m, els, &STRICT).map_err(|e| format!("strict loading of {:?}: {}", html, e))?;
		}
	}
	Ok(())
}

fn c17(s: &mut Src, c: &mut Ctx) -> Res {
	match s.weighted(&[75, 18, 7]) {
		0 => c17_selectors(s, c),
		1 => c17_misuse(s, c),
		_ => c17_strict(s, c),
	}
}

pub const C17: Prop = Prop {
	id: "C17",
	run: c17,
	fixed: None,
	quick: 240_000,
	thorough: 2_500_000,
	hang_s: 25,
	rule: "75% of the cases: 1-4 strings (damaged valid selectors, token soup, and strings that are invalid by construction) through the selector-taking methods on the root, element sets and empty sets, with a counting error handler that sometimes uses the library itself; every call returns, a reported call has an empty result, invalid strings are reported, a repeated call agrees, find/filter/not/is/is_all agree on accepted strings, the document is unchanged and a generated valid query afterwards is right. 18%: refused insertions, empty texts, wrong node kinds; 7%: strict loading of broken markup. Non-trivial: a rejected string, an accepted soup string with the agreement checks, a refused operation, a strict load; distinct by choice tape",
	assumptions: &["selectors of moderate length (up to a few hundred characters) and nesting", "empty selectors are not judged as valid or invalid"],
};

// ------------------------------------------------------------------------------------------------
// C18

const PARTS: &[&str] = &["C01", "C02", "C03", "C04", "C05", "C09", "C13", "C17", "C11", "C15"];

fn part(id: &str, seed: u64) -> Res {
	let p = super::get(id).unwrap();
	let mut src = Src::from_seed(seed);
	let mut ctx = Ctx::new(false);
	(p.run)(&mut src, &mut ctx)
}

/// the same sub-case alone, in a fresh process
pub fn alone(id: &str, seed: u64) -> bool {
	let st = Command::new(std::env::current_exe().unwrap())
		.args(["seedcase", id, &seed.to_string()])
		.stdout(Stdio::null())
		.stderr(Stdio::null())
		.status();
	matches!(st, Ok(s) if s.success())
}
pub fn seedcase(id: &str, seed: u64) -> bool {
	part(id, seed).is_ok()
}

/// everything a thread of a `hot` case needs, made before the threads start
struct HotPlan {
	m: Model,
	html: String,
	/// selector, expected result of find
	finds: Vec<(String, Vec<Id>)>,
	/// set, selector, kept by filter
	filters: Vec<(Vec<Id>, String, Vec<Id>)>,
	/// set, relation, selector, expected
	rels: Vec<(Vec<Id>, usize, String, Vec<Id>)>,
	bad: String,
	rounds: usize,
}

fn hot_plan(seed: u64) -> HotPlan {
	let mut src = Src::from_seed(seed);
	let s = &mut src;
	let mut d = cfg();
	d.max_els = 14;
	let m = gen_doc(s, &d);
	let all = m.els();
	let target = |s: &mut Src| if all.is_empty() { None } else { Some(all[s.below(all.len())]) };
	let pick = |s: &mut Src| if s.chance(40) { STRUCT } else { MIXED };
	let mut p = HotPlan { m: Model::new(), html: m.html(), finds: vec![], filters: vec![], rels: vec![], bad: String::new(), rounds: s.range(4, 40) };
	for _ in 0..s.range(1, 5) {
		let k = pick(s);
		let t = target(s);
		let g = gen_group(s, &m, &k, t, &[m.root]);
		p.finds.push((p_group(s, &g), ref_find(&m, &[m.root], &g)));
	}
	if !all.is_empty() {
		for _ in 0..s.range(0, 3) {
			let sub = gen_subset(s, &m, false);
			let k = pick(s);
			let t = target(s);
			let g = gen_group(s, &m, &k, t, &[m.root]);
			let keep = sub.iter().copied().filter(|i| m_group(&m, *i, &g)).collect();
			p.filters.push((sub, p_group(s, &g), keep));
		}
		for _ in 0..s.range(0, 3) {
			let sub = gen_subset(s, &m, false);
			let what = s.below(8);
			let (text, want) = if s.chance(50) {
				(String::new(), want_rel(&m, &sub, what, None))
			} else {
				let t = target(s);
				let comp = SelCfg { combs: false, max_rest: 0, ..MIXED };
				let g = gen_group(s, &m, &comp, t, &[m.root]);
				(p_group(s, &g), want_rel(&m, &sub, what, Some(&g)))
			};
			p.rels.push((sub, what, text, want));
		}
	}
	p.bad = invalid_selector(s, &m);
	p.m = m;
	p
}

fn hot_run(p: &HotPlan) -> Res {
	let m = &p.m;
	for round in 0..p.rounds {
		let b = load_bound(m)?;
		for (text, want) in &p.finds {
			at(&format!("round {}: find({:?}) on {:?}", round, text, p.html), || b.same(m, &b.root.find(text), want))?;
		}
		for (sub, text, keep) in &p.filters {
			let set = b.set(sub);
			at(&format!("round {}: {}.filter({:?}) on {:?}", round, show_all(m, sub), text, p.html), || b.same(m, &set.filter(text), keep))?;
			if set.is(text) == keep.is_empty() {
				return Err(format!("round {}: {}.is({:?}) on {:?} is wrong", round, show_all(m, sub), text, p.html));
			}
		}
		for (sub, what, text, want) in &p.rels {
			at(&format!("round {}: {} relation {} with {:?} on {:?}", round, show_all(m, sub), what, text, p.html), || {
				b.same(m, &call_rel(&b.set(sub), *what, text), want)
			})?;
		}
		if round % 4 == 1 && !b.root.find(&p.bad).is_empty() {
			return Err(format!("round {}: find({:?}) has a result", round, p.bad));
		}
	}
	Ok(())
}

/// the plans one after another, in a fresh process
pub fn hot_alone(seeds: &[u64]) -> bool {
	seeds.iter().all(|x| matches!(std::panic::catch_unwind(|| hot_run(&hot_plan(*x))), Ok(Ok(()))))
}

/// threads that do little else than call the library
fn hot(s: &mut Src, c: &mut Ctx) -> Res {
	let nt = s.range(2, 8);
	let mut seeds: Vec<u64> = vec![];
	for _ in 0..nt {
		let x = mix(s.below(1 << 30) as u64);
		// now and then the same work twice
		let x = if !seeds.is_empty() && s.chance(20) { seeds[0] } else { x };
		seeds.push(x);
	}
	c.say(|| format!("{} threads that repeat queries: {:?}", nt, seeds));
	let bar = Arc::new(Barrier::new(nt));
	let hs: Vec<_> = seeds
		.iter()
		.map(|x| {
			let (x, bar) = (*x, bar.clone());
			std::thread::Builder::new()
				.stack_size(8 << 20)
				.spawn(move || {
					let p = hot_plan(x);
					bar.wait();
					std::panic::catch_unwind(|| hot_run(&p)).unwrap_or_else(|_| Err("panic".into()))
				})
				.expect("thread")
		})
		.collect();
	let mut fail = None;
	for (t, h) in hs.into_iter().enumerate() {
		c.evals += 1;
		match h.join() {
			Ok(Ok(())) => {}
			Ok(Err(e)) => fail = fail.or(Some((t, e))),
			Err(_) => return Err(format!("thread {} died", t)),
		}
	}
	if let Some((t, e)) = fail {
		let st = Command::new(std::env::current_exe().unwrap())
			.arg("hotalone")
			.args(seeds.iter().map(|x| x.to_string()))
			.stdout(Stdio::null())
			.stderr(Stdio::null())
			.status();
		if matches!(st, Ok(s) if s.success()) {
			return Err(format!("thread {} of {} fails among other threads but holds alone: {}", t, nt, e));
		}
		c.count("fails_alone_too");
	}
	c.hit("hot_threads");
	Ok(())
}

fn c18(s: &mut Src, c: &mut Ctx) -> Res {
	if s.chance(40) {
		return hot(s, c);
	}
	let nt = s.range(2, 6);
	let mut plans: Vec<Vec<(&'static str, u64)>> = vec![];
	for _ in 0..nt {
		let mut v = vec![];
		for _ in 0..s.range(1, 5) {
			let id = *s.pick(PARTS);
			v.push((id, mix(s.below(1 << 30) as u64)));
		}
		plans.push(v);
	}
	c.say(|| format!("{} threads, each: {:?}", nt, plans));
	let bar = Arc::new(Barrier::new(nt));
	let mut hs = vec![];
	for plan in plans {
		let bar = bar.clone();
		hs.push((
			plan.clone(),
			std::thread::Builder::new()
				.stack_size(8 << 20)
				.spawn(move || -> Result<(), (usize, String)> {
					bar.wait();
					for (k, (id, seed)) in plan.iter().enumerate() {
						let r = std::panic::catch_unwind(|| part(id, *seed));
						match r {
							Ok(Ok(())) => {}
							Ok(Err(e)) => return Err((k, e)),
							Err(_) => return Err((k, "panic".into())),
						}
					}
					Ok(())
				})
				.expect("thread"),
		));
	}
	let mut fail = None;
	for (t, (plan, h)) in hs.into_iter().enumerate() {
		c.evals += plan.len() as u64;
		match h.join() {
			Ok(Ok(())) => {}
			Ok(Err((k, e))) => {
				let (id, seed) = plan[k];
				if fail.is_none() {
					fail = Some((t, id, seed, e));
				}
			}
			Err(_) => return Err(format!("thread {} died", t)),
		}
	}
	if let Some((t, id, seed, e)) = fail {
		if alone(id, seed) {
			return Err(format!("thread {} of {}: {} (seed {}) fails among other threads but holds alone: {}", t, nt, id, seed, e));
		}
		c.count("fails_alone_too");
	}
	c.hit("threads");
	Ok(())
}

/// fresh processes: the threads race for the first use of the library
fn c18_fixed(c: &mut Ctx) -> Res {
	let dir = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into());
	let dir = std::path::PathBuf::from(dir).join("scratch").join(format!("c18.{}", std::process::id()));
	std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
	let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse::<i64>().ok()).map(|v| v as u64).unwrap_or(1);
	let thorough = std::env::var("VERIF_TIER").as_deref() == Ok("thorough");
	let n = if thorough { 1500 } else { 160 };
	let mut bad = None;
	let mut k = 0;
	while k < n && bad.is_none() {
		let mut ch = vec![];
		for j in 0..4 {
			ch.push((
				k + j,
				Command::new(std::env::current_exe().unwrap())
					.args(["firstuse", &mix(seed.wrapping_mul(7919) + k + j).to_string()])
					.stdout(Stdio::piped())
					.stderr(Stdio::null())
					.spawn()
					.map_err(|e| e.to_string())?,
			));
		}
		for (j, p) in ch {
			let o = p.wait_with_output().map_err(|e| e.to_string())?;
			c.evals += 1;
			if !o.status.success() {
				let t = String::from_utf8_lossy(&o.stdout).trim().to_string();
				bad = Some(format!(
					"process {} (vh firstuse {}): threads that use the library for the first time at once: {:?} {}",
					j,
					mix(seed.wrapping_mul(7919) + j),
					o.status.code(),
					t
				));
			}
		}
		k += 4;
	}
	let _ = std::fs::remove_dir_all(&dir);
	match bad {
		Some(b) => Err(b),
		None => Ok(()),
	}
}

/// `vh firstuse seed`: threads meet at a barrier and use the library for the first time
pub fn firstuse(seed: u64) -> Res {
	let nt = 2 + (seed % 7) as usize;
	let bar = Arc::new(Barrier::new(nt));
	let mut hs = vec![];
	for t in 0..nt {
		let bar = bar.clone();
		hs.push(std::thread::spawn(move || -> Res {
			let mut s = Src::from_seed(seed ^ mix(t as u64));
			// everything but the library calls is ready before the barrier
			let m = gen_doc(&mut s, &cfg());
			let all = m.els();
			let target = if all.is_empty() { None } else { Some(all[s.below(all.len())]) };
			let mut qs = vec![];
			for _ in 0..4 {
				let g = gen_group(&mut s, &m, &MIXED, target, &[m.root]);
				let text = p_group(&mut s, &g);
				let want = ref_find(&m, &[m.root], &g);
				qs.push((text, want));
			}
			let bad = invalid_selector(&mut s, &m);
			let html = m.html();
			let w = s.below(4);
			bar.wait();
			// a set can be used before anything was loaded
			match w {
				0 => drop(Elements::new().find(&bad)),
				1 => drop(Elements::new().filter("div > p")),
				_ => {}
			}
			let els = load(&html)?;
			if w == 2 && !els.find(&bad).is_empty() {
				return Err(format!("find({:?}) has a result", bad));
			}
			let b = bind_with(&m, els, &STRICT)?;
			for (text, want) in &qs {
				at(&format!("find({:?}) on {:?}", text, html), || b.same(&m, &b.root.find(text), want))?;
			}
			Ok(())
		}));
	}
	let mut fail: Res = Ok(());
	for h in hs {
		match h.join() {
			Ok(Ok(())) => {}
			Ok(Err(e)) => fail = Err(e),
			Err(_) => fail = Err("panic".into()),
		}
	}
	if fail.is_err() && seedless_alone(seed, nt) {
		return fail;
	}
	Ok(())
}

/// the threads' work one after another in a fresh process
fn seedless_alone(seed: u64, nt: usize) -> bool {
	let st = Command::new(std::env::current_exe().unwrap())
		.args(["firstuse-seq", &seed.to_string(), &nt.to_string()])
		.stdout(Stdio::null())
		.stderr(Stdio::null())
		.status();
	matches!(st, Ok(s) if s.success())
}
pub fn firstuse_seq(seed: u64, nt: usize) -> bool {
	for t in 0..nt {
		let mut s = Src::from_seed(seed ^ mix(t as u64));
		let m = gen_doc(&mut s, &cfg());
		let all = m.els();
		let target = if all.is_empty() { None } else { Some(all[s.below(all.len())]) };
		let b = match load_bound(&m) {
			Ok(b) => b,
			Err(_) => return false,
		};
		for _ in 0..4 {
			let g = gen_group(&mut s, &m, &MIXED, target, &[m.root]);
			let text = p_group(&mut s, &g);
			if b.same(&m, &b.root.find(&text), &ref_find(&m, &[m.root], &g)).is_err() {
				return false;
			}
		}
		let bad = invalid_selector(&mut s, &m);
		if !b.root.find(&bad).is_empty() {
			return false;
		}
	}
	true
}

pub const C18: Prop = Prop {
	id: "C18",
	run: c18,
	fixed: Some(c18_fixed),
	quick: 16_000,
	thorough: 400_000,
	hang_s: 40,
	rule: "a case is 2-6 threads released by a barrier, each running 1-5 generated sub-cases, or 2-8 threads that load a generated document and repeat prepared queries for 4-40 rounds (loading, queries, filters, traversals, mutations, attributes, texts, invalid selectors) on its own documents, compared with their reference models; a failure counts when the same sub-case holds alone in a fresh process. The fixed part runs fresh processes in which 2-8 threads use the library for the first time at the same moment. Non-trivial: every case with at least two threads; distinct by choice tape",
	assumptions: &["schedules are those the operating system gives for the generated programs on the cores available, not an exhaustive enumeration"],
};
