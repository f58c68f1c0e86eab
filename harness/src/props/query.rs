//! C01..C06: queries on a loaded document against the reference matcher.
use super::{Ctx, Prop};
use crate::model::*;
use crate::sel::*;
use crate::tape::Src;
use visdom::types::{Combinator, Elements};

const A_DOC: &str = "documents are trees generated from the model's grammar (elements, void and content tags, texts, comments, attributes in mixed case and quoting), up to about 40 elements per case (thorough: 120)";
const A_SEL: &str = "identifiers in selectors follow the library's grammar (ASCII letter or underscore first); attribute values in selectors hold no line breaks or backslashes";

pub fn big_cfg(s: &mut Src, base: Cfg) -> Cfg {
	let mut c = base;
	match s.weighted(&[80, 16, 4]) {
		0 => {}
		1 => c.max_els = 40,
		_ => c.max_els = 110,
	}
	c
}

/// runs `f`, prefixing its error with the call
pub fn at<T, F: FnOnce() -> Result<T, String>>(label: &str, f: F) -> Result<T, String> {
	f().map_err(|e| format!("{}: {}", label, e))
}

fn gen_ctx(s: &mut Src, m: &Model) -> (Vec<Id>, bool) {
	if s.chance(55) {
		let v = gen_subset_any(s, m, false);
		if !v.is_empty() {
			return (v, false);
		}
	}
	(vec![m.root], true)
}

fn ctx_set(b: &Bound, ids: &[Id], root: bool) -> Els {
	if root {
		Elements::with_nodes(vec![b.root.get(0).unwrap().cloned()])
	} else {
		b.set(ids)
	}
}

fn find_queries(s: &mut Src, c: &mut Ctx, cfgd: Cfg, scfg: &SelCfg, with_filter: bool) -> Res {
	let cfgd = big_cfg(s, cfgd);
	let m = gen_doc(s, &cfgd);
	c.say(|| format!("html: {}", m.html()));
	let b = load_bound(&m)?;
	let all = m.els();
	let nq = s.range(3, 8);
	for _ in 0..nq {
		let (ids, is_root) = gen_ctx(s, &m);
		let mut cand: Vec<Id> = vec![];
		for i in &ids {
			cand.extend(m.desc_els(*i));
		}
		let target = if cand.is_empty() { None } else { Some(cand[s.below(cand.len())]) };
		let g = gen_group(s, &m, scfg, target, &ids);
		let text = p_group(s, &g);
		let want = ref_find(&m, &ids, &g);
		c.evals += 1;
		c.say(|| format!("{}.find({:?}) -> {} elements", show_all(&m, &ids), text, want.len()));
		let set = ctx_set(&b, &ids, is_root);
		let got = set.find(&text);
		at(&format!("{}.find({:?}) on {:?}", show_all(&m, &ids), text, m.html()), || {
			b.same(&m, &got, &want)
		})?;
		if !want.is_empty() && want.len() < all.len() {
			c.hit("partial_match");
		} else if want.is_empty() {
			c.count("no_match");
		} else {
			c.count("all_match");
		}
		// equivalent spelling, reversed groups
		if s.chance(25) {
			let mut g2 = g.clone();
			g2.reverse();
			let text2 = p_group(s, &g2);
			c.evals += 1;
			let got = set.find(&text2);
			at(&format!("{}.find({:?}) on {:?}", show_all(&m, &ids), text2, m.html()), || {
				b.same(&m, &got, &want)
			})?;
		}
		if with_filter && !all.is_empty() {
			let sub = gen_subset_any(s, &m, false);
			let fset = b.set(&sub);
			let keep: Vec<Id> = sub.iter().copied().filter(|i| m_group(&m, *i, &g)).collect();
			let rest: Vec<Id> = sub.iter().copied().filter(|i| !keep.contains(i)).collect();
			c.evals += 3;
			at(&format!("{}.filter({:?}) on {:?}", show_all(&m, &sub), text, m.html()), || {
				b.same(&m, &fset.filter(&text), &keep)
			})?;
			at(&format!("{}.not({:?}) on {:?}", show_all(&m, &sub), text, m.html()), || {
				b.same(&m, &fset.not(&text), &rest)
			})?;
			let is = fset.is(&text);
			if is != !keep.is_empty() {
				return Err(format!("{}.is({:?}) on {:?} is {}", show_all(&m, &sub), text, m.html(), is));
			}
			if !keep.is_empty() && !rest.is_empty() {
				c.hit("partial_filter");
			}
		}
	}
	Ok(())
}

fn c01(s: &mut Src, c: &mut Ctx) -> Res {
	find_queries(s, c, cfg(), &BASIC, false)
}
pub const C01: Prop = Prop {
	id: "C01",
	run: c01,
	fixed: None,
	quick: 420_000,
	thorough: 1_500_000,
	hang_s: 60,
	rule: "a case is a generated document plus 3-8 find() calls with generated selectors (tag, *, id, class, attribute tests, combinators, groups; each printed in a random equivalent spelling) from the root or a generated element set; non-trivial when some query selects a non-empty proper subset of the elements; distinct by choice tape",
	assumptions: &[A_DOC, A_SEL],
};

fn c02(s: &mut Src, c: &mut Ctx) -> Res {
	let mut d = cfg();
	d.skeleton = 30;
	// flatter documents give long sibling lists
	if s.chance(40) {
		return sib_lists(s, c);
	}
	find_queries(s, c, d, &STRUCT, true)
}

/// one parent with a long list of children of few types, many nth arguments
fn sib_lists(s: &mut Src, c: &mut Ctx) -> Res {
	let mut m = Model::new();
	let top = m.elem("ul", vec![]);
	let wrap = s.chance(50);
	if wrap {
		let w = m.elem("div", vec![]);
		m.push_child(0, w);
		m.push_child(w, top);
	} else {
		m.push_child(0, top);
	}
	let n = s.range(0, 14);
	for k in 0..n {
		if k > 0 && s.chance(25) {
			let t = m.text(" ");
			m.push_child(top, t);
		}
		let tag = s.picks(&["li", "p", "LI", "b"]);
		let e = m.elem(tag, vec![]);
		m.push_child(top, e);
		if s.chance(15) {
			let x = m.elem("li", vec![]);
			m.push_child(e, x);
		}
		if s.chance(10) {
			let t = m.text("t");
			m.push_child(e, t);
		}
	}
	c.say(|| format!("html: {}", m.html()));
	let b = load_bound(&m)?;
	let all = m.els();
	for _ in 0..s.range(4, 10) {
		let k = s.below(10);
		let x = match k {
			0..=7 => Simple::NthP(k % 2 == 1, (k / 2) % 2 == 1, gen_nth(s)),
			8 => s.pick(&[Simple::OnlyChild, Simple::OnlyType, Simple::FirstType, Simple::LastType]).clone(),
			_ => s.pick(&[Simple::FirstChild, Simple::LastChild, Simple::Empty]).clone(),
		};
		let mut comp = vec![];
		if s.chance(35) {
			comp.push(Simple::Tag(s.picks(&["li", "p", "b"]).into()));
		}
		comp.push(x);
		let g: Group = if s.chance(50) {
			vec![Complex { head: comp, rest: vec![] }]
		} else {
			let cb = *s.pick(&[Comb::Child, Comb::Desc, Comb::Next, Comb::Sib]);
			let h = if matches!(cb, Comb::Child | Comb::Desc) { "ul" } else { "li" };
			vec![Complex { head: vec![Simple::Tag(h.into())], rest: vec![(cb, comp)] }]
		};
		let text = p_group(s, &g);
		let want = ref_find(&m, &[m.root], &g);
		c.evals += 2;
		c.say(|| format!("find({:?}) -> {}", text, want.len()));
		at(&format!("find({:?}) on {:?}", text, m.html()), || b.same(&m, &b.root.find(&text), &want))?;
		let sub = gen_subset_any(s, &m, false);
		let keep: Vec<Id> = sub.iter().copied().filter(|i| m_group(&m, *i, &g)).collect();
		let rest: Vec<Id> = sub.iter().copied().filter(|i| !keep.contains(i)).collect();
		at(&format!("{}.filter({:?}) on {:?}", show_all(&m, &sub), text, m.html()), || {
			b.same(&m, &b.set(&sub).filter(&text), &keep)
		})?;
		at(&format!("{}.not({:?}) on {:?}", show_all(&m, &sub), text, m.html()), || {
			b.same(&m, &b.set(&sub).not(&text), &rest)
		})?;
		if !want.is_empty() && want.len() < all.len() {
			c.hit("partial_match");
		}
	}
	Ok(())
}

/// every An+B with |A| <= 7, |B| <= 12 on lists of 0..=9 children, all four nth pseudo-classes
fn c02_fixed(c: &mut Ctx) -> Res {
	for n in 0..=9usize {
		let mut m = Model::new();
		let top = m.elem("ul", vec![]);
		m.push_child(0, top);
		for k in 0..n {
			let e = m.elem(if k % 3 == 1 { "p" } else { "li" }, vec![]);
			m.push_child(top, e);
		}
		let b = load_bound(&m)?;
		let kids = m.kids(top);
		let kset = b.set(&kids);
		for a in -7i64..=7 {
			for bb in -12i64..=12 {
				for k in 0..4 {
					let x = Simple::NthP(k % 2 == 1, k / 2 == 1, Nth::AB(a, bb));
					let mut z = Src::from_tape(vec![]);
					let t = p_simple(&mut z, &x);
					let want: Vec<Id> = kids.iter().copied().filter(|i| m_simple(&m, *i, &x)).collect();
					c.cur = format!("ul with {} children, {}", n, t);
					c.evals += 3;
					at(&format!("ul>{} (n={})", t, n), || {
						b.same(&m, &b.root.find(&format!("ul>{}", t)), &want)?;
						b.same(&m, &b.root.find(&format!("ul {}", t)), &want)?;
						b.same(&m, &kset.filter(&t), &want)
					})?;
				}
			}
		}
		for i in -3i64..=12 {
			for k in 0..4 {
				let x = Simple::NthP(k % 2 == 1, k / 2 == 1, Nth::Num(i));
				let mut z = Src::from_tape(vec![]);
				let t = p_simple(&mut z, &x);
				let want: Vec<Id> = kids.iter().copied().filter(|j| m_simple(&m, *j, &x)).collect();
				c.cur = format!("ul with {} children, {}", n, t);
				c.evals += 3;
				at(&format!("ul>{} (n={})", t, n), || {
					b.same(&m, &b.root.find(&format!("ul>{}", t)), &want)?;
					b.same(&m, &b.root.find(&format!("ul {}", t)), &want)?;
					b.same(&m, &kset.filter(&t), &want)
				})?;
			}
		}
	}
	Ok(())
}
pub const C02: Prop = Prop {
	id: "C02",
	run: c02,
	fixed: Some(c02_fixed),
	quick: 280_000,
	thorough: 1_000_000,
	hang_s: 60,
	rule: "a case is a generated document (or a long sibling list) plus several find/filter/not/is calls with selectors holding structural pseudo-classes; non-trivial when a query selects a non-empty proper subset; plus the complete grid |A|<=7, |B|<=12, 0..9 children, four nth pseudo-classes, three call forms (fixed_evaluations)",
	assumptions: &[A_DOC, A_SEL],
};

/// every form and heading pseudo-class, alone and in simple surroundings, on documents full of controls
fn form_queries(s: &mut Src, c: &mut Ctx, d: Cfg) -> Res {
	let m = gen_doc(s, &d);
	c.say(|| format!("html: {}", m.html()));
	let b = load_bound(&m)?;
	let all = m.els();
	let set = b.set(&all);
	for x in [Simple::Checked, Simple::Input, Simple::Submit, Simple::Header] {
		let p = {
			let mut z = Src::from_tape(vec![]);
			p_simple(&mut z, &x)
		};
		let want: Vec<Id> = all.iter().copied().filter(|i| m_simple(&m, *i, &x)).collect();
		let rest: Vec<Id> = all.iter().copied().filter(|i| !want.contains(i)).collect();
		c.evals += 6;
		at(&format!("{} on {:?}", p, m.html()), || {
			at("find", || b.same(&m, &b.root.find(&p), &want))?;
			at("find *", || b.same(&m, &b.root.find(&format!("*{}", p)), &want))?;
			at("filter", || b.same(&m, &set.filter(&p), &want))?;
			at("find :not", || b.same(&m, &b.root.find(&format!(":not({})", p)), &rest))?;
			let under: Vec<Id> = all.iter().copied().filter(|i| m.desc_els(*i).iter().any(|k| want.contains(k))).collect();
			at("find :has", || b.same(&m, &b.root.find(&format!(":has({})", p)), &under))?;
			let top: Vec<Id> = want.iter().copied().filter(|i| m.parent_el(*i).map_or(false, |q| m.tag(q) == "select")).collect();
			at("find select>", || b.same(&m, &b.root.find(&format!("select > {}", p)), &top))
		})?;
		if !want.is_empty() && !rest.is_empty() {
			c.hit("form_partial");
		}
	}
	Ok(())
}

fn c03(s: &mut Src, c: &mut Ctx) -> Res {
	let mut d = cfg();
	d.forms = s.chance(60);
	d.texts = 45;
	d.entity = s.chance(20);
	if d.forms {
		d.selects = 2;
	}
	if s.chance(25) {
		d.forms = true;
		d.selects = 3;
		return form_queries(s, c, d);
	}
	let f = if s.chance(8) { SelCfg { depth: s.range(3, 6), ..FUNC } } else { FUNC };
	find_queries(s, c, d, &f, true)
}
pub const C03: Prop = Prop {
	id: "C03",
	run: c03,
	fixed: None,
	quick: 90_000,
	thorough: 800_000,
	hang_s: 60,
	rule: "a case is a generated document (often with form controls) plus find/filter/not/is calls whose selectors hold :not/:has (nested up to two levels), :contains, :header, :input, :submit, :checked mixed with other simple selectors and combinators; non-trivial when a query selects a non-empty proper subset",
	assumptions: &[A_DOC, A_SEL, ":contains arguments hold no quotes, parentheses, backslashes or line breaks"],
};

fn c04(s: &mut Src, c: &mut Ctx) -> Res {
	if s.chance(6) {
		return mixed(s, c, true);
	}
	let d = big_cfg(s, cfg());
	let m = gen_doc(s, &d);
	c.say(|| format!("html: {}", m.html()));
	let b = load_bound(&m)?;
	if m.els().is_empty() {
		return Ok(());
	}
	for _ in 0..s.range(2, 6) {
		let sub = gen_subset_any(s, &m, false);
		let set = b.set(&sub);
		let target = Some(sub[s.below(sub.len())]);
		let g = gen_group(s, &m, &MIXED, target, &[m.root]);
		let text = p_group(s, &g);
		let keep: Vec<Id> = sub.iter().copied().filter(|i| m_group(&m, *i, &g)).collect();
		let rest: Vec<Id> = sub.iter().copied().filter(|i| !keep.contains(i)).collect();
		let lab = |what: &str| format!("{}.{}({:?}) on {:?}", show_all(&m, &sub), what, text, m.html());
		c.say(|| lab("filter"));
		c.evals += 6;
		at(&lab("filter"), || b.same(&m, &set.filter(&text), &keep))?;
		at(&lab("not"), || b.same(&m, &set.not(&text), &rest))?;
		if set.is(&text) != !keep.is_empty() {
			return Err(format!("{} is wrong", lab("is")));
		}
		if set.is_all(&text) != rest.is_empty() {
			return Err(format!("{} is wrong", lab("is_all")));
		}
		// closest
		let mut cl = vec![];
		for i in &sub {
			let mut chain = vec![*i];
			chain.extend(m.ancestors(*i));
			if let Some(x) = chain.into_iter().find(|x| m_group(&m, *x, &g)) {
				cl.push(x);
			}
		}
		let cl = m.doc_order(cl);
		at(&lab("closest"), || b.same(&m, &set.closest(&text), &cl))?;
		// closest aimed at an ancestor
		let t = sub[s.below(sub.len())];
		let anc = m.ancestors(t);
		if !anc.is_empty() {
			let a = anc[s.below(anc.len())];
			let g2 = gen_group(s, &m, &MIXED, Some(a), &[m.root]);
			let text2 = p_group(s, &g2);
			let mut cl = vec![];
			for i in &sub {
				let mut chain = vec![*i];
				chain.extend(m.ancestors(*i));
				if let Some(x) = chain.into_iter().find(|x| m_group(&m, *x, &g2)) {
					cl.push(x);
				}
			}
			let cl = m.doc_order(cl);
			c.evals += 1;
			at(&format!("{}.closest({:?}) on {:?}", show_all(&m, &sub), text2, m.html()), || {
				b.same(&m, &set.closest(&text2), &cl)
			})?;
			if !cl.is_empty() {
				c.hit("closest_hit");
			}
		}
		// has: aimed at a descendant
		let d = m.desc_els(t);
		let tg = if d.is_empty() { target } else { Some(d[s.below(d.len())]) };
		let g3 = gen_group(s, &m, &MIXED, tg, &[t]);
		let text3 = p_group(s, &g3);
		let hs: Vec<Id> = sub.iter().copied().filter(|i| m_has(&m, *i, &g3)).collect();
		at(&format!("{}.has({:?}) on {:?}", show_all(&m, &sub), text3, m.html()), || {
			b.same(&m, &set.has(&text3), &hs)
		})?;
		if !keep.is_empty() && !rest.is_empty() {
			c.hit("partial_filter");
		}
		if !hs.is_empty() && hs.len() < sub.len() {
			c.hit("partial_has");
		}
		// predicates by position
		let k = s.range(1, 3);
		let tagw = m.tag(t);
		let f = |i: usize, e: &El| i % k == 0 || e.tag_name().to_ascii_lowercase() == tagw;
		let fk: Vec<Id> = sub
			.iter()
			.copied()
			.enumerate()
			.filter(|(i, x)| i % k == 0 || m.tag(*x) == tagw)
			.map(|(_, x)| x)
			.collect();
		let nk: Vec<Id> = sub.iter().copied().filter(|i| !fk.contains(i)).collect();
		let pl = |what: &str| format!("{}.{}(index%{}==0 || tag=={})", show_all(&m, &sub), what, k, tagw);
		c.evals += 4;
		at(&pl("filter_by"), || b.same(&m, &set.filter_by(|i, e| f(i, &e.cloned())), &fk))?;
		at(&pl("not_by"), || b.same(&m, &set.not_by(|i, e| f(i, &e.cloned())), &nk))?;
		if set.is_by(|i, e| f(i, &e.cloned())) != !fk.is_empty() {
			return Err(format!("{} wrong", pl("is_by")));
		}
		if set.is_all_by(|i, e| f(i, &e.cloned())) != nk.is_empty() {
			return Err(format!("{} wrong", pl("is_all_by")));
		}
		// predicate that may hold for none
		let none = set.is_by(|_, e| e.tag_name() == "NOSUCH");
		let only_last = set.is_by(|i, _| i + 1 == sub.len());
		if none || !only_last {
			return Err(format!("is_by of {} wrong", show_all(&m, &sub)));
		}
	}
	Ok(())
}
pub const C04: Prop = Prop {
	id: "C04",
	run: c04,
	fixed: None,
	quick: 168_000,
	thorough: 600_000,
	hang_s: 60,
	rule: "a case is a generated document plus 2-6 element sets, each checked with filter/not/is/is_all/has/closest and the _by variants against per-element reference matching (in 6% of the cases sets with elements of two or three trees, every tree judged alone); non-trivial when filter or has keeps a non-empty proper part of the set or closest finds an ancestor",
	assumptions: &[A_DOC, A_SEL, "is_all is not judged on the empty set; no element is twice in a set"],
};

// ------------------------------------------------------------------------------------------------

fn rel(m: &Model, i: Id, what: usize) -> Vec<Id> {
	let sibs = m.sibs(i);
	let p = m.sib_pos(i);
	match what {
		0 => m.kids(i),
		1 => m.parent_el(i).into_iter().collect(),
		2 => m.ancestors(i),
		3 => sibs.into_iter().filter(|x| *x != i).collect(),
		4 => sibs.get(p + 1).copied().into_iter().collect(),
		5 => sibs[p + 1..].to_vec(),
		6 => {
			if p > 0 {
				vec![sibs[p - 1]]
			} else {
				vec![]
			}
		}
		_ => sibs[..p].to_vec(),
	}
}
const REL: [&str; 8] = ["children", "parent", "parents", "siblings", "next", "next_all", "prev", "prev_all"];

pub fn call_rel(set: &Els, what: usize, sel: &str) -> Els {
	match what {
		0 => set.children(sel),
		1 => set.parent(sel),
		2 => set.parents(sel),
		3 => set.siblings(sel),
		4 => set.next(sel),
		5 => set.next_all(sel),
		6 => set.prev(sel),
		_ => set.prev_all(sel),
	}
}

pub fn want_rel(m: &Model, sub: &[Id], what: usize, g: Option<&Group>) -> Vec<Id> {
	let mut out = vec![];
	for i in sub {
		for x in rel(m, *i, what) {
			if g.map_or(true, |g| m_group(m, x, g)) {
				out.push(x);
			}
		}
	}
	m.doc_order(out)
}

/// sets with elements of several trees: every tree gives what it would give alone
/// (the order between the trees is not judged)
fn mixed(s: &mut Src, c: &mut Ctx, deep: bool) -> Res {
	let mut d = cfg();
	d.max_els = 12;
	let m0 = gen_doc(s, &d);
	let n = s.range(2, 3);
	let mut ms: Vec<Model> = vec![];
	for k in 0..n {
		// often the same tree again: equal positions
		ms.push(if k > 0 && s.chance(50) { m0.clone() } else if k == 0 { m0.clone() } else { gen_doc(s, &d) });
	}
	let mut bs = vec![];
	for m in &ms {
		c.say(|| format!("html: {}", m.html()));
		bs.push(load_bound(m)?);
	}
	// an interleaving of a subset of each
	let draw = |s: &mut Src| -> (Vec<Vec<Id>>, Vec<(usize, Id)>) {
		let subs: Vec<Vec<Id>> = ms.iter().map(|m| if m.els().is_empty() { vec![] } else { gen_subset_any(s, m, false) }).collect();
		let mut at = vec![0; n];
		let mut out = vec![];
		loop {
			let open: Vec<usize> = (0..n).filter(|k| at[*k] < subs[*k].len()).collect();
			if open.is_empty() {
				break;
			}
			let k = open[s.below(open.len())];
			out.push((k, subs[k][at[k]]));
			at[k] += 1;
		}
		(subs, out)
	};
	let make = |v: &[(usize, Id)]| -> Els { Elements::with_nodes(v.iter().map(|(k, i)| bs[*k].el(*i).cloned()).collect()) };
	let split = |got: &Els, want: &[Vec<Id>]| -> Res {
		let mut parts: Vec<Vec<El>> = (0..n).map(|_| vec![]).collect();
		for e in got.get_ref() {
			let k = match bs.iter().position(|b| b.id_of(e).is_some()) {
				Some(k) => k,
				None => return Err("an element of no tree".into()),
			};
			parts[k].push(e.cloned());
		}
		for (k, p) in parts.into_iter().enumerate() {
			bs[k].same(&ms[k], &Elements::with_nodes(p), &want[k]).map_err(|e| format!("in tree {}: {}", k, e))?;
		}
		Ok(())
	};
	for _ in 0..s.range(1, 4) {
		let (subs, all) = draw(s);
		let set = make(&all);
		let text = format!(
			"the set {} of the trees {:?}",
			all.iter().map(|(k, i)| format!("{}:{}", k, show(&ms[*k], *i))).collect::<Vec<_>>().join(" "),
			ms.iter().map(|m| m.html()).collect::<Vec<_>>()
		);
		c.say(|| text.clone());
		if subs.iter().filter(|x| !x.is_empty()).count() > 1 {
			c.hit("several_trees");
		}
		c.evals += 1;
		let t = ms[0].els();
		let target = if t.is_empty() { None } else { Some(t[s.below(t.len())]) };
		if deep {
			// filter, not, is, has, closest, find
			let comp = SelCfg { combs: s.chance(40), ..MIXED };
			let g = gen_group(s, &ms[0], &comp, target, &[ms[0].root]);
			let sel = p_group(s, &g);
			let keep: Vec<Vec<Id>> = (0..n).map(|k| subs[k].iter().copied().filter(|i| m_group(&ms[k], *i, &g)).collect()).collect();
			let drop: Vec<Vec<Id>> = (0..n).map(|k| subs[k].iter().copied().filter(|i| !m_group(&ms[k], *i, &g)).collect()).collect();
			at(&format!("filter({:?}) of {}", sel, text), || split(&set.filter(&sel), &keep))?;
			at(&format!("not({:?}) of {}", sel, text), || split(&set.not(&sel), &drop))?;
			let some = keep.iter().any(|x| !x.is_empty());
			if set.is(&sel) != some {
				return Err(format!("is({:?}) of {} is {}", sel, text, !some));
			}
			let near: Vec<Vec<Id>> = (0..n)
				.map(|k| {
					let m = &ms[k];
					m.doc_order(
						subs[k]
							.iter()
							.filter_map(|i| {
								let mut ch = m.ancestors(*i);
								ch.insert(0, *i);
								ch.into_iter().find(|x| m_group(m, *x, &g))
							})
							.collect(),
					)
				})
				.collect();
			at(&format!("closest({:?}) of {}", sel, text), || split(&set.closest(&sel), &near))?;
			let found: Vec<Vec<Id>> = (0..n).map(|k| if subs[k].is_empty() { vec![] } else { ref_find(&ms[k], &subs[k], &g) }).collect();
			at(&format!("find({:?}) of {}", sel, text), || split(&set.find(&sel), &found))?;
			let (subs2, all2) = draw(s);
			let set2 = make(&all2);
			let both: Vec<Vec<Id>> = (0..n).map(|k| subs[k].iter().copied().filter(|i| subs2[k].contains(i)).collect()).collect();
			let only: Vec<Vec<Id>> = (0..n).map(|k| subs[k].iter().copied().filter(|i| !subs2[k].contains(i)).collect()).collect();
			at(&format!("filter_in of {}", text), || split(&set.filter_in(&set2), &both))?;
			at(&format!("not_in of {}", text), || split(&set.not_in(&set2), &only))?;
			if set.is_in(&set2) != both.iter().any(|x| !x.is_empty()) {
				return Err(format!("is_in of {} is wrong", text));
			}
			let union: Vec<Vec<Id>> = (0..n).map(|k| ms[k].doc_order(subs[k].iter().chain(subs2[k].iter()).copied().collect())).collect();
			let text2 = all2.iter().map(|(k, i)| format!("{}:{}", k, show(&ms[*k], *i))).collect::<Vec<_>>().join(" ");
			at(&format!("add of {} to {}", text2, text), || split(&make(&all).add(make(&all2)), &union))?;
		} else {
			let what = s.below(8);
			let g = if s.chance(50) {
				let comp = SelCfg { combs: false, max_rest: 0, ..MIXED };
				Some(gen_group(s, &ms[0], &comp, target, &[ms[0].root]))
			} else {
				None
			};
			let sel = g.as_ref().map_or(String::new(), |g| p_group(s, g));
			let want: Vec<Vec<Id>> = (0..n).map(|k| want_rel(&ms[k], &subs[k], what, g.as_ref())).collect();
			at(&format!("{}({:?}) of {}", REL[what], sel, text), || split(&call_rel(&set, what, &sel), &want))?;
		}
	}
	Ok(())
}

fn c05(s: &mut Src, c: &mut Ctx) -> Res {
	if s.chance(6) {
		return mixed(s, c, false);
	}
	let d = big_cfg(s, cfg());
	let m = gen_doc(s, &d);
	c.say(|| format!("html: {}", m.html()));
	let b = load_bound(&m)?;
	let all = m.els();
	if all.is_empty() {
		return Ok(());
	}
	// compound selectors only: the argument filters the related elements
	let comp = SelCfg { combs: false, max_rest: 0, ..MIXED };
	for _ in 0..s.range(3, 8) {
		let sub = gen_subset_any(s, &m, false);
		let set = b.set(&sub);
		let what = s.below(8);
		let base = want_rel(&m, &sub, what, None);
		c.evals += 2;
		c.say(|| format!("{}.{}", show_all(&m, &sub), REL[what]));
		at(&format!("{}.{}(\"\") on {:?}", show_all(&m, &sub), REL[what], m.html()), || {
			b.same(&m, &call_rel(&set, what, ""), &base)
		})?;
		let t = if base.is_empty() { None } else { Some(base[s.below(base.len())]) };
		let g = gen_group(s, &m, &comp, t, &[m.root]);
		let text = p_group(s, &g);
		let want = want_rel(&m, &sub, what, Some(&g));
		at(&format!("{}.{}({:?}) on {:?}", show_all(&m, &sub), REL[what], text, m.html()), || {
			b.same(&m, &call_rel(&set, what, &text), &want)
		})?;
		if sub.len() > 1 && !base.is_empty() {
			c.hit("set_traversal");
		}
		if !want.is_empty() && want.len() < base.len() {
			c.hit("filtered");
		}
		// a result can be queried again
		if s.chance(30) && !base.is_empty() {
			let r = call_rel(&set, what, "");
			let w2 = ref_find(&m, &base, &vec![Complex { head: vec![Simple::Univ], rest: vec![] }]);
			c.evals += 1;
			at(&format!("{}.{}(\"\").find(\"*\") on {:?}", show_all(&m, &sub), REL[what], m.html()), || {
				b.same(&m, &r.find("*"), &w2)
			})?;
		}
		// until
		if s.chance(50) {
			let k = s.below(3);
			let name = ["next_until", "prev_until", "parents_until"][k];
			// chain of related elements, nearest first
			let chain = |i: Id| -> Vec<Id> {
				match k {
					0 => rel(&m, i, 5),
					1 => {
						let mut v = rel(&m, i, 7);
						v.reverse();
						v
					}
					_ => m.ancestors(i),
				}
			};
			let pick = sub[s.below(sub.len())];
			let ch = chain(pick);
			let t = if ch.is_empty() { None } else { Some(ch[s.below(ch.len())]) };
			let sc = if s.chance(30) { MIXED } else { comp };
			let stop = gen_group(s, &m, &sc, t, &[m.root]);
			let stop_t = p_group(s, &stop);
			let filt = if s.chance(50) {
				let t = if ch.is_empty() { None } else { Some(ch[s.below(ch.len())]) };
				let sc = if s.chance(30) { MIXED } else { comp };
				Some(gen_group(s, &m, &sc, t, &[m.root]))
			} else {
				None
			};
			let filt_t = filt.as_ref().map(|g| p_group(s, g)).unwrap_or_default();
			let incl = s.chance(50);
			let mut want = vec![];
			for i in &sub {
				for x in chain(*i) {
					let hit = m_group(&m, x, &stop);
					if hit && !incl {
						break;
					}
					if filt.as_ref().map_or(true, |g| m_group(&m, x, g)) {
						want.push(x);
					}
					if hit {
						break;
					}
				}
			}
			let want = m.doc_order(want);
			let got = match k {
				0 => set.next_until(&stop_t, &filt_t, incl),
				1 => set.prev_until(&stop_t, &filt_t, incl),
				_ => set.parents_until(&stop_t, &filt_t, incl),
			};
			c.evals += 1;
			c.say(|| format!("{}.{}({:?},{:?},{})", show_all(&m, &sub), name, stop_t, filt_t, incl));
			at(
				&format!("{}.{}({:?},{:?},{}) on {:?}", show_all(&m, &sub), name, stop_t, filt_t, incl, m.html()),
				|| b.same(&m, &got, &want),
			)?;
			if !want.is_empty() {
				c.hit("until");
			}
		}
		// contains
		{
			let x = all[s.below(all.len())];
			let sibs = m.sibs(x);
			let p = m.sib_pos(x);
			let tests: [(Combinator, bool); 4] = [
				(Combinator::ChildrenAll, sub.iter().any(|i| m.is_anc(*i, x))),
				(Combinator::Children, m.n[x].parent.map_or(false, |q| sub.contains(&q))),
				(Combinator::Next, p > 0 && sub.contains(&sibs[p - 1])),
				(Combinator::NextAll, sibs[..p].iter().any(|q| sub.contains(q))),
			];
			for (cb, w) in tests {
				c.evals += 1;
				let g = set.contains(b.el(x), &cb);
				if g != w {
					return Err(format!(
						"{}.contains({}, {:?}) is {} on {:?}",
						show_all(&m, &sub),
						show(&m, x),
						cb,
						g,
						m.html()
					));
				}
			}
		}
	}
	// single-element accessors
	for i in all.iter().take(12) {
		let e = b.el(*i);
		let sibs = m.sibs(*i);
		let p = m.sib_pos(*i);
		c.evals += 6;
		let one = |o: Option<El>| -> Els {
			match o {
				Some(x) => Elements::with_nodes(vec![x]),
				None => Elements::new(),
			}
		};
		let lab = format!("{} in {:?}", show(&m, *i), m.html());
		at(&format!("next_element_sibling of {}", lab), || b.same(&m, &one(e.next_element_sibling()), &rel(&m, *i, 4)))?;
		at(&format!("previous_element_sibling of {}", lab), || b.same(&m, &one(e.previous_element_sibling()), &rel(&m, *i, 6)))?;
		at(&format!("next_element_siblings of {}", lab), || b.same(&m, &e.next_element_siblings(), &sibs[p + 1..]))?;
		at(&format!("previous_element_siblings of {}", lab), || b.same(&m, &e.previous_element_siblings(), &sibs[..p]))?;
		at(&format!("siblings of {}", lab), || b.same(&m, &e.siblings(), &rel(&m, *i, 3)))?;
		let mut by: Vec<(String, usize)> = vec![];
		e.children_by(Box::new(|x| by.push((x.tag_name().to_ascii_lowercase(), x.index()))));
		if by != m.kids(*i).iter().map(|k| (m.tag(*k), m.index(*k))).collect::<Vec<_>>() {
			return Err(format!("children_by of {} visits {:?}", lab, by));
		}
		at(&format!("children of {}", lab), || b.same(&m, &e.children(), &m.kids(*i)))?;
		if e.index() != m.index(*i) {
			return Err(format!("index() of {} is {}", lab, e.index()));
		}
		if e.is_root_element() {
			return Err(format!("{} claims to be the root", lab));
		}
	}
	Ok(())
}
fn c05_fixed(c: &mut Ctx) -> Res {
	// children() with a relative selector whose head is a child (documented form "ul > li")
	let r = load("<div id='h'><ul><li>1</li><li>2</li></ul><p><ul><li>3</li></ul></p></div>")?;
	c.evals += 1;
	let x = r.find("#h").children("ul > li");
	if x.text() != "12" {
		return Err(format!("children(\"ul > li\") gives {:?}, expected \"12\"", x.text()));
	}
	Ok(())
}
pub const C05: Prop = Prop {
	id: "C05",
	run: c05,
	fixed: Some(c05_fixed),
	quick: 160_000,
	thorough: 500_000,
	hang_s: 60,
	rule: "a case is a generated document plus 3-8 element sets (single, siblings, nested, mixed), each traversed with one relation with and without a filter, an *_until call and contains(), plus the single-element accessors; non-trivial when a set of several elements has a non-empty result, a filter keeps a proper part, or an until call returns something",
	assumptions: &[A_DOC, A_SEL, "no element is twice in a set; traversal filters are compound selectors or groups of them (until: any selector)"],
};

// ------------------------------------------------------------------------------------------------

fn shuffle(s: &mut Src, v: &[Id]) -> Vec<Id> {
	let mut v = v.to_vec();
	for k in (1..v.len()).rev() {
		let j = s.below(k + 1);
		v.swap(k, j);
	}
	v
}

fn set_ops(m: &Model, b: &Bound, x: &[Id], y: &[Id], yorder: &[Id], c: &mut Ctx) -> Res {
	let a = b.set(x);
	let bb = b.set(y);
	let by = b.set(yorder);
	let lab = |op: &str| format!("{}.{}({}) on {:?}", show_all(m, x), op, show_all(m, y), m.html());
	let mut u = x.to_vec();
	u.extend_from_slice(y);
	let u = m.doc_order(u);
	c.evals += 6;
	at(&lab("add"), || b.same(m, &a.add(bb), &u))?;
	let l2 = |op: &str| format!("{}.{}({}) on {:?}", show_all(m, x), op, show_all(m, yorder), m.html());
	at(&l2("add"), || b.same(m, &a.add(b.set(yorder)), &u))?;
	at(&format!("{}.add({}) on {:?}", show_all(m, yorder), show_all(m, x), m.html()), || b.same(m, &by.add(b.set(x)), &u))?;
	let inter: Vec<Id> = x.iter().copied().filter(|i| y.contains(i)).collect();
	let diff: Vec<Id> = x.iter().copied().filter(|i| !y.contains(i)).collect();
	at(&l2("filter_in"), || b.same(m, &a.filter_in(&by), &inter))?;
	at(&l2("not_in"), || b.same(m, &a.not_in(&by), &diff))?;
	if a.is_in(&by) != !inter.is_empty() {
		return Err(format!("{} is wrong", l2("is_in")));
	}
	if !x.is_empty() && a.is_all_in(&by) != diff.is_empty() {
		return Err(format!("{} is wrong", l2("is_all_in")));
	}
	let has: Vec<Id> = x.iter().copied().filter(|i| y.iter().any(|j| m.is_anc(*i, *j))).collect();
	at(&l2("has_in"), || b.same(m, &a.has_in(&by), &has))?;
	// operands unchanged
	at(&lab("add (left operand afterwards)"), || b.same(m, &a, x))?;
	at(&l2("filter_in (operand afterwards)"), || b.same(m, &by, yorder))?;
	if !x.is_empty() && !y.is_empty() && u.len() > x.len() {
		c.hit("real_union");
	}
	Ok(())
}

fn c06(s: &mut Src, c: &mut Ctx) -> Res {
	let d = big_cfg(s, cfg());
	let m = gen_doc(s, &d);
	c.say(|| format!("html: {}", m.html()));
	let b = load_bound(&m)?;
	if m.els().is_empty() {
		return Ok(());
	}
	for _ in 0..s.range(2, 6) {
		let x = gen_subset_any(s, &m, true);
		let y = gen_subset(s, &m, true);
		let yo = shuffle(s, &y);
		c.say(|| format!("A={} B={}", show_all(&m, &x), show_all(&m, &yo)));
		set_ops(&m, &b, &x, &y, &yo, c)?;
		// sequence operations
		let a = b.set(&x);
		let n = x.len();
		if a.length() != n || a.is_empty() != (n == 0) {
			return Err(format!("length/is_empty of {} wrong", show_all(&m, &x)));
		}
		let k = s.range(0, n + 2);
		let k2 = s.range(0, n + 2);
		let one = |i: usize| -> Vec<Id> { x.get(i).copied().into_iter().collect() };
		c.evals += 10;
		let l = |op: String| format!("{}.{}", show_all(&m, &x), op);
		at(&l(format!("eq({})", k)), || b.same(&m, &a.eq(k), &one(k)))?;
		at(&l("first()".into()), || b.same(&m, &a.first(), &one(0)))?;
		at(&l("last()".into()), || {
			b.same(&m, &a.last(), &if n == 0 { vec![] } else { vec![x[n - 1]] })
		})?;
		match (a.get(k), x.get(k)) {
			(None, None) => {}
			(Some(e), Some(i)) if b.el(*i).is(e) => {}
			_ => return Err(l(format!("get({}) wrong", k))),
		}
		let clip = |lo: usize, hi: usize| -> Vec<Id> {
			let lo = lo.min(n);
			let hi = hi.min(n);
			if lo >= hi {
				vec![]
			} else {
				x[lo..hi].to_vec()
			}
		};
		let (lo, hi) = if k <= k2 { (k, k2) } else { (k2, k) };
		at(&l(format!("slice({}..{})", lo, hi)), || b.same(&m, &a.slice(lo..hi), &clip(lo, hi)))?;
		at(&l(format!("slice({}..={})", lo, hi)), || b.same(&m, &a.slice(lo..=hi), &clip(lo, hi + 1)))?;
		at(&l(format!("slice({}..)", k)), || b.same(&m, &a.slice(k..), &clip(k, n)))?;
		at(&l(format!("slice(..{})", k)), || b.same(&m, &a.slice(..k), &clip(0, k)))?;
		at(&l(format!("slice(..={})", k)), || b.same(&m, &a.slice(..=k), &clip(0, k + 1)))?;
		at(&l("slice(..)".into()), || b.same(&m, &a.slice(..), &x))?;
		// inverted, unbounded by size, and excluding bounds
		#[allow(clippy::reversed_empty_ranges)]
		{
			at(&l(format!("slice({}..{})", k, k2)), || b.same(&m, &a.slice(k..k2), &clip(k, k2)))?;
			at(&l(format!("slice({}..={})", k, k2)), || b.same(&m, &a.slice(k..=k2), &clip(k, k2 + 1)))?;
			at(&l(format!("slice({}..=MAX)", k)), || b.same(&m, &a.slice(k..=usize::MAX), &clip(k, n)))?;
			at(&l(format!("slice({}..MAX)", k)), || b.same(&m, &a.slice(k..usize::MAX), &clip(k, n)))?;
			at(&l("slice(MAX..)".into()), || b.same(&m, &a.slice(usize::MAX..), &[]))?;
			use std::ops::Bound::*;
			at(&l(format!("slice((Excluded({}), Unbounded))", k)), || b.same(&m, &a.slice((Excluded(k), Unbounded)), &clip(k + 1, n)))?;
			at(&l(format!("slice((Excluded({}), Included({})))", k, k2)), || b.same(&m, &a.slice((Excluded(k), Included(k2))), &clip(k + 1, k2 + 1)))?;
			at(&l("slice((Excluded(MAX), Unbounded))".into()), || b.same(&m, &a.slice((Excluded(usize::MAX), Unbounded)), &[]))?;
		}
		// map, for_each, iteration
		let mp = a.map(|i, e| (i, b.id_of(&e.cloned())));
		let wantmp: Vec<(usize, Option<Id>)> = x.iter().enumerate().map(|(i, j)| (i, Some(*j))).collect();
		if mp != wantmp {
			return Err(l(format!("map gives {:?}, expected {:?}", mp, wantmp)));
		}
		let stop = s.range(0, n + 1);
		let mut seen = vec![];
		let mut a2 = b.set(&x);
		a2.for_each(|i, e| {
			seen.push((i, b.id_of(&e.cloned())));
			i + 1 < stop
		});
		let upto = if n == 0 { 0 } else { stop.max(1).min(n) };
		if seen != wantmp[..upto] {
			return Err(l(format!("for_each (false after {}) visits {:?}", stop, seen)));
		}
		let mut seen2 = vec![];
		a2.each(|i, e| {
			seen2.push((i, b.id_of(&e.cloned())));
			i + 1 < stop
		});
		if seen2 != seen {
			return Err(l(format!("each visits {:?}, for_each {:?}", seen2, seen)));
		}
		if let Some(j) = x.first() {
			at(&l("Vis::dom".into()), || b.same(&m, &visdom::Vis::dom(b.el(*j)), &[*j]))?;
		}
		at(&l("cloned()".into()), || b.same(&m, &a.cloned(), &x))?;
		let it: Vec<Option<Id>> = b.set(&x).into_iter().map(|e| b.id_of(&e)).collect();
		if it != x.iter().map(|i| Some(*i)).collect::<Vec<_>>() {
			return Err(l(format!("into_iter gives {:?}", it)));
		}
	}
	// the document is untouched
	check_tree(&m, &b, &STRICT)?;
	Ok(())
}

/// all pairs of subsets of several small trees
fn c06_fixed(c: &mut Ctx) -> Res {
	let trees = [
		"<a></a><a></a><a></a><a></a><a></a><a></a>",
		"<a><a></a><a></a></a><a><a></a></a><a></a>",
		"<a><a><a><a></a></a></a></a><a></a><a></a>",
		"x<a>y<a></a>z</a><!--c--><a><a></a><a></a></a>",
	];
	for t in trees {
		let root = load(t)?;
		// build the model by walking children() of the loaded tree
		let mut m = Model::new();
		fn walk(m: &mut Model, p: Id, e: &El) {
			for n in e.child_nodes() {
				match node_kind(&n) {
					"element" => {
						let x = m.elem("a", vec![]);
						m.push_child(p, x);
						let c = n.typed().into_element().unwrap();
						walk(m, x, &c);
					}
					"text" => {
						let t = m.text(&n.text());
						m.push_child(p, t);
					}
					_ => {
						let t = m.add(Kind::Comment(n.text()));
						m.push_child(p, t);
					}
				}
			}
		}
		let e = root.get(0).unwrap().cloned();
		walk(&mut m, 0, &e);
		let b = bind_with(&m, root, &STRICT)?;
		let all = m.els();
		let n = all.len();
		for p in 0..(1usize << n) {
			for q in 0..(1usize << n) {
				let x: Vec<Id> = (0..n).filter(|k| p >> k & 1 == 1).map(|k| all[k]).collect();
				let y: Vec<Id> = (0..n).filter(|k| q >> k & 1 == 1).map(|k| all[k]).collect();
				let mut yo = y.clone();
				yo.reverse();
				c.cur = format!("{} A={} B={}", t, show_all(&m, &x), show_all(&m, &y));
				set_ops(&m, &b, &x, &y, &yo, c)?;
			}
		}
	}
	Ok(())
}
pub const C06: Prop = Prop {
	id: "C06",
	run: c06,
	fixed: Some(c06_fixed),
	quick: 192_000,
	thorough: 600_000,
	hang_s: 60,
	rule: "a case is a generated document plus 2-6 pairs of element sets (B also shuffled) checked with add, *_in, slice, eq, first, last, get, map, for_each, iteration; non-trivial when a union of two non-empty sets is larger than the first; plus all pairs of subsets of four fixed trees of six elements (fixed_evaluations)",
	assumptions: &[A_DOC, "no element is twice in a set; is_all_in is not judged on the empty set"],
};
