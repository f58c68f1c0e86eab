//! C09, C10: attribute and class operation sequences.
use super::query::at;
use super::world::*;
use super::{Ctx, Prop};
use crate::model::*;
use crate::sel::gen_subset;
use crate::tape::Src;
use visdom::types::IAttrValue;

const A_DOC: &str = "documents of up to about 14 elements; the document root has no attributes and is not a target";

const NAMES: &[&str] = &[
	"title", "lang", "data-x", "href", "id", "class", "name", "data-y", "hidden", "value", "type", "v-on:click", "x.y", "aria-label", "_u", "data-Camel", "a", "b",
];

fn any_case(s: &mut Src, n: &str) -> String {
	match s.weighted(&[60, 15, 15, 10]) {
		0 => n.to_string(),
		1 => n.to_ascii_uppercase(),
		2 => case_variant(s, n),
		_ => n.chars().map(|c| if s.chance(50) { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect(),
	}
}

const VCH: &[&str] = &["a", "b", " ", "\"", "'", "=", ">", "<", "/", "&", "&amp;", "&quot;", ";", "`", "中", "é", "-", "x y", "\n", "\t", "0", "#", "?", "{}", "\\", "/>", "-->"];

fn gen_val(s: &mut Src) -> Option<String> {
	match s.weighted(&[10, 45, 45]) {
		0 => None,
		1 => Some(s.picks(AVALS).to_string()),
		_ => {
			let mut v = String::new();
			let k = if s.chance(2) { s.range(6, 100) } else { s.range(0, 5) };
			for _ in 0..k {
				v.push_str(s.picks(VCH));
			}
			Some(v)
		}
	}
}

fn pick_some(s: &mut Src, w: &World) -> Vec<Id> {
	let ids = if s.chance(70) {
		let all = w.m.els();
		vec![all[s.below(all.len())]]
	} else {
		gen_subset(s, &w.m, false)
	};
	ids.into_iter().take(5).collect()
}

fn same_val(got: &Option<IAttrValue>, want: &Option<Option<String>>) -> bool {
	match (got, want) {
		(None, None) => true,
		(Some(g), Some(w)) => attr_val(g).map(|s| unq(&s)) == w.as_ref().map(|s| unq(s)),
		_ => false,
	}
}

/// every read of attribute `name`
fn read_attr(c: &mut Ctx, w: &World, i: Id, name: &str) -> Res {
	let want: Option<Option<String>> = w.m.attr(i, name).map(|v| v.map(|s| s.to_string()));
	let e = w.el(i);
	let set = w.set(&[i]);
	c.evals += 4;
	for (how, got) in [("attr", set.attr(name)), ("get_attribute", e.get_attribute(name))] {
		if !same_val(&got, &want) {
			return Err(format!("{}({:?}) of {} is {:?}, expected {:?}", how, name, label(w, i), got, want));
		}
	}
	if set.has_attr(name) != want.is_some() || e.has_attribute(name) != want.is_some() {
		return Err(format!("has_attr({:?}) of {} is {}, expected {:?}", name, label(w, i), set.has_attr(name), want));
	}
	if let (Some(v), Some(x)) = (set.attr(name), &want) {
		let x = x.as_ref().map(|x| unq(x));
		if v.is_true() != x.is_none() {
			return Err(format!("attr({:?}).is_true() of {} is {}, expected {:?}", name, label(w, i), v.is_true(), x));
		}
		if unq(&v.to_string()) != x.clone().unwrap_or_default() {
			return Err(format!("attr({:?}).to_string() of {} is {:?}, expected {:?}", name, label(w, i), v.to_string(), x));
		}
		if !v.is_str(&v.to_string()) || v.is_str(&(v.to_string() + "x")) {
			return Err(format!("attr({:?}).is_str() of {} does not compare with {:?}", name, label(w, i), v.to_string()));
		}
		let list: Vec<String> = v.to_list().iter().map(|s| s.to_string()).collect();
		let wl: Vec<String> = v.to_string().split_ascii_whitespace().map(|s| s.to_string()).collect();
		if list != wl {
			return Err(format!("attr({:?}).to_list() of {} is {:?}, expected {:?}", name, label(w, i), list, wl));
		}
	}
	Ok(())
}

fn ident_ok(n: &str) -> bool {
	!n.is_empty() && n.chars().all(|c| c.is_ascii_alphanumeric() || c == '-' || c == '_') && !n.starts_with(|c: char| c.is_ascii_digit() || c == '-')
}

/// attribute selectors see the same map
fn select_attr(s: &mut Src, c: &mut Ctx, w: &World, b: Option<&Bound>, name: &str) -> Res {
	if !ident_ok(name) {
		return Ok(());
	}
	let root = w.roots[0];
	let all = w.m.desc_els(root);
	let vals: Vec<&str> = all.iter().filter_map(|i| w.m.attr(*i, name).flatten()).collect();
	let mut sels: Vec<(String, Vec<Id>)> = vec![(
		format!("[{}]", name),
		all.iter().copied().filter(|i| w.m.attr(*i, name).is_some()).collect(),
	)];
	if !vals.is_empty() {
		let v = vals[s.below(vals.len())].to_string();
		if !v.contains(|c: char| matches!(c, '"' | '\'' | '\\' | '\n' | '\r')) && !v.contains("&quot;") && !v.contains("&apos;") {
			sels.push((
				format!("[{}=\"{}\"]", name, v),
				all.iter().copied().filter(|i| w.m.attr(*i, name).map(|x| x.unwrap_or("")) == Some(v.as_str())).collect(),
			));
			sels.push((
				format!("[{}!='{}']", name, v),
				all.iter().copied().filter(|i| w.m.attr(*i, name).map(|x| x.unwrap_or("")) != Some(v.as_str())).collect(),
			));
		}
	}
	for (sel, want) in sels {
		c.evals += 1;
		let (set, h): (Els, &dyn Fn(Id) -> El) = match b {
			None => (w.set(&[root]).find(&sel), &|i| w.el(i).cloned()),
			Some(b) => (b.root.find(&sel), &|i| b.el(i).cloned()),
		};
		let ok = set.length() == want.len() && want.iter().enumerate().all(|(k, i)| set.get(k).unwrap().is(&h(*i)));
		if !ok {
			return Err(format!(
				"find({:?}) in {:?}{} gives {} elements, expected {}",
				sel,
				w.el(root).outer_html(),
				if b.is_some() { " (loaded again)" } else { "" },
				set.length(),
				labels(w, &want)
			));
		}
	}
	Ok(())
}

fn c09(s: &mut Src, c: &mut Ctx) -> Res {
	let mut d = world_cfg();
	d.max_els = if s.chance(80) { 5 } else { 12 };
	let mut m = gen_doc(s, &d);
	if m.els().is_empty() {
		let e = m.elem("div", vec![]);
		m.push_child(0, e);
	}
	// more attributes, written in the source
	for i in m.els() {
		if s.chance(40) {
			for _ in 0..s.range(1, 3) {
				let n = s.picks(NAMES);
				let n = any_case(s, n);
				if m.attr(i, &n).is_none() {
					let val = match gen_val(s) {
						Some(v) if v.contains('"') && v.contains('\'') => Some("x".to_string()),
						v => v,
					};
					let quote = val.as_ref().and_then(|v| if v.contains('"') { Some('\'') } else { Some('"') });
					m.attrs_mut(i).push(MAttr { name: n, val, quote });
				}
			}
		}
	}
	c.say(|| format!("load doc0: {}", m.html()));
	let mut w = World::new();
	w.load(&m)?;
	w.quotes = true;
	// a small pool of names, so that calls meet
	let mut names: Vec<String> = vec![];
	if s.chance(2) {
		// an element with many attributes
		for k in 0..s.range(5, 60) {
			names.push(format!("data-n{}", k));
		}
		let els = w.m.els();
		let i = els[s.below(els.len())];
		for n in names.clone() {
			if s.chance(90) {
				let v = gen_val(s);
				w.set(&[i]).set_attr(&n, v.as_deref());
				w.m.set_attr(i, &n, v.as_deref());
			}
		}
		c.say(|| format!("many attributes on {}", label(&w, i)));
	}
	for _ in 0..s.range(1, 4) {
		names.push(s.picks(NAMES).to_string());
	}
	for i in w.m.els() {
		for a in w.m.attrs(i) {
			if names.len() < 6 {
				names.push(a.name.clone());
			}
		}
	}
	let n = s.range(2, 9);
	let mut changed = 0;
	for _ in 0..n {
		let ids = pick_some(s, &w);
		let k = s.below(names.len());
		let name = any_case(s, &names[k].clone());
		let desc;
		c.evals += 1;
		if s.chance(30) {
			desc = format!("{}.remove_attr({:?})", labels(&w, &ids), name);
			c.say(|| desc.clone());
			if ids.len() == 1 && s.chance(30) {
				w.el(ids[0]).cloned().remove_attribute(&name);
			} else {
				w.set(&ids).remove_attr(&name);
			}
			for i in &ids {
				if w.m.attr(*i, &name).is_some() {
					changed += 1;
				}
				w.m.del_attr(*i, &name);
			}
		} else {
			let v = gen_val(s);
			desc = format!("{}.set_attr({:?}, {:?})", labels(&w, &ids), name, v);
			c.say(|| desc.clone());
			if ids.len() == 1 && s.chance(30) {
				w.el(ids[0]).cloned().set_attribute(&name, v.as_deref());
			} else {
				w.set(&ids).set_attr(&name, v.as_deref());
			}
			for i in &ids {
				w.m.set_attr(*i, &name, v.as_deref());
				changed += 1;
			}
		}
		at(&format!("after {}", desc), || w.check())?;
		for i in &ids {
			let nm = any_case(s, &name);
			at(&format!("after {}", desc), || read_attr(c, &w, *i, &nm))?;
		}
		// some other read
		let all = w.m.els();
		let i = all[s.below(all.len())];
		let k = s.below(names.len());
		let nm = any_case(s, &names[k].clone());
		at(&format!("after {}", desc), || read_attr(c, &w, i, &nm))?;
		// reads of a set use the first element
		let ids = gen_subset(s, &w.m, false);
		let want = w.m.attr(ids[0], &nm).map(|v| v.map(|s| s.to_string()));
		let set = w.set(&ids);
		let some = ids.iter().any(|i| w.m.attr(*i, &nm).is_some());
		if set.has_attr(&nm) != some {
			return Err(format!("after {}: has_attr({:?}) of the set {} is {}", desc, nm, labels(&w, &ids), !some));
		}
		if !same_val(&set.attr(&nm), &want) {
			return Err(format!("after {}: attr({:?}) of the set {} is {:?}, its first element has {:?}", desc, nm, labels(&w, &ids), set.attr(&nm), want));
		}
		at(&format!("after {}", desc), || select_attr(s, c, &w, None, &nm))?;
		if s.chance(35) {
			let b = at(&format!("after {}", desc), || w.reload(w.roots[0]))?;
			at(&format!("after {}", desc), || select_attr(s, c, &w, Some(&b), &nm))?;
			c.evals += 1;
		}
	}
	let b = at("at the end", || w.reload(w.roots[0]))?;
	for nm in &names {
		at("at the end", || select_attr(s, c, &w, Some(&b), nm))?;
	}
	if changed >= 2 {
		c.hit("two_changes");
	}
	Ok(())
}

pub const C09: Prop = Prop {
	id: "C09",
	run: c09,
	fixed: None,
	quick: 320_000,
	thorough: 2_000_000,
	hang_s: 60,
	rule: "a case is a generated document and 2-9 set_attr / remove_attr calls on elements and sets, with names from a small pool in any letter case and values with quotes, markup characters, whitespace, empty or none; after every call the attribute lists of all elements, all reads, and attribute selectors are compared with a map model, and the reloaded serialisation as well; non-trivial when at least two calls changed an attribute; distinct by choice tape",
	assumptions: &[A_DOC, "attribute names are HTML attribute names (no whitespace, quotes, =, >, /)", "values are compared up to entity-encoded quotes, which set_attr writes when a value holds both kinds"],
};

// ------------------------------------------------------------------------------------------------

const CN: &[&str] = &["c1", "c2", "c3", "c", "C1", "_x", "a-b", "é", "w-1/2", "中", "c1c", "md:x"];

fn gen_names(s: &mut Src) -> String {
	let k = match s.weighted(&[20, 120, 100, 60, 20, 3]) {
		5 => s.range(5, 60),
		k => k,
	};
	let mut v = String::new();
	if s.chance(10) {
		v.push_str(s.picks(&[" ", "\t", "\n"]));
	}
	for j in 0..k {
		if j > 0 {
			v.push_str(s.picks(&[" ", " ", "  ", "\t", "\n", "\u{c}"]));
		}
		if k > 4 && s.chance(80) {
			v.push_str(&format!("n{}", s.below(60)));
		} else {
			v.push_str(s.picks(CN));
		}
	}
	if s.chance(10) {
		v.push(' ');
	}
	v
}

fn split(v: &str) -> Vec<String> {
	v.split_ascii_whitespace().map(|s| s.to_string()).collect()
}

fn uniq(v: &[String]) -> Vec<String> {
	let mut r: Vec<String> = vec![];
	for x in v {
		if !r.contains(x) {
			r.push(x.clone());
		}
	}
	r
}

fn read_class(c: &mut Ctx, w: &World, b: Option<&Bound>) -> Res {
	let root = w.roots[0];
	let all = w.m.desc_els(root);
	for n in CN {
		let want: Vec<Id> = all.iter().copied().filter(|i| w.m.classes(*i).iter().any(|x| x == n)).collect();
		if ident_ok(n) {
			c.evals += 1;
			let sel = format!(".{}", n);
			let set = match b {
				None => w.set(&[root]).find(&sel),
				Some(b) => b.root.find(&sel),
			};
			let el = |i: Id| match b {
				None => w.el(i).cloned(),
				Some(b) => b.el(i).cloned(),
			};
			if set.length() != want.len() || !want.iter().enumerate().all(|(k, i)| set.get(k).unwrap().is(&el(*i))) {
				return Err(format!("find({:?}) in {:?} gives {} elements, expected {}", sel, w.el(root).outer_html(), set.length(), labels(w, &want)));
			}
		}
		for i in &all {
			let e = match b {
				None => w.set(&[*i]),
				Some(b) => b.set(&[*i]),
			};
			c.evals += 1;
			if e.has_class(n) != want.contains(i) {
				return Err(format!("has_class({:?}) of {} is {}, the names are {:?}", n, label(w, *i), e.has_class(n), w.m.classes(*i)));
			}
		}
	}
	Ok(())
}

fn c10(s: &mut Src, c: &mut Ctx) -> Res {
	let mut d = world_cfg();
	d.max_els = if s.chance(80) { 4 } else { 10 };
	let mut m = gen_doc(s, &d);
	if m.els().is_empty() {
		let e = m.elem("div", vec![]);
		m.push_child(0, e);
	}
	for i in m.els() {
		if s.chance(60) {
			m.del_attr(i, "class");
			let val = if s.chance(8) { None } else { Some(gen_names(s)) };
			let quote = val.as_ref().map(|_| *s.pick(&['"', '\'']));
			let name = case_variant(s, "class");
			m.attrs_mut(i).push(MAttr { name, val, quote });
		}
	}
	c.say(|| format!("load doc0: {}", m.html()));
	let mut w = World::new();
	w.load(&m)?;
	let mut changed = 0;
	for _ in 0..s.range(1, 7) {
		let ids = pick_some(s, &w);
		let names = gen_names(s);
		let list = split(&names);
		let op = s.below(3);
		let desc = format!("{}.{}_class({:?})", labels(&w, &ids), ["add", "remove", "toggle"][op], names);
		c.say(|| desc.clone());
		c.evals += 1;
		let mut set = w.set(&ids);
		match op {
			0 => drop(set.add_class(&names)),
			1 => drop(set.remove_class(&names)),
			_ => drop(set.toggle_class(&names)),
		}
		for i in &ids {
			let old = w.m.classes(*i);
			let want: Vec<String> = match op {
				0 => uniq(&old.iter().chain(list.iter()).cloned().collect::<Vec<_>>()),
				1 => uniq(&old).into_iter().filter(|x| !list.contains(x)).collect(),
				_ => {
					let o = uniq(&old);
					let l = uniq(&list);
					let mut r: Vec<String> = o.iter().filter(|x| !l.contains(x)).cloned().collect();
					r.extend(l.iter().filter(|x| !o.contains(x)).cloned());
					r
				}
			};
			let live = w.el(*i).get_attribute("class");
			let spelled = live.as_ref().and_then(attr_val);
			let got = split(spelled.as_deref().unwrap_or(""));
			let mut a = uniq(&got);
			let mut b = want.clone();
			a.sort();
			b.sort();
			if a != b {
				return Err(format!("after {}: classes of {} are {:?}, expected {:?}", desc, label(&w, *i), got, want));
			}
			for n in &uniq(&got) {
				let cnt = |v: &[String]| v.iter().filter(|x| *x == n).count();
				if cnt(&got) > cnt(&old).max(1) {
					return Err(format!("after {}: {:?} is listed {} times in the class of {}", desc, n, cnt(&got), label(&w, *i)));
				}
			}
			if uniq(&old).len() != want.len() || !want.iter().all(|x| old.contains(x)) {
				changed += 1;
			}
			// the spelling of the attribute is free, also whether an empty one stays
			match &live {
				Some(_) => w.m.set_attr(*i, "class", spelled.as_deref()),
				None => w.m.del_attr(*i, "class"),
			}
		}
		at(&format!("after {}", desc), || w.check())?;
		at(&format!("after {}", desc), || read_class(c, &w, None))?;
		// has_class of a set: some element has all the names
		let ids = gen_subset(s, &w.m, true);
		let q = gen_names(s);
		let ql = split(&q);
		let want = !ql.is_empty() && ids.iter().any(|i| {
			let cl = w.m.classes(*i);
			ql.iter().all(|x| cl.contains(x))
		});
		if w.set(&ids).has_class(&q) != want {
			return Err(format!("after {}: has_class({:?}) of {} is {}, expected {}", desc, q, labels(&w, &ids), !want, want));
		}
	}
	let b = at("at the end", || w.reload(w.roots[0]))?;
	at("loaded again", || read_class(c, &w, Some(&b)))?;
	if changed >= 2 {
		c.hit("two_changes");
	}
	Ok(())
}

pub const C10: Prop = Prop {
	id: "C10",
	run: c10,
	fixed: None,
	quick: 400_000,
	thorough: 2_000_000,
	hang_s: 60,
	rule: "a case is a generated document with class attributes of any shape (absent, valueless, empty, repeated names, any ASCII whitespace) and 1-7 add_class / remove_class / toggle_class calls with any lists of names on elements and sets; after every call all class sets, all other attributes, has_class and class selectors are compared with a set model, at the end after a reload too; non-trivial when at least two class sets changed; distinct by choice tape",
	assumptions: &[A_DOC, "class names hold no quotes; selectors are only built for names that are identifiers in the library's grammar"],
};
