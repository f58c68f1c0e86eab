//! A world of documents, fragments and detached subtrees: library handles and one model arena that
//! are mutated in lockstep. C11, C12, C13, C14, C19 run histories in it.
use super::Ctx;
use crate::model::*;
use crate::sel::gen_subset;
use crate::tape::Src;
use visdom::types::Elements;

pub struct World {
	pub m: Model,
	pub h: Vec<Option<El>>,
	/// every loaded document / fragment root, in load order; roots[0] is the main document
	pub roots: Vec<Id>,
	/// keeps the loaded documents alive
	keep: Vec<Els>,
	/// attribute values may hold entity-encoded quotes
	pub quotes: bool,
	/// text nodes are put into empty title and textarea elements
	pub boxes: bool,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Pos {
	Before,
	After,
	Append,
	Prepend,
}

impl World {
	pub fn new() -> World {
		World { m: Model::new(), h: vec![None], roots: vec![], keep: vec![], quotes: false, boxes: true }
	}
	/// loads the html of `d` and binds it
	pub fn load(&mut self, d: &Model) -> Res<Id> {
		let html = d.html();
		let els = load(&html)?;
		let r = self.m.import(d, d.root);
		while self.h.len() < self.m.n.len() {
			self.h.push(None);
		}
		let e = els.get(0).ok_or("no root")?.cloned();
		bind_at(&self.m, r, &e, &STRICT, &mut self.h).map_err(|e| format!("after loading {:?}: {}", html, e))?;
		self.keep.push(els);
		if self.roots.is_empty() {
			self.m.root = r;
		}
		self.roots.push(r);
		Ok(r)
	}
	pub fn is_root(&self, i: Id) -> bool {
		matches!(self.m.n[i].kind, Kind::Root)
	}
	pub fn root_els(&self, k: usize) -> &Els {
		&self.keep[k]
	}
	pub fn set(&self, ids: &[Id]) -> Els {
		Elements::with_nodes(ids.iter().map(|i| self.h[*i].as_ref().expect("handle").cloned()).collect())
	}
	pub fn el(&self, i: Id) -> &El {
		self.h[i].as_ref().expect("handle")
	}
	/// every element that has a handle
	pub fn els(&self) -> Vec<Id> {
		(0..self.m.n.len()).filter(|i| self.m.is_elem(*i) && self.h[*i].is_some()).collect()
	}
	/// the top of the tree that holds i
	pub fn top(&self, i: Id) -> Id {
		let mut c = i;
		while let Some(p) = self.m.n[c].parent {
			c = p;
		}
		c
	}
	pub fn tops(&self) -> Vec<Id> {
		(0..self.m.n.len())
			.filter(|i| self.h[*i].is_some() && self.m.n[*i].parent.is_none())
			.collect()
	}
	pub fn is_document(&self, r: Id) -> bool {
		self.is_root(r) && self.m.kids(r).iter().any(|k| self.m.tag(*k) == "html")
	}
	pub fn opt(&self) -> BindOpt {
		BindOpt { merge_text: false, quotes: self.quotes, attrs: true }
	}
	/// every tree (documents, fragments, detached subtrees) is exactly the model's
	pub fn check(&mut self) -> Res {
		while self.h.len() < self.m.n.len() {
			self.h.push(None);
		}
		let mut fresh: Vec<Option<El>> = (0..self.m.n.len()).map(|_| None).collect();
		for t in self.tops() {
			let e = self.h[t].as_ref().unwrap().cloned();
			if self.m.is_elem(t) {
				if e.parent().is_some() {
					return Err(format!("{} is out of every document but still has a parent", show(&self.m, t)));
				}
				let o = self.opt();
				check_attrs(&self.m, t, &e, o.quotes)?;
			}
			bind_at(&self.m, t, &e, &self.opt(), &mut fresh)?;
		}
		for i in 0..self.m.n.len() {
			match (&self.h[i], fresh[i].take()) {
				(Some(a), Some(b)) => {
					if !a.is(&b) {
						return Err(format!("the node at {} is not the node that was put there", show(&self.m, i)));
					}
				}
				(None, Some(b)) => self.h[i] = Some(b),
				(Some(_), None) => {
					return Err(format!("internal: {} has a handle but is in no tree", show(&self.m, i)));
				}
				(None, None) => {}
			}
		}
		Ok(())
	}
	/// serialises tree `t` and loads it again: same tree
	pub fn reload(&self, t: Id) -> Res<Bound> {
		let html = self.el(t).outer_html();
		let els = load(&html)?;
		let o = BindOpt { merge_text: true, quotes: self.quotes, attrs: true };
		let mut h: Vec<Option<El>> = (0..self.m.n.len()).map(|_| None).collect();
		let e = els.get(0).ok_or("no root")?.cloned();
		if self.is_root(t) {
			bind_at(&self.m, t, &e, &o, &mut h).map_err(|x| format!("serialised as {:?} and loaded again: {}", html, x))?;
		} else {
			let kids = e.children();
			if kids.length() != 1 || e.child_nodes_length() != 1 {
				return Err(format!("the outer html {:?} of one element loads as {} nodes", html, e.child_nodes_length()));
			}
			let c = kids.get(0).unwrap().cloned();
			if c.tag_name().to_ascii_lowercase() != self.m.tag(t) {
				return Err(format!("the outer html {:?} loads as <{}>", html, c.tag_name()));
			}
			check_attrs(&self.m, t, &c, self.quotes)?;
			bind_at(&self.m, t, &c, &o, &mut h).map_err(|x| format!("serialised as {:?} and loaded again: {}", html, x))?;
		}
		Ok(Bound { root: els, h })
	}
	// ---------------------------------------------------------------- model operations
	/// one content item at one target; returns false when refused
	pub fn ins_one(&mut self, t: Id, pos: Pos, c: Id) -> bool {
		let m = &mut self.m;
		if !m.is_elem(t) {
			return false;
		}
		let c_root = matches!(m.n[c].kind, Kind::Root);
		if c_root && m.kids(c).iter().any(|k| m.tag(*k) == "html") {
			return false;
		}
		if c == t || m.is_anc(c, t) {
			return false;
		}
		let mut nodes: Vec<Id> = if c_root { m.n[c].children.clone() } else { vec![c] };
		let inner = matches!(pos, Pos::Append | Pos::Prepend);
		if inner {
			let tag = m.tag(t);
			if is_void(&tag) {
				nodes.clear();
			} else if tag == "title" || tag == "textarea" {
				nodes.retain(|n| m.is_text(*n));
			}
		} else if m.n[t].parent.is_none() {
			return false;
		}
		if nodes.is_empty() {
			return false;
		}
		for n in &nodes {
			m.detach(*n);
		}
		match pos {
			Pos::Append => {
				for n in nodes {
					m.push_child(t, n);
				}
			}
			Pos::Prepend => {
				for (k, n) in nodes.into_iter().enumerate() {
					m.insert_child(t, k, n);
				}
			}
			_ => {
				let p = m.n[t].parent.unwrap();
				let at = m.index(t) + if pos == Pos::After { 1 } else { 0 };
				for (k, n) in nodes.into_iter().enumerate() {
					m.insert_child(p, at + k, n);
				}
			}
		}
		self.fix_selfclose(t);
		true
	}
	fn fix_selfclose(&mut self, t: Id) {
		if !self.m.n[t].children.is_empty() {
			if let Kind::Elem { selfclose, .. } = &mut self.m.n[t].kind {
				*selfclose = false;
			}
		}
	}
	fn dest_for(&mut self, content: &[Id], last: bool) -> Vec<Id> {
		content
			.iter()
			.map(|c| {
				if !last && self.is_root(*c) && !self.is_document(*c) {
					self.m.copy(*c)
				} else {
					*c
				}
			})
			.collect()
	}
	pub fn model_insert(&mut self, targets: &[Id], pos: Pos, content: &[Id]) -> usize {
		let mut done = 0;
		for (k, t) in targets.iter().enumerate() {
			let mut d = self.dest_for(content, k + 1 == targets.len());
			if matches!(pos, Pos::Prepend | Pos::After) {
				d.reverse();
			}
			for c in d {
				if self.ins_one(*t, pos, c) {
					done += 1;
				}
			}
		}
		done
	}
	/// content never holds an ancestor of a target here when it has several items
	pub fn model_replace(&mut self, targets: &[Id], content: &[Id]) -> usize {
		let mut done = 0;
		for (k, t) in targets.iter().enumerate() {
			let d = self.dest_for(content, k + 1 == targets.len());
			if let Some(p) = d.iter().position(|x| x == t) {
				for c in &d[..p] {
					done += self.ins_one(*t, Pos::Before, *c) as usize;
				}
				for c in d[p + 1..].iter().rev() {
					done += self.ins_one(*t, Pos::After, *c) as usize;
				}
			} else if self.m.is_elem(*t) {
				let mut any = false;
				for c in &d {
					any |= self.ins_one(*t, Pos::Before, *c);
				}
				if any {
					done += 1;
					self.m.detach(*t);
				}
			}
		}
		done
	}
	pub fn model_remove(&mut self, ids: &[Id]) -> usize {
		let mut done = 0;
		for i in ids {
			if self.m.n[*i].parent.is_some() {
				self.m.detach(*i);
				done += 1;
			}
		}
		done
	}
	pub fn model_clear(&mut self, i: Id) {
		for c in self.m.n[i].children.clone() {
			self.m.detach(c);
		}
	}
	pub fn model_set_text(&mut self, i: Id, s: &str) {
		self.model_clear(i);
		if !s.is_empty() {
			let raw = s.replace('&', "&amp;").replace('<', "&lt;").replace('>', "&gt;");
			let t = self.m.add(Kind::Text { raw, dec: s.to_string() });
			self.m.push_child(i, t);
			self.fix_selfclose(i);
		}
	}
	pub fn model_set_html(&mut self, i: Id, d: &Model) {
		if self.m.is_void(i) {
			return;
		}
		self.model_clear(i);
		for k in d.n[d.root].children.clone() {
			let c = self.m.import(d, k);
			self.m.push_child(i, c);
		}
		self.fix_selfclose(i);
	}
}

pub fn check_attrs(m: &Model, i: Id, e: &El, quotes: bool) -> Res {
	attrs_equal(m, i, e, quotes)
}

// ------------------------------------------------------------------------------------------------
// histories

/// weights of the operation kinds
#[derive(Clone)]
pub struct Ops {
	pub insert: usize,
	pub replace: usize,
	pub remove: usize,
	pub empty: usize,
	pub set_html: usize,
	pub set_text: usize,
	pub attr: usize,
	pub class: usize,
	pub clone: usize,
	pub load: usize,
	pub text: usize,
}

pub const OPS_ALL: Ops = Ops { insert: 30, replace: 10, remove: 10, empty: 4, set_html: 7, set_text: 6, attr: 12, class: 5, clone: 6, load: 5, text: 5 };
pub const OPS_INSERT: Ops = Ops { insert: 60, replace: 22, remove: 6, empty: 2, set_html: 3, set_text: 1, attr: 0, class: 0, clone: 4, load: 6, text: 0 };
pub const OPS_REMOVE: Ops = Ops { insert: 14, replace: 5, remove: 34, empty: 16, set_html: 24, set_text: 10, attr: 0, class: 0, clone: 3, load: 3, text: 0 };

/// the parser refuses these
pub const BAD_HTML: &[&str] = &["<!-- a", "<p>x</p><!--", "<script>a", "<b>1</b><style>x"];

pub fn world_cfg() -> Cfg {
	let mut c = cfg();
	c.max_els = 14;
	c.forms = true;
	c.selfclose = true;
	c
}

pub fn frag_cfg() -> Cfg {
	let mut c = world_cfg();
	c.max_els = 5;
	c.skeleton = 0;
	c
}

fn gen_frag(s: &mut Src) -> Model {
	gen_doc(s, &frag_cfg())
}

pub fn start(s: &mut Src, c: &mut Ctx, base: &Cfg) -> Res<World> {
	let mut w = World::new();
	let n = 1 + s.weighted(&[5, 3, 1]);
	for k in 0..n {
		let d = if k == 0 { gen_doc(s, base) } else { gen_doc(s, &world_cfg()) };
		c.say(|| format!("load doc{}: {}", k, d.html()));
		w.load(&d)?;
	}
	Ok(w)
}

pub fn label(w: &World, i: Id) -> String {
	let t = w.top(i);
	let k = w.roots.iter().position(|r| *r == t);
	match k {
		Some(k) => format!("doc{}:{}", k, show(&w.m, i)),
		None => format!("detached:{}", show(&w.m, i)),
	}
}
pub fn labels(w: &World, v: &[Id]) -> String {
	let s: Vec<String> = v.iter().map(|i| label(w, *i)).collect();
	format!("[{}]", s.join(", "))
}

/// 1-3 elements, any place (documents, fragments, detached trees, stale handles)
fn pick_els(s: &mut Src, w: &World, max: usize) -> Vec<Id> {
	let all = w.els();
	if all.is_empty() {
		return vec![];
	}
	let main: Vec<Id> = w.m.els().into_iter().filter(|i| w.h[*i].is_some()).collect();
	let mut n = 1 + s.weighted(&[6, 2, 1]).min(max - 1);
	if s.chance(2) && w.m.n.len() < 200 {
		n = s.range(4, 24);
	}
	let mut v: Vec<Id> = vec![];
	for _ in 0..n {
		let pool = if !main.is_empty() && s.chance(75) { &main } else { &all };
		let mut x = pool[s.below(pool.len())];
		if let Some(last) = v.last() {
			// relatives of the previous one are the interesting ones
			if s.chance(40) {
				let rel: Vec<Id> = w
					.m
					.sibs(*last)
					.into_iter()
					.chain(w.m.kids(*last))
					.chain(w.m.ancestors(*last))
					.filter(|i| w.h[*i].is_some())
					.collect();
				if !rel.is_empty() {
					x = rel[s.below(rel.len())];
				}
			}
		}
		if !v.contains(&x) {
			v.push(x);
		}
	}
	v
}

/// one operation on both sides; returns whether the model changed
pub fn step(s: &mut Src, c: &mut Ctx, w: &mut World, o: &Ops) -> Res<bool> {
	let k = s.weighted(&[
		o.insert, o.replace, o.remove, o.empty, o.set_html, o.set_text, o.attr, o.class, o.clone, o.load, o.text,
	]);
	let all = w.els();
	if all.is_empty() && k != 9 {
		return Ok(false);
	}
	match k {
		0 | 1 => {
			// content first: elements, or a fragment
			let mut content: Vec<Id>;
			if s.chance(35) {
				let d = gen_frag(s);
				c.say(|| format!("load doc{}: {}", w.roots.len(), d.html()));
				let r = w.load(&d)?;
				content = vec![r];
				if s.chance(20) {
					content.extend(pick_els(s, w, 2));
				}
			} else if s.chance(12) {
				// some root, maybe used before, maybe a whole document
				let r = w.roots[s.below(w.roots.len())];
				content = vec![r];
			} else {
				content = pick_els(s, w, 3);
			}
			let mut targets = pick_els(s, w, 3);
			if s.chance(3) {
				targets.push(w.roots[s.below(w.roots.len())]);
			}
			if s.chance(25) && content.len() == 1 && !w.is_root(content[0]) {
				// target near the content: itself, a child, its parent, a sibling
				let x = content[0];
				let mut near: Vec<Id> = vec![x];
				near.extend(w.m.kids(x));
				near.extend(w.m.sibs(x));
				near.extend(w.m.ancestors(x));
				near.retain(|i| w.h[*i].is_some());
				if !near.is_empty() {
					targets = vec![near[s.below(near.len())]];
				}
			}
			if k == 0 && w.boxes && s.chance(8) {
				// an empty title or textarea takes only the text nodes
				let boxes: Vec<Id> = all.iter().copied().filter(|i| matches!(w.m.tag(*i).as_str(), "title" | "textarea") && w.m.n[*i].children.is_empty()).collect();
				if !boxes.is_empty() {
					let d = gen_frag(s);
					c.say(|| format!("load doc{}: {}", w.roots.len(), d.html()));
					content = vec![w.load(&d)?];
					targets = vec![boxes[s.below(boxes.len())]];
					c.count("into_content_tag");
				}
			}
			let has_doctype = |w: &World, i: Id| w.m.n[i].children.iter().any(|x| matches!(w.m.n[*x].kind, Kind::Doctype));
			content.retain(|i| !(w.is_root(*i) && has_doctype(w, *i) && !w.is_document(*i)));
			// several targets take copies: histories must not grow without bound
			let load: usize = content.iter().map(|i| w.m.desc(*i).len() + 1).sum();
			if load * targets.len() > 300 || (w.m.n.len() > 800 && load * targets.len() > 8) {
				return Ok(false);
			}
			// texts are never put beside the content of a content tag; script and style take anything
			let texty = |w: &World, i: Id| w.is_root(i) && w.m.n[i].children.iter().any(|x| w.m.is_text(*x));
			let content_texty = content.iter().any(|i| texty(w, *i));
			if k == 0 {
				let pos = *s.pick(&[Pos::Append, Pos::Prepend, Pos::Before, Pos::After]);
				if matches!(pos, Pos::Append | Pos::Prepend) {
					targets.retain(|t| {
						let tag = w.m.tag(*t);
						!(tag == "script" || tag == "style" || (is_content(&tag) && content_texty && (!w.boxes || !w.m.n[*t].children.is_empty())))
					});
				}
				if targets.is_empty() || content.is_empty() {
					return Ok(false);
				}
				let swap = s.chance(30);
				let desc = format!("{}.{:?}({}){}", labels(w, &targets), pos, labels(w, &content), if swap { " (exchanged form)" } else { "" });
				c.say(|| desc.clone());
				let mut t = w.set(&targets);
				let mut n = w.set(&content);
				match (pos, swap) {
					(Pos::Append, false) => drop(t.append(&mut n)),
					(Pos::Append, true) => drop(n.append_to(&mut t)),
					(Pos::Prepend, false) => drop(t.prepend(&mut n)),
					(Pos::Prepend, true) => drop(n.prepend_to(&mut t)),
					(Pos::Before, false) => drop(t.before(&mut n)),
					(Pos::Before, true) => drop(n.insert_before(&mut t)),
					(Pos::After, false) => drop(t.after(&mut n)),
					(Pos::After, true) => drop(n.insert_after(&mut t)),
				}
				let done = w.model_insert(&targets, pos, &content);
				c.count(if done > 0 { "insert" } else { "insert_refused" });
				w.check().map_err(|e| format!("after {}: {}", desc, e))?;
				Ok(done > 0)
			} else {
				if content.len() > 1 {
					content.retain(|x| !targets.iter().any(|t| w.m.is_anc(*x, *t)));
					content.retain(|x| !w.is_root(*x) || (!w.m.n[*x].children.is_empty() && !w.is_document(*x)));
					// several contents for several targets: a target may end inside a content
					targets.truncate(1);
				}
				if targets.is_empty() || content.is_empty() {
					return Ok(false);
				}
				let desc = format!("{}.replace_with({})", labels(w, &targets), labels(w, &content));
				c.say(|| desc.clone());
				let mut t = w.set(&targets);
				let mut n = w.set(&content);
				if targets.len() == 1 && content.len() == 1 && s.chance(15) {
					// the element's own method
					c.say(|| "  (on the element)".to_string());
					w.el(targets[0]).cloned().replace_with(w.el(content[0]));
				} else {
					t.replace_with(&mut n);
				}
				let done = w.model_replace(&targets, &content);
				c.count(if done > 0 { "replace" } else { "replace_refused" });
				w.check().map_err(|e| format!("after {}: {}", desc, e))?;
				Ok(done > 0)
			}
		}
		2 => {
			let ids = if s.chance(30) { gen_subset(s, &w.m, false) } else { pick_els(s, w, 3) };
			let ids: Vec<Id> = ids.into_iter().filter(|i| w.h[*i].is_some()).collect();
			if ids.len() == 1 && s.chance(15) {
				// remove_child of the trait, also with a wrong parent
				let p = if s.chance(60) { w.m.n[ids[0]].parent } else { Some(all[s.below(all.len())]) };
				if let Some(p) = p {
					let desc = format!("{}.remove_child({})", label(w, p), label(w, ids[0]));
					c.say(|| desc.clone());
					let e = w.el(ids[0]).cloned();
					w.el(p).cloned().remove_child(e);
					let real = w.m.n[ids[0]].parent == Some(p);
					if real {
						w.m.detach(ids[0]);
					}
					w.check().map_err(|e| format!("after {}: {}", desc, e))?;
					c.count(if real { "remove" } else { "remove_refused" });
					return Ok(real);
				}
			}
			let desc = format!("{}.remove()", labels(w, &ids));
			c.say(|| desc.clone());
			w.set(&ids).remove();
			let done = w.model_remove(&ids);
			c.count(if done > 0 { "remove" } else { "remove_again" });
			w.check().map_err(|e| format!("after {}: {}", desc, e))?;
			Ok(done > 0)
		}
		3 => {
			let ids = pick_els(s, w, 3);
			let desc = format!("{}.empty()", labels(w, &ids));
			c.say(|| desc.clone());
			w.set(&ids).empty();
			for i in &ids {
				w.model_clear(*i);
			}
			c.count("empty");
			w.check().map_err(|e| format!("after {}: {}", desc, e))?;
			Ok(true)
		}
		4 => {
			let mut ids = pick_els(s, w, 3);
			let plain = s.chance(10);
			let d = if s.chance(8) { Model::new() } else { gen_frag(s) };
			if !plain {
				ids.retain(|i| !w.m.is_content(*i));
			}
			if ids.is_empty() {
				return Ok(false);
			}
			if plain {
				let t = s.picks(&["x", "foo bar", "1"]);
				let desc = format!("{}.set_html({:?})", labels(w, &ids), t);
				c.say(|| desc.clone());
				w.set(&ids).set_html(t);
				for i in &ids {
					if !w.m.is_void(*i) {
						w.model_set_text(*i, t);
					}
				}
				w.check().map_err(|e| format!("after {}: {}", desc, e))?;
				return Ok(true);
			}
			if s.chance(3) {
				// html that cannot be parsed changes nothing
				let bad = s.picks(BAD_HTML);
				let desc = format!("{}.set_html({:?})", labels(w, &ids), bad);
				c.say(|| desc.clone());
				w.set(&ids).set_html(bad);
				c.count("set_html_refused");
				w.check().map_err(|e| format!("after {}: {}", desc, e))?;
				return Ok(false);
			}
			let html = d.html();
			let desc = format!("{}.set_html({:?})", labels(w, &ids), html);
			c.say(|| desc.clone());
			if s.chance(15) {
				for i in &ids {
					w.el(*i).cloned().set_html(&html);
				}
			} else {
				w.set(&ids).set_html(&html);
			}
			for i in &ids {
				w.model_set_html(*i, &d);
			}
			c.count("set_html");
			w.check().map_err(|e| format!("after {}: {}", desc, e))?;
			Ok(true)
		}
		5 => {
			let mut ids = pick_els(s, w, 3);
			ids.retain(|i| !w.m.is_void(*i));
			if ids.is_empty() {
				return Ok(false);
			}
			let plain = ids.iter().any(|i| w.m.is_content(*i));
			let t = if plain { s.picks(&["x", "foo bar"]) } else { s.picks(&["x", "a<b>&c", "  ", "&amp;", "中文 é", "\"q'"]) };
			let desc = format!("{}.set_text({:?})", labels(w, &ids), t);
			c.say(|| desc.clone());
			if s.chance(15) {
				for i in &ids {
					w.el(*i).cloned().set_text(t);
				}
			} else {
				w.set(&ids).set_text(t);
			}
			for i in &ids {
				w.model_set_text(*i, t);
			}
			c.count("set_text");
			w.check().map_err(|e| format!("after {}: {}", desc, e))?;
			Ok(true)
		}
		6 => {
			let ids = pick_els(s, w, 3);
			let name = s.picks(&["id", "id", "title", "lang", "data-x", "value", "selected", "checked", "multiple", "type", "href", "ID", "Lang"]);
			if s.chance(25) {
				let desc = format!("{}.remove_attr({:?})", labels(w, &ids), name);
				c.say(|| desc.clone());
				w.set(&ids).remove_attr(name);
				for i in &ids {
					w.m.del_attr(*i, name);
				}
				w.check().map_err(|e| format!("after {}: {}", desc, e))?;
			} else {
				let v: Option<&str> = if s.chance(12) {
					None
				} else if name.eq_ignore_ascii_case("id") {
					Some(s.picks(IDS))
				} else if name == "type" {
					Some(s.picks(&["checkbox", "radio", "submit", "text"]))
				} else {
					Some(s.picks(AVALS))
				};
				let desc = format!("{}.set_attr({:?}, {:?})", labels(w, &ids), name, v);
				c.say(|| desc.clone());
				w.set(&ids).set_attr(name, v);
				for i in &ids {
					w.m.set_attr(*i, name, v);
				}
				w.check().map_err(|e| format!("after {}: {}", desc, e))?;
			}
			c.count("attr");
			Ok(true)
		}
		7 => {
			let ids = pick_els(s, w, 3);
			let name = s.picks(CLASSES);
			let how = s.weighted(&[5, 3, 3]);
			let desc = format!("{}.{}_class({:?})", labels(w, &ids), ["add", "remove", "toggle"][how], name);
			c.say(|| desc.clone());
			match how {
				0 => drop(w.set(&ids).add_class(name)),
				1 => drop(w.set(&ids).remove_class(name)),
				_ => drop(w.set(&ids).toggle_class(name)),
			}
			for i in &ids {
				let add = how == 0 || (how == 2 && !w.m.classes(*i).iter().any(|x| x == name));
				let cl = w.m.classes(*i);
				let had = w.m.attr(*i, "class").is_some();
				if add {
					let mut cl = cl;
					if !cl.iter().any(|x| x == name) {
						cl.push(name.to_string());
					}
					sync_class(w, *i, &cl)?;
				} else if had {
					let cl: Vec<String> = cl.into_iter().filter(|x| x != name).collect();
					sync_class(w, *i, &cl)?;
				}
			}
			c.count("class");
			w.check().map_err(|e| format!("after {}: {}", desc, e))?;
			Ok(true)
		}
		8 => {
			let mut ids = pick_els(s, w, 3);
			if s.chance(10) {
				ids = vec![w.roots[s.below(w.roots.len())]];
			}
			let load: usize = ids.iter().map(|i| w.m.desc(*i).len() + 1).sum();
			if w.m.n.len() > 400 || load > 300 {
				return Ok(false);
			}
			clone_op(c, w, &ids)?;
			Ok(true)
		}
		9 => {
			let d = gen_frag(s);
			c.say(|| format!("load doc{}: {}", w.roots.len(), d.html()));
			w.load(&d)?;
			Ok(false)
		}
		_ => text_op(s, c, w),
	}
}

/// after a class operation: the library may respell the class attribute; the set of names must be `cl`
fn sync_class(w: &mut World, i: Id, cl: &[String]) -> Res {
	let live = match w.el(i).get_attribute("class") {
		Some(v) => attr_val(&v),
		None => {
			if cl.is_empty() {
				w.m.del_attr(i, "class");
				return Ok(());
			}
			return Err(format!("{} has no class attribute, expected classes {:?}", label(w, i), cl));
		}
	};
	let got: Vec<String> = live.as_deref().unwrap_or("").split_ascii_whitespace().map(|s| s.to_string()).collect();
	let norm = |v: &[String]| {
		let mut v = v.to_vec();
		v.sort();
		v.dedup();
		v
	};
	if norm(&got) != norm(cl) {
		return Err(format!("{} has classes {:?}, expected {:?}", label(w, i), got, cl));
	}
	w.m.set_attr(i, "class", live.as_deref());
	Ok(())
}

pub fn clone_op(c: &mut Ctx, w: &mut World, ids: &[Id]) -> Res<Vec<Id>> {
	let desc = format!("{}.clone()", labels(w, ids));
	c.say(|| desc.clone());
	let src = w.set(ids);
	let copy = src.clone();
	if copy.length() != ids.len() {
		return Err(format!("{} has {} elements", desc, copy.length()));
	}
	let mut made = vec![];
	for (k, i) in ids.iter().enumerate() {
		let j = w.m.copy(*i);
		while w.h.len() < w.m.n.len() {
			w.h.push(None);
		}
		let e = copy.get(k).unwrap().cloned();
		if e.is(w.el(*i)) {
			return Err(format!("{}: element {} of the copy is the same node", desc, k));
		}
		if e.parent().is_some() {
			return Err(format!("{}: element {} of the copy has a parent", desc, k));
		}
		if e.outer_html() != w.el(*i).outer_html() {
			return Err(format!("{}: outer html {:?}, original {:?}", desc, e.outer_html(), w.el(*i).outer_html()));
		}
		if e.text() != w.el(*i).text() {
			return Err(format!("{}: text {:?}, original {:?}", desc, e.text(), w.el(*i).text()));
		}
		w.h[j] = Some(e);
		made.push(j);
	}
	w.check().map_err(|e| format!("after {}: {}", desc, e))?;
	// no node of the copy is a node of the original
	for (k, i) in ids.iter().enumerate() {
		let a = w.m.desc_els(*i);
		let b = w.m.desc_els(made[k]);
		for (x, y) in a.iter().zip(&b) {
			if w.el(*x).is(w.el(*y)) {
				return Err(format!("{}: {} is shared with the copy", desc, label(w, *x)));
			}
		}
	}
	c.count("clone");
	Ok(made)
}

/// edits one text node, found through texts()
fn text_op(s: &mut Src, c: &mut Ctx, w: &mut World) -> Res<bool> {
	let ids: Vec<Id> = w.els().into_iter().filter(|i| !w.m.is_content(*i)).collect();
	if ids.is_empty() {
		return Ok(false);
	}
	let i = ids[s.below(ids.len())];
	let kids: Vec<Id> = w.m.n[i].children.iter().copied().filter(|k| w.m.is_text(*k)).collect();
	if kids.is_empty() {
		return Ok(false);
	}
	let t = kids[s.below(kids.len())];
	let at = w.m.index(t);
	let node = w.el(i).child_nodes_item(at).ok_or("no child node")?;
	let mut text = node.typed().into_text().ok_or_else(|| format!("child {} of {} is not a text", at, label(w, i)))?;
	let add = s.picks(&["x", " foo", "1 "]);
	let k = s.below(4);
	let what = ["append_text", "prepend_text", "set_text", "remove"][k];
	let desc = format!("{}.{}({:?})", label(w, t), what, add);
	c.say(|| desc.clone());
	match k {
		0 => text.append_text(add),
		1 => text.prepend_text(add),
		2 => text.set_text(add),
		_ => text.remove(),
	}
	if k == 3 {
		w.m.detach(t);
	} else if let Kind::Text { raw, dec } = &mut w.m.n[t].kind {
		for x in [raw, dec] {
			match k {
				0 => x.push_str(add),
				1 => *x = format!("{}{}", add, x),
				_ => *x = add.to_string(),
			}
		}
	}
	c.count("text");
	w.check().map_err(|e| format!("after {}: {}", desc, e))?;
	Ok(true)
}
