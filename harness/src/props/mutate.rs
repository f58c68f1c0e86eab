//! C11..C14, C19: mutation histories in a World.
use super::query::at;
use super::world::*;
use super::{Ctx, Prop};
use crate::model::*;
use crate::sel::*;
use crate::tape::Src;

const A_HIST: &str = "histories of 3-14 operations (thorough: up to 40) over 1-3 loaded documents of up to about 14 elements each plus loaded fragments and clones; document roots are kept alive (parents are weak references)";
const A_TARGET: &str = "nothing is inserted into script or style, text is not inserted beside the raw content of title or textarea, void elements get no text; doctype nodes are not moved";

fn hist_len(s: &mut Src) -> usize {
	match s.weighted(&[70, 26, 4]) {
		0 => s.range(2, 7),
		1 => s.range(6, 14),
		_ => s.range(14, 36),
	}
}

fn run_hist(s: &mut Src, c: &mut Ctx, w: &mut World, ops: &Ops) -> Res<usize> {
	let n = hist_len(s);
	let mut changed = 0;
	for _ in 0..n {
		c.evals += 1;
		if step(s, c, w, ops)? {
			changed += 1;
		}
	}
	Ok(changed)
}

fn reload_all(c: &mut Ctx, w: &World) -> Res {
	for t in w.tops() {
		c.evals += 1;
		at(&format!("tree of {}", label(w, t)), || w.reload(t).map(|_| ()))?;
	}
	Ok(())
}

fn c11(s: &mut Src, c: &mut Ctx) -> Res {
	let mut w = start(s, c, &world_cfg())?;
	let n = run_hist(s, c, &mut w, &OPS_INSERT)?;
	reload_all(c, &w)?;
	if n >= 2 {
		c.hit("history");
	}
	Ok(())
}
pub const C11: Prop = Prop {
	id: "C11",
	run: c11,
	fixed: None,
	quick: 280_000,
	thorough: 900_000,
	hang_s: 60,
	rule: "a case is a generated world of documents and a history dominated by insertions and replacements (elements of the same or another document, detached and stale ones, clones, loaded fragments; targets that contain, are contained in or are siblings of the content), checked node by node (kind, name, attributes, text, parent, index, identity) against the model after every operation and through a reload at the end; non-trivial when at least two operations changed the model; distinct by choice tape",
	assumptions: &[A_HIST, A_TARGET],
};

fn c12(s: &mut Src, c: &mut Ctx) -> Res {
	let mut w = start(s, c, &world_cfg())?;
	let n = run_hist(s, c, &mut w, &OPS_REMOVE)?;
	// nothing removed is reachable, everything that is in the document is found, in order
	for r in w.roots.clone() {
		w.m.root = r;
		let want = w.m.els();
		let got = w.set(&[r]).find("*");
		c.evals += 1;
		if got.length() != want.len() || !want.iter().enumerate().all(|(k, i)| got.get(k).unwrap().is(w.el(*i))) {
			return Err(format!("find(\"*\") gives {} elements, the document has {}", got.length(), want.len()));
		}
	}
	w.m.root = w.roots[0];
	reload_all(c, &w)?;
	if n >= 2 {
		c.hit("history");
	}
	Ok(())
}
pub const C12: Prop = Prop {
	id: "C12",
	run: c12,
	fixed: None,
	quick: 280_000,
	thorough: 900_000,
	hang_s: 60,
	rule: "a case is a generated world of documents and a history dominated by remove, empty, set_html and set_text on element sets (nested, overlapping, already removed), checked node by node against the model after every operation and through a reload at the end; non-trivial when at least two operations changed the model; distinct by choice tape",
	assumptions: &[A_HIST, A_TARGET],
};

fn view(w: &World, top: Id) -> Res<Bound> {
	let mut h: Vec<Option<El>> = (0..w.m.n.len()).map(|_| None).collect();
	h[top] = Some(w.el(top).cloned());
	for i in w.m.desc_els(top) {
		h[i] = Some(w.el(i).cloned());
	}
	Ok(Bound { root: w.set(&[top]), h })
}

/// the same query on the live tree and on its reloaded serialisation, both against the model
fn c13(s: &mut Src, c: &mut Ctx) -> Res {
	let mut w = start(s, c, &world_cfg())?;
	let changed = run_hist(s, c, &mut w, &OPS_ALL)?;
	// the main document, sometimes another tree
	let mut tops = vec![w.roots[0]];
	if s.chance(40) {
		let t = w.tops();
		tops.push(t[s.below(t.len())]);
	}
	let mut hit = false;
	for top in tops {
		w.m.root = top;
		let live = view(&w, top)?;
		let re = at(&format!("tree of {}", label(&w, top)), || w.reload(top))?;
		let m = &w.m;
		let all = m.els();
		let is_root = w.is_root(top);
		for _ in 0..s.range(3, 6) {
			let ctx: Vec<Id> = if s.chance(50) || all.is_empty() { vec![top] } else { gen_subset(s, m, false) };
			let ctx = if ctx.contains(&top) { vec![top] } else { ctx };
			let mut cand: Vec<Id> = vec![];
			for i in &ctx {
				cand.extend(m.desc_els(*i));
			}
			let target = if cand.is_empty() { None } else { Some(cand[s.below(cand.len())]) };
			let g = gen_group(s, m, &MIXED, target, &ctx);
			let text = p_group(s, &g);
			// the top of a detached tree has no sibling list: structural selectors that may look at it are unspecified
			let structural = !is_root && (text.contains("-child") || text.contains("-of-type") || text.contains("-CHILD") || text.contains("-OF-TYPE"));
			if structural && (text.contains(":not") || text.contains(":has")) {
				continue;
			}
			let want = ref_find(m, &ctx, &g);
			c.say(|| format!("{}.find({:?}) -> {}", show_all(m, &ctx), text, want.len()));
			for (name, b) in [("live", &live), ("reloaded", &re)] {
				c.evals += 1;
				at(&format!("{}: {}.find({:?}) on {:?}", name, show_all(m, &ctx), text, w.el(top).outer_html()), || {
					b.same(m, &b.set(&ctx).find(&text), &want)
				})?;
			}
			if !want.is_empty() && want.len() < all.len() {
				hit = true;
			}
			if all.is_empty() {
				continue;
			}
			// filtering and relatives
			let mut sub = gen_subset(s, m, false);
			// the top of a detached tree has no siblings and no parent: structural selectors do not apply
			sub.retain(|i| *i != top);
			if sub.is_empty() {
				continue;
			}
			// matching of ancestors outside the set needs a document above
			let keep: Vec<Id> = sub.iter().copied().filter(|i| m_group(m, *i, &g)).collect();
			let q = s.below(8);
			let wantq: Vec<Id> = match q {
				0 => keep.clone(),
				1 => m.doc_order(sub.iter().flat_map(|i| m.kids(*i)).collect()),
				2 => m.doc_order(sub.iter().flat_map(|i| m.ancestors(*i)).collect()),
				3 => m.doc_order(sub.iter().flat_map(|i| m.sibs(*i)[m.sib_pos(*i) + 1..].to_vec()).collect()),
				4 => m.doc_order(sub.iter().flat_map(|i| m.sibs(*i)[..m.sib_pos(*i)].to_vec()).collect()),
				5 => m.doc_order(
					sub
						.iter()
						.filter_map(|i| {
							let mut v = vec![*i];
							v.extend(m.ancestors(*i));
							v.into_iter().find(|x| m_group(m, *x, &g))
						})
						.collect(),
				),
				6 => m.doc_order(sub.iter().filter_map(|i| m.parent_el(*i)).collect()),
				_ => m.doc_order(sub.iter().flat_map(|i| m.sibs(*i).into_iter().filter(|x| x != i).collect::<Vec<_>>()).collect()),
			};
			if structural && matches!(q, 0 | 5) && (q == 5 || !g.iter().all(|x| x.rest.is_empty())) {
				continue;
			}
			for (name, b) in [("live", &live), ("reloaded", &re)] {
				if name == "reloaded" && !is_root && matches!(q, 2 | 5 | 6) {
					continue;
				}
				let set = b.set(&sub);
				c.evals += 1;
				let (op, got) = match q {
					0 => ("filter", set.filter(&text)),
					1 => ("children", set.children("")),
					2 => ("parents", set.parents("")),
					3 => ("next_all", set.next_all("")),
					4 => ("prev_all", set.prev_all("")),
					5 => ("closest", set.closest(&text)),
					6 => ("parent", set.parent("")),
					_ => ("siblings", set.siblings("")),
				};
				at(&format!("{}: {}.{} ({:?}) on {:?}", name, show_all(m, &sub), op, text, w.el(top).outer_html()), || b.same(m, &got, &wantq))?;
			}
		}
		// values and texts are the same on both
		for i in all.iter().copied().filter(|_| s.chance(40)) {
			c.evals += 2;
			let (a, b) = (live.el(i), re.el(i));
			if a.text() != b.text() || a.text() != m.text_of(i) {
				return Err(format!("text of {}: live {:?}, reloaded {:?}, expected {:?}", show(m, i), a.text(), b.text(), m.text_of(i)));
			}
			let (va, vb) = (a.value().to_string(), b.value().to_string());
			if unq(&va) != unq(&vb) {
				return Err(format!("value of {}: live {:?}, reloaded {:?}", show(m, i), va, vb));
			}
		}
		// a copied root belongs to no document of its own
		if w.roots.contains(&top) {
			for id in IDS {
				let want = all.iter().copied().find(|i| m.attr(*i, "id") == Some(Some(id)));
				for (name, b) in [("live", &live), ("reloaded", &re)] {
					c.evals += 1;
					let doc = b.root.document().ok_or("no document")?;
					let got = doc.get_element_by_id(id);
					let ok = match (&got, want) {
						(None, None) => true,
						(Some(e), Some(i)) => b.el(i).is(e),
						_ => false,
					};
					if !ok {
						return Err(format!(
							"{}: get_element_by_id({:?}) gives {:?}, expected {:?} in {:?}",
							name,
							id,
							got.map(|e| e.outer_html()),
							want.map(|i| show(m, i)),
							w.el(top).outer_html()
						));
					}
				}
			}
		}
	}
	if changed >= 2 && hit {
		c.hit("mutated_and_matched");
	}
	Ok(())
}
pub const C13: Prop = Prop {
	id: "C13",
	run: c13,
	fixed: None,
	quick: 150_000,
	thorough: 700_000,
	hang_s: 60,
	rule: "a case is a generated world, a history of mutations of every kind, then queries (generated selectors through find/filter/closest, relatives, texts, values, lookup by id) evaluated on the live document and on its serialised-and-reloaded copy, both compared with the model; non-trivial when at least two operations changed the model and some query selects a non-empty proper subset; distinct by choice tape",
	assumptions: &[A_HIST, A_TARGET],
};

fn c14(s: &mut Src, c: &mut Ctx) -> Res {
	let mut w = start(s, c, &world_cfg())?;
	let mut ops = OPS_ALL.clone();
	for _ in 0..s.below(3) {
		c.evals += 1;
		step(s, c, &mut w, &ops)?;
	}
	// the copies
	let mut made = vec![];
	for _ in 0..s.range(1, 2) {
		let all = w.els();
		let ids: Vec<Id> = if s.chance(15) || all.is_empty() {
			vec![w.roots[s.below(w.roots.len())]]
		} else if s.chance(40) {
			gen_subset(s, &w.m, false).into_iter().filter(|i| w.h[*i].is_some()).take(4).collect()
		} else {
			vec![all[s.below(all.len())]]
		};
		c.evals += 1;
		made.extend(clone_op(c, &mut w, &ids)?);
	}
	// a copied root is not a document of its own: it has no place for `find` from the document
	ops.load = 2;
	ops.clone = 4;
	let mut n = 0;
	for _ in 0..hist_len(s) {
		c.evals += 1;
		// World::check compares every tree, so a change that leaks to the other side is seen
		if step(s, c, &mut w, &ops)? {
			n += 1;
		}
	}
	// queries inside a copy see the copy only
	for t in made {
		if w.m.n[t].parent.is_some() {
			continue;
		}
		let want = w.m.desc_els(t);
		let got = w.set(&[t]).find("*");
		c.evals += 1;
		if got.length() != want.len() || !want.iter().enumerate().all(|(k, i)| got.get(k).unwrap().is(w.el(*i))) {
			return Err(format!("find(\"*\") in the copy {} gives {} elements, it has {}", label(&w, t), got.length(), want.len()));
		}
	}
	reload_all(c, &w)?;
	if n >= 2 {
		c.hit("history");
	}
	Ok(())
}
pub const C14: Prop = Prop {
	id: "C14",
	run: c14,
	fixed: None,
	quick: 200_000,
	thorough: 800_000,
	hang_s: 60,
	rule: "a case is a generated world, some mutations, copies of single elements, sets or whole roots (compared for equality and disjointness), then mutations on originals and copies; after every operation every tree is compared with the model, so a change that reaches the other side is seen; non-trivial when at least two operations after the copies changed the model; distinct by choice tape",
	assumptions: &[A_HIST, A_TARGET],
};

// ------------------------------------------------------------------------------------------------

fn same_opt(w: &World, what: &str, got: &Option<El>, want: Option<Id>) -> Res {
	let ok = match (got, want) {
		(None, None) => true,
		(Some(e), Some(i)) => w.el(i).is(e),
		_ => false,
	};
	if ok {
		return Ok(());
	}
	Err(format!(
		"{} gives {:?}, expected {:?} in {:?}",
		what,
		got.as_ref().map(|e| e.outer_html()),
		want.map(|i| label(w, i)),
		w.el(w.m.root).outer_html()
	))
}

fn accessors(s: &mut Src, c: &mut Ctx, w: &mut World) -> Res {
	for k in 0..w.roots.len() {
		let r = w.roots[k];
		w.m.root = r;
		let all = w.m.els();
		// any element leads to the document
		let via: Id = if all.is_empty() || s.chance(30) { r } else { all[s.below(all.len())] };
		let set = w.set(&[via]);
		let doc = match set.document() {
			Some(d) => d,
			None => return Err(format!("{} has no document", label(w, via))),
		};
		c.evals += 8;
		let root = doc.get_root_node();
		let root = root.typed().into_element().ok_or("root node is not an element")?;
		if !root.is(w.el(r)) {
			return Err(format!("the document of {} has another root", label(w, via)));
		}
		match w.el(via).root_element() {
			Some(e) if e.is(w.el(r)) => {}
			_ => return Err(format!("root_element of {} is not the root", label(w, via))),
		}
		match w.el(via).owner_document() {
			Some(d) if d.get_root_node().typed().into_element().map_or(false, |e| e.is(w.el(r))) => {}
			_ => return Err(format!("owner_document of {} is not the document", label(w, via))),
		}
		let first = |w: &World, t: &str| all.iter().copied().find(|i| w.m.tag(*i) == t);
		same_opt(w, "document_element()", &doc.document_element(), first(w, "html"))?;
		same_opt(w, "head()", &doc.head(), first(w, "head"))?;
		same_opt(w, "body()", &doc.body(), first(w, "body"))?;
		for id in IDS.iter().chain(&["zz", "a ", "mai", "main1", "#a"]) {
			let want = all.iter().copied().find(|i| w.m.attr(*i, "id") == Some(Some(id)));
			same_opt(w, &format!("get_element_by_id({:?})", id), &doc.get_element_by_id(id), want)?;
		}
		let titles: Option<Vec<Id>> = first(w, "head").map(|h| w.m.desc_els(h).into_iter().filter(|i| w.m.tag(*i) == "title").collect());
		let want: Option<String> = match titles {
			Some(t) if !t.is_empty() => Some(t.iter().map(|i| w.m.text_of(*i)).collect()),
			_ => None,
		};
		let got = doc.title();
		if got != want {
			return Err(format!("title() is {:?}, expected {:?} in {:?}", got, want, w.el(r).outer_html()));
		}
		// current markup
		let code = doc.source_code();
		let els = load(&code)?;
		let o = BindOpt { merge_text: true, quotes: w.quotes, attrs: true };
		let mut h: Vec<Option<El>> = (0..w.m.n.len()).map(|_| None).collect();
		bind_at(&w.m, r, els.get(0).unwrap(), &o, &mut h).map_err(|e| format!("source_code() {:?} loaded again: {}", code, e))?;
		if titles_or(&want) || first(w, "body").is_some() || all.iter().any(|i| w.m.attr(*i, "id").is_some()) {
			c.hit("accessors_found");
		}
	}
	w.m.root = w.roots[0];
	Ok(())
}
fn titles_or(t: &Option<String>) -> bool {
	t.is_some()
}

fn c19(s: &mut Src, c: &mut Ctx) -> Res {
	let mut d = world_cfg();
	d.skeleton = 70;
	if s.chance(30) {
		d.skeleton = 0;
		d.tags = &["div", "head", "body", "html", "title", "p", "HEAD", "Body"];
	}
	let mut w = start(s, c, &d)?;
	accessors(s, c, &mut w)?;
	for _ in 0..s.range(1, 3) {
		let mut o = OPS_ALL.clone();
		o.attr = 30;
		for _ in 0..s.range(1, 3) {
			c.evals += 1;
			step(s, c, &mut w, &o)?;
		}
		accessors(s, c, &mut w)?;
	}
	Ok(())
}
pub const C19: Prop = Prop {
	id: "C19",
	run: c19,
	fixed: None,
	quick: 180_000,
	thorough: 700_000,
	hang_s: 60,
	rule: "a case is a generated world (documents with html/head/title/body, fragments with any of these tags anywhere, duplicate ids) whose accessors are compared with the model right after loading and after each of 1-3 batches of mutations; non-trivial when some accessor has an element to return; distinct by choice tape",
	assumptions: &[A_HIST, A_TARGET, "with several title elements in the first head, title() is their concatenated text"],
};
