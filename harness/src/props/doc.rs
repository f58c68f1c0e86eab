//! C07, C08, C15, C16: loading, serialising, text, text nodes, form values.
use super::query::{at, big_cfg};
use super::world::*;
use super::{probe, Ctx, Prop};
use crate::model::*;
use crate::sel::gen_subset;
use crate::tape::Src;
use std::cell::RefCell;
use std::rc::Rc;
use visdom::html::ParseOptions;
use visdom::types::{BoxDynElement, BoxDynText, Elements, IFormValue, Texts};
use visdom::Vis;

const A_DOC: &str = "documents are trees generated from the model's grammar (elements, void, content and self-closed tags, texts with entities, comments, doctype, attributes in mixed case and quoting), up to about 40 elements per case";
const A_TITLE: &str = "the content of title and textarea holds no markup or entity characters (see the known finding about them)";

// ------------------------------------------------------------------------------------------------
// C07

/// raw content of script and style
fn spice_content(s: &mut Src, m: &mut Model) {
	for i in m.els() {
		let t = m.tag(i);
		if (t == "script" || t == "style") && s.chance(70) {
			for k in m.n[i].children.clone() {
				m.detach(k);
			}
			let w = s.picks(&[
				"if (a < b && c > d) { x = \"<p class='c1'>\"; }",
				"a > b { content: '&lt;' }",
				"<!-- x -->",
				"var s = '<\\/div>' + \"</p>\";",
				"&amp; &copy;",
				"/* <b> */",
				"\n  x\n",
			]);
			let k = m.text(w);
			m.push_child(i, k);
		}
	}
}

const MERGE: BindOpt = BindOpt { merge_text: true, quotes: false, attrs: true };

fn same_tree(m: &Model, what: &str, html: &str) -> Res {
	let els = load(html)?;
	bind_with(m, els, &MERGE).map(|_| ()).map_err(|e| format!("{} {:?} loaded again: {}", what, html, e))
}

/// the subtree of `i` (outer) or its children (inner) as a document of its own
fn sub_model(m: &Model, ids: &[Id], inner: bool) -> Model {
	let mut d = Model::new();
	for i in ids {
		if inner {
			for k in &m.n[*i].children {
				let c = d.import(m, *k);
				d.push_child(0, c);
			}
		} else {
			let c = d.import(m, *i);
			d.push_child(0, c);
		}
	}
	d
}

fn no_handler_call(html: &str) -> Res<Els> {
	let called = Rc::new(RefCell::new(0));
	let c2 = called.clone();
	let els = Vis::load_catch(html.to_string(), Box::new(move |_| *c2.borrow_mut() += 1));
	if *called.borrow() != 0 {
		return Err(format!("load_catch reports an error for the well-formed {:?}", html));
	}
	Ok(els)
}

fn c07_structured(s: &mut Src, c: &mut Ctx) -> Res {
	let mut d = big_cfg(s, cfg());
	d.entity = true;
	d.forms = s.chance(30);
	d.selfclose = s.chance(50);
	d.skeleton = 30;
	let mut m = gen_doc(s, &d);
	spice_content(s, &mut m);
	let html = m.html();
	c.say(|| format!("html: {}", html));
	// what the markup denotes
	let b = load_bound(&m)?;
	c.evals += 1;
	// a second way to load it
	match s.below(3) {
		0 => {
			let els = no_handler_call(&html)?;
			bind_with(&m, els, &STRICT).map_err(|e| format!("load_catch({:?}): {}", html, e))?;
			c.evals += 1;
		}
		1 if !d.selfclose => {
			let els = Vis::load_options(html.clone(), ParseOptions::default()).map_err(|e| format!("load_options({:?}, default) failed: {}", html, e))?;
			bind_with(&m, els, &STRICT).map_err(|e| format!("load_options({:?}, default): {}", html, e))?;
			c.evals += 1;
		}
		_ => {}
	}
	// whole document
	let out = b.root.outer_html();
	same_tree(&m, "outer_html", &out)?;
	let again = load(&out)?.outer_html();
	if again != out {
		return Err(format!("outer_html {:?} becomes {:?} after one more round", out, again));
	}
	let doc = b.root.document().ok_or("no document")?;
	let code = doc.source_code();
	same_tree(&m, "source_code", &code)?;
	if b.root.outer_htmls() != out {
		return Err(format!("outer_htmls of the root is {:?}, outer_html {:?}", b.root.outer_htmls(), out));
	}
	c.evals += 4;
	let all = m.els();
	if all.is_empty() {
		return Ok(());
	}
	for _ in 0..s.range(1, 4) {
		let ids = gen_subset(s, &m, false);
		let set = b.set(&ids);
		c.evals += 4;
		// each element
		let mut inner = String::new();
		let mut outer = String::new();
		for i in ids.iter().take(4) {
			let e = b.el(*i);
			same_tree(&sub_model(&m, &[*i], false), &format!("outer_html of {}", show(&m, *i)), &e.outer_html())?;
			if m.is_content(*i) {
				if e.inner_html() != m.text_of(*i) {
					return Err(format!("inner_html of {} is {:?}, expected {:?}", show(&m, *i), e.inner_html(), m.text_of(*i)));
				}
			} else {
				let is = &sub_model(&m, &[*i], true);
				same_tree(is, &format!("inner_html of {}", show(&m, *i)), &e.inner_html())?;
			}
			let (oh, ih) = (e.outer_html(), e.inner_html());
			let head = oh.rfind("</").and_then(|p| oh[..p].strip_suffix(ih.as_str()));
			if !m.is_void(*i) && !oh.ends_with("/>") && !m.is_content(*i) && !head.map_or(false, |h| h.starts_with('<') && h.ends_with('>')) {
				return Err(format!("outer_html() of {} is {:?}, which is not its inner_html() {:?} between its tags", show(&m, *i), oh, ih));
			}
			if e.html() != e.inner_html() {
				return Err(format!("html() of {} is {:?}, inner_html() {:?}", show(&m, *i), e.html(), e.inner_html()));
			}
		}
		for i in &ids {
			inner.push_str(&b.el(*i).inner_html());
			outer.push_str(&b.el(*i).outer_html());
		}
		if set.html() != b.el(ids[0]).inner_html() {
			return Err(format!("html() of the set is {:?}, the first element has {:?}", set.html(), b.el(ids[0]).inner_html()));
		}
		if set.outer_html() != b.el(ids[0]).outer_html() {
			return Err(format!("outer_html() of the set is {:?}, the first element has {:?}", set.outer_html(), b.el(ids[0]).outer_html()));
		}
		if set.htmls() != inner {
			return Err(format!("htmls() of {} is {:?}, expected {:?}", show_all(&m, &ids), set.htmls(), inner));
		}
		if set.outer_htmls() != outer {
			return Err(format!("outer_htmls() of {} is {:?}, expected {:?}", show_all(&m, &ids), set.outer_htmls(), outer));
		}
	}
	let e = Elements::new();
	if !(e.html().is_empty() && e.htmls().is_empty() && e.outer_html().is_empty() && e.outer_htmls().is_empty()) {
		return Err("serialising an empty set gives markup".into());
	}
	// reading changed nothing
	check_tree(&m, &b, &STRICT)?;
	if all.len() >= 2 {
		c.hit("structured");
	}
	Ok(())
}

pub const SOUP: &[&str] = &[
	"<", ">", "</", "/>", "<div>", "</div>", "<p class='c1'>", "</p>", "<span", " a=", "\"", "'", "=", " ", "\n", "x", "foo", "&amp;", "&", "&#", "&#x41;", ";",
	"<!--", "-->", "<!", "<!DOCTYPE html>", "<?xml ?>", "<![CDATA[", "]]>", "<script>", "</script>", "<style", "</style>", "<title>", "</title>", "<textarea>",
	"</textarea>", "<br>", "<br/>", "</br>", "<img src=x", "<input checked>", "<html>", "</html>", "<head>", "</head>", "<body>", "</body>", "<DIV ID=a>", "</DIV>",
	"<a href='x>y'>", "</a>", "<ul><li>", "</li></ul>", "<select><option selected value=1>", "</select>", "中", "é", "\u{0}", "<é>", "< div>", "</ div>", "<div/ >",
	"<div a b=c d='e' f=\"g\">", "<x-y>", "</x-y>", "<svg:rect/>", "<1>", "<div =a>", "<div a==b>", "<div \"x\">", "<b></b>", "-", "!", "/", "<p", "</p",
];

pub fn gen_soup(s: &mut Src) -> String {
	let mut t = String::new();
	if s.chance(50) {
		// a well-formed document with some damage
		let mut d = cfg();
		d.entity = true;
		d.selfclose = true;
		d.max_els = 10;
		let m = gen_doc(s, &d);
		t = m.html();
		for _ in 0..s.range(1, 4) {
			let cs: Vec<char> = t.chars().collect();
			let n = cs.len();
			let p = s.below(n + 1);
			match s.below(5) {
				0 => {
					let q = (p + s.range(1, 8)).min(n);
					t = cs[..p].iter().chain(&cs[q..]).collect();
				}
				1 => t = cs[..p].iter().collect(),
				2 => {
					let w = s.picks(SOUP);
					t = cs[..p].iter().collect::<String>() + w + &cs[p..].iter().collect::<String>();
				}
				3 => {
					let q = (p + s.range(1, 12)).min(n);
					let w: String = cs[p..q].iter().collect();
					let at = s.below(n + 1);
					t = cs[..at].iter().collect::<String>() + &w + &cs[at..].iter().collect::<String>();
				}
				_ => t = cs[p..].iter().collect(),
			}
		}
	} else {
		for _ in 0..s.range(0, 18) {
			t.push_str(s.picks(SOUP));
		}
	}
	t
}

/// every documented link of an arbitrary loaded tree is consistent; returns the elements in order
fn walk(e: &El, out: &mut Vec<El>, depth: usize) -> Res {
	let nodes = e.child_nodes();
	if nodes.len() != e.child_nodes_length() {
		return Err("child_nodes() and child_nodes_length() differ".into());
	}
	let mut kids: Vec<El> = vec![];
	for (k, n) in nodes.iter().enumerate() {
		if n.index() != k {
			return Err(format!("child {} reports index {}", k, n.index()));
		}
		match n.parent() {
			Some(p) if p.is(e) => {}
			_ => return Err(format!("child {} has not its parent as parent", k)),
		}
		let kind = node_kind(n);
		let _ = n.text();
		if kind == "element" {
			kids.push(n.clone_node().typed().into_element().ok_or("element node is not an element")?);
		}
	}
	let ch = e.children();
	if ch.length() != kids.len() || !kids.iter().zip(ch.get_ref()).all(|(a, b)| a.is(b)) {
		return Err("children() are not the element child nodes".into());
	}
	for k in kids {
		let _ = (k.tag_name(), k.outer_html(), k.inner_html(), k.value().to_string());
		for (name, _) in k.get_attributes() {
			if k.get_attribute(&name).is_none() {
				return Err(format!("attribute {:?} is listed but cannot be read", name));
			}
		}
		out.push(k.cloned());
		if depth < 200 {
			walk(&k, out, depth + 1)?;
		}
	}
	Ok(())
}

fn examine(c: &mut Ctx, els: &Els, soup: &str) -> Res {
	let r = els.get(0).ok_or("the loaded set is empty")?;
	if els.length() != 1 || !r.is_root_element() {
		return Err("the loaded set is not the root".into());
	}
	let mut v = vec![];
	walk(r, &mut v, 0)?;
	let got = els.find("*");
	if got.length() != v.len() || !v.iter().zip(got.get_ref()).all(|(a, b)| a.is(b)) {
		return Err(format!("find(\"*\") gives {} elements, the tree has {}", got.length(), v.len()));
	}
	let firsts = els.find(":first-child");
	let want = v.iter().filter(|e| e.previous_element_sibling().is_none()).count();
	if firsts.length() != want {
		return Err(format!("find(\":first-child\") gives {} elements, {} have no element before them", firsts.length(), want));
	}
	let _ = (els.text(), els.outer_html(), els.html(), els.find("div p, .c1, [a], #a:empty").length());
	if let Some(d) = els.document() {
		let _ = (d.source_code(), d.title(), d.head().is_some(), d.body().is_some());
	}
	let _ = els.texts(0).length();
	// the output can be loaded as well
	let _ = Vis::load(els.outer_html());
	c.evals += 3;
	if v.len() >= 2 && soup.len() >= 8 {
		c.hit("soup_with_elements");
	}
	Ok(())
}

fn c07_soup(s: &mut Src, c: &mut Ctx) -> Res {
	let t = gen_soup(s);
	c.say(|| format!("soup: {:?}", t));
	c.evals += 1;
	match Vis::load(t.clone()) {
		Ok(els) => {
			examine(c, &els, &t).map_err(|e| format!("after loading {:?}: {}", t, e))?;
			c.count("soup_loaded");
		}
		Err(_) => c.count("soup_error"),
	}
	if s.chance(40) {
		// other options: the same contract
		let mut f = || s.chance(50);
		let o = ParseOptions {
			case_sensitive_tagname: f(),
			allow_attr_key_starts_with_equal_sign: f(),
			allow_self_closing: f(),
			auto_fix_unclosed_tag: f(),
			auto_fix_unexpected_endtag: f(),
			auto_fix_unescaped_lt: f(),
		};
		c.say(|| format!("options: {:?}", (o.case_sensitive_tagname, o.allow_attr_key_starts_with_equal_sign, o.allow_self_closing, o.auto_fix_unclosed_tag, o.auto_fix_unexpected_endtag, o.auto_fix_unescaped_lt)));
		c.evals += 1;
		if let Ok(els) = Vis::load_options(t.clone(), o) {
			examine(c, &els, &t).map_err(|e| format!("after loading {:?} with other options: {}", t, e))?;
		}
	}
	Ok(())
}

/// markup characters in title and textarea: whatever they are written as, the markup of an element is
/// composed of that of its children, and reading it changes nothing
fn c07_compose(s: &mut Src, c: &mut Ctx) -> Res {
	let mut d = cfg();
	d.entity = true;
	let mut m = gen_doc(s, &d);
	for i in m.els() {
		if m.is_void(i) || m.is_content(i) || !s.chance(25) {
			continue;
		}
		let tag = s.picks(&["textarea", "title", "textarea", "style", "script"]);
		let e = m.elem(tag, vec![]);
		let w = s.picks(&["a<b", "a & b", "<i>x</i>", "&lt;", "x > y", "\"q\"", "x"]);
		let t = m.text(w);
		m.push_child(e, t);
		m.push_child(i, e);
	}
	let html = m.html();
	c.say(|| format!("compose: {:?}", html));
	let els = load(&html)?;
	let all = els.find("*");
	let before = els.outer_html();
	for e in all.get_ref() {
		c.evals += 1;
		let (oh, ih) = (e.outer_html(), e.inner_html());
		let what = |t: &str| format!("{} in {:?}: outer_html {:?}, inner_html {:?}", t, html, oh, ih);
		if is_content(&e.tag_name().to_ascii_lowercase()) || is_void(&e.tag_name().to_ascii_lowercase()) {
			continue;
		}
		match oh.rfind("</").and_then(|p| oh[..p].strip_suffix(ih.as_str())) {
			Some(h) if h.starts_with('<') && h.ends_with('>') => {}
			_ => return Err(what("outer_html is not inner_html between the tags")),
		}
		let kids = e.children();
		if kids.length() == e.child_nodes_length() {
			let sum: String = kids.get_ref().iter().map(|k| k.outer_html()).collect();
			if sum != ih {
				return Err(what(&format!("inner_html is not the markup of the children {:?}", sum)));
			}
			if kids.outer_htmls() != sum {
				return Err(what(&format!("outer_htmls of the children is {:?}, not {:?}", kids.outer_htmls(), sum)));
			}
			if kids.length() > 1 {
				c.hit("composed");
			}
		}
	}
	if els.outer_html() != before {
		return Err(format!("reading {:?} changed the markup to {:?}", before, els.outer_html()));
	}
	Ok(())
}

/// the markup with stray end tags between the nodes
fn stray_html(s: &mut Src, m: &Model, i: Id, out: &mut String) {
	for k in &m.n[i].children {
		if s.chance(15) {
			out.push_str(s.picks(&["</nope>", "</x-stray>", "</NOPE >"]));
		}
		let o = m.outer(*k);
		if m.is_elem(*k) && !m.is_content(*k) && !m.n[*k].children.is_empty() {
			let inner = m.inner(*k);
			let end = o.rfind("</").unwrap();
			out.push_str(&o[..end - inner.len()]);
			stray_html(s, m, *k, out);
			out.push_str(&o[end..]);
		} else {
			out.push_str(&o);
		}
	}
}

/// what `Vis::load` forgives: an unescaped "<" in a text, stray end tags, missing end tags at the end
fn c07_lenient(s: &mut Src, c: &mut Ctx) -> Res {
	let mut d = cfg();
	d.entity = s.chance(50);
	let mut m = gen_doc(s, &d);
	let lt = s.chance(60);
	if lt {
		for i in m.desc(0) {
			let in_content = m.n[i].parent.map_or(false, |p| p != 0 && m.is_content(p));
			if !m.is_text(i) || in_content || !s.chance(50) {
				continue;
			}
			let w = s.picks(&[" < ", "<1", "< ", "<= ", " <", "<<", "<-", "1 < 2", "<中"]).to_string();
			// behind a void or content element the parser puts a text that begins with a bare "<" into that element
			let first = s.chance(30) && m.index(i) == 0;
			if let Kind::Text { raw, dec: text } = &mut m.n[i].kind {
				// "<" before a letter or "/" would begin a tag
				if first && !raw.starts_with(|ch: char| ch.is_ascii_alphabetic()) {
					*raw = format!("{}{}", w, raw);
					*text = format!("{}{}", w, text);
				} else if !first {
					*raw = format!("{}{}.", raw, w);
					*text = format!("{}{}.", text, w);
				}
			}
		}
	}
	let mut html = String::new();
	if s.chance(60) {
		stray_html(s, &m, 0, &mut html);
	} else {
		html = m.html();
	}
	if s.chance(50) {
		// drop some of the end tags at the very end
		let mut at = 0;
		let mut n = 0;
		while let Some(k) = m.n[at].children.last() {
			if !m.is_elem(*k) || m.is_void(*k) || m.is_content(*k) {
				break;
			}
			at = *k;
			n += 1;
		}
		for _ in 0..s.range(0, n) {
			match html.rfind("</") {
				Some(p) if html.ends_with('>') => html.truncate(p),
				_ => break,
			}
		}
	}
	c.say(|| format!("lenient: {:?}", html));
	c.evals += 1;
	let els = Vis::load(html.clone()).map_err(|e| format!("load({:?}) failed: {}", html, e))?;
	let b = bind_with(&m, els, &MERGE).map_err(|e| format!("load({:?}): {}", html, e))?;
	let want = m.text_of(0);
	if b.root.text() != want {
		return Err(format!("text of {:?} is {:?}, expected {:?}", html, b.root.text(), want));
	}
	same_tree(&m, "outer_html", &b.root.outer_html())?;
	if html != m.html() || lt {
		c.hit("lenient");
	}
	Ok(())
}

fn c07(s: &mut Src, c: &mut Ctx) -> Res {
	if s.chance(35) {
		c07_soup(s, c)
	} else if s.chance(25) {
		c07_lenient(s, c)
	} else if s.chance(10) {
		c07_compose(s, c)
	} else {
		c07_structured(s, c)
	}
}

fn c07_fixed(c: &mut Ctx) -> Res {
	for t in ["<d", "<!DOCTYPE html/><p>x</p>", "<!DOCTYPE <svg:rect/>html><a>"] {
		c.cur = format!("load of {:?}", t);
		c.evals += 2;
		let _ = Vis::load(t);
		let _ = Vis::load_options(t, ParseOptions::default());
	}
	for tag in ["title", "textarea"] {
		probe(c, "C07", &format!("an entity in the content of {} is encoded once more by outer_html: <{}>a &amp; b</{}>", tag, tag, tag), || {
			let html = format!("<{}>a &amp; b</{}>", tag, tag);
			let els = load(&html)?;
			let t = load(&els.outer_html())?.text();
			if t != els.text() {
				return Err(format!("{:?} is serialised as {:?}", html, els.outer_html()));
			}
			Ok(())
		})?;
	}
	Ok(())
}

pub const C07: Prop = Prop {
	id: "C07",
	run: c07,
	fixed: Some(c07_fixed),
	quick: 500_000,
	thorough: 2_500_000,
	hang_s: 60,
	rule: "50% of the cases: a generated document, loaded and compared node by node with the model, then outer_html, html, htmls, outer_htmls and source_code of the root and of element sets loaded again and compared, or (1 in 10) documents with markup characters in title and textarea whose elements' markup is compared with that of their children; 15%: documents with bare '<' in texts, stray end tags and end tags missing at the end, loaded and compared with the model; 35%: damaged documents and token soup, loaded with the default and with random options, the tree walked, queried and serialised. Non-trivial: structured cases with at least two elements and soup cases of at least 8 characters whose tree has at least two elements; distinct by choice tape",
	assumptions: &[A_DOC, A_TITLE, "nesting depth is moderate (the parser and serialiser are recursive)"],
};

// ------------------------------------------------------------------------------------------------
// C08

const CH: &[&str] = &[
	"<", ">", "&", "\"", "'", ";", "#", "a", "b", " ", "  ", "\n", "\t", "&lt;", "&amp;", "&#60;", "&#x3c;", "&nbsp;", "&copy", "&copy;", "</div>", "<b>x</b>", "<!--", "-->", "]]>",
	"</script>", "中", "é", "\u{a0}", "\u{1F600}", "foo", "&&", "<<", "x<y", "&lt", "=", "/", "`", "©", "&unknown;", "&#0;", "\r\n", "-", "\u{200b}", "\u{feff}",
];

pub fn gen_any_text(s: &mut Src) -> String {
	let mut t = String::new();
	let k = if s.chance(2) { s.range(8, 120) } else { s.range(0, 7) };
	for _ in 0..k {
		if s.chance(10) {
			// any character
			let c = char::from_u32(s.below(0x3000) as u32).unwrap_or('?');
			t.push(c);
		} else {
			t.push_str(s.picks(CH));
		}
	}
	t
}

fn check_texts(s: &mut Src, c: &mut Ctx, w: &World) -> Res {
	let all = w.els();
	for i in w.roots.iter().copied().chain(all.iter().copied().filter(|_| s.chance(50))) {
		let e = w.el(i);
		let want = w.m.text_of(i);
		c.evals += 1;
		if e.text() != want || e.text_content() != want || w.set(&[i]).text() != want {
			return Err(format!("text of {} is {:?}, expected {:?}", label(w, i), e.text(), want));
		}
	}
	if !all.is_empty() {
		let ids = gen_subset(s, &w.m, true);
		let want: String = ids.iter().map(|i| w.m.text_of(*i)).collect();
		c.evals += 1;
		if w.set(&ids).text() != want {
			return Err(format!("text of {} is {:?}, expected {:?}", labels(w, &ids), w.set(&ids).text(), want));
		}
	}
	Ok(())
}

fn c08(s: &mut Src, c: &mut Ctx) -> Res {
	let mut d = big_cfg(s, world_cfg());
	d.entity = true;
	d.texts = 50;
	let mut w = World::new();
	let m = gen_doc(s, &d);
	c.say(|| format!("load doc0: {}", m.html()));
	w.load(&m)?;
	check_texts(s, c, &w)?;
	let mut nasty = false;
	for _ in 0..s.range(1, 4) {
		let pool: Vec<Id> = w.els().into_iter().filter(|i| !w.m.is_void(*i)).collect();
		if pool.is_empty() {
			return Ok(());
		}
		let mut ids = vec![pool[s.below(pool.len())]];
		if s.chance(30) {
			let x = pool[s.below(pool.len())];
			if !ids.contains(&x) {
				ids.push(x);
			}
		}
		if s.chance(6) {
			for x in gen_subset(s, &w.m, false) {
				if !ids.contains(&x) && !w.m.is_void(x) && pool.contains(&x) && !ids.iter().any(|i| w.m.is_anc(*i, x) || w.m.is_anc(x, *i)) {
					ids.push(x);
				}
			}
		}
		let plain = ids.iter().any(|i| w.m.is_content(*i));
		let t = if plain { s.picks(&["x", "", "foo bar", "中 é", "  "]).to_string() } else { gen_any_text(s) };
		let desc = format!("{}.set_text({:?})", labels(&w, &ids), t);
		c.say(|| desc.clone());
		if ids.len() == 1 && s.chance(30) {
			w.el(ids[0]).cloned().set_text(&t);
		} else {
			w.set(&ids).set_text(&t);
		}
		for i in &ids {
			w.model_set_text(*i, &t);
		}
		c.evals += 2;
		for i in &ids {
			let e = w.el(*i);
			if e.text() != t {
				return Err(format!("after {} the text is {:?}", desc, e.text()));
			}
			if e.children().length() != 0 || w.set(&[*i]).find("*").length() != 0 {
				return Err(format!("after {} the element has element children: {:?}", desc, e.outer_html()));
			}
		}
		at(&format!("after {}", desc), || w.check())?;
		at(&format!("after {}", desc), || check_texts(s, c, &w))?;
		at(&format!("after {}", desc), || w.reload(w.roots[0]).map(|_| ()))?;
		for i in &ids {
			at(&format!("after {}", desc), || w.reload(*i).map(|_| ()))?;
		}
		if t.contains(|c| matches!(c, '<' | '>' | '&')) {
			nasty = true;
		}
	}
	if nasty {
		c.hit("markup_characters");
	}
	Ok(())
}

fn c08_fixed(c: &mut Ctx) -> Res {
	for tag in ["title", "textarea"] {
		probe(c, "C08", &format!("text with markup characters in {} changes when the document is loaded again: set_text(\"a & b\")", tag), || {
			let els = load(&format!("<div><{}>x</{}></div>", tag, tag))?;
			let mut t = els.find(tag);
			t.set_text("a & b");
			let r = load(&els.outer_html())?.find(tag).text();
			if t.text() != "a & b" || r != "a & b" {
				return Err(format!("text is {:?}, after a reload {:?}", t.text(), r));
			}
			Ok(())
		})?;
	}
	Ok(())
}

pub const C08: Prop = Prop {
	id: "C08",
	run: c08,
	fixed: Some(c08_fixed),
	quick: 240_000,
	thorough: 1_500_000,
	hang_s: 60,
	rule: "a case is a generated document with entities in its texts, whose text() is compared for the root, elements and sets, then 1-4 set_text calls with strings built from markup, entity look-alikes, quotes and any characters, each followed by the comparison of every text and of the whole tree with the model, live and after a reload; non-trivial when a string with <, > or & was set; distinct by choice tape",
	assumptions: &[A_DOC, A_TITLE, "set_text on void elements is not exercised; script and style get plain text"],
};

// ------------------------------------------------------------------------------------------------
// C15

/// the text nodes (content elements count as one) below i: (depth, id)
fn ref_texts(m: &Model, i: Id, depth: usize, limit: usize, rec: &dyn Fn(Id) -> bool, out: &mut Vec<(usize, Id)>) {
	if m.is_content(i) {
		out.push((depth, i));
		return;
	}
	for k in &m.n[i].children {
		if m.is_text(*k) || m.is_content(*k) {
			out.push((depth, *k));
		} else if m.is_elem(*k) && (limit == 0 || depth + 1 < limit) && rec(*k) {
			ref_texts(m, *k, depth + 1, limit, rec, out);
		}
	}
}

fn same_texts(w: &World, got: &[BoxDynText], want: &[Id]) -> Res {
	let show_t = |t: &BoxDynText| format!("{:?}", t.text());
	let fail = |why: &str| -> Res {
		let g: Vec<String> = got.iter().map(show_t).collect();
		let x: Vec<String> = want.iter().map(|i| format!("{:?} at {}", w.m.text_of(*i), label(w, *i))).collect();
		Err(format!("{}: got [{}], expected [{}]", why, g.join(", "), x.join(", ")))
	};
	if got.len() != want.len() {
		return fail("number of texts");
	}
	for (t, i) in got.iter().zip(want) {
		if t.text() != w.m.text_of(*i) {
			return fail("text");
		}
		match (t.parent(), w.m.n[*i].parent) {
			(Some(p), Some(q)) if p.is(w.el(q)) => {
				if t.index() != w.m.index(*i) {
					return fail("index");
				}
			}
			(None, None) => {}
			_ => return fail("parent"),
		}
	}
	Ok(())
}

/// one text op on the model
fn model_text_op(w: &mut World, t: Id, op: usize, arg: &str, frag: &Model) {
	let content = w.m.is_content(t);
	match op {
		0 | 1 | 2 => {
			if content {
				let old = w.m.text_of(t);
				let new = match op {
					0 => format!("{}{}", old, arg),
					1 => format!("{}{}", arg, old),
					_ => arg.to_string(),
				};
				w.model_clear(t);
				if !new.is_empty() {
					let x = w.m.text(&new);
					w.m.push_child(t, x);
					if let Kind::Elem { selfclose, .. } = &mut w.m.n[t].kind {
						*selfclose = false;
					}
				}
			} else if let Kind::Text { raw, dec } = &mut w.m.n[t].kind {
				for x in [raw, dec] {
					match op {
						0 => x.push_str(arg),
						1 => *x = format!("{}{}", arg, x),
						_ => *x = arg.to_string(),
					}
				}
			}
		}
		3 => {
			if content {
				model_text_op(w, t, 2, arg, frag);
			} else if let Some(p) = w.m.n[t].parent {
				let at = w.m.index(t);
				w.m.detach(t);
				for (k, x) in frag.n[frag.root].children.clone().into_iter().enumerate() {
					let c = w.m.import(frag, x);
					w.m.insert_child(p, at + k, c);
				}
			}
		}
		_ => w.m.detach(t),
	}
}

fn c15(s: &mut Src, c: &mut Ctx) -> Res {
	let mut d = world_cfg();
	d.texts = 55;
	let mut w = World::new();
	// a content element with a text node inside: which of the two is "the text" is not specified
	w.boxes = false;
	let m = gen_doc(s, &d);
	c.say(|| format!("load doc0: {}", m.html()));
	w.load(&m)?;
	if s.chance(25) {
		for _ in 0..s.range(1, 3) {
			step(s, c, &mut w, &OPS_ALL)?;
		}
	}
	// stale handles are kept: (handle, model node)
	let mut pool: Vec<(BoxDynText<'static>, Id)> = vec![];
	let mut hit = false;
	for _ in 0..s.range(1, 3) {
		w.m.root = w.roots[0];
		// ---- collection
		let ctx: Vec<Id> = if s.chance(40) || w.m.els().is_empty() { vec![w.roots[0]] } else { gen_subset(s, &w.m, false) };
		let limit = s.weighted(&[5, 3, 2, 1, 1]);
		let mode = s.below(5);
		let word = s.picks(&["foo", "x", "b"]).to_string();
		let skip = s.picks(&["div", "p", "span", "ul", "li", "a"]).to_string();
		let k = s.below(3);
		let keep_t = |m: &Model, depth: usize, i: Id| -> bool {
			match k {
				0 => m.text_of(i).contains(word.as_str()),
				1 => depth % 2 == 0,
				_ => m.text_of(i).trim().is_empty(),
			}
		};
		let lib_keep = || -> Box<dyn Fn(usize, &BoxDynText) -> bool> {
			let word = word.clone();
			Box::new(move |depth, t| match k {
				0 => t.text().contains(word.as_str()),
				1 => depth % 2 == 0,
				_ => t.text().trim().is_empty(),
			})
		};
		let mut want: Vec<(usize, Id)> = vec![];
		for i in &ctx {
			let sk = skip.clone();
			let mm = &w.m;
			if mode == 3 {
				ref_texts(mm, *i, 0, limit, &|e| mm.tag(e) != sk, &mut want);
			} else {
				ref_texts(mm, *i, 0, limit, &|_| true, &mut want);
			}
		}
		if mode == 2 || mode == 3 {
			want.retain(|(d, i)| keep_t(&w.m, *d, *i));
		}
		if mode == 4 {
			let mut j = 0;
			want.retain(|(_, i)| {
				j += 1;
				keep_t(&w.m, j - 1, *i)
			});
		}
		let set = w.set(&ctx);
		let desc = format!(
			"{}.{}({})",
			labels(&w, &ctx),
			["texts", "texts (each element)", "texts_by", "texts_by_rec", "texts + filter_by"][mode],
			limit
		);
		c.say(|| format!("{} -> {}", desc, want.len()));
		c.evals += 1;
		let mut got: Texts<'static> = match mode {
			0 => set.texts(limit),
			1 => {
				let mut r = Texts::with_capacity(4);
				for i in &ctx {
					if let Some(t) = w.el(*i).texts(limit) {
						r.get_mut_ref().extend(t);
					}
				}
				r
			}
			2 => set.texts_by(limit, lib_keep()),
			3 => {
				let sk = skip.clone();
				set.texts_by_rec(limit, lib_keep(), Box::new(move |e: &BoxDynElement| e.tag_name().to_ascii_lowercase() != sk))
			}
			_ => {
				let word = word.clone();
				set.texts(limit).filter_by(move |j, t| match k {
					0 => t.text().contains(word.as_str()),
					1 => j % 2 == 0,
					_ => t.text().trim().is_empty(),
				})
			}
		};
		let ids: Vec<Id> = want.iter().map(|x| x.1).collect();
		at(&desc, || same_texts(&w, got.get_ref(), &ids))?;
		if got.length() != ids.len() || got.is_empty() != ids.is_empty() {
			return Err(format!("{}: length {} is_empty {}", desc, got.length(), got.is_empty()));
		}
		if ids.len() >= 2 {
			hit = true;
		}
		// ---- edits of the whole set
		let bulk = s.below(6);
		let uniq = {
			let mut v = ids.clone();
			v.sort();
			v.dedup();
			v.len() == ids.len()
		};
		if bulk == 0 && !ids.is_empty() {
			c.say(|| "remove all".to_string());
			for i in &ids {
				w.m.detach(*i);
			}
			got.remove();
			at(&format!("{}.remove()", desc), || w.check())?;
			c.count("remove_all");
			continue;
		}
		if bulk == 1 && uniq {
			let arg = s.picks(&["+", " y", "9"]).to_string();
			let op = s.below(3);
			let stop = if s.chance(30) { s.below(4) } else { usize::MAX };
			c.say(|| format!("for_each op {} {:?} until {}", op, arg, stop as isize));
			let mut seen = vec![];
			let f = |j: usize, t: &mut BoxDynText| -> bool {
				seen.push(j);
				match op {
					0 => t.append_text(&arg),
					1 => t.prepend_text(&arg),
					_ => t.set_text(&arg),
				}
				j != stop
			};
			if s.chance(50) {
				got.for_each(f);
			} else {
				got.each(f);
			}
			let n = ids.len().min(stop.saturating_add(1));
			if seen != (0..n).collect::<Vec<_>>() {
				return Err(format!("{}.for_each visited {:?} of {}", desc, seen, ids.len()));
			}
			for i in &ids[..n] {
				model_text_op(&mut w, *i, op, &arg, &Model::new());
			}
			at(&format!("{}.for_each(op {} {:?})", desc, op, arg), || w.check())?;
			c.count("edit_all");
		}
		for (t, i) in got.into_iter().zip(&ids) {
			if pool.len() < 24 {
				pool.push((t, *i));
			}
		}
		// ---- single edits, also through stale handles
		for _ in 0..s.range(0, 4) {
			if pool.is_empty() {
				break;
			}
			let p = s.below(pool.len());
			let id = pool[p].1;
			let op = s.weighted(&[3, 3, 3, 3, 2]);
			let mut frag = Model::new();
			let mut arg = s.picks(&["foo", " x ", "1", "中"]).to_string();
			if op == 3 && !w.m.is_content(id) {
				if s.chance(85) {
					frag = gen_doc(s, &frag_cfg());
				}
				// a text beside a text cannot be told apart after a reload, but is still a node of its own here
				arg = frag.html();
			}
			let name = ["append_text", "prepend_text", "set_text", "set_html", "remove"][op];
			let desc = format!("text {:?} at {}: {}({:?})", w.m.text_of(id), label(&w, id), name, arg);
			c.say(|| desc.clone());
			c.evals += 1;
			match op {
				0 => pool[p].0.append_text(&arg),
				1 => pool[p].0.prepend_text(&arg),
				2 => pool[p].0.set_text(&arg),
				3 => pool[p].0.set_html(&arg),
				_ => {
					let (t, _) = pool.remove(p);
					if s.chance(50) {
						// keep a handle of the removed node
						let k = t.clone_node();
						t.remove();
						if let Some(k) = k.typed().into_text() {
							pool.push((k, id));
						}
					} else {
						t.remove();
					}
				}
			}
			model_text_op(&mut w, id, op, &arg, &frag);
			at(&format!("after {}", desc), || w.check())?;
			for (t, i) in &pool {
				same_texts(&w, std::slice::from_ref(t), &[*i]).map_err(|e| format!("after {}: handle of {}: {}", desc, label(&w, *i), e))?;
			}
			c.count("edit");
		}
	}
	let r = w.roots[0];
	at("at the end", || w.reload(r).map(|_| ()))?;
	if hit {
		c.hit("two_or_more_texts");
	}
	Ok(())
}

pub const C15: Prop = Prop {
	id: "C15",
	run: c15,
	fixed: None,
	quick: 480_000,
	thorough: 1_500_000,
	hang_s: 60,
	rule: "a case is a generated document (sometimes mutated), 1-3 collections through texts / texts_by / texts_by_rec / filter_by with a depth limit and predicates, compared node by node (text, parent, index) with the model, and edits of whole collections and of single text nodes, also through handles of nodes that are already out of the document, each followed by a comparison of the whole tree; non-trivial when some collection has at least two texts; distinct by choice tape",
	assumptions: &[A_DOC, "texts given to append_text, prepend_text and set_text of a text node hold no markup or entity characters (they are raw there)"],
};

// ------------------------------------------------------------------------------------------------
// C16

fn options(m: &Model, i: Id, out: &mut Vec<Id>) {
	for k in m.kids(i) {
		if m.tag(k) == "option" {
			out.push(k);
		} else {
			options(m, k, out);
		}
	}
}

#[derive(Debug, PartialEq)]
enum V {
	One(String),
	Many(Vec<String>),
}

fn ref_val(m: &Model, i: Id) -> V {
	let v = |i: Id| m.attr(i, "value").flatten().unwrap_or("").to_string();
	match m.tag(i).as_str() {
		"input" | "option" => V::One(v(i)),
		"textarea" => V::One(m.text_of(i)),
		"select" => {
			let mut all = vec![];
			options(m, i, &mut all);
			let sel: Vec<Id> = all.into_iter().filter(|o| m.attr(*o, "selected").is_some()).collect();
			if m.attr(i, "multiple").is_some() {
				return V::Many(sel.into_iter().map(v).collect());
			}
			if let Some(o) = sel.first() {
				return V::One(v(*o));
			}
			match m.kids(i).into_iter().find(|k| m.tag(*k) == "option") {
				Some(o) => V::One(v(o)),
				None => V::One(String::new()),
			}
		}
		_ => V::One(String::new()),
	}
}

fn got_val(v: IFormValue) -> Res<V> {
	let s = v.to_string();
	Ok(match v {
		IFormValue::Single(x) => {
			if s != x {
				return Err(format!("to_string of the value {:?} is {:?}", x, s));
			}
			V::One(unq(&x))
		}
		IFormValue::Multiple(x) => {
			if s != x.join(",") {
				return Err(format!("to_string of the values {:?} is {:?}", x, s));
			}
			let it: Vec<String> = IFormValue::Multiple(x.clone()).into_iter().collect();
			if it != x {
				return Err(format!("iteration of the values {:?} gives {:?}", x, it));
			}
			V::Many(x.iter().map(|y| unq(y)).collect())
		}
	})
}

fn norm_v(v: V) -> V {
	match v {
		V::One(x) => V::One(unq(&x)),
		V::Many(x) => V::Many(x.iter().map(|y| unq(y)).collect()),
	}
}

fn c16(s: &mut Src, c: &mut Ctx) -> Res {
	let mut d = world_cfg();
	d.forms = true;
	let mut w = World::new();
	let mut m = gen_doc(s, &d);
	for _ in 0..s.range(1, 3) {
		let pool: Vec<Id> = m.els().into_iter().filter(|i| !m.is_void(*i) && !m.is_content(*i) && m.tag(*i) != "html").collect();
		let p = if pool.is_empty() || s.chance(30) { 0 } else { pool[s.below(pool.len())] };
		if let Kind::Elem { selfclose, .. } = &mut m.n[p].kind {
			*selfclose = false;
		}
		gen_select(s, &mut m, p);
	}
	c.say(|| format!("load doc0: {}", m.html()));
	w.load(&m)?;
	let rounds = s.range(1, 3);
	for r in 0..rounds {
		if r > 0 {
			for _ in 0..s.range(1, 3) {
				let mut o = OPS_ALL.clone();
				o.attr = 80;
				step(s, c, &mut w, &o)?;
			}
		}
		w.m.root = w.roots[0];
		let all = w.m.els();
		for i in &all {
			let want = norm_v(ref_val(&w.m, *i));
			c.evals += 1;
			let e = w.el(*i);
			for (how, v) in [("val()", w.set(&[*i]).val()), ("value()", e.value())] {
				let got = got_val(v)?;
				if got != want {
					return Err(format!("{} of {} is {:?}, expected {:?}", how, e.outer_html(), got, want));
				}
			}
			if w.m.tag(*i) == "select" {
				let n = match &want {
					V::Many(v) => v.len(),
					V::One(v) => v.len(),
				};
				if n > 0 {
					c.hit("select_with_value");
				}
			}
		}
		if !all.is_empty() {
			let ids = gen_subset(s, &w.m, false);
			let want = norm_v(ref_val(&w.m, ids[0]));
			c.evals += 1;
			let got = got_val(w.set(&ids).val())?;
			if got != want {
				return Err(format!("val() of the set {} is {:?}, its first element has {:?}", labels(&w, &ids), got, want));
			}
		}
		// the document root and the empty set have no value
		for (what, v) in [("the root", w.set(&[w.roots[0]]).val()), ("the empty set", Elements::new().val())] {
			if got_val(v)? != V::One(String::new()) {
				return Err(format!("val() of {} is not empty", what));
			}
		}
	}
	Ok(())
}

pub const C16: Prop = Prop {
	id: "C16",
	run: c16,
	fixed: None,
	quick: 420_000,
	thorough: 1_500_000,
	hang_s: 60,
	rule: "a case is a generated document with extra selects (options in and out of optgroups, any selected pattern, valueless and missing values), the value of every element compared with its definition right after loading and after batches of mutations; non-trivial when some select has a non-empty value; distinct by choice tape",
	assumptions: &[A_DOC, A_TITLE, "options inside options are not looked at; values are compared up to entity-encoded quotes"],
};
