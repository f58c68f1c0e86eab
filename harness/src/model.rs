//! Reference DOM: an arena tree that is generated together with its HTML, and mutated in parallel
//! with the library's document. All oracles are written against this model.
use crate::tape::Src;
use visdom::types::{BoxDynElement, BoxDynNode, Elements, IAttrValue, IEnumTyped, INodeType};
use visdom::Vis;

pub type Id = usize;
pub type El = BoxDynElement<'static>;
pub type Els = Elements<'static>;
pub type Res<T = ()> = Result<T, String>;

#[derive(Clone, Debug, PartialEq)]
pub struct MAttr {
	pub name: String,
	/// raw (undecoded) value; None = valueless attribute
	pub val: Option<String>,
	/// how the generator spells it
	pub quote: Option<char>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Kind {
	Root,
	Elem {
		tag: String,
		attrs: Vec<MAttr>,
		selfclose: bool,
	},
	/// raw = spelling in the source (None after set_text), dec = the text it denotes
	Text { raw: String, dec: String },
	Comment(String),
	Doctype,
}

#[derive(Clone, Debug)]
pub struct MNode {
	pub kind: Kind,
	pub parent: Option<Id>,
	pub children: Vec<Id>,
}

#[derive(Clone, Debug)]
pub struct Model {
	pub n: Vec<MNode>,
	pub root: Id,
}

pub const VOID: [&str; 6] = ["input", "br", "img", "hr", "meta", "link"];
pub const CONTENT: [&str; 4] = ["script", "style", "title", "textarea"];

pub fn is_void(tag: &str) -> bool {
	let t = tag.to_ascii_lowercase();
	VOID.contains(&t.as_str())
}
pub fn is_content(tag: &str) -> bool {
	let t = tag.to_ascii_lowercase();
	CONTENT.contains(&t.as_str())
}

impl Model {
	pub fn new() -> Model {
		Model {
			n: vec![MNode {
				kind: Kind::Root,
				parent: None,
				children: vec![],
			}],
			root: 0,
		}
	}
	pub fn add(&mut self, kind: Kind) -> Id {
		self.n.push(MNode {
			kind,
			parent: None,
			children: vec![],
		});
		self.n.len() - 1
	}
	pub fn elem(&mut self, tag: &str, attrs: Vec<MAttr>) -> Id {
		self.add(Kind::Elem {
			tag: tag.to_string(),
			attrs,
			selfclose: false,
		})
	}
	pub fn text(&mut self, s: &str) -> Id {
		self.add(Kind::Text {
			raw: s.to_string(),
			dec: s.to_string(),
		})
	}
	pub fn push_child(&mut self, p: Id, c: Id) {
		self.n[c].parent = Some(p);
		self.n[p].children.push(c);
	}
	pub fn insert_child(&mut self, p: Id, at: usize, c: Id) {
		self.n[c].parent = Some(p);
		self.n[p].children.insert(at, c);
	}
	pub fn detach(&mut self, c: Id) {
		if let Some(p) = self.n[c].parent.take() {
			self.n[p].children.retain(|x| *x != c);
		}
	}
	pub fn is_elem(&self, i: Id) -> bool {
		matches!(self.n[i].kind, Kind::Elem { .. })
	}
	pub fn is_text(&self, i: Id) -> bool {
		matches!(self.n[i].kind, Kind::Text { .. })
	}
	/// lower-case tag name ("" for non-elements)
	pub fn tag(&self, i: Id) -> String {
		match &self.n[i].kind {
			Kind::Elem { tag, .. } => tag.to_ascii_lowercase(),
			_ => String::new(),
		}
	}
	pub fn is_content(&self, i: Id) -> bool {
		is_content(&self.tag(i))
	}
	pub fn is_void(&self, i: Id) -> bool {
		is_void(&self.tag(i))
	}
	pub fn attrs(&self, i: Id) -> &[MAttr] {
		match &self.n[i].kind {
			Kind::Elem { attrs, .. } => attrs,
			_ => &[],
		}
	}
	pub fn attrs_mut(&mut self, i: Id) -> &mut Vec<MAttr> {
		match &mut self.n[i].kind {
			Kind::Elem { attrs, .. } => attrs,
			_ => panic!("attrs_mut of a non-element"),
		}
	}
	/// attribute by case-insensitive name: None absent, Some(None) valueless
	pub fn attr(&self, i: Id, name: &str) -> Option<Option<&str>> {
		self
			.attrs(i)
			.iter()
			.find(|a| a.name.eq_ignore_ascii_case(name))
			.map(|a| a.val.as_deref())
	}
	pub fn classes(&self, i: Id) -> Vec<String> {
		match self.attr(i, "class") {
			Some(Some(v)) => v.split_ascii_whitespace().map(|s| s.to_string()).collect(),
			_ => vec![],
		}
	}
	pub fn kids(&self, i: Id) -> Vec<Id> {
		self.n[i]
			.children
			.iter()
			.copied()
			.filter(|c| self.is_elem(*c))
			.collect()
	}
	/// parent element (never the root)
	pub fn parent_el(&self, i: Id) -> Option<Id> {
		self.n[i].parent.filter(|p| self.is_elem(*p))
	}
	pub fn ancestors(&self, i: Id) -> Vec<Id> {
		let mut v = vec![];
		let mut c = i;
		while let Some(p) = self.parent_el(c) {
			v.push(p);
			c = p;
		}
		v
	}
	/// is a a proper ancestor of b (the root counts)
	pub fn is_anc(&self, a: Id, b: Id) -> bool {
		let mut c = b;
		while let Some(p) = self.n[c].parent {
			if p == a {
				return true;
			}
			c = p;
		}
		false
	}
	fn pre(&self, i: Id, out: &mut Vec<Id>) {
		for c in &self.n[i].children {
			out.push(*c);
			self.pre(*c, out);
		}
	}
	/// all proper descendants, document order
	pub fn desc(&self, i: Id) -> Vec<Id> {
		let mut v = vec![];
		self.pre(i, &mut v);
		v
	}
	pub fn desc_els(&self, i: Id) -> Vec<Id> {
		self.desc(i).into_iter().filter(|x| self.is_elem(*x)).collect()
	}
	pub fn els(&self) -> Vec<Id> {
		self.desc_els(self.root)
	}
	/// sort by document order, dedup
	pub fn doc_order(&self, mut v: Vec<Id>) -> Vec<Id> {
		let mut pos = vec![usize::MAX; self.n.len()];
		let mut order = vec![self.root];
		order.extend(self.desc(self.root));
		for (k, i) in order.iter().enumerate() {
			pos[*i] = k;
		}
		v.sort_by_key(|i| pos[*i]);
		v.dedup();
		v
	}
	pub fn sibs(&self, i: Id) -> Vec<Id> {
		match self.n[i].parent {
			Some(p) => self.kids(p),
			None => vec![i],
		}
	}
	/// position in the element sibling list
	pub fn sib_pos(&self, i: Id) -> usize {
		self.sibs(i).iter().position(|x| *x == i).unwrap()
	}
	pub fn index(&self, i: Id) -> usize {
		match self.n[i].parent {
			Some(p) => self.n[p].children.iter().position(|x| *x == i).unwrap(),
			None => 0,
		}
	}
	/// decoded text
	pub fn text_of(&self, i: Id) -> String {
		let mut s = String::new();
		self.text_into(i, &mut s);
		s
	}
	fn text_into(&self, i: Id, s: &mut String) {
		match &self.n[i].kind {
			Kind::Text { dec, .. } => s.push_str(dec),
			_ => {
				for c in &self.n[i].children {
					self.text_into(*c, s);
				}
			}
		}
	}
	/// set attribute as a case-insensitive map
	pub fn set_attr(&mut self, i: Id, name: &str, val: Option<&str>) {
		let attrs = self.attrs_mut(i);
		if let Some(a) = attrs.iter_mut().find(|a| a.name.eq_ignore_ascii_case(name)) {
			a.val = val.map(|s| s.to_string());
		} else {
			attrs.push(MAttr {
				name: name.to_string(),
				val: val.map(|s| s.to_string()),
				quote: Some('"'),
			});
		}
	}
	pub fn del_attr(&mut self, i: Id, name: &str) {
		self
			.attrs_mut(i)
			.retain(|a| !a.name.eq_ignore_ascii_case(name));
	}
	// ---------- serialisation (the generator's spelling) ----------
	pub fn html(&self) -> String {
		let mut s = String::new();
		for c in &self.n[self.root].children {
			self.ser(*c, &mut s);
		}
		s
	}
	pub fn outer(&self, i: Id) -> String {
		let mut s = String::new();
		self.ser(i, &mut s);
		s
	}
	pub fn inner(&self, i: Id) -> String {
		let mut s = String::new();
		for c in &self.n[i].children {
			self.ser(*c, &mut s);
		}
		s
	}
	fn ser(&self, i: Id, s: &mut String) {
		match &self.n[i].kind {
			Kind::Root => {}
			Kind::Text { raw, .. } => s.push_str(raw),
			Kind::Comment(c) => {
				s.push_str("<!--");
				s.push_str(c);
				s.push_str("-->");
			}
			Kind::Doctype => s.push_str("<!DOCTYPE html>"),
			Kind::Elem {
				tag,
				attrs,
				selfclose,
			} => {
				s.push('<');
				s.push_str(tag);
				for a in attrs {
					s.push(' ');
					s.push_str(&a.name);
					if let Some(v) = &a.val {
						s.push('=');
						if let Some(q) = a.quote {
							s.push(q);
							s.push_str(v);
							s.push(q);
						} else {
							s.push_str(v);
						}
					}
				}
				if *selfclose && (is_void(tag) || self.n[i].children.is_empty()) {
					s.push_str(" /");
				}
				s.push('>');
				if is_void(tag) || (*selfclose && self.n[i].children.is_empty()) {
					return;
				}
				for c in &self.n[i].children {
					self.ser(*c, s);
				}
				s.push_str("</");
				s.push_str(tag);
				s.push('>');
			}
		}
	}
	/// structural equality of two subtrees, adjacent texts merged, attribute names case-insensitive
	pub fn canon(&self, i: Id) -> String {
		let mut s = String::new();
		self.canon_into(i, &mut s);
		s
	}
	fn canon_into(&self, i: Id, s: &mut String) {
		match &self.n[i].kind {
			Kind::Root => s.push_str("#root"),
			Kind::Text { dec, .. } => s.push_str(&format!("{:?}", dec)),
			Kind::Comment(c) => s.push_str(&format!("<!--{:?}-->", c)),
			Kind::Doctype => s.push_str("<!doctype>"),
			Kind::Elem { tag, attrs, .. } => {
				s.push_str(&tag.to_ascii_lowercase());
				let mut v: Vec<String> = attrs
					.iter()
					.map(|a| format!("{}={:?}", a.name.to_ascii_lowercase(), a.val))
					.collect();
				v.sort();
				s.push_str(&format!("[{}]", v.join(" ")));
			}
		}
		if matches!(self.n[i].kind, Kind::Root | Kind::Elem { .. }) {
			s.push('{');
			let mut acc: Option<String> = None;
			for c in &self.n[i].children {
				if let Kind::Text { dec, .. } = &self.n[*c].kind {
					acc.get_or_insert_with(String::new).push_str(dec);
					continue;
				}
				if let Some(t) = acc.take() {
					if !t.is_empty() {
						s.push_str(&format!("{:?},", t));
					}
				}
				self.canon_into(*c, s);
				s.push(',');
			}
			if let Some(t) = acc.take() {
				if !t.is_empty() {
					s.push_str(&format!("{:?},", t));
				}
			}
			s.push('}');
		}
	}
	/// deep copy of a subtree inside the arena, detached
	pub fn copy(&mut self, i: Id) -> Id {
		let kind = self.n[i].kind.clone();
		let kids = self.n[i].children.clone();
		let c = self.add(kind);
		for k in kids {
			let kc = self.copy(k);
			self.push_child(c, kc);
		}
		c
	}
	/// copy a subtree of another model into this arena, detached
	pub fn import(&mut self, o: &Model, i: Id) -> Id {
		let c = self.add(o.n[i].kind.clone());
		for k in o.n[i].children.clone() {
			let kc = self.import(o, k);
			self.push_child(c, kc);
		}
		c
	}
}

// ------------------------------------------------------------------------------------------------
// generation

#[derive(Clone)]
pub struct Cfg {
	pub max_els: usize,
	pub tags: &'static [&'static str],
	pub entity: bool,
	pub content_tags: bool,
	pub void_tags: bool,
	pub forms: bool,
	pub comments: bool,
	pub skeleton: usize,
	pub texts: usize,
	pub weird_attr: bool,
	/// empty non-void elements may be written <x />
	pub selfclose: bool,
	/// up to this many select elements with mixed options on top of the rest
	pub selects: usize,
}

pub const TAGS: &[&str] = &["div", "p", "span", "ul", "li", "a", "b", "section", "h1", "h3", "h6", "h7", "em", "x-y"];

pub fn cfg() -> Cfg {
	Cfg {
		max_els: 22,
		tags: TAGS,
		entity: false,
		content_tags: true,
		void_tags: true,
		forms: false,
		comments: true,
		skeleton: 15,
		texts: 35,
		weird_attr: true,
		selfclose: false,
		selects: 0,
	}
}

pub const IDS: &[&str] = &["a", "b", "c", "main", "x1", "A", "a.b", "x:y/2", "a中", "b c"];
pub const CLASSES: &[&str] = &["c1", "c2", "c3", "c", "c-1", "C1", "_x", "sm:w-1/2", "c中", "a-very-long-class-name_of-many-characters-0123456789"];
pub const ANAMES: &[&str] = &["title", "lang", "data-x", "href", "name", "rel", "x.y:z", "数据"];
pub const MORE_ANAMES: &[&str] = &[
	"title", "lang", "data-x", "href", "name", "rel", "data-a", "data-b", "data-c", "data-d", "data-y", "aria-label", "x", "y", "z", "role", "alt", "src", "1a", "_z", "v-on:click.x", "data-averylongattributename-of-many-characters", "q1", "q2",
];
pub const AVALS: &[&str] = &[
	"en", "en-US", "e", "", "a b", "b a c", "ab", "a-b", "A", "en-", "x y-z", "中文", "a  b", " en ", "0", "#x", "a.b/c?d=e",
];
pub const WORDS: &[&str] = &["x", "foo", "bar", "foo bar", "hello", "b", "中文", "1", "é-ü", "foobar", "Foo", "\u{1F600}", "a longer text of several words, with a comma."];

/// entity spellings and what they denote
pub const ENTS: &[(&str, &str)] = &[
	("&amp;", "&"),
	("&lt;", "<"),
	("&gt;", ">"),
	("&quot;", "\""),
	("&nbsp;", "\u{a0}"),
	("&copy;", "©"),
	("&#65;", "A"),
	("&#x42;", "B"),
	("&#20013;", "中"),
	("&eacute;", "é"),
	("&amp;lt;", "&lt;"),
	("&amp;amp;", "&amp;"),
];

pub fn gen_text(s: &mut Src, entity: bool) -> (String, String) {
	if s.chance(15) {
		let w = s.picks(&[" ", "\n", "  ", "\t\n "]);
		return (w.to_string(), w.to_string());
	}
	let k = match s.weighted(&[60, 30, 10, 1]) {
		3 => s.range(5, 40),
		k => 1 + k,
	};
	let mut raw = String::new();
	let mut dec = String::new();
	for j in 0..k {
		if j > 0 && s.chance(50) {
			raw.push(' ');
			dec.push(' ');
		}
		if entity && s.chance(40) {
			let (r, d) = *s.pick(ENTS);
			raw.push_str(r);
			dec.push_str(d);
		} else {
			let w = s.picks(WORDS);
			raw.push_str(w);
			dec.push_str(w);
		}
	}
	(raw, dec)
}

/// quoting that can carry the value
pub fn gen_quote(s: &mut Src, v: &str) -> Option<char> {
	let mut opts: Vec<Option<char>> = vec![];
	if !v.contains('"') {
		opts.push(Some('"'));
	}
	if !v.contains('\'') {
		opts.push(Some('\''));
	}
	if !v.is_empty() && v.chars().all(|c| c.is_alphanumeric() || c == '-') {
		opts.push(None);
	}
	if opts.is_empty() {
		return Some('"');
	}
	let i = s.below(opts.len());
	opts[i]
}

pub fn gen_attr(s: &mut Src, name: &str, c: &Cfg) -> MAttr {
	let val = if s.chance(12) {
		None
	} else if c.weird_attr && s.chance(12) {
		Some(s.picks(&["it's", "say \"x\"", "a>b", "a<b", "x=1", "a/b", "&amp;", "a;b", "/", "a'b'c", "a `q`"]).to_string())
	} else {
		Some(s.picks(AVALS).to_string())
	};
	let quote = match &val {
		Some(v) => gen_quote(s, v),
		None => None,
	};
	MAttr {
		name: name.to_string(),
		val,
		quote,
	}
}

pub fn gen_class_val(s: &mut Src) -> String {
	let k = match s.weighted(&[12, 72, 48, 24, 3]) {
		4 if s.chance(10) => s.range(15, 80),
		4 => s.range(4, 14),
		k => k,
	};
	let mut v = String::new();
	for j in 0..k {
		if j > 0 {
			v.push_str(s.picks(&[" ", " ", "  ", "\t", "\n"]));
		}
		if k > 14 && s.chance(70) {
			v.push_str(&format!("n{}", s.below(60)));
		} else {
			v.push_str(s.picks(CLASSES));
		}
	}
	if s.chance(8) {
		v.insert(0, ' ');
	}
	if s.chance(8) {
		v.push(' ');
	}
	v
}

pub fn case_variant(s: &mut Src, name: &str) -> String {
	if s.chance(10) {
		match s.below(2) {
			0 => name.to_ascii_uppercase(),
			_ => name
				.char_indices()
				.map(|(i, c)| if i == 0 { c.to_ascii_uppercase() } else { c })
				.collect(),
		}
	} else {
		name.to_string()
	}
}

pub fn gen_attrs(s: &mut Src, c: &Cfg, tag: &str) -> Vec<MAttr> {
	let mut v: Vec<MAttr> = vec![];
	let push = |v: &mut Vec<MAttr>, a: MAttr| {
		if !v.iter().any(|x: &MAttr| x.name.eq_ignore_ascii_case(&a.name)) {
			v.push(a)
		}
	};
	if s.chance(25) {
		let val = s.picks(IDS).to_string();
		let quote = gen_quote(s, &val);
		let name = case_variant(s, "id");
		push(&mut v, MAttr { name, val: Some(val), quote });
	}
	if s.chance(45) {
		let name = case_variant(s, "class");
		if s.chance(5) {
			push(&mut v, MAttr { name, val: None, quote: None });
		} else {
			let val = gen_class_val(s);
			let quote = gen_quote(s, &val);
			push(&mut v, MAttr { name, val: Some(val), quote });
		}
	}
	let k = match s.weighted(&[60, 30, 10, 2]) {
		3 => s.range(3, 14),
		k => k,
	};
	for _ in 0..k {
		let nm = if k > 2 { s.picks(MORE_ANAMES) } else { s.picks(ANAMES) };
		let nm = case_variant(s, nm);
		let a = gen_attr(s, &nm, c);
		push(&mut v, a);
	}
	if tag == "input" || tag == "button" {
		if s.chance(70) {
			let val = s
				.picks(&["checkbox", "radio", "text", "submit", "CheckBox", "button", "Submit"])
				.to_string();
			let quote = gen_quote(s, &val);
			push(&mut v, MAttr { name: "type".into(), val: Some(val), quote });
		}
		if s.chance(40) {
			push(&mut v, MAttr { name: "checked".into(), val: None, quote: None });
		}
	}
	if tag == "option" && s.chance(35) {
		let val = if s.chance(50) { Some("selected".to_string()) } else { None };
		let quote = val.as_ref().map(|_| '"');
		push(&mut v, MAttr { name: "selected".into(), val, quote });
	}
	if tag == "select" && s.chance(35) {
		push(&mut v, MAttr { name: "multiple".into(), val: None, quote: None });
	}
	if (tag == "option" || tag == "input" || tag == "select") && s.chance(70) {
		let a = gen_attr(s, "value", c);
		push(&mut v, a);
	}
	if v.len() > 1 && s.chance(30) {
		let k = s.below(v.len());
		v.rotate_left(k);
	}
	v
}

/// a tree of up to max_els elements hung below `top` (any node that may have children)
/// a tag that takes children
fn box_tag(s: &mut Src, c: &Cfg) -> String {
	let t = s.picks(c.tags);
	if is_void(t) || is_content(t) { "div".to_string() } else { t.to_string() }
}

pub fn gen_under(s: &mut Src, c: &Cfg, m: &mut Model, top: Id) {
	let ntags = s.range(1, 4);
	let mut pool: Vec<&str> = vec![];
	for _ in 0..ntags {
		pool.push(s.picks(c.tags));
	}
	let size = match s.weighted(&[3, 5, 2]) {
		0 => s.range(0, 4.min(c.max_els)),
		1 => s.range(1, (c.max_els / 2).max(1)),
		_ => s.range(1, c.max_els),
	};
	// now and then a long list of siblings or a deep chain
	let (size, shape) = match if c.max_els >= 10 { s.weighted(&[964, 20, 10, 6]) } else { 0 } {
		0 => (size, 0),
		3 => {
			// many small branches of the same kind, like the rows of a table
			let tags: Vec<String> = (0..s.range(1, 3)).map(|_| box_tag(s, c)).collect();
			let most = if s.chance(30) { 150 } else { 60 };
			let rows = s.range(10, most);
			let odd = s.chance(50);
			let mut home = top;
			if s.chance(50) {
				let t = box_tag(s, c);
				home = m.elem(&t, vec![]);
				m.push_child(top, home);
			}
			for r in 0..rows {
				let mut p = home;
				for t in &tags {
					let attrs = if odd && s.chance(15) { gen_attrs(s, c, t) } else { vec![] };
					let e = m.elem(t, attrs);
					m.push_child(p, e);
					p = e;
				}
				if r % 3 == 0 {
					let t = m.text(&r.to_string());
					m.push_child(p, t);
				}
			}
			return;
		}
		1 => {
			let most = if s.chance(20) { 260 } else { 70 };
			(s.range(20, most), 1)
		}
		_ => (s.range(12, 70), 2),
	};
	let mut open: Vec<Id> = vec![top];
	let mut mine: Vec<Id> = vec![top];
	for _ in 0..size {
		// parent: bias to the most recent containers
		let p = if shape == 1 && s.chance(90) {
			open[1.min(open.len() - 1)]
		} else if shape == 2 && s.chance(90) || s.chance(55) {
			*open.last().unwrap()
		} else {
			let k = s.below(open.len());
			open[k]
		};
		let ptag = m.tag(p);
		let tag: String = if ptag == "select" && s.chance(85) {
			s.picks(&["option", "option", "optgroup"]).to_string()
		} else if ptag == "optgroup" && s.chance(90) {
			"option".to_string()
		} else if c.forms && s.chance(35) {
			s.picks(&["select", "input", "textarea", "button", "option", "form"]).to_string()
		} else if c.void_tags && s.chance(8) {
			s.picks(&["br", "img", "input", "hr"]).to_string()
		} else if c.content_tags && s.chance(5) {
			s.picks(&["script", "style", "textarea", "title"]).to_string()
		} else {
			let k = s.below(pool.len());
			case_variant(s, pool[k])
		};
		let low = tag.to_ascii_lowercase();
		let attrs = gen_attrs(s, c, &low);
		let e = m.elem(&tag, attrs);
		if is_void(&tag) && s.chance(50) {
			if let Kind::Elem { selfclose, .. } = &mut m.n[e].kind {
				*selfclose = true;
			}
		}
		m.push_child(p, e);
		if is_content(&tag) {
			if s.chance(70) {
				let k = s.picks(&["x", "foo", "var a = 1;", "bar baz", " "]).to_string();
				let t = m.text(&k);
				m.push_child(e, t);
			}
		} else if !is_void(&tag) {
			open.push(e);
			mine.push(e);
			if shape == 0 && open.len() > 2 && s.chance(20) {
				open.remove(1);
			}
		}
	}
	// texts and comments in the gaps
	for p in mine {
		if c.selfclose && p != top && m.n[p].children.is_empty() && s.chance(12) {
			if let Kind::Elem { selfclose, .. } = &mut m.n[p].kind {
				*selfclose = true;
			}
			continue;
		}
		let mut at = 0;
		let mut prev_text = false;
		loop {
			if !prev_text && s.chance(c.texts) {
				let (raw, dec) = gen_text(s, c.entity);
				let t = m.add(Kind::Text { raw, dec });
				m.insert_child(p, at, t);
				at += 1;
			} 
			let cs = if !c.comments {
				0
			} else if s.chance(4) {
				1
			} else if c.comments && s.below(500) == 499 {
				s.range(2, 40)
			} else {
				0
			};
			for _ in 0..cs {
				let w = s.picks(&["c", " foo ", "<b>", "a-b", "<p class='c1'>x</p>"]).to_string();
				let t = m.add(Kind::Comment(w));
				m.insert_child(p, at, t);
				at += 1;
			}
			if at >= m.n[p].children.len() {
				break;
			}
			at += 1;
			prev_text = false;
		}
	}
}

/// a select with a heavier mix of options than the general generator gives
pub fn gen_select(s: &mut Src, m: &mut Model, p: Id) {
	let c = cfg();
	let attrs = gen_attrs(s, &c, "select");
	let sel = m.elem("select", attrs);
	m.push_child(p, sel);
	let sel_rate = s.picks(&["0", "15", "60", "100"]).parse::<usize>().unwrap();
	let mut at = sel;
	let k = if s.chance(3) { s.range(8, 90) } else { s.range(0, 7) };
	for _ in 0..k {
		match s.weighted(&[6, 2, 2, 1]) {
			0 => {
				let mut attrs = vec![];
				if s.chance(85) {
					let val = if s.chance(8) { None } else { Some(s.picks(&["1", "2", "3", "a b", "", "中", "x,y"]).to_string()) };
					attrs.push(MAttr { name: case_variant(s, "value"), quote: val.as_ref().map(|_| '"'), val });
				}
				if s.below(100) < sel_rate {
					let val = match s.below(3) {
						0 => None,
						1 => Some(String::new()),
						_ => Some("selected".to_string()),
					};
					let q = val.as_ref().map(|_| '"');
					let a = MAttr { name: case_variant(s, "selected"), val, quote: q };
					if s.chance(50) {
						attrs.insert(0, a);
					} else {
						attrs.push(a);
					}
				}
				let tag = case_variant(s, "option");
				let o = m.elem(&tag, attrs);
				m.push_child(at, o);
				if s.chance(70) {
					let w = s.picks(WORDS).to_string();
					let t = m.text(&w);
					m.push_child(o, t);
				}
			}
			1 => {
				let g = m.elem("optgroup", vec![]);
				// now and then a group in a group
				let home = if s.chance(15) { at } else { sel };
				m.push_child(home, g);
				at = g;
			}
			2 => at = sel,
			_ => {
				let t = m.text("\n");
				let last_is_text = m.n[at].children.last().map_or(false, |k| m.is_text(*k));
				if !last_is_text {
					m.push_child(at, t);
				}
			}
		}
	}
}

pub fn gen_doc(s: &mut Src, c: &Cfg) -> Model {
	let mut m = Model::new();
	if s.chance(c.skeleton) {
		if s.chance(50) {
			let d = m.add(Kind::Doctype);
			m.push_child(0, d);
		}
		let h = m.elem("html", vec![]);
		m.push_child(0, h);
		if s.chance(70) {
			let hd = m.elem("head", vec![]);
			m.push_child(h, hd);
			if s.chance(70) {
				let t = m.elem("title", vec![]);
				m.push_child(hd, t);
				let w = s.picks(WORDS).to_string();
				let x = m.text(&w);
				m.push_child(t, x);
			}
		}
		let attrs = gen_attrs(s, c, "body");
		let b = m.elem("body", attrs);
		m.push_child(h, b);
		gen_under(s, c, &mut m, b);
	} else {
		gen_under(s, c, &mut m, 0);
	}
	if c.selects > 0 {
		for _ in 0..s.range(0, c.selects) {
			let mut homes: Vec<Id> = m.els().into_iter().filter(|i| !m.is_void(*i) && !m.is_content(*i) && !selfclosed(&m, *i) && !matches!(m.tag(*i).as_str(), "select" | "option" | "optgroup" | "html" | "head")).collect();
			if homes.is_empty() {
				homes.push(0);
			}
			let h = homes[s.below(homes.len())];
			gen_select(s, &mut m, h);
		}
	}
	m
}

fn selfclosed(m: &Model, i: Id) -> bool {
	matches!(&m.n[i].kind, Kind::Elem { selfclose: true, .. })
}

// ------------------------------------------------------------------------------------------------
// binding to the library

pub struct Bound {
	pub root: Els,
	/// handles of model nodes
	pub h: Vec<Option<El>>,
}

pub fn node_kind(n: &BoxDynNode) -> &'static str {
	match n.node_type() {
		INodeType::Element => "element",
		INodeType::Text => "text",
		INodeType::Comment => "comment",
		INodeType::HTMLDOCTYPE => "doctype",
		INodeType::Document => "document",
		INodeType::DocumentFragement => "fragment",
		INodeType::XMLCDATA => "cdata",
		INodeType::Other => "other",
	}
}

pub fn attr_val(v: &IAttrValue) -> Option<String> {
	match v {
		IAttrValue::Value(s, _) => Some(s.clone()),
		IAttrValue::True => None,
	}
}

/// the quote-kind entities that set_attr may write into a raw value
pub fn unq(s: &str) -> String {
	s.replace("&quot;", "\"").replace("&apos;", "'").replace("&#39;", "'").replace("&#34;", "\"")
}

pub fn attrs_equal(m: &Model, i: Id, e: &El, quotes: bool) -> Res {
	let got: Vec<(String, Option<String>)> = e
		.get_attributes()
		.iter()
		.map(|(n, v)| (n.to_ascii_lowercase(), attr_val(v)))
		.collect();
	let want: Vec<(String, Option<String>)> = m
		.attrs(i)
		.iter()
		.map(|a| (a.name.to_ascii_lowercase(), a.val.clone()))
		.collect();
	let norm = |v: &Vec<(String, Option<String>)>| -> Vec<(String, Option<String>)> {
		v.iter()
			.map(|(n, x)| (n.clone(), if quotes { x.as_ref().map(|s| unq(s)) } else { x.clone() }))
			.collect()
	};
	if norm(&got) != norm(&want) {
		return Err(format!(
			"attributes of <{}> are {:?}, expected {:?}",
			m.tag(i),
			got,
			want
		));
	}
	Ok(())
}

pub struct BindOpt {
	/// adjacent text nodes are compared merged (after a reload) instead of node by node
	pub merge_text: bool,
	/// treat quote entities in attribute values as quotes
	pub quotes: bool,
	pub attrs: bool,
}

pub const STRICT: BindOpt = BindOpt { merge_text: false, quotes: false, attrs: true };

/// Walks library tree and model in parallel; checks kinds, names, attributes, text, parent, index and
/// child links; returns the handles.
pub fn bind_at(m: &Model, top: Id, e: &El, o: &BindOpt, h: &mut Vec<Option<El>>) -> Res {
	h[top] = Some(e.cloned());
	let total = e.child_nodes_length();
	let nodes = e.child_nodes();
	if nodes.len() != total {
		return Err(format!("child_nodes() has {} items, child_nodes_length() says {}", nodes.len(), total));
	}
	if m.is_content(top) {
		let want = m.text_of(top);
		if e.text() != want {
			return Err(format!("content of <{}> is {:?}, expected {:?}", m.tag(top), e.text(), want));
		}
		if e.children().length() != 0 {
			return Err(format!("content tag <{}> has element children", m.tag(top)));
		}
		return Ok(());
	}
	// expected child list
	enum X {
		E(Id),
		T(String),
		C(String),
		D,
	}
	let mut want: Vec<X> = vec![];
	for c in &m.n[top].children {
		match &m.n[*c].kind {
			Kind::Elem { .. } => want.push(X::E(*c)),
			Kind::Text { dec, .. } => {
				if o.merge_text {
					if let Some(X::T(t)) = want.last_mut() {
						t.push_str(dec);
						continue;
					}
					if dec.is_empty() {
						continue;
					}
				}
				want.push(X::T(dec.clone()))
			}
			Kind::Comment(t) => want.push(X::C(t.clone())),
			Kind::Doctype => want.push(X::D),
			Kind::Root => {}
		}
	}
	let mut got: Vec<(&'static str, String, usize)> = vec![];
	for (k, n) in nodes.iter().enumerate() {
		let kind = node_kind(n);
		if n.index() != k {
			return Err(format!("child {} ({}) of {} reports index {}", k, kind, show(m, top), n.index()));
		}
		match n.parent() {
			Some(p) if p.is(e) => {}
			Some(_) => return Err(format!("child {} ({}) of {} has another parent", k, kind, show(m, top))),
			None => return Err(format!("child {} ({}) of {} has no parent", k, kind, show(m, top))),
		}
		let t = match kind {
			"text" | "comment" => n.text(),
			_ => String::new(),
		};
		if o.merge_text && kind == "text" {
			if let Some(l) = got.last_mut() {
				if l.0 == "text" {
					l.1.push_str(&t);
					continue;
				}
			}
		}
		got.push((kind, t, k));
	}
	let descr = || -> String {
		let w: Vec<String> = want
			.iter()
			.map(|x| match x {
				X::E(i) => format!("<{}>", m.tag(*i)),
				X::T(t) => format!("{:?}", t),
				X::C(t) => format!("<!--{}-->", t),
				X::D => "<!doctype>".to_string(),
			})
			.collect();
		let g: Vec<String> = got
			.iter()
			.map(|(k, t, i)| match *k {
				"element" => format!("<{}>", nodes[*i].clone_node().typed().into_element().map(|e| e.tag_name().to_lowercase()).unwrap_or_default()),
				"text" => format!("{:?}", t),
				"comment" => format!("<!--{}-->", t),
				x => format!("#{}", x),
			})
			.collect();
		format!("children of {} are [{}], expected [{}]", show(m, top), g.join(", "), w.join(", "))
	};
	if got.len() != want.len() {
		return Err(descr());
	}
	let mut elems = vec![];
	for (k, x) in want.iter().enumerate() {
		let (kind, t, idx) = &got[k];
		match x {
			X::E(i) => {
				if *kind != "element" {
					return Err(descr());
				}
				let c = match nodes[*idx].clone_node().typed().into_element() {
					Some(c) => c,
					None => return Err(descr()),
				};
				if c.tag_name().to_ascii_lowercase() != m.tag(*i) {
					return Err(descr());
				}
				if o.attrs {
					attrs_equal(m, *i, &c, o.quotes)?;
				}
				elems.push((*i, c));
			}
			X::T(w) => {
				if *kind != "text" || t != w {
					return Err(descr());
				}
				if !matches!(nodes[*idx].clone_node().typed(), IEnumTyped::Text(_)) {
					return Err(format!("text node {:?} is not typed as a text", w));
				}
			}
			X::C(w) => {
				if *kind != "comment" || t != w {
					return Err(descr());
				}
				if !matches!(nodes[*idx].clone_node().typed(), IEnumTyped::UncareNode(_)) {
					return Err(format!("comment {:?} is typed as an element or a text", w));
				}
			}
			X::D => {
				if *kind != "doctype" {
					return Err(descr());
				}
			}
		}
	}
	let kids = e.children();
	if kids.length() != elems.len() {
		return Err(format!("children() of {} has {} elements, expected {}", show(m, top), kids.length(), elems.len()));
	}
	for (k, (i, c)) in elems.iter().enumerate() {
		if !kids.get(k).unwrap().is(c) {
			return Err(format!("children()[{}] of {} is not its {}-th element child", k, show(m, top), k));
		}
		bind_at(m, *i, c, o, h)?;
	}
	Ok(())
}

pub fn bind_with(m: &Model, root: Els, o: &BindOpt) -> Res<Bound> {
	let mut h: Vec<Option<El>> = Vec::with_capacity(m.n.len());
	for _ in 0..m.n.len() {
		h.push(None);
	}
	if root.length() != 1 {
		return Err(format!("loaded set has {} elements", root.length()));
	}
	let e = root.get(0).unwrap().cloned();
	if !e.is_root_element() {
		return Err("loaded set does not hold the root".into());
	}
	bind_at(m, m.root, &e, o, &mut h)?;
	Ok(Bound { root, h })
}

pub fn load(html: &str) -> Res<Els> {
	Vis::load(html.to_string()).map_err(|e| format!("load of {:?} failed: {}", html, e))
}

/// load the model's HTML and bind; a mismatch here is a parse failure of the library
pub fn load_bound(m: &Model) -> Res<Bound> {
	let html = m.html();
	let root = load(&html)?;
	bind_with(m, root, &STRICT).map_err(|e| format!("after loading {:?}: {}", html, e))
}

/// the live tree below the (already bound) root still is the model's tree
pub fn check_tree(m: &Model, b: &Bound, o: &BindOpt) -> Res {
	let mut h: Vec<Option<El>> = Vec::with_capacity(m.n.len());
	for _ in 0..m.n.len() {
		h.push(None);
	}
	let e = b.root.get(0).unwrap().cloned();
	bind_at(m, m.root, &e, o, &mut h)?;
	for i in m.els() {
		if let (Some(a), Some(c)) = (&b.h[i], &h[i]) {
			if !a.is(c) {
				return Err(format!("{} in the tree is not the node that was put there", show(m, i)));
			}
		}
	}
	Ok(())
}

/// short description of a node by path
pub fn show(m: &Model, i: Id) -> String {
	if i == m.root {
		return "#root".into();
	}
	let mut parts = vec![];
	let mut c = i;
	loop {
		match &m.n[c].kind {
			Kind::Elem { tag, .. } => {
				let k = m.index(c);
				parts.push(format!("{}[{}]", tag.to_ascii_lowercase(), k));
			}
			Kind::Root => {
				parts.push("#root".into());
			}
			_ => parts.push(format!("node[{}]", m.index(c))),
		}
		match m.n[c].parent {
			Some(p) => c = p,
			None => break,
		}
	}
	parts.reverse();
	parts.join("/")
}

pub fn show_all(m: &Model, v: &[Id]) -> String {
	let s: Vec<String> = v.iter().map(|i| show(m, *i)).collect();
	format!("[{}]", s.join(", "))
}

impl Bound {
	pub fn el(&self, i: Id) -> &El {
		self.h[i].as_ref().expect("bound element")
	}
	pub fn set(&self, ids: &[Id]) -> Els {
		Elements::with_nodes(ids.iter().map(|i| self.el(*i).cloned()).collect())
	}
	pub fn id_of(&self, e: &El) -> Option<Id> {
		self
			.h
			.iter()
			.position(|x| x.as_ref().map_or(false, |x| x.is(e)))
	}
	pub fn ids(&self, es: &Els) -> Vec<Option<Id>> {
		es.get_ref().iter().map(|e| self.id_of(e)).collect()
	}
	/// result is exactly `want`, in that order
	pub fn same(&self, m: &Model, got: &Els, want: &[Id]) -> Res {
		let g = got.get_ref();
		let mut ok = g.len() == want.len() && got.length() == want.len();
		if ok {
			for (e, i) in g.iter().zip(want) {
				if !self.el(*i).is(e) {
					ok = false;
					break;
				}
			}
		}
		if ok {
			return Ok(());
		}
		let gs: Vec<String> = g
			.iter()
			.map(|e| match self.id_of(e) {
				Some(i) => show(m, i),
				None => format!("?<{}>", e.tag_name()),
			})
			.collect();
		Err(format!("got [{}], expected {}", gs.join(", "), show_all(m, want)))
	}
}
