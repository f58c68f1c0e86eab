//! Selector AST, generator, printer (random equivalent spellings) and the reference matcher,
//! written from the CSS / jQuery definitions.
use crate::model::*;
use crate::tape::Src;
use std::collections::HashSet;

#[derive(Clone, Debug, PartialEq)]
pub enum Nth {
	AB(i64, i64),
	Odd,
	Even,
	Num(i64),
}

#[derive(Clone, Debug)]
pub enum Simple {
	Univ,
	Tag(String),
	Id(String),
	Class(String),
	/// name, operator ("" = presence), value
	Attr(String, String, String),
	/// last, of_type
	NthP(bool, bool, Nth),
	FirstChild,
	LastChild,
	OnlyChild,
	FirstType,
	LastType,
	OnlyType,
	Empty,
	Root,
	Not(Group),
	Has(Group),
	Contains(String),
	Header,
	Input,
	Submit,
	Checked,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Comb {
	Desc,
	Child,
	Next,
	Sib,
}

pub type Compound = Vec<Simple>;

#[derive(Clone, Debug)]
pub struct Complex {
	pub head: Compound,
	pub rest: Vec<(Comb, Compound)>,
}
pub type Group = Vec<Complex>;

// ------------------------------------------------------------------------------------------------
// reference matcher

pub fn nth_ab(n: &Nth) -> (i64, i64) {
	match n {
		Nth::AB(a, b) => (*a, *b),
		Nth::Odd => (2, 1),
		Nth::Even => (2, 0),
		Nth::Num(b) => (0, *b),
	}
}
/// is there k >= 0 with a*k + b == pos (pos >= 1)
pub fn nth_ok(a: i64, b: i64, pos: i64) -> bool {
	let (a, b, pos) = (a as i128, b as i128, pos as i128);
	if a == 0 {
		return pos == b;
	}
	let d = pos - b;
	d % a == 0 && d / a >= 0
}

pub fn is_selected_any(m: &Model, sel: Id) -> bool {
	// an option's own content is text; markup inside an option never holds options of the select
	m.kids(sel).iter().any(|o| {
		if m.tag(*o) == "option" {
			m.attr(*o, "selected").is_some()
		} else {
			is_selected_any(m, *o)
		}
	})
}

pub fn m_simple(m: &Model, i: Id, s: &Simple) -> bool {
	match s {
		Simple::Univ => true,
		Simple::Tag(t) => m.tag(i) == t.to_ascii_lowercase(),
		Simple::Id(v) => m.attr(i, "id") == Some(Some(v.as_str())),
		Simple::Class(c) => m.classes(i).iter().any(|x| x == c),
		Simple::Attr(n, op, v) => {
			let a = m.attr(i, n);
			let val = a.map(|x| x.unwrap_or("").to_string());
			match op.as_str() {
				"" => a.is_some(),
				"=" => val.map_or(false, |x| x == *v),
				"~=" => !v.is_empty() && val.map_or(false, |x| x.split_ascii_whitespace().any(|w| w == v)),
				"|=" => val.map_or(false, |x| x == *v || x.starts_with(&format!("{}-", v))),
				"^=" => !v.is_empty() && val.map_or(false, |x| x.starts_with(v.as_str())),
				"$=" => !v.is_empty() && val.map_or(false, |x| x.ends_with(v.as_str())),
				"*=" => !v.is_empty() && val.map_or(false, |x| x.contains(v.as_str())),
				"!=" => val.map_or(true, |x| x != *v),
				_ => unreachable!(),
			}
		}
		Simple::NthP(last, of_type, n) => {
			let (a, b) = nth_ab(n);
			let mut l = m.sibs(i);
			if *of_type {
				let t = m.tag(i);
				l.retain(|x| m.tag(*x) == t);
			}
			let mut p = l.iter().position(|x| *x == i).unwrap();
			if *last {
				p = l.len() - 1 - p;
			}
			nth_ok(a, b, p as i64 + 1)
		}
		Simple::FirstChild => m.sibs(i)[0] == i,
		Simple::LastChild => *m.sibs(i).last().unwrap() == i,
		Simple::OnlyChild => m.sibs(i).len() == 1,
		Simple::FirstType => m.sibs(i).iter().find(|x| m.tag(**x) == m.tag(i)) == Some(&i),
		Simple::LastType => m.sibs(i).iter().rev().find(|x| m.tag(**x) == m.tag(i)) == Some(&i),
		Simple::OnlyType => m.sibs(i).iter().filter(|x| m.tag(**x) == m.tag(i)).count() == 1,
		Simple::Empty => m.n[i]
			.children
			.iter()
			.all(|c| matches!(&m.n[*c].kind, Kind::Comment(_))),
		Simple::Root => m.tag(i) == "html" && m.n[i].parent == Some(m.root),
		Simple::Not(g) => !m_group(m, i, g),
		Simple::Has(g) => m_has(m, i, g),
		Simple::Contains(t) => m.text_of(i).contains(t.as_str()),
		Simple::Header => ["h1", "h2", "h3", "h4", "h5", "h6"].contains(&m.tag(i).as_str()),
		Simple::Input => ["input", "select", "textarea", "button"].contains(&m.tag(i).as_str()),
		Simple::Submit => {
			["input", "button"].contains(&m.tag(i).as_str()) && m.attr(i, "type") == Some(Some("submit"))
		}
		Simple::Checked => match m.tag(i).as_str() {
			"input" => match m.attr(i, "type") {
				Some(Some(t)) => {
					let t = t.to_ascii_lowercase();
					(t == "checkbox" || t == "radio") && m.attr(i, "checked").is_some()
				}
				_ => false,
			},
			"option" => {
				if m.attr(i, "selected").is_some() {
					return true;
				}
				match m.parent_el(i) {
					Some(p) if m.tag(p) == "select" => {
						m.attr(p, "multiple").is_none()
							&& !is_selected_any(m, p)
							&& m.kids(p).iter().find(|x| m.tag(**x) == "option") == Some(&i)
					}
					_ => false,
				}
			}
			_ => false,
		},
	}
}

pub fn m_compound(m: &Model, i: Id, c: &Compound) -> bool {
	c.iter().all(|s| m_simple(m, i, s))
}

/// does i match the complex selector with the ancestors taken from the whole document
pub fn m_complex(m: &Model, i: Id, c: &Complex) -> bool {
	fn go(m: &Model, i: Id, c: &Complex, k: usize, seen: &mut HashSet<(Id, usize)>) -> bool {
		// what was tried before did not match, or the search would have ended
		if c.rest.len() > 2 && !seen.insert((i, k)) {
			return false;
		}
		let comp = if k == 0 { &c.head } else { &c.rest[k - 1].1 };
		if !m_compound(m, i, comp) {
			return false;
		}
		if k == 0 {
			return true;
		}
		let sibs = m.sibs(i);
		let pos = sibs.iter().position(|x| *x == i).unwrap();
		match c.rest[k - 1].0 {
			Comb::Desc => m.ancestors(i).iter().any(|a| go(m, *a, c, k - 1, seen)),
			Comb::Child => m.parent_el(i).map_or(false, |p| go(m, p, c, k - 1, seen)),
			Comb::Next => pos > 0 && go(m, sibs[pos - 1], c, k - 1, seen),
			Comb::Sib => sibs[..pos].iter().any(|a| go(m, *a, c, k - 1, seen)),
		}
	}
	go(m, i, c, c.rest.len(), &mut HashSet::new())
}

pub fn m_group(m: &Model, i: Id, g: &Group) -> bool {
	g.iter().any(|c| m_complex(m, i, c))
}

/// some descendant matches, with the selector evaluated against the whole document
pub fn m_has(m: &Model, i: Id, g: &Group) -> bool {
	m.desc_els(i).iter().any(|d| m_group(m, *d, g))
}

/// relative find: the head compound must lie below a context element
pub fn ref_find(m: &Model, ctx: &[Id], g: &Group) -> Vec<Id> {
	let mut out = vec![];
	for c in g {
		let mut cur: Vec<Id> = vec![];
		for x in ctx {
			for d in m.desc_els(*x) {
				if m_compound(m, d, &c.head) {
					cur.push(d);
				}
			}
		}
		out.extend(steps(m, cur, &c.rest));
	}
	m.doc_order(out)
}

pub fn steps(m: &Model, mut cur: Vec<Id>, rest: &[(Comb, Compound)]) -> Vec<Id> {
	for (cb, comp) in rest {
		cur = m.doc_order(cur);
		let mut nx = vec![];
		for i in &cur {
			let cand: Vec<Id> = match cb {
				Comb::Desc => m.desc_els(*i),
				Comb::Child => m.kids(*i),
				Comb::Next => {
					let l = m.sibs(*i);
					let p = m.sib_pos(*i);
					l.get(p + 1).copied().into_iter().collect()
				}
				Comb::Sib => {
					let l = m.sibs(*i);
					let p = m.sib_pos(*i);
					l[p + 1..].to_vec()
				}
			};
			nx.extend(cand);
		}
		nx = m.doc_order(nx);
		nx.retain(|c| m_compound(m, *c, comp));
		cur = nx;
	}
	cur
}

// ------------------------------------------------------------------------------------------------
// printer

pub fn ident(s: &mut Src, w: &str) -> String {
	// escape what needs it; sometimes escape what does not
	let mut o = String::new();
	let extra = s.chance(4);
	for (k, c) in w.chars().enumerate() {
		let plain = c.is_ascii_alphanumeric() || c == '-' || c == '_';
		if !plain || (extra && k > 0 && !c.is_ascii_hexdigit()) {
			o.push('\\');
		}
		o.push(c);
	}
	o
}

fn sp(s: &mut Src) -> &'static str {
	if s.chance(12) {
		s.picks(&[" ", "  ", "\t", "\n", " \r\n "])
	} else {
		""
	}
}

pub fn p_nth(s: &mut Src, n: &Nth) -> String {
	match n {
		Nth::Odd => "odd".into(),
		Nth::Even => "even".into(),
		Nth::Num(b) => {
			if *b >= 0 && s.chance(20) {
				format!("+{}", b)
			} else {
				format!("{}", b)
			}
		}
		Nth::AB(a, b) => {
			let mut o = match a {
				1 => s.picks(&["n", "1n", "+n"]).to_string(),
				-1 => s.picks(&["-n", "-1n"]).to_string(),
				a if *a >= 0 && s.chance(20) => format!("+{}n", a),
				a => format!("{}n", a),
			};
			if *b != 0 || s.chance(30) {
				let sep = sp(s);
				o.push_str(sep);
				if *b < 0 {
					o.push('-');
				} else {
					o.push('+');
				}
				let sep = sp(s);
				o.push_str(sep);
				o.push_str(&format!("{}", b.unsigned_abs()));
			}
			o
		}
	}
}

fn attr_plain(v: &str) -> bool {
	!v.is_empty() && !v.chars().any(|c| c.is_whitespace() || "]'\"<>/=`\\".contains(c))
}

pub fn p_simple(s: &mut Src, x: &Simple) -> String {
	match x {
		Simple::Univ => "*".into(),
		Simple::Tag(t) => {
			let t = case_variant(s, t);
			ident(s, &t)
		}
		Simple::Id(v) => format!("#{}", ident(s, v)),
		Simple::Class(v) => format!(".{}", ident(s, v)),
		Simple::Attr(n, op, v) => {
			let n = case_variant(s, n);
			let (a, b) = (sp(s), sp(s));
			if op.is_empty() {
				return format!("[{}{}{}]", a, n, b);
			}
			let mut forms: Vec<String> = vec![];
			if !v.contains('\'') {
				forms.push(format!("'{}'", v));
			}
			if !v.contains('"') {
				forms.push(format!("\"{}\"", v));
			}
			if attr_plain(v) {
				forms.push(v.clone());
			}
			let k = s.below(forms.len());
			let (c, d) = (sp(s), sp(s));
			format!("[{}{}{}{}{}{}{}]", a, n, c, op, d, forms[k], b)
		}
		Simple::NthP(last, of_type, n) => {
			let nm = match (last, of_type) {
				(false, false) => "nth-child",
				(true, false) => "nth-last-child",
				(false, true) => "nth-of-type",
				(true, true) => "nth-last-of-type",
			};
			let (a, b) = (sp(s), sp(s));
			format!(":{}({}{}{})", nm, a, p_nth(s, n), b)
		}
		Simple::FirstChild => ":first-child".into(),
		Simple::LastChild => ":last-child".into(),
		Simple::OnlyChild => ":only-child".into(),
		Simple::FirstType => ":first-of-type".into(),
		Simple::LastType => ":last-of-type".into(),
		Simple::OnlyType => ":only-of-type".into(),
		Simple::Empty => ":empty".into(),
		Simple::Root => ":root".into(),
		Simple::Not(g) => {
			let (a, b) = (sp(s), sp(s));
			format!(":not({}{}{})", a, p_group(s, g), b)
		}
		Simple::Has(g) => {
			let (a, b) = (sp(s), sp(s));
			format!(":has({}{}{})", a, p_group(s, g), b)
		}
		Simple::Contains(t) => {
			let (a, b) = (sp(s), sp(s));
			let mut forms = vec![format!("'{}'", t), format!("\"{}\"", t)];
			if !t.chars().any(|c| c.is_whitespace() || ")'\"<>/=`".contains(c)) {
				forms.push(t.clone());
			}
			let k = s.below(forms.len());
			format!(":contains({}{}{})", a, forms[k], b)
		}
		Simple::Header => ":header".into(),
		Simple::Input => ":input".into(),
		Simple::Submit => ":submit".into(),
		Simple::Checked => ":checked".into(),
	}
}

pub fn p_compound(s: &mut Src, c: &Compound) -> String {
	// tag (or *) first, the others in any order
	let mut head = String::new();
	let mut others = vec![];
	for x in c {
		match x {
			Simple::Univ | Simple::Tag(_) if head.is_empty() => head = p_simple(s, x),
			_ => others.push(p_simple(s, x)),
		}
	}
	if others.len() > 1 && s.chance(50) {
		let k = s.below(others.len());
		others.rotate_left(k);
	}
	format!("{}{}", head, others.concat())
}

pub fn p_complex(s: &mut Src, c: &Complex) -> String {
	let mut o = p_compound(s, &c.head);
	for (cb, comp) in &c.rest {
		match cb {
			Comb::Desc => o.push_str(if s.chance(15) { s.picks(&["  ", "\t", "\n"]) } else { " " }),
			_ => {
				let ch = match cb {
					Comb::Child => ">",
					Comb::Next => "+",
					_ => "~",
				};
				let (a, b) = (s.chance(60), s.chance(60));
				let (w1, w2) = if s.chance(10) { (s.picks(&["  ", "\t", "\n"]), s.picks(&["  ", "\t", "\n", "\r\n"])) } else { (" ", " ") };
				o.push_str(&format!("{}{}{}", if a { w1 } else { "" }, ch, if b { w2 } else { "" }));
			}
		}
		o.push_str(&p_compound(s, comp));
	}
	o
}

pub fn p_group(s: &mut Src, g: &Group) -> String {
	let parts: Vec<String> = g.iter().map(|c| p_complex(s, c)).collect();
	let sep = if parts.len() > 1 {
		s.picks(&[", ", ",", " , ", ",  ", ",\n", "\t,\n\t"])
	} else {
		","
	};
	let o = parts.join(sep);
	if s.chance(3) {
		let (a, b) = (s.picks(&["", " ", "\n\t"]), s.picks(&["", " ", "\n"]));
		return format!("{}{}{}", a, o, b);
	}
	o
}

// ------------------------------------------------------------------------------------------------
// generator

#[derive(Clone, Copy)]
pub struct SelCfg {
	/// weights: basic, structural, functional (:not/:has/:contains), form/heading
	pub w: [usize; 4],
	pub combs: bool,
	pub max_rest: usize,
	pub depth: usize,
	pub groups: bool,
	/// `:root` may appear
	pub root: bool,
}

pub const BASIC: SelCfg = SelCfg { w: [1, 0, 0, 0], combs: true, max_rest: 3, depth: 0, groups: true, root: false };
pub const STRUCT: SelCfg = SelCfg { w: [3, 6, 0, 0], combs: true, max_rest: 2, depth: 0, groups: true, root: true };
pub const FUNC: SelCfg = SelCfg { w: [4, 2, 6, 3], combs: true, max_rest: 2, depth: 2, groups: true, root: false };
pub const MIXED: SelCfg = SelCfg { w: [8, 4, 2, 1], combs: true, max_rest: 3, depth: 1, groups: true, root: false };

pub fn gen_nth(s: &mut Src) -> Nth {
	match s.weighted(&[4, 6, 1, 1]) {
		0 => Nth::Num(*s.pick(&[1, 2, 3, 4, 0, 5, 7, -1, 10, 100, 12, 1000000007])),
		1 => {
			let a = *s.pick(&[2, 1, 3, 0, -1, -2, 4, -3, 5, 10, -5, 99, -4, 6, -10, 11]);
			let b = *s.pick(&[0, 1, 2, 3, -1, -2, 4, 5, -3, 6, 7, 8, 9, 10, -7, 12, 20, 100, -100, 15]);
			Nth::AB(a, b)
		}
		2 => Nth::Odd,
		_ => Nth::Even,
	}
}

fn gen_attr_sel(s: &mut Src, m: &Model, target: Option<Id>) -> Simple {
	if let Some(t) = target {
		let attrs: Vec<MAttr> = m.attrs(t).to_vec();
		if !attrs.is_empty() {
			let a = s.pick(&attrs).clone();
			let name = a.name.to_ascii_lowercase();
			let v = a.val.clone().unwrap_or_default();
			let both = v.contains('"') && v.contains('\'');
			if v.is_empty() || both || v.contains('\n') {
				return match s.below(4) {
					0 => Simple::Attr(name, "=".into(), "".into()),
					1 => Simple::Attr(name, "|=".into(), "".into()),
					2 => Simple::Attr(name, "!=".into(), s.picks(&["x", ""]).into()),
					_ => Simple::Attr(name, "".into(), "".into()),
				};
			}
			let chars: Vec<char> = v.chars().collect();
			let cut = |a: usize, b: usize| -> String { chars[a..b].iter().collect() };
			return match s.below(9) {
				0 => Simple::Attr(name, "".into(), "".into()),
				1 | 2 => Simple::Attr(name, "=".into(), v),
				3 => {
					let w: Vec<&str> = v.split_ascii_whitespace().collect();
					let w = if w.is_empty() { "q" } else { w[s.below(w.len())] };
					Simple::Attr(name, "~=".into(), w.into())
				}
				4 => {
					let w = v.split('-').next().unwrap_or("");
					Simple::Attr(name, "|=".into(), w.into())
				}
				5 => {
					let k = s.range(1, chars.len());
					Simple::Attr(name, "^=".into(), cut(0, k))
				}
				6 => {
					let k = s.below(chars.len());
					Simple::Attr(name, "$=".into(), cut(k, chars.len()))
				}
				7 => {
					let a = s.below(chars.len());
					let b = s.range(a + 1, chars.len());
					Simple::Attr(name, "*=".into(), cut(a, b))
				}
				_ => Simple::Attr(name, "!=".into(), s.picks(&["en", "nope", "a b"]).into()),
			};
		}
	}
	let name = s.picks(&["title", "lang", "data-x", "href", "id", "class", "name"]).to_string();
	let op = s.picks(&["", "=", "~=", "|=", "^=", "$=", "*=", "!="]).to_string();
	let v = if op.is_empty() { "" } else { s.picks(AVALS) };
	Simple::Attr(name, op, v.to_string())
}

fn gen_simple(s: &mut Src, m: &Model, c: &SelCfg, target: Option<Id>) -> Simple {
	match s.weighted(&c.w) {
		0 => match s.weighted(&[5, 2, 4, 4, 1]) {
			0 => match target {
				Some(t) => Simple::Tag(m.tag(t)),
				None => Simple::Tag(s.picks(TAGS).to_string()),
			},
			1 => match target.and_then(|t| m.attr(t, "id").flatten().map(|x| x.to_string())) {
				Some(v) if !v.is_empty() => Simple::Id(v),
				_ => Simple::Id(s.picks(IDS).to_string()),
			},
			2 => {
				let cl = target.map(|t| m.classes(t)).unwrap_or_default();
				if cl.is_empty() {
					Simple::Class(s.picks(CLASSES).to_string())
				} else {
					Simple::Class(s.pick(&cl).clone())
				}
			}
			3 => gen_attr_sel(s, m, target),
			_ => Simple::Univ,
		},
		1 => {
			let r = if c.root { 10 } else { 9 };
			match s.below(if c.root { 22 } else { 20 }) {
				0 => Simple::FirstChild,
				1 => Simple::LastChild,
				2 => Simple::OnlyChild,
				3 => Simple::FirstType,
				4 => Simple::LastType,
				5 => Simple::OnlyType,
				6 | 7 => Simple::Empty,
				20 | 21 if r == 10 => Simple::Root,
				k => Simple::NthP(k % 2 == 1, (k / 2) % 2 == 1, gen_nth(s)),
			}
		}
		2 => {
			let inner = SelCfg {
				depth: c.depth.saturating_sub(1),
				max_rest: 1.min(c.max_rest),
				w: if c.depth <= 1 { [c.w[0] + 1, c.w[1], 0, c.w[3]] } else { c.w },
				root: false,
				..*c
			};
			match s.below(5) {
				0 | 1 => {
					let t = if s.chance(30) { target } else { pick_el(s, m) };
					Simple::Not(gen_group(s, m, &inner, t, &[m.root]))
				}
				2 | 3 => {
					let d = target.map(|t| m.desc_els(t)).unwrap_or_default();
					let t = if d.is_empty() { pick_el(s, m) } else { Some(d[s.below(d.len())]) };
					let ctx: Vec<Id> = match target {
						Some(x) if !d.is_empty() => vec![x],
						_ => vec![m.root],
					};
					Simple::Has(gen_group(s, m, &inner, t, &ctx))
				}
				_ => {
					let t = target.map(|t| m.text_of(t)).unwrap_or_default();
					let ch: Vec<char> = t.chars().collect();
					if !ch.is_empty() && s.chance(70) {
						let a = s.below(ch.len());
						let b = (a + 1 + s.below(6)).min(ch.len());
						let v: String = ch[a..b].iter().collect();
						if !v.contains(['\n', '\'', '"', '\\', ')', '(']) {
							return Simple::Contains(v);
						}
					}
					Simple::Contains(s.picks(WORDS).to_string())
				}
			}
		}
		_ => match s.below(5) {
			0 => Simple::Header,
			1 => Simple::Input,
			2 => Simple::Submit,
			_ => Simple::Checked,
		},
	}
}

pub fn pick_el(s: &mut Src, m: &Model) -> Option<Id> {
	let e = m.els();
	if e.is_empty() {
		None
	} else {
		Some(e[s.below(e.len())])
	}
}

/// a compound; when `target` is given, usually one it matches
pub fn gen_compound(s: &mut Src, m: &Model, c: &SelCfg, target: Option<Id>) -> Compound {
	let k = match s.weighted(&[60, 30, 10, 3]) {
		3 => s.range(4, 8),
		k => k + 1,
	};
	let mut v: Compound = vec![];
	for _ in 0..k {
		let mut x = gen_simple(s, m, c, target);
		if let Some(t) = target {
			// mostly keep only what the target matches
			if !m_simple(m, t, &x) && !s.chance(15) {
				x = gen_simple(s, m, c, target);
				if !m_simple(m, t, &x) && !s.chance(25) {
					continue;
				}
			}
		}
		let is_name = |x: &Simple| matches!(x, Simple::Univ | Simple::Tag(_));
		if is_name(&x) && v.iter().any(is_name) {
			continue;
		}
		v.push(x);
	}
	if v.is_empty() {
		v.push(match target {
			Some(t) => Simple::Tag(m.tag(t)),
			None => Simple::Univ,
		});
	}
	v
}

/// a complex selector; built backwards from `target` so that it usually matches it
pub fn gen_complex(s: &mut Src, m: &Model, c: &SelCfg, target: Option<Id>, ctx: &[Id]) -> Complex {
	let last = gen_compound(s, m, c, target);
	let steps_n = if c.combs {
		match s.weighted(&[50, 40, 20, 10, 4]) {
			// now and then a long one
			4 if c.max_rest > 1 => s.range(4, 9),
			k => k.min(c.max_rest),
		}
	} else {
		0
	};
	let mut rev: Vec<(Comb, Compound)> = vec![];
	let mut cur_comp = last;
	let mut cur = target;
	for _ in 0..steps_n {
		let cb = *s.pick(&[Comb::Desc, Comb::Child, Comb::Next, Comb::Sib]);
		let prev: Option<Id> = match cur {
			None => None,
			Some(i) => {
				let sibs = m.sibs(i);
				let pos = m.sib_pos(i);
				let inside = |a: &Id| ctx.iter().any(|x| m.is_anc(*x, *a));
				match cb {
					Comb::Desc => {
						let a: Vec<Id> = m.ancestors(i).into_iter().filter(inside).collect();
						if a.is_empty() { None } else { Some(a[s.below(a.len())]) }
					}
					Comb::Child => m.parent_el(i).filter(|a| inside(a)),
					Comb::Next => {
						if pos > 0 { Some(sibs[pos - 1]) } else { None }
					}
					Comb::Sib => {
						if pos > 0 { Some(sibs[s.below(pos)]) } else { None }
					}
				}
			}
		};
		if prev.is_none() && cur.is_some() && !s.chance(12) {
			continue;
		}
		let comp = gen_compound(s, m, c, prev);
		rev.push((cb, std::mem::replace(&mut cur_comp, comp)));
		cur = prev;
	}
	rev.reverse();
	Complex { head: cur_comp, rest: rev }
}

pub fn gen_group(s: &mut Src, m: &Model, c: &SelCfg, target: Option<Id>, ctx: &[Id]) -> Group {
	let k = if c.groups {
		match s.weighted(&[70, 20, 10, 3]) {
			3 if c.max_rest > 1 => s.range(4, 12),
			k => (k + 1).min(3),
		}
	} else {
		1
	};
	let mut g = vec![];
	for j in 0..k {
		let t = if j == 0 { target } else { pick_el(s, m) };
		g.push(gen_complex(s, m, c, t, ctx));
	}
	g
}

/// like gen_subset, now and then not in document order (moved elements, hand-made sets)
pub fn gen_subset_any(s: &mut Src, m: &Model, allow_empty: bool) -> Vec<Id> {
	let mut v = gen_subset(s, m, allow_empty);
	if v.len() > 1 && s.chance(15) {
		if s.chance(30) {
			v.reverse();
		} else {
			for k in (1..v.len()).rev() {
				let j = s.below(k + 1);
				v.swap(k, j);
			}
		}
	}
	v
}

/// non-empty subset of elements in document order
pub fn gen_subset(s: &mut Src, m: &Model, allow_empty: bool) -> Vec<Id> {
	let e = m.els();
	if e.is_empty() {
		return vec![];
	}
	let v: Vec<Id> = match s.weighted(&[4, 3, 3, 1, 2, 1]) {
		0 => vec![e[s.below(e.len())]],
		5 => {
			// everything of one kind
			let t = m.tag(e[s.below(e.len())]);
			e.iter().copied().filter(|i| m.tag(*i) == t).collect()
		}
		1 => {
			let k = s.range(1, 4);
			(0..k).map(|_| e[s.below(e.len())]).collect()
		}
		2 => {
			let p = *s.pick(&[20, 50, 80]);
			e.iter().copied().filter(|_| s.chance(p)).collect()
		}
		3 => e.clone(),
		_ => {
			// an element with some relatives
			let x = e[s.below(e.len())];
			let mut v = vec![x];
			v.extend(m.ancestors(x).into_iter().filter(|_| s.chance(50)));
			v.extend(m.sibs(x).into_iter().filter(|_| s.chance(40)));
			v.extend(m.kids(x).into_iter().filter(|_| s.chance(40)));
			v
		}
	};
	let v = m.doc_order(v);
	if v.is_empty() && !allow_empty {
		return vec![e[s.below(e.len())]];
	}
	v
}
