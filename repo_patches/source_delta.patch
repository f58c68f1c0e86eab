From 27b2dc6a0c049408810c23a4693c8fb8e2355028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:43 +0000
Subject: [PATCH 01/44] fix: add() keeps the elements behind the last common
 element

---
 src/mesdoc/interface/elements.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mesdoc/interface/elements.rs b/src/mesdoc/interface/elements.rs
index b37d7df..9b3f99b 100644
--- a/src/mesdoc/interface/elements.rs
+++ b/src/mesdoc/interface/elements.rs
@@ -2723,7 +2723,7 @@ impl<'a> Elements<'a> {
 						}
 						Ordering::Equal => {
 							// equal to first right, now all the second after current is behind first right
-							let cur_fir_index = sec_right_index + 1;
+							let cur_fir_index = fir_right_index + 1;
 							for index in sec_left_index + 1..=sec_right_index {
 								mids.push((index, cur_fir_index));
 							}
-- 
2.43.0


From 841d7a710dd0d35b5209c516d58570867d5ec9c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:59 +0000
Subject: [PATCH 02/44] fix: last() on an empty set returns an empty set

---
 src/mesdoc/interface/elements.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mesdoc/interface/elements.rs b/src/mesdoc/interface/elements.rs
index 9b3f99b..0b0848b 100644
--- a/src/mesdoc/interface/elements.rs
+++ b/src/mesdoc/interface/elements.rs
@@ -2521,7 +2521,7 @@ impl<'a> Elements<'a> {
 	/// }
 	/// ```
 	pub fn last(&self) -> Elements<'a> {
-		self.eq(self.length() - 1)
+		self.eq(self.length().saturating_sub(1))
 	}
 
 	/// Get a subset specified by a range of indices.
-- 
2.43.0


From bde818bd56124f5ab7ff3f31fff564b902ebee62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:03 +0000
Subject: [PATCH 03/44] fix: slice() of an inverted range or ..=usize::MAX does
 not panic

---
 src/mesdoc/interface/elements.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mesdoc/interface/elements.rs b/src/mesdoc/interface/elements.rs
index 0b0848b..615e307 100644
--- a/src/mesdoc/interface/elements.rs
+++ b/src/mesdoc/interface/elements.rs
@@ -2584,12 +2584,15 @@ impl<'a> Elements<'a> {
 				}
 			}
 			Bound::Included(&cur_end) => {
-				let cur_end = cur_end + 1;
+				let cur_end = cur_end.saturating_add(1);
 				if cur_end < end {
 					end = cur_end;
 				}
 			}
 		}
+		if start >= end {
+			return Elements::new();
+		}
 		let mut result = Elements::with_capacity(end - start);
 		let eles = self.get_ref();
 		for ele in &eles[start..end] {
-- 
2.43.0


From 97469ec20f3706d6357624b773b24734076bbea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:08 +0000
Subject: [PATCH 04/44] fix: an invalid selector on an empty set does not panic

---
 src/mesdoc/interface/elements.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/mesdoc/interface/elements.rs b/src/mesdoc/interface/elements.rs
index 615e307..25b2379 100644
--- a/src/mesdoc/interface/elements.rs
+++ b/src/mesdoc/interface/elements.rs
@@ -124,11 +124,7 @@ impl<'a> Elements<'a> {
 	}
 
 	pub(crate) fn trigger_method_throw_error(&self, method: &str, error: BoxDynError) {
-		if let Some(doc) = &self
-			.get(0)
-			.expect("Use index 0 when length > 0")
-			.owner_document()
-		{
+		if let Some(doc) = &self.document() {
 			doc.trigger_error(Box::new(IError::MethodOnInvalidSelector {
 				method: String::from(method),
 				error: error.to_string(),
-- 
2.43.0


From ddd47118e14262348c28b03d433eb5fc64411eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:34 +0000
Subject: [PATCH 05/44] fix: filter_in, not_in and is_all_in do not depend on
 the order of the search set

---
 src/mesdoc/interface/elements.rs | 44 +++-----------------------------
 1 file changed, 4 insertions(+), 40 deletions(-)

diff --git a/src/mesdoc/interface/elements.rs b/src/mesdoc/interface/elements.rs
index 25b2379..716c760 100644
--- a/src/mesdoc/interface/elements.rs
+++ b/src/mesdoc/interface/elements.rs
@@ -1006,26 +1006,17 @@ impl<'a> Elements<'a> {
 		let mut all_matched = false;
 		match filter_type {
 			FilterType::Filter => {
-				let mut start_index = 0;
-				let search_total = search.length();
 				for ele in eles {
-					if let Some(index) = search.index_of(ele, start_index) {
+					if search.includes(ele) {
 						// also in search, include
-						start_index = index + 1;
 						result.push(ele.cloned());
-						if start_index >= search_total {
-							break;
-						}
 					}
 				}
 			}
 			FilterType::Not => {
-				let mut start_index = 0;
 				for ele in eles {
-					if let Some(index) = search.index_of(ele, start_index) {
-						// also in search, exclude
-						start_index = index + 1;
-					} else {
+					if !search.includes(ele) {
+						// not in search, keep
 						result.push(ele.cloned());
 					}
 				}
@@ -1039,20 +1030,7 @@ impl<'a> Elements<'a> {
 				}
 			}
 			FilterType::IsAll => {
-				if total <= search.length() {
-					let mut is_all_matched = true;
-					let mut start_index = 0;
-					for ele in eles {
-						if let Some(index) = search.index_of(ele, start_index) {
-							// also in search, exclude
-							start_index = index + 1;
-						} else {
-							is_all_matched = false;
-							break;
-						}
-					}
-					all_matched = is_all_matched;
-				}
+				all_matched = eles.iter().all(|ele| search.includes(ele));
 			}
 		}
 		(result, all_matched)
@@ -2792,20 +2770,6 @@ impl<'a> Elements<'a> {
 	fn includes(&self, ele: &BoxDynElement) -> bool {
 		self.get_ref().iter().any(|n| ele.is(n))
 	}
-
-	/// index of
-	fn index_of(&self, ele: &BoxDynElement, start_index: usize) -> Option<usize> {
-		let total = self.length();
-		if start_index < total {
-			let nodes = self.get_ref();
-			for (index, cur_ele) in nodes[start_index..].iter().enumerate() {
-				if ele.is(cur_ele) {
-					return Some(start_index + index);
-				}
-			}
-		}
-		None
-	}
 }
 
 /*
-- 
2.43.0


From ae9a9fc6c2acb3cd511eb2a66d00d2a308ac898f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:51 +0000
Subject: [PATCH 06/44] fix: floor and ceil division round correctly when the
 quotient is zero

---
 src/mesdoc/utils.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mesdoc/utils.rs b/src/mesdoc/utils.rs
index 608f430..906a90e 100644
--- a/src/mesdoc/utils.rs
+++ b/src/mesdoc/utils.rs
@@ -86,13 +86,13 @@ pub fn divide_isize(a: isize, b: isize, round: RoundType) -> isize {
 	match round {
 		Floor => {
 			// -∞ -> 0
-			if res < 0 && remainder != 0 {
+			if remainder != 0 && (a < 0) != (b < 0) {
 				res -= 1;
 			}
 		}
 		Ceil => {
 			// 0 -> ∞
-			if res > 0 && remainder != 0 {
+			if remainder != 0 && (a < 0) == (b < 0) {
 				res += 1;
 			}
 		}
-- 
2.43.0


From 53e54447778e7fc30055ab4a00648d95ef66a91b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:21 +0000
Subject: [PATCH 07/44] fix: :last-child and :nth-last-* do not underflow on an
 element without child nodes

---
 src/mesdoc/rules/pseudo.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/mesdoc/rules/pseudo.rs b/src/mesdoc/rules/pseudo.rs
index 0a3dbda..f30d7f8 100644
--- a/src/mesdoc/rules/pseudo.rs
+++ b/src/mesdoc/rules/pseudo.rs
@@ -172,6 +172,9 @@ fn make_asc_or_desc_nth_child_specified(asc: bool, index: isize) -> MatchSpecifi
 		} else {
 			Box::new(move |ele, mut callback| {
 				let total = ele.child_nodes_length();
+				if total == 0 {
+					return;
+				}
 				let mut matched: VecDeque<bool> = VecDeque::with_capacity(total);
 				// loop from last node to first node
 				// gather the matched info
@@ -528,6 +531,9 @@ fn make_asc_or_desc_nth_of_type_specified(asc: bool, index: isize) -> MatchSpeci
 				let mut node_indexs: Vec<usize> = Vec::with_capacity(DEF_NODES_LEN);
 				// total
 				let total = ele.child_nodes_length();
+				if total == 0 {
+					return;
+				}
 				let mut matched: VecDeque<bool> = VecDeque::with_capacity(total);
 				// loop from last node to first node
 				// gather the matched info
-- 
2.43.0


From d62cfc9ec71ca6f2029eae89b1f4d2cb9e698423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:25 +0000
Subject: [PATCH 08/44] fix: add() keeps the rest of the second set when the
 first set ends with a common element

---
 src/mesdoc/interface/elements.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/mesdoc/interface/elements.rs b/src/mesdoc/interface/elements.rs
index 716c760..6d28892 100644
--- a/src/mesdoc/interface/elements.rs
+++ b/src/mesdoc/interface/elements.rs
@@ -2736,6 +2736,12 @@ impl<'a> Elements<'a> {
 				}
 			}
 		}
+		// the first elements are used up, the rest of the second elements are all behind them
+		if fir_left_index > fir_right_index {
+			for index in sec_left_index..=sec_right_index {
+				mids.push((index, first_count));
+			}
+		}
 		let mids_count = mids.len();
 		let mut result = Elements::with_capacity(first_count + mids_count);
 		// add first and mids
-- 
2.43.0


From 597ed5938461dc6df3e3f5389a7816756132a035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:38 +0000
Subject: [PATCH 09/44] fix: relatives of nested elements are returned in
 document order

---
 src/mesdoc/interface/elements.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mesdoc/interface/elements.rs b/src/mesdoc/interface/elements.rs
index 6d28892..235295f 100644
--- a/src/mesdoc/interface/elements.rs
+++ b/src/mesdoc/interface/elements.rs
@@ -902,6 +902,10 @@ impl<'a> Elements<'a> {
 				result = matcher.apply(elements, None);
 			}
 		};
+		// the relatives of nested elements are gathered element by element, so keep the document order
+		if elements.length() > 1 && !matches!(cur_comb, ChildrenAll | ParentAll | Chain) {
+			result.sort_and_unique();
+		}
 		result
 	}
 
-- 
2.43.0


From 4dd380d0fc60e687ac6b7bcc9740360b3aee9388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:22 +0000
Subject: [PATCH 10/44] fix: next_until and prev_until treat each element of
 the set and keep document order

---
 src/mesdoc/interface/elements.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/mesdoc/interface/elements.rs b/src/mesdoc/interface/elements.rs
index 235295f..a58267d 100644
--- a/src/mesdoc/interface/elements.rs
+++ b/src/mesdoc/interface/elements.rs
@@ -1343,14 +1343,11 @@ impl<'a> Elements<'a> {
 	/// }
 	/// ```
 	pub fn prev_until(&self, selector: &str, filter: &str, contains: bool) -> Elements<'a> {
-		let uniques = self.unique_sibling_last();
+		// each element has its own stop, so siblings can't be merged
 		let mut result =
-			uniques.select_with_comb_until("prev_until", selector, filter, contains, Combinator::Prev);
-		// should reverse the result when length > 1
-		// because the prevs executed from last to first
-		if result.length() > 1 {
-			result.get_mut_ref().reverse();
-		}
+			self.select_with_comb_until("prev_until", selector, filter, contains, Combinator::Prev);
+		// the prevs executed from last to first, and may be repeated
+		result.sort_and_unique();
 		result
 	}
 
@@ -1455,9 +1452,12 @@ impl<'a> Elements<'a> {
 	/// }
 	/// ```
 	pub fn next_until(&self, selector: &str, filter: &str, contains: bool) -> Elements<'a> {
-		// unique, keep the first sibling node
-		let uniques = self.unique_sibling_first();
-		uniques.select_with_comb_until("next_until", selector, filter, contains, Combinator::Next)
+		// each element has its own stop, so siblings can't be merged
+		let mut result =
+			self.select_with_comb_until("next_until", selector, filter, contains, Combinator::Next);
+		// the nexts may be repeated
+		result.sort_and_unique();
+		result
 	}
 
 	/// Get the siblings of each element in Elements, when the selector is not empty, will filtered by the selector.
-- 
2.43.0


From 5c192340d9b1fcb79726caa828a6b389fde468c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:25 +0000
Subject: [PATCH 11/44] fix: closest, siblings and *_until apply the whole
 complex selector

---
 src/mesdoc/interface/elements.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/mesdoc/interface/elements.rs b/src/mesdoc/interface/elements.rs
index a58267d..2d9e415 100644
--- a/src/mesdoc/interface/elements.rs
+++ b/src/mesdoc/interface/elements.rs
@@ -516,13 +516,13 @@ impl<'a> Elements<'a> {
 		contains: bool,
 		comb: Combinator,
 	) -> Elements<'a> {
-		let selector = selector.parse::<Selector>();
+		let selector = Selector::from_str(selector, false);
 		if let Ok(selector) = &selector {
 			let segment = Selector::make_comb_all(comb);
 			let next_selector = Selector::from_segment(segment);
 			let mut result = Elements::with_capacity(DEF_NODES_LEN);
 			let (next_ok, filter) = if !filter.is_empty() {
-				let filter = filter.parse::<Selector>();
+				let filter = Selector::from_str(filter, false);
 				if let Ok(filter) = filter {
 					(true, Some(filter))
 				} else {
@@ -1503,12 +1503,11 @@ impl<'a> Elements<'a> {
 			child_selector = Selector::from_segment(Selector::make_comb_all(child_comb));
 		} else {
 			// self
-			let sib_selector = selector.parse::<Selector>();
+			let sib_selector = Selector::from_str(selector, false);
 			if let Ok(sib_selector) = sib_selector {
 				// clone the selector to a child selector
-				child_selector = selector
-					.parse::<Selector>()
-					.expect("The selector has detected");
+				child_selector =
+					Selector::from_str(selector, false).expect("The selector has detected");
 				child_selector.head_combinator(child_comb);
 				// use siblings selector
 				siblings_selector = sib_selector;
@@ -1701,7 +1700,7 @@ impl<'a> Elements<'a> {
 		}
 		// find the nearst node
 		const METHOD: &str = "closest";
-		let selector = selector.parse::<Selector>();
+		let selector = Selector::from_str(selector, false);
 		if let Ok(selector) = selector {
 			let total = self.length();
 			let mut result = Elements::with_capacity(total);
-- 
2.43.0


From 22ec5f9be35ce450c482c463dd3f064f53c27a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:30 +0000
Subject: [PATCH 12/44] fix: a selector that ends inside a simple selector is
 an error, not a panic

---
 src/mesdoc/selector/pattern.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/mesdoc/selector/pattern.rs b/src/mesdoc/selector/pattern.rs
index 452a789..3774b43 100644
--- a/src/mesdoc/selector/pattern.rs
+++ b/src/mesdoc/selector/pattern.rs
@@ -44,10 +44,9 @@ pub trait Pattern: Send + Sync + Debug {
 
 impl Pattern for char {
 	fn matched(&self, chars: &[char]) -> Option<Matched> {
-		let ch = chars[0];
-		if *self == ch {
+		if chars.first() == Some(self) {
 			return Some(Matched {
-				chars: vec![ch],
+				chars: vec![*self],
 				..Default::default()
 			});
 		}
@@ -92,10 +91,10 @@ pub struct Identity;
 impl Pattern for Identity {
 	fn matched(&self, chars: &[char]) -> Option<Matched> {
 		let mut result: Vec<char> = Vec::with_capacity(5);
-		let first = chars[0];
 		let name: &str = "identity";
-		if !(first.is_ascii_alphabetic() || first == '_') {
-			return None;
+		match chars.first() {
+			Some(first) if first.is_ascii_alphabetic() || *first == '_' => {}
+			_ => return None,
 		}
 		// allow translate character '\': fix issue #2
 		let mut is_in_translate = false;
-- 
2.43.0


From cff87368339e1ae60e05bf5e20acb2ff9db8b9c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:34 +0000
Subject: [PATCH 13/44] fix: nested selectors may hold nested pseudo-classes
 before other rules, and must be closed

---
 src/mesdoc/selector/mod.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/mesdoc/selector/mod.rs b/src/mesdoc/selector/mod.rs
index c5588ad..9917593 100644
--- a/src/mesdoc/selector/mod.rs
+++ b/src/mesdoc/selector/mod.rs
@@ -338,7 +338,7 @@ impl Selector {
 					if queue_num == queues.len() {
 						// push to selector
 						finded = true;
-					} else {
+					} else if queues[queue_num].is_nested() {
 						let (nest_count, _) = Selector::parse_until(
 							&chars[index..],
 							&queues[queue_num + 1..],
@@ -347,6 +347,10 @@ impl Selector {
 							level + 1,
 						)?;
 						index += nest_count;
+						finded = true;
+					} else {
+						// only a part of the rule is matched
+						index -= len;
 					}
 					break;
 				}
@@ -374,10 +378,14 @@ impl Selector {
 						}
 					}
 				}
-				break;
+				return Ok((index, matched));
 			}
 		}
-		Ok((index, matched))
+		// the end of the nested selector is never met
+		Err(Error::InvalidSelector {
+			context: chars.iter().collect::<String>(),
+			reason: String::from("Nested selector is not closed"),
+		})
 	}
 }
 
-- 
2.43.0


From a6bbf7651ddd9660c33af29c0ead3295fc5e1383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:35 +0000
Subject: [PATCH 14/44] fix: numbers of any size in :nth-* selectors do not
 panic

---
 src/mesdoc/rules/pseudo.rs     |  6 +-----
 src/mesdoc/selector/pattern.rs | 25 +++++++++++++++++--------
 2 files changed, 18 insertions(+), 13 deletions(-)

diff --git a/src/mesdoc/rules/pseudo.rs b/src/mesdoc/rules/pseudo.rs
index f30d7f8..51a00b5 100644
--- a/src/mesdoc/rules/pseudo.rs
+++ b/src/mesdoc/rules/pseudo.rs
@@ -16,11 +16,7 @@ use std::{collections::HashMap, ops::Range};
 const PRIORITY: u32 = PRIORITY_PSEUDO_SELECTOR;
 
 fn nth_index_to_number(index: &Option<String>) -> isize {
-	index
-		.as_ref()
-		.expect("Nth's n and index must have one")
-		.parse::<isize>()
-		.expect("Nth's index is not ok")
+	Nth::parse_number(index.as_ref().expect("Nth's n and index must have one"))
 }
 
 /// Pseudo selector ":root"
diff --git a/src/mesdoc/selector/pattern.rs b/src/mesdoc/selector/pattern.rs
index 3774b43..459c6d4 100644
--- a/src/mesdoc/selector/pattern.rs
+++ b/src/mesdoc/selector/pattern.rs
@@ -194,7 +194,7 @@ impl Pattern for Nth {
 	fn matched(&self, chars: &[char]) -> Option<Matched> {
 		let rule: RegExp = RegExp {
 			context: Cow::from(
-				r#"^(?:([-+])?([1-9]\d+|[0-9])?n(?:\s*([+-])\s*([1-9]\d+|[0-9]))?|([-+])?([1-9]\d+|[0-9]))"#,
+				r#"^(?:([-+])?([1-9][0-9]+|[0-9])?n(?:\s*([+-])\s*([1-9][0-9]+|[0-9]))?|([-+])?([1-9][0-9]+|[0-9]))"#,
 			),
 		};
 		let mut data = HashMap::with_capacity(2);
@@ -259,6 +259,15 @@ impl Nth {
 		}
 		None
 	}
+	// parse the number, a number that is out of any possible index range is clamped
+	pub(crate) fn parse_number(num: &str) -> isize {
+		const LIMIT: isize = isize::MAX / 4;
+		match num.parse::<isize>() {
+			Ok(num) => num.clamp(-LIMIT, LIMIT),
+			Err(_) if num.starts_with('-') => -LIMIT,
+			Err(_) => LIMIT,
+		}
+	}
 	// get indexs allowed
 	pub fn get_allowed_indexs(
 		n: &Option<String>,
@@ -267,10 +276,10 @@ impl Nth {
 	) -> Vec<usize> {
 		// has n
 		if let Some(n) = n {
-			let n = n.parse::<isize>().unwrap();
+			let n = Nth::parse_number(n);
 			let index = index
 				.as_ref()
-				.map(|index| index.parse::<isize>().unwrap())
+				.map(|index| Nth::parse_number(index))
 				.unwrap_or(0);
 			// n == 0
 			if n == 0 {
@@ -330,11 +339,11 @@ impl Nth {
 			return allow_indexs;
 		}
 		// only index
-		let index = index
-			.as_ref()
-			.expect("Nth must have 'index' value when 'n' is not setted.")
-			.parse::<isize>()
-			.expect("Nth's index is not a correct number");
+		let index = Nth::parse_number(
+			index
+				.as_ref()
+				.expect("Nth must have 'index' value when 'n' is not setted."),
+		);
 		if index <= 0 || index > (total as isize) {
 			return vec![];
 		}
-- 
2.43.0


From 3c6b447a9cf789bf837c6ba565b16d6772003dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:55 +0000
Subject: [PATCH 15/44] fix: attribute selectors with an empty value tell a
 missing attribute from an empty one

---
 src/mesdoc/rules/attr.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/mesdoc/rules/attr.rs b/src/mesdoc/rules/attr.rs
index 717364e..651bc50 100644
--- a/src/mesdoc/rules/attr.rs
+++ b/src/mesdoc/rules/attr.rs
@@ -51,7 +51,8 @@ pub fn init(rules: &mut Vec<RuleItem>) {
 								let attr_value: String = format!("{}-", attr_value);
 								v.starts_with(&attr_value)
 							}
-							_ => attr_value.is_empty(),
+							Some(_) => attr_value.is_empty(),
+							None => false,
 						}),
 						// in a value list that splitted by whitespaces
 						"~" => Box::new(move |val: &Option<IAttrValue>| match val {
@@ -66,15 +67,17 @@ pub fn init(rules: &mut Vec<RuleItem>) {
 							}
 							_ => false,
 						}),
-						// has a attribute and who's value not equal to setted value
+						// has no such attribute, or has a value not equal to setted value
 						"!" => Box::new(move |val: &Option<IAttrValue>| match val {
 							Some(IAttrValue::Value(v, _)) => attr_value != *v,
-							_ => !attr_value.is_empty(),
+							Some(_) => !attr_value.is_empty(),
+							None => true,
 						}),
 						// equal to value
 						_ => Box::new(move |val: &Option<IAttrValue>| match val {
 							Some(IAttrValue::Value(v, _)) => *v == attr_value,
-							_ => attr_value.is_empty(),
+							Some(_) => attr_value.is_empty(),
+							None => false,
 						}),
 					}
 				}
-- 
2.43.0


From b65edc4de0eff381e977b45e5b8beda007b527f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:00 +0000
Subject: [PATCH 16/44] fix: :checked does not take a default option when a
 preceding optgroup holds a selected one

---
 src/mesdoc/rules/pseudo.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mesdoc/rules/pseudo.rs b/src/mesdoc/rules/pseudo.rs
index 51a00b5..48e8748 100644
--- a/src/mesdoc/rules/pseudo.rs
+++ b/src/mesdoc/rules/pseudo.rs
@@ -959,7 +959,9 @@ fn pseudo_checked(rules: &mut Vec<RuleItem>) {
 								// check if is the first option, condition 3
 								let mut prev = ele.previous_element_sibling();
 								while let Some(prev_ele) = &prev {
-									if is_equal_chars(&prev_ele.tag_names(), &option_tag) {
+									if is_equal_chars(&prev_ele.tag_names(), &option_tag)
+										|| check_selected_option(prev_ele, &option_tag)
+									{
 										return false;
 									}
 									prev = prev_ele.previous_element_sibling();
-- 
2.43.0


From 3d54b466f01a43bd5fa006ce4593750c050acc14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:16 +0000
Subject: [PATCH 17/44] fix: :empty does not match a script, style, title or
 textarea that holds a content

---
 src/mesdoc/rules/pseudo.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mesdoc/rules/pseudo.rs b/src/mesdoc/rules/pseudo.rs
index 48e8748..d4b5fb0 100644
--- a/src/mesdoc/rules/pseudo.rs
+++ b/src/mesdoc/rules/pseudo.rs
@@ -74,7 +74,8 @@ fn pseudo_empty(rules: &mut Vec<RuleItem>) {
 			one_handle: Some(Box::new(|ele, _| {
 				let child_nodes = ele.child_nodes();
 				if child_nodes.is_empty() {
-					return true;
+					// a content tag has no child nodes, but may hold a content
+					return ele.text_chars().is_empty();
 				}
 				let mut only_comments = true;
 				for node in child_nodes {
-- 
2.43.0


From a204d9f9db65b4a8f14d2179e71c0cfb2b38cad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:00 +0000
Subject: [PATCH 18/44] fix: reading attributes of the document root does not
 panic

---
 src/lib.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index b07cf4d..5b0191a 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -611,10 +611,8 @@ impl IElementTrait for Rc<RefCell<Node>> {
 	fn get_attribute(&self, name: &str) -> Option<IAttrValue> {
 		// use lowercase to get attribute: issue: #2
 		let node = &self.borrow();
-		let meta = node
-			.meta
-			.as_ref()
-			.expect("Element node must have a meta field.");
+		// the document root has no meta, so it has no attributes
+		let meta = node.meta.as_ref()?;
 		// if has meta, then compare with lowercase
 		let lc_name_map = &meta.borrow().lc_name_map;
 		if !lc_name_map.is_empty() {
@@ -634,10 +632,10 @@ impl IElementTrait for Rc<RefCell<Node>> {
 
 	fn get_attributes(&self) -> Vec<(String, IAttrValue)> {
 		let node = &self.borrow();
-		let meta = node
-			.meta
-			.as_ref()
-			.expect("Element node must have a meta field.");
+		let meta = match node.meta.as_ref() {
+			Some(meta) => meta,
+			None => return Vec::new(),
+		};
 		let attrs = &meta.borrow().attrs;
 		let attr_map = meta
 			.borrow()
-- 
2.43.0


From 529549435cc831ec5447bbdde4ffc1a8d9c8118f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:05 +0000
Subject: [PATCH 19/44] fix: #id and get_element_by_id look at the current id
 attributes of the document

---
 src/lib.rs             | 17 ++++++++++++++---
 src/mesdoc/rules/id.rs | 37 ++++++-------------------------------
 2 files changed, 20 insertions(+), 34 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 5b0191a..f4e6870 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1113,10 +1113,21 @@ impl Document {
 impl IDocumentTrait for Document {
 	// get element by id
 	fn get_element_by_id<'b>(&self, id: &str) -> Option<BoxDynElement<'b>> {
-		if let Some(node) = self.doc.get_element_by_id(id) {
-			return Some(Box::new(Rc::clone(&node)));
+		// search in the current tree, the ids may have been changed since the document was parsed
+		fn search(parent: &RefNode, id: &str) -> Option<RefNode> {
+			if let Some(childs) = &parent.borrow().childs {
+				for child in childs {
+					if matches!(child.get_attribute("id"), Some(IAttrValue::Value(v, _)) if v == id) {
+						return Some(Rc::clone(child));
+					}
+					if let Some(node) = search(child, id) {
+						return Some(node);
+					}
+				}
+			}
+			None
 		}
-		None
+		search(&self.doc.borrow().root, id).map(|node| Box::new(node) as BoxDynElement)
 	}
 	// source code
 	fn source_code(&self) -> String {
diff --git a/src/mesdoc/rules/id.rs b/src/mesdoc/rules/id.rs
index 13cf2b7..042fd1e 100644
--- a/src/mesdoc/rules/id.rs
+++ b/src/mesdoc/rules/id.rs
@@ -1,9 +1,7 @@
+use crate::mesdoc::constants::{NAME_SELECTOR_ID, PRIORITY_ID_SELECTOR};
+use crate::mesdoc::interface::IAttrValue;
 use crate::mesdoc::selector::rule::{Matcher, Rule, RuleItem};
 use crate::mesdoc::selector::MatchedQueue;
-use crate::mesdoc::{
-	constants::{NAME_SELECTOR_ID, PRIORITY_ID_SELECTOR},
-	interface::Elements,
-};
 
 pub fn init(rules: &mut Vec<RuleItem>) {
 	let rule: RuleItem = RuleItem {
@@ -11,36 +9,13 @@ pub fn init(rules: &mut Vec<RuleItem>) {
 		context: "#{identity}",
 		rule: Rule {
 			priority: PRIORITY_ID_SELECTOR,
-			in_cache: true,
+			in_cache: false,
 			handle: Box::new(|data: MatchedQueue| {
 				let id = data[1].chars.iter().collect::<String>();
 				Matcher {
-					all_handle: Some(Box::new(move |eles: &Elements, use_cache: Option<bool>| {
-						let use_cache = use_cache.is_some();
-						let mut result = Elements::with_capacity(1);
-						if !eles.is_empty() {
-							let first_ele = eles
-								.get_ref()
-								.get(0)
-								.expect("The elements must have at least one element.");
-							if let Some(doc) = &first_ele.owner_document() {
-								if let Some(id_element) = doc.get_element_by_id(&id) {
-									if use_cache {
-										// just add, will checked if the element contains the id element
-										result.push(id_element);
-									} else {
-										// filter methods, will filtered in elements
-										for ele in eles.get_ref() {
-											if ele.is(&id_element) {
-												result.push(id_element);
-												break;
-											}
-										}
-									}
-								}
-							}
-						}
-						result
+					// compare with the current id attribute, the document's content may have been changed
+					one_handle: Some(Box::new(move |ele, _| {
+						matches!(ele.get_attribute("id"), Some(IAttrValue::Value(v, _)) if v == id)
 					})),
 					..Default::default()
 				}
-- 
2.43.0


From 1c05c79564640b58a2550613e53e2e71f6af5605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:03 +0000
Subject: [PATCH 20/44] fix: a removed node has no parent any more, and
 removing it again changes nothing

---
 src/lib.rs | 37 +++++++++++++++++++------------------
 1 file changed, 19 insertions(+), 18 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index f4e6870..6b1e959 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -123,6 +123,21 @@ fn reset_next_siblings_index(start_index: usize, childs: &[RefNode]) {
 	}
 }
 
+// take the node out of its parent's childs
+fn detach_node(node: &RefNode) {
+	let parent = node.borrow_mut().parent.take();
+	if let Some(parent) = parent.and_then(|parent| parent.upgrade()) {
+		if let Some(childs) = &mut parent.borrow_mut().childs {
+			if let Some(index) = childs.iter().rposition(|child| Node::is_same(child, node)) {
+				childs.remove(index);
+				// change next siblings index
+				reset_next_siblings_index(index, &childs[index..]);
+			}
+		}
+	}
+	node.borrow_mut().index = 0;
+}
+
 fn remove_not_allowed_nodes(tag_name: &[char], nodes: &mut Vec<RefNode>) -> bool {
 	let mut not_allowed_indexs: Vec<usize> = Vec::with_capacity(nodes.len());
 	let orig_len = nodes.len();
@@ -397,17 +412,7 @@ impl ITextTrait for Rc<RefCell<Node>> {
 	cfg_feat_text! {
 		/// Remove a text node.
 		fn remove(self: Box<Self>) {
-			let index = self.index();
-			if let Some(parent) = &self.borrow_mut().parent {
-				if let Some(parent) = parent.upgrade() {
-					if let Some(childs) = &mut parent.borrow_mut().childs {
-						// remove the text node
-						childs.remove(index);
-						// change next siblings index
-						reset_next_siblings_index(index, &childs[index..]);
-					}
-				}
-			}
+			detach_node(&self);
 		}
 
 		// append text
@@ -785,14 +790,10 @@ impl IElementTrait for Rc<RefCell<Node>> {
 			if let Some(parent) = &ele.parent() {
 				if self.is(parent) {
 					// is a child
-					if let Some(childs) = self.borrow_mut().childs.as_mut() {
-						let index = ele.index();
-						// if not the last child
-						if index != childs.len() - 1 {
-							reset_next_siblings_index(index, &childs[index + 1..]);
-						}
+					let specified: Box<dyn Any> = ele.to_node();
+					if let Ok(dom) = specified.downcast::<RefNode>() {
 						// remove child
-						childs.remove(index);
+						detach_node(&dom);
 					}
 				}
 			}
-- 
2.43.0


From de2b78ff077de183c13fcce8f5e8bd6b3fb6fc39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:12 +0000
Subject: [PATCH 21/44] fix: set_html does not panic on html that is not
 well-formed

---
 src/lib.rs | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 6b1e959..66e67ba 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -342,17 +342,13 @@ impl INodeTrait for Rc<RefCell<Node>> {
 				// content tag, just set html as content, no need encode
 				target.borrow_mut().content = Some(content.chars().collect::<Vec<char>>());
 			} else {
-				let doc_holder = Doc::parse(
-					content,
-					ParseOptions {
-						auto_fix_unexpected_endtag: true,
-						auto_fix_unescaped_lt: true,
-						allow_self_closing: true,
-						allow_attr_key_starts_with_equal_sign: true,
-						..Default::default()
-					},
-				)
-				.unwrap();
+				let doc_holder = match Doc::parse(content, Vis::options()) {
+					Ok(doc_holder) => doc_holder,
+					Err(err) => {
+						Dom::halt(target, "set_html", &format!("{:?}", err));
+						return;
+					}
+				};
 				if let Some(nodes) = &mut doc_holder.get_root_node().borrow_mut().childs {
 					let mut nodes = nodes.split_off(0);
 					let has_not_allowed = remove_not_allowed_nodes(
-- 
2.43.0


From 63f9589faeb6388eeb84ba05e2631f572e211a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:41 +0000
Subject: [PATCH 22/44] fix: set_html and set_text detach the old nodes, and
 set_html of a text node only replaces that node

---
 src/lib.rs | 112 +++++++++++++++++++++++++++--------------------------
 1 file changed, 57 insertions(+), 55 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 66e67ba..65b1d04 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -138,6 +138,16 @@ fn detach_node(node: &RefNode) {
 	node.borrow_mut().index = 0;
 }
 
+// take all the childs out of the node
+fn detach_childs(node: &RefNode) {
+	let childs = node.borrow_mut().childs.take();
+	for child in childs.unwrap_or_default() {
+		let mut child = child.borrow_mut();
+		child.parent = None;
+		child.index = 0;
+	}
+}
+
 fn remove_not_allowed_nodes(tag_name: &[char], nodes: &mut Vec<RefNode>) -> bool {
 	let mut not_allowed_indexs: Vec<usize> = Vec::with_capacity(nodes.len());
 	let orig_len = nodes.len();
@@ -268,6 +278,8 @@ impl INodeTrait for Rc<RefCell<Node>> {
 		match node_type {
 			INodeType::Element => {
 				let no_content_tag = !check_if_content_tag(&self.tag_names());
+				// the old childs are not in the tree any more
+				detach_childs(self);
 				let mut node = self.borrow_mut();
 				if !content.is_empty() {
 					if no_content_tag {
@@ -330,17 +342,13 @@ impl INodeTrait for Rc<RefCell<Node>> {
 			_ => None,
 		};
 		if let Some(target) = &target {
-			if check_if_content_tag(
-				&target
-					.borrow()
-					.meta
-					.as_ref()
-					.expect("A tag use `set_html` must have a tag name.")
-					.borrow()
-					.name,
-			) {
+			let tag_name = target.tag_names();
+			if check_if_content_tag(&tag_name) {
 				// content tag, just set html as content, no need encode
-				target.borrow_mut().content = Some(content.chars().collect::<Vec<char>>());
+				if is_element {
+					detach_childs(target);
+				}
+				self.borrow_mut().content = Some(content.chars().collect::<Vec<char>>());
 			} else {
 				let doc_holder = match Doc::parse(content, Vis::options()) {
 					Ok(doc_holder) => doc_holder,
@@ -349,55 +357,49 @@ impl INodeTrait for Rc<RefCell<Node>> {
 						return;
 					}
 				};
-				if let Some(nodes) = &mut doc_holder.get_root_node().borrow_mut().childs {
-					let mut nodes = nodes.split_off(0);
-					let has_not_allowed = remove_not_allowed_nodes(
-						&target
-							.borrow()
-							.meta
-							.as_ref()
-							.expect("A tag use `set_html` must have a tag name.")
-							.borrow()
-							.name,
-						&mut nodes,
-					);
-					let has_nodes = !nodes.is_empty();
-					if has_nodes {
-						// set nodes parent as target
-						for node in &nodes {
-							node.borrow_mut().parent = Some(Rc::downgrade(target));
-						}
+				// empty html has no nodes
+				let childs = doc_holder.get_root_node().borrow_mut().childs.take();
+				let mut nodes = childs.unwrap_or_default();
+				let has_not_allowed = remove_not_allowed_nodes(&tag_name, &mut nodes);
+				let has_nodes = !nodes.is_empty();
+				if has_nodes {
+					// set nodes parent as target
+					for node in &nodes {
+						node.borrow_mut().parent = Some(Rc::downgrade(target));
 					}
-					if is_element {
-						// reset node indexs
-						if has_not_allowed {
-							reset_next_siblings_index(0, &nodes);
-						}
-						// set childs as new nodes
-						(*target.borrow_mut()).childs = if has_nodes { Some(nodes) } else { None };
-					} else if let Some(childs) = &mut target.borrow_mut().childs {
-						let index = self.index();
-						// not last node, whenever nodes is empty or not, reset next childs indexs
-						if index < childs.len() - 1 {
-							// change next siblings index begin with index+nodes.len
-							reset_next_siblings_index(index + nodes.len(), &childs[index + 1..]);
-						}
-						// delete the node and append childs
-						if has_nodes {
-							// change append nodes index begin with index
-							reset_next_siblings_index(index, &nodes);
-							// remove self and insert nodes
-							childs.splice(index..index + 1, nodes);
-						} else {
-							// then just remove self
-							childs.remove(index);
-						}
+				}
+				if is_element {
+					// reset node indexs
+					if has_not_allowed {
+						reset_next_siblings_index(0, &nodes);
+					}
+					// the old childs are not in the tree any more
+					detach_childs(target);
+					// set childs as new nodes
+					(*target.borrow_mut()).childs = if has_nodes { Some(nodes) } else { None };
+				} else if let Some(childs) = &mut target.borrow_mut().childs {
+					let index = self.index();
+					// not last node, whenever nodes is empty or not, reset next childs indexs
+					if index < childs.len() - 1 {
+						// change next siblings index begin with index+nodes.len
+						reset_next_siblings_index(index + nodes.len(), &childs[index + 1..]);
+					}
+					// delete the node and append childs
+					if has_nodes {
+						// change append nodes index begin with index
+						reset_next_siblings_index(index, &nodes);
+						// remove self and insert nodes
+						childs.splice(index..index + 1, nodes);
 					} else {
-						// text node's parent can't be empty
+						// then just remove self
+						childs.remove(index);
 					}
+					// the text node is not in the tree any more
+					let mut text_node = self.borrow_mut();
+					text_node.parent = None;
+					text_node.index = 0;
 				} else {
-					// empty html, just set childs to none
-					target.borrow_mut().childs = None;
+					// text node's parent can't be empty
 				}
 			}
 		}
-- 
2.43.0


From 1da03b39a2931fd570f54303ed0454337c41be70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:02 +0000
Subject: [PATCH 23/44] fix: the owner document of a moved node is the document
 it is in

---
 src/lib.rs | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 65b1d04..4266202 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -235,15 +235,27 @@ impl INodeTrait for Rc<RefCell<Node>> {
 
 	/// impl `owner_document`
 	fn owner_document(&self) -> MaybeDoc {
-		if let Some(root) = &self.borrow().root {
-			if let Some(root) = &root.upgrade() {
-				if let Some(doc) = &root.borrow().document {
-					if let Some(ref_doc) = &doc.upgrade() {
-						return Some(Box::new(Document {
-							doc: Rc::clone(ref_doc).into(),
-						}));
-					}
-				}
+		// the node may have been moved from another document, so begin with the root of the current tree
+		let mut top = Rc::clone(self);
+		loop {
+			let parent = top.borrow().parent.as_ref().and_then(|p| p.upgrade());
+			match parent {
+				Some(parent) => top = parent,
+				None => break,
+			}
+		}
+		// a detached node, use the root that it was created with
+		if !top.is_root_element() {
+			let root = self.borrow().root.as_ref().and_then(|root| root.upgrade());
+			if let Some(root) = root {
+				top = root;
+			}
+		}
+		if let Some(doc) = &top.borrow().document {
+			if let Some(ref_doc) = &doc.upgrade() {
+				return Some(Box::new(Document {
+					doc: Rc::clone(ref_doc).into(),
+				}));
 			}
 		}
 		None
-- 
2.43.0


From daa1eddf4ef1474e919e87e0ef5f66b766128e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:38 +0000
Subject: [PATCH 24/44] fix: inserting moves the nodes, also of a fragment, and
 leaves them in place when it is refused

---
 src/lib.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 4266202..91d941e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -830,13 +830,7 @@ impl IElementTrait for Rc<RefCell<Node>> {
 							vec![]
 						}
 					}
-					_ => {
-						// remove current node from parent's childs
-						if let Some(parent) = &mut node.parent() {
-							parent.remove_child(node.cloned());
-						}
-						vec![*dom]
-					}
+					_ => vec![*dom],
 				};
 				// filter the node allowed
 				let tag_name = self.tag_names();
@@ -845,11 +839,22 @@ impl IElementTrait for Rc<RefCell<Node>> {
 				// remove not allowed nodes, only insert childs
 				if matches!(position, AfterBegin | BeforeEnd){
 					remove_not_allowed_nodes(&tag_name, &mut nodes);
+				} else if self.parent().is_none() {
+					Dom::halt(
+						self,
+						action,
+						&format!("Can't {} a dom that has no parent.", action),
+					);
+					return;
 				}
 				// check if is empty
 				if nodes.is_empty() {
 					return;
 				}
+				// take the nodes out of where they are now
+				for node in nodes.iter().rev() {
+					detach_node(node);
+				}
 				match position {
 					BeforeBegin | AfterEnd => {
 						// get index first, for borrow check
-- 
2.43.0


From 247114f7a240ff91e8ef90fe2406d5a3fa5660d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:58 +0000
Subject: [PATCH 25/44] fix: replace_with refuses the element itself and its
 ancestors, and detaches the replaced element

---
 src/lib.rs | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 91d941e..c34ab45 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -939,10 +939,23 @@ impl IElementTrait for Rc<RefCell<Node>> {
 		}
 		// replace with
 		fn replace_with(&mut self, node: &BoxDynElement){
+			let action = "replace with";
+			// base validate
+			if !Dom::validate_dom_change(self, node, action) {
+				return;
+			}
 			let node_type = node.node_type();
 			let specified: Box<dyn Any> = node.cloned().to_node();
 			let mut replace_ele: Option<RefNode> = None;
 			if let Ok(dom) = specified.downcast::<RefNode>() {
+				if self.parent().is_none() {
+					Dom::halt(
+						self,
+						action,
+						&format!("Can't {} a dom that has no parent.", action),
+					);
+					return;
+				}
 				// get the nodes
 				let nodes = match node_type {
 					INodeType::DocumentFragement => {
@@ -956,10 +969,6 @@ impl IElementTrait for Rc<RefCell<Node>> {
 						}
 					}
 					_ => {
-						// remove current node from parent's childs
-						if let Some(parent) = &mut node.parent() {
-							parent.remove_child(node.cloned());
-						}
 						replace_ele = Some(Rc::clone(&dom));
 						vec![*dom]
 					}
@@ -968,6 +977,10 @@ impl IElementTrait for Rc<RefCell<Node>> {
 				if nodes.is_empty(){
 					return;
 				}
+				// take the nodes out of where they are now
+				for node in nodes.iter().rev() {
+					detach_node(node);
+				}
 				// get index first, for borrow check
 				let index = self.index();
 				let insert_len = nodes.len();
@@ -992,11 +1005,16 @@ impl IElementTrait for Rc<RefCell<Node>> {
 						}
 					}
 				}
+				// the replaced node is not in the tree any more
+				{
+					let mut replaced = self.borrow_mut();
+					replaced.parent = None;
+					replaced.index = 0;
+				}
 				if let Some(replace_ele) = replace_ele {
 					*self = replace_ele;
 				}
 			} else {
-				let action = "replace with";
 				Dom::halt(
 					self,
 					action,
-- 
2.43.0


From b3f999f433a1e92acff82d7a252aeabdb62d602e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:30 +0000
Subject: [PATCH 26/44] fix: copying nodes that were created or moved by
 mutations does not overflow

---
 src/lib.rs | 32 +++++++++++++++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index c34ab45..2242665 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -188,7 +188,37 @@ impl INodeTrait for Rc<RefCell<Node>> {
 
 	/// impl standard semantics `clone_node` method
 	fn copy_node<'b>(&self) -> BoxDynNode<'b> {
-		Box::new(self.borrow().clone_node())
+		// nodes that are created or moved by mutations have unordered code positions
+		// so don't use the `clone_node` of the node, it calculates the relative positions
+		fn copy_tree(node: &RefNode) -> RefNode {
+			let cur = node.borrow();
+			let copied = Rc::new(RefCell::new(Node {
+				begin_at: cur.begin_at,
+				end_at: cur.end_at,
+				index: 0,
+				node_type: cur.node_type,
+				root: cur.root.clone(),
+				content: cur.content.clone(),
+				document: cur.document.clone(),
+				meta: cur
+					.meta
+					.as_ref()
+					.map(|meta| RefCell::new(meta.borrow().clone())),
+				end_tag: cur.end_tag.as_ref().map(copy_tree),
+				..Default::default()
+			}));
+			if let Some(childs) = &cur.childs {
+				let childs: Vec<RefNode> = childs.iter().map(copy_tree).collect();
+				for (index, child) in childs.iter().enumerate() {
+					let mut child = child.borrow_mut();
+					child.index = index;
+					child.parent = Some(Rc::downgrade(&copied));
+				}
+				copied.borrow_mut().childs = Some(childs);
+			}
+			copied
+		}
+		Box::new(copy_tree(self))
 	}
 
 	/// impl `typed`
-- 
2.43.0


From 2b76da1aa72c8cb5c9fd10c2b2c50da331c2eb4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:07 +0000
Subject: [PATCH 27/44] fix: inserting or replacing with several elements keeps
 all of them in order, fragments are put in every target

---
 src/lib.rs                       |  2 +-
 src/mesdoc/interface/elements.rs | 45 +++++++++++++++++++++++++++-----
 2 files changed, 40 insertions(+), 7 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 2242665..81e18ab 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -990,7 +990,7 @@ impl IElementTrait for Rc<RefCell<Node>> {
 				let nodes = match node_type {
 					INodeType::DocumentFragement => {
 						if let Some(childs) = &dom.borrow().childs {
-							if childs.len() == 1 {
+							if childs.len() == 1 && childs[0].borrow().node_type == NodeType::Tag {
 								replace_ele = Some(Rc::clone(&childs[0]));
 							}
 							childs.iter().map(Rc::clone).collect::<Vec<RefNode>>()
diff --git a/src/mesdoc/interface/elements.rs b/src/mesdoc/interface/elements.rs
index 2d9e415..21ea40f 100644
--- a/src/mesdoc/interface/elements.rs
+++ b/src/mesdoc/interface/elements.rs
@@ -3,6 +3,7 @@ cfg_feat_text! {
 	use super::{BoxDynText, Texts};
 }
 cfg_feat_insertion! {
+	use super::INodeType;
 	use super::InsertPosition;
 }
 use super::{BoxDynElement, IAttrValue, IElementTrait, IFormValue, MaybeDoc};
@@ -3633,17 +3634,49 @@ impl<'a> Elements<'a> {
 	cfg_feat_insertion! {
 		// `insert`
 		fn insert(&mut self, dest: &Elements, position: &InsertPosition) {
-			for ele in self.get_mut_ref() {
-				for inserted in dest.get_ref().iter().rev() {
-					ele.insert_adjacent(position, inserted);
+			let total = self.length();
+			for (index, ele) in self.get_mut_ref().iter_mut().enumerate() {
+				let dest = Elements::dest_for_target(dest, index + 1 == total);
+				let dest = dest.get_ref().iter();
+				// keep the order of the inserted elements
+				if matches!(position, InsertPosition::BeforeBegin | InsertPosition::BeforeEnd) {
+					dest.for_each(|inserted| ele.insert_adjacent(position, inserted));
+				} else {
+					dest.rev().for_each(|inserted| ele.insert_adjacent(position, inserted));
 				}
 			}
 		}
+		// the elements are moved, so they end up in the last target
+		// the content of a fragment is inserted to every target, needs a copy except the last one
+		fn dest_for_target<'b>(dest: &Elements, is_last: bool) -> Elements<'b> {
+			let nodes = dest.get_ref().iter().map(|ele| {
+				if !is_last && matches!(ele.node_type(), INodeType::DocumentFragement) {
+					ele.copied()
+				} else {
+					ele.cloned()
+				}
+			});
+			Elements::with_nodes(nodes.collect())
+		}
 		// `replace`
 		fn replace(&mut self, dest: &Elements){
-			for ele in self.get_mut_ref() {
-				for inserted in dest.get_ref().iter().rev() {
-					ele.replace_with(inserted);
+			let total = self.length();
+			for (index, ele) in self.get_mut_ref().iter_mut().enumerate() {
+				let dest = Elements::dest_for_target(dest, index + 1 == total);
+				let dest = dest.get_ref();
+				if let Some(index) = dest.iter().position(|inserted| ele.is(inserted)) {
+					// the element is one of the replacements, just keep it and insert the others
+					for inserted in &dest[..index] {
+						ele.insert_adjacent(&InsertPosition::BeforeBegin, inserted);
+					}
+					for inserted in dest[index + 1..].iter().rev() {
+						ele.insert_adjacent(&InsertPosition::AfterEnd, inserted);
+					}
+				} else if let Some((last, others)) = dest.split_last() {
+					for inserted in others {
+						ele.insert_adjacent(&InsertPosition::BeforeBegin, inserted);
+					}
+					ele.replace_with(last);
 				}
 			}
 		}
-- 
2.43.0


From 84172a1b297c3ee108a2fddcfc568d2780b64217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:27 +0000
Subject: [PATCH 28/44] fix: sets with elements of different trees, or not in
 document order, can be searched and merged

---
 src/mesdoc/interface/elements.rs | 71 +++++++++++++++++++++-----------
 1 file changed, 48 insertions(+), 23 deletions(-)

diff --git a/src/mesdoc/interface/elements.rs b/src/mesdoc/interface/elements.rs
index 21ea40f..6b099f3 100644
--- a/src/mesdoc/interface/elements.rs
+++ b/src/mesdoc/interface/elements.rs
@@ -28,16 +28,24 @@ use std::{
 	ops::{Bound, RangeBounds},
 };
 
-// get the ele indexs in tree
-fn get_tree_indexs(ele: &BoxDynElement) -> VecDeque<usize> {
+// the roots of the trees, elements can belong to different trees, e.g. the copied elements
+type TreeRoots<'a> = Vec<BoxDynElement<'a>>;
+// get the ele indexs in tree, begin with the index of the tree
+fn get_tree_indexs(ele: &BoxDynElement, roots: &mut TreeRoots) -> VecDeque<usize> {
 	let mut indexs: VecDeque<usize> = VecDeque::with_capacity(DEF_NODES_LEN);
-	fn loop_handle(ele: &BoxDynElement, indexs: &mut VecDeque<usize>) {
-		indexs.push_front(ele.index());
+	fn loop_handle(ele: &BoxDynElement, indexs: &mut VecDeque<usize>, roots: &mut TreeRoots) {
 		if let Some(parent) = &ele.parent() {
-			loop_handle(parent, indexs);
+			indexs.push_front(ele.index());
+			loop_handle(parent, indexs, roots);
+		} else {
+			let root_index = roots.iter().position(|root| root.is(ele));
+			indexs.push_front(root_index.unwrap_or(roots.len()));
+			if root_index.is_none() {
+				roots.push(ele.cloned());
+			}
 		}
 	}
-	loop_handle(ele, &mut indexs);
+	loop_handle(ele, &mut indexs, roots);
 	indexs
 }
 
@@ -367,6 +375,7 @@ impl<'a> Elements<'a> {
 		let mut uniques: Vec<BoxDynElement> = Vec::with_capacity(total);
 		let mut prev_parent: Option<BoxDynElement> = None;
 		let mut has_root = false;
+		let mut roots: TreeRoots = Vec::with_capacity(1);
 		let mut handle = |ele: &BoxDynElement| {
 			if let Some(parent) = ele.parent() {
 				if let Some(prev_parent) = &prev_parent {
@@ -375,7 +384,7 @@ impl<'a> Elements<'a> {
 					}
 				}
 				// parents
-				let indexs = get_tree_indexs(&parent);
+				let indexs = get_tree_indexs(&parent, &mut roots);
 				// set prev parent
 				prev_parent = Some(parent);
 				// new parent
@@ -418,11 +427,12 @@ impl<'a> Elements<'a> {
 		let mut parents_indexs: HashMap<VecDeque<usize>, (usize, bool)> = HashMap::with_capacity(total);
 		let mut uniques: Vec<(BoxDynElement, bool)> = Vec::with_capacity(total);
 		let mut parents: HashMap<usize, BoxDynElement> = HashMap::with_capacity(total);
+		let mut roots: TreeRoots = Vec::with_capacity(1);
 		// just keep one sibling node
 		for ele in self.get_ref() {
 			if let Some(parent) = ele.parent() {
 				// parent indexs
-				let indexs = get_tree_indexs(&parent);
+				let indexs = get_tree_indexs(&parent, &mut roots);
 				if let Some((index, changed)) = parents_indexs.get_mut(&indexs) {
 					if !*changed {
 						let index = *index;
@@ -448,8 +458,12 @@ impl<'a> Elements<'a> {
 	fn unique_parents(&self) -> Elements<'a> {
 		// keep only top parent
 		let mut ancestors: Vec<(VecDeque<usize>, &BoxDynElement)> = Vec::with_capacity(self.length());
-		for ele in self.get_ref() {
-			let ele_indexs = get_tree_indexs(ele);
+		// the elements may not be ordered, e.g. the nodes are moved after they have been selected
+		let mut ordered = self.cloned();
+		ordered.sort();
+		let mut roots: TreeRoots = Vec::with_capacity(1);
+		for ele in ordered.get_ref() {
+			let ele_indexs = get_tree_indexs(ele, &mut roots);
 			let cur_len = ancestors.len();
 			if cur_len > 0 {
 				// just check the last ancestor
@@ -458,8 +472,8 @@ impl<'a> Elements<'a> {
 					ElementRelation::Feauture => {
 						ancestors.push((ele_indexs, ele));
 					}
-					ElementRelation::Descendant => {}
-					_ => unreachable!("The elements call `unique_parents` is not ordered"),
+					// a descendant, or the same element
+					_ => {}
 				}
 			} else {
 				ancestors.push((ele_indexs, ele));
@@ -473,11 +487,10 @@ impl<'a> Elements<'a> {
 	}
 	// sort
 	fn sort(&mut self) {
-		self.get_mut_ref().sort_by(|a, b| {
-			let a_index = get_tree_indexs(a);
-			let b_index = get_tree_indexs(b);
-			compare_indexs(&a_index, &b_index)
-		});
+		let mut roots: TreeRoots = Vec::with_capacity(1);
+		self
+			.get_mut_ref()
+			.sort_by_cached_key(|ele| get_tree_indexs(ele, &mut roots));
 	}
 	// unique
 	fn unique(&mut self) {
@@ -2621,6 +2634,17 @@ impl<'a> Elements<'a> {
 		}
 		let first_eles = self;
 		let second_eles = &eles;
+		// elements in different trees have no document order
+		let mut roots: TreeRoots = Vec::with_capacity(1);
+		for ele in first_eles.get_ref().iter().chain(second_eles.get_ref()) {
+			get_tree_indexs(ele, &mut roots);
+		}
+		if roots.len() > 1 {
+			let mut result = first_eles.cloned();
+			result.get_mut_ref().extend(eles);
+			result.sort_and_unique();
+			return result;
+		}
 		// compare first and second
 		let first_count = first_eles.length();
 		let second_count = second_eles.length();
@@ -2637,17 +2661,18 @@ impl<'a> Elements<'a> {
 			first_indexs: &'a mut HashMap<usize, VecDeque<usize>>,
 			first: &[BoxDynElement],
 			index: usize,
+			roots: &mut TreeRoots,
 		) -> &'a mut VecDeque<usize> {
 			first_indexs
 				.entry(index)
-				.or_insert_with(|| get_tree_indexs(&first[index]))
+				.or_insert_with(|| get_tree_indexs(&first[index], roots))
 		}
 		while fir_left_index <= fir_right_index && sec_left_index <= sec_right_index {
 			// the second left
 			let sec_left = &second[sec_left_index];
-			let sec_left_level = get_tree_indexs(sec_left);
+			let sec_left_level = get_tree_indexs(sec_left, &mut roots);
 			// the first left
-			let fir_left_level = get_first_index_cached(&mut first_indexs, first, fir_left_index);
+			let fir_left_level = get_first_index_cached(&mut first_indexs, first, fir_left_index, &mut roots);
 			match compare_indexs(&sec_left_level, fir_left_level) {
 				Ordering::Equal => {
 					// move forward both
@@ -2657,7 +2682,7 @@ impl<'a> Elements<'a> {
 				Ordering::Greater => {
 					// second left is behind first left
 					// if second left is also behind first right
-					let fir_right_level = get_first_index_cached(&mut first_indexs, first, fir_right_index);
+					let fir_right_level = get_first_index_cached(&mut first_indexs, first, fir_right_index, &mut roots);
 					match compare_indexs(&sec_left_level, fir_right_level) {
 						Ordering::Greater => {
 							// now second is all after first right
@@ -2675,7 +2700,7 @@ impl<'a> Elements<'a> {
 							let mut mid = (l + r) / 2;
 							let mut find_equal = false;
 							while mid != l {
-								let mid_level = get_first_index_cached(&mut first_indexs, first, mid);
+								let mid_level = get_first_index_cached(&mut first_indexs, first, mid, &mut roots);
 								match compare_indexs(&sec_left_level, mid_level) {
 									Ordering::Greater => {
 										// second left is behind middle
@@ -2714,7 +2739,7 @@ impl<'a> Elements<'a> {
 				}
 				Ordering::Less => {
 					let sec_right = &second[sec_right_index];
-					let sec_right_level = get_tree_indexs(sec_right);
+					let sec_right_level = get_tree_indexs(sec_right, &mut roots);
 					match compare_indexs(&sec_right_level, fir_left_level) {
 						Ordering::Less => {
 							// now second is all before current first left
-- 
2.43.0


From 8c14fc257b3796d3d7e474123b018117e83b5cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:28 +0000
Subject: [PATCH 29/44] fix: a new value of an existing attribute is quoted as
 the value needs

---
 src/lib.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 81e18ab..36915d0 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -751,9 +751,13 @@ impl IElementTrait for Rc<RefCell<Node>> {
 			} else {
 				None
 			};
-			// find the attribute, just set the value
+			let quote = if value.is_some() { Some(quote) } else { None };
+			// find the attribute, just set the value, the quote must fit the value
 			if let Some(index) = find_index {
-				meta.borrow_mut().attrs[index].value = value;
+				let attr = &mut meta.borrow_mut().attrs[index];
+				attr.value = value;
+				attr.quote = quote;
+				attr.need_quote = need_quote;
 				return;
 			}
 			// new attribute, add it to the attrs and add a lowercase name to lc_name_map
@@ -761,7 +765,6 @@ impl IElementTrait for Rc<RefCell<Node>> {
 			// insert name and index into name map
 			meta.borrow_mut().lc_name_map.insert(lc_name, index);
 			// add to attrs
-			let quote = if value.is_some() { Some(quote) } else { None };
 			meta.borrow_mut().attrs.push(Attr {
 				key: Some(AttrData {
 					content: name.chars().collect(),
-- 
2.43.0


From 7ba074c0879ee8f9f71c61ee0339c4fcc56d29b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:33 +0000
Subject: [PATCH 30/44] fix: remove_attribute removes the attribute whatever
 the case of the name

---
 src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 36915d0..5515079 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -790,7 +790,10 @@ impl IElementTrait for Rc<RefCell<Node>> {
 				// set attr data as null data
 				meta.borrow_mut().attrs[index] = Attr::default();
 				// remove name from names map
-				meta.borrow_mut().lc_name_map.remove(name);
+				meta
+					.borrow_mut()
+					.lc_name_map
+					.remove(&name.to_ascii_lowercase());
 			}
 		}
 	}
-- 
2.43.0


From 2e4a1d7d6bc9eaaa5218a402e8ba516a980835fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:13 +0000
Subject: [PATCH 31/44] fix: add_class, remove_class and toggle_class treat
 repeated names and names in any order

---
 src/mesdoc/interface/elements.rs | 93 +++++++++++++-------------------
 1 file changed, 38 insertions(+), 55 deletions(-)

diff --git a/src/mesdoc/interface/elements.rs b/src/mesdoc/interface/elements.rs
index 6b099f3..4bd5b97 100644
--- a/src/mesdoc/interface/elements.rs
+++ b/src/mesdoc/interface/elements.rs
@@ -16,10 +16,7 @@ use crate::mesdoc::{
 		Combinator, QueryProcess, Selector, SelectorSegment,
 	},
 };
-use crate::mesdoc::{
-	selector::rule::MatchSpecifiedHandle,
-	utils::{get_class_list, retain_by_index},
-};
+use crate::mesdoc::{selector::rule::MatchSpecifiedHandle, utils::get_class_list};
 use std::collections::HashMap;
 use std::collections::HashSet;
 use std::{
@@ -3380,21 +3377,19 @@ impl<'a> Elements<'a> {
 		let class_list = get_class_list(class_name);
 		if !class_list.is_empty() {
 			for ele in self.get_mut_ref() {
-				let class_value = ele.get_attribute(ATTR_CLASS);
-				if let Some(IAttrValue::Value(cls, _)) = class_value {
-					let mut orig_class_list = get_class_list(&cls);
-					for class_name in &class_list {
-						if !orig_class_list.contains(class_name) {
-							orig_class_list.push(class_name.clone());
-						}
+				let mut orig_class_list = match ele.get_attribute(ATTR_CLASS) {
+					Some(IAttrValue::Value(cls, _)) => get_class_list(&cls),
+					_ => Vec::with_capacity(class_list.len()),
+				};
+				for class_name in &class_list {
+					if !orig_class_list.contains(class_name) {
+						orig_class_list.push(class_name.clone());
 					}
-					ele.set_attribute(
-						ATTR_CLASS,
-						Some(class_list_to_string(&orig_class_list).as_str()),
-					);
-					continue;
 				}
-				ele.set_attribute(ATTR_CLASS, Some(class_name));
+				ele.set_attribute(
+					ATTR_CLASS,
+					Some(class_list_to_string(&orig_class_list).as_str()),
+				);
 			}
 		}
 		self
@@ -3435,14 +3430,9 @@ impl<'a> Elements<'a> {
 				let class_value = ele.get_attribute(ATTR_CLASS);
 				if let Some(IAttrValue::Value(cls, _)) = class_value {
 					let mut orig_class_list = get_class_list(&cls);
-					let mut removed_indexs: Vec<usize> = Vec::with_capacity(class_list.len());
-					for class_name in &class_list {
-						if let Some(index) = orig_class_list.iter().position(|name| name == class_name) {
-							removed_indexs.push(index);
-						}
-					}
-					if !removed_indexs.is_empty() {
-						retain_by_index(&mut orig_class_list, &removed_indexs);
+					let orig_total = orig_class_list.len();
+					orig_class_list.retain(|name| !class_list.contains(name));
+					if orig_class_list.len() != orig_total {
 						ele.set_attribute(
 							ATTR_CLASS,
 							Some(class_list_to_string(&orig_class_list).as_str()),
@@ -3484,39 +3474,32 @@ impl<'a> Elements<'a> {
 	pub fn toggle_class(&mut self, class_name: &str) -> &mut Self {
 		let class_name = class_name.trim();
 		if !class_name.is_empty() {
-			let class_list = get_class_list(class_name);
-			let total = class_list.len();
+			let mut class_list = get_class_list(class_name);
+			// toggle a repeated class name only once
+			let mut toggled: Vec<Vec<char>> = Vec::with_capacity(class_list.len());
+			class_list.retain(|name| {
+				let is_first = !toggled.contains(name);
+				if is_first {
+					toggled.push(name.clone());
+				}
+				is_first
+			});
 			for ele in self.get_mut_ref() {
-				let class_value = ele.get_attribute(ATTR_CLASS);
-				if let Some(IAttrValue::Value(cls, _)) = class_value {
-					let mut orig_class_list = get_class_list(&cls);
-					let mut removed_indexs: Vec<usize> = Vec::with_capacity(total);
-					let mut added_class_list: Vec<Vec<char>> = Vec::with_capacity(total);
-					for class_name in &class_list {
-						if let Some(index) = orig_class_list.iter().position(|name| name == class_name) {
-							removed_indexs.push(index);
-						} else {
-							added_class_list.push(class_name.clone());
-						}
-					}
-					let mut need_set = false;
-					if !removed_indexs.is_empty() {
-						retain_by_index(&mut orig_class_list, &removed_indexs);
-						need_set = true;
-					}
-					if !added_class_list.is_empty() {
-						orig_class_list.extend(added_class_list);
-						need_set = true;
-					}
-					if need_set {
-						ele.set_attribute(
-							ATTR_CLASS,
-							Some(class_list_to_string(&orig_class_list).as_str()),
-						);
+				let mut orig_class_list = match ele.get_attribute(ATTR_CLASS) {
+					Some(IAttrValue::Value(cls, _)) => get_class_list(&cls),
+					_ => Vec::with_capacity(class_list.len()),
+				};
+				for class_name in &class_list {
+					if orig_class_list.contains(class_name) {
+						orig_class_list.retain(|name| name != class_name);
+					} else {
+						orig_class_list.push(class_name.clone());
 					}
-					continue;
 				}
-				ele.set_attribute(ATTR_CLASS, Some(class_name));
+				ele.set_attribute(
+					ATTR_CLASS,
+					Some(class_list_to_string(&orig_class_list).as_str()),
+				);
 			}
 		}
 		self
-- 
2.43.0


From 6afbed1f1564a1dc2dc3659fb261699746d67610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:36 +0000
Subject: [PATCH 32/44] fix: append_text and prepend_text on an emptied script,
 style, title or textarea do not panic

---
 src/lib.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 5515079..6311e3e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -458,21 +458,21 @@ impl ITextTrait for Rc<RefCell<Node>> {
 		// append text
 		fn append_text(&mut self, content: &str) {
 			let chars = content.chars().collect::<Vec<char>>();
-			if let Some(content) = &mut self.borrow_mut().content {
-				content.extend(chars);
-			} else {
-				self.borrow_mut().content = Some(chars);
-			}
+			self
+				.borrow_mut()
+				.content
+				.get_or_insert_with(Vec::new)
+				.extend(chars);
 		}
 
 		// prepend text
 		fn prepend_text(&mut self, content: &str) {
 			let chars = content.chars().collect::<Vec<char>>();
-			if let Some(content) = &mut self.borrow_mut().content {
-				content.splice(0..0, chars);
-			} else {
-				self.borrow_mut().content = Some(chars);
-			}
+			self
+				.borrow_mut()
+				.content
+				.get_or_insert_with(Vec::new)
+				.splice(0..0, chars);
 		}
 	}
 }
-- 
2.43.0


From 6508f6f7ad2cef640caae372eb59e117c21a0609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:43 +0000
Subject: [PATCH 33/44] fix: text() of the document root is its text, and
 html() of it does not panic

---
 src/lib.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 6311e3e..165c7fd 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -293,6 +293,15 @@ impl INodeTrait for Rc<RefCell<Node>> {
 
 	/// impl `text_contents`
 	fn text_contents(&self) -> Vec<char> {
+		// the document root has no tag, its text is the text of all its child nodes
+		if self.is_root_element() {
+			let node = self.borrow();
+			let childs = node.childs.iter().flatten();
+			return childs
+				.filter(|child| matches!(child.node_type(), INodeType::Element | INodeType::Text))
+				.flat_map(|child| child.text_contents())
+				.collect();
+		}
 		self.borrow().build(
 			&RenderOptions {
 				decode_entity: true,
@@ -800,6 +809,13 @@ impl IElementTrait for Rc<RefCell<Node>> {
 
 	/// impl `inner_html`
 	fn inner_html(&self) -> String {
+		// the document root can't be rendered as an inner html when it's not wrapped by one tag
+		if self.is_root_element() {
+			let tags = self.children().length();
+			if tags != 1 {
+				return self.outer_html();
+			}
+		}
 		self
 			.borrow()
 			.build(
-- 
2.43.0


From bac59700a525794d09f6d4f6daa869286ce40225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:11 +0000
Subject: [PATCH 34/44] fix: val() of a select with deeply nested content does
 not overflow

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 165c7fd..583372a 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -541,7 +541,7 @@ impl IElementTrait for Rc<RefCell<Node>> {
 				values: &mut Vec<String>,
 				option_tag: &[char],
 				is_multiple: bool,
-				level: u8,
+				level: usize,
 			) {
 				if let Some(childs) = &parent.borrow().childs {
 					for child in childs {
-- 
2.43.0


From a270a3b7c33b4139a9988c21d608df00f9a13e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:15 +0000
Subject: [PATCH 35/44] fix: filter_by of texts does not panic on script,
 style, title and textarea

---
 src/mesdoc/interface/texts.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/mesdoc/interface/texts.rs b/src/mesdoc/interface/texts.rs
index 93ffc4b..09783e8 100644
--- a/src/mesdoc/interface/texts.rs
+++ b/src/mesdoc/interface/texts.rs
@@ -1,5 +1,5 @@
 
-use super::BoxDynText;
+use super::{BoxDynText, IEnumTyped};
 
 pub struct Texts<'a> {
 	nodes: Vec<BoxDynText<'a>>,
@@ -54,13 +54,15 @@ impl<'a> Texts<'a> {
 		let mut result: Texts = Texts::with_capacity(self.length());
 		for (index, ele) in self.get_ref().iter().enumerate() {
 			if handle(index, ele) {
-				result.get_mut_ref().push(
-					ele
-						.clone_node()
-						.typed()
-						.into_text()
-						.expect("Text ele must can use 'into_text'."),
-				);
+				let text = match ele.clone_node().typed() {
+					IEnumTyped::Text(text) => Some(text),
+					// the content tags
+					IEnumTyped::Element(ele) => ele.into_text().ok(),
+					_ => None,
+				};
+				result
+					.get_mut_ref()
+					.push(text.expect("Text ele must can use 'into_text'."));
 			}
 		}
 		result
-- 
2.43.0


From f311ade1eea65bec61d1f2dc0602521a467a7a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:20 +0000
Subject: [PATCH 36/44] fix: content of a self closed tag is rendered inside of
 the tag

---
 src/lib.rs | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 583372a..3b20c20 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -163,6 +163,23 @@ fn remove_not_allowed_nodes(tag_name: &[char], nodes: &mut Vec<RefNode>) -> bool
 	now_allowed_len > 0 && now_allowed_len != orig_len
 }
 
+// a self closed tag has no end tag, it must be closed by an end tag when it gets a content
+fn open_self_closed_tag(node: &RefNode) {
+	let mut node = node.borrow_mut();
+	let name = match &node.meta {
+		Some(meta) if meta.borrow().self_closed && !meta.borrow().is_void => {
+			meta.borrow_mut().self_closed = false;
+			meta.borrow().name.clone()
+		}
+		_ => return,
+	};
+	node.end_tag = Some(Rc::new(RefCell::new(Node {
+		node_type: NodeType::TagEnd,
+		content: Some(name),
+		..Default::default()
+	})));
+}
+
 fn check_if_content_tag(name: &[char]) -> bool {
 	is_content_tag(name, &Some(NameCase::Lower))
 }
@@ -331,6 +348,9 @@ impl INodeTrait for Rc<RefCell<Node>> {
 				let no_content_tag = !check_if_content_tag(&self.tag_names());
 				// the old childs are not in the tree any more
 				detach_childs(self);
+				if !content.is_empty() {
+					open_self_closed_tag(self);
+				}
 				let mut node = self.borrow_mut();
 				if !content.is_empty() {
 					if no_content_tag {
@@ -398,6 +418,7 @@ impl INodeTrait for Rc<RefCell<Node>> {
 				// content tag, just set html as content, no need encode
 				if is_element {
 					detach_childs(target);
+					open_self_closed_tag(target);
 				}
 				self.borrow_mut().content = Some(content.chars().collect::<Vec<char>>());
 			} else {
@@ -426,6 +447,9 @@ impl INodeTrait for Rc<RefCell<Node>> {
 					}
 					// the old childs are not in the tree any more
 					detach_childs(target);
+					if has_nodes {
+						open_self_closed_tag(target);
+					}
 					// set childs as new nodes
 					(*target.borrow_mut()).childs = if has_nodes { Some(nodes) } else { None };
 				} else if let Some(childs) = &mut target.borrow_mut().childs {
@@ -466,6 +490,7 @@ impl ITextTrait for Rc<RefCell<Node>> {
 
 		// append text
 		fn append_text(&mut self, content: &str) {
+			open_self_closed_tag(self);
 			let chars = content.chars().collect::<Vec<char>>();
 			self
 				.borrow_mut()
@@ -476,6 +501,7 @@ impl ITextTrait for Rc<RefCell<Node>> {
 
 		// prepend text
 		fn prepend_text(&mut self, content: &str) {
+			open_self_closed_tag(self);
 			let chars = content.chars().collect::<Vec<char>>();
 			self
 				.borrow_mut()
@@ -951,6 +977,7 @@ impl IElementTrait for Rc<RefCell<Node>> {
 						}
 					}
 					AfterBegin | BeforeEnd => {
+						open_self_closed_tag(self);
 						// set nodes parent
 						for node in &nodes {
 							node.borrow_mut().parent = Some(Rc::downgrade(self));
-- 
2.43.0


From 47b4396ad78e019fe6416b3adb5d142758c59ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:47 +0000
Subject: [PATCH 37/44] fix: html that ends in a tag name can be rendered

---
 src/lib.rs | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 3b20c20..29f327d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -163,6 +163,29 @@ fn remove_not_allowed_nodes(tag_name: &[char], nodes: &mut Vec<RefNode>) -> bool
 	now_allowed_len > 0 && now_allowed_len != orig_len
 }
 
+// parse the html
+fn parse_html(html: &str, options: ParseOptions) -> Result<DocHolder, BoxDynError> {
+	let doc = Doc::parse(html, options)?;
+	complete_parsed_nodes(&doc.borrow().root);
+	Ok(doc)
+}
+
+// complete the nodes of a parsed tree
+fn complete_parsed_nodes(node: &RefNode) {
+	// a tag which has no name, the html ends in it
+	if let Some(childs) = &mut node.borrow_mut().childs {
+		childs.retain(|child| {
+			let child = child.borrow();
+			child.node_type != NodeType::Tag || child.meta.is_some()
+		});
+	}
+	if let Some(childs) = &node.borrow().childs {
+		for child in childs {
+			complete_parsed_nodes(child);
+		}
+	}
+}
+
 // a self closed tag has no end tag, it must be closed by an end tag when it gets a content
 fn open_self_closed_tag(node: &RefNode) {
 	let mut node = node.borrow_mut();
@@ -422,7 +445,7 @@ impl INodeTrait for Rc<RefCell<Node>> {
 				}
 				self.borrow_mut().content = Some(content.chars().collect::<Vec<char>>());
 			} else {
-				let doc_holder = match Doc::parse(content, Vis::options()) {
+				let doc_holder = match parse_html(content, Vis::options()) {
 					Ok(doc_holder) => doc_holder,
 					Err(err) => {
 						Dom::halt(target, "set_html", &format!("{:?}", err));
@@ -1348,7 +1371,7 @@ impl Vis {
 		options: ParseOptions,
 	) -> Result<Document, BoxDynError> {
 		mesdoc::init();
-		let doc = Doc::parse(&html.into(), options)?;
+		let doc = parse_html(&html.into(), options)?;
 		Ok(Document { doc })
 	}
 	/// load the html with options, get an elements collection
-- 
2.43.0


From cb3f85dbb682a8e747e35769e8ae19f45ce2f6f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:52 +0000
Subject: [PATCH 38/44] fix: the text node of an unescaped left angle bracket
 has a parent

---
 src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 29f327d..23f5b8c 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -181,6 +181,8 @@ fn complete_parsed_nodes(node: &RefNode) {
 	}
 	if let Some(childs) = &node.borrow().childs {
 		for child in childs {
+			// the text of an unescaped '<' has no parent yet
+			child.borrow_mut().parent = Some(Rc::downgrade(node));
 			complete_parsed_nodes(child);
 		}
 	}
-- 
2.43.0


From 2a541c56989847618b74f4c295a555454a78c3f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:15 +0000
Subject: [PATCH 39/44] fix: selectors with combinators match elements of
 detached trees and of several documents in filter, not and has

---
 src/mesdoc/interface/elements.rs | 48 ++++++++++++++++++++------------
 1 file changed, 30 insertions(+), 18 deletions(-)

diff --git a/src/mesdoc/interface/elements.rs b/src/mesdoc/interface/elements.rs
index 4bd5b97..fdedde3 100644
--- a/src/mesdoc/interface/elements.rs
+++ b/src/mesdoc/interface/elements.rs
@@ -937,7 +937,6 @@ impl<'a> Elements<'a> {
 		let mut result = Elements::with_capacity(total);
 		let mut all_matched = false;
 		let chain_comb = Combinator::Chain;
-		let mut root: Option<Elements> = None;
 		for process in selector.process.iter() {
 			// filter methods make sure do not use `should_in`
 			let QueryProcess { query, .. } = process;
@@ -957,22 +956,21 @@ impl<'a> Elements<'a> {
 					}
 				}
 				if !filtered.is_empty() && query_num > 1 {
-					// set root first
-					root = root.or_else(|| {
-						let cur_first = filtered.get(0).expect("Filtered length greater than 0");
-						let root_element = cur_first
-							.root_element()
-							.unwrap_or_else(|| cur_first.cloned());
-						Some(Elements::with_node(&root_element))
-					});
-					// get root elements
-					let root_eles = root.as_ref().expect("root element must have");
-					// find elements from root_eles by selector
+					// find elements from the tree by selector
 					let lookup = Some(&query[..query_num - 1]);
 					let mut lasts = Elements::with_capacity(filtered.length());
 					let comb = &last_query_first_rule.1;
 					for ele in filtered.get_ref() {
-						if root_eles.has_ele(ele, comb, lookup) {
+						let (heads, head_comb) = Elements::lookup_heads(ele, comb, lookup);
+						// every element is in its tree, only a beginning combinator needs to check the root
+						let matched = match head_comb {
+							Combinator::ParentAll => !heads.is_empty(),
+							_ => {
+								let root_element = ele.root_element().unwrap_or_else(|| ele.cloned());
+								Elements::with_node(&root_element).has_heads(&heads, &head_comb, comb)
+							}
+						};
+						if matched {
 							lasts.get_mut_ref().push(ele.cloned());
 						}
 					}
@@ -1867,18 +1865,32 @@ impl<'a> Elements<'a> {
 		comb: &Combinator,
 		lookup: Option<&[Vec<SelectorSegment>]>,
 	) -> bool {
+		let (heads, head_comb) = Elements::lookup_heads(ele, comb, lookup);
+		self.has_heads(&heads, &head_comb, comb)
+	}
+
+	// look up from the element to the elements that matched the beginning of the lookup rules
+	fn lookup_heads<'b>(
+		ele: &BoxDynElement,
+		comb: &Combinator,
+		lookup: Option<&[Vec<SelectorSegment>]>,
+	) -> (Elements<'b>, Combinator) {
 		let mut elements = Elements::with_node(ele);
 		let mut lookup_comb = comb.reverse();
 		if let Some(lookup) = lookup {
 			for rules in lookup.iter().rev() {
-				let finded = Elements::select(&elements, rules, Some(&lookup_comb));
-				if finded.is_empty() {
-					return false;
-				}
+				elements = Elements::select(&elements, rules, Some(&lookup_comb));
 				lookup_comb = rules[0].1.reverse();
-				elements = finded;
+				if elements.is_empty() {
+					break;
+				}
 			}
 		}
+		(elements.cloned(), lookup_comb)
+	}
+
+	// check if any of the heads is related to the elements
+	fn has_heads(&self, elements: &Elements, lookup_comb: &Combinator, comb: &Combinator) -> bool {
 		use Combinator::*;
 		match lookup_comb {
 			Parent => {
-- 
2.43.0


From 4484977ff26bbe8af57fc23c05aaa1c0230c3d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:06:29 +0000
Subject: [PATCH 40/44] fix: html that the parser panics on is a load error

---
 src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 23f5b8c..16324af 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -36,6 +36,7 @@ use rphtml::{
 };
 use std::borrow::Cow;
 use std::collections::BTreeMap;
+use std::panic::{catch_unwind, AssertUnwindSafe};
 use std::rc::Rc;
 use std::{any::Any, cell::RefCell};
 // re export `IAttrValue` `IEnumTyped` `INodeType`
@@ -165,7 +166,9 @@ fn remove_not_allowed_nodes(tag_name: &[char], nodes: &mut Vec<RefNode>) -> bool
 
 // parse the html
 fn parse_html(html: &str, options: ParseOptions) -> Result<DocHolder, BoxDynError> {
-	let doc = Doc::parse(html, options)?;
+	// the parser may panic on some malformed html, e.g. `<!DOCTYPE html/><a>`, take it as a parse error
+	let parsed = catch_unwind(AssertUnwindSafe(|| Doc::parse(html, options)));
+	let doc = parsed.map_err(|_| "Html syntax error: the html can't be parsed.")??;
 	complete_parsed_nodes(&doc.borrow().root);
 	Ok(doc)
 }
-- 
2.43.0


From cb34d9899fd12ea35aee9f282717e8367c27fc7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:16:43 +0000
Subject: [PATCH 41/44] fix: a selector used before the first load no longer
 panics and poisons the selector rules

---
 src/mesdoc/selector/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mesdoc/selector/mod.rs b/src/mesdoc/selector/mod.rs
index 9917593..bdd74a3 100644
--- a/src/mesdoc/selector/mod.rs
+++ b/src/mesdoc/selector/mod.rs
@@ -89,6 +89,8 @@ impl Selector {
 		}
 	}
 	pub fn from_str(context: &str, use_lookup: bool) -> Result<Self, Error> {
+		// a set can be queried before anything is loaded
+		crate::mesdoc::init();
 		let chars: Vec<char> = context.chars().collect();
 		let total_len = chars.len();
 		let mut selector = Selector::new();
@@ -288,6 +290,7 @@ impl Selector {
 	}
 	// make '*' with combinator
 	pub fn make_comb_all(comb: Combinator) -> SelectorSegment {
+		crate::mesdoc::init();
 		let mut all_rule = ALL_RULE.lock().unwrap();
 		if all_rule.is_none() {
 			let rules = RULES.lock().unwrap();
-- 
2.43.0


From 147fb7356ef4611f4ba83675842dbd62bc5e4c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:17:03 +0000
Subject: [PATCH 42/44] fix: an invalid selector list inside :not() or :has()
 makes the whole selector invalid

---
 src/mesdoc/selector/mod.rs | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/mesdoc/selector/mod.rs b/src/mesdoc/selector/mod.rs
index bdd74a3..9392303 100644
--- a/src/mesdoc/selector/mod.rs
+++ b/src/mesdoc/selector/mod.rs
@@ -91,6 +91,17 @@ impl Selector {
 	pub fn from_str(context: &str, use_lookup: bool) -> Result<Self, Error> {
 		// a set can be queried before anything is loaded
 		crate::mesdoc::init();
+		let splitter = SPLITTER.lock().unwrap();
+		let rules = RULES.lock().unwrap();
+		Selector::parse(context, use_lookup, &rules, &splitter)
+	}
+	// parse the context with the locked rules
+	fn parse(
+		context: &str,
+		use_lookup: bool,
+		rules: &[(&str, Arc<Rule>)],
+		splitter: &[BoxDynPattern],
+	) -> Result<Self, Error> {
 		let chars: Vec<char> = context.chars().collect();
 		let total_len = chars.len();
 		let mut selector = Selector::new();
@@ -100,13 +111,11 @@ impl Selector {
 			let mut prev_in = PrevInSelector::Begin;
 			let mut last_in = prev_in;
 			let mut groups: SelectorGroups = Vec::new();
-			let splitter = SPLITTER.lock().unwrap();
-			let rules = RULES.lock().unwrap();
 			Selector::add_group(&mut groups);
 			while index < total_len {
 				let next_chars = &chars[index..];
 				// first check if combinator
-				if let Some((matched, len, _)) = Rule::exec_queues(&splitter, next_chars) {
+				if let Some((matched, len, _)) = Rule::exec_queues(splitter, next_chars) {
 					let op = matched[0].chars.iter().collect::<String>();
 					let op = op.trim();
 					if prev_in == PrevInSelector::Splitter {
@@ -169,10 +178,13 @@ impl Selector {
 							let (len, nested_matched) = Selector::parse_until(
 								&chars[index..],
 								&queues[queue_num + 1..],
-								&rules,
-								&splitter,
+								rules,
+								splitter,
 								0,
 							)?;
+							// the nested selector must be valid as a selector too
+							let nested = nested_matched[0].chars.iter().collect::<String>();
+							Selector::parse(&nested, use_lookup, rules, splitter)?;
 							index += len;
 							matched.extend(nested_matched);
 							Selector::add_group_item(&mut groups, (r.make(matched), comb), is_new_item);
-- 
2.43.0


From 77a3ac606b742b14adc781dba4f2eaaf87c4735b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:20:04 +0000
Subject: [PATCH 43/44] fix: slice honours an excluded start bound

---
 src/mesdoc/interface/elements.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mesdoc/interface/elements.rs b/src/mesdoc/interface/elements.rs
index fdedde3..79c3152 100644
--- a/src/mesdoc/interface/elements.rs
+++ b/src/mesdoc/interface/elements.rs
@@ -2570,8 +2570,9 @@ impl<'a> Elements<'a> {
 					return Elements::new();
 				}
 			}
-			_ => {
-				// start bound not have exclude
+			Bound::Excluded(&cur_start) => {
+				// a pair of bounds may exclude the start
+				start = cur_start.saturating_add(1);
 			}
 		};
 		match range.end_bound() {
-- 
2.43.0


From aa214e09ab551de91155ed7eb0555e6296e9ce20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:57 +0000
Subject: [PATCH 44/44] fix: sets that are not in document order are filtered,
 traversed and merged like ordered ones

---
 src/mesdoc/interface/elements.rs | 38 +++++++++++++++++++++++++++-----
 1 file changed, 33 insertions(+), 5 deletions(-)

diff --git a/src/mesdoc/interface/elements.rs b/src/mesdoc/interface/elements.rs
index 79c3152..9900879 100644
--- a/src/mesdoc/interface/elements.rs
+++ b/src/mesdoc/interface/elements.rs
@@ -367,6 +367,9 @@ impl<'a> Elements<'a> {
 impl<'a> Elements<'a> {
 	// keep one sibling, first<asc:true> or last<asc:false>
 	fn unique_sibling(&self, asc: bool) -> Elements<'a> {
+		if let Some(sorted) = self.to_sorted() {
+			return sorted.unique_sibling(asc);
+		}
 		let total = self.length();
 		let mut parents_indexs: HashSet<VecDeque<usize>> = HashSet::with_capacity(total);
 		let mut uniques: Vec<BoxDynElement> = Vec::with_capacity(total);
@@ -493,6 +496,23 @@ impl<'a> Elements<'a> {
 	fn unique(&mut self) {
 		self.get_mut_ref().dedup_by(|a, b| a.is(b));
 	}
+	// get the sorted elements if they are not in document order, e.g. the nodes are moved after they have been selected
+	fn to_sorted(&self) -> Option<Elements<'a>> {
+		let mut roots: TreeRoots = Vec::with_capacity(1);
+		let mut prev_indexs: Option<VecDeque<usize>> = None;
+		for ele in self.get_ref().iter().filter(|_| self.length() > 1) {
+			let indexs = get_tree_indexs(ele, &mut roots);
+			if let Some(prev_indexs) = &prev_indexs {
+				if compare_indexs(prev_indexs, &indexs) == Ordering::Greater {
+					let mut sorted = self.cloned();
+					sorted.sort();
+					return Some(sorted);
+				}
+			}
+			prev_indexs = Some(indexs);
+		}
+		None
+	}
 	// sort then unique
 	fn sort_and_unique(&mut self) {
 		self.sort();
@@ -932,6 +952,11 @@ impl<'a> Elements<'a> {
 		selector: &Selector,
 		filter_type: &FilterType,
 	) -> (Elements<'a>, bool) {
+		// the rules that check all the elements once need the document order, then keep the order of self
+		if let Some(sorted) = self.to_sorted() {
+			let (result, all_matched) = sorted.filter_type_handle(selector, filter_type);
+			return (self.filter_in(&result), all_matched);
+		}
 		let eles = self.get_ref();
 		let total = eles.len();
 		let mut result = Elements::with_capacity(total);
@@ -1749,9 +1774,9 @@ impl<'a> Elements<'a> {
 						}
 					}
 				}
-				// need sort and unique
-				result.sort_and_unique();
 			}
+			// need sort and unique
+			result.sort_and_unique();
 			result
 		} else {
 			self.trigger_method_throw_error(METHOD, Box::new(selector.unwrap_err()));
@@ -1760,6 +1785,9 @@ impl<'a> Elements<'a> {
 	}
 	// for `find` and `select_with_comb`
 	fn find_selector(&self, selector: &Selector) -> Elements<'a> {
+		if let Some(sorted) = self.to_sorted() {
+			return sorted.find_selector(selector);
+		}
 		let mut result = Elements::with_capacity(DEF_NODES_LEN);
 		if !self.is_empty() {
 			for p in &selector.process {
@@ -2637,10 +2665,10 @@ impl<'a> Elements<'a> {
 	/// ```
 	pub fn add(&self, eles: Elements<'a>) -> Elements<'a> {
 		if self.is_empty() {
-			return eles;
+			return eles.to_sorted().unwrap_or(eles);
 		}
 		if eles.is_empty() {
-			return self.cloned();
+			return self.to_sorted().unwrap_or_else(|| self.cloned());
 		}
 		let first_eles = self;
 		let second_eles = &eles;
@@ -2649,7 +2677,7 @@ impl<'a> Elements<'a> {
 		for ele in first_eles.get_ref().iter().chain(second_eles.get_ref()) {
 			get_tree_indexs(ele, &mut roots);
 		}
-		if roots.len() > 1 {
+		if roots.len() > 1 || first_eles.to_sorted().is_some() || second_eles.to_sorted().is_some() {
 			let mut result = first_eles.cloned();
 			result.get_mut_ref().extend(eles);
 			result.sort_and_unique();
-- 
2.43.0

