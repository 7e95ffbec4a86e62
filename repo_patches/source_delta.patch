From 29c7ecc27333b1f1dfea18b1cf7d87cb83fdadca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:18 +0000
Subject: [PATCH 01/40] fix: round nth quotients towards the right integer when
 they are near zero

---
 src/mesdoc/utils.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mesdoc/utils.rs b/src/mesdoc/utils.rs
index 608f430..1e338b1 100644
--- a/src/mesdoc/utils.rs
+++ b/src/mesdoc/utils.rs
@@ -86,13 +86,13 @@ pub fn divide_isize(a: isize, b: isize, round: RoundType) -> isize {
 	match round {
 		Floor => {
 			// -∞ -> 0
-			if res < 0 && remainder != 0 {
+			if remainder != 0 && (remainder < 0) != (b < 0) {
 				res -= 1;
 			}
 		}
 		Ceil => {
 			// 0 -> ∞
-			if res > 0 && remainder != 0 {
+			if remainder != 0 && (remainder < 0) == (b < 0) {
 				res += 1;
 			}
 		}
-- 
2.43.0


From e376c2a630c8adc43b4a3104f69316c9007384fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:12 +0000
Subject: [PATCH 02/40] fix: do not underflow when a last child rule meets an
 element without child nodes

---
 src/mesdoc/rules/pseudo.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/mesdoc/rules/pseudo.rs b/src/mesdoc/rules/pseudo.rs
index 0a3dbda..f30d7f8 100644
--- a/src/mesdoc/rules/pseudo.rs
+++ b/src/mesdoc/rules/pseudo.rs
@@ -172,6 +172,9 @@ fn make_asc_or_desc_nth_child_specified(asc: bool, index: isize) -> MatchSpecifi
 		} else {
 			Box::new(move |ele, mut callback| {
 				let total = ele.child_nodes_length();
+				if total == 0 {
+					return;
+				}
 				let mut matched: VecDeque<bool> = VecDeque::with_capacity(total);
 				// loop from last node to first node
 				// gather the matched info
@@ -528,6 +531,9 @@ fn make_asc_or_desc_nth_of_type_specified(asc: bool, index: isize) -> MatchSpeci
 				let mut node_indexs: Vec<usize> = Vec::with_capacity(DEF_NODES_LEN);
 				// total
 				let total = ele.child_nodes_length();
+				if total == 0 {
+					return;
+				}
 				let mut matched: VecDeque<bool> = VecDeque::with_capacity(total);
 				// loop from last node to first node
 				// gather the matched info
-- 
2.43.0


From 9da47df4dfa03f63f4c3ed7e3089a191b6148f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:17 +0000
Subject: [PATCH 03/40] fix: do not panic on nth numbers that do not fit an
 isize

---
 src/mesdoc/rules/pseudo.rs     | 10 +++++-----
 src/mesdoc/selector/pattern.rs | 23 ++++++++++++++++-------
 2 files changed, 21 insertions(+), 12 deletions(-)

diff --git a/src/mesdoc/rules/pseudo.rs b/src/mesdoc/rules/pseudo.rs
index f30d7f8..ab0f99f 100644
--- a/src/mesdoc/rules/pseudo.rs
+++ b/src/mesdoc/rules/pseudo.rs
@@ -16,11 +16,11 @@ use std::{collections::HashMap, ops::Range};
 const PRIORITY: u32 = PRIORITY_PSEUDO_SELECTOR;
 
 fn nth_index_to_number(index: &Option<String>) -> isize {
-	index
-		.as_ref()
-		.expect("Nth's n and index must have one")
-		.parse::<isize>()
-		.expect("Nth's index is not ok")
+	Nth::parse_number(
+		index
+			.as_ref()
+			.expect("Nth's n and index must have one"),
+	)
 }
 
 /// Pseudo selector ":root"
diff --git a/src/mesdoc/selector/pattern.rs b/src/mesdoc/selector/pattern.rs
index 452a789..b8a3ea0 100644
--- a/src/mesdoc/selector/pattern.rs
+++ b/src/mesdoc/selector/pattern.rs
@@ -260,6 +260,15 @@ impl Nth {
 		}
 		None
 	}
+	// parse the matched digits, a number too big for any child list is limited
+	pub(crate) fn parse_number(value: &str) -> isize {
+		const LIMIT: isize = i32::MAX as isize;
+		match value.parse::<isize>() {
+			Ok(number) => number.clamp(-LIMIT, LIMIT),
+			Err(_) if value.starts_with('-') => -LIMIT,
+			Err(_) => LIMIT,
+		}
+	}
 	// get indexs allowed
 	pub fn get_allowed_indexs(
 		n: &Option<String>,
@@ -268,10 +277,10 @@ impl Nth {
 	) -> Vec<usize> {
 		// has n
 		if let Some(n) = n {
-			let n = n.parse::<isize>().unwrap();
+			let n = Nth::parse_number(n);
 			let index = index
 				.as_ref()
-				.map(|index| index.parse::<isize>().unwrap())
+				.map(|index| Nth::parse_number(index))
 				.unwrap_or(0);
 			// n == 0
 			if n == 0 {
@@ -331,11 +340,11 @@ impl Nth {
 			return allow_indexs;
 		}
 		// only index
-		let index = index
-			.as_ref()
-			.expect("Nth must have 'index' value when 'n' is not setted.")
-			.parse::<isize>()
-			.expect("Nth's index is not a correct number");
+		let index = Nth::parse_number(
+			index
+				.as_ref()
+				.expect("Nth must have 'index' value when 'n' is not setted."),
+		);
 		if index <= 0 || index > (total as isize) {
 			return vec![];
 		}
-- 
2.43.0


From a43a3ee0f0f9589425d8ea69481e7657a4dc88fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:21 +0000
Subject: [PATCH 04/40] fix: report a truncated selector instead of indexing
 past its end

---
 src/mesdoc/selector/pattern.rs | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/mesdoc/selector/pattern.rs b/src/mesdoc/selector/pattern.rs
index b8a3ea0..f4ae9a1 100644
--- a/src/mesdoc/selector/pattern.rs
+++ b/src/mesdoc/selector/pattern.rs
@@ -44,14 +44,13 @@ pub trait Pattern: Send + Sync + Debug {
 
 impl Pattern for char {
 	fn matched(&self, chars: &[char]) -> Option<Matched> {
-		let ch = chars[0];
-		if *self == ch {
-			return Some(Matched {
-				chars: vec![ch],
+		match chars.first() {
+			Some(ch) if ch == self => Some(Matched {
+				chars: vec![*ch],
 				..Default::default()
-			});
+			}),
+			_ => None,
 		}
-		None
 	}
 }
 
@@ -92,10 +91,10 @@ pub struct Identity;
 impl Pattern for Identity {
 	fn matched(&self, chars: &[char]) -> Option<Matched> {
 		let mut result: Vec<char> = Vec::with_capacity(5);
-		let first = chars[0];
 		let name: &str = "identity";
-		if !(first.is_ascii_alphabetic() || first == '_') {
-			return None;
+		match chars.first() {
+			Some(first) if first.is_ascii_alphabetic() || *first == '_' => {}
+			_ => return None,
 		}
 		// allow translate character '\': fix issue #2
 		let mut is_in_translate = false;
-- 
2.43.0


From a624db7c94e302584c71043f140bb6b55be6f8ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:25 +0000
Subject: [PATCH 05/40] fix: parse nested selectors up to their own end and
 report unclosed ones

---
 src/mesdoc/selector/mod.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/mesdoc/selector/mod.rs b/src/mesdoc/selector/mod.rs
index c5588ad..0566f18 100644
--- a/src/mesdoc/selector/mod.rs
+++ b/src/mesdoc/selector/mod.rs
@@ -323,6 +323,7 @@ impl Selector {
 		let mut index = 0;
 		let total = chars.len();
 		let mut matched: MatchedQueue = Vec::with_capacity(until.len() + 1);
+		let mut is_end = false;
 		while index < total {
 			let next_chars = &chars[index..];
 			if let Some((_, len, _)) = Rule::exec_queues(splitter, next_chars) {
@@ -333,12 +334,12 @@ impl Selector {
 			for (_, r) in rules.iter() {
 				if let Some((_, len, queue_num)) = r.exec(next_chars) {
 					let queues = &r.queues;
-					// find the rule
-					index += len;
 					if queue_num == queues.len() {
-						// push to selector
+						// find the rule
+						index += len;
 						finded = true;
-					} else {
+					} else if queues[queue_num].is_nested() {
+						index += len;
 						let (nest_count, _) = Selector::parse_until(
 							&chars[index..],
 							&queues[queue_num + 1..],
@@ -347,6 +348,7 @@ impl Selector {
 							level + 1,
 						)?;
 						index += nest_count;
+						finded = true;
 					}
 					break;
 				}
@@ -374,9 +376,16 @@ impl Selector {
 						}
 					}
 				}
+				is_end = true;
 				break;
 			}
 		}
+		if !is_end {
+			return Err(Error::InvalidSelector {
+				context: chars.iter().collect::<String>(),
+				reason: String::from("Nested selector is not closed"),
+			});
+		}
 		Ok((index, matched))
 	}
 }
-- 
2.43.0


From d2d80e2cdc62b44737f8b7c390d884f35a83b0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:29 +0000
Subject: [PATCH 06/40] fix: an invalid selector on an empty set must not panic

---
 src/mesdoc/interface/elements.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/mesdoc/interface/elements.rs b/src/mesdoc/interface/elements.rs
index b37d7df..28e1a23 100644
--- a/src/mesdoc/interface/elements.rs
+++ b/src/mesdoc/interface/elements.rs
@@ -124,11 +124,7 @@ impl<'a> Elements<'a> {
 	}
 
 	pub(crate) fn trigger_method_throw_error(&self, method: &str, error: BoxDynError) {
-		if let Some(doc) = &self
-			.get(0)
-			.expect("Use index 0 when length > 0")
-			.owner_document()
-		{
+		if let Some(doc) = &self.get(0).and_then(|ele| ele.owner_document()) {
 			doc.trigger_error(Box::new(IError::MethodOnInvalidSelector {
 				method: String::from(method),
 				error: error.to_string(),
-- 
2.43.0


From f4d122583efbeb27c3057fa9dbbf59896d8b4ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:52 +0000
Subject: [PATCH 07/40] fix: last() of an empty set is an empty set

---
 src/mesdoc/interface/elements.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mesdoc/interface/elements.rs b/src/mesdoc/interface/elements.rs
index 28e1a23..7fb7a3e 100644
--- a/src/mesdoc/interface/elements.rs
+++ b/src/mesdoc/interface/elements.rs
@@ -2517,7 +2517,10 @@ impl<'a> Elements<'a> {
 	/// }
 	/// ```
 	pub fn last(&self) -> Elements<'a> {
-		self.eq(self.length() - 1)
+		match self.get_ref().last() {
+			Some(ele) => Elements::with_node(ele),
+			None => Elements::new(),
+		}
 	}
 
 	/// Get a subset specified by a range of indices.
-- 
2.43.0


From 34f7f04532c6a0d1a4d22b694857690483a78908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:57 +0000
Subject: [PATCH 08/40] fix: slice() of an empty or inverted range is an empty
 set

---
 src/mesdoc/interface/elements.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mesdoc/interface/elements.rs b/src/mesdoc/interface/elements.rs
index 7fb7a3e..e0f4695 100644
--- a/src/mesdoc/interface/elements.rs
+++ b/src/mesdoc/interface/elements.rs
@@ -2583,12 +2583,14 @@ impl<'a> Elements<'a> {
 				}
 			}
 			Bound::Included(&cur_end) => {
-				let cur_end = cur_end + 1;
 				if cur_end < end {
-					end = cur_end;
+					end = cur_end + 1;
 				}
 			}
 		}
+		if start >= end {
+			return Elements::new();
+		}
 		let mut result = Elements::with_capacity(end - start);
 		let eles = self.get_ref();
 		for ele in &eles[start..end] {
-- 
2.43.0


From 0ed54e335ceaf12081f79d140ec91cd9890889cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:27 +0000
Subject: [PATCH 09/40] fix: add() places the elements behind an equal last one
 at the end

---
 src/mesdoc/interface/elements.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mesdoc/interface/elements.rs b/src/mesdoc/interface/elements.rs
index e0f4695..b191e36 100644
--- a/src/mesdoc/interface/elements.rs
+++ b/src/mesdoc/interface/elements.rs
@@ -2724,7 +2724,7 @@ impl<'a> Elements<'a> {
 						}
 						Ordering::Equal => {
 							// equal to first right, now all the second after current is behind first right
-							let cur_fir_index = sec_right_index + 1;
+							let cur_fir_index = fir_right_index + 1;
 							for index in sec_left_index + 1..=sec_right_index {
 								mids.push((index, cur_fir_index));
 							}
-- 
2.43.0


From 2b7bd1099a3052968b0ae99a799c04544c7951fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:31 +0000
Subject: [PATCH 10/40] fix: remove_attribute forgets the attribute whatever
 the case of the given name

---
 src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index b07cf4d..7f51ffe 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -744,7 +744,10 @@ impl IElementTrait for Rc<RefCell<Node>> {
 				// set attr data as null data
 				meta.borrow_mut().attrs[index] = Attr::default();
 				// remove name from names map
-				meta.borrow_mut().lc_name_map.remove(name);
+				meta
+					.borrow_mut()
+					.lc_name_map
+					.remove(&name.to_ascii_lowercase());
 			}
 		}
 	}
-- 
2.43.0


From da1e499e8ef4577966ba32cfd578129a61c9626a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:35 +0000
Subject: [PATCH 11/40] fix: set_attribute on an existing attribute also
 updates its quote

---
 src/lib.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 7f51ffe..cad82f6 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -708,9 +708,13 @@ impl IElementTrait for Rc<RefCell<Node>> {
 			} else {
 				None
 			};
+			let quote = if value.is_some() { Some(quote) } else { None };
 			// find the attribute, just set the value
 			if let Some(index) = find_index {
-				meta.borrow_mut().attrs[index].value = value;
+				let attr = &mut meta.borrow_mut().attrs[index];
+				attr.value = value;
+				attr.quote = quote;
+				attr.need_quote = need_quote;
 				return;
 			}
 			// new attribute, add it to the attrs and add a lowercase name to lc_name_map
@@ -718,7 +722,6 @@ impl IElementTrait for Rc<RefCell<Node>> {
 			// insert name and index into name map
 			meta.borrow_mut().lc_name_map.insert(lc_name, index);
 			// add to attrs
-			let quote = if value.is_some() { Some(quote) } else { None };
 			meta.borrow_mut().attrs.push(Attr {
 				key: Some(AttrData {
 					content: name.chars().collect(),
-- 
2.43.0


From b23634ad1b03b48d84e57ebde5ef02ae63bc63ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:39 +0000
Subject: [PATCH 12/40] fix: remove_class and toggle_class remove every listed
 class in any order

---
 src/mesdoc/interface/elements.rs | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/src/mesdoc/interface/elements.rs b/src/mesdoc/interface/elements.rs
index b191e36..ddb351d 100644
--- a/src/mesdoc/interface/elements.rs
+++ b/src/mesdoc/interface/elements.rs
@@ -17,7 +17,7 @@ use crate::mesdoc::{
 };
 use crate::mesdoc::{
 	selector::rule::MatchSpecifiedHandle,
-	utils::{get_class_list, retain_by_index},
+	utils::get_class_list,
 };
 use std::collections::HashMap;
 use std::collections::HashSet;
@@ -3438,14 +3438,9 @@ impl<'a> Elements<'a> {
 				let class_value = ele.get_attribute(ATTR_CLASS);
 				if let Some(IAttrValue::Value(cls, _)) = class_value {
 					let mut orig_class_list = get_class_list(&cls);
-					let mut removed_indexs: Vec<usize> = Vec::with_capacity(class_list.len());
-					for class_name in &class_list {
-						if let Some(index) = orig_class_list.iter().position(|name| name == class_name) {
-							removed_indexs.push(index);
-						}
-					}
-					if !removed_indexs.is_empty() {
-						retain_by_index(&mut orig_class_list, &removed_indexs);
+					let orig_total = orig_class_list.len();
+					orig_class_list.retain(|name| !class_list.contains(name));
+					if orig_class_list.len() != orig_total {
 						ele.set_attribute(
 							ATTR_CLASS,
 							Some(class_list_to_string(&orig_class_list).as_str()),
@@ -3493,18 +3488,18 @@ impl<'a> Elements<'a> {
 				let class_value = ele.get_attribute(ATTR_CLASS);
 				if let Some(IAttrValue::Value(cls, _)) = class_value {
 					let mut orig_class_list = get_class_list(&cls);
-					let mut removed_indexs: Vec<usize> = Vec::with_capacity(total);
+					let mut removed_class_list: Vec<&Vec<char>> = Vec::with_capacity(total);
 					let mut added_class_list: Vec<Vec<char>> = Vec::with_capacity(total);
 					for class_name in &class_list {
-						if let Some(index) = orig_class_list.iter().position(|name| name == class_name) {
-							removed_indexs.push(index);
+						if orig_class_list.contains(class_name) {
+							removed_class_list.push(class_name);
 						} else {
 							added_class_list.push(class_name.clone());
 						}
 					}
 					let mut need_set = false;
-					if !removed_indexs.is_empty() {
-						retain_by_index(&mut orig_class_list, &removed_indexs);
+					if !removed_class_list.is_empty() {
+						orig_class_list.retain(|name| !removed_class_list.contains(&name));
 						need_set = true;
 					}
 					if !added_class_list.is_empty() {
-- 
2.43.0


From 767c73202c3fe2d98029151b81fa54c13796ee54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:42 +0000
Subject: [PATCH 13/40] fix: [attr=''] and [attr|=''] do not match elements
 without the attribute

---
 src/mesdoc/rules/attr.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mesdoc/rules/attr.rs b/src/mesdoc/rules/attr.rs
index 717364e..1608188 100644
--- a/src/mesdoc/rules/attr.rs
+++ b/src/mesdoc/rules/attr.rs
@@ -51,7 +51,8 @@ pub fn init(rules: &mut Vec<RuleItem>) {
 								let attr_value: String = format!("{}-", attr_value);
 								v.starts_with(&attr_value)
 							}
-							_ => attr_value.is_empty(),
+							Some(IAttrValue::True) => attr_value.is_empty(),
+							None => false,
 						}),
 						// in a value list that splitted by whitespaces
 						"~" => Box::new(move |val: &Option<IAttrValue>| match val {
@@ -74,7 +75,8 @@ pub fn init(rules: &mut Vec<RuleItem>) {
 						// equal to value
 						_ => Box::new(move |val: &Option<IAttrValue>| match val {
 							Some(IAttrValue::Value(v, _)) => *v == attr_value,
-							_ => attr_value.is_empty(),
+							Some(IAttrValue::True) => attr_value.is_empty(),
+							None => false,
 						}),
 					}
 				}
-- 
2.43.0


From 349f60671f194794f92f33aa97dc6ff442ef1b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:46 +0000
Subject: [PATCH 14/40] fix: reading attributes of a root node gives nothing
 instead of a panic

---
 src/lib.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index cad82f6..163d825 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -611,10 +611,7 @@ impl IElementTrait for Rc<RefCell<Node>> {
 	fn get_attribute(&self, name: &str) -> Option<IAttrValue> {
 		// use lowercase to get attribute: issue: #2
 		let node = &self.borrow();
-		let meta = node
-			.meta
-			.as_ref()
-			.expect("Element node must have a meta field.");
+		let meta = node.meta.as_ref()?;
 		// if has meta, then compare with lowercase
 		let lc_name_map = &meta.borrow().lc_name_map;
 		if !lc_name_map.is_empty() {
@@ -634,10 +631,10 @@ impl IElementTrait for Rc<RefCell<Node>> {
 
 	fn get_attributes(&self) -> Vec<(String, IAttrValue)> {
 		let node = &self.borrow();
-		let meta = node
-			.meta
-			.as_ref()
-			.expect("Element node must have a meta field.");
+		let meta = match node.meta.as_ref() {
+			Some(meta) => meta,
+			None => return vec![],
+		};
 		let attrs = &meta.borrow().attrs;
 		let attr_map = meta
 			.borrow()
-- 
2.43.0


From ec3e737cf23e143e99e6962fa3f7943413fd200b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:22 +0000
Subject: [PATCH 15/40] fix: traversals from several elements match the whole
 selector and return each element once, in order

---
 src/mesdoc/interface/elements.rs | 46 +++++++++++++++++++++-----------
 1 file changed, 30 insertions(+), 16 deletions(-)

diff --git a/src/mesdoc/interface/elements.rs b/src/mesdoc/interface/elements.rs
index ddb351d..d2ee2ee 100644
--- a/src/mesdoc/interface/elements.rs
+++ b/src/mesdoc/interface/elements.rs
@@ -447,8 +447,14 @@ impl<'a> Elements<'a> {
 	fn unique_parents(&self) -> Elements<'a> {
 		// keep only top parent
 		let mut ancestors: Vec<(VecDeque<usize>, &BoxDynElement)> = Vec::with_capacity(self.length());
-		for ele in self.get_ref() {
-			let ele_indexs = get_tree_indexs(ele);
+		// make sure the elements are ordered
+		let mut eles: Vec<(VecDeque<usize>, &BoxDynElement)> = self
+			.get_ref()
+			.iter()
+			.map(|ele| (get_tree_indexs(ele), ele))
+			.collect();
+		eles.sort_by(|a, b| compare_indexs(&a.0, &b.0));
+		for (ele_indexs, ele) in eles {
 			let cur_len = ancestors.len();
 			if cur_len > 0 {
 				// just check the last ancestor
@@ -458,7 +464,8 @@ impl<'a> Elements<'a> {
 						ancestors.push((ele_indexs, ele));
 					}
 					ElementRelation::Descendant => {}
-					_ => unreachable!("The elements call `unique_parents` is not ordered"),
+					// ordered, so it must be the same element
+					_ => {}
 				}
 			} else {
 				ancestors.push((ele_indexs, ele));
@@ -472,11 +479,7 @@ impl<'a> Elements<'a> {
 	}
 	// sort
 	fn sort(&mut self) {
-		self.get_mut_ref().sort_by(|a, b| {
-			let a_index = get_tree_indexs(a);
-			let b_index = get_tree_indexs(b);
-			compare_indexs(&a_index, &b_index)
-		});
+		self.get_mut_ref().sort_by_cached_key(get_tree_indexs);
 	}
 	// unique
 	fn unique(&mut self) {
@@ -516,13 +519,13 @@ impl<'a> Elements<'a> {
 		contains: bool,
 		comb: Combinator,
 	) -> Elements<'a> {
-		let selector = selector.parse::<Selector>();
+		let selector = Selector::from_str(selector, false);
 		if let Ok(selector) = &selector {
 			let segment = Selector::make_comb_all(comb);
 			let next_selector = Selector::from_segment(segment);
 			let mut result = Elements::with_capacity(DEF_NODES_LEN);
 			let (next_ok, filter) = if !filter.is_empty() {
-				let filter = filter.parse::<Selector>();
+				let filter = Selector::from_str(filter, false);
 				if let Ok(filter) = filter {
 					(true, Some(filter))
 				} else {
@@ -570,6 +573,14 @@ impl<'a> Elements<'a> {
 						}
 					}
 				}
+				if self.length() > 1 {
+					// may be disordered or repeated
+					result.sort_and_unique();
+					if matches!(comb, Combinator::Prev | Combinator::Parent) {
+						// keep the walking order, from near to far
+						result.get_mut_ref().reverse();
+					}
+				}
 				return result;
 			}
 		} else {
@@ -902,6 +913,10 @@ impl<'a> Elements<'a> {
 				result = matcher.apply(elements, None);
 			}
 		};
+		// the elements may be nested, then the results may be disordered or repeated
+		if elements.length() > 1 && !matches!(cur_comb, ChildrenAll | ParentAll | Chain) {
+			result.sort_and_unique();
+		}
 		result
 	}
 
@@ -1521,12 +1536,11 @@ impl<'a> Elements<'a> {
 			child_selector = Selector::from_segment(Selector::make_comb_all(child_comb));
 		} else {
 			// self
-			let sib_selector = selector.parse::<Selector>();
+			let sib_selector = Selector::from_str(selector, false);
 			if let Ok(sib_selector) = sib_selector {
 				// clone the selector to a child selector
-				child_selector = selector
-					.parse::<Selector>()
-					.expect("The selector has detected");
+				child_selector =
+					Selector::from_str(selector, false).expect("The selector has detected");
 				child_selector.head_combinator(child_comb);
 				// use siblings selector
 				siblings_selector = sib_selector;
@@ -1557,7 +1571,7 @@ impl<'a> Elements<'a> {
 			result.get_mut_ref().extend(finded);
 		}
 		// sort the result
-		result.sort();
+		result.sort_and_unique();
 		result
 	}
 
@@ -1719,7 +1733,7 @@ impl<'a> Elements<'a> {
 		}
 		// find the nearst node
 		const METHOD: &str = "closest";
-		let selector = selector.parse::<Selector>();
+		let selector = Selector::from_str(selector, false);
 		if let Ok(selector) = selector {
 			let total = self.length();
 			let mut result = Elements::with_capacity(total);
-- 
2.43.0


From 6f588c13c29b4a2c8ffb11f6fa23c4527a4122a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:19 +0000
Subject: [PATCH 16/40] fix: sets may span several trees, equal positions there
 are different elements

---
 src/mesdoc/interface/elements.rs | 64 ++++++++++++++++++++++----------
 1 file changed, 45 insertions(+), 19 deletions(-)

diff --git a/src/mesdoc/interface/elements.rs b/src/mesdoc/interface/elements.rs
index d2ee2ee..9181e5b 100644
--- a/src/mesdoc/interface/elements.rs
+++ b/src/mesdoc/interface/elements.rs
@@ -27,16 +27,32 @@ use std::{
 	ops::{Bound, RangeBounds},
 };
 
-// get the ele indexs in tree
-fn get_tree_indexs(ele: &BoxDynElement) -> VecDeque<usize> {
+// get the ele indexs in tree, the first index is the order of the tree in `tops`
+fn get_tree_indexs<'b>(
+	ele: &BoxDynElement,
+	tops: &mut Vec<BoxDynElement<'b>>,
+) -> VecDeque<usize> {
 	let mut indexs: VecDeque<usize> = VecDeque::with_capacity(DEF_NODES_LEN);
-	fn loop_handle(ele: &BoxDynElement, indexs: &mut VecDeque<usize>) {
-		indexs.push_front(ele.index());
+	fn loop_handle<'b>(
+		ele: &BoxDynElement,
+		indexs: &mut VecDeque<usize>,
+		tops: &mut Vec<BoxDynElement<'b>>,
+	) {
 		if let Some(parent) = &ele.parent() {
-			loop_handle(parent, indexs);
+			indexs.push_front(ele.index());
+			loop_handle(parent, indexs, tops);
+		} else {
+			let order = tops
+				.iter()
+				.position(|top| top.is(ele))
+				.unwrap_or_else(|| {
+					tops.push(ele.cloned());
+					tops.len() - 1
+				});
+			indexs.push_front(order);
 		}
 	}
-	loop_handle(ele, &mut indexs);
+	loop_handle(ele, &mut indexs, tops);
 	indexs
 }
 
@@ -365,7 +381,7 @@ impl<'a> Elements<'a> {
 		let mut parents_indexs: HashSet<VecDeque<usize>> = HashSet::with_capacity(total);
 		let mut uniques: Vec<BoxDynElement> = Vec::with_capacity(total);
 		let mut prev_parent: Option<BoxDynElement> = None;
-		let mut has_root = false;
+		let mut tops: Vec<BoxDynElement> = Vec::with_capacity(1);
 		let mut handle = |ele: &BoxDynElement| {
 			if let Some(parent) = ele.parent() {
 				if let Some(prev_parent) = &prev_parent {
@@ -374,7 +390,7 @@ impl<'a> Elements<'a> {
 					}
 				}
 				// parents
-				let indexs = get_tree_indexs(&parent);
+				let indexs = get_tree_indexs(&parent, &mut tops);
 				// set prev parent
 				prev_parent = Some(parent);
 				// new parent
@@ -382,8 +398,7 @@ impl<'a> Elements<'a> {
 					parents_indexs.insert(indexs);
 					uniques.push(ele.cloned());
 				}
-			} else if !has_root {
-				has_root = true;
+			} else {
 				uniques.push(ele.cloned());
 			}
 		};
@@ -417,11 +432,12 @@ impl<'a> Elements<'a> {
 		let mut parents_indexs: HashMap<VecDeque<usize>, (usize, bool)> = HashMap::with_capacity(total);
 		let mut uniques: Vec<(BoxDynElement, bool)> = Vec::with_capacity(total);
 		let mut parents: HashMap<usize, BoxDynElement> = HashMap::with_capacity(total);
+		let mut tops: Vec<BoxDynElement> = Vec::with_capacity(1);
 		// just keep one sibling node
 		for ele in self.get_ref() {
 			if let Some(parent) = ele.parent() {
 				// parent indexs
-				let indexs = get_tree_indexs(&parent);
+				let indexs = get_tree_indexs(&parent, &mut tops);
 				if let Some((index, changed)) = parents_indexs.get_mut(&indexs) {
 					if !*changed {
 						let index = *index;
@@ -447,11 +463,12 @@ impl<'a> Elements<'a> {
 	fn unique_parents(&self) -> Elements<'a> {
 		// keep only top parent
 		let mut ancestors: Vec<(VecDeque<usize>, &BoxDynElement)> = Vec::with_capacity(self.length());
+		let mut tops: Vec<BoxDynElement> = Vec::with_capacity(1);
 		// make sure the elements are ordered
 		let mut eles: Vec<(VecDeque<usize>, &BoxDynElement)> = self
 			.get_ref()
 			.iter()
-			.map(|ele| (get_tree_indexs(ele), ele))
+			.map(|ele| (get_tree_indexs(ele, &mut tops), ele))
 			.collect();
 		eles.sort_by(|a, b| compare_indexs(&a.0, &b.0));
 		for (ele_indexs, ele) in eles {
@@ -479,7 +496,10 @@ impl<'a> Elements<'a> {
 	}
 	// sort
 	fn sort(&mut self) {
-		self.get_mut_ref().sort_by_cached_key(get_tree_indexs);
+		let mut tops: Vec<BoxDynElement> = Vec::with_capacity(1);
+		self
+			.get_mut_ref()
+			.sort_by_cached_key(|ele| get_tree_indexs(ele, &mut tops));
 	}
 	// unique
 	fn unique(&mut self) {
@@ -2666,22 +2686,28 @@ impl<'a> Elements<'a> {
 		let fir_right_index = first_count - 1;
 		let first = first_eles.get_ref();
 		let second = second_eles.get_ref();
+		// the trees are ordered by their first appearance
+		let mut tops: Vec<BoxDynElement> = Vec::with_capacity(1);
+		for ele in first.iter().chain(second) {
+			get_tree_indexs(ele, &mut tops);
+		}
 		// get first index cached or from cached
 		fn get_first_index_cached<'a>(
 			first_indexs: &'a mut HashMap<usize, VecDeque<usize>>,
 			first: &[BoxDynElement],
 			index: usize,
+			tops: &mut Vec<BoxDynElement>,
 		) -> &'a mut VecDeque<usize> {
 			first_indexs
 				.entry(index)
-				.or_insert_with(|| get_tree_indexs(&first[index]))
+				.or_insert_with(|| get_tree_indexs(&first[index], tops))
 		}
 		while fir_left_index <= fir_right_index && sec_left_index <= sec_right_index {
 			// the second left
 			let sec_left = &second[sec_left_index];
-			let sec_left_level = get_tree_indexs(sec_left);
+			let sec_left_level = get_tree_indexs(sec_left, &mut tops);
 			// the first left
-			let fir_left_level = get_first_index_cached(&mut first_indexs, first, fir_left_index);
+			let fir_left_level = get_first_index_cached(&mut first_indexs, first, fir_left_index, &mut tops);
 			match compare_indexs(&sec_left_level, fir_left_level) {
 				Ordering::Equal => {
 					// move forward both
@@ -2691,7 +2717,7 @@ impl<'a> Elements<'a> {
 				Ordering::Greater => {
 					// second left is behind first left
 					// if second left is also behind first right
-					let fir_right_level = get_first_index_cached(&mut first_indexs, first, fir_right_index);
+					let fir_right_level = get_first_index_cached(&mut first_indexs, first, fir_right_index, &mut tops);
 					match compare_indexs(&sec_left_level, fir_right_level) {
 						Ordering::Greater => {
 							// now second is all after first right
@@ -2709,7 +2735,7 @@ impl<'a> Elements<'a> {
 							let mut mid = (l + r) / 2;
 							let mut find_equal = false;
 							while mid != l {
-								let mid_level = get_first_index_cached(&mut first_indexs, first, mid);
+								let mid_level = get_first_index_cached(&mut first_indexs, first, mid, &mut tops);
 								match compare_indexs(&sec_left_level, mid_level) {
 									Ordering::Greater => {
 										// second left is behind middle
@@ -2748,7 +2774,7 @@ impl<'a> Elements<'a> {
 				}
 				Ordering::Less => {
 					let sec_right = &second[sec_right_index];
-					let sec_right_level = get_tree_indexs(sec_right);
+					let sec_right_level = get_tree_indexs(sec_right, &mut tops);
 					match compare_indexs(&sec_right_level, fir_left_level) {
 						Ordering::Less => {
 							// now second is all before current first left
-- 
2.43.0


From fbb78b6b15f11a797b6597921c7049c68f5fc91f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:23 +0000
Subject: [PATCH 17/40] fix: add() keeps the elements that follow the common
 tail of both sets

---
 src/mesdoc/interface/elements.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/mesdoc/interface/elements.rs b/src/mesdoc/interface/elements.rs
index 9181e5b..c1468dc 100644
--- a/src/mesdoc/interface/elements.rs
+++ b/src/mesdoc/interface/elements.rs
@@ -2800,6 +2800,12 @@ impl<'a> Elements<'a> {
 				}
 			}
 		}
+		if fir_left_index > fir_right_index {
+			// the left second elements are all after first
+			for index in sec_left_index..=sec_right_index {
+				mids.push((index, fir_left_index));
+			}
+		}
 		let mids_count = mids.len();
 		let mut result = Elements::with_capacity(first_count + mids_count);
 		// add first and mids
-- 
2.43.0


From ac2b92b76472928082490c7b561353b543afac9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:27 +0000
Subject: [PATCH 18/40] fix: id lookups follow the current tree and attributes

---
 src/lib.rs             | 18 +++++++++++++++---
 src/mesdoc/rules/id.rs | 34 +++++-----------------------------
 2 files changed, 20 insertions(+), 32 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 163d825..ed26def 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1118,10 +1118,22 @@ impl Document {
 impl IDocumentTrait for Document {
 	// get element by id
 	fn get_element_by_id<'b>(&self, id: &str) -> Option<BoxDynElement<'b>> {
-		if let Some(node) = self.doc.get_element_by_id(id) {
-			return Some(Box::new(Rc::clone(&node)));
+		fn loop_handle(parent: &RefNode, id: &str) -> Option<RefNode> {
+			if let Some(childs) = &parent.borrow().childs {
+				for child in childs {
+					if let Some(IAttrValue::Value(v, _)) = child.get_attribute("id") {
+						if v == id {
+							return Some(Rc::clone(child));
+						}
+					}
+					if let Some(node) = loop_handle(child, id) {
+						return Some(node);
+					}
+				}
+			}
+			None
 		}
-		None
+		loop_handle(&self.doc.borrow().root, id).map(|node| Box::new(node) as BoxDynElement)
 	}
 	// source code
 	fn source_code(&self) -> String {
diff --git a/src/mesdoc/rules/id.rs b/src/mesdoc/rules/id.rs
index 13cf2b7..e62373c 100644
--- a/src/mesdoc/rules/id.rs
+++ b/src/mesdoc/rules/id.rs
@@ -2,7 +2,7 @@ use crate::mesdoc::selector::rule::{Matcher, Rule, RuleItem};
 use crate::mesdoc::selector::MatchedQueue;
 use crate::mesdoc::{
 	constants::{NAME_SELECTOR_ID, PRIORITY_ID_SELECTOR},
-	interface::Elements,
+	interface::IAttrValue,
 };
 
 pub fn init(rules: &mut Vec<RuleItem>) {
@@ -11,37 +11,13 @@ pub fn init(rules: &mut Vec<RuleItem>) {
 		context: "#{identity}",
 		rule: Rule {
 			priority: PRIORITY_ID_SELECTOR,
-			in_cache: true,
+			in_cache: false,
 			handle: Box::new(|data: MatchedQueue| {
 				let id = data[1].chars.iter().collect::<String>();
 				Matcher {
-					all_handle: Some(Box::new(move |eles: &Elements, use_cache: Option<bool>| {
-						let use_cache = use_cache.is_some();
-						let mut result = Elements::with_capacity(1);
-						if !eles.is_empty() {
-							let first_ele = eles
-								.get_ref()
-								.get(0)
-								.expect("The elements must have at least one element.");
-							if let Some(doc) = &first_ele.owner_document() {
-								if let Some(id_element) = doc.get_element_by_id(&id) {
-									if use_cache {
-										// just add, will checked if the element contains the id element
-										result.push(id_element);
-									} else {
-										// filter methods, will filtered in elements
-										for ele in eles.get_ref() {
-											if ele.is(&id_element) {
-												result.push(id_element);
-												break;
-											}
-										}
-									}
-								}
-							}
-						}
-						result
-					})),
+					one_handle: Some(Box::new(
+						move |ele, _| matches!(ele.get_attribute("id"), Some(IAttrValue::Value(v, _)) if v == id),
+					)),
 					..Default::default()
 				}
 			}),
-- 
2.43.0


From 499c9293fb6c9fee2574850a85fa1bc3ee1730b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:01 +0000
Subject: [PATCH 19/40] fix: filters with combinators also work for elements
 outside of the document tree

---
 src/mesdoc/interface/elements.rs | 47 +++++++++++++++++++-------------
 1 file changed, 28 insertions(+), 19 deletions(-)

diff --git a/src/mesdoc/interface/elements.rs b/src/mesdoc/interface/elements.rs
index c1468dc..d437b26 100644
--- a/src/mesdoc/interface/elements.rs
+++ b/src/mesdoc/interface/elements.rs
@@ -957,7 +957,6 @@ impl<'a> Elements<'a> {
 		let mut result = Elements::with_capacity(total);
 		let mut all_matched = false;
 		let chain_comb = Combinator::Chain;
-		let mut root: Option<Elements> = None;
 		for process in selector.process.iter() {
 			// filter methods make sure do not use `should_in`
 			let QueryProcess { query, .. } = process;
@@ -977,22 +976,19 @@ impl<'a> Elements<'a> {
 					}
 				}
 				if !filtered.is_empty() && query_num > 1 {
-					// set root first
-					root = root.or_else(|| {
-						let cur_first = filtered.get(0).expect("Filtered length greater than 0");
-						let root_element = cur_first
-							.root_element()
-							.unwrap_or_else(|| cur_first.cloned());
-						Some(Elements::with_node(&root_element))
-					});
-					// get root elements
-					let root_eles = root.as_ref().expect("root element must have");
-					// find elements from root_eles by selector
+					// no leading combinator, then the first part may match anywhere in the tree
+					let is_any_root = matches!(query[0][0].1, Combinator::ChildrenAll);
 					let lookup = Some(&query[..query_num - 1]);
 					let mut lasts = Elements::with_capacity(filtered.length());
 					let comb = &last_query_first_rule.1;
 					for ele in filtered.get_ref() {
-						if root_eles.has_ele(ele, comb, lookup) {
+						let is_matched = if is_any_root {
+							Elements::lookup_eles(ele, comb, lookup).is_some()
+						} else {
+							let root_ele = ele.root_element().unwrap_or_else(|| ele.cloned());
+							Elements::with_node(&root_ele).has_ele(ele, comb, lookup)
+						};
+						if is_matched {
 							lasts.get_mut_ref().push(ele.cloned());
 						}
 					}
@@ -1902,25 +1898,38 @@ impl<'a> Elements<'a> {
 		self.has_ele(ele, comb, None)
 	}
 
-	// `has_ele`
-	pub(crate) fn has_ele(
-		&self,
+	// look up the elements before the ele, get the heads and their combinator
+	fn lookup_eles<'b>(
 		ele: &BoxDynElement,
 		comb: &Combinator,
 		lookup: Option<&[Vec<SelectorSegment>]>,
-	) -> bool {
-		let mut elements = Elements::with_node(ele);
+	) -> Option<(Elements<'b>, Combinator)> {
+		let mut elements = Elements::with_nodes(vec![ele.cloned()]);
 		let mut lookup_comb = comb.reverse();
 		if let Some(lookup) = lookup {
 			for rules in lookup.iter().rev() {
 				let finded = Elements::select(&elements, rules, Some(&lookup_comb));
 				if finded.is_empty() {
-					return false;
+					return None;
 				}
 				lookup_comb = rules[0].1.reverse();
 				elements = finded;
 			}
 		}
+		Some((elements, lookup_comb))
+	}
+
+	// `has_ele`
+	pub(crate) fn has_ele(
+		&self,
+		ele: &BoxDynElement,
+		comb: &Combinator,
+		lookup: Option<&[Vec<SelectorSegment>]>,
+	) -> bool {
+		let (elements, lookup_comb) = match Elements::lookup_eles(ele, comb, lookup) {
+			Some(heads) => heads,
+			None => return false,
+		};
 		use Combinator::*;
 		match lookup_comb {
 			Parent => {
-- 
2.43.0


From d1242923f1ecf824b77a418b25fdd367698806e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:03 +0000
Subject: [PATCH 20/40] fix: removed nodes are really detached from their old
 parent

---
 src/lib.rs | 54 ++++++++++++++++++++++++++++++------------------------
 1 file changed, 30 insertions(+), 24 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index ed26def..0e7faa0 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -123,6 +123,29 @@ fn reset_next_siblings_index(start_index: usize, childs: &[RefNode]) {
 	}
 }
 
+// detach a node from its parent
+fn detach_node(node: &RefNode) {
+	let parent = node.borrow_mut().parent.take();
+	if let Some(parent) = parent.and_then(|parent| parent.upgrade()) {
+		if let Some(childs) = &mut parent.borrow_mut().childs {
+			if let Some(index) = childs.iter().position(|child| Node::is_same(child, node)) {
+				childs.remove(index);
+				// change next siblings index
+				reset_next_siblings_index(index, &childs[index..]);
+			}
+		}
+	}
+}
+
+// take all the childs of a node, the childs are detached
+fn take_childs(node: &RefNode) -> Vec<RefNode> {
+	let childs = node.borrow_mut().childs.take().unwrap_or_default();
+	for child in &childs {
+		child.borrow_mut().parent = None;
+	}
+	childs
+}
+
 fn remove_not_allowed_nodes(tag_name: &[char], nodes: &mut Vec<RefNode>) -> bool {
 	let mut not_allowed_indexs: Vec<usize> = Vec::with_capacity(nodes.len());
 	let orig_len = nodes.len();
@@ -253,6 +276,8 @@ impl INodeTrait for Rc<RefCell<Node>> {
 		match node_type {
 			INodeType::Element => {
 				let no_content_tag = !check_if_content_tag(&self.tag_names());
+				// the old childs are removed
+				take_childs(self);
 				let mut node = self.borrow_mut();
 				if !content.is_empty() {
 					if no_content_tag {
@@ -272,11 +297,7 @@ impl INodeTrait for Rc<RefCell<Node>> {
 					}
 				} else {
 					// empty content
-					if no_content_tag {
-						node.childs = None;
-					} else {
-						node.content = None;
-					}
+					node.content = None;
 				}
 			}
 			INodeType::Text | INodeType::Comment => {
@@ -397,17 +418,7 @@ impl ITextTrait for Rc<RefCell<Node>> {
 	cfg_feat_text! {
 		/// Remove a text node.
 		fn remove(self: Box<Self>) {
-			let index = self.index();
-			if let Some(parent) = &self.borrow_mut().parent {
-				if let Some(parent) = parent.upgrade() {
-					if let Some(childs) = &mut parent.borrow_mut().childs {
-						// remove the text node
-						childs.remove(index);
-						// change next siblings index
-						reset_next_siblings_index(index, &childs[index..]);
-					}
-				}
-			}
+			detach_node(&self);
 		}
 
 		// append text
@@ -790,14 +801,9 @@ impl IElementTrait for Rc<RefCell<Node>> {
 			if let Some(parent) = &ele.parent() {
 				if self.is(parent) {
 					// is a child
-					if let Some(childs) = self.borrow_mut().childs.as_mut() {
-						let index = ele.index();
-						// if not the last child
-						if index != childs.len() - 1 {
-							reset_next_siblings_index(index, &childs[index + 1..]);
-						}
-						// remove child
-						childs.remove(index);
+					let specified: Box<dyn Any> = ele.to_node();
+					if let Ok(dom) = specified.downcast::<RefNode>() {
+						detach_node(&dom);
 					}
 				}
 			}
-- 
2.43.0


From e8efe6a6b16c2394d3bae8d4c2fd567acde3106c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:30 +0000
Subject: [PATCH 21/40] fix: set_html repairs the html like load does, and
 never panics

---
 src/lib.rs | 103 +++++++++++++++++++----------------------------------
 1 file changed, 36 insertions(+), 67 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 0e7faa0..e5a7fca 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -336,78 +336,47 @@ impl INodeTrait for Rc<RefCell<Node>> {
 			_ => None,
 		};
 		if let Some(target) = &target {
-			if check_if_content_tag(
-				&target
-					.borrow()
-					.meta
-					.as_ref()
-					.expect("A tag use `set_html` must have a tag name.")
-					.borrow()
-					.name,
-			) {
+			// a root node doesn't have a tag name
+			let tag_name = target
+				.borrow()
+				.meta
+				.as_ref()
+				.map_or_else(Vec::new, |meta| meta.borrow().name.clone());
+			if check_if_content_tag(&tag_name) {
 				// content tag, just set html as content, no need encode
+				take_childs(target);
 				target.borrow_mut().content = Some(content.chars().collect::<Vec<char>>());
 			} else {
-				let doc_holder = Doc::parse(
-					content,
-					ParseOptions {
-						auto_fix_unexpected_endtag: true,
-						auto_fix_unescaped_lt: true,
-						allow_self_closing: true,
-						allow_attr_key_starts_with_equal_sign: true,
-						..Default::default()
-					},
-				)
-				.unwrap();
-				if let Some(nodes) = &mut doc_holder.get_root_node().borrow_mut().childs {
-					let mut nodes = nodes.split_off(0);
-					let has_not_allowed = remove_not_allowed_nodes(
-						&target
-							.borrow()
-							.meta
-							.as_ref()
-							.expect("A tag use `set_html` must have a tag name.")
-							.borrow()
-							.name,
-						&mut nodes,
-					);
-					let has_nodes = !nodes.is_empty();
-					if has_nodes {
-						// set nodes parent as target
-						for node in &nodes {
-							node.borrow_mut().parent = Some(Rc::downgrade(target));
-						}
-					}
-					if is_element {
-						// reset node indexs
-						if has_not_allowed {
-							reset_next_siblings_index(0, &nodes);
-						}
-						// set childs as new nodes
-						(*target.borrow_mut()).childs = if has_nodes { Some(nodes) } else { None };
-					} else if let Some(childs) = &mut target.borrow_mut().childs {
-						let index = self.index();
-						// not last node, whenever nodes is empty or not, reset next childs indexs
-						if index < childs.len() - 1 {
-							// change next siblings index begin with index+nodes.len
-							reset_next_siblings_index(index + nodes.len(), &childs[index + 1..]);
-						}
-						// delete the node and append childs
-						if has_nodes {
-							// change append nodes index begin with index
-							reset_next_siblings_index(index, &nodes);
-							// remove self and insert nodes
-							childs.splice(index..index + 1, nodes);
-						} else {
-							// then just remove self
-							childs.remove(index);
-						}
-					} else {
-						// text node's parent can't be empty
+				let doc_holder = match Doc::parse(content, Vis::options()) {
+					Ok(doc_holder) => doc_holder,
+					Err(error) => {
+						Dom::halt(self, "set_html", &error.to_string());
+						return;
 					}
+				};
+				let mut nodes = take_childs(&doc_holder.get_root_node());
+				remove_not_allowed_nodes(&tag_name, &mut nodes);
+				// set nodes parent as target
+				for node in &nodes {
+					node.borrow_mut().parent = Some(Rc::downgrade(target));
+				}
+				if is_element {
+					// the old childs are removed
+					take_childs(target);
+					// reset node indexs
+					reset_next_siblings_index(0, &nodes);
+					// set childs as new nodes
+					(*target.borrow_mut()).childs = if nodes.is_empty() { None } else { Some(nodes) };
 				} else {
-					// empty html, just set childs to none
-					target.borrow_mut().childs = None;
+					let index = self.index();
+					// remove self
+					detach_node(self);
+					if let Some(childs) = &mut target.borrow_mut().childs {
+						// insert nodes
+						childs.splice(index..index, nodes);
+						// change the index of nodes and next siblings
+						reset_next_siblings_index(index, &childs[index..]);
+					}
 				}
 			}
 		}
-- 
2.43.0


From 8afa9907cdd36eb4e7bf75379517885d55be7d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:33 +0000
Subject: [PATCH 22/40] fix: the owner document follows the tree a node is in

---
 src/lib.rs | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index e5a7fca..b186902 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -233,14 +233,27 @@ impl INodeTrait for Rc<RefCell<Node>> {
 
 	/// impl `owner_document`
 	fn owner_document(&self) -> MaybeDoc {
-		if let Some(root) = &self.borrow().root {
-			if let Some(root) = &root.upgrade() {
-				if let Some(doc) = &root.borrow().document {
-					if let Some(ref_doc) = &doc.upgrade() {
-						return Some(Box::new(Document {
-							doc: Rc::clone(ref_doc).into(),
-						}));
-					}
+		// find the top node of the tree, the node may have been moved to another document
+		let mut top = Rc::clone(self);
+		loop {
+			let parent = top.borrow().parent.as_ref().and_then(|parent| parent.upgrade());
+			match parent {
+				Some(parent) => top = parent,
+				None => break,
+			}
+		}
+		let root = if top.is_root_element() {
+			Some(top)
+		} else {
+			// a detached node, use the root where it was created
+			self.borrow().root.as_ref().and_then(|root| root.upgrade())
+		};
+		if let Some(root) = &root {
+			if let Some(doc) = &root.borrow().document {
+				if let Some(ref_doc) = &doc.upgrade() {
+					return Some(Box::new(Document {
+						doc: Rc::clone(ref_doc).into(),
+					}));
 				}
 			}
 		}
-- 
2.43.0


From ab2f3d34caad7bb6c973b24d7246318d364c7330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:38 +0000
Subject: [PATCH 23/40] fix: insertions and replacements move the nodes out of
 their old place, or leave all as it was

---
 src/lib.rs | 43 ++++++++++++++++++++++++++++++-------------
 1 file changed, 30 insertions(+), 13 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index b186902..e276be5 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -137,6 +137,19 @@ fn detach_node(node: &RefNode) {
 	}
 }
 
+cfg_feat_insertion! {
+	// detach the nodes, they are the node itself or childs of the fragment node
+	fn detach_nodes(node: &RefNode, nodes: &[RefNode]) {
+		if node.borrow().childs.as_ref().map_or(0, |childs| childs.len()) == nodes.len()
+			&& node.is_root_element()
+		{
+			take_childs(node);
+		} else {
+			nodes.iter().for_each(detach_node);
+		}
+	}
+}
+
 // take all the childs of a node, the childs are detached
 fn take_childs(node: &RefNode) -> Vec<RefNode> {
 	let childs = node.borrow_mut().childs.take().unwrap_or_default();
@@ -803,6 +816,11 @@ impl IElementTrait for Rc<RefCell<Node>> {
 			let node_type = node.node_type();
 			let specified: Box<dyn Any> = node.cloned().to_node();
 			if let Ok(dom) = specified.downcast::<RefNode>() {
+				use InsertPosition::*;
+				// nowhere to insert siblings
+				if matches!(position, BeforeBegin | AfterEnd) && self.parent().is_none() {
+					return;
+				}
 				// get the nodes
 				let mut nodes = match node_type {
 					INodeType::DocumentFragement => {
@@ -812,18 +830,11 @@ impl IElementTrait for Rc<RefCell<Node>> {
 							vec![]
 						}
 					}
-					_ => {
-						// remove current node from parent's childs
-						if let Some(parent) = &mut node.parent() {
-							parent.remove_child(node.cloned());
-						}
-						vec![*dom]
-					}
+					_ => vec![Rc::clone(&dom)]
 				};
 				// filter the node allowed
 				let tag_name = self.tag_names();
 				// insert
-				use InsertPosition::*;
 				// remove not allowed nodes, only insert childs
 				if matches!(position, AfterBegin | BeforeEnd){
 					remove_not_allowed_nodes(&tag_name, &mut nodes);
@@ -832,6 +843,8 @@ impl IElementTrait for Rc<RefCell<Node>> {
 				if nodes.is_empty() {
 					return;
 				}
+				// move the nodes out of their current parent
+				detach_nodes(&dom, &nodes);
 				match position {
 					BeforeBegin | AfterEnd => {
 						// get index first, for borrow check
@@ -916,6 +929,10 @@ impl IElementTrait for Rc<RefCell<Node>> {
 		}
 		// replace with
 		fn replace_with(&mut self, node: &BoxDynElement){
+			// base validate
+			if !Dom::validate_dom_change(self, node, "replace with") || self.parent().is_none() {
+				return;
+			}
 			let node_type = node.node_type();
 			let specified: Box<dyn Any> = node.cloned().to_node();
 			let mut replace_ele: Option<RefNode> = None;
@@ -933,18 +950,16 @@ impl IElementTrait for Rc<RefCell<Node>> {
 						}
 					}
 					_ => {
-						// remove current node from parent's childs
-						if let Some(parent) = &mut node.parent() {
-							parent.remove_child(node.cloned());
-						}
 						replace_ele = Some(Rc::clone(&dom));
-						vec![*dom]
+						vec![Rc::clone(&dom)]
 					}
 				};
 				// check if has nodes
 				if nodes.is_empty(){
 					return;
 				}
+				// move the nodes out of their current parent
+				detach_nodes(&dom, &nodes);
 				// get index first, for borrow check
 				let index = self.index();
 				let insert_len = nodes.len();
@@ -969,6 +984,8 @@ impl IElementTrait for Rc<RefCell<Node>> {
 						}
 					}
 				}
+				// the node has been replaced
+				self.borrow_mut().parent = None;
 				if let Some(replace_ele) = replace_ele {
 					*self = replace_ele;
 				}
-- 
2.43.0


From 9de1d3d75580681ee0714bd86c37cf4a1a9879eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:43 +0000
Subject: [PATCH 24/40] fix: inserting or replacing with several elements keeps
 them all, in their order

---
 src/mesdoc/interface/elements.rs | 40 +++++++++++++++++++++++++++-----
 1 file changed, 34 insertions(+), 6 deletions(-)

diff --git a/src/mesdoc/interface/elements.rs b/src/mesdoc/interface/elements.rs
index d437b26..b95960b 100644
--- a/src/mesdoc/interface/elements.rs
+++ b/src/mesdoc/interface/elements.rs
@@ -3,7 +3,7 @@ cfg_feat_text! {
 	use super::{BoxDynText, Texts};
 }
 cfg_feat_insertion! {
-	use super::InsertPosition;
+	use super::{INodeType, InsertPosition};
 }
 use super::{BoxDynElement, IAttrValue, IElementTrait, IFormValue, MaybeDoc};
 use crate::mesdoc::error::BoxDynError;
@@ -3712,17 +3712,45 @@ impl<'a> Elements<'a> {
 	cfg_feat_insertion! {
 		// `insert`
 		fn insert(&mut self, dest: &Elements, position: &InsertPosition) {
-			for ele in self.get_mut_ref() {
-				for inserted in dest.get_ref().iter().rev() {
-					ele.insert_adjacent(position, inserted);
+			let total = self.length();
+			for (index, ele) in self.get_mut_ref().iter_mut().enumerate() {
+				let is_last = index + 1 == total;
+				let mut handle = |inserted: &BoxDynElement| {
+					// a fragment's childs are moved to the last element, the others get copies
+					if !is_last && matches!(inserted.node_type(), INodeType::DocumentFragement) {
+						ele.insert_adjacent(position, &inserted.copied());
+					} else {
+						ele.insert_adjacent(position, inserted);
+					}
+				};
+				// keep the order of the inserted elements
+				if matches!(position, InsertPosition::BeforeBegin | InsertPosition::BeforeEnd) {
+					dest.get_ref().iter().for_each(&mut handle);
+				} else {
+					dest.get_ref().iter().rev().for_each(&mut handle);
 				}
 			}
 		}
 		// `replace`
 		fn replace(&mut self, dest: &Elements){
-			for ele in self.get_mut_ref() {
+			let total = self.length();
+			for (index, ele) in self.get_mut_ref().iter_mut().enumerate() {
+				let is_last = index + 1 == total;
+				let mut left = dest.length();
 				for inserted in dest.get_ref().iter().rev() {
-					ele.replace_with(inserted);
+					left -= 1;
+					// a fragment's childs are moved to the last element, the others get copies
+					let inserted = if !is_last && matches!(inserted.node_type(), INodeType::DocumentFragement) {
+						inserted.copied()
+					} else {
+						inserted.cloned()
+					};
+					// the first one takes the place, the others follow it
+					if left == 0 {
+						ele.replace_with(&inserted);
+					} else {
+						ele.insert_adjacent(&InsertPosition::AfterEnd, &inserted);
+					}
 				}
 			}
 		}
-- 
2.43.0


From 16d8c8ae510e1638d30849978636f5f9c64ba70f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:08 +0000
Subject: [PATCH 25/40] fix: copying a node whose childs come from another
 place must not underflow

---
 src/lib.rs | 33 ++++++++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index e276be5..7efb5db 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -123,6 +123,37 @@ fn reset_next_siblings_index(start_index: usize, childs: &[RefNode]) {
 	}
 }
 
+// deep copy a node, the childs may come from anywhere, so ignore their code positions
+fn copy_ref_node(node: &Node) -> RefNode {
+	let copied = Rc::new(RefCell::new(Node {
+		node_type: node.node_type,
+		begin_at: node.begin_at,
+		end_at: node.end_at,
+		root: node.root.clone(),
+		document: node.document.clone(),
+		content: node.content.clone(),
+		meta: node.meta.clone(),
+		end_tag: node
+			.end_tag
+			.as_ref()
+			.map(|end_tag| copy_ref_node(&end_tag.borrow())),
+		..Default::default()
+	}));
+	if let Some(childs) = &node.childs {
+		let childs: Vec<RefNode> = childs
+			.iter()
+			.map(|child| {
+				let child = copy_ref_node(&child.borrow());
+				child.borrow_mut().parent = Some(Rc::downgrade(&copied));
+				child
+			})
+			.collect();
+		reset_next_siblings_index(0, &childs);
+		copied.borrow_mut().childs = Some(childs);
+	}
+	copied
+}
+
 // detach a node from its parent
 fn detach_node(node: &RefNode) {
 	let parent = node.borrow_mut().parent.take();
@@ -199,7 +230,7 @@ impl INodeTrait for Rc<RefCell<Node>> {
 
 	/// impl standard semantics `clone_node` method
 	fn copy_node<'b>(&self) -> BoxDynNode<'b> {
-		Box::new(self.borrow().clone_node())
+		Box::new(copy_ref_node(&self.borrow()))
 	}
 
 	/// impl `typed`
-- 
2.43.0


From d272285c67815ed664a2dafb03a217be34ac293a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:44 +0000
Subject: [PATCH 26/40] fix: :checked default option respects a selected one in
 any optgroup

---
 src/mesdoc/rules/pseudo.rs | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/src/mesdoc/rules/pseudo.rs b/src/mesdoc/rules/pseudo.rs
index ab0f99f..1e493a3 100644
--- a/src/mesdoc/rules/pseudo.rs
+++ b/src/mesdoc/rules/pseudo.rs
@@ -992,16 +992,8 @@ fn pseudo_checked(rules: &mut Vec<RuleItem>) {
 									}
 									false
 								}
-								// check the next siblings
-								let mut next = ele.next_element_sibling();
-								while let Some(next_ele) = &next {
-									if check_selected_option(next_ele, &option_tag) {
-										return false;
-									}
-									next = next_ele.next_element_sibling();
-								}
-								// now the option is default option
-								return true;
+								// check the whole select, if none is selected, the option is default option
+								return !check_selected_option(parent, &option_tag);
 							}
 						}
 						// not selected option
-- 
2.43.0


From 107ddeab9faafe90e10ad831a7362cd0f4852f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:18 +0000
Subject: [PATCH 27/40] fix: :empty does not match script, style, title and
 textarea with content

---
 src/mesdoc/rules/pseudo.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mesdoc/rules/pseudo.rs b/src/mesdoc/rules/pseudo.rs
index 1e493a3..c543541 100644
--- a/src/mesdoc/rules/pseudo.rs
+++ b/src/mesdoc/rules/pseudo.rs
@@ -78,7 +78,8 @@ fn pseudo_empty(rules: &mut Vec<RuleItem>) {
 			one_handle: Some(Box::new(|ele, _| {
 				let child_nodes = ele.child_nodes();
 				if child_nodes.is_empty() {
-					return true;
+					// tags such as script keep their content without child nodes
+					return ele.text_chars().is_empty();
 				}
 				let mut only_comments = true;
 				for node in child_nodes {
-- 
2.43.0


From 1c69c475630b7f9f0f4824f055666ba5d7eaca9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:36 +0000
Subject: [PATCH 28/40] fix: next_until and prev_until start from every element
 of the set

---
 src/mesdoc/interface/elements.rs | 32 ++++++--------------------------
 1 file changed, 6 insertions(+), 26 deletions(-)

diff --git a/src/mesdoc/interface/elements.rs b/src/mesdoc/interface/elements.rs
index b95960b..2801098 100644
--- a/src/mesdoc/interface/elements.rs
+++ b/src/mesdoc/interface/elements.rs
@@ -593,14 +593,8 @@ impl<'a> Elements<'a> {
 						}
 					}
 				}
-				if self.length() > 1 {
-					// may be disordered or repeated
-					result.sort_and_unique();
-					if matches!(comb, Combinator::Prev | Combinator::Parent) {
-						// keep the walking order, from near to far
-						result.get_mut_ref().reverse();
-					}
-				}
+				// may be disordered or repeated
+				result.sort_and_unique();
 				return result;
 			}
 		} else {
@@ -1392,15 +1386,7 @@ impl<'a> Elements<'a> {
 	/// }
 	/// ```
 	pub fn prev_until(&self, selector: &str, filter: &str, contains: bool) -> Elements<'a> {
-		let uniques = self.unique_sibling_last();
-		let mut result =
-			uniques.select_with_comb_until("prev_until", selector, filter, contains, Combinator::Prev);
-		// should reverse the result when length > 1
-		// because the prevs executed from last to first
-		if result.length() > 1 {
-			result.get_mut_ref().reverse();
-		}
-		result
+		self.select_with_comb_until("prev_until", selector, filter, contains, Combinator::Prev)
 	}
 
 	/// Get the next sibling of each element in Elements, when the selector is not empty, will filtered by the selector.
@@ -1504,9 +1490,7 @@ impl<'a> Elements<'a> {
 	/// }
 	/// ```
 	pub fn next_until(&self, selector: &str, filter: &str, contains: bool) -> Elements<'a> {
-		// unique, keep the first sibling node
-		let uniques = self.unique_sibling_first();
-		uniques.select_with_comb_until("next_until", selector, filter, contains, Combinator::Next)
+		self.select_with_comb_until("next_until", selector, filter, contains, Combinator::Next)
 	}
 
 	/// Get the siblings of each element in Elements, when the selector is not empty, will filtered by the selector.
@@ -1699,17 +1683,13 @@ impl<'a> Elements<'a> {
 	pub fn parents_until(&self, selector: &str, filter: &str, contains: bool) -> Elements<'a> {
 		// unique, keep the first sibling node
 		let uniques = self.unique_sibling_first();
-		let mut result = uniques.select_with_comb_until(
+		uniques.select_with_comb_until(
 			"parents_until",
 			selector,
 			filter,
 			contains,
 			Combinator::Parent,
-		);
-		// parents may not unique if has ancestor and childs
-		// if parents length > 1, the parents need reversed
-		result.sort_and_unique();
-		result
+		)
 	}
 
 	/// Get the first matched element of each element in Elements, traversing from self to it's ancestors.
-- 
2.43.0


From aa6f85b2643f1547c4b357b8cf713c329d66cd53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:10 +0000
Subject: [PATCH 29/40] fix: rules that match a whole set get it in document
 order

---
 src/mesdoc/interface/elements.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/mesdoc/interface/elements.rs b/src/mesdoc/interface/elements.rs
index 2801098..a8565c7 100644
--- a/src/mesdoc/interface/elements.rs
+++ b/src/mesdoc/interface/elements.rs
@@ -784,6 +784,8 @@ impl<'a> Elements<'a> {
 							}
 						}
 					}
+					// keep the order before match all
+					parents.sort_and_unique();
 					let matched_parents = handle(&parents, None);
 					if !matched_parents.is_empty() {
 						result.get_mut_ref().extend(matched_parents);
@@ -869,6 +871,8 @@ impl<'a> Elements<'a> {
 							nexts.push(next);
 						}
 					}
+					// keep the order before match all
+					nexts.sort_and_unique();
 					result = matcher.apply(&nexts, None);
 				}
 			}
@@ -898,6 +902,8 @@ impl<'a> Elements<'a> {
 							prevs.push(prev);
 						}
 					}
+					// keep the order before match all
+					prevs.sort_and_unique();
 					result = matcher.apply(&prevs, None);
 				}
 			}
-- 
2.43.0


From 1922ef5ca3fb70bfa745e7902789777c0ac35d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:09 +0000
Subject: [PATCH 30/40] fix: text() of a root gives its text, not its markup

---
 src/lib.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 7efb5db..f9ad2b7 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -306,6 +306,18 @@ impl INodeTrait for Rc<RefCell<Node>> {
 
 	/// impl `text_contents`
 	fn text_contents(&self) -> Vec<char> {
+		if self.is_root_element() {
+			// the text of a root is the text of its childs
+			let mut result = vec![];
+			if let Some(childs) = &self.borrow().childs {
+				for child in childs {
+					if matches!(child.node_type(), INodeType::Element | INodeType::Text) {
+						result.extend(child.text_contents());
+					}
+				}
+			}
+			return result;
+		}
 		self.borrow().build(
 			&RenderOptions {
 				decode_entity: true,
-- 
2.43.0


From b4dd14670e4883e63ea6993f6cf39147ab3f962d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:13 +0000
Subject: [PATCH 31/40] fix: html() of a root without exactly one tag doesn't
 panic

---
 src/lib.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index f9ad2b7..fe2dbee 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -803,11 +803,17 @@ impl IElementTrait for Rc<RefCell<Node>> {
 
 	/// impl `inner_html`
 	fn inner_html(&self) -> String {
-		self
-			.borrow()
+		let node = self.borrow();
+		// the inner html of a root is that of its only tag, otherwise the whole content
+		let inner_html = node.node_type != NodeType::AbstractRoot
+			|| node.childs.as_ref().is_some_and(|childs| {
+				let is_tag = |child: &&RefNode| child.borrow().node_type == NodeType::Tag;
+				childs.iter().filter(is_tag).count() == 1
+			});
+		node
 			.build(
 				&RenderOptions {
-					inner_html: true,
+					inner_html,
 					encode_content: true,
 					..Default::default()
 				},
-- 
2.43.0


From 9ed83d38cff6d1a8e73850d8cc269642bcf580dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:17 +0000
Subject: [PATCH 32/40] fix: a tag name cut off by the end of the html doesn't
 leave a broken node

---
 src/lib.rs | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index fe2dbee..910dce7 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -190,6 +190,27 @@ fn take_childs(node: &RefNode) -> Vec<RefNode> {
 	childs
 }
 
+/// Drop a last tag whose name is cut off by the end of the html, it has no meta data.
+fn drop_truncated_tag(root: &RefNode) {
+	let mut last = Rc::clone(root);
+	loop {
+		let child = match &last.borrow().childs {
+			Some(childs) => childs.last().map(Rc::clone),
+			None => None,
+		};
+		match child {
+			Some(child) => last = child,
+			None => break,
+		}
+	}
+	let is_truncated = {
+		let node = last.borrow();
+		node.node_type == NodeType::Tag && node.meta.is_none()
+	};
+	if is_truncated {
+		detach_node(&last);
+	}
+}
 fn remove_not_allowed_nodes(tag_name: &[char], nodes: &mut Vec<RefNode>) -> bool {
 	let mut not_allowed_indexs: Vec<usize> = Vec::with_capacity(nodes.len());
 	let orig_len = nodes.len();
@@ -423,6 +444,7 @@ impl INodeTrait for Rc<RefCell<Node>> {
 						return;
 					}
 				};
+				drop_truncated_tag(&doc_holder.get_root_node());
 				let mut nodes = take_childs(&doc_holder.get_root_node());
 				remove_not_allowed_nodes(&tag_name, &mut nodes);
 				// set nodes parent as target
@@ -1296,6 +1318,7 @@ impl Vis {
 	) -> Result<Document, BoxDynError> {
 		mesdoc::init();
 		let doc = Doc::parse(&html.into(), options)?;
+		drop_truncated_tag(&doc.get_root_node());
 		Ok(Document { doc })
 	}
 	/// load the html with options, get an elements collection
-- 
2.43.0


From 31b9154c4ab0c4be10d9d391fd759b1493d02fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:46 +0000
Subject: [PATCH 33/40] fix: Texts::filter_by doesn't panic for the text of a
 content tag

---
 src/mesdoc/interface/texts.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/mesdoc/interface/texts.rs b/src/mesdoc/interface/texts.rs
index 93ffc4b..66e61a0 100644
--- a/src/mesdoc/interface/texts.rs
+++ b/src/mesdoc/interface/texts.rs
@@ -1,5 +1,5 @@
 
-use super::BoxDynText;
+use super::{BoxDynText, IEnumTyped};
 
 pub struct Texts<'a> {
 	nodes: Vec<BoxDynText<'a>>,
@@ -54,13 +54,15 @@ impl<'a> Texts<'a> {
 		let mut result: Texts = Texts::with_capacity(self.length());
 		for (index, ele) in self.get_ref().iter().enumerate() {
 			if handle(index, ele) {
-				result.get_mut_ref().push(
-					ele
-						.clone_node()
-						.typed()
-						.into_text()
-						.expect("Text ele must can use 'into_text'."),
-				);
+				// the text may be a text node or a content tag
+				let text = match ele.clone_node().typed() {
+					IEnumTyped::Text(text) => Some(text),
+					IEnumTyped::Element(ele) => ele.into_text().ok(),
+					_ => None,
+				};
+				result
+					.get_mut_ref()
+					.push(text.expect("Text ele must can use 'into_text'."));
 			}
 		}
 		result
-- 
2.43.0


From 00422e0ac8a454e783a6f6c05154ff586e879ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:01 +0000
Subject: [PATCH 34/40] fix: append_text and prepend_text on an emptied content
 tag don't panic

---
 src/lib.rs | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 910dce7..ed6b62c 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -483,22 +483,14 @@ impl ITextTrait for Rc<RefCell<Node>> {
 
 		// append text
 		fn append_text(&mut self, content: &str) {
-			let chars = content.chars().collect::<Vec<char>>();
-			if let Some(content) = &mut self.borrow_mut().content {
-				content.extend(chars);
-			} else {
-				self.borrow_mut().content = Some(chars);
-			}
+			let mut node = self.borrow_mut();
+			node.content.get_or_insert_with(Vec::new).extend(content.chars());
 		}
 
 		// prepend text
 		fn prepend_text(&mut self, content: &str) {
-			let chars = content.chars().collect::<Vec<char>>();
-			if let Some(content) = &mut self.borrow_mut().content {
-				content.splice(0..0, chars);
-			} else {
-				self.borrow_mut().content = Some(chars);
-			}
+			let mut node = self.borrow_mut();
+			node.content.get_or_insert_with(Vec::new).splice(0..0, content.chars());
 		}
 	}
 }
-- 
2.43.0


From e845f7c5202d0d6a17afd600f25742a3c05eb875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:08 +0000
Subject: [PATCH 35/40] fix: a text that begins with an unescaped '<' is linked
 to its parent

---
 src/lib.rs | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index ed6b62c..3ec2b1c 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -211,6 +211,27 @@ fn drop_truncated_tag(root: &RefNode) {
 		detach_node(&last);
 	}
 }
+
+// The parser doesn't link a text that begins with an unescaped '<' to its parent.
+fn link_unlinked_nodes(root: &RefNode) {
+	let mut parents = vec![Rc::clone(root)];
+	while let Some(parent) = parents.pop() {
+		if let Some(childs) = &parent.borrow().childs {
+			for (index, child) in childs.iter().enumerate() {
+				let mut node = child.borrow_mut();
+				if node.parent.is_none() {
+					node.parent = Some(Rc::downgrade(&parent));
+					node.root = Some(Rc::downgrade(root));
+					node.index = index;
+				}
+				if node.childs.is_some() {
+					parents.push(Rc::clone(child));
+				}
+			}
+		}
+	}
+}
+
 fn remove_not_allowed_nodes(tag_name: &[char], nodes: &mut Vec<RefNode>) -> bool {
 	let mut not_allowed_indexs: Vec<usize> = Vec::with_capacity(nodes.len());
 	let orig_len = nodes.len();
@@ -444,6 +465,7 @@ impl INodeTrait for Rc<RefCell<Node>> {
 						return;
 					}
 				};
+				link_unlinked_nodes(&doc_holder.get_root_node());
 				drop_truncated_tag(&doc_holder.get_root_node());
 				let mut nodes = take_childs(&doc_holder.get_root_node());
 				remove_not_allowed_nodes(&tag_name, &mut nodes);
@@ -1310,6 +1332,7 @@ impl Vis {
 	) -> Result<Document, BoxDynError> {
 		mesdoc::init();
 		let doc = Doc::parse(&html.into(), options)?;
+		link_unlinked_nodes(&doc.get_root_node());
 		drop_truncated_tag(&doc.get_root_node());
 		Ok(Document { doc })
 	}
-- 
2.43.0


From 9a2aa082221da108deb002c9f686acf21887a662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:13 +0000
Subject: [PATCH 36/40] fix: entities set in a text node that was spaces only
 are decoded by text()

---
 src/lib.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 3ec2b1c..877d2ec 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -232,6 +232,13 @@ fn link_unlinked_nodes(root: &RefNode) {
 	}
 }
 
+// the text of a node which may have been spaces only is changed
+fn no_longer_spaces(node: &mut Node) {
+	if node.node_type == NodeType::SpacesBetweenTag {
+		node.node_type = NodeType::Text;
+	}
+}
+
 fn remove_not_allowed_nodes(tag_name: &[char], nodes: &mut Vec<RefNode>) -> bool {
 	let mut not_allowed_indexs: Vec<usize> = Vec::with_capacity(nodes.len());
 	let orig_len = nodes.len();
@@ -418,7 +425,9 @@ impl INodeTrait for Rc<RefCell<Node>> {
           );
 				} else {
 					// replace the text content
-					self.borrow_mut().content = Some(content.chars().collect::<Vec<char>>());
+					let mut node = self.borrow_mut();
+					node.content = Some(content.chars().collect::<Vec<char>>());
+					no_longer_spaces(&mut node);
 				}
 			}
 			_ => {
@@ -507,12 +516,14 @@ impl ITextTrait for Rc<RefCell<Node>> {
 		fn append_text(&mut self, content: &str) {
 			let mut node = self.borrow_mut();
 			node.content.get_or_insert_with(Vec::new).extend(content.chars());
+			no_longer_spaces(&mut node);
 		}
 
 		// prepend text
 		fn prepend_text(&mut self, content: &str) {
 			let mut node = self.borrow_mut();
 			node.content.get_or_insert_with(Vec::new).splice(0..0, content.chars());
+			no_longer_spaces(&mut node);
 		}
 	}
 }
-- 
2.43.0


From 24afda266e17481a44538cf2d1e63b563c560bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:23:02 +0000
Subject: [PATCH 37/40] fix: slice() respects an excluded start bound

---
 src/mesdoc/interface/elements.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/mesdoc/interface/elements.rs b/src/mesdoc/interface/elements.rs
index a8565c7..a0909bf 100644
--- a/src/mesdoc/interface/elements.rs
+++ b/src/mesdoc/interface/elements.rs
@@ -2598,8 +2598,13 @@ impl<'a> Elements<'a> {
 					return Elements::new();
 				}
 			}
-			_ => {
-				// start bound not have exclude
+			Bound::Excluded(&cur_start) => {
+				if cur_start < end {
+					start = cur_start + 1;
+				} else {
+					// empty
+					return Elements::new();
+				}
 			}
 		};
 		match range.end_bound() {
-- 
2.43.0


From 83e4e391990ff536a9644195fd149fb8208aeef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:54:28 +0000
Subject: [PATCH 38/40] fix: nth numbers beyond 2147483647 keep their value

---
 src/mesdoc/selector/pattern.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mesdoc/selector/pattern.rs b/src/mesdoc/selector/pattern.rs
index f4ae9a1..a7fb091 100644
--- a/src/mesdoc/selector/pattern.rs
+++ b/src/mesdoc/selector/pattern.rs
@@ -261,7 +261,7 @@ impl Nth {
 	}
 	// parse the matched digits, a number too big for any child list is limited
 	pub(crate) fn parse_number(value: &str) -> isize {
-		const LIMIT: isize = i32::MAX as isize;
+		const LIMIT: isize = isize::MAX / 4;
 		match value.parse::<isize>() {
 			Ok(number) => number.clamp(-LIMIT, LIMIT),
 			Err(_) if value.starts_with('-') => -LIMIT,
-- 
2.43.0


From dac13ed6cc4fa31ad12af77e81f2805675c35f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:11 +0000
Subject: [PATCH 39/40] fix: val() of a select doesn't overflow for deeply
 nested options

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 877d2ec..a9337ca 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -583,7 +583,7 @@ impl IElementTrait for Rc<RefCell<Node>> {
 				values: &mut Vec<String>,
 				option_tag: &[char],
 				is_multiple: bool,
-				level: u8,
+				level: usize,
 			) {
 				if let Some(childs) = &parent.borrow().childs {
 					for child in childs {
-- 
2.43.0


From 589506318d2bf04eb019204c8005c85b74960514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:12 +0000
Subject: [PATCH 40/40] fix: a text that begins with an unescaped '<' after a
 void or content tag is not put into that tag

---
 src/lib.rs | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index a9337ca..1a5d6ae 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -212,10 +212,40 @@ fn drop_truncated_tag(root: &RefNode) {
 	}
 }
 
+// The parser puts a text that begins with an unescaped '<' into the tag before it, even if that's
+// a void tag or a content tag, which don't have childs.
+fn move_out_childs(parent: &RefNode) {
+	fn has_wrong_childs(node: &RefNode) -> bool {
+		let node = node.borrow();
+		node.childs.is_some()
+			&& node.meta.as_ref().map_or(false, |meta| {
+				let meta = meta.borrow();
+				meta.is_void || check_if_content_tag(&meta.name)
+			})
+	}
+	if let Some(childs) = &mut parent.borrow_mut().childs {
+		if childs.iter().any(has_wrong_childs) {
+			let mut nodes: Vec<RefNode> = Vec::with_capacity(childs.len() + 1);
+			for child in childs.drain(..) {
+				let wrong_childs = if has_wrong_childs(&child) {
+					take_childs(&child)
+				} else {
+					vec![]
+				};
+				nodes.push(child);
+				nodes.extend(wrong_childs);
+			}
+			reset_next_siblings_index(0, &nodes);
+			*childs = nodes;
+		}
+	}
+}
+
 // The parser doesn't link a text that begins with an unescaped '<' to its parent.
 fn link_unlinked_nodes(root: &RefNode) {
 	let mut parents = vec![Rc::clone(root)];
 	while let Some(parent) = parents.pop() {
+		move_out_childs(&parent);
 		if let Some(childs) = &parent.borrow().childs {
 			for (index, child) in childs.iter().enumerate() {
 				let mut node = child.borrow_mut();
-- 
2.43.0

