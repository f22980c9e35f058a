From 8e82180103a51d1703e66ed2bc83815ae23e84bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:56 +0000
Subject: [PATCH 01/10] fix: a loop over the empty language that allows zero
 iterations is epsilon

---
 src/regular_expressions.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/regular_expressions.rs b/src/regular_expressions.rs
index 02a5b4f..5e1b018 100644
--- a/src/regular_expressions.rs
+++ b/src/regular_expressions.rs
@@ -1355,7 +1355,9 @@ impl ReManager {
             e
         } else {
             match &e.expr {
-                // empty ^ [i, j] --> empty
+                // empty ^ [i, j] --> epsilon if i is zero (e.g., star(empty))
+                BaseRegLan::Empty if range.start() == 0 => self.epsilon,
+                // empty ^ [i, j] --> empty otherwise
                 BaseRegLan::Empty => self.empty,
                 // epsilon ^ [i, j] --> epsilon
                 BaseRegLan::Epsilon => self.epsilon,
-- 
2.43.0


From 87c4ec1e9c65da18b2c85a0d712911db910dce48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:59 +0000
Subject: [PATCH 02/10] fix: interval_cover must compare with the start of the
 next interval

---
 src/character_sets.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/character_sets.rs b/src/character_sets.rs
index d7093f0..67801b1 100644
--- a/src/character_sets.rs
+++ b/src/character_sets.rs
@@ -935,7 +935,7 @@ impl CharPartition {
             }
         } else {
             // note: we know i < p.len() <= MAX_CHAR so i+1 can't overflow here
-            let next_ai = self.end(i + 1);
+            let next_ai = self.start(i + 1);
             if b < next_ai {
                 // a_i <= b_i < a <= b < a_{i+1}
                 CoverResult::DisjointFromAll
-- 
2.43.0


From 56baaf827663e9f72adc696770bbd9cb11d24d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:02 +0000
Subject: [PATCH 03/10] fix: str_indexof accepts a start index equal to the
 string length

---
 src/smt_strings.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/smt_strings.rs b/src/smt_strings.rs
index 988370b..0afa77d 100644
--- a/src/smt_strings.rs
+++ b/src/smt_strings.rs
@@ -760,9 +760,9 @@ pub fn str_contains(s1: &SmtString, s2: &SmtString) -> bool {
 ///
 /// Index of the first occurrence of s2 in s1, starting from index i
 ///
-/// - If 0 <= i < s1.len and s2 occurs in s1[i ..] then return the index j >= i
+/// - If 0 <= i <= s1.len and s2 occurs in s1[i ..] then return the index j >= i
 ///   of the first occurrence of s2 in s1[i ..].
-/// - Return -1 if i < 0 or i >= s1.len or s2 does not occur in s1[i ..]
+/// - Return -1 if i < 0 or i > s1.len or s2 does not occur in s1[i ..]
 ///
 /// # Examples
 /// ```
@@ -779,7 +779,7 @@ pub fn str_contains(s1: &SmtString, s2: &SmtString) -> bool {
 /// ```
 ///
 pub fn str_indexof(s1: &SmtString, s2: &SmtString, i: i32) -> i32 {
-    if i < 0 || i >= s1.len() as i32 {
+    if i < 0 || i > s1.len() as i32 {
         -1
     } else {
         match find_sub_vector(&s2.s, &s1.s, i as usize) {
-- 
2.43.0


From c9e29f973fcd769993fb304588fc08cadb5234a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:05 +0000
Subject: [PATCH 04/10] fix: escape backslash when printing SMT strings and
 characters

---
 src/smt_strings.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/smt_strings.rs b/src/smt_strings.rs
index 0afa77d..ef24fd5 100644
--- a/src/smt_strings.rs
+++ b/src/smt_strings.rs
@@ -373,9 +373,9 @@ pub fn good_string(a: &[u32]) -> bool {
 pub fn smt_char_as_string(x: u32) -> String {
     if x == '"' as u32 {
         "\"\"".to_string()
-    } else if x >= 32 && x < 127 {
+    } else if x >= 32 && x < 127 && x != '\\' as u32 {
         char::from_u32(x).unwrap().to_string()
-    } else if x < 32 || x == 127 {
+    } else if x < 128 {
         format!("\\u{{{:02x}}}", x)
     } else if x < 0x10000 {
         format!("\\u{:04x}", x)
@@ -385,7 +385,7 @@ pub fn smt_char_as_string(x: u32) -> String {
 }
 
 // Convert to an ASCII string in the SMT syntax
-// - use escape sequences for non-printable ASCII characters and non-ASCII characters
+// - use escape sequences for non-printable ASCII characters, backslash, and non-ASCII characters
 // - convert "  to ""
 impl fmt::Display for SmtString {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
@@ -393,9 +393,9 @@ impl fmt::Display for SmtString {
         for &x in self.s.iter() {
             if x == '"' as u32 {
                 write!(f, "\"\"")?;
-            } else if x >= 32 && x < 127 {
+            } else if x >= 32 && x < 127 && x != '\\' as u32 {
                 write!(f, "{}", char::from_u32(x).unwrap())?;
-            } else if x < 32 || x == 127 {
+            } else if x < 128 {
                 write!(f, "\\u{{{:02x}}}", x)?;
             } else if x < 0x10000 {
                 write!(f, "\\u{:04x}", x)?;
@@ -411,7 +411,8 @@ impl fmt::Display for SmtString {
 /// Convert integer x (interpreted as a Unicode codepoint) to a string in the SMT syntax:
 ///
 /// 1) printable ASCII characters (other than double quote) are unchanged
-/// 2) a double quote is converted to two double quotes
+/// 2) a double quote is converted to two double quotes and a backslash is converted to "\u{5c}"
+///    (so that the result can't be confused with an escape sequence)
 /// 3) non-printable ASCII characters are converted to "\u{xx}" (two hexadecimal digits)
 /// 4) other characters are printed as "\uxxxx" or "\u{xxxxx}"
 /// 5) if x is outside the valid SMT range (i.e., x > 0x2FFFF) then it's
@@ -421,9 +422,9 @@ impl fmt::Display for SmtString {
 pub fn char_to_smt(x: u32) -> String {
     if x == '"' as u32 {
         "\"\"".to_string()
-    } else if x >= 32 && x < 127 {
+    } else if x >= 32 && x < 127 && x != '\\' as u32 {
         char::from_u32(x).unwrap().to_string()
-    } else if x < 32 || x == 127 {
+    } else if x < 128 {
         format!("\\u{{{:02x}}}", x)
     } else if x < 0x10000 {
         format!("\\u{:04x}", x)
-- 
2.43.0


From a269ff6c633a91de5b5d89a70e46551ca86d2adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:08 +0000
Subject: [PATCH 05/10] fix: str_to_int detects every overflow and checks all
 digits first

---
 src/smt_strings.rs | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/smt_strings.rs b/src/smt_strings.rs
index ef24fd5..4740dc1 100644
--- a/src/smt_strings.rs
+++ b/src/smt_strings.rs
@@ -941,21 +941,17 @@ pub fn str_from_code(x: i32) -> SmtString {
 /// assert_eq!(str_to_int(&SmtString::from("101aaabb")), -1);
 /// ```
 pub fn str_to_int(s: &SmtString) -> i32 {
-    if s.is_empty() {
+    if s.is_empty() || !s.s.iter().all(|&d| char_is_digit(d)) {
         return -1;
     }
 
     let mut x: i32 = 0;
     for &d in &s.s {
-        if char_is_digit(d) {
-            let y = 10 * x + (d as i32 - '0' as i32);
-            if y < x {
-                panic!("Arithmetic overflow in str_to_int");
-            }
-            x = y;
-        } else {
-            return -1;
-        }
+        let digit = d as i32 - '0' as i32;
+        x = match x.checked_mul(10).and_then(|y| y.checked_add(digit)) {
+            Some(y) => y,
+            None => panic!("Arithmetic overflow in str_to_int"),
+        };
     }
     x
 }
-- 
2.43.0


From bf720229a17ab9c6e4a5aff5856915cf243a86d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:11 +0000
Subject: [PATCH 06/10] fix: convert code points above 0x2FFFF when
 constructing SMT strings

---
 src/smt_strings.rs | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/smt_strings.rs b/src/smt_strings.rs
index 4740dc1..f2de6f0 100644
--- a/src/smt_strings.rs
+++ b/src/smt_strings.rs
@@ -40,6 +40,16 @@ pub struct SmtString {
     s: Vec<u32>,
 }
 
+// convert a character to an SMT character code
+fn smt_char(x: char) -> u32 {
+    let x = x as u32;
+    if x <= MAX_CHAR {
+        x
+    } else {
+        REPLACEMENT_CHAR
+    }
+}
+
 /// The empty string
 pub const EMPTY: SmtString = SmtString { s: vec![] };
 
@@ -64,7 +74,7 @@ impl SmtString {
     /// Check whether this is a good string
     pub fn is_good(&self) -> bool {
         let n = self.s.len();
-        n < MAX_LENGTH as usize && good_string(&self.s)
+        n <= MAX_LENGTH as usize && good_string(&self.s)
     }
 
     /// Check whether all SMT chars are valid unicode
@@ -109,6 +119,8 @@ impl AsRef<[u32]> for SmtString {
 ///
 /// Construct an SmtString from a UTF8 string x
 ///
+/// Any character of x that's not in the range [0, 0x2ffff] is replaced by 0xfffd.
+///
 /// # Example
 /// ```
 /// use aws_smt_strings::smt_strings::*;
@@ -118,7 +130,7 @@ impl AsRef<[u32]> for SmtString {
 /// ```
 impl From<&str> for SmtString {
     fn from(x: &str) -> Self {
-        SmtString::make(x.chars().map(|c| c as u32).collect())
+        SmtString::make(x.chars().map(smt_char).collect())
     }
 }
 
@@ -180,9 +192,11 @@ impl From<u32> for SmtString {
 ///
 /// Construct a single-character string from character x.
 ///
+/// Convert x to 0xfffd if it's not a valid character (i.e., if x is not in the range [0, 0x2ffff])
+///
 impl From<char> for SmtString {
     fn from(x: char) -> SmtString {
-        SmtString::make(vec![x as u32])
+        SmtString::make(vec![smt_char(x)])
     }
 }
 
@@ -222,7 +236,7 @@ fn new_automaton() -> ParsingAutomaton {
 impl ParsingAutomaton {
     // add char x to the string so far
     fn push(&mut self, x: char) {
-        self.string_so_far.push(x as u32);
+        self.string_so_far.push(smt_char(x));
     }
 
     // add char x to the pending array
-- 
2.43.0


From c919e30f8b944a198240534f70d9134bd24bd256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:37 +0000
Subject: [PATCH 07/10] fix: start_char is exact for intersections and for
 concatenations with an empty operand

---
 src/regular_expressions.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/regular_expressions.rs b/src/regular_expressions.rs
index 5e1b018..bf006a6 100644
--- a/src/regular_expressions.rs
+++ b/src/regular_expressions.rs
@@ -1870,12 +1870,13 @@ impl ReManager {
             BaseRegLan::Epsilon => false,
             BaseRegLan::Range(set) => set.contains(c),
             BaseRegLan::Concat(e1, e2) => {
-                self.start_char(e1, c) || e1.nullable && self.start_char(e2, c)
+                // e1 contributes a first character only if e2 is not empty
+                self.start_char(e1, c) && !self.is_empty_re(e2)
+                    || e1.nullable && self.start_char(e2, c)
             }
             BaseRegLan::Loop(e, _) => self.start_char(e, c),
-            BaseRegLan::Inter(args) => args.iter().all(|x| self.start_char(x, c)),
             BaseRegLan::Union(args) => args.iter().any(|x| self.start_char(x, c)),
-            BaseRegLan::Complement(_) => {
+            BaseRegLan::Inter(_) | BaseRegLan::Complement(_) => {
                 // expensive case
                 let d = self.deriv(e, c);
                 !self.is_empty_re(d)
-- 
2.43.0


From 7baa32f79feb165ee22b771d390a4a1e16240308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:40 +0000
Subject: [PATCH 08/10] fix: AutomatonBuilder::build validates the
 specification before compacting it

---
 src/automata.rs | 37 +++++++++++++++++++++++++++++++------
 1 file changed, 31 insertions(+), 6 deletions(-)

diff --git a/src/automata.rs b/src/automata.rs
index b22341d..9aaf5fa 100644
--- a/src/automata.rs
+++ b/src/automata.rs
@@ -539,7 +539,7 @@ impl<'a> Iterator for FinalStateIterator<'a> {
     }
 }
 
-#[derive(Debug)]
+#[derive(Debug, Clone)]
 struct StateInConstruction {
     is_final: bool,
     default_successor: Option<usize>,
@@ -610,6 +610,30 @@ impl StateInConstruction {
         }
     }
 
+    // Check that no character has two distinct successors and that every character
+    // has a successor.
+    // Also merge overlapping labels that have the same successor.
+    fn validate(&mut self) -> Result<(), Error> {
+        self.transitions.sort_by_key(|x| x.0.pick());
+        let mut merged: Vec<(CharSet, usize)> = Vec::with_capacity(self.transitions.len());
+        for &(set, next_id) in &self.transitions {
+            match merged.last_mut() {
+                Some((last_set, last_id)) if last_set.inter(&set).is_some() => {
+                    if *last_id != next_id {
+                        return Err(Error::NonDisjointCharSets);
+                    }
+                    *last_set = last_set.union(&set).unwrap();
+                }
+                _ => merged.push((set, next_id)),
+            }
+        }
+        self.transitions = merged;
+        if self.default_successor.is_none() && !self.make_partition()?.empty_complement() {
+            return Err(Error::MissingDefaultSuccessor);
+        }
+        Ok(())
+    }
+
     fn cleanup(&mut self) {
         self.choose_default_successor();
         self.remove_transitions_to_default();
@@ -706,7 +730,8 @@ impl<T: Eq + Hash + Clone> AutomatonBuilder<T> {
     ///
     /// Construct an automaton
     /// - fails if a state `s` has non-deterministic transitions,
-    ///   i.e., if two distinct transitions from s have non-disjoint labels (i.e., character sets).
+    ///   i.e., if two transitions from s to distinct states have non-disjoint labels
+    ///   (i.e., character sets).
     /// - fails if a state `s` has a default successor but its transitions
     ///   already cover the full alphabet.
     /// - fails if a state `s` doesn't have a default successor but its
@@ -716,15 +741,15 @@ impl<T: Eq + Hash + Clone> AutomatonBuilder<T> {
         let n = self.size;
         let mut num_final_states = 0;
         let mut state_array = Vec::with_capacity(n);
-        for (i, s) in self.states.iter_mut().enumerate() {
+        for (i, s) in self.states.iter().enumerate() {
+            // work on a copy: validate and cleanup must not change the specification
+            let mut s = s.clone();
+            s.validate()?;
             s.cleanup();
             let p = s.make_partition()?;
             if s.default_successor.is_some() && p.empty_complement() {
                 return Err(Error::EmptyComplementaryClass);
             }
-            if s.default_successor.is_none() && !p.empty_complement() {
-                return Err(Error::MissingDefaultSuccessor);
-            }
             let successor = s.make_successor(&p);
             if s.is_final {
                 num_final_states += 1;
-- 
2.43.0


From de48765754f29df0d0314f9f2007299dc87d2647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:19 +0000
Subject: [PATCH 09/10] fix: minimizer handles blocks that have no splitter
 list

---
 src/minimizer.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/minimizer.rs b/src/minimizer.rs
index 8c287cb..95d3e65 100644
--- a/src/minimizer.rs
+++ b/src/minimizer.rs
@@ -219,7 +219,11 @@ impl SplitterSet {
     }
 
     fn take_list(&mut self, b: u32) -> SplitterList {
-        std::mem::take(&mut self.list[b as usize])
+        // list[b] may not exist yet if block b has no splitters
+        match self.list.get_mut(b as usize) {
+            Some(l) => std::mem::take(l),
+            None => SplitterList::default(),
+        }
     }
 
     fn add_splitter(&mut self, s: &Splitter) {
-- 
2.43.0


From faf28d7d12556ed136a584503f4b45c85a33aa3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:22 +0000
Subject: [PATCH 10/10] fix: right_mul_is_exact must not overflow

---
 src/loop_ranges.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/loop_ranges.rs b/src/loop_ranges.rs
index 697ab1e..8481913 100644
--- a/src/loop_ranges.rs
+++ b/src/loop_ranges.rs
@@ -354,7 +354,9 @@ impl LoopRange {
                 // c = other.start()
                 // b = self.end()
                 // a = self.start()
-                mul32(other.start(), self.end() - self.start()) >= self.start().saturating_sub(1)
+                // the product is computed on 64 bits so it can't overflow
+                let width = u64::from(self.end() - self.start());
+                u64::from(other.start()) * width >= u64::from(self.start().saturating_sub(1))
             }
     }
 
-- 
2.43.0

