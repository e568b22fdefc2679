From 2e712a7300bf9b47601db8ce6a378010a3f2a25a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:51 +0000
Subject: [PATCH 01/19] verif hook: re-export Spec and VersionSpec under
 cfg(ronda_verif)

---
 core/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/src/lib.rs b/core/src/lib.rs
index 8c6070e..61488eb 100644
--- a/core/src/lib.rs
+++ b/core/src/lib.rs
@@ -30,3 +30,7 @@ pub use crate::version::spec_trees::{
 pub use crate::version::CompOp;
 pub use crate::version::Version;
 pub use crate::version::VersionPart;
+// Verification hook (off unless built with --cfg ronda_verif): lets an external harness name the
+// single-spec type and call the matching trait, which are otherwise private.
+#[cfg(ronda_verif)]
+pub use crate::version::spec_trees::{Spec, VersionSpec};
-- 
2.43.0


From c7a983cf8e8795de0aa3a9f3cab4a334e6eadabc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:36 +0000
Subject: [PATCH 02/19] fix: compare_to_version tested the operator with its
 sides swapped

a.compare_to_version(b, Lt) answered b < a (so Python's a < b did too).
Make it answer a < b as documented and let the spec matcher, which relied
on the swap, pass the candidate as the left-hand side.
---
 core/src/version/matching.rs |  3 ++-
 core/src/version/version.rs  | 10 ++++------
 2 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/core/src/version/matching.rs b/core/src/version/matching.rs
index c2ebf99..7afdf6e 100644
--- a/core/src/version/matching.rs
+++ b/core/src/version/matching.rs
@@ -146,7 +146,8 @@ pub struct MatchOperator {
 }
 impl MatchFn for MatchOperator {
     fn test(&self, other: &Version) -> bool {
-        self.version.compare_to_version(other, &self.operator)
+        // the candidate is the left-hand side: "other >= self.version", "other starts with self.version"
+        other.compare_to_version(&self.version, &self.operator)
     }
 }
 
diff --git a/core/src/version/version.rs b/core/src/version/version.rs
index 0ec9730..fe4b588 100644
--- a/core/src/version/version.rs
+++ b/core/src/version/version.rs
@@ -208,10 +208,8 @@ impl Version {
 
     pub fn compare_to_version(&self, other: &Version, operator: &CompOp) -> bool {
         match operator {
-            // these look inverted. What we're saying when we have a.b.* (spec) and a.b.c (other version)
-            //     is that a.b.c starts with the spec (up until the star)
-            CompOp::StartsWith => other.startswith(self),
-            CompOp::NotStartsWith => !other.startswith(self),
+            CompOp::StartsWith => self.startswith(other),
+            CompOp::NotStartsWith => !self.startswith(other),
             CompOp::Compatible => unimplemented!(),
             CompOp::Incompatible => unimplemented!(),
             _ => match self.compare_version(other) {
@@ -220,11 +218,11 @@ impl Version {
                     _ => false,
                 },
                 CompOp::Lt => match operator {
-                    &CompOp::Ne | &CompOp::Gt | &CompOp::Ge => true,
+                    &CompOp::Ne | &CompOp::Lt | &CompOp::Le => true,
                     _ => false,
                 },
                 CompOp::Gt => match operator {
-                    &CompOp::Ne | &CompOp::Lt | &CompOp::Le => true,
+                    &CompOp::Ne | &CompOp::Gt | &CompOp::Ge => true,
                     _ => false,
                 },
                 _ => unreachable!(),
-- 
2.43.0


From 3b09b470b686b90bf5ba550e12eefb4d517cac4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:36 +0000
Subject: [PATCH 03/19] fix: comparison stopped at the first zero place of the
 longer version

1 compared equal to 1.0.1 because the padding zero ended the comparison.
---
 core/src/version/version.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/core/src/version/version.rs b/core/src/version/version.rs
index fe4b588..9245934 100644
--- a/core/src/version/version.rs
+++ b/core/src/version/version.rs
@@ -272,23 +272,23 @@ impl Version {
                 (Some(i), Some(j)) => match i.partial_cmp(j) {
                     Some(Ordering::Greater) => return CompOp::Gt,
                     Some(Ordering::Less) => return CompOp::Lt,
-                    // This is the only loop branch that continues
                     Some(Ordering::Equal) => Ordering::Equal,
                     _ => unreachable!("Ignoring ge, le, ne"),
                 },
 
                 // first version has more places. get_empty is a type-specific value that is "zero"
-                //     or whatever the equivalent is for a type (e.g. empty string)
+                //     or whatever the equivalent is for a type (e.g. empty string). Keep going when
+                //     equal: more places may follow.
                 (Some(i), None) => match i.partial_cmp(&&i.get_empty()) {
                     Some(Ordering::Less) => return CompOp::Lt,
                     Some(Ordering::Greater) => return CompOp::Gt,
-                    Some(Ordering::Equal) => return CompOp::Eq,
+                    Some(Ordering::Equal) => Ordering::Equal,
                     _ => unreachable!("Ignoring ge, le, ne"),
                 },
                 (None, Some(j)) => match &j.get_empty().partial_cmp(j) {
                     Some(Ordering::Less) => return CompOp::Lt,
                     Some(Ordering::Greater) => return CompOp::Gt,
-                    Some(Ordering::Equal) => return CompOp::Eq,
+                    Some(Ordering::Equal) => Ordering::Equal,
                     _ => unreachable!("Ignoring ge, le, ne"),
                 },
 
-- 
2.43.0


From 02828adad4ffaf5d4ccdcffd78189788195ae44e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:37 +0000
Subject: [PATCH 04/19] fix: version ordering was not transitive across part
 types

1.0 == 1.0.0 and 1.0 < 1.0post1, but 1.0post1 < 1.0.0: text was always
below a number, even where an absent place, which equals 0, is below the
text. Order parts of different types by their side of an absent place first.
---
 core/src/version/version_part.rs | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/core/src/version/version_part.rs b/core/src/version/version_part.rs
index c32f80c..9259b81 100644
--- a/core/src/version/version_part.rs
+++ b/core/src/version/version_part.rs
@@ -28,11 +28,13 @@ pub trait ProvideEmptyImpl{
 impl ProvideEmptyImpl for VersionPart {
     fn get_empty(&self) -> VersionPart {
         match self {
-            VersionPart::Epoch(_i) => VersionPart::Epoch(0),
+            // an explicit epoch outranks everything, and Empty ranks below everything, also an
+            // absent place
+            VersionPart::Epoch(_i) => VersionPart::Integer(0),
             VersionPart::Integer(_i) => VersionPart::Integer(0),
             VersionPart::LexicographicString(_i) => VersionPart::LexicographicString(String::new()),
             VersionPart::PEP440String(_i) => VersionPart::PEP440String(PEP440String::empty()),
-            VersionPart::Empty => VersionPart::Empty
+            VersionPart::Empty => VersionPart::Integer(0)
         }
     }
 }
@@ -55,6 +57,19 @@ impl Display for VersionPart {
     }
 }
 
+impl VersionPart {
+    /// How this part sorts relative to an absent place.
+    fn sign(&self) -> Ordering {
+        match self {
+            VersionPart::Epoch(_a) => Ordering::Greater,
+            VersionPart::Integer(a) => a.cmp(&0),
+            VersionPart::LexicographicString(a) => a.as_str().cmp(""),
+            VersionPart::PEP440String(a) => a.partial_cmp(&PEP440String::empty()).unwrap(),
+            VersionPart::Empty => Ordering::Less,
+        }
+    }
+}
+
 impl PartialOrd for VersionPart {
     fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
         match (self, other) {
@@ -62,6 +77,10 @@ impl PartialOrd for VersionPart {
             (VersionPart::Integer(a), VersionPart::Integer(b)) => a.partial_cmp(b),
             (VersionPart::LexicographicString(a), VersionPart::LexicographicString(b)) => a.partial_cmp(b),
             (VersionPart::PEP440String(a), VersionPart::PEP440String(b)) => a.partial_cmp(b),
+            // Different types that sort on different sides of an absent place (a zero) are ordered by
+            // that; otherwise ordering could not be transitive, as zeros may be left out.
+            _ if self.sign() != other.sign() => self.sign().partial_cmp(&other.sign()),
+            _ if self.sign() == Ordering::Equal => Some(Ordering::Equal),
             // Match simple position in the list, but reverse it because things at the top are higher
             _ => Some(match self {
                 VersionPart::Epoch(_a) => 0,
-- 
2.43.0


From e00947f808aeca762e7c6ac1a6414822de09462e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:37 +0000
Subject: [PATCH 05/19] fix: local version part was compared against further
 release parts

1.0 == 1.0.0 and 1.0 < 1.0+a, but 1.0+a < 1.0.0: the local part was
compared with the zero. Compare local parts only between otherwise equal
versions.
---
 core/src/version/version.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/core/src/version/version.rs b/core/src/version/version.rs
index 9245934..b4a5999 100644
--- a/core/src/version/version.rs
+++ b/core/src/version/version.rs
@@ -157,8 +157,21 @@ impl Version {
     }
 
     pub fn compare_version(&self, other: &Version) -> CompOp {
+        let (parts, local) = self.split_local();
+        let (other_parts, other_local) = other.split_local();
         // Compare the versions with their peekable iterators
-        Self::compare_iter(self.parts.iter().peekable(), other.parts.iter().peekable())
+        match Self::compare_iter(parts.iter().peekable(), other_parts.iter().peekable()) {
+            CompOp::Eq => Self::compare_iter(local.iter().peekable(), other_local.iter().peekable()),
+            different => different,
+        }
+    }
+
+    /// Split off the trailing local part, which only orders versions that are otherwise equal.
+    fn split_local(&self) -> (&[VersionPart], &[VersionPart]) {
+        match self.parts.last() {
+            Some(VersionPart::LexicographicString(_)) => self.parts.split_at(self.parts.len() - 1),
+            _ => self.parts.split_at(self.parts.len()),
+        }
     }
 
     /// Compare this version to the given `other` version.
-- 
2.43.0


From 715eff00d53f61774d0b8dbfad53d735e09e4ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:37 +0000
Subject: [PATCH 06/19] fix: parsing a version with a bad epoch panicked
 instead of returning an error

---
 core/src/version/parsers/conda.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/core/src/version/parsers/conda.rs b/core/src/version/parsers/conda.rs
index fd89175..e9051a3 100644
--- a/core/src/version/parsers/conda.rs
+++ b/core/src/version/parsers/conda.rs
@@ -16,7 +16,11 @@ pub fn conda_parser(
     let epoch_split: Vec<&str> = version.split("!").collect();
     let post_epoch_split: &str = match epoch_split.len() {
         2 => {
-            parts.push(VersionPart::Epoch(epoch_split[0].parse().unwrap()));
+            match epoch_split[0].parse() {
+                Ok(epoch) => parts.push(VersionPart::Epoch(epoch)),
+                Err(_) => return Err(VersionParsingError::Message(format!(
+                    "invalid epoch in version {}", version))),
+            }
             epoch_split[1]
         },
         1 => {
-- 
2.43.0


From 16143b7f62e21c87534e8edd0c5c5bd60ac3db3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:37 +0000
Subject: [PATCH 07/19] fix: operator specs swallowed a second operator as the
 version

==, <= and ><2.4.5 parsed as = of '=', < of '=' and > of '<2.4.5'. Conda
refuses an operator character there.
---
 core/src/version/matching.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/version/matching.rs b/core/src/version/matching.rs
index 7afdf6e..eeaf65e 100644
--- a/core/src/version/matching.rs
+++ b/core/src/version/matching.rs
@@ -7,7 +7,7 @@ pub(crate) fn create_match_enum_from_operator_str(
     input: &str,
 ) -> Result<(MatchEnum, bool), VersionParsingError> {
     lazy_static! {
-        static ref VERSION_RELATION_RE: Regex = Regex::new(r#"^([<>=!~]=?)(\S+)$"#).unwrap();
+        static ref VERSION_RELATION_RE: Regex = Regex::new(r#"^([<>=!~]=?)([^\s<>=!~]\S*)$"#).unwrap();
     }
 
     let (mut operator_str, mut v_str) = match VERSION_RELATION_RE.captures(input) {
-- 
2.43.0


From 5fcaba48e8577ae6bda1ba33b7643efb7e2fb426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:37 +0000
Subject: [PATCH 08/19] fix: malformed version specs panicked instead of
 returning an error

The empty spec, a non-ASCII first character, unknown operators, invalid
regular expressions and specs whose version does not parse all panicked.
---
 core/src/version/matching.rs | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/core/src/version/matching.rs b/core/src/version/matching.rs
index eeaf65e..207d200 100644
--- a/core/src/version/matching.rs
+++ b/core/src/version/matching.rs
@@ -35,8 +35,10 @@ pub(crate) fn create_match_enum_from_operator_str(
         v_str = &v_str[..v_str.len() - 2];
     }
     let matcher = MatchOperator {
-        operator: CompOp::from_sign(operator_str).unwrap(),
-        version: v_str.into(),
+        operator: CompOp::from_sign(operator_str).map_err(|_| {
+            VersionParsingError::Message(format!("invalid operator in string {}", input))
+        })?,
+        version: v_str.parse()?,
     };
     let _is_exact = operator_str == "==";
     Ok((matcher.into(), _is_exact))
@@ -63,6 +65,10 @@ impl Default for MatchEnum {
     }
 }
 
+fn parse_regex(expression: &str) -> Result<Regex, VersionParsingError> {
+    Regex::new(expression).map_err(|e| VersionParsingError::Message(e.to_string()))
+}
+
 pub fn get_matcher(input: &str) -> Result<(MatchEnum, bool), VersionParsingError> {
     lazy_static! {
         static ref REGEX_SPLIT_RE: Regex = Regex::new(r#".*[()|,^$]"#).unwrap();
@@ -71,6 +77,9 @@ pub fn get_matcher(input: &str) -> Result<(MatchEnum, bool), VersionParsingError
         static ref OPERATOR_START: HashSet<&'static str> =
             ["=", "<", ">", "!", "~"].iter().cloned().collect();
     }
+    if input.is_empty() {
+        return Err(VersionParsingError::Message("empty version spec".to_string()));
+    }
     let _is_exact = false;
     let matcher: MatchEnum;
     let mut _is_exact = false;
@@ -81,10 +90,10 @@ pub fn get_matcher(input: &str) -> Result<(MatchEnum, bool), VersionParsingError
                 input
             )));
         }
-        let re = Regex::new(input).unwrap();
+        let re = parse_regex(input)?;
         matcher = MatchRegex { expression: re }.into();
         _is_exact = false;
-    } else if OPERATOR_START.contains(&input[..1]) {
+    } else if input.get(..1).map_or(false, |c| OPERATOR_START.contains(c)) {
         let res = create_match_enum_from_operator_str(input);
         match res {
             Ok((_m, _e)) => {
@@ -101,20 +110,20 @@ pub fn get_matcher(input: &str) -> Result<(MatchEnum, bool), VersionParsingError
             .replace(".", r"\.")
             .replace("+", r"\+")
             .replace("*", r".*");
-        let rx: Regex = Regex::new(&format!(r"^(?:{})$", rx)).unwrap();
+        let rx: Regex = parse_regex(&format!(r"^(?:{})$", rx))?;
         matcher = MatchRegex { expression: rx }.into();
         _is_exact = false;
     } else if input.ends_with("*") {
         matcher = MatchOperator {
             operator: CompOp::StartsWith,
-            version: input.trim_end_matches(|c| c == '*' || c == '.').into(),
+            version: input.trim_end_matches(|c| c == '*' || c == '.').parse()?,
         }
         .into();
         _is_exact = false;
     } else if !input.contains("@") {
         matcher = MatchOperator {
             operator: CompOp::Eq,
-            version: input.into(),
+            version: input.parse()?,
         }
         .into();
         _is_exact = true;
-- 
2.43.0


From 0455db7af385ed219b9969c5571b329bc793fb49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:37 +0000
Subject: [PATCH 09/19] fix: matching a regex or inner-wildcard spec panicked

Match the expression against the version's text.
---
 core/src/version/matching.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/src/version/matching.rs b/core/src/version/matching.rs
index 207d200..6061338 100644
--- a/core/src/version/matching.rs
+++ b/core/src/version/matching.rs
@@ -142,8 +142,8 @@ pub struct MatchRegex {
     pub expression: Regex,
 }
 impl MatchFn for MatchRegex {
-    fn test(&self, _other: &Version) -> bool {
-        panic!("Not implemented")
+    fn test(&self, other: &Version) -> bool {
+        self.expression.is_match(&other.version)
     }
 }
 
-- 
2.43.0


From 900e6e6587631d65c73f5346c6f115b31e9e44e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:29 +0000
Subject: [PATCH 10/19] fix: tree equality ignored the connective and the
 number of members

---
 core/src/version/spec_trees.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/core/src/version/spec_trees.rs b/core/src/version/spec_trees.rs
index ebe2142..f61daaa 100644
--- a/core/src/version/spec_trees.rs
+++ b/core/src/version/spec_trees.rs
@@ -1,4 +1,3 @@
-use std::ops::Deref;
 use std::fmt;
 use regex::Regex;
 use std::borrow::Borrow;
@@ -139,10 +138,7 @@ impl fmt::Debug for VersionSpecOrConstraintTree {
 
 impl PartialEq for ConstraintTree {
     fn eq(&self, other: &Self) -> bool {
-        for (a, b) in self.parts.iter().zip(&other.parts) {
-            if a.deref() != b.deref() { return false }
-        }
-        return true
+        self.combinator == other.combinator && self.parts == other.parts
     }
 }
 
-- 
2.43.0


From f5239ad138fc004726a9ca725a707ec76777c4f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:00 +0000
Subject: [PATCH 11/19] fix: writing or debug-printing a spec tree could panic
 or never terminate

---
 core/src/version/spec_trees.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/core/src/version/spec_trees.rs b/core/src/version/spec_trees.rs
index f61daaa..5ac185e 100644
--- a/core/src/version/spec_trees.rs
+++ b/core/src/version/spec_trees.rs
@@ -83,7 +83,7 @@ impl ConstraintTree {
                     str_parts.push(match item {
                         VersionSpecOrConstraintTree::VersionSpec(s) => s.get_spec().to_string(),
                         VersionSpecOrConstraintTree::ConstraintTree(cj) => {
-                            cj.combine(self.combinator == Combinator::And, true).unwrap()
+                            cj.combine(self.combinator == Combinator::And, true)?
                         }
                     });
                 }
@@ -132,7 +132,10 @@ impl PartialEq for VersionSpecOrConstraintTree {
 
 impl fmt::Debug for VersionSpecOrConstraintTree {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
-        write!(f, "{:#?}", self)
+        match self {
+            VersionSpecOrConstraintTree::VersionSpec(s) => write!(f, "{:?}", s.get_spec()),
+            VersionSpecOrConstraintTree::ConstraintTree(t) => t.fmt(f),
+        }
     }
 }
 
@@ -164,7 +167,10 @@ impl fmt::Debug for ConstraintTree {
         if f.alternate() {
             write!(f, "{:#?}{:#?}", self.combinator, self.parts)
         } else {
-            write!(f, "{:?}", self.get_spec())
+            match self.combine(false, false) {
+                Ok(spec) => write!(f, "{:?}", spec),
+                Err(_) => write!(f, "{:?}{:?}", self.combinator, self.parts)
+            }
         }
     }
 }
-- 
2.43.0


From f1d7742a7c37c7082bdd8f4595a1a9a9ceb73e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:02 +0000
Subject: [PATCH 12/19] fix: a parsed single-spec expression never matched
 anything

---
 core/src/version/spec_trees.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/src/version/spec_trees.rs b/core/src/version/spec_trees.rs
index 5ac185e..7f7452a 100644
--- a/core/src/version/spec_trees.rs
+++ b/core/src/version/spec_trees.rs
@@ -53,7 +53,8 @@ impl Spec for ConstraintTree{
         return match self.combinator {
             Combinator::And => self.parts.iter().all(|x| x.borrow().test_match_version(other)),
             Combinator::Or => self.parts.iter().any(|x| x.borrow().test_match_version(other)),
-            Combinator::None => false,
+            // a parsed expression with a single spec
+            Combinator::None => self.parts.len() == 1 && self.parts[0].test_match_version(other),
         }
     }
 }
-- 
2.43.0


From 66d1a0e1a632cbb0ff42ed348f415e3f40d0fa2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:05 +0000
Subject: [PATCH 13/19] fix: building a group from an empty list or an invalid
 spec panicked

---
 core/src/version/spec_trees.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/core/src/version/spec_trees.rs b/core/src/version/spec_trees.rs
index 7f7452a..8197988 100644
--- a/core/src/version/spec_trees.rs
+++ b/core/src/version/spec_trees.rs
@@ -150,16 +150,13 @@ impl TryFrom<Vec<&str>> for ConstraintTree
 {
     type Error = VersionParsingError;
     fn try_from(input: Vec<&str>) -> Result<Self, Self::Error> {
-        let combinator = match input[0].borrow() {
-            "," => Combinator::And,
-            "|" => Combinator::Or,
+        let combinator = match input.first() {
+            Some(&",") => Combinator::And,
+            Some(&"|") => Combinator::Or,
             _ => return Err(VersionParsingError::Message(format!("Unknown first value in vec of str used as ConstraintTree")))
         };
-        let tree = ConstraintTree {
-            combinator,
-            parts: input[1..].iter().map(|x| VersionSpecOrConstraintTree::try_from(x.clone()).unwrap()).collect()
-        };
-        Ok(tree)
+        let parts: Result<Vec<_>, _> = input[1..].iter().map(|x| VersionSpecOrConstraintTree::try_from(*x)).collect();
+        Ok(ConstraintTree { combinator, parts: parts? })
     }
 }
 
-- 
2.43.0


From 6782021b2cca615cdbe5074f59941ca41701bfaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:07 +0000
Subject: [PATCH 14/19] fix: malformed compound specs were accepted with
 another meaning or panicked

---
 core/src/version/spec_trees.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/core/src/version/spec_trees.rs b/core/src/version/spec_trees.rs
index 8197988..f9ffc01 100644
--- a/core/src/version/spec_trees.rs
+++ b/core/src/version/spec_trees.rs
@@ -269,11 +269,17 @@ fn _treeify(spec_str: String) -> Result<ConstraintTree, String> {
     //let delimiters: &str = "|,()";
     let mut output: ConstraintTree = ConstraintTree { combinator: Combinator::None, parts: vec![]};
     let mut stack: Vec<&str> =vec![];
+    // whether the next token has to be a spec or "(" rather than a connective or ")"
+    let mut want_operand = true;
 
     let spec_str_in_parens = format!("({})", spec_str);
     let tokens: Vec<&str> = VSPEC_TOKENS.find_iter(&spec_str_in_parens).map(|x| x.as_str().trim()).collect();
 
     for item in tokens {
+        if want_operand == (item == "|" || item == "," || item == ")") || stack.is_empty() && item != "(" {
+            return Err(format!("misplaced {:?} in {:?}", item, spec_str));
+        }
+        want_operand = item == "(" || item == "|" || item == ",";
         match item {
             "(" => { stack.push("(") },
             "|" => {
@@ -297,7 +303,7 @@ fn _treeify(spec_str: String) -> Result<ConstraintTree, String> {
                         combinator: Combinator::None,
                         parts: vec![VersionSpecOrConstraintTree::ConstraintTree(output)]};
                 }
-                output.parts.push(VersionSpecOrConstraintTree::VersionSpec(VersionSpec::try_from(item).unwrap()))
+                output.parts.push(VersionSpecOrConstraintTree::VersionSpec(VersionSpec::try_from(item).map_err(|e| e.to_string())?))
             }
         }
     }
-- 
2.43.0


From f14dc511a8cef6887460934e9210da7281835819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:53 +0000
Subject: [PATCH 15/19] fix: compound and regex text was rejected by the
 general spec entry point

---
 core/src/version/spec_trees.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/core/src/version/spec_trees.rs b/core/src/version/spec_trees.rs
index f9ffc01..d4ff533 100644
--- a/core/src/version/spec_trees.rs
+++ b/core/src/version/spec_trees.rs
@@ -105,12 +105,12 @@ impl ConstraintTree {
 impl TryFrom<&str> for VersionSpecOrConstraintTree {
     type Error = VersionParsingError;
     fn try_from (input: &str) -> Result<VersionSpecOrConstraintTree, Self::Error> {
-        lazy_static! { static ref REGEX_SPLIT_RE: Regex = Regex::new( r#".*[()|,^$]"# ).unwrap(); }
-        let split_input: Vec<&str> = REGEX_SPLIT_RE.split(input).collect();
-        if split_input.len() > 1 {
-            match ConstraintTree::try_from(split_input) {
+        if input.contains(|c| "()|,".contains(c)) {
+            match treeify(input) {
+                // a lone spec in parentheses, or a regex that contains delimiters
+                Ok(ref mut v) if v.combinator == Combinator::None && v.parts.len() == 1 => Ok(v.parts.remove(0)),
                 Ok(v) => Ok(VersionSpecOrConstraintTree::ConstraintTree(v)),
-                Err(e) => Err(e)
+                Err(e) => Err(VersionParsingError::Message(e))
             }
         } else {
             match VersionSpec::try_from(input) {
-- 
2.43.0


From 4d56dc07431cc89d6a6dfe30238d967ca20c7a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:55 +0000
Subject: [PATCH 16/19] fix: repodata with an escaped character in a version
 failed to load

---
 core/src/repodata/repodata.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/src/repodata/repodata.rs b/core/src/repodata/repodata.rs
index 434f1de..e0a2e56 100644
--- a/core/src/repodata/repodata.rs
+++ b/core/src/repodata/repodata.rs
@@ -24,8 +24,8 @@ fn deserialize_json_str_to_version<'de, D>(deserializer: D) -> Result<Version, D
     where
         D: de::Deserializer<'de>,
 {
-    let s: &str = Deserialize::deserialize(deserializer)?;
-    match Version::parse(s, &conda_parser) {
+    let s: String = Deserialize::deserialize(deserializer)?;
+    match Version::parse(&s, &conda_parser) {
         Ok(v) => Ok(v),
         Err(_e) => Err(de::Error::custom("Version parsing error"))
     }
-- 
2.43.0


From 3f1fdd0544413fb3d22165ed07efb38b57e664f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:57 +0000
Subject: [PATCH 17/19] fix: loading a missing or non-UTF-8 repodata file
 panicked

---
 core/src/repodata/repodata.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/repodata/repodata.rs b/core/src/repodata/repodata.rs
index e0a2e56..671ef8d 100644
--- a/core/src/repodata/repodata.rs
+++ b/core/src/repodata/repodata.rs
@@ -47,7 +47,7 @@ pub struct Repodata {
 }
 
 pub fn read_repodata<'a, P: AsRef<Path>>(path: P) -> Result<Repodata, serde_json::error::Error> {
-    let file = std::fs::read_to_string(path).unwrap();
+    let file = std::fs::read_to_string(path).map_err(de::Error::custom)?;
     // Read the JSON contents of the file as an instance of `Repodata`.
     let r = serde_json::from_str(&file)?;
 
-- 
2.43.0


From f71fc7f71dee5883c4f63a6f62d099bdd5f9cd14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:59 +0000
Subject: [PATCH 18/19] fix: the compatible-release operators aborted instead
 of answering

---
 core/src/version/version.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/core/src/version/version.rs b/core/src/version/version.rs
index b4a5999..07d0a00 100644
--- a/core/src/version/version.rs
+++ b/core/src/version/version.rs
@@ -219,12 +219,20 @@ impl Version {
         }
     }
 
+    /// PEP 440 compatible release: not older than `other` and in the same series
+    fn compatible(&self, other: &Version) -> bool {
+        let series = other.parts.len().saturating_sub(1);
+        self.parts.len() >= series
+            && self.parts[..series] == other.parts[..series]
+            && self.compare_version(other) != CompOp::Lt
+    }
+
     pub fn compare_to_version(&self, other: &Version, operator: &CompOp) -> bool {
         match operator {
             CompOp::StartsWith => self.startswith(other),
             CompOp::NotStartsWith => !self.startswith(other),
-            CompOp::Compatible => unimplemented!(),
-            CompOp::Incompatible => unimplemented!(),
+            CompOp::Compatible => self.compatible(other),
+            CompOp::Incompatible => !self.compatible(other),
             _ => match self.compare_version(other) {
                 CompOp::Eq => match operator {
                     &CompOp::Eq | &CompOp::Le | &CompOp::Ge => true,
-- 
2.43.0


From 37b34584cf434b5506865b03986519ba16bb97b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:01 +0000
Subject: [PATCH 19/19] fix: building a Python version from invalid text
 panicked

---
 python/src/python_interface.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/python/src/python_interface.rs b/python/src/python_interface.rs
index 0a4cf28..f2aea7f 100644
--- a/python/src/python_interface.rs
+++ b/python/src/python_interface.rs
@@ -1,4 +1,4 @@
-use cpython::{PyResult, CompareOp, ToPyObject, PythonObject};
+use cpython::{exc, PyErr, PyResult, CompareOp, ToPyObject, PythonObject};
 use ronda::{Version, CompOp, read_repodata};
 
 fn py_cmp_to_ronda_cmp(other: CompareOp) -> CompOp {
@@ -26,7 +26,10 @@ py_module_initializer!(_ronda, init_ronda, PyInit__ronda, |py, m| {
 py_class!(class RustyVersion |py| {
     data rust_version: Version;
     def __new__(_cls, arg: &str) -> PyResult<RustyVersion> {
-        RustyVersion::create_instance(py, arg.into())
+        match arg.parse::<Version>() {
+            Ok(version) => RustyVersion::create_instance(py, version),
+            Err(e) => Err(PyErr::new::<exc::ValueError, _>(py, e.to_string())),
+        }
     }
     def __richcmp__(&self, other: &RustyVersion, op: CompareOp) -> PyResult<bool> {
         Ok(self.rust_version(py).compare_to_version(other.rust_version(py), &py_cmp_to_ronda_cmp(op)))
-- 
2.43.0

