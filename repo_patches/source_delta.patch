From 1d9753138428978adb3950bcdfd4aadccec31aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:11 +0000
Subject: [PATCH 01/22] fix: keep comparing after an implicit zero so 1.0.1 is
 not equal to 1

---
 core/src/version/version.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/core/src/version/version.rs b/core/src/version/version.rs
index 0ec9730..7d6789e 100644
--- a/core/src/version/version.rs
+++ b/core/src/version/version.rs
@@ -274,7 +274,6 @@ impl Version {
                 (Some(i), Some(j)) => match i.partial_cmp(j) {
                     Some(Ordering::Greater) => return CompOp::Gt,
                     Some(Ordering::Less) => return CompOp::Lt,
-                    // This is the only loop branch that continues
                     Some(Ordering::Equal) => Ordering::Equal,
                     _ => unreachable!("Ignoring ge, le, ne"),
                 },
@@ -284,13 +283,13 @@ impl Version {
                 (Some(i), None) => match i.partial_cmp(&&i.get_empty()) {
                     Some(Ordering::Less) => return CompOp::Lt,
                     Some(Ordering::Greater) => return CompOp::Gt,
-                    Some(Ordering::Equal) => return CompOp::Eq,
+                    Some(Ordering::Equal) => Ordering::Equal,
                     _ => unreachable!("Ignoring ge, le, ne"),
                 },
                 (None, Some(j)) => match &j.get_empty().partial_cmp(j) {
                     Some(Ordering::Less) => return CompOp::Lt,
                     Some(Ordering::Greater) => return CompOp::Gt,
-                    Some(Ordering::Equal) => return CompOp::Eq,
+                    Some(Ordering::Equal) => Ordering::Equal,
                     _ => unreachable!("Ignoring ge, le, ne"),
                 },
 
-- 
2.43.0


From 08ad6ae9419cf276b3cc97c0bbabf8529e243ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:13 +0000
Subject: [PATCH 02/22] fix: compare_to_version evaluated ordering operators
 with the operands swapped

---
 core/src/version/matching.rs |  2 +-
 core/src/version/version.rs  | 10 ++++------
 2 files changed, 5 insertions(+), 7 deletions(-)

diff --git a/core/src/version/matching.rs b/core/src/version/matching.rs
index c2ebf99..e7c4fe4 100644
--- a/core/src/version/matching.rs
+++ b/core/src/version/matching.rs
@@ -146,7 +146,7 @@ pub struct MatchOperator {
 }
 impl MatchFn for MatchOperator {
     fn test(&self, other: &Version) -> bool {
-        self.version.compare_to_version(other, &self.operator)
+        other.compare_to_version(&self.version, &self.operator)
     }
 }
 
diff --git a/core/src/version/version.rs b/core/src/version/version.rs
index 7d6789e..e6a5b23 100644
--- a/core/src/version/version.rs
+++ b/core/src/version/version.rs
@@ -208,10 +208,8 @@ impl Version {
 
     pub fn compare_to_version(&self, other: &Version, operator: &CompOp) -> bool {
         match operator {
-            // these look inverted. What we're saying when we have a.b.* (spec) and a.b.c (other version)
-            //     is that a.b.c starts with the spec (up until the star)
-            CompOp::StartsWith => other.startswith(self),
-            CompOp::NotStartsWith => !other.startswith(self),
+            CompOp::StartsWith => self.startswith(other),
+            CompOp::NotStartsWith => !self.startswith(other),
             CompOp::Compatible => unimplemented!(),
             CompOp::Incompatible => unimplemented!(),
             _ => match self.compare_version(other) {
@@ -220,11 +218,11 @@ impl Version {
                     _ => false,
                 },
                 CompOp::Lt => match operator {
-                    &CompOp::Ne | &CompOp::Gt | &CompOp::Ge => true,
+                    &CompOp::Ne | &CompOp::Lt | &CompOp::Le => true,
                     _ => false,
                 },
                 CompOp::Gt => match operator {
-                    &CompOp::Ne | &CompOp::Lt | &CompOp::Le => true,
+                    &CompOp::Ne | &CompOp::Gt | &CompOp::Ge => true,
                     _ => false,
                 },
                 _ => unreachable!(),
-- 
2.43.0


From 0f426abc05679657a4a82055b7bccf0b5cb0d472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:26 +0000
Subject: [PATCH 03/22] fix: report an invalid version epoch as an error
 instead of panicking

---
 core/src/version/parsers/conda.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/core/src/version/parsers/conda.rs b/core/src/version/parsers/conda.rs
index fd89175..7b62bd8 100644
--- a/core/src/version/parsers/conda.rs
+++ b/core/src/version/parsers/conda.rs
@@ -16,7 +16,11 @@ pub fn conda_parser(
     let epoch_split: Vec<&str> = version.split("!").collect();
     let post_epoch_split: &str = match epoch_split.len() {
         2 => {
-            parts.push(VersionPart::Epoch(epoch_split[0].parse().unwrap()));
+            // the epoch is an unsigned number; anything else is a malformed version
+            match epoch_split[0].parse() {
+                Ok(epoch) if epoch_split[0].bytes().all(|b| b.is_ascii_digit()) => parts.push(VersionPart::Epoch(epoch)),
+                _ => return Err(VersionParsingError::Message(format!("invalid epoch in version {}", version)))
+            }
             epoch_split[1]
         },
         1 => {
-- 
2.43.0


From bc8f9149e8cb1c51bb917ed551ffb7a842bd9c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:29 +0000
Subject: [PATCH 04/22] fix: a version holding only separators is empty, not
 equal to both zero and the empty version

---
 core/src/version/parsers/conda.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/version/parsers/conda.rs b/core/src/version/parsers/conda.rs
index 7b62bd8..30e6307 100644
--- a/core/src/version/parsers/conda.rs
+++ b/core/src/version/parsers/conda.rs
@@ -70,7 +70,7 @@ pub fn conda_parser(
         parts.push(VersionPart::LexicographicString(local.to_string()));
     }
 
-    if parts.is_empty() && version.is_empty() {
+    if parts.is_empty() {
         parts.push(VersionPart::Empty);
     }
 
-- 
2.43.0


From 10d05941366ea8849f3138fa541d1fba779e760f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:51 +0000
Subject: [PATCH 05/22] fix: an explicit epoch of zero is the default epoch

---
 core/src/version/parsers/conda.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/src/version/parsers/conda.rs b/core/src/version/parsers/conda.rs
index 30e6307..2e3599f 100644
--- a/core/src/version/parsers/conda.rs
+++ b/core/src/version/parsers/conda.rs
@@ -18,6 +18,8 @@ pub fn conda_parser(
         2 => {
             // the epoch is an unsigned number; anything else is a malformed version
             match epoch_split[0].parse() {
+                // zero is the epoch of a version that names none
+                Ok(0) if epoch_split[0].bytes().all(|b| b == b'0') => {}
                 Ok(epoch) if epoch_split[0].bytes().all(|b| b.is_ascii_digit()) => parts.push(VersionPart::Epoch(epoch)),
                 _ => return Err(VersionParsingError::Message(format!("invalid epoch in version {}", version)))
             }
-- 
2.43.0


From 65c001ffae139a68b0b9dbe47e1f58448b1185a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:53 +0000
Subject: [PATCH 06/22] fix: report a malformed version spec as an error
 instead of panicking

---
 core/src/version/matching.rs | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/core/src/version/matching.rs b/core/src/version/matching.rs
index e7c4fe4..05ac40e 100644
--- a/core/src/version/matching.rs
+++ b/core/src/version/matching.rs
@@ -35,8 +35,10 @@ pub(crate) fn create_match_enum_from_operator_str(
         v_str = &v_str[..v_str.len() - 2];
     }
     let matcher = MatchOperator {
-        operator: CompOp::from_sign(operator_str).unwrap(),
-        version: v_str.into(),
+        operator: CompOp::from_sign(operator_str).map_err(|_| {
+            VersionParsingError::Message(format!("invalid operator in string {}", input))
+        })?,
+        version: v_str.parse()?,
     };
     let _is_exact = operator_str == "==";
     Ok((matcher.into(), _is_exact))
@@ -74,17 +76,19 @@ pub fn get_matcher(input: &str) -> Result<(MatchEnum, bool), VersionParsingError
     let _is_exact = false;
     let matcher: MatchEnum;
     let mut _is_exact = false;
-    if input.starts_with("^") || input.ends_with("$") {
+    if input.is_empty() {
+        return Err(VersionParsingError::Message("empty version spec".to_string()));
+    } else if input.starts_with("^") || input.ends_with("$") {
         if !input.starts_with("^") || !input.ends_with("$") {
             return Err(VersionParsingError::Message(format!(
                 "regex specs must start with '^' and end with '$' - spec '{}' is incorrect",
                 input
             )));
         }
-        let re = Regex::new(input).unwrap();
+        let re = Regex::new(input).map_err(|e| VersionParsingError::Message(e.to_string()))?;
         matcher = MatchRegex { expression: re }.into();
         _is_exact = false;
-    } else if OPERATOR_START.contains(&input[..1]) {
+    } else if input.get(..1).map_or(false, |c| OPERATOR_START.contains(c)) {
         let res = create_match_enum_from_operator_str(input);
         match res {
             Ok((_m, _e)) => {
@@ -101,20 +105,21 @@ pub fn get_matcher(input: &str) -> Result<(MatchEnum, bool), VersionParsingError
             .replace(".", r"\.")
             .replace("+", r"\+")
             .replace("*", r".*");
-        let rx: Regex = Regex::new(&format!(r"^(?:{})$", rx)).unwrap();
+        let rx: Regex = Regex::new(&format!(r"^(?:{})$", rx))
+            .map_err(|e| VersionParsingError::Message(e.to_string()))?;
         matcher = MatchRegex { expression: rx }.into();
         _is_exact = false;
     } else if input.ends_with("*") {
         matcher = MatchOperator {
             operator: CompOp::StartsWith,
-            version: input.trim_end_matches(|c| c == '*' || c == '.').into(),
+            version: input.trim_end_matches(|c| c == '*' || c == '.').parse()?,
         }
         .into();
         _is_exact = false;
     } else if !input.contains("@") {
         matcher = MatchOperator {
             operator: CompOp::Eq,
-            version: input.into(),
+            version: input.parse()?,
         }
         .into();
         _is_exact = true;
-- 
2.43.0


From c17c3785e4243aecb5214b48f7195467fed8d4b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:19 +0000
Subject: [PATCH 07/22] fix: evaluate regex and inner-wildcard specs instead of
 panicking

---
 core/src/version/matching.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/src/version/matching.rs b/core/src/version/matching.rs
index 05ac40e..0a35d11 100644
--- a/core/src/version/matching.rs
+++ b/core/src/version/matching.rs
@@ -138,8 +138,8 @@ pub struct MatchRegex {
     pub expression: Regex,
 }
 impl MatchFn for MatchRegex {
-    fn test(&self, _other: &Version) -> bool {
-        panic!("Not implemented")
+    fn test(&self, other: &Version) -> bool {
+        self.expression.is_match(other.as_str())
     }
 }
 
-- 
2.43.0


From e716697f742f742fcdf8324d90a867fc18e73ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:21 +0000
Subject: [PATCH 08/22] fix: Debug for VersionSpecOrConstraintTree recursed
 without end

---
 core/src/version/spec_trees.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/src/version/spec_trees.rs b/core/src/version/spec_trees.rs
index ebe2142..b81e100 100644
--- a/core/src/version/spec_trees.rs
+++ b/core/src/version/spec_trees.rs
@@ -133,7 +133,10 @@ impl PartialEq for VersionSpecOrConstraintTree {
 
 impl fmt::Debug for VersionSpecOrConstraintTree {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
-        write!(f, "{:#?}", self)
+        match self {
+            VersionSpecOrConstraintTree::VersionSpec(s) => write!(f, "{:?}", s.get_spec()),
+            VersionSpecOrConstraintTree::ConstraintTree(t) => t.fmt(f)
+        }
     }
 }
 
-- 
2.43.0


From 38e2f80874cb284353bc2090b7d1f227d561c21e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:24 +0000
Subject: [PATCH 09/22] fix: constraint trees with different combinators or
 lengths compared equal

---
 core/src/version/spec_trees.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/src/version/spec_trees.rs b/core/src/version/spec_trees.rs
index b81e100..cf397b0 100644
--- a/core/src/version/spec_trees.rs
+++ b/core/src/version/spec_trees.rs
@@ -142,6 +142,7 @@ impl fmt::Debug for VersionSpecOrConstraintTree {
 
 impl PartialEq for ConstraintTree {
     fn eq(&self, other: &Self) -> bool {
+        if self.combinator != other.combinator || self.parts.len() != other.parts.len() { return false }
         for (a, b) in self.parts.iter().zip(&other.parts) {
             if a.deref() != b.deref() { return false }
         }
-- 
2.43.0


From 11180784c16fcaea5dffdb014f25278b003a0237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:26 +0000
Subject: [PATCH 10/22] fix: a constraint tree holding a single spec never
 matched

---
 core/src/version/spec_trees.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/src/version/spec_trees.rs b/core/src/version/spec_trees.rs
index cf397b0..527c1a0 100644
--- a/core/src/version/spec_trees.rs
+++ b/core/src/version/spec_trees.rs
@@ -54,7 +54,8 @@ impl Spec for ConstraintTree{
         return match self.combinator {
             Combinator::And => self.parts.iter().all(|x| x.borrow().test_match_version(other)),
             Combinator::Or => self.parts.iter().any(|x| x.borrow().test_match_version(other)),
-            Combinator::None => false,
+            // a tree without a combinator holds a single spec
+            Combinator::None => self.parts.iter().any(|x| x.borrow().test_match_version(other)),
         }
     }
 }
-- 
2.43.0


From 38906eb54a0510504d513ac990dd16c1483aabb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:56 +0000
Subject: [PATCH 11/22] fix: treeify panicked on an invalid spec inside an
 expression

---
 core/src/version/spec_trees.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/version/spec_trees.rs b/core/src/version/spec_trees.rs
index 527c1a0..afb6994 100644
--- a/core/src/version/spec_trees.rs
+++ b/core/src/version/spec_trees.rs
@@ -302,7 +302,7 @@ fn _treeify(spec_str: String) -> Result<ConstraintTree, String> {
                         combinator: Combinator::None,
                         parts: vec![VersionSpecOrConstraintTree::ConstraintTree(output)]};
                 }
-                output.parts.push(VersionSpecOrConstraintTree::VersionSpec(VersionSpec::try_from(item).unwrap()))
+                output.parts.push(VersionSpecOrConstraintTree::VersionSpec(VersionSpec::try_from(item).map_err(|e| e.to_string())?))
             }
         }
     }
-- 
2.43.0


From 0c673a208b78b8c5647966a7fdd08b4fc981ffd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:59 +0000
Subject: [PATCH 12/22] fix: treeify accepted malformed expressions such as
 "1.5|1.6," and "1.5(1.6)"

---
 core/src/version/spec_trees.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/core/src/version/spec_trees.rs b/core/src/version/spec_trees.rs
index afb6994..53ef085 100644
--- a/core/src/version/spec_trees.rs
+++ b/core/src/version/spec_trees.rs
@@ -278,7 +278,14 @@ fn _treeify(spec_str: String) -> Result<ConstraintTree, String> {
     let spec_str_in_parens = format!("({})", spec_str);
     let tokens: Vec<&str> = VSPEC_TOKENS.find_iter(&spec_str_in_parens).map(|x| x.as_str().trim()).collect();
 
-    for item in tokens {
+    let mut want_operand = true;
+    for (i, item) in tokens.into_iter().enumerate() {
+        // operands and operators alternate, and nothing follows the parenthesis that closes the expression
+        let starts_operand = item != "|" && item != "," && item != ")";
+        if starts_operand != want_operand || (i > 0 && stack.is_empty()) {
+            return Err(format!("unexpected \"{}\" in spec \"{}\"", item, spec_str));
+        }
+        want_operand = item == "(" || item == "|" || item == ",";
         match item {
             "(" => { stack.push("(") },
             "|" => {
-- 
2.43.0


From 3207b1258599476035dcbf15fd01f69648df1f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:01 +0000
Subject: [PATCH 13/22] fix: untreeify panicked instead of returning the error
 of a nested tree

---
 core/src/version/spec_trees.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/version/spec_trees.rs b/core/src/version/spec_trees.rs
index 53ef085..6afa645 100644
--- a/core/src/version/spec_trees.rs
+++ b/core/src/version/spec_trees.rs
@@ -85,7 +85,7 @@ impl ConstraintTree {
                     str_parts.push(match item {
                         VersionSpecOrConstraintTree::VersionSpec(s) => s.get_spec().to_string(),
                         VersionSpecOrConstraintTree::ConstraintTree(cj) => {
-                            cj.combine(self.combinator == Combinator::And, true).unwrap()
+                            cj.combine(self.combinator == Combinator::And, true)?
                         }
                     });
                 }
-- 
2.43.0


From 01a7303327a838ab7f6d1df46fc36fda30764aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:38 +0000
Subject: [PATCH 14/22] fix: compound specs were rejected when converted to
 VersionSpecOrConstraintTree

---
 core/src/version/spec_trees.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/core/src/version/spec_trees.rs b/core/src/version/spec_trees.rs
index 6afa645..bda55b1 100644
--- a/core/src/version/spec_trees.rs
+++ b/core/src/version/spec_trees.rs
@@ -107,11 +107,10 @@ impl TryFrom<&str> for VersionSpecOrConstraintTree {
     type Error = VersionParsingError;
     fn try_from (input: &str) -> Result<VersionSpecOrConstraintTree, Self::Error> {
         lazy_static! { static ref REGEX_SPLIT_RE: Regex = Regex::new( r#".*[()|,^$]"# ).unwrap(); }
-        let split_input: Vec<&str> = REGEX_SPLIT_RE.split(input).collect();
-        if split_input.len() > 1 {
-            match ConstraintTree::try_from(split_input) {
+        if REGEX_SPLIT_RE.is_match(input) {
+            match treeify(input) {
                 Ok(v) => Ok(VersionSpecOrConstraintTree::ConstraintTree(v)),
-                Err(e) => Err(e)
+                Err(e) => Err(VersionParsingError::Message(e))
             }
         } else {
             match VersionSpec::try_from(input) {
-- 
2.43.0


From 862fcbba2acb7808767b205592e6326b4cc63ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:38 +0000
Subject: [PATCH 15/22] fix: building a ConstraintTree from a malformed list
 panicked

---
 core/src/version/spec_trees.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/core/src/version/spec_trees.rs b/core/src/version/spec_trees.rs
index bda55b1..997f9be 100644
--- a/core/src/version/spec_trees.rs
+++ b/core/src/version/spec_trees.rs
@@ -154,14 +154,14 @@ impl TryFrom<Vec<&str>> for ConstraintTree
 {
     type Error = VersionParsingError;
     fn try_from(input: Vec<&str>) -> Result<Self, Self::Error> {
-        let combinator = match input[0].borrow() {
-            "," => Combinator::And,
-            "|" => Combinator::Or,
+        let combinator = match input.first() {
+            Some(&",") => Combinator::And,
+            Some(&"|") => Combinator::Or,
             _ => return Err(VersionParsingError::Message(format!("Unknown first value in vec of str used as ConstraintTree")))
         };
         let tree = ConstraintTree {
             combinator,
-            parts: input[1..].iter().map(|x| VersionSpecOrConstraintTree::try_from(x.clone()).unwrap()).collect()
+            parts: input[1..].iter().map(|x| VersionSpecOrConstraintTree::try_from(x.clone())).collect::<Result<_, _>>()?
         };
         Ok(tree)
     }
-- 
2.43.0


From e81bcc08e795389e931f7a5fa6acfab998c80bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:41 +0000
Subject: [PATCH 16/22] fix: read_repodata panicked when the file could not be
 read

---
 core/src/repodata/repodata.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/repodata/repodata.rs b/core/src/repodata/repodata.rs
index 434f1de..6a7fd7a 100644
--- a/core/src/repodata/repodata.rs
+++ b/core/src/repodata/repodata.rs
@@ -47,7 +47,7 @@ pub struct Repodata {
 }
 
 pub fn read_repodata<'a, P: AsRef<Path>>(path: P) -> Result<Repodata, serde_json::error::Error> {
-    let file = std::fs::read_to_string(path).unwrap();
+    let file = std::fs::read_to_string(path).map_err(de::Error::custom)?;
     // Read the JSON contents of the file as an instance of `Repodata`.
     let r = serde_json::from_str(&file)?;
 
-- 
2.43.0


From af46ee116d7e0df2386517915c0ef67bc954414e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:43 +0000
Subject: [PATCH 17/22] fix: a version written with JSON escapes was rejected
 when loading repodata

---
 core/src/repodata/repodata.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/src/repodata/repodata.rs b/core/src/repodata/repodata.rs
index 6a7fd7a..671ef8d 100644
--- a/core/src/repodata/repodata.rs
+++ b/core/src/repodata/repodata.rs
@@ -24,8 +24,8 @@ fn deserialize_json_str_to_version<'de, D>(deserializer: D) -> Result<Version, D
     where
         D: de::Deserializer<'de>,
 {
-    let s: &str = Deserialize::deserialize(deserializer)?;
-    match Version::parse(s, &conda_parser) {
+    let s: String = Deserialize::deserialize(deserializer)?;
+    match Version::parse(&s, &conda_parser) {
         Ok(v) => Ok(v),
         Err(_e) => Err(de::Error::custom("Version parsing error"))
     }
-- 
2.43.0


From bce16215ea7e34fae5ce3db2a9e6f0d6e9d10fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:01 +0000
Subject: [PATCH 18/22] verification hook: expose the spec types under
 cfg(libronda_verif)

---
 core/src/lib.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/core/src/lib.rs b/core/src/lib.rs
index 8c6070e..49e1647 100644
--- a/core/src/lib.rs
+++ b/core/src/lib.rs
@@ -30,3 +30,11 @@ pub use crate::version::spec_trees::{
 pub use crate::version::CompOp;
 pub use crate::version::Version;
 pub use crate::version::VersionPart;
+
+// Access to items that have no public path, for the verification harness only.
+#[cfg(libronda_verif)]
+pub mod verif_hooks {
+    pub use crate::version::custom_parts::pep440::PEP440String;
+    pub use crate::version::errors::VersionParsingError;
+    pub use crate::version::spec_trees::{Spec, VersionSpec};
+}
-- 
2.43.0


From b60960ec7fec1e68d1aec4e93ee3acb4181d660c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:01 +0000
Subject: [PATCH 19/22] fix: reject a spec whose operand starts with another
 operator, such as ">>1"

---
 core/src/version/matching.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/version/matching.rs b/core/src/version/matching.rs
index 0a35d11..ca1d70f 100644
--- a/core/src/version/matching.rs
+++ b/core/src/version/matching.rs
@@ -7,7 +7,7 @@ pub(crate) fn create_match_enum_from_operator_str(
     input: &str,
 ) -> Result<(MatchEnum, bool), VersionParsingError> {
     lazy_static! {
-        static ref VERSION_RELATION_RE: Regex = Regex::new(r#"^([<>=!~]=?)(\S+)$"#).unwrap();
+        static ref VERSION_RELATION_RE: Regex = Regex::new(r#"^([<>=!~]=?)([^\s<>=!~]\S*)$"#).unwrap();
     }
 
     let (mut operator_str, mut v_str) = match VERSION_RELATION_RE.captures(input) {
-- 
2.43.0


From 6de4adabd3c9b3d8e7b1ec361a63162f50680a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:03 +0000
Subject: [PATCH 20/22] fix: Debug of a ConstraintTree that has no spec text
 panicked

---
 core/src/version/spec_trees.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/core/src/version/spec_trees.rs b/core/src/version/spec_trees.rs
index 997f9be..597a6f3 100644
--- a/core/src/version/spec_trees.rs
+++ b/core/src/version/spec_trees.rs
@@ -172,7 +172,11 @@ impl fmt::Debug for ConstraintTree {
         if f.alternate() {
             write!(f, "{:#?}{:#?}", self.combinator, self.parts)
         } else {
-            write!(f, "{:?}", self.get_spec())
+            match self.combine(false, false) {
+                Ok(spec) => write!(f, "{:?}", spec),
+                // trees that have no spec text
+                Err(_) => write!(f, "{:?}{:?}", self.combinator, self.parts)
+            }
         }
     }
 }
-- 
2.43.0


From 789913e89bde189d95faf95a5485816fab7526cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:29 +0000
Subject: [PATCH 21/22] fix: a ConstraintTree holding one nested tree had no
 spec text, so get_spec panicked

---
 core/src/version/spec_trees.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/core/src/version/spec_trees.rs b/core/src/version/spec_trees.rs
index 597a6f3..9b43750 100644
--- a/core/src/version/spec_trees.rs
+++ b/core/src/version/spec_trees.rs
@@ -71,10 +71,9 @@ impl ConstraintTree {
     fn combine(&self, inand: bool, nested: bool) -> Result<String, String> {
         match self.parts.len() {
             1 => {
-                if let VersionSpecOrConstraintTree::VersionSpec(s) = self.parts[0].borrow() {
-                    Ok(s.get_spec().to_string())
-                } else {
-                    Err("Can't combine (stringify) single-element ConstraintTree that isn't just a string".to_string())
+                match self.parts[0].borrow() {
+                    VersionSpecOrConstraintTree::VersionSpec(s) => Ok(s.get_spec().to_string()),
+                    VersionSpecOrConstraintTree::ConstraintTree(cj) => cj.combine(inand, nested)
                 }
             },
             0 => Err("Can't combine (stringify) a zero-element ConstraintTree".to_string()),
-- 
2.43.0


From 671e9377413bacf3ecd9b342af4ede4ade5e1dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:20 +0000
Subject: [PATCH 22/22] fix: a malformed version text aborted the Python
 interpreter instead of raising ValueError

---
 python/src/python_interface.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/python/src/python_interface.rs b/python/src/python_interface.rs
index 0a4cf28..9c6ae72 100644
--- a/python/src/python_interface.rs
+++ b/python/src/python_interface.rs
@@ -1,4 +1,4 @@
-use cpython::{PyResult, CompareOp, ToPyObject, PythonObject};
+use cpython::{exc, PyErr, PyResult, CompareOp, ToPyObject, PythonObject};
 use ronda::{Version, CompOp, read_repodata};
 
 fn py_cmp_to_ronda_cmp(other: CompareOp) -> CompOp {
@@ -26,7 +26,8 @@ py_module_initializer!(_ronda, init_ronda, PyInit__ronda, |py, m| {
 py_class!(class RustyVersion |py| {
     data rust_version: Version;
     def __new__(_cls, arg: &str) -> PyResult<RustyVersion> {
-        RustyVersion::create_instance(py, arg.into())
+        let version = arg.parse::<Version>().map_err(|e| PyErr::new::<exc::ValueError, _>(py, e.to_string()))?;
+        RustyVersion::create_instance(py, version)
     }
     def __richcmp__(&self, other: &RustyVersion, op: CompareOp) -> PyResult<bool> {
         Ok(self.rust_version(py).compare_to_version(other.rust_version(py), &py_cmp_to_ronda_cmp(op)))
-- 
2.43.0

