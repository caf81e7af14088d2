From 2542d332e31d89848100793940a54d7b94c052fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:59 +0000
Subject: [PATCH 01/56] fix: make the version order total and hashing agree
 with equality

Trailing zeros were implicit (1.0 == 1.0.0) while a shorter version compared
greater than any longer one (1 > 1.1), so 1 == 1.0 < 1.1 < 1 was a cycle and
sorting depended on the input order. Missing tokens now compare as 0. Digit
runs that do not fit an integer are compared by value instead of sorting
below every other number, and Hash no longer separates versions that Eq
considers equal.
---
 crates/rez-next-version/src/version.rs | 116 ++++++++++---------------
 1 file changed, 45 insertions(+), 71 deletions(-)

diff --git a/crates/rez-next-version/src/version.rs b/crates/rez-next-version/src/version.rs
index dd7095f..902b7ab 100644
--- a/crates/rez-next-version/src/version.rs
+++ b/crates/rez-next-version/src/version.rs
@@ -332,8 +332,8 @@ impl Version {
     ///    apply rules 1–3 per segment pair.
     fn compare_single_token(t1: &str, t2: &str) -> Ordering {
         // Fast path: both purely numeric
-        if let (Ok(n1), Ok(n2)) = (t1.parse::<i64>(), t2.parse::<i64>()) {
-            return n1.cmp(&n2);
+        if Self::is_numeric(t1) && Self::is_numeric(t2) {
+            return Self::compare_numeric(t1, t2);
         }
         // Fast path: equal strings
         if t1 == t2 {
@@ -362,14 +362,8 @@ impl Version {
         let seg2 = Self::split_token_segments(t2);
 
         for (s1, s2) in seg1.iter().zip(seg2.iter()) {
-            let s1_is_num = s1.parse::<u64>().is_ok();
-            let s2_is_num = s2.parse::<u64>().is_ok();
-            let cmp = match (s1_is_num, s2_is_num) {
-                (true, true) => {
-                    let n1: u64 = s1.parse().unwrap();
-                    let n2: u64 = s2.parse().unwrap();
-                    n1.cmp(&n2)
-                }
+            let cmp = match (Self::is_numeric(s1), Self::is_numeric(s2)) {
+                (true, true) => Self::compare_numeric(s1, s2),
                 (false, false) => s1.as_str().cmp(s2.as_str()),
                 (false, true) => Ordering::Less, // alpha segment < numeric segment
                 (true, false) => Ordering::Greater, // numeric segment > alpha segment
@@ -381,6 +375,17 @@ impl Version {
         seg1.len().cmp(&seg2.len())
     }
 
+    fn is_numeric(s: &str) -> bool {
+        !s.is_empty() && s.bytes().all(|b| b.is_ascii_digit())
+    }
+
+    /// Compare two digit strings by value, whatever their length.
+    fn compare_numeric(s1: &str, s2: &str) -> Ordering {
+        let n1 = s1.trim_start_matches('0');
+        let n2 = s2.trim_start_matches('0');
+        n1.len().cmp(&n2.len()).then_with(|| n1.cmp(n2))
+    }
+
     /// Split a token into alternating alpha/numeric segments.
     /// E.g. "alpha10" → ["alpha", "10"], "rc2" → ["rc", "2"]
     fn split_token_segments(s: &str) -> Vec<String> {
@@ -409,67 +414,19 @@ impl Version {
     }
 
     /// Compare token arrays using rez-compatible rules.
-    /// In rez, trailing zeros are implicit: 1.0 == 1.0.0 == 1.0.0.0
-    /// Rez epoch semantics: shorter version = higher epoch
-    /// - If extra tokens are all zeros → equal (trailing zeros implicit)
-    /// - If extra tokens start with non-zero numeric → shorter is greater (higher epoch)
-    /// - If extra tokens start with alpha → shorter is LESS (pre-release, so longer is greater)
+    ///
+    /// Trailing zeros are implicit (`1.0 == 1.0.0`), so the shorter version is
+    /// compared as if it were padded with `0` tokens. This keeps the order total:
+    /// `1.0.alpha < 1.0 == 1.0.0 < 1.0.1 < 1.1`.
     fn compare_token_strings(tokens1: &[String], tokens2: &[String]) -> Ordering {
-        for (t1, t2) in tokens1.iter().zip(tokens2.iter()) {
-            let cmp = Self::compare_single_token(t1, t2);
-            if cmp != Ordering::Equal {
-                return cmp;
-            }
-        }
-
-        // If all compared tokens are equal, check extra tokens
-        // Rez semantics: trailing zeros are implicit
-        // - 2 == 2.0.0 (extra tokens are all "0")
-        // - 1.0.1 > 1.0 (shorter has implicit Z+ which is > any digit)
-        // - 1.0 > 1.0.alpha (release > pre-release)
-        if tokens1.len() < tokens2.len() {
-            // tokens1 is shorter, tokens2 has extra tokens
-            let extra_tokens = &tokens2[tokens1.len()..];
-            if extra_tokens.iter().all(|t| t == "0") {
-                // Trailing zeros implicit → equal
-                Ordering::Equal
-            } else {
-                // Check first extra token
-                let first_extra = &tokens2[tokens1.len()];
-                if first_extra.chars().all(|c| c.is_ascii_digit()) {
-                    // Extra token is numeric and non-zero
-                    // Shorter has implicit Z+ which is > any digit
-                    Ordering::Greater
-                } else {
-                    // Extra token is alpha → tokens2 is pre-release
-                    // Release (tokens1) > pre-release (tokens2)
-                    Ordering::Greater
-                }
-            }
-        } else if tokens2.len() < tokens1.len() {
-            // tokens2 is shorter, tokens1 has extra tokens
-            let extra_tokens = &tokens1[tokens2.len()..];
-            if extra_tokens.iter().all(|t| t == "0") {
-                // Trailing zeros implicit → equal
-                Ordering::Equal
-            } else {
-                // Check first extra token
-                let first_extra = &tokens1[tokens2.len()];
-                if first_extra.chars().all(|c| c.is_ascii_digit()) {
-                    // Extra token is numeric and non-zero
-                    // tokens2 has implicit Z+ which is > any digit
-                    // So tokens2 > tokens1, meaning tokens1 < tokens2
-                    Ordering::Less
-                } else {
-                    // Extra token is alpha → tokens1 is pre-release
-                    // tokens2 is release, Release > pre-release
-                    // So tokens2 > tokens1, meaning tokens1 < tokens2
-                    Ordering::Less
-                }
-            }
-        } else {
-            Ordering::Equal
-        }
+        (0..tokens1.len().max(tokens2.len()))
+            .map(|i| {
+                let t1 = tokens1.get(i).map_or("0", String::as_str);
+                let t2 = tokens2.get(i).map_or("0", String::as_str);
+                Self::compare_single_token(t1, t2)
+            })
+            .find(|cmp| *cmp != Ordering::Equal)
+            .unwrap_or(Ordering::Equal)
     }
 }
 
@@ -495,7 +452,24 @@ impl PartialOrd for Version {
 
 impl Hash for Version {
     fn hash<H: Hasher>(&self, state: &mut H) {
-        self.string_repr.hash(state);
+        // Must agree with `Eq`: equal versions may be spelled differently
+        // (trailing zero tokens, leading zeros, separators).
+        if self.is_inf() {
+            "inf".hash(state);
+            return;
+        }
+        let is_zero = |token: &String| token.bytes().all(|b| b == b'0');
+        let significant = self.tokens.len()
+            - self.tokens.iter().rev().take_while(|t| is_zero(t)).count();
+        for token in &self.tokens[..significant] {
+            for segment in Self::split_token_segments(token) {
+                if Self::is_numeric(&segment) {
+                    segment.trim_start_matches('0').hash(state);
+                } else {
+                    segment.hash(state);
+                }
+            }
+        }
     }
 }
 
-- 
2.43.0


From 9b23f55580405f078c6b1bb26d8617ee13d86a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:24 +0000
Subject: [PATCH 02/56] fix: make version range algebra exact and its results
 re-parsable

Overlap, subset, emptiness and subtraction were approximated; results of set
operations could carry a text that parsed to a different set, and a range that
was serialised and read back lost its meaning.
---
 crates/rez-next-version/src/range/mod.rs      | 229 ++++++------------
 crates/rez-next-version/src/range/parser.rs   |  38 +--
 .../src/range/satisfiability.rs               | 217 +++--------------
 crates/rez-next-version/src/range/types.rs    | 106 +++++---
 crates/rez-next-version/src/version.rs        |  19 +-
 5 files changed, 215 insertions(+), 394 deletions(-)

diff --git a/crates/rez-next-version/src/range/mod.rs b/crates/rez-next-version/src/range/mod.rs
index 3e7c139..f8664ec 100644
--- a/crates/rez-next-version/src/range/mod.rs
+++ b/crates/rez-next-version/src/range/mod.rs
@@ -14,23 +14,31 @@ use serde::{Deserialize, Serialize};
 use types::BoundSet;
 
 use parser::parse_range_str;
-use satisfiability::{bound_sets_intersect, is_bound_set_satisfiable};
+use satisfiability::{is_bound_set_satisfiable, probe_versions};
 use types::Bound;
 
 /// `VersionRange` representation - a disjunction of `BoundSet`s (union of intersections)
-#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
+#[derive(Clone, Debug, PartialEq, Eq, Serialize)]
 pub struct VersionRange {
     /// Cached string representation
     pub range_str: String,
     /// Parsed bound sets (disjunction - any must match)
     #[serde(skip)]
     bound_sets: Vec<BoundSet>,
-    /// Whether the range was successfully parsed
-    #[serde(skip)]
-    is_parsed: bool,
-    /// Ranges to subtract (for set difference operations)
-    #[serde(skip)]
-    subtract_from: Vec<VersionRange>,
+}
+
+impl<'de> Deserialize<'de> for VersionRange {
+    fn deserialize<D>(deserializer: D) -> Result<Self, D::Error>
+    where
+        D: serde::Deserializer<'de>,
+    {
+        #[derive(Deserialize)]
+        struct Text {
+            range_str: String,
+        }
+        let text = Text::deserialize(deserializer)?;
+        Self::parse(&text.range_str).map_err(serde::de::Error::custom)
+    }
 }
 
 impl VersionRange {
@@ -45,8 +53,6 @@ impl VersionRange {
         VersionRange {
             range_str: String::new(),
             bound_sets: vec![BoundSet::any()],
-            is_parsed: true,
-            subtract_from: Vec::new(),
         }
     }
 
@@ -55,8 +61,6 @@ impl VersionRange {
         VersionRange {
             range_str: "!*".to_string(),
             bound_sets: vec![BoundSet::none()],
-            is_parsed: true,
-            subtract_from: Vec::new(),
         }
     }
 
@@ -77,28 +81,13 @@ impl VersionRange {
         Ok(VersionRange {
             range_str: range_str.to_string(),
             bound_sets,
-            is_parsed: true,
-            subtract_from: Vec::new(),
         })
     }
 
     /// Check if a version satisfies this range
     pub fn contains(&self, version: &Version) -> bool {
-        if !self.is_parsed || self.bound_sets.is_empty() {
-            return true;
-        }
         // Disjunction: any bound_set matching means the version is included
-        let in_self = self.bound_sets.iter().any(|bs| bs.contains(version));
-        if !in_self {
-            return false;
-        }
-        // Subtract: if version is in any subtract range, exclude it
-        for sub_range in &self.subtract_from {
-            if sub_range.contains(version) {
-                return false;
-            }
-        }
-        true
+        self.bound_sets.iter().any(|bs| bs.contains(version))
     }
 
     /// Get the string representation
@@ -106,27 +95,34 @@ impl VersionRange {
         &self.range_str
     }
 
-    /// Check if this range intersects with another range
-    pub fn intersects(&self, other: &VersionRange) -> bool {
-        // Conservative: if either is "any", they intersect
-        if self.is_any() || other.is_any() {
-            return true;
+    /// Build a range from bound sets, with a text that parses back to the same range.
+    fn from_bound_sets(bound_sets: Vec<BoundSet>) -> Self {
+        if bound_sets.is_empty() {
+            return Self::none();
         }
-        // Check if the ranges have any overlap by checking bounds interaction
-        // For exact versions, check containment
-        for bs_self in &self.bound_sets {
-            for bs_other in &other.bound_sets {
-                // Check if these two bound sets can co-exist
-                if bound_sets_intersect(bs_self, bs_other) {
-                    return true;
-                }
-            }
+        let range_str = bound_sets
+            .iter()
+            .map(ToString::to_string)
+            .collect::<Vec<_>>()
+            .join("|");
+        VersionRange {
+            range_str,
+            bound_sets,
         }
-        false
+    }
+
+    /// Check if this range intersects with another range
+    pub fn intersects(&self, other: &VersionRange) -> bool {
+        probe_versions(&[&self.bound_sets, &other.bound_sets])
+            .iter()
+            .any(|v| self.contains(v) && other.contains(v))
     }
 
     /// Compute the intersection of two ranges
     pub fn intersect(&self, other: &VersionRange) -> Option<VersionRange> {
+        if !self.intersects(other) {
+            return None;
+        }
         if self.is_any() {
             return Some(other.clone());
         }
@@ -147,93 +143,66 @@ impl VersionRange {
                 }
             }
         }
-
-        if result_sets.is_empty() {
-            return None;
-        }
-        let new_str = format!("({})&({})", self.range_str, other.range_str);
-        let mut combined_subtracts = self.subtract_from.clone();
-        combined_subtracts.extend(other.subtract_from.clone());
-        Some(VersionRange {
-            range_str: new_str,
-            bound_sets: result_sets,
-            is_parsed: true,
-            subtract_from: combined_subtracts,
-        })
+        Some(Self::from_bound_sets(result_sets))
     }
 
     /// Compute the union of two ranges (pipe-separated)
     pub fn union(&self, other: &VersionRange) -> VersionRange {
-        let new_str = format!("{}|{}", self.range_str, other.range_str);
-        let mut sets = self.bound_sets.clone();
-        sets.extend(other.bound_sets.clone());
-        VersionRange {
-            range_str: new_str,
-            bound_sets: sets,
-            is_parsed: true,
-            subtract_from: Vec::new(),
-        }
+        let sets = self
+            .bound_sets
+            .iter()
+            .chain(&other.bound_sets)
+            .filter(|bs| is_bound_set_satisfiable(bs))
+            .cloned()
+            .collect();
+        Self::from_bound_sets(sets)
     }
 
     /// Compute the difference of two ranges: versions in self but not in other
     /// Returns None if the result would be empty
     pub fn subtract(&self, other: &VersionRange) -> Option<VersionRange> {
-        if other.is_any() {
-            return None; // self - any = empty
-        }
-        if other.is_empty() {
-            return Some(self.clone());
+        if !self.intersects(other) {
+            return if self.is_empty() {
+                None
+            } else {
+                Some(self.clone())
+            };
+        }
+        // self AND NOT (set_1 OR set_2 ..): every excluded set must fail one of its bounds
+        let mut result_sets = self.bound_sets.clone();
+        for excluded in &other.bound_sets {
+            let mut remaining = Vec::new();
+            for bs in &result_sets {
+                for negation in excluded.bounds.iter().flat_map(Bound::negated) {
+                    let mut bounds = bs.bounds.clone();
+                    bounds.push(negation);
+                    let set = BoundSet { bounds };
+                    if is_bound_set_satisfiable(&set) {
+                        remaining.push(set);
+                    }
+                }
+            }
+            result_sets = remaining;
         }
-        if self.is_empty() {
+        if result_sets.is_empty() {
             return None;
         }
-        // Use subtract_from field: self with other excluded via contains() check
-        let new_str = format!("({})-({})", self.range_str, other.range_str);
-        let mut subtracts = self.subtract_from.clone();
-        subtracts.push(other.clone());
-        let range = VersionRange {
-            range_str: new_str,
-            bound_sets: self.bound_sets.clone(),
-            is_parsed: true,
-            subtract_from: subtracts,
-        };
-        // Quick sanity: at least one probe version must be in the result
-        let probes = self.collect_probe_versions_with_other(other);
-        let has_any = probes.iter().any(|v| range.contains(v));
-        if has_any { Some(range) } else { None }
+        Some(Self::from_bound_sets(result_sets))
     }
 
     /// Check if this range is the "any" range (matches all versions)
     pub fn is_any(&self) -> bool {
-        let s = self.range_str.trim();
-        if s.is_empty() || s == "*" {
-            return true;
-        }
-        // Check if all bound sets are Any
-        self.bound_sets
+        probe_versions(&[&self.bound_sets])
             .iter()
-            .all(|bs| bs.bounds.is_empty() || bs.bounds.iter().all(|b| matches!(b, Bound::Any)))
+            .all(|v| self.contains(v))
     }
 
     /// Check if this range is a subset of another range
     /// (every version in self is also in other)
     pub fn is_subset_of(&self, other: &VersionRange) -> bool {
-        if other.is_any() {
-            return true;
-        }
-        if self.is_any() {
-            return other.is_any();
-        }
-        if self.is_empty() {
-            return true;
-        }
-        let probe_versions = self.collect_probe_versions_with_other(other);
-        for v in &probe_versions {
-            if self.contains(v) && !other.contains(v) {
-                return false;
-            }
-        }
-        true
+        probe_versions(&[&self.bound_sets, &other.bound_sets])
+            .iter()
+            .all(|v| !self.contains(v) || other.contains(v))
     }
 
     /// Check if this range is a superset of another range
@@ -241,50 +210,8 @@ impl VersionRange {
         other.is_subset_of(self)
     }
 
-    /// Collect probe versions from both self and other's bounds, plus "beyond" versions
-    fn collect_probe_versions_with_other(&self, other: &VersionRange) -> Vec<Version> {
-        let mut versions = Vec::new();
-        for range in [self as &VersionRange, other] {
-            for bs in &range.bound_sets {
-                for bound in &bs.bounds {
-                    match bound {
-                        Bound::Ge(v)
-                        | Bound::Gt(v)
-                        | Bound::Le(v)
-                        | Bound::Lt(v)
-                        | Bound::Eq(v)
-                        | Bound::Ne(v)
-                        | Bound::Compatible(v) => {
-                            versions.push(v.clone());
-                            if let Ok(bumped) = Version::parse(&format!("{}.999999", v.as_str())) {
-                                versions.push(bumped);
-                            }
-                        }
-                        _ => {}
-                    }
-                }
-            }
-        }
-        for s in &["0.0.1", "999.999.999"] {
-            if let Ok(v) = Version::parse(s) {
-                versions.push(v);
-            }
-        }
-        versions
-    }
-
     /// Check if this range is empty (no versions match)
     pub fn is_empty(&self) -> bool {
-        let s = self.range_str.trim();
-        if s == "empty" || s == "!*" {
-            return true;
-        }
-        if self.is_parsed && !self.bound_sets.is_empty() {
-            return self
-                .bound_sets
-                .iter()
-                .all(|bs| bs.bounds.iter().any(|b| matches!(b, Bound::None)));
-        }
-        false
+        !self.bound_sets.iter().any(is_bound_set_satisfiable)
     }
 }
diff --git a/crates/rez-next-version/src/range/parser.rs b/crates/rez-next-version/src/range/parser.rs
index 419e334..e44093a 100644
--- a/crates/rez-next-version/src/range/parser.rs
+++ b/crates/rez-next-version/src/range/parser.rs
@@ -9,32 +9,6 @@ pub(super) fn parse_range_str(s: &str) -> Result<Vec<BoundSet>, RezCoreError> {
     if s.is_empty() || s == "*" {
         return Ok(vec![BoundSet::any()]);
     }
-    if s == "empty" || s == "!*" {
-        return Ok(vec![BoundSet::none()]);
-    }
-
-    // Handle rez ".." interval syntax: "1.0..2.0" = ">=1.0,<2.0"
-    // Note: must check before splitting on |
-    if s.contains("..") && !s.starts_with('.') {
-        // Only handle if it's a simple "a..b" form (no | or other operators in the whole string)
-        if let Some(dot_pos) = s.find("..") {
-            let left = &s[..dot_pos];
-            let right = &s[dot_pos + 2..];
-            // Both sides must look like version strings (not empty operators)
-            if !left.is_empty()
-                && !right.is_empty()
-                && !left.starts_with('>')
-                && !left.starts_with('<')
-                && !left.starts_with('=')
-                && !left.starts_with('!')
-                && !left.starts_with('~')
-            {
-                // "left..right" -> ">=left,<right"
-                let new_s = format!(">={},<{}", left.trim(), right.trim());
-                return parse_range_str(&new_s);
-            }
-        }
-    }
 
     // Split on | for OR (union)
     let or_parts: Vec<&str> = s.split('|').collect();
@@ -54,6 +28,18 @@ pub(super) fn parse_conjunction(s: &str) -> Result<BoundSet, RezCoreError> {
     if s.is_empty() || s == "*" {
         return Ok(BoundSet::any());
     }
+    if s == "empty" || s == "!*" {
+        return Ok(BoundSet::none());
+    }
+
+    // Handle rez ".." interval syntax: "1.0..2.0" = ">=1.0,<2.0"
+    if let Some((left, right)) = s.split_once("..") {
+        let (left, right) = (left.trim(), right.trim());
+        // Both sides must look like version strings (not empty operators)
+        if !left.is_empty() && !right.is_empty() && !left.starts_with(['>', '<', '=', '!', '~']) {
+            return parse_conjunction(&format!(">={left},<{right}"));
+        }
+    }
 
     // Handle rez shorthand: "1.0+" = ">=1.0"
     // Handle rez shorthand: "1.0+<2.0" = ">=1.0,<2.0"
diff --git a/crates/rez-next-version/src/range/satisfiability.rs b/crates/rez-next-version/src/range/satisfiability.rs
index df6dceb..dd652d4 100644
--- a/crates/rez-next-version/src/range/satisfiability.rs
+++ b/crates/rez-next-version/src/range/satisfiability.rs
@@ -1,193 +1,42 @@
 //! Satisfiability checking for version range `BoundSet`s.
 
 use super::super::Version;
-use super::types::{Bound, BoundSet};
-
-/// Check if a single `BoundSet` is satisfiable (not trivially empty due to conflicting bounds)
-pub(super) fn is_bound_set_satisfiable(bs: &BoundSet) -> bool {
-    // Check for None bounds
-    if bs.bounds.iter().any(|b| matches!(b, Bound::None)) {
-        return false;
-    }
-    // Extract lower and upper bounds to check for contradiction
-    let mut lower: Option<(&Version, bool)> = None; // (version, inclusive)
-    let mut upper: Option<(&Version, bool)> = None; // (version, inclusive)
-
-    for bound in &bs.bounds {
-        match bound {
-            Bound::Any | Bound::Ne(_) | Bound::Compatible(_) => {}
-            Bound::None => return false,
-            Bound::Ge(v) => match lower {
-                None => lower = Some((v, true)),
-                Some((lv, linc)) => {
-                    if v > lv || (v == lv && !linc) {
-                        lower = Some((v, true));
-                    }
-                }
-            },
-            Bound::Gt(v) => match lower {
-                None => lower = Some((v, false)),
-                Some((lv, _)) => {
-                    if v >= lv {
-                        lower = Some((v, false));
-                    }
-                }
-            },
-            Bound::Le(v) => match upper {
-                None => upper = Some((v, true)),
-                Some((uv, uinc)) => {
-                    if v < uv || (v == uv && !uinc) {
-                        upper = Some((v, true));
-                    }
-                }
-            },
-            Bound::Lt(v) => match upper {
-                None => upper = Some((v, false)),
-                Some((uv, _)) => {
-                    if v <= uv {
-                        upper = Some((v, false));
-                    }
-                }
-            },
-            Bound::Eq(v) => {
-                // Equality constraint acts as both lower and upper bound
-                match lower {
-                    None => lower = Some((v, true)),
-                    Some((lv, linc)) => {
-                        if v > lv || (v == lv && !linc) {
-                            lower = Some((v, true));
-                        } else if v < lv {
-                            // v must be >= lv but eq requires v exactly — contradiction
-                            return false;
-                        }
-                    }
-                }
-                match upper {
-                    None => upper = Some((v, true)),
-                    Some((uv, uinc)) => {
-                        if v < uv || (v == uv && !uinc) {
-                            upper = Some((v, true));
-                        } else if v > uv {
-                            return false;
-                        }
-                    }
-                }
-            }
-        }
-    }
-
-    // Check if lower and upper bounds are compatible
-    if let (Some((lv, linc)), Some((uv, uinc))) = (lower, upper) {
-        match lv.cmp(uv) {
-            std::cmp::Ordering::Greater => return false,
-            std::cmp::Ordering::Equal => {
-                if !linc || !uinc {
-                    return false;
-                }
-            }
-            std::cmp::Ordering::Less => {}
-        }
-    }
-
-    true
-}
-
-/// Check if two `BoundSet`s can simultaneously be satisfied (have intersection)
-pub(super) fn bound_sets_intersect(a: &BoundSet, b: &BoundSet) -> bool {
-    // Quick check: if either is Any, they intersect
-    let a_any = a.bounds.iter().all(|bnd| matches!(bnd, Bound::Any));
-    let b_any = b.bounds.iter().all(|bnd| matches!(bnd, Bound::Any));
-    if a_any || b_any {
-        return true;
-    }
-
-    // Combine all bounds and check for structural impossibilities
-    let combined_bounds: Vec<&Bound> = a.bounds.iter().chain(b.bounds.iter()).collect();
-
-    // Check for obvious impossibilities: Eq(v) and Eq(w) where v != w
-    let eq_versions: Vec<&Version> = combined_bounds
+use super::types::BoundSet;
+
+/// One version from every region in which membership in the given ranges is constant.
+///
+/// Membership can only change at a version named by a bound, so the named
+/// versions themselves plus one version from every gap between them (and from
+/// below the smallest) decide any question about the ranges as sets.
+pub(super) fn probe_versions(ranges: &[&[BoundSet]]) -> Vec<Version> {
+    let mut named: Vec<Version> = ranges
         .iter()
-        .filter_map(|b| if let Bound::Eq(v) = b { Some(v) } else { None })
+        .flat_map(|sets| sets.iter())
+        .flat_map(|set| set.bounds.iter())
+        .flat_map(|bound| bound.named_versions())
         .collect();
-    if eq_versions.len() > 1 {
-        let first = eq_versions[0];
-        if eq_versions.iter().any(|v| *v != first) {
-            return false;
-        }
-    }
-
-    // Check Eq(v) against inequality bounds: Eq(v) ∩ Ge(w) = ∅ when v < w,
-    // Eq(v) ∩ Gt(w) = ∅ when v <= w, Eq(v) ∩ Le(w) = ∅ when v > w,
-    // Eq(v) ∩ Lt(w) = ∅ when v >= w.
-    for eq_v in &eq_versions {
-        for bound in &combined_bounds {
-            match bound {
-                Bound::Ge(w) if *eq_v < w => return false,
-                Bound::Gt(w) if *eq_v <= w => return false,
-                Bound::Le(w) if *eq_v > w => return false,
-                Bound::Lt(w) if *eq_v >= w => return false,
-                _ => {}
-            }
-        }
-    }
-
-    // Compute effective lower and upper bounds from combined set
-    // Lower bound: maximum of all lower bounds (most restrictive)
-    // Upper bound: minimum of all upper bounds (most restrictive)
-    let mut lower: Option<(&Version, bool)> = None; // (version, inclusive)
-    let mut upper: Option<(&Version, bool)> = None; // (version, inclusive)
-
-    for bound in &combined_bounds {
-        match bound {
-            Bound::Ge(v) => match lower {
-                None => lower = Some((v, true)),
-                Some((lv, linc)) => {
-                    if v > lv || (v == lv && !linc) {
-                        lower = Some((v, true));
-                    }
-                }
-            },
-            Bound::Gt(v) => match lower {
-                None => lower = Some((v, false)),
-                Some((lv, _linc)) => {
-                    if v >= lv {
-                        lower = Some((v, false));
-                    }
-                }
-            },
-            Bound::Le(v) => match upper {
-                None => upper = Some((v, true)),
-                Some((uv, uinc)) => {
-                    if v < uv || (v == uv && !uinc) {
-                        upper = Some((v, true));
-                    }
-                }
-            },
-            Bound::Lt(v) => match upper {
-                None => upper = Some((v, false)),
-                Some((uv, _uinc)) => {
-                    if v <= uv {
-                        upper = Some((v, false));
-                    }
-                }
-            },
-            _ => {}
-        }
-    }
-
-    // Check if lower bound and upper bound are compatible
-    if let (Some((lv, linc)), Some((uv, uinc))) = (lower, upper) {
-        match lv.cmp(uv) {
-            std::cmp::Ordering::Greater => return false,
-            std::cmp::Ordering::Equal => {
-                // Equal bounds only feasible if both inclusive
-                if !linc || !uinc {
-                    return false;
-                }
-            }
-            std::cmp::Ordering::Less => {} // feasible
+    named.sort();
+    named.dedup();
+
+    let depth = named.iter().map(Version::len).max().unwrap_or(0);
+    let mut probes = vec![Version::empty()];
+    match named.iter().find(|v| !v.is_empty() && !v.is_inf()) {
+        Some(smallest) => probes.push(smallest.padded(depth, "A")),
+        None => probes.push(Version::empty().padded(0, "1")),
+    }
+    for version in &named {
+        if !version.is_empty() && !version.is_inf() {
+            // Just above `version`, below every larger named version
+            probes.push(version.padded(depth, "1"));
         }
     }
+    probes.extend(named);
+    probes
+}
 
-    true
+/// Check if a single `BoundSet` is satisfiable (at least one version matches)
+pub(super) fn is_bound_set_satisfiable(bs: &BoundSet) -> bool {
+    probe_versions(&[std::slice::from_ref(bs)])
+        .iter()
+        .any(|v| bs.contains(v))
 }
diff --git a/crates/rez-next-version/src/range/types.rs b/crates/rez-next-version/src/range/types.rs
index 4423ba0..ffe6b99 100644
--- a/crates/rez-next-version/src/range/types.rs
+++ b/crates/rez-next-version/src/range/types.rs
@@ -65,38 +65,82 @@ pub(super) fn bound_matches(bound: &Bound, version: &Version) -> bool {
         Bound::Eq(v) => version == v,
         Bound::Ne(v) => version != v,
         Bound::Compatible(v) => {
-            // ~=v means >=v AND <upper_bound(v) (PEP 440 / rez semantics)
-            // For 2 segments: ~=X.Y -> >=X.Y,<(X+1).0
-            // For 3+ segments: ~=X.Y.Z -> >=X.Y.Z,<X.(Y+1).0
-            if version < v {
-                return false; // Must be >= v (lower bound)
-            }
-            let parts: Vec<&str> = v.as_str().split('.').collect();
-            if parts.len() < 2 {
-                return version >= v;
-            }
-            // Calculate upper bound
-            let upper_str = if parts.len() == 2 {
-                // X.Y -> (X+1).0
-                if let Ok(x) = parts[0].parse::<u64>() {
-                    format!("{}.0", x + 1)
-                } else {
-                    return true;
-                }
-            } else {
-                // X.Y.Z... -> X.(Y+1).0
-                if let Ok(y) = parts[1].parse::<u64>() {
-                    format!("{}.{}.0", parts[0], y + 1)
-                } else {
-                    return true;
-                }
-            };
-            if let Ok(upper) = Version::parse(&upper_str) {
-                version < &upper
-            } else {
-                // Fallback: just check >= v
-                version >= v
+            version >= v && compatible_upper(v).is_none_or(|upper| version < &upper)
+        }
+    }
+}
+
+/// The exclusive upper bound of `~=v` (PEP 440 / rez semantics), if there is one.
+/// For 2 segments: ~=X.Y -> >=X.Y,<(X+1).0
+/// For 3+ segments: ~=X.Y.Z -> >=X.Y.Z,<X.(Y+1).0
+fn compatible_upper(v: &Version) -> Option<Version> {
+    let parts: Vec<&str> = v.as_str().split('.').collect();
+    let upper_str = match parts.len() {
+        0 | 1 => return None,
+        2 => format!("{}.0", parts[0].parse::<u64>().ok()?.checked_add(1)?),
+        _ => format!(
+            "{}.{}.0",
+            parts[0],
+            parts[1].parse::<u64>().ok()?.checked_add(1)?
+        ),
+    };
+    Version::parse(&upper_str).ok()
+}
+
+impl Bound {
+    /// The versions at which membership in this bound can change
+    pub(super) fn named_versions(&self) -> Vec<Version> {
+        match self {
+            Bound::Ge(v)
+            | Bound::Gt(v)
+            | Bound::Le(v)
+            | Bound::Lt(v)
+            | Bound::Eq(v)
+            | Bound::Ne(v) => vec![v.clone()],
+            Bound::Compatible(v) => std::iter::once(v.clone())
+                .chain(compatible_upper(v))
+                .collect(),
+            Bound::Any | Bound::None => Vec::new(),
+        }
+    }
+
+    /// Bounds whose disjunction matches exactly the versions this bound does not
+    pub(super) fn negated(&self) -> Vec<Bound> {
+        match self {
+            Bound::Ge(v) => vec![Bound::Lt(v.clone())],
+            Bound::Gt(v) => vec![Bound::Le(v.clone())],
+            Bound::Le(v) => vec![Bound::Gt(v.clone())],
+            Bound::Lt(v) => vec![Bound::Ge(v.clone())],
+            Bound::Eq(v) => vec![Bound::Ne(v.clone())],
+            Bound::Ne(v) => vec![Bound::Eq(v.clone())],
+            Bound::Compatible(v) => std::iter::once(Bound::Lt(v.clone()))
+                .chain(compatible_upper(v).map(Bound::Ge))
+                .collect(),
+            Bound::Any => Vec::new(),
+            Bound::None => vec![Bound::Any],
+        }
+    }
+}
+
+impl std::fmt::Display for BoundSet {
+    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
+        let mut parts = Vec::new();
+        for bound in &self.bounds {
+            match bound {
+                Bound::Ge(v) => parts.push(format!(">={}", v.as_str())),
+                Bound::Gt(v) => parts.push(format!(">{}", v.as_str())),
+                Bound::Le(v) => parts.push(format!("<={}", v.as_str())),
+                Bound::Lt(v) => parts.push(format!("<{}", v.as_str())),
+                Bound::Eq(v) => parts.push(format!("=={}", v.as_str())),
+                Bound::Ne(v) => parts.push(format!("!={}", v.as_str())),
+                Bound::Compatible(v) => parts.push(format!("~={}", v.as_str())),
+                Bound::Any => {}
+                Bound::None => return f.write_str("!*"),
             }
         }
+        if parts.is_empty() {
+            return f.write_str("*");
+        }
+        f.write_str(&parts.join(","))
     }
 }
diff --git a/crates/rez-next-version/src/version.rs b/crates/rez-next-version/src/version.rs
index 902b7ab..38d24b7 100644
--- a/crates/rez-next-version/src/version.rs
+++ b/crates/rez-next-version/src/version.rs
@@ -226,6 +226,21 @@ impl Version {
         self.tokens.len()
     }
 
+    /// This version extended with `0` tokens up to `depth` tokens and then `last`
+    pub(crate) fn padded(&self, depth: usize, last: &str) -> Self {
+        let mut tokens = self.tokens.clone();
+        while tokens.len() < depth {
+            tokens.push("0".to_string());
+        }
+        tokens.push(last.to_string());
+        Self {
+            separators: vec![".".to_string(); tokens.len() - 1],
+            string_repr: tokens.join("."),
+            tokens,
+            cached_hash: None,
+        }
+    }
+
     /// Get the major version component (first token as u64), if available
     pub fn major(&self) -> Option<u64> {
         self.tokens.first().and_then(|t| t.parse::<u64>().ok())
@@ -459,8 +474,8 @@ impl Hash for Version {
             return;
         }
         let is_zero = |token: &String| token.bytes().all(|b| b == b'0');
-        let significant = self.tokens.len()
-            - self.tokens.iter().rev().take_while(|t| is_zero(t)).count();
+        let significant =
+            self.tokens.len() - self.tokens.iter().rev().take_while(|t| is_zero(t)).count();
         for token in &self.tokens[..significant] {
             for segment in Self::split_token_segments(token) {
                 if Self::is_numeric(&segment) {
-- 
2.43.0


From 132fe4cd0fd765ae4d555d538cbf2e03baecb4f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:34 +0000
Subject: [PATCH 03/56] fix: a resolve honours exclusions found late and always
 ends

A conflict requirement introduced after the package it excludes was selected
was ignored, and packages that keep exchanging each other looped forever.
---
 crates/rez-next-solver/src/dependency_resolver.rs | 8 ++++++++
 crates/rez-next-solver/src/resolution_state.rs    | 6 ++++++
 2 files changed, 14 insertions(+)

diff --git a/crates/rez-next-solver/src/dependency_resolver.rs b/crates/rez-next-solver/src/dependency_resolver.rs
index 9bb4007..c190ff1 100644
--- a/crates/rez-next-solver/src/dependency_resolver.rs
+++ b/crates/rez-next-solver/src/dependency_resolver.rs
@@ -189,6 +189,14 @@ impl DependencyResolver {
     ) -> Result<Vec<ResolvedPackageInfo>, RezCoreError> {
         // Get next requirement to resolve
         while let Some(requirement) = state.get_next_requirement() {
+            // Mutually exclusive requirements can exchange the same packages forever
+            if state.replacements > self.config.max_attempts {
+                return Err(RezCoreError::Solver(format!(
+                    "No stable selection found after {} attempts (at requirement {requirement})",
+                    self.config.max_attempts
+                )));
+            }
+
             // Check if we already have a package that satisfies this requirement
             if let Some(existing) = state.find_satisfying_package(&requirement) {
                 // Mark this requirement as satisfied
diff --git a/crates/rez-next-solver/src/resolution_state.rs b/crates/rez-next-solver/src/resolution_state.rs
index 638fda0..31cf497 100644
--- a/crates/rez-next-solver/src/resolution_state.rs
+++ b/crates/rez-next-solver/src/resolution_state.rs
@@ -51,6 +51,9 @@ pub(crate) struct ResolutionState {
     pub(crate) packages_considered: usize,
     pub(crate) variants_evaluated: usize,
     pub(crate) backtrack_steps: usize,
+
+    /// How often an already selected package was exchanged for another version
+    pub(crate) replacements: usize,
 }
 
 impl ResolutionState {
@@ -78,6 +81,7 @@ impl ResolutionState {
             packages_considered: 0,
             variants_evaluated: 0,
             backtrack_steps: 0,
+            replacements: 0,
         };
         state.rebuild_constraints();
         state
@@ -310,6 +314,7 @@ impl ResolutionState {
                     .version
                     .as_ref()
                     .is_none_or(|v| requirement.is_satisfied_by(v))
+                && self.check_explicit_conflicts(&pkg.package).is_none()
         })
     }
 
@@ -365,6 +370,7 @@ impl ResolutionState {
             .find(|existing| existing.package.name == package.package.name)
         {
             *existing = package;
+            self.replacements += 1;
         } else {
             self.resolved_packages.push(package);
         }
-- 
2.43.0


From 2092fd38730fe36e67fb7efd7bd5cf653de87727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:34 +0000
Subject: [PATCH 04/56] fix: solver requests honour their constraints and
 excluded packages

---
 crates/rez-next-solver/src/solver.rs | 29 ++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/crates/rez-next-solver/src/solver.rs b/crates/rez-next-solver/src/solver.rs
index 020c9d2..5e06057 100644
--- a/crates/rez-next-solver/src/solver.rs
+++ b/crates/rez-next-solver/src/solver.rs
@@ -208,16 +208,25 @@ impl DependencySolver {
                 .map_err(|e| RezCoreError::Solver(format!("Failed to create runtime: {}", e)))?;
 
             // Convert PackageRequirement -> Requirement via string parsing
-            let requirements: Vec<Requirement> = request
-                .requirements
-                .into_iter()
-                .map(|pr| {
-                    let req_str = pr.to_string();
-                    req_str
-                        .parse::<Requirement>()
-                        .unwrap_or_else(|_| Requirement::new(pr.name.clone()))
-                })
-                .collect();
+            let parse = |pr: &PackageRequirement| {
+                pr.to_string()
+                    .parse::<Requirement>()
+                    .unwrap_or_else(|_| Requirement::new(pr.name.clone()))
+            };
+            let mut requirements: Vec<Requirement> =
+                request.requirements.iter().map(parse).collect();
+            // Constraints narrow a package that is otherwise part of the solve
+            requirements.extend(request.constraints.iter().map(|constraint| {
+                let mut requirement = parse(constraint);
+                requirement.weak = !requirement.conflict;
+                requirement
+            }));
+            // Excluded packages must not be part of the solve at all
+            requirements.extend(request.excludes.iter().map(|name| {
+                let mut requirement = Requirement::new(name.clone());
+                requirement.conflict = true;
+                requirement
+            }));
 
             let mut resolver =
                 DependencyResolver::new(Arc::clone(repo_manager), self.config.clone());
-- 
2.43.0


From ac8652156406535349595713490066a5e8ab6faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:34 +0000
Subject: [PATCH 05/56] fix: a requirement compares versions in the version
 order

A shorter version satisfied any deeper constraint (2 satisfied ==2.0.1), and
tokens that are not small numbers were compared as text.
---
 .../rez-next-package/src/requirement/types.rs | 27 +------------------
 crates/rez-next-version/src/version.rs        | 10 +++++++
 2 files changed, 11 insertions(+), 26 deletions(-)

diff --git a/crates/rez-next-package/src/requirement/types.rs b/crates/rez-next-package/src/requirement/types.rs
index 90c1d2f..0898ecc 100644
--- a/crates/rez-next-package/src/requirement/types.rs
+++ b/crates/rez-next-package/src/requirement/types.rs
@@ -326,32 +326,7 @@ impl VersionConstraint {
     /// Rez semantics: constraints with fewer tokens are compared only at the token depth
     /// of the constraint.
     pub fn cmp_at_depth(version: &Version, constraint_ver: &Version) -> std::cmp::Ordering {
-        let ver_str = version.as_str();
-        let con_str = constraint_ver.as_str();
-
-        let ver_parts: Vec<&str> = ver_str.split('.').collect();
-        let con_parts: Vec<&str> = con_str.split('.').collect();
-
-        let depth = con_parts.len();
-
-        for (v_tok, c_tok) in ver_parts.iter().zip(con_parts.iter()).take(depth) {
-            let v_tok = *v_tok;
-            let c_tok = *c_tok;
-
-            if let (Ok(vn), Ok(cn)) = (v_tok.parse::<u64>(), c_tok.parse::<u64>()) {
-                match vn.cmp(&cn) {
-                    std::cmp::Ordering::Equal => continue,
-                    ord => return ord,
-                }
-            } else {
-                match v_tok.cmp(c_tok) {
-                    std::cmp::Ordering::Equal => continue,
-                    ord => return ord,
-                }
-            }
-        }
-
-        std::cmp::Ordering::Equal
+        version.cmp_at_depth_of(constraint_ver)
     }
 
     /// Combine two constraints with AND logic
diff --git a/crates/rez-next-version/src/version.rs b/crates/rez-next-version/src/version.rs
index 38d24b7..d96b656 100644
--- a/crates/rez-next-version/src/version.rs
+++ b/crates/rez-next-version/src/version.rs
@@ -70,6 +70,16 @@ impl Version {
                     Self::compare_single_token(token, prefix_token) == Ordering::Equal
                 })
     }
+
+    /// Compare with `other` looking only at as many tokens as `other` has
+    /// (a missing token counts as `0`).
+    pub fn cmp_at_depth_of(&self, other: &Version) -> Ordering {
+        if self.tokens.is_empty() || other.tokens.is_empty() {
+            return self.cmp(other);
+        }
+        let depth = self.tokens.len().min(other.tokens.len());
+        Self::compare_token_strings(&self.tokens[..depth], &other.tokens)
+    }
 }
 
 impl Version {
-- 
2.43.0


From d8b545f45922aea16536fad5e4830d9094132a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:21 +0000
Subject: [PATCH 06/56] fix: repository lookups do not depend on earlier
 lookups

A family with one unreadable version failed on the first lookup and then
succeeded without it; an interrupted scan left a partial listing behind.
---
 .../rez-next-repository/src/simple_repository.rs  | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/crates/rez-next-repository/src/simple_repository.rs b/crates/rez-next-repository/src/simple_repository.rs
index 348fcfe..46c1009 100644
--- a/crates/rez-next-repository/src/simple_repository.rs
+++ b/crates/rez-next-repository/src/simple_repository.rs
@@ -63,11 +63,14 @@ impl SimpleRepository {
     pub async fn scan(&self) -> Result<(), RezCoreError> {
         let mut cache = self.package_cache.write().await;
         let mut errors = self.package_errors.write().await;
-        cache.clear();
-        errors.clear();
 
-        self.scan_directory(&self.root_path, &mut cache, &mut errors)
+        // Only a complete scan replaces what is known
+        let mut found = HashMap::new();
+        let mut failed = HashMap::new();
+        self.scan_directory(&self.root_path, &mut found, &mut failed)
             .await?;
+        *cache = found;
+        *errors = failed;
 
         Ok(())
     }
@@ -142,15 +145,15 @@ impl SimpleRepository {
 impl PackageRepository for SimpleRepository {
     async fn find_packages(&self, name: &str) -> Result<Vec<Arc<Package>>, RezCoreError> {
         // Check cache first
+        if let Some(error) = self.package_errors.read().await.get(name) {
+            return Err(RezCoreError::Repository(error.clone()));
+        }
         {
             let cache = self.package_cache.read().await;
             if let Some(packages) = cache.get(name) {
                 return Ok(packages.clone());
             }
         }
-        if let Some(error) = self.package_errors.read().await.get(name) {
-            return Err(RezCoreError::Repository(error.clone()));
-        }
 
         // If not in cache, scan and try again
         self.scan().await?;
-- 
2.43.0


From e47ebd16259eae4afe7863324aaaed5069bcac67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:28 +0000
Subject: [PATCH 07/56] fix: requirements keep their meaning when printed and
 read back

!= was not understood, a simple requirement with an operator printed a text
naming another package, architecture conditions were dropped and negated
existence conditions lost their negation; odd text could panic.
---
 .../src/package/requirement.rs                | 14 +++++++--
 .../src/requirement/display.rs                |  1 +
 .../src/requirement/parser.rs                 | 29 +++++++------------
 3 files changed, 23 insertions(+), 21 deletions(-)

diff --git a/crates/rez-next-package/src/package/requirement.rs b/crates/rez-next-package/src/package/requirement.rs
index cdb92cd..9d1be47 100644
--- a/crates/rez-next-package/src/package/requirement.rs
+++ b/crates/rez-next-package/src/package/requirement.rs
@@ -22,7 +22,12 @@ pub struct PackageRequirement {
 impl std::fmt::Display for PackageRequirement {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
         let base = if let Some(ref version) = self.version_spec {
-            format!("{}-{}", self.name, version)
+            // `name-1.0`, but `name>=1.0`: an operator follows the name directly
+            if version.starts_with(['>', '<', '=', '!', '~']) {
+                format!("{}{}", self.name, version)
+            } else {
+                format!("{}-{}", self.name, version)
+            }
         } else {
             self.name.clone()
         };
@@ -84,7 +89,12 @@ impl PackageRequirement {
         };
 
         let parsed: ParsedRequirement = s.parse().map_err(RezCoreError::RequirementParse)?;
-        let remainder = &s[parsed.name.len()..];
+        let s = s.trim();
+        let s = match &parsed.namespace {
+            Some(namespace) => &s[namespace.len() + 2..],
+            None => s,
+        };
+        let remainder = s.get(parsed.name.len()..).unwrap_or("");
         let version_spec = remainder.strip_prefix('-').unwrap_or(remainder);
         let mut req = if version_spec.is_empty() {
             Self::new(parsed.name)
diff --git a/crates/rez-next-package/src/requirement/display.rs b/crates/rez-next-package/src/requirement/display.rs
index 9b41d13..d4931b7 100644
--- a/crates/rez-next-package/src/requirement/display.rs
+++ b/crates/rez-next-package/src/requirement/display.rs
@@ -48,6 +48,7 @@ impl fmt::Display for EnvCondition {
         let op = if self.negate { "!=" } else { "==" };
         match &self.expected_value {
             Some(value) => write!(f, "env.{}{}'{}'", self.var_name, op, value),
+            None if self.negate => write!(f, "env.{}!=None", self.var_name),
             None => write!(f, "env.{}", self.var_name),
         }
     }
diff --git a/crates/rez-next-package/src/requirement/parser.rs b/crates/rez-next-package/src/requirement/parser.rs
index c32b5e0..12aad9c 100644
--- a/crates/rez-next-package/src/requirement/parser.rs
+++ b/crates/rez-next-package/src/requirement/parser.rs
@@ -106,21 +106,10 @@ impl RequirementParser {
             let platform =
                 condition[platform_start + 1..platform_start + 1 + platform_end].to_string();
 
-            let arch = if condition.contains("arch") {
-                if let Some(arch_start) = condition.rfind('\'') {
-                    if arch_start > platform_start + 1 + platform_end {
-                        condition[arch_start + 1..].find('\'').map(|arch_end| {
-                            condition[arch_start + 1..arch_start + 1 + arch_end].to_string()
-                        })
-                    } else {
-                        None
-                    }
-                } else {
-                    None
-                }
-            } else {
-                None
-            };
+            let arch = condition[platform_start + 1 + platform_end + 1..]
+                .split_once("arch")
+                .and_then(|(_, rest)| rest.split('\'').nth(1))
+                .map(str::to_string);
 
             return Ok(PlatformCondition {
                 platform,
@@ -140,7 +129,7 @@ impl RequirementParser {
             let var_part = &condition[var_start + 4..];
 
             if let Some(op_pos) = var_part.find("==").or_else(|| var_part.find("!=")) {
-                let var_name = var_part[..op_pos].to_string();
+                let var_name = var_part[..op_pos].trim().to_string();
                 let value_part = &var_part[op_pos + 2..];
 
                 let expected_value = if value_part.trim() == "None" {
@@ -162,7 +151,7 @@ impl RequirementParser {
                 });
             } else {
                 return Ok(EnvCondition {
-                    var_name: var_part.to_string(),
+                    var_name: var_part.trim().to_string(),
                     expected_value: None,
                     negate,
                 });
@@ -201,6 +190,7 @@ impl RequirementParser {
 
             let constraint = match op {
                 "==" => VersionConstraint::Exact(version),
+                "!=" => VersionConstraint::Exclude(vec![version]),
                 ">" => VersionConstraint::GreaterThan(version),
                 ">=" => VersionConstraint::GreaterThanOrEqual(version),
                 "<" => VersionConstraint::LessThan(version),
@@ -307,7 +297,7 @@ impl RequirementParser {
     /// Parse a single version constraint
     fn parse_single_constraint(&self, constraint_str: &str) -> Result<VersionConstraint, String> {
         let constraint_str = constraint_str.trim();
-        let version_pattern = Regex::new(r"^(==|>=|<=|>|<|~=)(.+)$").unwrap();
+        let version_pattern = Regex::new(r"^(==|!=|>=|<=|>|<|~=)(.+)$").unwrap();
 
         if let Some(captures) = version_pattern.captures(constraint_str) {
             let op = captures.get(1).unwrap().as_str();
@@ -317,6 +307,7 @@ impl RequirementParser {
 
             match op {
                 "==" => Ok(VersionConstraint::Exact(version)),
+                "!=" => Ok(VersionConstraint::Exclude(vec![version])),
                 ">" => Ok(VersionConstraint::GreaterThan(version)),
                 ">=" => Ok(VersionConstraint::GreaterThanOrEqual(version)),
                 "<" => Ok(VersionConstraint::LessThan(version)),
@@ -333,7 +324,7 @@ impl RequirementParser {
 impl RequirementPatterns {
     fn new() -> Self {
         Self {
-            basic_version: Regex::new(r"^([a-zA-Z0-9_\-\.]+)(==|>=|<=|>|<|~=)(.+)$").unwrap(),
+            basic_version: Regex::new(r"^([a-zA-Z0-9_\-\.]+)(==|!=|>=|<=|>|<|~=)(.+)$").unwrap(),
             namespace: Regex::new(r"^([a-zA-Z0-9_\-\.]+)::([a-zA-Z0-9_\-\.]+.*)$").unwrap(),
             wildcard: Regex::new(r"^([a-zA-Z0-9_\-\.]+)==(.+\*.*)$").unwrap(),
         }
-- 
2.43.0


From 74d147c28a9d4bff797ded642d0aea2c61f61cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:17 +0000
Subject: [PATCH 08/56] fix: package families and dry-run counts agree with
 what removal does

---
 .../src/package_repository/filesystem.rs             | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/crates/rez-next-repository/src/package_repository/filesystem.rs b/crates/rez-next-repository/src/package_repository/filesystem.rs
index 7553fef..81bd4b5 100644
--- a/crates/rez-next-repository/src/package_repository/filesystem.rs
+++ b/crates/rez-next-repository/src/package_repository/filesystem.rs
@@ -159,6 +159,14 @@ impl PackageRepository for FilesystemPackageRepository {
         &self,
         name: &str,
     ) -> Result<Option<PackageFamilyResource>, RezCoreError> {
+        // Names that `iter_package_families` never lists are not families
+        if Self::validate_component(name, "package name").is_err()
+            || name.starts_with('.')
+            || name.starts_with('_')
+        {
+            return Ok(None);
+        }
+
         // Check if directory <location>/<name> exists
         let family_path = self.location.join(name);
 
@@ -497,6 +505,10 @@ impl PackageRepository for FilesystemPackageRepository {
                 if version.is_empty() || !entry.path().is_file() {
                     continue;
                 }
+                // Nothing to remove: the payload is already gone
+                if !family.path().join(version).is_dir() {
+                    continue;
+                }
                 let metadata = entry.metadata().map_err(|e| {
                     RezCoreError::Repository(format!(
                         "Failed to read ignore marker '{}': {e}",
-- 
2.43.0


From 5d4eb74259be2abad61d5421769023bbd2567b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:17 +0000
Subject: [PATCH 09/56] fix: every repository view honours ignore markers and
 literal names

---
 crates/rez-next-repository/src/filesystem.rs  | 42 ++++++++++++-------
 .../rez-next-repository/src/scanner/path.rs   | 16 +++----
 .../src/simple_repository.rs                  |  6 +++
 3 files changed, 41 insertions(+), 23 deletions(-)

diff --git a/crates/rez-next-repository/src/filesystem.rs b/crates/rez-next-repository/src/filesystem.rs
index 5e6d6ff..4e5c7d1 100644
--- a/crates/rez-next-repository/src/filesystem.rs
+++ b/crates/rez-next-repository/src/filesystem.rs
@@ -100,14 +100,6 @@ impl Repository for FileSystemRepository {
             )));
         }
 
-        // Clear existing cache
-        {
-            let mut package_cache = self.package_cache.write().await;
-            let mut variant_cache = self.variant_cache.write().await;
-            package_cache.clear();
-            variant_cache.clear();
-        }
-
         // Scan for packages
         let scan_result = self.scan_packages().await?;
 
@@ -144,7 +136,11 @@ impl Repository for FileSystemRepository {
         let package_cache = self.package_cache.read().await;
         let mut results = Vec::new();
 
-        for (package_name, versions) in package_cache.iter() {
+        // A limit must not make the answer depend on the map order
+        let mut families: Vec<_> = package_cache.iter().collect();
+        families.sort_by_key(|(name, _)| *name);
+
+        for (package_name, versions) in families {
             // Check name pattern
             if let Some(ref pattern) = criteria.name_pattern
                 && !self.matches_pattern(package_name, pattern)
@@ -152,7 +148,9 @@ impl Repository for FileSystemRepository {
                 continue;
             }
 
-            for (_version_str, package) in versions.iter() {
+            let mut packages: Vec<_> = versions.values().collect();
+            packages.sort_by(|a, b| b.version.cmp(&a.version));
+            for package in packages {
                 // Check version range
                 if let Some(ref requirement) = criteria.version_requirement
                     && let Some(ref version) = package.version
@@ -208,7 +206,10 @@ impl Repository for FileSystemRepository {
 
         if let Some(versions) = package_cache.get(name) {
             match version {
-                Some(v) => Ok(versions.get(v.as_str()).cloned()),
+                Some(v) => Ok(versions
+                    .values()
+                    .find(|p| p.version.as_ref() == Some(v))
+                    .cloned()),
                 None => {
                     // Return the latest version
                     let mut version_packages: Vec<_> = versions.values().collect();
@@ -268,7 +269,7 @@ impl Repository for FileSystemRepository {
 
         if let Some(versions) = package_cache.get(name) {
             match version {
-                Some(v) => Ok(versions.contains_key(v.as_str())),
+                Some(v) => Ok(versions.values().any(|p| p.version.as_ref() == Some(v))),
                 None => Ok(!versions.is_empty()),
             }
         } else {
@@ -306,8 +307,9 @@ impl FileSystemRepository {
         let mut variant_count = 0;
         let mut size_bytes = 0;
 
-        let mut package_cache = self.package_cache.write().await;
-        let mut variant_cache = self.variant_cache.write().await;
+        // Only a complete scan replaces what is known
+        let mut package_cache = HashMap::new();
+        let mut variant_cache = HashMap::new();
 
         // Walk through the repository directory.
         // Expected layout: root/{family}/{version}/package.py
@@ -344,6 +346,11 @@ impl FileSystemRepository {
             if let Ok(mut version_entries) = fs::read_dir(&family_path).await {
                 while let Ok(Some(version_entry)) = version_entries.next_entry().await {
                     let version_path = version_entry.path();
+                    // Rez hides a version when a sibling `.ignore{version}` marker exists.
+                    let marker = format!(".ignore{}", version_entry.file_name().to_string_lossy());
+                    if family_path.join(marker).is_file() {
+                        continue;
+                    }
                     if version_path.is_dir()
                         && let Ok(scan_result) = self
                             .scan_package_directory(
@@ -362,6 +369,9 @@ impl FileSystemRepository {
             }
         }
 
+        *self.package_cache.write().await = package_cache;
+        *self.variant_cache.write().await = variant_cache;
+
         Ok(ScanResult {
             package_count,
             version_count,
@@ -460,7 +470,9 @@ impl FileSystemRepository {
         }
 
         // Simple wildcard matching (supports * and ?)
-        let regex_pattern = pattern.replace("*", ".*").replace("?", ".");
+        let regex_pattern = regex::escape(pattern)
+            .replace("\\*", ".*")
+            .replace("\\?", ".");
 
         if let Ok(regex) = regex::Regex::new(&format!("^{}$", regex_pattern)) {
             regex.is_match(text)
diff --git a/crates/rez-next-repository/src/scanner/path.rs b/crates/rez-next-repository/src/scanner/path.rs
index 6b31d73..40d39a7 100644
--- a/crates/rez-next-repository/src/scanner/path.rs
+++ b/crates/rez-next-repository/src/scanner/path.rs
@@ -19,11 +19,11 @@ impl RepositoryScanner {
     /// - all other regex metacharacters are escaped
     pub(super) fn glob_to_regex(pattern: &str) -> Option<regex::Regex> {
         const DOUBLE_STAR_PLACEHOLDER: &str = "\x00DS\x00";
-        let re_pattern = pattern
-            .replace("**", DOUBLE_STAR_PLACEHOLDER)
-            .replace('*', "[^/]*")
+        let re_pattern = regex::escape(pattern)
+            .replace("\\*\\*", DOUBLE_STAR_PLACEHOLDER)
+            .replace("\\*", "[^/]*")
             .replace(DOUBLE_STAR_PLACEHOLDER, ".*")
-            .replace('?', ".");
+            .replace("\\?", ".");
         regex::Regex::new(&format!("^{}$", re_pattern)).ok()
     }
 
@@ -109,11 +109,11 @@ impl RepositoryScanner {
         // Use a placeholder for ** to prevent the subsequent * replacement from
         // corrupting the already-converted .* token.
         const DOUBLE_STAR_PLACEHOLDER: &str = "\x00DOUBLESTAR\x00";
-        let regex_pattern = pattern
-            .replace("**", DOUBLE_STAR_PLACEHOLDER)
-            .replace('*', "[^/]*")
+        let regex_pattern = regex::escape(pattern)
+            .replace("\\*\\*", DOUBLE_STAR_PLACEHOLDER)
+            .replace("\\*", "[^/]*")
             .replace(DOUBLE_STAR_PLACEHOLDER, ".*")
-            .replace('?', ".");
+            .replace("\\?", ".");
 
         if let Ok(regex) = regex::Regex::new(&format!("^{}$", regex_pattern)) {
             regex.is_match(&normalized_text)
diff --git a/crates/rez-next-repository/src/simple_repository.rs b/crates/rez-next-repository/src/simple_repository.rs
index 46c1009..e00d41e 100644
--- a/crates/rez-next-repository/src/simple_repository.rs
+++ b/crates/rez-next-repository/src/simple_repository.rs
@@ -90,6 +90,12 @@ impl SimpleRepository {
                 let path = entry.path();
 
                 if path.is_dir() {
+                    // Rez hides a version when a sibling `.ignore{version}` marker exists.
+                    let marker = format!(".ignore{}", entry.file_name().to_string_lossy());
+                    if dir_path.join(marker).is_file() {
+                        continue;
+                    }
+
                     // Check if this directory contains any supported package descriptor.
                     // Priority follows the canonical `REZ_PACKAGE_FILENAMES` order.
                     let pkg_file = REZ_PACKAGE_FILENAMES
-- 
2.43.0


From c3174fc20218186a16952f6b8140f589c3b9803d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:09 +0000
Subject: [PATCH 10/56] fix: searches and reverse dependencies see the packages
 there are

---
 .../rez-next-python/src/forward_bindings.rs   |  2 +-
 .../rez-next-repository/src/package_search.rs | 80 ++++++-------------
 .../src/simple_repository.rs                  | 12 +++
 crates/rez-next-search/src/searcher.rs        | 23 +++---
 src/cli/commands/depends.rs                   | 32 +++-----
 src/cli/commands/search_v2/filter.rs          | 15 +++-
 src/cli/commands/search_v2/matcher.rs         | 30 +++++--
 src/cli/commands/status.rs                    |  4 +-
 8 files changed, 101 insertions(+), 97 deletions(-)

diff --git a/crates/rez-next-python/src/forward_bindings.rs b/crates/rez-next-python/src/forward_bindings.rs
index dbe34da..297a7c1 100644
--- a/crates/rez-next-python/src/forward_bindings.rs
+++ b/crates/rez-next-python/src/forward_bindings.rs
@@ -105,7 +105,7 @@ pub fn resolve_forward_tool(
     }
 
     let packages = rt
-        .block_on(repo_manager.find_packages(""))
+        .block_on(repo_manager.find_all_packages())
         .map_err(|e| pyo3::exceptions::PyRuntimeError::new_err(e.to_string()))?;
 
     for pkg in &packages {
diff --git a/crates/rez-next-repository/src/package_search.rs b/crates/rez-next-repository/src/package_search.rs
index a4d5c43..06d72e0 100644
--- a/crates/rez-next-repository/src/package_search.rs
+++ b/crates/rez-next-repository/src/package_search.rs
@@ -106,30 +106,25 @@ pub fn get_plugins(package_name: &str, paths: Option<Vec<String>>) -> Vec<String
 
 /// Check if a package family is a plugin for the given package.
 fn is_plugin_for(family_path: &Path, target_package: &str) -> bool {
-    // Check version directories
-    if let Ok(entries) = std::fs::read_dir(family_path) {
-        for entry in entries.flatten() {
-            let version_path = entry.path();
-            if !version_path.is_dir() {
-                continue;
-            }
-
-            // Try to load package from this version
-            if let Some(pkg) = load_package_from_dir(&version_path) {
-                // Check plugin_for field (direct field on Package struct)
-                for plugin in &pkg.plugin_for {
-                    if plugin == target_package {
-                        return true;
-                    }
-                }
-            }
+    latest_package(family_path)
+        .is_some_and(|pkg| pkg.plugin_for.iter().any(|plugin| plugin == target_package))
+}
 
-            // Only check the first version
-            break;
+/// The highest version of a family that is not hidden by an `.ignore{version}` marker.
+fn latest_package(family_path: &Path) -> Option<Package> {
+    let mut latest: Option<Package> = None;
+    for entry in std::fs::read_dir(family_path).ok()?.flatten() {
+        let marker = format!(".ignore{}", entry.file_name().to_string_lossy());
+        if !entry.path().is_dir() || family_path.join(marker).is_file() {
+            continue;
+        }
+        if let Some(pkg) = load_package_from_dir(&entry.path())
+            && latest.as_ref().is_none_or(|l| pkg.version > l.version)
+        {
+            latest = Some(pkg);
         }
     }
-
-    false
+    latest
 }
 
 /// Load a package from a version directory.
@@ -265,39 +260,16 @@ fn package_depends_on(
     target_package: &str,
     include_build_requires: bool,
 ) -> bool {
-    // Check version directories
-    if let Ok(entries) = std::fs::read_dir(family_path) {
-        for entry in entries.flatten() {
-            let version_path = entry.path();
-            if !version_path.is_dir() {
-                continue;
-            }
-
-            // Try to load package from this version
-            if let Some(pkg) = load_package_from_dir(&version_path) {
-                // Check requires (direct field on Package struct)
-                for req in &pkg.requires {
-                    if req.contains(target_package) {
-                        return true;
-                    }
-                }
-
-                // Check build_requires if requested (direct field on Package struct)
-                if include_build_requires {
-                    for req in &pkg.build_requires {
-                        if req.contains(target_package) {
-                            return true;
-                        }
-                    }
-                }
-            }
-
-            // Only check the first version
-            break;
-        }
-    }
-
-    false
+    let Some(pkg) = latest_package(family_path) else {
+        return false;
+    };
+    let refers_to_target = |requirement: &String| {
+        requirement
+            .parse::<rez_next_package::Requirement>()
+            .is_ok_and(|r| !r.conflict && r.name == target_package)
+    };
+    pkg.requires.iter().any(refers_to_target)
+        || (include_build_requires && pkg.build_requires.iter().any(refers_to_target))
 }
 
 /// Get default package paths from environment or common locations.
diff --git a/crates/rez-next-repository/src/simple_repository.rs b/crates/rez-next-repository/src/simple_repository.rs
index e00d41e..ee92dc4 100644
--- a/crates/rez-next-repository/src/simple_repository.rs
+++ b/crates/rez-next-repository/src/simple_repository.rs
@@ -291,6 +291,18 @@ impl RepositoryManager {
         Ok(result)
     }
 
+    /// Find every package of every family that could be read
+    pub async fn find_all_packages(&self) -> Result<Vec<Arc<Package>>, RezCoreError> {
+        let mut all_packages = Vec::new();
+        for name in self.list_packages().await? {
+            // A broken family does not hide the others
+            if let Ok(packages) = self.find_packages(&name).await {
+                all_packages.extend(packages);
+            }
+        }
+        Ok(all_packages)
+    }
+
     /// Get the number of repositories
     pub fn repository_count(&self) -> usize {
         self.repositories.len()
diff --git a/crates/rez-next-search/src/searcher.rs b/crates/rez-next-search/src/searcher.rs
index 2192aec..2ca31f0 100644
--- a/crates/rez-next-search/src/searcher.rs
+++ b/crates/rez-next-search/src/searcher.rs
@@ -95,8 +95,7 @@ impl PackageSearcher {
                 format!("repo_{}", idx),
             )));
 
-            // Use empty string to get all packages from this repository
-            let all_packages = match repo_manager.find_packages("").await {
+            let all_packages = match repo_manager.find_all_packages().await {
                 Ok(pkgs) => pkgs,
                 Err(_) => continue,
             };
@@ -104,8 +103,10 @@ impl PackageSearcher {
             result_set.total_scanned += all_packages.len();
 
             // Group by family, applying name filter
-            let mut family_map: std::collections::HashMap<String, Vec<String>> =
-                std::collections::HashMap::new();
+            let mut family_map: std::collections::BTreeMap<
+                String,
+                Vec<Option<rez_next_version::Version>>,
+            > = std::collections::BTreeMap::new();
 
             for pkg in &all_packages {
                 if !self.options.filter.matches_name(&pkg.name) {
@@ -121,23 +122,23 @@ impl PackageSearcher {
                     continue;
                 }
 
-                let ver_str = pkg
-                    .version
-                    .as_ref()
-                    .map(|v| v.as_str())
-                    .unwrap_or("unknown")
-                    .to_string();
                 family_map
                     .entry(pkg.name.clone())
                     .or_default()
-                    .push(ver_str);
+                    .push(pkg.version.clone());
             }
 
             // Convert to SearchResult
             let repo_path_str = repo_path.to_string_lossy().to_string();
             for (name, mut versions) in family_map {
+                // Oldest first, in version order
                 versions.sort();
                 versions.dedup();
+                let versions: Vec<String> = versions
+                    .iter()
+                    .map(|v| v.as_ref().map(|v| v.as_str()).unwrap_or("unknown"))
+                    .map(str::to_string)
+                    .collect();
 
                 let result = match self.options.scope {
                     SearchScope::LatestOnly => {
diff --git a/src/cli/commands/depends.rs b/src/cli/commands/depends.rs
index f045e15..c9a0d8a 100644
--- a/src/cli/commands/depends.rs
+++ b/src/cli/commands/depends.rs
@@ -260,41 +260,33 @@ async fn find_package_dependents(
 ) -> Result<Vec<String>, RezCoreError> {
     let mut dependents = Vec::new();
 
-    // Get all packages by searching with empty string (gets all)
-    let all_packages = repo_manager.find_packages("").await?;
+    // Get all packages
+    let all_packages = repo_manager.find_all_packages().await?;
+    let refers_to_target = |requirement: &String| {
+        requirement
+            .parse::<rez_next_package::Requirement>()
+            .is_ok_and(|r| !r.conflict && r.name == target_package)
+    };
 
     for package in all_packages {
         let mut has_dependency = false;
 
         // Check regular requires
-        for req_name in &package.requires {
-            if req_name == target_package {
-                has_dependency = true;
-                break;
-            }
+        if package.requires.iter().any(refers_to_target) {
+            has_dependency = true;
         }
 
         // Check build requires if requested
         if !has_dependency && include_build_requires {
-            for req_name in &package.build_requires {
-                if req_name == target_package {
-                    has_dependency = true;
-                    break;
-                }
-            }
+            has_dependency = package.build_requires.iter().any(refers_to_target);
         }
 
         // Check private build requires if requested
         if !has_dependency && include_private_build_requires {
-            for req_name in &package.private_build_requires {
-                if req_name == target_package {
-                    has_dependency = true;
-                    break;
-                }
-            }
+            has_dependency = package.private_build_requires.iter().any(refers_to_target);
         }
 
-        if has_dependency {
+        if has_dependency && !dependents.contains(&package.name) {
             dependents.push(package.name.clone());
         }
     }
diff --git a/src/cli/commands/search_v2/filter.rs b/src/cli/commands/search_v2/filter.rs
index 110774b..f9bf050 100644
--- a/src/cli/commands/search_v2/filter.rs
+++ b/src/cli/commands/search_v2/filter.rs
@@ -106,14 +106,23 @@ pub async fn perform_search(
         all_results = family_map.into_values().collect();
     }
 
-    // Sort results
-    sort_results(&mut all_results, &args.sort);
-
     // Filter to latest only if requested
     if args.latest_only {
         all_results = filter_latest_versions(all_results);
     }
 
+    // Sort results, in an order that does not depend on how they were collected
+    all_results.sort_by(|a, b| {
+        let key = |r: &SearchResult| {
+            (
+                r.package.name.clone(),
+                std::cmp::Reverse(r.package.version.clone()),
+            )
+        };
+        key(a).cmp(&key(b))
+    });
+    sort_results(&mut all_results, &args.sort);
+
     // Limit results
     all_results.truncate(args.limit);
 
diff --git a/src/cli/commands/search_v2/matcher.rs b/src/cli/commands/search_v2/matcher.rs
index 13bdd48..a1ae515 100644
--- a/src/cli/commands/search_v2/matcher.rs
+++ b/src/cli/commands/search_v2/matcher.rs
@@ -31,6 +31,16 @@ pub fn evaluate_package_match(
         args.query.to_lowercase()
     };
 
+    // The pattern itself must not be case-folded: `\D` is not `\d`
+    let pattern = if args.regex {
+        regex::RegexBuilder::new(&args.query)
+            .case_insensitive(!args.case_sensitive)
+            .build()
+            .ok()
+    } else {
+        None
+    };
+
     // Check package name
     let package_name = if args.case_sensitive {
         package.name.clone()
@@ -39,7 +49,7 @@ pub fn evaluate_package_match(
     };
 
     if args.regex {
-        if let Ok(regex) = regex::Regex::new(&query)
+        if let Some(regex) = &pattern
             && regex.is_match(&package_name)
         {
             match_score += 10.0;
@@ -61,7 +71,7 @@ pub fn evaluate_package_match(
         };
 
         if args.regex {
-            if let Ok(regex) = regex::Regex::new(&query)
+            if let Some(regex) = &pattern
                 && regex.is_match(&desc_text)
             {
                 match_score += 3.0;
@@ -83,7 +93,7 @@ pub fn evaluate_package_match(
             };
 
             if args.regex {
-                if let Ok(regex) = regex::Regex::new(&query)
+                if let Some(regex) = &pattern
                     && regex.is_match(&tool_name)
                 {
                     match_score += 2.0;
@@ -108,7 +118,7 @@ pub fn evaluate_package_match(
             };
 
             if args.regex {
-                if let Ok(regex) = regex::Regex::new(&query)
+                if let Some(regex) = &pattern
                     && regex.is_match(&req_text)
                 {
                     match_score += 1.0;
@@ -133,7 +143,11 @@ pub fn evaluate_package_match(
                 desc.to_lowercase()
             };
 
-            if desc_text.contains(&query) {
+            let hit = match &pattern {
+                Some(regex) => regex.is_match(&desc_text),
+                None => !args.regex && desc_text.contains(&query),
+            };
+            if hit {
                 match_score += 2.0;
                 match_fields.push("description".to_string());
             }
@@ -146,7 +160,11 @@ pub fn evaluate_package_match(
                 tool.to_lowercase()
             };
 
-            if tool_name.contains(&query) {
+            let hit = match &pattern {
+                Some(regex) => regex.is_match(&tool_name),
+                None => !args.regex && tool_name.contains(&query),
+            };
+            if hit {
                 match_score += 1.0;
                 match_fields.push("tools".to_string());
                 break;
diff --git a/src/cli/commands/status.rs b/src/cli/commands/status.rs
index 6a6798a..3d2763a 100644
--- a/src/cli/commands/status.rs
+++ b/src/cli/commands/status.rs
@@ -251,7 +251,7 @@ async fn show_family_status(
     println!();
 
     // Get all packages
-    let packages = repo_manager.find_packages("").await?;
+    let packages = repo_manager.find_all_packages().await?;
 
     // Group by family
     let mut families: HashMap<String, Vec<_>> = HashMap::new();
@@ -318,7 +318,7 @@ async fn show_general_status(
     println!();
 
     // Get all packages
-    let packages = repo_manager.find_packages("").await?;
+    let packages = repo_manager.find_all_packages().await?;
 
     // Calculate statistics
     let total_packages = packages.len();
-- 
2.43.0


From 5ef6c143dcb5eb607f00278f95d442f5a63486cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:10 +0000
Subject: [PATCH 11/56] fix: requirements accept version unions and reject
 misread specs

---
 .../src/requirement/display.rs                | 25 +++++++++++++++++++
 .../src/requirement/parser.rs                 | 16 ++++++++++++
 crates/rez-next-repository/src/filesystem.rs  | 10 +++++++-
 3 files changed, 50 insertions(+), 1 deletion(-)

diff --git a/crates/rez-next-package/src/requirement/display.rs b/crates/rez-next-package/src/requirement/display.rs
index d4931b7..3bd5a5c 100644
--- a/crates/rez-next-package/src/requirement/display.rs
+++ b/crates/rez-next-package/src/requirement/display.rs
@@ -54,6 +54,26 @@ impl fmt::Display for EnvCondition {
     }
 }
 
+/// A constraint in the syntax used after the `-` of a requirement, if it has one
+fn rez_spec(constraint: &VersionConstraint) -> Option<String> {
+    match constraint {
+        VersionConstraint::Prefix(v) => Some(v.as_str().to_string()),
+        VersionConstraint::GreaterThanOrEqual(v) => Some(format!("{}+", v.as_str())),
+        VersionConstraint::Multiple(parts) => match parts.as_slice() {
+            [
+                VersionConstraint::GreaterThanOrEqual(min),
+                VersionConstraint::LessThan(max),
+            ] => Some(format!("{}+<{}", min.as_str(), max.as_str())),
+            [
+                VersionConstraint::GreaterThanOrEqual(min),
+                VersionConstraint::LessThanOrEqual(max),
+            ] => Some(format!("{}+<={}", min.as_str(), max.as_str())),
+            _ => None,
+        },
+        _ => None,
+    }
+}
+
 impl fmt::Display for VersionConstraint {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         match self {
@@ -71,6 +91,11 @@ impl fmt::Display for VersionConstraint {
                 write!(f, "{}", strs.join(","))
             }
             VersionConstraint::Alternative(constraints) => {
+                // The way a union is written in a requirement, where it can be
+                let specs: Option<Vec<String>> = constraints.iter().map(rez_spec).collect();
+                if let Some(specs) = specs {
+                    return write!(f, "-{}", specs.join("|"));
+                }
                 let strs: Vec<String> = constraints.iter().map(|c| c.to_string()).collect();
                 write!(f, "({})", strs.join(" || "))
             }
diff --git a/crates/rez-next-package/src/requirement/parser.rs b/crates/rez-next-package/src/requirement/parser.rs
index 12aad9c..e8ebbcf 100644
--- a/crates/rez-next-package/src/requirement/parser.rs
+++ b/crates/rez-next-package/src/requirement/parser.rs
@@ -221,12 +221,28 @@ impl RequirementParser {
                 let name = s[..pos].to_string();
                 let ver_spec = &s[pos + 1..];
 
+                // A union of specs: "package-1.0|2.0+<3"
+                if ver_spec.contains('|') {
+                    let parts: Option<Vec<_>> = ver_spec
+                        .split('|')
+                        .map(Self::parse_rez_version_spec)
+                        .collect();
+                    if let Some(parts) = parts {
+                        return Ok((name, Some(VersionConstraint::Alternative(parts))));
+                    }
+                }
+
                 if let Some(constraint) = Self::parse_rez_version_spec(ver_spec) {
                     return Ok((name, Some(constraint)));
                 }
             }
         }
 
+        // A spec that was not understood is not part of the package name
+        if s.contains(['|', ',', '<', '>']) {
+            return Err(format!("Invalid version spec in requirement: {}", s));
+        }
+
         Ok((s.to_string(), None))
     }
 
diff --git a/crates/rez-next-repository/src/filesystem.rs b/crates/rez-next-repository/src/filesystem.rs
index 4e5c7d1..9b0b9e2 100644
--- a/crates/rez-next-repository/src/filesystem.rs
+++ b/crates/rez-next-repository/src/filesystem.rs
@@ -252,8 +252,16 @@ impl Repository for FileSystemRepository {
     ) -> Result<Vec<String>, RezCoreError> {
         let variant_cache = self.variant_cache.read().await;
 
+        let package_cache = self.package_cache.read().await;
         let key = match version {
-            Some(v) => format!("{}-{}", name, v.as_str()),
+            // Two spellings of one version are the same version
+            Some(v) => {
+                let stored = package_cache
+                    .get(name)
+                    .and_then(|versions| versions.values().find(|p| p.version.as_ref() == Some(v)))
+                    .and_then(|p| p.version.as_ref());
+                format!("{}-{}", name, stored.unwrap_or(v).as_str())
+            }
             None => name.to_string(),
         };
 
-- 
2.43.0


From ebba515675449e70f10c14a5191e1956d00a1e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:44 +0000
Subject: [PATCH 12/56] fix: copies, moves and removals keep to their package
 and lose nothing

A name or version such as '../x' reached outside the repository; --force
over the source itself deleted it; a failed or interrupted copy destroyed the
package it replaced and showed half a package; a move also deleted the package
in every other search path, the destination included; cp and mv without a
version took the oldest package and followed links; rm reported success when
nothing could be removed.
---
 crates/rez-next-package/src/package_copy.rs   | 137 ++++++++++++++++--
 crates/rez-next-package/src/package_move.rs   |  70 +++++----
 crates/rez-next-package/src/package_remove.rs |  37 +++--
 crates/rez-next-repository/src/filesystem.rs  |   6 +-
 .../src/simple_repository.rs                  |   6 +-
 src/cli/commands/cp.rs                        |  36 +----
 src/cli/commands/mv.rs                        |  50 +------
 src/cli/commands/rm.rs                        |  25 +++-
 8 files changed, 230 insertions(+), 137 deletions(-)

diff --git a/crates/rez-next-package/src/package_copy.rs b/crates/rez-next-package/src/package_copy.rs
index e678e7e..6c2ab29 100644
--- a/crates/rez-next-package/src/package_copy.rs
+++ b/crates/rez-next-package/src/package_copy.rs
@@ -10,7 +10,7 @@
 //! - **Disk space (#N/A)**: Pre-check available disk space before copy operations.
 
 use std::fs;
-use std::path::{Path, PathBuf};
+use std::path::{Component, Path, PathBuf};
 
 use thiserror::Error;
 
@@ -98,28 +98,77 @@ pub fn copy_package(
 
     let dest = dest_base.join(name).join(version);
 
+    copy_package_dir(&src, &dest, config.force)
+}
+
+/// Copy a package directory to `dest`, replacing what is there if `force` is set.
+pub fn copy_package_dir(
+    src: &Path,
+    dest: &Path,
+    force: bool,
+) -> Result<PackageCopyResult, PackageCopyError> {
+    let src = normalize_path(src);
+    let (Some(family), Some(leaf)) = (dest.parent(), dest.file_name()) else {
+        return Err(PackageCopyError::Other(format!(
+            "Not a package directory: {}",
+            dest.display()
+        )));
+    };
+
     // Check destination
-    if dest.exists() {
-        if config.force {
-            fs::remove_dir_all(&dest)?;
-        } else {
-            return Err(PackageCopyError::DestinationExists {
-                path: dest.display().to_string(),
-            });
-        }
+    let replacing = dest.symlink_metadata().is_ok();
+    if replacing && !force {
+        return Err(PackageCopyError::DestinationExists {
+            path: dest.display().to_string(),
+        });
     }
 
-    // Ensure parent directory exists
-    if let Some(parent) = dest.parent() {
-        fs::create_dir_all(parent)?;
+    // Copying a directory over or into itself would destroy the source
+    let overlaps = |path: &Path| {
+        dunce::canonicalize(path).is_ok_and(|p| p.starts_with(&src) || src.starts_with(&p))
+    };
+    let nested = family
+        .ancestors()
+        .find_map(|p| dunce::canonicalize(p).ok())
+        .is_some_and(|p| p.starts_with(&src));
+    if nested || (replacing && overlaps(dest)) {
+        return Err(PackageCopyError::Other(format!(
+            "Cannot copy '{}' over or into itself: {}",
+            src.display(),
+            dest.display()
+        )));
     }
 
-    // Perform the copy
-    let stats = copy_dir_recursive(&src, &dest)?;
+    // Copy beside the destination, under a hidden name, and move the finished
+    // copy into place: a copy that fails or is cut short is never visible, and
+    // never costs the package it was to replace.
+    let family_created = !family.exists();
+    fs::create_dir_all(family)?;
+    let staging = family.join(format!(
+        ".{}.copying-{}",
+        leaf.to_string_lossy(),
+        std::process::id()
+    ));
+    let finished = discard(&staging)
+        .and_then(|_| copy_dir_recursive(&src, &staging))
+        .and_then(|stats| {
+            replace_dir(&staging, dest)?;
+            Ok(stats)
+        });
+    let stats = match finished {
+        Ok(stats) => stats,
+        Err(e) => {
+            let _ = discard(&staging);
+            if family_created {
+                let _ = fs::remove_dir(family);
+            }
+            return Err(e.into());
+        }
+    };
 
     Ok(PackageCopyResult {
         source: src,
-        destination: dest,
+        destination: dest.to_path_buf(),
         files_copied: stats.files,
         bytes_copied: stats.bytes,
     })
@@ -131,6 +180,22 @@ pub fn find_package_dir(
     version: &str,
     search_paths: &[PathBuf],
 ) -> Result<PathBuf, PackageCopyError> {
+    locate_package_dir(name, version, search_paths).map(|dir| normalize_path(&dir))
+}
+
+/// Like [`find_package_dir`], but symlinks in the path are not resolved.
+pub(crate) fn locate_package_dir(
+    name: &str,
+    version: &str,
+    search_paths: &[PathBuf],
+) -> Result<PathBuf, PackageCopyError> {
+    if !is_path_component(name) || !is_path_component(version) {
+        return Err(PackageCopyError::Other(format!(
+            "Invalid package '{}' version '{}'",
+            name, version
+        )));
+    }
+
     for base in search_paths {
         // Check both version and version subdir patterns
         let candidates = [
@@ -140,7 +205,7 @@ pub fn find_package_dir(
 
         for candidate in &candidates {
             if candidate.exists() && candidate.is_dir() {
-                return Ok(normalize_path(candidate));
+                return Ok(candidate.clone());
             }
         }
     }
@@ -151,6 +216,44 @@ pub fn find_package_dir(
     })
 }
 
+/// Whether a name or version stands for one directory entry, and so cannot lead
+/// outside the directory it is joined to.
+pub(crate) fn is_path_component(part: &str) -> bool {
+    let mut components = Path::new(part).components();
+    matches!(components.next(), Some(Component::Normal(c)) if c == part)
+        && components.next().is_none()
+}
+
+/// Remove a file, symlink or directory tree, if there is one.
+pub(crate) fn discard(path: &Path) -> Result<(), std::io::Error> {
+    match path.symlink_metadata() {
+        Ok(meta) if meta.is_dir() => fs::remove_dir_all(path),
+        Ok(_) => fs::remove_file(path),
+        Err(e) if e.kind() == std::io::ErrorKind::NotFound => Ok(()),
+        Err(e) => Err(e),
+    }
+}
+
+/// Move `staging` to `dest`, replacing what is there.
+fn replace_dir(staging: &Path, dest: &Path) -> Result<(), std::io::Error> {
+    let old = staging.with_extension(format!("replaced-{}", std::process::id()));
+    let replacing = dest.symlink_metadata().is_ok();
+    if replacing {
+        discard(&old)?;
+        fs::rename(dest, &old)?;
+    }
+    if let Err(e) = fs::rename(staging, dest) {
+        if replacing {
+            let _ = fs::rename(&old, dest);
+        }
+        return Err(e);
+    }
+    if replacing {
+        let _ = discard(&old);
+    }
+    Ok(())
+}
+
 /// Normalize a path to avoid UNC path issues on Windows.
 ///
 /// Addresses Rez issue #1438: "Environment resolution uses UNC paths with Python 3.10"
@@ -216,6 +319,8 @@ fn copy_dir_recursive(src: &Path, dest: &Path) -> Result<CopyStats, std::io::Err
         }
     }
 
+    fs::set_permissions(dest, fs::metadata(src)?.permissions())?;
+
     Ok(stats)
 }
 
diff --git a/crates/rez-next-package/src/package_move.rs b/crates/rez-next-package/src/package_move.rs
index 130f8f5..cdc1490 100644
--- a/crates/rez-next-package/src/package_move.rs
+++ b/crates/rez-next-package/src/package_move.rs
@@ -12,8 +12,8 @@ use std::path::{Path, PathBuf};
 
 use thiserror::Error;
 
-use crate::package_copy::{self, PackageCopyConfig, PackageCopyError};
-use crate::package_remove::{self, PackageRemoveConfig, PackageRemoveError};
+use crate::package_copy::{self, PackageCopyError};
+use crate::package_remove::PackageRemoveError;
 
 /// Errors that can occur during package move operations.
 #[derive(Debug, Error)]
@@ -75,31 +75,10 @@ impl Default for PackageMoveConfig {
     }
 }
 
-impl PackageMoveConfig {
-    /// Create a PackageCopyConfig from this move config.
-    fn to_copy_config(&self) -> PackageCopyConfig {
-        PackageCopyConfig {
-            packages_path: self.packages_path.clone(),
-            force: self.force,
-            normalize_paths: self.normalize_paths,
-        }
-    }
-
-    /// Create a PackageRemoveConfig from this move config.
-    fn to_remove_config(&self) -> PackageRemoveConfig {
-        PackageRemoveConfig {
-            packages_path: self.packages_path.clone(),
-            force: true, // We always force remove during move
-            prune_empty_families: true,
-        }
-    }
-}
-
 /// Move a package from one location to another.
 ///
 /// This is the domain-level implementation, aligned with rez's `move_package()`.
-/// It delegates to `copy_package` and `remove_package_version` — following
-/// the Single Responsibility Principle: each operation does one thing.
+/// It delegates to `copy_package`, then removes the one directory that was copied.
 ///
 /// # Safety
 /// - Copy first, verify copy success, then remove source (atomic-like behavior).
@@ -123,11 +102,21 @@ pub fn move_package(
 ) -> Result<PackageMoveResult, PackageMoveError> {
     // Prevent moving to the same location
     let dest = dest_base.join(name).join(version);
-    let src = package_copy::find_package_dir(name, version, &config.packages_path)?;
+    let src = package_copy::locate_package_dir(name, version, &config.packages_path)?;
 
+    move_package_dir(&src, &dest, config.force, config.keep_source)
+}
+
+/// Move a package directory to `dest`, replacing what is there if `force` is set.
+pub fn move_package_dir(
+    src: &Path,
+    dest: &Path,
+    force: bool,
+    keep_source: bool,
+) -> Result<PackageMoveResult, PackageMoveError> {
     // Normalize both paths
-    let src_normalized = dunce::canonicalize(&src).unwrap_or_else(|_| src.clone());
-    let dest_normalized = dunce::canonicalize(&dest).unwrap_or_else(|_| dest.clone());
+    let src_normalized = dunce::canonicalize(src).unwrap_or_else(|_| src.to_path_buf());
+    let dest_normalized = dunce::canonicalize(dest).unwrap_or_else(|_| dest.to_path_buf());
 
     if src_normalized == dest_normalized {
         return Err(PackageMoveError::SameLocation {
@@ -136,12 +125,11 @@ pub fn move_package(
     }
 
     // Phase 1: Copy
-    let copy_result =
-        package_copy::copy_package(name, version, dest_base, &config.to_copy_config())?;
+    let copy_result = package_copy::copy_package_dir(src, dest, force)?;
 
     // Phase 2: Remove source (unless keep_source)
-    let source_removed = if !config.keep_source {
-        package_remove::remove_package_version(name, version, &config.to_remove_config())?;
+    let source_removed = if !keep_source {
+        remove_source(src).map_err(PackageRemoveError::from)?;
         true
     } else {
         false
@@ -156,6 +144,26 @@ pub fn move_package(
     })
 }
 
+/// Remove the directory that was moved, and its family if nothing else is left in it.
+///
+/// The directory is hidden first, so that a removal that is cut short does not
+/// leave a package behind that has lost part of its payload.
+fn remove_source(src: &Path) -> Result<(), std::io::Error> {
+    let (Some(family), Some(leaf)) = (src.parent(), src.file_name()) else {
+        return package_copy::discard(src);
+    };
+    let hidden = family.join(format!(
+        ".{}.moved-{}",
+        leaf.to_string_lossy(),
+        std::process::id()
+    ));
+    std::fs::rename(src, &hidden)?;
+    package_copy::discard(&hidden)?;
+    // Only succeeds when no other version is left
+    let _ = std::fs::remove_dir(family);
+    Ok(())
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/crates/rez-next-package/src/package_remove.rs b/crates/rez-next-package/src/package_remove.rs
index 51c79bb..3ab8048 100644
--- a/crates/rez-next-package/src/package_remove.rs
+++ b/crates/rez-next-package/src/package_remove.rs
@@ -13,6 +13,8 @@ use std::path::PathBuf;
 
 use thiserror::Error;
 
+use crate::package_copy::{dir_size, discard, is_path_component};
+
 /// Errors that can occur during package remove operations.
 #[derive(Debug, Error)]
 pub enum PackageRemoveError {
@@ -81,6 +83,8 @@ pub fn remove_package_version(
     version: &str,
     config: &PackageRemoveConfig,
 ) -> Result<PackageRemoveResult, PackageRemoveError> {
+    check_components(name, Some(version))?;
+
     let mut removed_paths = Vec::new();
     let mut bytes_freed = 0u64;
 
@@ -88,15 +92,9 @@ pub fn remove_package_version(
         let version_dir = base.join(name).join(version);
         if version_dir.exists() && version_dir.is_dir() {
             // Calculate size before removal
-            if let Ok(dir_entry) = fs::read_dir(&version_dir) {
-                for entry in dir_entry.flatten() {
-                    if let Ok(meta) = entry.metadata() {
-                        bytes_freed += meta.len();
-                    }
-                }
-            }
+            bytes_freed += dir_size(&version_dir).unwrap_or(0);
 
-            fs::remove_dir_all(&version_dir)?;
+            discard(&version_dir)?;
             removed_paths.push(version_dir);
         }
     }
@@ -132,6 +130,8 @@ pub fn remove_package_family(
     name: &str,
     config: &PackageRemoveConfig,
 ) -> Result<PackageRemoveResult, PackageRemoveError> {
+    check_components(name, None)?;
+
     let mut removed_paths = Vec::new();
     let mut bytes_freed = 0u64;
 
@@ -139,9 +139,9 @@ pub fn remove_package_family(
         let family_dir = base.join(name);
         if family_dir.exists() && family_dir.is_dir() {
             // Calculate total size
-            bytes_freed += crate::package_copy::dir_size(&family_dir).unwrap_or(0);
+            bytes_freed += dir_size(&family_dir).unwrap_or(0);
 
-            fs::remove_dir_all(&family_dir)?;
+            discard(&family_dir)?;
             removed_paths.push(family_dir);
         }
     }
@@ -157,6 +157,19 @@ pub fn remove_package_family(
     })
 }
 
+/// Reject a name or version that could lead outside the package's own directory.
+fn check_components(name: &str, version: Option<&str>) -> Result<(), PackageRemoveError> {
+    for part in [Some(name), version].into_iter().flatten() {
+        if !is_path_component(part) {
+            return Err(PackageRemoveError::Other(format!(
+                "Not a package name or version: '{}'",
+                part
+            )));
+        }
+    }
+    Ok(())
+}
+
 /// Preview what would be removed (dry-run).
 pub fn preview_removal(
     name: &str,
@@ -165,6 +178,10 @@ pub fn preview_removal(
 ) -> Vec<PathBuf> {
     let mut paths = Vec::new();
 
+    if check_components(name, version).is_err() {
+        return paths;
+    }
+
     for base in search_paths {
         if let Some(ver) = version {
             let version_dir = base.join(name).join(ver);
diff --git a/crates/rez-next-repository/src/filesystem.rs b/crates/rez-next-repository/src/filesystem.rs
index 9b0b9e2..2769bf1 100644
--- a/crates/rez-next-repository/src/filesystem.rs
+++ b/crates/rez-next-repository/src/filesystem.rs
@@ -355,8 +355,10 @@ impl FileSystemRepository {
                 while let Ok(Some(version_entry)) = version_entries.next_entry().await {
                     let version_path = version_entry.path();
                     // Rez hides a version when a sibling `.ignore{version}` marker exists.
-                    let marker = format!(".ignore{}", version_entry.file_name().to_string_lossy());
-                    if family_path.join(marker).is_file() {
+                    // Hidden directories, such as unfinished copies, are not packages.
+                    let dir_name = version_entry.file_name().to_string_lossy().into_owned();
+                    let marker = format!(".ignore{}", dir_name);
+                    if dir_name.starts_with('.') || family_path.join(marker).is_file() {
                         continue;
                     }
                     if version_path.is_dir()
diff --git a/crates/rez-next-repository/src/simple_repository.rs b/crates/rez-next-repository/src/simple_repository.rs
index ee92dc4..c3ac095 100644
--- a/crates/rez-next-repository/src/simple_repository.rs
+++ b/crates/rez-next-repository/src/simple_repository.rs
@@ -91,8 +91,10 @@ impl SimpleRepository {
 
                 if path.is_dir() {
                     // Rez hides a version when a sibling `.ignore{version}` marker exists.
-                    let marker = format!(".ignore{}", entry.file_name().to_string_lossy());
-                    if dir_path.join(marker).is_file() {
+                    // Hidden directories, such as unfinished copies, are not packages.
+                    let dir_name = entry.file_name().to_string_lossy().into_owned();
+                    let marker = format!(".ignore{}", dir_name);
+                    if dir_name.starts_with('.') || dir_path.join(marker).is_file() {
                         continue;
                     }
 
diff --git a/src/cli/commands/cp.rs b/src/cli/commands/cp.rs
index 5b54749..83f4775 100644
--- a/src/cli/commands/cp.rs
+++ b/src/cli/commands/cp.rs
@@ -6,6 +6,7 @@ use crate::cli::utils::expand_home_path;
 use clap::Args;
 use rez_next_common::{RezCoreError, error::RezCoreResult};
 use rez_next_package::Package;
+use rez_next_package::package_copy::copy_package_dir;
 use rez_next_repository::simple_repository::{RepositoryManager, SimpleRepository};
 use std::path::PathBuf;
 
@@ -221,12 +222,7 @@ async fn find_source_package_with_path(
     } else {
         // Latest version
         let mut sorted = packages;
-        sorted.sort_by(|a, b| {
-            b.version
-                .as_ref()
-                .and_then(|bv| a.version.as_ref().map(|av| av.cmp(bv)))
-                .unwrap_or(std::cmp::Ordering::Equal)
-        });
+        sorted.sort_by(|a, b| b.version.cmp(&a.version));
         sorted.into_iter().next().unwrap()
     };
 
@@ -262,13 +258,8 @@ async fn copy_package_directory(
     source_package: &Package,
     args: &CpArgs,
 ) -> RezCoreResult<CopyResult> {
-    // Remove existing destination if force
-    if args.force && dest_root.exists() {
-        std::fs::remove_dir_all(dest_root).map_err(RezCoreError::Io)?;
-    }
-
-    // Recursively copy directory
-    copy_dir_recursive(source_root, dest_root)?;
+    copy_package_dir(source_root, dest_root, args.force)
+        .map_err(|e| RezCoreError::RequirementParse(e.to_string()))?;
 
     let variants_copied = if args.all_variants {
         source_package.variants.len().max(1)
@@ -285,25 +276,6 @@ async fn copy_package_directory(
     })
 }
 
-/// Recursively copy a directory
-fn copy_dir_recursive(src: &PathBuf, dest: &PathBuf) -> RezCoreResult<()> {
-    std::fs::create_dir_all(dest).map_err(RezCoreError::Io)?;
-
-    for entry in std::fs::read_dir(src).map_err(RezCoreError::Io)? {
-        let entry = entry.map_err(RezCoreError::Io)?;
-        let src_path = entry.path();
-        let dest_path = dest.join(entry.file_name());
-
-        if src_path.is_dir() {
-            copy_dir_recursive(&src_path, &dest_path)?;
-        } else {
-            std::fs::copy(&src_path, &dest_path).map_err(RezCoreError::Io)?;
-        }
-    }
-
-    Ok(())
-}
-
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/src/cli/commands/mv.rs b/src/cli/commands/mv.rs
index dd78a5d..a0aa065 100644
--- a/src/cli/commands/mv.rs
+++ b/src/cli/commands/mv.rs
@@ -6,6 +6,7 @@ use crate::cli::utils::expand_home_path;
 use clap::Args;
 use rez_next_common::{RezCoreError, error::RezCoreResult};
 use rez_next_package::Package;
+use rez_next_package::package_move::move_package_dir;
 use rez_next_repository::simple_repository::{RepositoryManager, SimpleRepository};
 use std::path::PathBuf;
 
@@ -244,12 +245,7 @@ async fn find_source_package_with_path(
             })?
     } else {
         let mut sorted = packages;
-        sorted.sort_by(|a, b| {
-            b.version
-                .as_ref()
-                .and_then(|bv| a.version.as_ref().map(|av| av.cmp(bv)))
-                .unwrap_or(std::cmp::Ordering::Equal)
-        });
+        sorted.sort_by(|a, b| b.version.cmp(&a.version));
         sorted.into_iter().next().unwrap()
     };
 
@@ -282,25 +278,11 @@ async fn move_package_directory(
     dest_root: &PathBuf,
     args: &MvArgs,
 ) -> RezCoreResult<MoveResult> {
-    // Remove existing destination if force
-    if args.force && dest_root.exists() {
-        std::fs::remove_dir_all(dest_root).map_err(RezCoreError::Io)?;
-    }
-
-    // Copy source to destination
-    copy_dir_recursive(source_path, dest_root)?;
-
-    // Remove source unless keeping it
-    if !args.keep_source {
-        std::fs::remove_dir_all(source_path).map_err(|e| {
-            RezCoreError::Io(std::io::Error::other(format!(
-                "Failed to remove source directory: {}",
-                e
-            )))
-        })?;
-        if args.verbose {
-            println!("Removed source: {}", source_path.display());
-        }
+    // Copy to the destination, then remove the source unless keeping it
+    let moved = move_package_dir(source_path, dest_root, args.force, args.keep_source)
+        .map_err(|e| RezCoreError::RequirementParse(e.to_string()))?;
+    if moved.source_removed && args.verbose {
+        println!("Removed source: {}", source_path.display());
     }
 
     let variants_moved = if args.all_variants {
@@ -319,24 +301,6 @@ async fn move_package_directory(
     })
 }
 
-fn copy_dir_recursive(src: &PathBuf, dest: &PathBuf) -> RezCoreResult<()> {
-    std::fs::create_dir_all(dest).map_err(RezCoreError::Io)?;
-
-    for entry in std::fs::read_dir(src).map_err(RezCoreError::Io)? {
-        let entry = entry.map_err(RezCoreError::Io)?;
-        let src_path = entry.path();
-        let dest_path = dest.join(entry.file_name());
-
-        if src_path.is_dir() {
-            copy_dir_recursive(&src_path, &dest_path)?;
-        } else {
-            std::fs::copy(&src_path, &dest_path).map_err(RezCoreError::Io)?;
-        }
-    }
-
-    Ok(())
-}
-
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/src/cli/commands/rm.rs b/src/cli/commands/rm.rs
index bb177c0..18baf72 100644
--- a/src/cli/commands/rm.rs
+++ b/src/cli/commands/rm.rs
@@ -154,6 +154,7 @@ async fn remove_package(package_spec: &str, args: &RmArgs) -> RezCoreResult<()>
 
     // Remove packages
     let mut removed_count = 0;
+    let mut failed_count = 0;
     for package in packages {
         if args.interactive && !confirm_removal(&package)? {
             continue;
@@ -171,6 +172,7 @@ async fn remove_package(package_spec: &str, args: &RmArgs) -> RezCoreResult<()>
                         }
                     }
                 } else {
+                    failed_count += 1;
                     eprintln!(
                         "❌ Failed to remove {}: {}",
                         package.name,
@@ -179,13 +181,14 @@ async fn remove_package(package_spec: &str, args: &RmArgs) -> RezCoreResult<()>
                 }
             }
             Err(e) => {
+                failed_count += 1;
                 eprintln!("❌ Error removing {}: {}", package.name, e);
             }
         }
     }
 
     println!("Removed {} package(s)", removed_count);
-    Ok(())
+    removal_outcome(failed_count)
 }
 
 /// Remove an entire package family
@@ -237,6 +240,7 @@ async fn remove_package_family(package_name: &str, args: &RmArgs) -> RezCoreResu
 
     // Remove all packages in family
     let mut removed_count = 0;
+    let mut failed_count = 0;
     for package in packages {
         match remove_single_package(&package, args).await {
             Ok(result) => {
@@ -253,9 +257,17 @@ async fn remove_package_family(package_name: &str, args: &RmArgs) -> RezCoreResu
                                 .unwrap_or("unknown")
                         );
                     }
+                } else {
+                    failed_count += 1;
+                    eprintln!(
+                        "❌ Failed to remove {}: {}",
+                        package.name,
+                        result.error.unwrap_or_else(|| "Unknown error".to_string())
+                    );
                 }
             }
             Err(e) => {
+                failed_count += 1;
                 eprintln!("❌ Error removing {}: {}", package.name, e);
             }
         }
@@ -265,6 +277,17 @@ async fn remove_package_family(package_name: &str, args: &RmArgs) -> RezCoreResu
         "✅ Removed package family '{}' ({} packages)",
         package_name, removed_count
     );
+    removal_outcome(failed_count)
+}
+
+/// Turn the number of packages that could not be removed into a command result
+fn removal_outcome(failed_count: usize) -> RezCoreResult<()> {
+    if failed_count > 0 {
+        return Err(RezCoreError::RequirementParse(format!(
+            "{} package(s) could not be removed",
+            failed_count
+        )));
+    }
     Ok(())
 }
 
-- 
2.43.0


From 2d1d349bf91c059f0106093da59bddb6c4922cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:17 +0000
Subject: [PATCH 13/56] fix: the payload cache never reports a payload it does
 not have

Concurrent adds of a variant shared one entry, so that a half-written payload
was reported as cached; the entry after the 26th with one key prefix replaced
the 27th; an entry was reported although its payload had gone or its
attributes only looked alike; a failed copy kept the variant from ever being
cached; reading an entry rewrote its metadata in place; names such as '../x'
led outside the cache; the size limit was not enforced; access times in the
future and small disks overflowed.
---
 crates/rez-next-package/src/package_cache.rs | 176 +++++++++++++------
 crates/rez-next-package/src/package_copy.rs  |   4 +-
 2 files changed, 120 insertions(+), 60 deletions(-)

diff --git a/crates/rez-next-package/src/package_cache.rs b/crates/rez-next-package/src/package_cache.rs
index 1086bf4..90cca2f 100644
--- a/crates/rez-next-package/src/package_cache.rs
+++ b/crates/rez-next-package/src/package_cache.rs
@@ -32,6 +32,8 @@ use std::path::{Path, PathBuf};
 use std::time::{SystemTime, UNIX_EPOCH};
 
 use serde::{Deserialize, Serialize};
+
+use crate::package_copy::{copy_dir_recursive, is_path_component};
 use serde_json;
 
 // ── Constants ──────────────────────────────────────────────────────────────────
@@ -125,7 +127,7 @@ pub enum PackageCacheError {
 /// Serializable representation of a variant handle.
 ///
 /// This is used to match cached payloads to their corresponding variants.
-#[derive(Debug, Clone, Serialize, Deserialize)]
+#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
 pub struct VariantHandle {
     /// Package name
     pub name: String,
@@ -329,6 +331,26 @@ impl PackageCache {
         self.sys_dir().join("to_delete")
     }
 
+    /// Serialise changes to the cache between threads and processes.
+    ///
+    /// The lock is held until the returned file is dropped.
+    fn lock(&self) -> Result<File, io::Error> {
+        let file = File::options()
+            .create(true)
+            .truncate(false)
+            .write(true)
+            .open(self.sys_dir().join("lock"))?;
+        fs2::FileExt::lock_exclusive(&file)?;
+        Ok(file)
+    }
+
+    /// Whether the handle names directories inside the cache.
+    fn is_storable(handle: &VariantHandle) -> bool {
+        is_path_component(&handle.name)
+            && !handle.name.starts_with('.')
+            && handle.version.as_deref().is_none_or(is_path_component)
+    }
+
     // ── Public API ─────────────────────────────────────────────────────────
 
     /// Check if a variant is cached and return its root path.
@@ -339,9 +361,23 @@ impl PackageCache {
     ///
     /// `(CacheStatus, Option<PathBuf>)` - status and path if found.
     pub fn get_cached_root(&self, handle: &VariantHandle) -> (CacheStatus, Option<PathBuf>) {
+        let found = self.find_cached(handle);
+
+        // Update last accessed time
+        if let (CacheStatus::Found, Some(payload_path)) = &found
+            && let Ok(_lock) = self.lock()
+        {
+            let _ = Self::update_access_time(&payload_path.with_extension("json"));
+        }
+
+        found
+    }
+
+    /// Look a variant up without recording the access.
+    fn find_cached(&self, handle: &VariantHandle) -> (CacheStatus, Option<PathBuf>) {
         let hash_path = self.hash_path(handle);
 
-        if !hash_path.is_dir() {
+        if !Self::is_storable(handle) || !hash_path.is_dir() {
             return (CacheStatus::NotFound, None);
         }
 
@@ -365,7 +401,8 @@ impl PackageCache {
                     Err(_) => continue, // Skip corrupted entries
                 };
 
-                if metadata.handle.hashable_repr() == handle.hashable_repr() {
+                // An entry whose payload has gone is no longer cached
+                if metadata.handle == *handle && payload_path.is_dir() {
                     // Check for .copying file (still copying)
                     let copying_flag = json_path.with_file_name(format!(
                         ".copying-{}",
@@ -380,9 +417,6 @@ impl PackageCache {
                         return (CacheStatus::Copying, Some(payload_path));
                     }
 
-                    // Update last accessed time
-                    let _ = Self::update_access_time(&json_path);
-
                     return (CacheStatus::Found, Some(payload_path));
                 }
             }
@@ -416,8 +450,20 @@ impl PackageCache {
             ));
         }
 
+        if !Self::is_storable(handle) {
+            return Err(PackageCacheError::PathError(format!(
+                "cannot cache '{}' version '{}'",
+                handle.name,
+                handle.version.as_deref().unwrap_or("")
+            )));
+        }
+
+        // One caller at a time decides which entry is whose; the copy itself
+        // runs unlocked, guarded by the copying flag.
+        let lock = self.lock()?;
+
         // Check if already cached
-        let (status, cached_path) = self.get_cached_root(handle);
+        let (status, cached_path) = self.find_cached(handle);
         match status {
             CacheStatus::Found | CacheStatus::CopyStalled => {
                 if let Some(path) = cached_path {
@@ -436,7 +482,7 @@ impl PackageCache {
         // Check disk space
         if !force {
             let source_size = Self::directory_size(source_root)?;
-            if !self.check_disk_space(source_size)? {
+            if !self.check_disk_space(source_size)? || !self.check_cache_size(source_size) {
                 return Ok((CacheStatus::Skipped, self.hash_path(handle)));
             }
         }
@@ -454,6 +500,7 @@ impl PackageCache {
 
         // Create copying flag
         File::create(&copying_flag)?;
+        fs::create_dir(&payload_path)?;
 
         // Create metadata
         let now = SystemTime::now()
@@ -469,14 +516,22 @@ impl PackageCache {
         };
 
         // Write metadata
-        let json_str = serde_json::to_string_pretty(&metadata)?;
-        File::create(&json_path)?.write_all(json_str.as_bytes())?;
+        Self::write_metadata(&json_path, &metadata)?;
+        drop(lock);
 
         // Copy payload
-        Self::copy_dir_recursive(source_root, &payload_path)?;
+        if let Err(e) = copy_dir_recursive(source_root, &payload_path) {
+            // Leave nothing behind that would keep the variant from being cached
+            let _lock = self.lock()?;
+            let _ = fs::remove_file(&json_path);
+            let _ = fs::remove_dir_all(&payload_path);
+            let _ = fs::remove_file(&copying_flag);
+            Self::cleanup_empty_dirs(&payload_path);
+            return Err(e.into());
+        }
 
         // Remove copying flag
-        let _ = fs::remove_file(copying_flag);
+        fs::remove_file(copying_flag)?;
 
         Ok((CacheStatus::Created, payload_path))
     }
@@ -486,7 +541,10 @@ impl PackageCache {
     /// Moves the payload to the to_delete directory; actual deletion
     /// happens during `clean()`.
     pub fn remove_variant(&self, handle: &VariantHandle) -> (CacheStatus, Option<PathBuf>) {
-        let (status, cached_path) = self.get_cached_root(handle);
+        let Ok(_lock) = self.lock() else {
+            return (CacheStatus::NotFound, None);
+        };
+        let (status, cached_path) = self.find_cached(handle);
 
         match status {
             CacheStatus::NotFound => (CacheStatus::NotFound, None),
@@ -502,17 +560,17 @@ impl PackageCache {
                         uuid::Uuid::new_v4()
                     ));
 
+                    // Remove .json file
+                    let json_path = path.with_extension("json");
+                    let _ = fs::remove_file(json_path);
+
                     // Move to to_delete
                     if fs::rename(path, &dest).is_err() {
                         // Try copy + delete
-                        let _ = Self::copy_dir_recursive(path, &dest);
+                        let _ = copy_dir_recursive(path, &dest);
                         let _ = fs::remove_dir_all(path);
                     }
 
-                    // Remove .json file
-                    let json_path = path.with_extension("json");
-                    let _ = fs::remove_file(json_path);
-
                     // Clean up empty parent directories
                     Self::cleanup_empty_dirs(path);
                 }
@@ -564,10 +622,10 @@ impl PackageCache {
                                             && let Ok(metadata) = Self::read_metadata(&meta_path)
                                         {
                                             let payload_path = meta_path.with_extension("");
-                                            let status = if payload_path.is_dir() {
-                                                CacheStatus::Found
-                                            } else {
+                                            let status = if !payload_path.is_dir() {
                                                 CacheStatus::Pending
+                                            } else {
+                                                self.find_cached(&metadata.handle).0
                                             };
                                             results.push((metadata.handle, payload_path, status));
                                         }
@@ -603,8 +661,9 @@ impl PackageCache {
                     break;
                 }
                 let path = entry.path();
+                let size = Self::directory_size(&path).unwrap_or(0);
                 if path.is_dir() && fs::remove_dir_all(&path).is_ok() {
-                    stats.deleted_bytes += Self::directory_size(&path).unwrap_or(0);
+                    stats.deleted_bytes += size;
                     stats.entries_deleted += 1;
                 }
             }
@@ -630,7 +689,7 @@ impl PackageCache {
                 let json_path = path.with_extension("json");
                 if let Ok(metadata) = Self::read_metadata(&json_path)
                     && let Some(accessed) = metadata.last_accessed
-                    && now - accessed > max_age
+                    && now.saturating_sub(accessed) > max_age
                 {
                     let _ = self.remove_variant(&handle);
                     stats.entries_deleted += 1;
@@ -661,9 +720,18 @@ impl PackageCache {
                 .unwrap()
                 .as_secs(),
         );
-        let json_str = serde_json::to_string_pretty(&metadata)?;
-        let mut file = File::create(json_path)?;
-        file.write_all(json_str.as_bytes())?;
+        Self::write_metadata(json_path, &metadata)
+    }
+
+    /// Write metadata so that a reader sees the old or the new content, never a part.
+    fn write_metadata(
+        json_path: &Path,
+        metadata: &CachedVariantInfo,
+    ) -> Result<(), PackageCacheError> {
+        let json_str = serde_json::to_string_pretty(metadata)?;
+        let partial = json_path.with_extension("json-partial");
+        File::create(&partial)?.write_all(json_str.as_bytes())?;
+        fs::rename(&partial, json_path)?;
         Ok(())
     }
 
@@ -685,47 +753,26 @@ impl PackageCache {
         if let Ok(entries) = fs::read_dir(hash_path) {
             for entry in entries.flatten() {
                 let name = entry.file_name().to_string_lossy().to_string();
-                if name.ends_with(".json") {
-                    let inc = name.trim_end_matches(".json");
-                    match &max_inc {
-                        None => max_inc = Some(inc.to_string()),
-                        Some(current) => {
-                            if inc > current.as_str() {
-                                max_inc = Some(inc.to_string());
-                            }
-                        }
-                    }
+                let inc = name.trim_end_matches(".json").to_string();
+                if inc.is_empty() || !inc.bytes().all(|b| b.is_ascii_lowercase()) {
+                    continue;
+                }
+                // "aa" comes after "z"
+                let key = (inc.len(), inc);
+                if max_inc.as_ref().is_none_or(|current| key > *current) {
+                    max_inc = Some(key);
                 }
             }
         }
 
         let next = match max_inc {
             None => "a".to_string(),
-            Some(ref inc) => increment_string(inc),
+            Some((_, ref inc)) => increment_string(inc),
         };
 
         Ok(next)
     }
 
-    /// Recursively copy a directory.
-    fn copy_dir_recursive(src: &Path, dst: &Path) -> Result<(), io::Error> {
-        fs::create_dir_all(dst)?;
-
-        for entry in fs::read_dir(src)? {
-            let entry = entry?;
-            let src_path = entry.path();
-            let dst_path = dst.join(entry.file_name());
-
-            if src_path.is_dir() {
-                Self::copy_dir_recursive(&src_path, &dst_path)?;
-            } else {
-                fs::copy(&src_path, &dst_path)?;
-            }
-        }
-
-        Ok(())
-    }
-
     /// Calculate directory size (follows symlinks, deduplicates inodes on Unix).
     fn directory_size(path: &Path) -> Result<u64, io::Error> {
         let mut total = 0u64;
@@ -778,7 +825,20 @@ impl PackageCache {
     /// Check if there's enough disk space.
     fn check_disk_space(&self, needed: u64) -> Result<bool, PackageCacheError> {
         let available = fs2::available_space(&self.root)?;
-        Ok(available - needed > self.config.min_free_space_bytes)
+        Ok(available.saturating_sub(needed) > self.config.min_free_space_bytes)
+    }
+
+    /// Check that the cache stays within its size limit with `needed` more bytes.
+    fn check_cache_size(&self, needed: u64) -> bool {
+        let Some(limit) = self.config.max_size_bytes else {
+            return true;
+        };
+        let used: u64 = self
+            .list_cached()
+            .iter()
+            .map(|(_, path, _)| Self::directory_size(path).unwrap_or(0))
+            .sum();
+        used.saturating_add(needed) <= limit
     }
 
     /// Check if the cache disk is near full.
@@ -811,7 +871,7 @@ impl PackageCache {
         let variant_size = Self::directory_size(variant_root).unwrap_or(0);
 
         // Check: available - variant_size > min_free_space
-        available > variant_size + self.config.min_free_space_bytes
+        available.saturating_sub(variant_size) > self.config.min_free_space_bytes
     }
 
     /// Remove empty parent directories.
diff --git a/crates/rez-next-package/src/package_copy.rs b/crates/rez-next-package/src/package_copy.rs
index 6c2ab29..d2b9d28 100644
--- a/crates/rez-next-package/src/package_copy.rs
+++ b/crates/rez-next-package/src/package_copy.rs
@@ -263,13 +263,13 @@ fn normalize_path(path: &Path) -> PathBuf {
 }
 
 #[derive(Debug, Default)]
-struct CopyStats {
+pub(crate) struct CopyStats {
     files: usize,
     bytes: u64,
 }
 
 /// Recursively copy a directory, preserving symlinks and permissions.
-fn copy_dir_recursive(src: &Path, dest: &Path) -> Result<CopyStats, std::io::Error> {
+pub(crate) fn copy_dir_recursive(src: &Path, dest: &Path) -> Result<CopyStats, std::io::Error> {
     let mut stats = CopyStats::default();
 
     if !dest.exists() {
-- 
2.43.0


From 89afeb07a9540ae154a36d1a0335247dd236d534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:02 +0000
Subject: [PATCH 14/56] fix: the two-level cache never brings an older value
 back

A put left the old value in L2, from where it returned once the new one was
evicted; an entry moving between the levels raced with put and remove, which
lost the new value or resurrected the removed one; a lookup held its entry
locked while waiting.
---
 .../rez-next-cache/src/intelligent_manager.rs | 103 ++++++++++--------
 1 file changed, 60 insertions(+), 43 deletions(-)

diff --git a/crates/rez-next-cache/src/intelligent_manager.rs b/crates/rez-next-cache/src/intelligent_manager.rs
index 21d0b83..fa530dc 100644
--- a/crates/rez-next-cache/src/intelligent_manager.rs
+++ b/crates/rez-next-cache/src/intelligent_manager.rs
@@ -182,14 +182,18 @@ where
     }
 
     /// Promote data from L2 to L1 cache
-    async fn promote_to_l1(
+    fn promote_to_l1(
         &self,
+        l2_cache: &mut HashMap<K, MultiLevelCacheEntry<V>>,
         key: K,
         mut entry: MultiLevelCacheEntry<V>,
     ) -> Result<(), CacheError> {
+        // Remove from L2
+        l2_cache.remove(&key);
+
         // Check L1 capacity
         if self.l1_cache.len() >= self.config.l1_config.max_entries {
-            self.evict_l1_entries().await?;
+            self.evict_l1_entries(l2_cache)?;
         }
 
         // Update entry metadata for L1
@@ -197,11 +201,7 @@ where
         entry.mark_accessed();
 
         // Insert into L1
-        self.l1_cache.insert(key.clone(), entry);
-
-        // Remove from L2
-        let mut l2_cache = self.l2_cache.write().await;
-        l2_cache.remove(&key);
+        self.l1_cache.insert(key, entry);
 
         // Update statistics
         {
@@ -213,31 +213,22 @@ where
     }
 
     /// Demote data from L1 to L2 cache
-    async fn demote_to_l2(
+    fn demote_to_l2(
         &self,
+        l2_cache: &mut HashMap<K, MultiLevelCacheEntry<V>>,
         key: K,
         mut entry: MultiLevelCacheEntry<V>,
     ) -> Result<(), CacheError> {
         // Check L2 capacity
-        {
-            let l2_cache = self.l2_cache.read().await;
-            if l2_cache.len() >= self.config.l2_config.max_entries {
-                drop(l2_cache);
-                self.evict_l2_entries().await?;
-            }
+        if l2_cache.len() >= self.config.l2_config.max_entries {
+            self.evict_l2_entries(l2_cache)?;
         }
 
         // Update entry metadata for L2
         entry.level = 2;
 
         // Insert into L2
-        {
-            let mut l2_cache = self.l2_cache.write().await;
-            l2_cache.insert(key.clone(), entry);
-        }
-
-        // Remove from L1
-        self.l1_cache.remove(&key);
+        l2_cache.insert(key, entry);
 
         // Update statistics
         {
@@ -249,7 +240,10 @@ where
     }
 
     /// Evict entries from L1 cache
-    async fn evict_l1_entries(&self) -> Result<(), CacheError> {
+    fn evict_l1_entries(
+        &self,
+        l2_cache: &mut HashMap<K, MultiLevelCacheEntry<V>>,
+    ) -> Result<(), CacheError> {
         let eviction_count = (self.l1_cache.len() as f64 * 0.1).max(1.0) as usize;
 
         // Collect entries with their priorities
@@ -270,7 +264,7 @@ where
             if let Some((_, entry)) = self.l1_cache.remove(&key) {
                 // Try to demote to L2 if valuable enough
                 if entry.access_count > 1 {
-                    self.demote_to_l2(key, entry).await?;
+                    self.demote_to_l2(l2_cache, key, entry)?;
                 }
             }
         }
@@ -279,8 +273,10 @@ where
     }
 
     /// Evict entries from L2 cache
-    async fn evict_l2_entries(&self) -> Result<(), CacheError> {
-        let mut l2_cache = self.l2_cache.write().await;
+    fn evict_l2_entries(
+        &self,
+        l2_cache: &mut HashMap<K, MultiLevelCacheEntry<V>>,
+    ) -> Result<(), CacheError> {
         let eviction_count = (l2_cache.len() as f64 * 0.1).max(1.0) as usize;
 
         // Collect entries with their priorities
@@ -356,6 +352,9 @@ where
         if let Some(mut entry) = self.l1_cache.get_mut(key) {
             if entry.is_valid() {
                 entry.mark_accessed();
+                let value = entry.value.clone();
+                // The entry must not stay locked while waiting below
+                drop(entry);
 
                 // Update statistics
                 {
@@ -366,11 +365,11 @@ where
                 // Record performance metrics
                 self.monitor.record_get_latency(start_time.elapsed()).await;
 
-                return Some(entry.value.clone());
+                return Some(value);
             } else {
                 // Remove expired entry
                 drop(entry);
-                self.l1_cache.remove(key);
+                self.l1_cache.remove_if(key, |_, entry| !entry.is_valid());
             }
         }
 
@@ -385,14 +384,16 @@ where
                     // Promote to L1 if frequently accessed
                     if entry.access_count >= self.config.l1_config.promotion_threshold {
                         let promoted_entry = entry.clone();
-                        l2_cache.remove(key);
-                        drop(l2_cache);
 
-                        if let Err(e) = self.promote_to_l1(key.clone(), promoted_entry).await {
+                        if let Err(e) =
+                            self.promote_to_l1(&mut l2_cache, key.clone(), promoted_entry)
+                        {
                             warn!("Failed to promote to L1: {:?}", e);
                         }
                     }
 
+                    drop(l2_cache);
+
                     // Update statistics
                     {
                         let mut stats = self.stats.write().unwrap();
@@ -407,6 +408,12 @@ where
                     // Remove expired entry
                     l2_cache.remove(key);
                 }
+            } else if let Some(entry) = self.l1_cache.get(key)
+                && entry.is_valid()
+            {
+                // It reached L1 between the two lookups
+                self.stats.write().unwrap().l1_stats.hits += 1;
+                return Some(entry.value.clone());
             }
         }
 
@@ -439,13 +446,22 @@ where
         let entry =
             MultiLevelCacheEntry::new(value, self.config.l1_config.default_ttl, 1, size_bytes);
 
-        // Check L1 capacity and evict if necessary
-        if self.l1_cache.len() >= self.config.l1_config.max_entries {
-            self.evict_l1_entries().await?;
-        }
+        {
+            // Entries move between the levels under the L2 lock: an older value
+            // can neither survive in L2 nor return from there.
+            let mut l2_cache = self.l2_cache.write().await;
+
+            // Check L1 capacity and evict if necessary
+            if self.l1_cache.len() >= self.config.l1_config.max_entries {
+                self.evict_l1_entries(&mut l2_cache)?;
+            }
+
+            // An evicted older value must not stay behind in L2
+            l2_cache.remove(&key);
 
-        // Insert into L1 cache
-        self.l1_cache.insert(key.clone(), entry);
+            // Insert into L1 cache
+            self.l1_cache.insert(key, entry);
+        }
 
         // Update statistics
         self.update_statistics().await;
@@ -463,11 +479,12 @@ where
 
     /// Remove a value from the cache
     async fn remove(&self, key: &K) -> bool {
-        let l1_removed = self.l1_cache.remove(key).is_some();
-
-        let l2_removed = {
+        let (l1_removed, l2_removed) = {
             let mut l2_cache = self.l2_cache.write().await;
-            l2_cache.remove(key).is_some()
+            (
+                self.l1_cache.remove(key).is_some(),
+                l2_cache.remove(key).is_some(),
+            )
         };
 
         // Update statistics if removed
@@ -493,7 +510,8 @@ where
             return entry.is_valid();
         }
 
-        false
+        // It may have reached L1 between the two lookups
+        self.l1_cache.get(key).is_some_and(|entry| entry.is_valid())
     }
 
     /// Get cache statistics
@@ -504,10 +522,9 @@ where
 
     /// Clear all cache entries
     async fn clear(&self) -> Result<(), CacheError> {
-        self.l1_cache.clear();
-
         {
             let mut l2_cache = self.l2_cache.write().await;
+            self.l1_cache.clear();
             l2_cache.clear();
         }
 
-- 
2.43.0


From 6382443aca3b05eb7091d43d8ce6273d98f2938c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:40 +0000
Subject: [PATCH 15/56] fix: definition caches survive damaged entries and
 concurrent use

An unreadable cache file made every lookup fail; a lookup racing with another
removal failed; files were written in place; the repository cache took its
locks in two orders, served packages whose file had been deleted or restored
to an earlier state, overflowed on long lifetimes and wrote files outside its
directory.
---
 crates/rez-next-package-cache/src/lib.rs | 38 ++++++++++++++++--------
 crates/rez-next-repository/src/cache.rs  | 38 ++++++++++++++----------
 2 files changed, 49 insertions(+), 27 deletions(-)

diff --git a/crates/rez-next-package-cache/src/lib.rs b/crates/rez-next-package-cache/src/lib.rs
index 3c44921..7d0c487 100644
--- a/crates/rez-next-package-cache/src/lib.rs
+++ b/crates/rez-next-package-cache/src/lib.rs
@@ -156,15 +156,13 @@ impl CacheBackend for InMemoryCache {
     fn get(&self, path: &Path) -> CacheResult<Option<CachedPackage>> {
         match self.store.get(path) {
             Some(entry) => {
-                // Update stats
-                *self.stats.entry("hits").or_insert(0) += 1;
-
                 // Check if entry is still valid
                 let cached = entry.clone();
                 if let Ok(metadata) = std::fs::metadata(path)
                     && let Ok(mtime) = metadata.modified()
                     && cached.is_valid(mtime)
                 {
+                    *self.stats.entry("hits").or_insert(0) += 1;
                     return Ok(Some(cached));
                 }
 
@@ -243,6 +241,14 @@ impl FileCache {
     }
 }
 
+/// Remove a file that another process may have removed already.
+fn remove_file_if_exists(path: &Path) -> CacheResult<()> {
+    match std::fs::remove_file(path) {
+        Err(e) if e.kind() != std::io::ErrorKind::NotFound => Err(e.into()),
+        _ => Ok(()),
+    }
+}
+
 impl CacheBackend for FileCache {
     fn get(&self, path: &Path) -> CacheResult<Option<CachedPackage>> {
         // Check in-memory cache first
@@ -253,11 +259,14 @@ impl CacheBackend for FileCache {
         // Check file cache
         let cache_file = self.cache_file_path(path);
         if cache_file.exists() {
-            let content = std::fs::read_to_string(&cache_file)?;
-            let cached: CachedPackage = serde_json::from_str(&content)?;
+            // An entry that cannot be read is as good as none
+            let stored = std::fs::read_to_string(&cache_file)
+                .ok()
+                .and_then(|content| serde_json::from_str::<CachedPackage>(&content).ok());
 
             // Check if entry is still valid
-            if let Ok(metadata) = std::fs::metadata(path)
+            if let Some(cached) = stored
+                && let Ok(metadata) = std::fs::metadata(path)
                 && let Ok(mtime) = metadata.modified()
                 && cached.is_valid(mtime)
             {
@@ -267,7 +276,7 @@ impl CacheBackend for FileCache {
             }
 
             // Entry is invalid, remove it
-            std::fs::remove_file(&cache_file)?;
+            remove_file_if_exists(&cache_file)?;
         }
 
         Ok(None)
@@ -280,7 +289,14 @@ impl CacheBackend for FileCache {
         // Update file cache
         let cache_file = self.cache_file_path(path);
         let content = serde_json::to_string_pretty(&package)?;
-        std::fs::write(&cache_file, content)?;
+        // Readers see the old or the new entry, never a part of it
+        let partial = cache_file.with_extension(format!(
+            "{}-{:?}.partial",
+            std::process::id(),
+            std::thread::current().id()
+        ));
+        std::fs::write(&partial, content)?;
+        std::fs::rename(&partial, &cache_file)?;
 
         Ok(())
     }
@@ -291,9 +307,7 @@ impl CacheBackend for FileCache {
 
         // Remove from file cache
         let cache_file = self.cache_file_path(path);
-        if cache_file.exists() {
-            std::fs::remove_file(&cache_file)?;
-        }
+        remove_file_if_exists(&cache_file)?;
 
         Ok(())
     }
@@ -307,7 +321,7 @@ impl CacheBackend for FileCache {
             let entry = entry?;
             let path = entry.path();
             if path.extension().is_some_and(|ext| ext == "json") {
-                std::fs::remove_file(&path)?;
+                remove_file_if_exists(&path)?;
             }
         }
 
diff --git a/crates/rez-next-repository/src/cache.rs b/crates/rez-next-repository/src/cache.rs
index 58f76e0..e9353b8 100644
--- a/crates/rez-next-repository/src/cache.rs
+++ b/crates/rez-next-repository/src/cache.rs
@@ -60,7 +60,7 @@ impl CacheEntry {
             .unwrap_or(0);
 
         // Check TTL
-        if now > self.timestamp + self.ttl {
+        if now > self.timestamp.saturating_add(self.ttl) {
             return false;
         }
 
@@ -69,10 +69,11 @@ impl CacheEntry {
             && let Ok(mtime) = metadata.modified()
             && let Ok(mtime_secs) = mtime.duration_since(UNIX_EPOCH)
         {
-            return mtime_secs.as_secs() <= self.source_mtime;
+            return mtime_secs.as_secs() == self.source_mtime;
         }
 
-        true
+        // The source is gone
+        false
     }
 
     /// Get the age of the cache entry in seconds
@@ -209,11 +210,10 @@ impl RepositoryCache {
 
         // Update statistics
         {
+            // Locks are always taken in this order
+            let index = self.index.read().await;
             let mut stats = self.stats.write().await;
-            stats.entries = {
-                let index = self.index.read().await;
-                index.len()
-            };
+            stats.entries = index.len();
         }
 
         // Check if cleanup is needed
@@ -316,7 +316,7 @@ impl RepositoryCache {
             .unwrap_or(0);
 
         let should_cleanup = match stats.last_cleanup {
-            Some(last) => now > last + self.config.cleanup_interval,
+            Some(last) => now > last.saturating_add(self.config.cleanup_interval),
             None => true,
         };
 
@@ -338,19 +338,27 @@ impl RepositoryCache {
                 .await
                 .map_err(|e| RezCoreError::Cache(format!("Failed to read cache index: {}", e)))?;
 
-            let cache_index: HashMap<String, CacheEntry> = serde_json::from_str(&content)
-                .map_err(|e| RezCoreError::Cache(format!("Failed to parse cache index: {}", e)))?;
-
-            let mut index = self.index.write().await;
-            *index = cache_index;
+            // An index that cannot be read is as good as none
+            if let Ok(cache_index) = serde_json::from_str::<HashMap<String, CacheEntry>>(&content) {
+                let mut index = self.index.write().await;
+                *index = cache_index;
+            }
         }
 
         Ok(())
     }
 
+    /// File of a cache entry, which is always directly inside the cache directory.
+    fn cache_file(&self, key: &str) -> Result<PathBuf, RezCoreError> {
+        if key.is_empty() || key.contains(['/', '\\']) {
+            return Err(RezCoreError::Cache(format!("Invalid cache key '{}'", key)));
+        }
+        Ok(self.config.cache_dir.join(format!("{}.json", key)))
+    }
+
     /// Write a cache entry to disk
     async fn write_cache_file(&self, key: &str, entry: &CacheEntry) -> Result<(), RezCoreError> {
-        let cache_file = self.config.cache_dir.join(format!("{}.json", key));
+        let cache_file = self.cache_file(key)?;
 
         let content = serde_json::to_string_pretty(entry)
             .map_err(|e| RezCoreError::Cache(format!("Failed to serialize cache entry: {}", e)))?;
@@ -364,7 +372,7 @@ impl RepositoryCache {
 
     /// Remove a cache file from disk
     async fn remove_cache_file(&self, key: &str) -> Result<(), RezCoreError> {
-        let cache_file = self.config.cache_dir.join(format!("{}.json", key));
+        let cache_file = self.cache_file(key)?;
 
         if cache_file.exists() {
             fs::remove_file(&cache_file)
-- 
2.43.0


From 979a3fcf462cce4ffb80f41cc4da8b7cd83fa82d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:56 +0000
Subject: [PATCH 16/56] fix: the payload cache measures links as links

---
 crates/rez-next-package/src/package_cache.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/rez-next-package/src/package_cache.rs b/crates/rez-next-package/src/package_cache.rs
index 90cca2f..0cc68d8 100644
--- a/crates/rez-next-package/src/package_cache.rs
+++ b/crates/rez-next-package/src/package_cache.rs
@@ -796,7 +796,8 @@ impl PackageCache {
                 };
 
                 let path = entry.path();
-                let metadata = match fs::metadata(&path) {
+                // Links are cached as links
+                let metadata = match fs::symlink_metadata(&path) {
                     Ok(m) => m,
                     Err(_) => continue,
                 };
-- 
2.43.0


From 71c2fcbe27f784a198cee040e09b5fb287794f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:07 +0000
Subject: [PATCH 17/56] fix: package commands expand once, quote exactly and
 stop in order

Rex arguments are read with their own quotes, context references are
expanded in a single pass, stop() and resetenv() act at their place in
the activation, generated shell scripts keep backslashes and never run
values as commands, and timed out or script executions respect the
configured environment.
---
 crates/rez-next-context/src/environment.rs | 27 ++++++--
 crates/rez-next-context/src/shell.rs       | 11 +++-
 crates/rez-next-rex/src/executor.rs        | 51 ++++++++++++---
 crates/rez-next-rex/src/parser.rs          | 75 +++++++++++++---------
 crates/rez-next-rex/src/shell.rs           | 21 ++++--
 5 files changed, 132 insertions(+), 53 deletions(-)

diff --git a/crates/rez-next-context/src/environment.rs b/crates/rez-next-context/src/environment.rs
index a7719b2..998459c 100644
--- a/crates/rez-next-context/src/environment.rs
+++ b/crates/rez-next-context/src/environment.rs
@@ -124,12 +124,19 @@ impl EnvironmentManager {
             |package| package.commands.as_deref(),
             |package| package.post_commands.as_deref(),
         ];
-        for commands_for in command_phases {
+        'phases: for commands_for in command_phases {
             for package in packages {
                 if let Some(commands) = commands_for(package) {
                     let (definitions, actions) = self.rex_effects(package, commands, priority)?;
                     env_definitions.extend(definitions);
                     shell_actions.extend(actions);
+                    // stop() ends the activation: nothing after it takes effect.
+                    if matches!(
+                        shell_actions.last().map(|action| &action.action_type),
+                        Some(RexActionType::Stop { .. })
+                    ) {
+                        break 'phases;
+                    }
                 }
                 priority += 1;
             }
@@ -228,7 +235,9 @@ impl EnvironmentManager {
                 RexActionType::Setenv { name, value } => {
                     Some((name.clone(), EnvOperation::Set(value.clone())))
                 }
-                RexActionType::Unsetenv { name } => Some((name.clone(), EnvOperation::Unset)),
+                RexActionType::Unsetenv { name } | RexActionType::Resetenv { name } => {
+                    Some((name.clone(), EnvOperation::Unset))
+                }
                 RexActionType::PrependPath {
                     name,
                     value,
@@ -258,6 +267,9 @@ impl EnvironmentManager {
             };
             let Some((name, operation)) = definition else {
                 shell_actions.push(action.clone());
+                if matches!(action.action_type, RexActionType::Stop { .. }) {
+                    break;
+                }
                 continue;
             };
             definitions.push(EnvVarDefinition {
@@ -461,6 +473,7 @@ impl EnvironmentManager {
     /// Escape a value for bash/zsh
     fn escape_bash_value(&self, value: &str) -> String {
         value
+            .replace('\\', "\\\\")
             .replace("\"", "\\\"")
             .replace("$", "\\$")
             .replace("`", "\\`")
@@ -468,12 +481,18 @@ impl EnvironmentManager {
 
     /// Escape a value for PowerShell
     fn escape_powershell_value(&self, value: &str) -> String {
-        value.replace("\"", "`\"").replace("$", "`$")
+        value
+            .replace('`', "``")
+            .replace("\"", "`\"")
+            .replace("$", "`$")
     }
 
     /// Escape a value for fish shell
     fn escape_fish_value(&self, value: &str) -> String {
-        value.replace("\"", "\\\"").replace("$", "\\$")
+        value
+            .replace('\\', "\\\\")
+            .replace("\"", "\\\"")
+            .replace("$", "\\$")
     }
 
     /// Get environment variable differences from base environment
diff --git a/crates/rez-next-context/src/shell.rs b/crates/rez-next-context/src/shell.rs
index 79366ed..d0b3b25 100644
--- a/crates/rez-next-context/src/shell.rs
+++ b/crates/rez-next-context/src/shell.rs
@@ -225,7 +225,9 @@ impl ShellExecutor {
             cmd.arg(self.shell_type.command_flag()).arg(command);
             None
         };
-        cmd.stdout(Stdio::piped()).stderr(Stdio::piped());
+        cmd.stdout(Stdio::piped())
+            .stderr(Stdio::piped())
+            .kill_on_drop(true);
 
         // Set working directory
         if let Some(ref wd) = self.working_directory {
@@ -339,7 +341,9 @@ impl ShellExecutor {
             }
         }
 
-        cmd.stdout(Stdio::piped()).stderr(Stdio::piped());
+        cmd.stdout(Stdio::piped())
+            .stderr(Stdio::piped())
+            .kill_on_drop(true);
 
         // Set working directory
         if let Some(ref wd) = self.working_directory {
@@ -347,6 +351,9 @@ impl ShellExecutor {
         }
 
         // Set environment variables
+        if !self.inherit_parent_env {
+            cmd.env_clear();
+        }
         for (key, value) in &self.environment {
             cmd.env(key, value);
         }
diff --git a/crates/rez-next-rex/src/executor.rs b/crates/rez-next-rex/src/executor.rs
index 37db3bf..869b383 100644
--- a/crates/rez-next-rex/src/executor.rs
+++ b/crates/rez-next-rex/src/executor.rs
@@ -86,17 +86,50 @@ impl RexExecutor {
         self.actions.clear();
     }
 
+    /// Replace `{variable}` and `$VARIABLE` references in one pass, so that
+    /// substituted values are never expanded again.
+    fn expand_vars(&self, text: &str) -> String {
+        let mut result = String::with_capacity(text.len());
+        let mut rest = text;
+        while let Some(start) = rest.find(['{', '$']) {
+            result.push_str(&rest[..start]);
+            rest = &rest[start..];
+            let reference = self
+                .context_vars
+                .iter()
+                .filter_map(|(key, value)| {
+                    let braced = format!("{{{key}}}");
+                    let dollar = format!("${}", key.to_uppercase());
+                    if rest.starts_with(&braced) {
+                        Some((braced.len(), value))
+                    } else if rest.starts_with(&dollar)
+                        && !rest[dollar.len()..]
+                            .starts_with(|c: char| c.is_ascii_alphanumeric() || c == '_')
+                    {
+                        Some((dollar.len(), value))
+                    } else {
+                        None
+                    }
+                })
+                .max_by_key(|(length, _)| *length);
+            match reference {
+                Some((length, value)) => {
+                    result.push_str(value);
+                    rest = &rest[length..];
+                }
+                None => {
+                    result.push_str(&rest[..1]);
+                    rest = &rest[1..];
+                }
+            }
+        }
+        result.push_str(rest);
+        result
+    }
+
     /// Expand {variable} references in action values
     fn expand_action_vars(&self, action: RexAction) -> RexAction {
-        let expand = |s: &str| -> String {
-            let mut result = s.to_string();
-            for (key, value) in &self.context_vars {
-                result = result.replace(&format!("{{{}}}", key), value);
-                // Also support $NAME style
-                result = result.replace(&format!("${}", key.to_uppercase()), value);
-            }
-            result
-        };
+        let expand = |s: &str| self.expand_vars(s);
 
         let new_action_type = match action.action_type {
             RexActionType::Setenv { name, value } => RexActionType::Setenv {
diff --git a/crates/rez-next-rex/src/parser.rs b/crates/rez-next-rex/src/parser.rs
index 8144bdb..817f448 100644
--- a/crates/rez-next-rex/src/parser.rs
+++ b/crates/rez-next-rex/src/parser.rs
@@ -1,7 +1,7 @@
 //! Rex command parser: parses package commands strings into RexActions
 
 use crate::actions::{RexAction, RexActionType};
-use regex::Regex;
+use regex::{Captures, Regex};
 use rez_next_common::RezCoreError;
 use std::sync::OnceLock;
 
@@ -44,27 +44,27 @@ impl RexParser {
         Self {
             // env.setenv('VAR', 'value') or env.setenv("VAR", "value")
             setenv_re: Regex::new(
-                r#"^(?:env\.)?setenv\s*\(\s*['"]([^'"]+)['"]\s*,\s*['"]([^'"]*)['"]\s*\)$"#
+                r#"^(?:env\.)?setenv\s*\(\s*(?:'([^']+)'|"([^"]+)")\s*,\s*(?:'([^']*)'|"([^"]*)")\s*\)$"#
             ).unwrap(),
             // env.unsetenv('VAR') or unsetenv('VAR')
             unsetenv_re: Regex::new(
-                r#"^(?:env\.)?unsetenv\s*\(\s*['"]([^'"]+)['"]\s*\)$"#
+                r#"^(?:env\.)?unsetenv\s*\(\s*(?:'([^']+)'|"([^"]+)")\s*\)$"#
             ).unwrap(),
             // env.prepend_path('VAR', 'value') or prependenv('VAR', 'value')
             prepend_re: Regex::new(
-                r#"^(?:env\.prepend_path|prependenv)\s*\(\s*['"]([^'"]+)['"]\s*,\s*['"]([^'"]*)['"]\s*\)$"#
+                r#"^(?:env\.prepend_path|prependenv)\s*\(\s*(?:'([^']+)'|"([^"]+)")\s*,\s*(?:'([^']*)'|"([^"]*)")\s*\)$"#
             ).unwrap(),
             // env.append_path('VAR', 'value') or appendenv('VAR', 'value')
             append_re: Regex::new(
-                r#"^(?:env\.append_path|appendenv)\s*\(\s*['"]([^'"]+)['"]\s*,\s*['"]([^'"]*)['"]\s*\)$"#
+                r#"^(?:env\.append_path|appendenv)\s*\(\s*(?:'([^']+)'|"([^"]+)")\s*,\s*(?:'([^']*)'|"([^"]*)")\s*\)$"#
             ).unwrap(),
             // env.setenv_if_empty('VAR', 'value')
             setenv_if_empty_re: Regex::new(
-                r#"^env\.setenv_if_empty\s*\(\s*['"]([^'"]+)['"]\s*,\s*['"]([^'"]*)['"]\s*\)$"#
+                r#"^env\.setenv_if_empty\s*\(\s*(?:'([^']+)'|"([^"]+)")\s*,\s*(?:'([^']*)'|"([^"]*)")\s*\)$"#
             ).unwrap(),
             // alias('name', 'cmd')
             alias_re: Regex::new(
-                r#"^(?:env\.)?alias\s*\(\s*['"]([^'"]+)['"]\s*,\s*['"]([^'"]*)['"]\s*\)$"#
+                r#"^(?:env\.)?alias\s*\(\s*(?:'([^']+)'|"([^"]+)")\s*,\s*(?:'([^']*)'|"([^"]*)")\s*\)$"#
             ).unwrap(),
             // export VAR="value" or export VAR=value
             export_re: Regex::new(
@@ -76,31 +76,31 @@ impl RexParser {
             ).unwrap(),
             // command('cmd arg1 arg2') or command("cmd")
             command_re: Regex::new(
-                r#"^command\s*\(\s*['"]([^'"]*)['"]\s*\)$"#
+                r#"^command\s*\(\s*(?:'([^']*)'|"([^"]*)")\s*\)$"#
             ).unwrap(),
             // source('path') or source("path")
             source_re: Regex::new(
-                r#"^source\s*\(\s*['"]([^'"]*)['"]\s*\)$"#
+                r#"^source\s*\(\s*(?:'([^']*)'|"([^"]*)")\s*\)$"#
             ).unwrap(),
             // resetenv('VAR') or env.resetenv('VAR')
             resetenv_re: Regex::new(
-                r#"^(?:env\.)?resetenv\s*\(\s*['"]([^'"]+)['"]\s*\)$"#
+                r#"^(?:env\.)?resetenv\s*\(\s*(?:'([^']+)'|"([^"]+)")\s*\)$"#
             ).unwrap(),
             // info('message') or info("message")
             info_re: Regex::new(
-                r#"^info\s*\(\s*['"]([^'"]*)['"]\s*\)$"#
+                r#"^info\s*\(\s*(?:'([^']*)'|"([^"]*)")\s*\)$"#
             ).unwrap(),
             // error('message') or error("message")
             error_re: Regex::new(
-                r#"^error\s*\(\s*['"]([^'"]*)['"]\s*\)$"#
+                r#"^error\s*\(\s*(?:'([^']*)'|"([^"]*)")\s*\)$"#
             ).unwrap(),
             // stop() or stop('message') or stop("message")
             stop_re: Regex::new(
-                r#"^stop\s*\(\s*(?:['"]([^'"]*)['"]\s*)?\)$"#
+                r#"^stop\s*\(\s*(?:(?:'([^']*)'|"([^"]*)")\s*)?\)$"#
             ).unwrap(),
             // comment('text') or comment("text")
             comment_fn_re: Regex::new(
-                r#"^comment\s*\(\s*['"]([^'"]*)['"]\s*\)$"#
+                r#"^comment\s*\(\s*(?:'([^']*)'|"([^"]*)")\s*\)$"#
             ).unwrap(),
         }
     }
@@ -129,23 +129,23 @@ impl RexParser {
             if let Some(caps) = self.setenv_re.captures(line) {
                 actions.push(RexAction {
                     action_type: RexActionType::Setenv {
-                        name: caps[1].to_string(),
-                        value: caps[2].to_string(),
+                        name: quoted(&caps, 0),
+                        value: quoted(&caps, 1),
                     },
                     source_package: None,
                 });
             } else if let Some(caps) = self.unsetenv_re.captures(line) {
                 actions.push(RexAction {
                     action_type: RexActionType::Unsetenv {
-                        name: caps[1].to_string(),
+                        name: quoted(&caps, 0),
                     },
                     source_package: None,
                 });
             } else if let Some(caps) = self.prepend_re.captures(line) {
                 actions.push(RexAction {
                     action_type: RexActionType::PrependPath {
-                        name: caps[1].to_string(),
-                        value: caps[2].to_string(),
+                        name: quoted(&caps, 0),
+                        value: quoted(&caps, 1),
                         separator: None,
                     },
                     source_package: None,
@@ -153,8 +153,8 @@ impl RexParser {
             } else if let Some(caps) = self.append_re.captures(line) {
                 actions.push(RexAction {
                     action_type: RexActionType::AppendPath {
-                        name: caps[1].to_string(),
-                        value: caps[2].to_string(),
+                        name: quoted(&caps, 0),
+                        value: quoted(&caps, 1),
                         separator: None,
                     },
                     source_package: None,
@@ -162,65 +162,68 @@ impl RexParser {
             } else if let Some(caps) = self.setenv_if_empty_re.captures(line) {
                 actions.push(RexAction {
                     action_type: RexActionType::SetenvIfEmpty {
-                        name: caps[1].to_string(),
-                        value: caps[2].to_string(),
+                        name: quoted(&caps, 0),
+                        value: quoted(&caps, 1),
                     },
                     source_package: None,
                 });
             } else if let Some(caps) = self.alias_re.captures(line) {
                 actions.push(RexAction {
                     action_type: RexActionType::Alias {
-                        name: caps[1].to_string(),
-                        value: caps[2].to_string(),
+                        name: quoted(&caps, 0),
+                        value: quoted(&caps, 1),
                     },
                     source_package: None,
                 });
             } else if let Some(caps) = self.command_re.captures(line) {
                 actions.push(RexAction {
                     action_type: RexActionType::Command {
-                        cmd: caps[1].to_string(),
+                        cmd: quoted(&caps, 0),
                     },
                     source_package: None,
                 });
             } else if let Some(caps) = self.source_re.captures(line) {
                 actions.push(RexAction {
                     action_type: RexActionType::Source {
-                        path: caps[1].to_string(),
+                        path: quoted(&caps, 0),
                     },
                     source_package: None,
                 });
             } else if let Some(caps) = self.resetenv_re.captures(line) {
                 actions.push(RexAction {
                     action_type: RexActionType::Resetenv {
-                        name: caps[1].to_string(),
+                        name: quoted(&caps, 0),
                     },
                     source_package: None,
                 });
             } else if let Some(caps) = self.info_re.captures(line) {
                 actions.push(RexAction {
                     action_type: RexActionType::Info {
-                        message: caps[1].to_string(),
+                        message: quoted(&caps, 0),
                     },
                     source_package: None,
                 });
             } else if let Some(caps) = self.error_re.captures(line) {
                 actions.push(RexAction {
                     action_type: RexActionType::Error {
-                        message: caps[1].to_string(),
+                        message: quoted(&caps, 0),
                     },
                     source_package: None,
                 });
             } else if let Some(caps) = self.stop_re.captures(line) {
                 actions.push(RexAction {
                     action_type: RexActionType::Stop {
-                        message: caps.get(1).map(|m| m.as_str().to_string()),
+                        message: caps
+                            .get(1)
+                            .or_else(|| caps.get(2))
+                            .map(|m| m.as_str().to_string()),
                     },
                     source_package: None,
                 });
             } else if let Some(caps) = self.comment_fn_re.captures(line) {
                 actions.push(RexAction {
                     action_type: RexActionType::Comment {
-                        text: caps[1].to_string(),
+                        text: quoted(&caps, 0),
                     },
                     source_package: None,
                 });
@@ -251,6 +254,14 @@ impl RexParser {
     }
 }
 
+/// The text of the `index`-th quoted argument, whichever quote it uses.
+fn quoted(caps: &Captures, index: usize) -> String {
+    caps.get(2 * index + 1)
+        .or_else(|| caps.get(2 * index + 2))
+        .map(|m| m.as_str().to_string())
+        .unwrap_or_default()
+}
+
 impl Default for RexParser {
     fn default() -> Self {
         Self::new()
diff --git a/crates/rez-next-rex/src/shell.rs b/crates/rez-next-rex/src/shell.rs
index 97321a1..2ec91fa 100644
--- a/crates/rez-next-rex/src/shell.rs
+++ b/crates/rez-next-rex/src/shell.rs
@@ -46,6 +46,16 @@ pub fn generate_shell_script(env: &RexEnvironment, shell: &ShellType) -> String
     }
 }
 
+/// Escape a value for a double-quoted bash/zsh word. References such as `$HOME`
+/// keep their meaning; values can never start a command substitution.
+fn escape_bash(value: &str) -> String {
+    value
+        .replace('\\', "\\\\")
+        .replace('"', "\\\"")
+        .replace('`', "\\`")
+        .replace("$(", "\\$(")
+}
+
 /// Generate bash/zsh activation script
 fn generate_bash_script(env: &RexEnvironment) -> String {
     let mut lines = Vec::new();
@@ -56,9 +66,7 @@ fn generate_bash_script(env: &RexEnvironment) -> String {
     let mut vars: Vec<_> = env.vars.iter().collect();
     vars.sort_by_key(|(k, _)| k.as_str());
     for (key, value) in &vars {
-        // Escape double quotes in value
-        let escaped = value.replace('\\', "\\\\").replace('"', "\\\"");
-        lines.push(format!("export {}=\"{}\"", key, escaped));
+        lines.push(format!("export {}=\"{}\"", key, escape_bash(value)));
     }
 
     if !env.vars.is_empty() && !env.aliases.is_empty() {
@@ -87,8 +95,7 @@ fn generate_bash_script(env: &RexEnvironment) -> String {
         lines.push(String::new());
         lines.push("# Sourced scripts".to_string());
         for script in &env.sourced_scripts {
-            let escaped = script.replace('"', "\\\"");
-            lines.push(format!("source \"{}\"", escaped));
+            lines.push(format!("source \"{}\"", escape_bash(script)));
         }
     }
 
@@ -98,7 +105,9 @@ fn generate_bash_script(env: &RexEnvironment) -> String {
         lines.push("# Info messages".to_string());
         for msg in &env.info_messages {
             let escaped = msg.replace('\'', "'\\''");
-            lines.push(format!("# [info] {}", escaped));
+            for line in escaped.lines() {
+                lines.push(format!("# [info] {}", line));
+            }
         }
     }
 
-- 
2.43.0


From 25ed99406377e6a6f6a4ee667d66c9bb14485ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:36:40 +0000
Subject: [PATCH 18/56] fix: package.py is read as Python evaluates it or
 rejected

Chained comparisons, boolean operators, format strings, multiple
assignment targets, large integers and number texts were evaluated
wrongly, overflow and negative repetition panicked, and unsupported
command assignments and arguments were dropped silently.
---
 .../src/python_ast_parser/commands.rs         | 142 +++++++++++-------
 .../src/python_ast_parser/eval.rs             | 127 +++++++++++-----
 .../src/python_ast_parser/extract.rs          |  30 ++--
 .../src/python_ast_parser/mod.rs              |  14 +-
 .../src/python_ast_parser/types.rs            |  15 ++
 5 files changed, 208 insertions(+), 120 deletions(-)

diff --git a/crates/rez-next-package/src/python_ast_parser/commands.rs b/crates/rez-next-package/src/python_ast_parser/commands.rs
index 70dbe3e..990ee83 100644
--- a/crates/rez-next-package/src/python_ast_parser/commands.rs
+++ b/crates/rez-next-package/src/python_ast_parser/commands.rs
@@ -65,6 +65,31 @@ impl PythonAstParser {
         result
     }
 
+    /// Write one Rex call. Rex has no escapes, so each argument is quoted with a
+    /// quote it does not contain; one that cannot be quoted is rejected.
+    fn rex_call(function: &str, arguments: &[&str]) -> Result<Option<String>, RezCoreError> {
+        let arguments = arguments
+            .iter()
+            .map(|argument| {
+                if argument.contains('\n') {
+                    None
+                } else if !argument.contains('\'') {
+                    Some(format!("'{argument}'"))
+                } else if !argument.contains('"') {
+                    Some(format!("\"{argument}\""))
+                } else {
+                    None
+                }
+            })
+            .collect::<Option<Vec<_>>>()
+            .ok_or_else(|| {
+                RezCoreError::PackageParse(format!(
+                    "Unsupported command statement: {function}{arguments:?} cannot be quoted"
+                ))
+            })?;
+        Ok(Some(format!("{function}({})", arguments.join(", "))))
+    }
+
     /// Extract a Rex DSL command string from a single statement.
     ///
     /// Supports:
@@ -101,25 +126,33 @@ impl PythonAstParser {
 
             // Handle `env.VAR = "value"` (attribute assignment shorthand)
             Stmt::Assign(assign) => {
-                if let Some(Expr::Name(name)) = assign.targets.first() {
+                if let [Expr::Name(name)] = assign.targets.as_slice() {
                     let value = self.evaluate_expression(&assign.value)?;
                     self.context.variables.insert(name.id.to_string(), value);
                     return Ok(None);
                 }
-                if let Some(Expr::Attribute(attr)) = assign.targets.first()
+                if let [Expr::Attribute(attr)] = assign.targets.as_slice()
                     && let Expr::Name(name_expr) = &*attr.value
                     && name_expr.id.as_str() == "env"
                 {
                     let var_name = attr.attr.as_str();
                     if let Ok(value) = self.extract_string_value(&assign.value) {
-                        return Ok(Some(format!("env.setenv('{}', '{}')", var_name, value)));
+                        return Self::rex_call("env.setenv", &[var_name, &value]);
                     }
                 }
+                return Err(RezCoreError::PackageParse(format!(
+                    "Unsupported command statement: {assign:?}"
+                )));
             }
 
             // Handle function calls: env.method(...) and top-level Rex calls
             Stmt::Expr(expr_stmt) => {
                 if let Expr::Call(call) = &*expr_stmt.value {
+                    if !call.keywords.is_empty() {
+                        return Err(RezCoreError::PackageParse(format!(
+                            "Unsupported command statement: {call:?}"
+                        )));
+                    }
                     if let Expr::Attribute(attr) = &*call.func {
                         // ─── env.method('VAR', ...) ───────────────────────────
                         if let Expr::Name(obj) = &*attr.value
@@ -127,52 +160,43 @@ impl PythonAstParser {
                         {
                             let method = attr.attr.as_str();
                             match method {
-                                "setenv" if call.args.len() >= 2 => {
+                                "setenv" if call.args.len() == 2 => {
                                     if let (Ok(k), Ok(v)) = (
                                         self.extract_string_value(&call.args[0]),
                                         self.extract_string_value(&call.args[1]),
                                     ) {
-                                        return Ok(Some(format!("env.setenv('{}', '{}')", k, v)));
+                                        return Self::rex_call("env.setenv", &[&k, &v]);
                                     }
                                 }
-                                "unsetenv" => {
+                                "unsetenv" if call.args.len() == 1 => {
                                     if let Some(arg) = call.args.first()
                                         && let Ok(k) = self.extract_string_value(arg)
                                     {
-                                        return Ok(Some(format!("env.unsetenv('{}')", k)));
+                                        return Self::rex_call("env.unsetenv", &[&k]);
                                     }
                                 }
-                                "prepend_path" if call.args.len() >= 2 => {
+                                "prepend_path" if call.args.len() == 2 => {
                                     if let (Ok(k), Ok(v)) = (
                                         self.extract_string_value(&call.args[0]),
                                         self.extract_string_value(&call.args[1]),
                                     ) {
-                                        return Ok(Some(format!(
-                                            "env.prepend_path('{}', '{}')",
-                                            k, v
-                                        )));
+                                        return Self::rex_call("env.prepend_path", &[&k, &v]);
                                     }
                                 }
-                                "append_path" if call.args.len() >= 2 => {
+                                "append_path" if call.args.len() == 2 => {
                                     if let (Ok(k), Ok(v)) = (
                                         self.extract_string_value(&call.args[0]),
                                         self.extract_string_value(&call.args[1]),
                                     ) {
-                                        return Ok(Some(format!(
-                                            "env.append_path('{}', '{}')",
-                                            k, v
-                                        )));
+                                        return Self::rex_call("env.append_path", &[&k, &v]);
                                     }
                                 }
-                                "setenv_if_empty" if call.args.len() >= 2 => {
+                                "setenv_if_empty" if call.args.len() == 2 => {
                                     if let (Ok(k), Ok(v)) = (
                                         self.extract_string_value(&call.args[0]),
                                         self.extract_string_value(&call.args[1]),
                                     ) {
-                                        return Ok(Some(format!(
-                                            "env.setenv_if_empty('{}', '{}')",
-                                            k, v
-                                        )));
+                                        return Self::rex_call("env.setenv_if_empty", &[&k, &v]);
                                     }
                                 }
                                 _ => {}
@@ -186,30 +210,30 @@ impl PythonAstParser {
                         {
                             let var_name = env_attr.attr.as_str();
                             let method = attr.attr.as_str();
-                            if let Some(arg) = call.args.first()
+                            if method == "unset" && call.args.is_empty() {
+                                return Self::rex_call("env.unsetenv", &[var_name]);
+                            }
+                            if let [arg] = call.args.as_slice()
                                 && let Ok(value) = self.extract_string_value(arg)
                             {
                                 match method {
                                     "prepend" => {
-                                        return Ok(Some(format!(
-                                            "env.prepend_path('{}', '{}')",
-                                            var_name, value
-                                        )));
+                                        return Self::rex_call(
+                                            "env.prepend_path",
+                                            &[var_name, &value],
+                                        );
                                     }
                                     "append" => {
-                                        return Ok(Some(format!(
-                                            "env.append_path('{}', '{}')",
-                                            var_name, value
-                                        )));
+                                        return Self::rex_call(
+                                            "env.append_path",
+                                            &[var_name, &value],
+                                        );
                                     }
                                     "set" => {
-                                        return Ok(Some(format!(
-                                            "env.setenv('{}', '{}')",
-                                            var_name, value
-                                        )));
+                                        return Self::rex_call("env.setenv", &[var_name, &value]);
                                     }
                                     "unset" => {
-                                        return Ok(Some(format!("env.unsetenv('{}')", var_name)));
+                                        return Self::rex_call("env.unsetenv", &[var_name]);
                                     }
                                     _ => {}
                                 }
@@ -220,85 +244,87 @@ impl PythonAstParser {
                     // ─── Top-level Rex calls ──────────────────────────────────
                     if let Expr::Name(func_name) = &*call.func {
                         match func_name.id.as_str() {
-                            "alias" if call.args.len() >= 2 => {
+                            "alias" if call.args.len() == 2 => {
                                 if let (Ok(name), Ok(cmd)) = (
                                     self.extract_string_value(&call.args[0]),
                                     self.extract_string_value(&call.args[1]),
                                 ) {
-                                    return Ok(Some(format!("alias('{}', '{}')", name, cmd)));
+                                    return Self::rex_call("alias", &[&name, &cmd]);
                                 }
                             }
-                            "command" => {
+                            "command" if call.args.len() == 1 => {
                                 if let Some(arg) = call.args.first()
                                     && let Ok(cmd) = self.extract_string_value(arg)
                                 {
-                                    return Ok(Some(format!("command('{}')", cmd)));
+                                    return Self::rex_call("command", &[&cmd]);
                                 }
                             }
-                            "source" => {
+                            "source" if call.args.len() == 1 => {
                                 if let Some(arg) = call.args.first()
                                     && let Ok(path) = self.extract_string_value(arg)
                                 {
-                                    return Ok(Some(format!("source('{}')", path)));
+                                    return Self::rex_call("source", &[&path]);
                                 }
                             }
-                            "info" => {
+                            "info" if call.args.len() == 1 => {
                                 if let Some(arg) = call.args.first()
                                     && let Ok(msg) = self.extract_string_value(arg)
                                 {
-                                    return Ok(Some(format!("info('{}')", msg)));
+                                    return Self::rex_call("info", &[&msg]);
                                 }
                             }
-                            "error" => {
+                            "error" if call.args.len() == 1 => {
                                 if let Some(arg) = call.args.first()
                                     && let Ok(msg) = self.extract_string_value(arg)
                                 {
-                                    return Ok(Some(format!("error('{}')", msg)));
+                                    return Self::rex_call("error", &[&msg]);
                                 }
                             }
                             "stop" => {
                                 if call.args.is_empty() {
                                     return Ok(Some("stop()".to_string()));
-                                } else if let Ok(msg) = self.extract_string_value(&call.args[0]) {
-                                    return Ok(Some(format!("stop('{}')", msg)));
+                                } else if call.args.len() == 1
+                                    && let Ok(msg) = self.extract_string_value(&call.args[0])
+                                {
+                                    return Self::rex_call("stop", &[&msg]);
                                 }
                             }
-                            "resetenv" => {
+                            "resetenv" if call.args.len() == 1 => {
                                 if let Some(arg) = call.args.first()
                                     && let Ok(var) = self.extract_string_value(arg)
                                 {
-                                    return Ok(Some(format!("resetenv('{}')", var)));
+                                    return Self::rex_call("resetenv", &[&var]);
                                 }
                             }
-                            "setenv" if call.args.len() >= 2 => {
+                            "setenv" if call.args.len() == 2 => {
                                 if let (Ok(k), Ok(v)) = (
                                     self.extract_string_value(&call.args[0]),
                                     self.extract_string_value(&call.args[1]),
                                 ) {
-                                    return Ok(Some(format!("setenv('{}', '{}')", k, v)));
+                                    return Self::rex_call("setenv", &[&k, &v]);
                                 }
                             }
-                            "prependenv" if call.args.len() >= 2 => {
+                            "prependenv" if call.args.len() == 2 => {
                                 if let (Ok(k), Ok(v)) = (
                                     self.extract_string_value(&call.args[0]),
                                     self.extract_string_value(&call.args[1]),
                                 ) {
-                                    return Ok(Some(format!("prependenv('{}', '{}')", k, v)));
+                                    return Self::rex_call("prependenv", &[&k, &v]);
                                 }
                             }
-                            "appendenv" if call.args.len() >= 2 => {
+                            "appendenv" if call.args.len() == 2 => {
                                 if let (Ok(k), Ok(v)) = (
                                     self.extract_string_value(&call.args[0]),
                                     self.extract_string_value(&call.args[1]),
                                 ) {
-                                    return Ok(Some(format!("appendenv('{}', '{}')", k, v)));
+                                    return Self::rex_call("appendenv", &[&k, &v]);
                                 }
                             }
-                            "unsetenv" => {
+                            "unsetenv" if call.args.len() == 1 => {
                                 if let Some(arg) = call.args.first()
                                     && let Ok(k) = self.extract_string_value(arg)
                                 {
-                                    return Ok(Some(format!("unsetenv('{}')", k)));
+                                    return Self::rex_call("unsetenv", &[&k]);
                                 }
                             }
                             _ => {}
diff --git a/crates/rez-next-package/src/python_ast_parser/eval.rs b/crates/rez-next-package/src/python_ast_parser/eval.rs
index 297fe1e..da4dc91 100644
--- a/crates/rez-next-package/src/python_ast_parser/eval.rs
+++ b/crates/rez-next-package/src/python_ast_parser/eval.rs
@@ -6,7 +6,16 @@ use rez_next_common::RezCoreError;
 use rustpython_ast::{BoolOp, CmpOp, Constant, Expr, Operator, UnaryOp};
 use std::collections::HashMap;
 
+/// Longest string a package.py repetition (`"-" * 80`) may produce.
+const MAX_REPEATED_LENGTH: usize = 1 << 20;
+
 impl PythonAstParser {
+    fn checked_integer(value: Option<i64>) -> Result<PythonValue, RezCoreError> {
+        value
+            .map(PythonValue::Integer)
+            .ok_or_else(|| RezCoreError::PackageParse("Integer too large".to_string()))
+    }
+
     /// Evaluate a Python expression to a value
     pub(super) fn evaluate_expression(&self, expr: &Expr) -> Result<PythonValue, RezCoreError> {
         match expr {
@@ -81,7 +90,7 @@ impl PythonAstParser {
                 Ok(PythonValue::String(format!("{}{}", l, r)))
             }
             (PythonValue::Integer(l), Operator::Add, PythonValue::Integer(r)) => {
-                Ok(PythonValue::Integer(l + r))
+                Self::checked_integer(l.checked_add(*r))
             }
             (PythonValue::Float(l), Operator::Add, PythonValue::Float(r)) => {
                 Ok(PythonValue::Float(l + r))
@@ -92,13 +101,19 @@ impl PythonAstParser {
                 Ok(PythonValue::List(result))
             }
             (PythonValue::Integer(l), Operator::Sub, PythonValue::Integer(r)) => {
-                Ok(PythonValue::Integer(l - r))
+                Self::checked_integer(l.checked_sub(*r))
             }
             (PythonValue::Integer(l), Operator::Mult, PythonValue::Integer(r)) => {
-                Ok(PythonValue::Integer(l * r))
+                Self::checked_integer(l.checked_mul(*r))
             }
             (PythonValue::String(l), Operator::Mult, PythonValue::Integer(r)) => {
-                Ok(PythonValue::String(l.repeat(*r as usize)))
+                let count = usize::try_from(*r).unwrap_or(0);
+                if l.len().saturating_mul(count) > MAX_REPEATED_LENGTH {
+                    return Err(RezCoreError::PackageParse(
+                        "Repeated string is too long".to_string(),
+                    ));
+                }
+                Ok(PythonValue::String(l.repeat(count)))
             }
             _ => Err(RezCoreError::PackageParse(format!(
                 "Unsupported binary operation: {left:?} {:?} {right:?}",
@@ -117,7 +132,7 @@ impl PythonAstParser {
         match (&unaryop.op, &operand) {
             (UnaryOp::Not, PythonValue::Boolean(b)) => Ok(PythonValue::Boolean(!b)),
             (UnaryOp::UAdd, PythonValue::Integer(i)) => Ok(PythonValue::Integer(*i)),
-            (UnaryOp::USub, PythonValue::Integer(i)) => Ok(PythonValue::Integer(-i)),
+            (UnaryOp::USub, PythonValue::Integer(i)) => Self::checked_integer(i.checked_neg()),
             (UnaryOp::UAdd, PythonValue::Float(f)) => Ok(PythonValue::Float(*f)),
             (UnaryOp::USub, PythonValue::Float(f)) => Ok(PythonValue::Float(-f)),
             _ => Err(RezCoreError::PackageParse(format!(
@@ -132,7 +147,7 @@ impl PythonAstParser {
         &self,
         compare: &rustpython_ast::ExprCompare,
     ) -> Result<PythonValue, RezCoreError> {
-        let left = self.evaluate_expression(&compare.left)?;
+        let mut left = self.evaluate_expression(&compare.left)?;
 
         if compare.ops.len() != compare.comparators.len() {
             return Err(RezCoreError::PackageParse(
@@ -160,6 +175,8 @@ impl PythonAstParser {
             if !result {
                 return Ok(PythonValue::Boolean(false));
             }
+            // A chained comparison continues from the operand just compared.
+            left = right;
         }
 
         Ok(PythonValue::Boolean(true))
@@ -170,26 +187,21 @@ impl PythonAstParser {
         &self,
         boolop: &rustpython_ast::ExprBoolOp,
     ) -> Result<PythonValue, RezCoreError> {
-        match &boolop.op {
-            BoolOp::And => {
-                for value in &boolop.values {
-                    let result = self.evaluate_expression(value)?;
-                    if let PythonValue::Boolean(false) = result {
-                        return Ok(PythonValue::Boolean(false));
-                    }
+        let decisive = matches!(boolop.op, BoolOp::Or);
+        for value in &boolop.values {
+            match self.evaluate_expression(value)? {
+                PythonValue::Boolean(result) if result == decisive => {
+                    return Ok(PythonValue::Boolean(decisive));
                 }
-                Ok(PythonValue::Boolean(true))
-            }
-            BoolOp::Or => {
-                for value in &boolop.values {
-                    let result = self.evaluate_expression(value)?;
-                    if let PythonValue::Boolean(true) = result {
-                        return Ok(PythonValue::Boolean(true));
-                    }
+                PythonValue::Boolean(_) => {}
+                value => {
+                    return Err(RezCoreError::PackageParse(format!(
+                        "Unsupported boolean operand: {value:?}"
+                    )));
                 }
-                Ok(PythonValue::Boolean(false))
             }
         }
+        Ok(PythonValue::Boolean(!decisive))
     }
 
     /// Evaluate list expressions
@@ -228,6 +240,10 @@ impl PythonAstParser {
                         "Dictionary keys must be strings".to_string(),
                     ));
                 }
+            } else {
+                return Err(RezCoreError::PackageParse(
+                    "Unsupported dictionary unpacking".to_string(),
+                ));
             }
         }
         Ok(PythonValue::Dict(result))
@@ -238,10 +254,13 @@ impl PythonAstParser {
         &self,
         call: &rustpython_ast::ExprCall,
     ) -> Result<PythonValue, RezCoreError> {
-        if let Expr::Attribute(attribute) = &*call.func {
+        if let Expr::Attribute(attribute) = &*call.func
+            && call.keywords.is_empty()
+        {
             if let Expr::Name(owner) = &*attribute.value
                 && owner.id.as_str() == "os"
                 && attribute.attr.as_str() == "getenv"
+                && call.args.len() <= 2
                 && let Some(name) = call.args.first()
                 && let PythonValue::String(name) = self.evaluate_expression(name)?
             {
@@ -257,6 +276,7 @@ impl PythonAstParser {
             }
 
             if attribute.attr.as_str() == "lower"
+                && call.args.is_empty()
                 && let PythonValue::String(value) = self.evaluate_expression(&attribute.value)?
             {
                 return Ok(PythonValue::String(value.to_lowercase()));
@@ -278,26 +298,51 @@ impl PythonAstParser {
         value: String,
         arguments: &[Expr],
     ) -> Result<PythonValue, RezCoreError> {
-        const OPEN_BRACE: &str = "\u{e000}";
-        const CLOSE_BRACE: &str = "\u{e001}";
-        let mut formatted = value.replace("{{", OPEN_BRACE).replace("}}", CLOSE_BRACE);
-        for (index, argument) in arguments.iter().enumerate() {
-            let value = match self.evaluate_expression(argument)? {
-                PythonValue::String(value) => value,
-                PythonValue::Integer(value) => value.to_string(),
-                PythonValue::Float(value) => value.to_string(),
-                PythonValue::Boolean(value) => value.to_string(),
-                value => {
-                    return Err(RezCoreError::PackageParse(format!(
-                        "Unsupported format argument: {value:?}"
-                    )));
+        let unsupported =
+            || RezCoreError::PackageParse(format!("Unsupported format string: {value:?}"));
+        let mut formatted = String::with_capacity(value.len());
+        let mut automatic = 0;
+        let mut explicit = false;
+        let mut characters = value.chars().peekable();
+        while let Some(character) = characters.next() {
+            match character {
+                '{' | '}' if characters.peek() == Some(&character) => {
+                    characters.next();
+                    formatted.push(character);
                 }
-            };
-            formatted = formatted.replace(&format!("{{{index}}}"), &value);
+                '{' => {
+                    let mut field = String::new();
+                    loop {
+                        match characters.next() {
+                            Some('}') => break,
+                            Some(digit) if digit.is_ascii_digit() => field.push(digit),
+                            _ => return Err(unsupported()),
+                        }
+                    }
+                    let index = if field.is_empty() {
+                        automatic += 1;
+                        automatic - 1
+                    } else {
+                        explicit = true;
+                        field.parse::<usize>().map_err(|_| unsupported())?
+                    };
+                    // Python refuses to mix `{}` with `{0}`.
+                    if explicit && automatic > 0 {
+                        return Err(unsupported());
+                    }
+                    let argument = arguments.get(index).ok_or_else(unsupported)?;
+                    let argument = self.evaluate_expression(argument)?;
+                    formatted.push_str(&argument.to_python_str().ok_or_else(|| {
+                        RezCoreError::PackageParse(format!(
+                            "Unsupported format argument: {argument:?}"
+                        ))
+                    })?);
+                }
+                '}' => return Err(unsupported()),
+                _ => formatted.push(character),
+            }
         }
-        Ok(PythonValue::String(
-            formatted.replace(OPEN_BRACE, "{").replace(CLOSE_BRACE, "}"),
-        ))
+        Ok(PythonValue::String(formatted))
     }
 
     /// Evaluate package command context attributes used by Rez package.py files.
diff --git a/crates/rez-next-package/src/python_ast_parser/extract.rs b/crates/rez-next-package/src/python_ast_parser/extract.rs
index f46a868..4aa4c3a 100644
--- a/crates/rez-next-package/src/python_ast_parser/extract.rs
+++ b/crates/rez-next-package/src/python_ast_parser/extract.rs
@@ -10,15 +10,13 @@ impl PythonAstParser {
     /// Extract a string value from an expression
     pub(super) fn extract_string_value(&self, expr: &Expr) -> Result<String, RezCoreError> {
         match self.evaluate_expression(expr) {
-            Ok(PythonValue::String(s)) => Ok(s),
-            Ok(PythonValue::Integer(i)) => Ok(i.to_string()),
-            Ok(PythonValue::Float(f)) => Ok(f.to_string()),
-            Ok(PythonValue::Boolean(b)) => Ok(b.to_string()),
+            Ok(value) if value.to_python_str().is_some() => {
+                Ok(value.to_python_str().unwrap_or_default())
+            }
             _ => match expr {
                 Expr::Constant(constant) => match &constant.value {
                     Constant::Str(s) => Ok(s.clone()),
                     Constant::Int(i) => Ok(i.to_string()),
-                    Constant::Float(f) => Ok(f.to_string()),
                     _ => Err(RezCoreError::PackageParse(format!(
                         "Expected string/number value, got: {:?}",
                         constant.value
@@ -57,7 +55,9 @@ impl PythonAstParser {
     /// Extract an integer value from an expression
     pub(super) fn extract_int_value(&self, expr: &Expr) -> Result<i32, RezCoreError> {
         match self.evaluate_expression(expr) {
-            Ok(PythonValue::Integer(i)) => Ok(i as i32),
+            Ok(PythonValue::Integer(i)) => i32::try_from(i).map_err(|e| {
+                RezCoreError::PackageParse(format!("Integer too large for i32: {}", e))
+            }),
             _ => match expr {
                 Expr::Constant(constant) => match &constant.value {
                     Constant::Int(i) => i.to_string().parse::<i32>().map_err(|e| {
@@ -82,17 +82,9 @@ impl PythonAstParser {
             Ok(PythonValue::List(list)) => {
                 let mut result = Vec::new();
                 for item in list {
-                    match item {
-                        PythonValue::String(s) => result.push(s),
-                        PythonValue::Integer(i) => result.push(i.to_string()),
-                        PythonValue::Float(f) => result.push(f.to_string()),
-                        PythonValue::Boolean(b) => result.push(b.to_string()),
-                        _ => {
-                            return Err(RezCoreError::PackageParse(
-                                "List contains non-string values".to_string(),
-                            ));
-                        }
-                    }
+                    result.push(item.to_python_str().ok_or_else(|| {
+                        RezCoreError::PackageParse("List contains non-string values".to_string())
+                    })?);
                 }
                 Ok(result)
             }
@@ -165,6 +157,10 @@ impl PythonAstParser {
                             let key_str = self.extract_string_value(key)?;
                             let value_str = self.extract_string_value(value)?;
                             result.insert(key_str, value_str);
+                        } else {
+                            return Err(RezCoreError::PackageParse(
+                                "Unsupported dictionary unpacking".to_string(),
+                            ));
                         }
                     }
                     Ok(result)
diff --git a/crates/rez-next-package/src/python_ast_parser/mod.rs b/crates/rez-next-package/src/python_ast_parser/mod.rs
index f2253fe..c9586bd 100644
--- a/crates/rez-next-package/src/python_ast_parser/mod.rs
+++ b/crates/rez-next-package/src/python_ast_parser/mod.rs
@@ -61,7 +61,12 @@ impl PythonAstParser {
     ) -> Result<(), RezCoreError> {
         match stmt {
             Stmt::Assign(assign) => {
-                if let Some(Expr::Name(name_expr)) = assign.targets.first() {
+                for target in &assign.targets {
+                    let Expr::Name(name_expr) = target else {
+                        return Err(RezCoreError::PackageParse(format!(
+                            "Unsupported package.py assignment target: {target:?}"
+                        )));
+                    };
                     self.process_assignment(&name_expr.id, &assign.value, package_data)?;
                 }
             }
@@ -247,9 +252,10 @@ impl PythonAstParser {
                 package_data.tests = self.extract_tests(value)?;
             }
             "commands" => {
-                if let Ok(s) = self.extract_string_value(value) {
-                    package_data.commands_function = Some(s);
-                }
+                package_data.commands_function = match self.evaluate_expression(value)? {
+                    types::PythonValue::None => None,
+                    _ => Some(self.extract_string_value(value)?),
+                };
             }
             "pre_commands" => {
                 package_data.pre_commands = Some(self.extract_string_value(value)?);
diff --git a/crates/rez-next-package/src/python_ast_parser/types.rs b/crates/rez-next-package/src/python_ast_parser/types.rs
index f1a6025..564fe80 100644
--- a/crates/rez-next-package/src/python_ast_parser/types.rs
+++ b/crates/rez-next-package/src/python_ast_parser/types.rs
@@ -23,6 +23,21 @@ pub(crate) enum PythonValue {
     None,
 }
 
+impl PythonValue {
+    /// The text Python's `str()` gives for this value, where it is simple enough to know.
+    pub(crate) fn to_python_str(&self) -> Option<String> {
+        match self {
+            Self::String(value) => Some(value.clone()),
+            Self::Integer(value) => Some(value.to_string()),
+            Self::Float(value) if *value == 0.0 || (1e-4..1e16).contains(&value.abs()) => {
+                Some(format!("{value:?}"))
+            }
+            Self::Boolean(value) => Some(if *value { "True" } else { "False" }.to_string()),
+            _ => None,
+        }
+    }
+}
+
 /// Intermediate data structure for collecting package information during parsing
 #[derive(Debug, Default)]
 pub(crate) struct PackageData {
-- 
2.43.0


From ed6671492ffcc1a7f518f59afef31e3364f1385e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:36:40 +0000
Subject: [PATCH 19/56] fix: package formats read back what they write

YAML and JSON definitions lost their commands, tests and flags, the
metadata container could not be loaded, pretty YAML broke variants, the
Python writer did not escape and dropped fields, bincode could not be
read back, and XML lost authors and requirements.
---
 .../rez-next-package/src/package/serialize.rs |   3 +-
 .../src/serialization/load.rs                 | 220 +++++++++++-------
 .../src/serialization/save.rs                 | 168 +++++++++----
 3 files changed, 253 insertions(+), 138 deletions(-)

diff --git a/crates/rez-next-package/src/package/serialize.rs b/crates/rez-next-package/src/package/serialize.rs
index bc18cf5..99a2b55 100644
--- a/crates/rez-next-package/src/package/serialize.rs
+++ b/crates/rez-next-package/src/package/serialize.rs
@@ -6,7 +6,7 @@ use std::collections::HashMap;
 use super::types::Package;
 
 /// Number of fields serialized in the Package struct (excludes `config` and `commands_function`).
-const PACKAGE_SERIALIZED_FIELD_COUNT: usize = 35;
+const PACKAGE_SERIALIZED_FIELD_COUNT: usize = 36;
 
 impl Serialize for Package {
     fn serialize<S>(&self, serializer: S) -> Result<S::Ok, S::Error>
@@ -51,6 +51,7 @@ impl Serialize for Package {
         state.serialize_field("plugin_for", &self.plugin_for)?;
         state.serialize_field("hashed_variants", &self.hashed_variants)?;
         state.serialize_field("preprocess", &self.preprocess)?;
+        state.serialize_field("is_dev_package", &self.is_dev_package)?;
         state.end()
     }
 }
diff --git a/crates/rez-next-package/src/serialization/load.rs b/crates/rez-next-package/src/serialization/load.rs
index b842bc4..618733e 100644
--- a/crates/rez-next-package/src/serialization/load.rs
+++ b/crates/rez-next-package/src/serialization/load.rs
@@ -119,8 +119,16 @@ impl PackageLoader {
 
     /// Shared implementation: build a Package from a JSON-compatible HashMap
     fn load_from_json_data(
-        json_data: HashMap<String, serde_json::Value>,
+        mut json_data: HashMap<String, serde_json::Value>,
     ) -> Result<Package, RezCoreError> {
+        // A package saved with its metadata is wrapped in a container.
+        if !json_data.contains_key("name")
+            && json_data.contains_key("schema_version")
+            && let Some(serde_json::Value::Object(package)) = json_data.remove("package")
+        {
+            json_data = package.into_iter().collect();
+        }
+
         let name = json_data
             .get("name")
             .and_then(|v| v.as_str())
@@ -129,93 +137,117 @@ impl PackageLoader {
             })?
             .to_string();
 
-        let mut package = Package::new(name);
-
-        if let Some(version_value) = json_data.get("version")
-            && let Some(version_str) = version_value.as_str()
-        {
-            let version = Version::parse(version_str)
-                .map_err(|e| RezCoreError::PackageParse(format!("Invalid version: {}", e)))?;
-            package.version = Some(version);
-        }
-
-        if let Some(description_value) = json_data.get("description")
-            && let Some(description) = description_value.as_str()
-        {
-            package.description = Some(description.to_string());
-        }
-
-        if let Some(authors_value) = json_data.get("authors")
-            && let Some(authors_array) = authors_value.as_array()
-        {
-            package.authors = authors_array
-                .iter()
-                .filter_map(|v| v.as_str())
+        let text = |field: &str| {
+            json_data
+                .get(field)
+                .and_then(|v| v.as_str())
                 .map(|s| s.to_string())
-                .collect();
-        }
-
-        if let Some(requires_value) = json_data.get("requires")
-            && let Some(requires_array) = requires_value.as_array()
-        {
-            package.requires = requires_array
-                .iter()
-                .filter_map(|v| v.as_str())
-                .map(|s| s.to_string())
-                .collect();
-        }
-
-        if let Some(build_requires_value) = json_data.get("build_requires")
-            && let Some(build_requires_array) = build_requires_value.as_array()
-        {
-            package.build_requires = build_requires_array
-                .iter()
-                .filter_map(|v| v.as_str())
-                .map(|s| s.to_string())
-                .collect();
-        }
-
-        if let Some(private_build_requires_value) = json_data.get("private_build_requires")
-            && let Some(arr) = private_build_requires_value.as_array()
-        {
-            package.private_build_requires = arr
-                .iter()
-                .filter_map(|v| v.as_str())
-                .map(|s| s.to_string())
-                .collect();
-        }
+        };
+        // Commands may be given as one text or as a list of lines.
+        let commands = |field: &str| match json_data.get(field) {
+            Some(serde_json::Value::Array(lines)) => Some(
+                lines
+                    .iter()
+                    .filter_map(|v| v.as_str())
+                    .collect::<Vec<_>>()
+                    .join("\n"),
+            ),
+            _ => text(field),
+        };
+        let flag = |field: &str| json_data.get(field).and_then(|v| v.as_bool());
+        let list = |field: &str| match json_data.get(field) {
+            Some(serde_json::Value::Array(items)) => Self::string_list(field, items),
+            _ => Ok(Vec::new()),
+        };
+        let version = |field: &str| match json_data.get(field) {
+            None | Some(serde_json::Value::Null) => Ok(None),
+            Some(serde_json::Value::String(text)) => Self::parse_version(text).map(Some),
+            Some(serde_json::Value::Number(number)) if number.is_i64() => {
+                Self::parse_version(&number.to_string()).map(Some)
+            }
+            Some(value) => Err(RezCoreError::PackageParse(format!(
+                "Invalid '{field}': {value} must be quoted"
+            ))),
+        };
 
-        if let Some(variants_value) = json_data.get("variants")
-            && let Some(variants_array) = variants_value.as_array()
-        {
-            package.variants = variants_array
+        let mut package = Package::new(name);
+        package.version = version("version")?;
+        package.description = text("description");
+        package.authors = list("authors")?;
+        package.requires = list("requires")?;
+        package.build_requires = list("build_requires")?;
+        package.private_build_requires = list("private_build_requires")?;
+        package.tools = list("tools")?;
+        package.plugin_for = list("plugin_for")?;
+        if let Some(serde_json::Value::Array(variants)) = json_data.get("variants") {
+            package.variants = variants
                 .iter()
-                .filter_map(|v| v.as_array())
-                .map(|variant_array| {
-                    variant_array
-                        .iter()
-                        .filter_map(|v| v.as_str())
-                        .map(|s| s.to_string())
-                        .collect()
+                .map(|variant| match variant {
+                    serde_json::Value::Array(items) => Self::string_list("variants", items),
+                    _ => Err(RezCoreError::PackageParse(
+                        "Invalid 'variants': each variant must be a list".to_string(),
+                    )),
                 })
-                .collect();
+                .collect::<Result<_, _>>()?;
         }
-
-        if let Some(tools_value) = json_data.get("tools")
-            && let Some(tools_array) = tools_value.as_array()
-        {
-            package.tools = tools_array
+        if let Some(serde_json::Value::Object(tests)) = json_data.get("tests") {
+            package.tests = tests
                 .iter()
-                .filter_map(|v| v.as_str())
-                .map(|s| s.to_string())
+                .filter_map(|(test, command)| Some((test.clone(), command.as_str()?.to_string())))
                 .collect();
         }
+        package.commands = commands("commands");
+        package.commands_function = package.commands.clone();
+        package.pre_commands = commands("pre_commands");
+        package.post_commands = commands("post_commands");
+        package.pre_test_commands = commands("pre_test_commands");
+        package.pre_build_commands = commands("pre_build_commands");
+        package.build_command = text("build_command");
+        package.build_system = text("build_system");
+        package.requires_rez_version = text("requires_rez_version");
+        package.uuid = text("uuid");
+        package.help = text("help");
+        package.relocatable = flag("relocatable");
+        package.cachable = flag("cachable");
+        package.timestamp = json_data.get("timestamp").and_then(|v| v.as_i64());
+        package.revision = text("revision");
+        package.changelog = text("changelog");
+        package.release_message = text("release_message");
+        package.previous_version = version("previous_version")?;
+        package.previous_revision = text("previous_revision");
+        package.vcs = text("vcs");
+        package.format_version = json_data
+            .get("format_version")
+            .and_then(|v| v.as_i64())
+            .and_then(|v| i32::try_from(v).ok());
+        package.base = text("base");
+        package.has_plugins = flag("has_plugins");
+        package.hashed_variants = flag("hashed_variants");
+        package.preprocess = text("preprocess");
+        package.is_dev_package = flag("is_dev_package");
 
         package.validate()?;
 
         Ok(package)
     }
 
+    fn parse_version(text: &str) -> Result<Version, RezCoreError> {
+        Version::parse(text)
+            .map_err(|e| RezCoreError::PackageParse(format!("Invalid version: {}", e)))
+    }
+
+    /// A list of texts, none of which may be dropped.
+    fn string_list(field: &str, items: &[serde_json::Value]) -> Result<Vec<String>, RezCoreError> {
+        items
+            .iter()
+            .map(|item| {
+                item.as_str().map(|s| s.to_string()).ok_or_else(|| {
+                    RezCoreError::PackageParse(format!("Invalid '{field}': {item} is not a text"))
+                })
+            })
+            .collect()
+    }
+
     /// Load a package from base64-wrapped bincode content.
     pub fn load_from_binary(content: &str) -> Result<Package, RezCoreError> {
         use base64::Engine as _;
@@ -244,27 +276,18 @@ impl PackageLoader {
             .ok_or_else(|| RezCoreError::PackageParse("Missing <name> tag in XML".to_string()))?;
         let name_end = content
             .find("</name>")
+            .filter(|end| *end >= name_start + 6)
             .ok_or_else(|| RezCoreError::PackageParse("Missing </name> tag in XML".to_string()))?;
 
-        let name = content[name_start + 6..name_end].to_string();
+        let name = xml_text(&content[name_start + 6..name_end]);
         let mut package = Package::new(name);
 
-        if let (Some(version_start), Some(version_end)) =
-            (content.find("<version>"), content.find("</version>"))
-        {
-            let version_str = &content[version_start + 9..version_end];
-            if let Ok(version) = Version::parse(version_str) {
-                package.version = Some(version);
-            }
-        }
-
-        if let (Some(desc_start), Some(desc_end)) = (
-            content.find("<description>"),
-            content.find("</description>"),
-        ) {
-            let description = content[desc_start + 13..desc_end].to_string();
-            package.description = Some(description);
+        if let Some(version) = xml_elements(content, "version").into_iter().next() {
+            package.version = Some(Self::parse_version(&version)?);
         }
+        package.description = xml_elements(content, "description").into_iter().next();
+        package.authors = xml_elements(content, "author");
+        package.requires = xml_elements(content, "requirement");
 
         Ok(package)
     }
@@ -295,3 +318,20 @@ impl PackageLoader {
         Ok(content)
     }
 }
+
+/// The texts of all `<tag>` elements, in order.
+fn xml_elements(content: &str, tag: &str) -> Vec<String> {
+    let (open, close) = (format!("<{tag}>"), format!("</{tag}>"));
+    content
+        .split(open.as_str())
+        .skip(1)
+        .filter_map(|rest| rest.split_once(close.as_str()))
+        .map(|(text, _)| xml_text(text))
+        .collect()
+}
+
+fn xml_text(text: &str) -> String {
+    text.replace("&lt;", "<")
+        .replace("&gt;", ">")
+        .replace("&amp;", "&")
+}
diff --git a/crates/rez-next-package/src/serialization/save.rs b/crates/rez-next-package/src/serialization/save.rs
index b060c3f..8661158 100644
--- a/crates/rez-next-package/src/serialization/save.rs
+++ b/crates/rez-next-package/src/serialization/save.rs
@@ -231,8 +231,15 @@ impl PackageSaver {
 
         let mut output = String::with_capacity(raw.len() + 64);
         output.push_str("# ---\n");
+        let mut in_sequence = false;
         for line in raw.lines() {
-            if line.starts_with("- ") {
+            // Sequence items are indented together with their continuation lines.
+            if line.starts_with("- ") || line == "-" {
+                in_sequence = true;
+            } else if !line.is_empty() && !line.starts_with(' ') {
+                in_sequence = false;
+            }
+            if in_sequence && !line.is_empty() {
                 output.push_str("  ");
             }
             output.push_str(line);
@@ -267,61 +274,90 @@ impl PackageSaver {
             content.push_str("# Do not edit manually\n\n");
         }
 
-        content.push_str(&format!("name = \"{}\"\n", package.name));
-
-        if let Some(ref version) = package.version {
-            content.push_str(&format!("version = \"{}\"\n", version.as_str()));
-        }
-
-        if let Some(ref description) = package.description {
-            content.push_str(&format!("description = \"{}\"\n", description));
-        }
-
-        if !package.authors.is_empty() {
-            content.push_str("authors = [\n");
-            for author in &package.authors {
-                content.push_str(&format!("    \"{}\",\n", author));
+        let mut text = |field: &str, value: Option<&str>| {
+            if let Some(value) = value {
+                content.push_str(&format!("{field} = {}\n", python_string(value)));
+            }
+        };
+        text("name", Some(&package.name));
+        text("version", package.version.as_ref().map(|v| v.as_str()));
+        text("description", package.description.as_deref());
+        text("help", package.help.as_deref());
+        text("uuid", package.uuid.as_deref());
+        text("base", package.base.as_deref());
+        text("build_system", package.build_system.as_deref());
+        text("build_command", package.build_command.as_deref());
+        text(
+            "requires_rez_version",
+            package.requires_rez_version.as_deref(),
+        );
+        text("preprocess", package.preprocess.as_deref());
+
+        for (field, items) in [
+            ("authors", &package.authors),
+            ("requires", &package.requires),
+            ("build_requires", &package.build_requires),
+            ("private_build_requires", &package.private_build_requires),
+            ("tools", &package.tools),
+            ("plugin_for", &package.plugin_for),
+        ] {
+            if !items.is_empty() {
+                content.push_str(&format!("{field} = [\n"));
+                for item in items {
+                    content.push_str(&format!("    {},\n", python_string(item)));
+                }
+                content.push_str("]\n");
             }
-            content.push_str("]\n");
         }
 
-        if !package.requires.is_empty() {
-            content.push_str("requires = [\n");
-            for req in &package.requires {
-                content.push_str(&format!("    \"{}\",\n", req));
+        if !package.variants.is_empty() {
+            content.push_str("variants = [\n");
+            for variant in &package.variants {
+                let items: Vec<_> = variant.iter().map(|item| python_string(item)).collect();
+                content.push_str(&format!("    [{}],\n", items.join(", ")));
             }
             content.push_str("]\n");
         }
 
-        if !package.build_requires.is_empty() {
-            content.push_str("build_requires = [\n");
-            for req in &package.build_requires {
-                content.push_str(&format!("    \"{}\",\n", req));
+        for (field, value) in [
+            ("relocatable", package.relocatable),
+            ("cachable", package.cachable),
+            ("hashed_variants", package.hashed_variants),
+            ("has_plugins", package.has_plugins),
+        ] {
+            if let Some(value) = value {
+                let value = if value { "True" } else { "False" };
+                content.push_str(&format!("{field} = {value}\n"));
             }
-            content.push_str("]\n");
+        }
+        if let Some(format_version) = package.format_version {
+            content.push_str(&format!("format_version = {format_version}\n"));
         }
 
-        if !package.variants.is_empty() {
-            content.push_str("variants = [\n");
-            for variant in &package.variants {
-                content.push_str("    [");
-                for (i, req) in variant.iter().enumerate() {
-                    if i > 0 {
-                        content.push_str(", ");
-                    }
-                    content.push_str(&format!("\"{}\"", req));
-                }
-                content.push_str("],\n");
+        if !package.tests.is_empty() {
+            let mut tests: Vec<_> = package.tests.iter().collect();
+            tests.sort();
+            content.push_str("tests = {\n");
+            for (test, command) in tests {
+                content.push_str(&format!(
+                    "    {}: {},\n",
+                    python_string(test),
+                    python_string(command)
+                ));
             }
-            content.push_str("]\n");
+            content.push_str("}\n");
         }
 
-        if !package.tools.is_empty() {
-            content.push_str("tools = [\n");
-            for tool in &package.tools {
-                content.push_str(&format!("    \"{}\",\n", tool));
+        for (field, commands) in [
+            ("pre_commands", &package.pre_commands),
+            ("commands", &package.commands),
+            ("post_commands", &package.post_commands),
+            ("pre_test_commands", &package.pre_test_commands),
+            ("pre_build_commands", &package.pre_build_commands),
+        ] {
+            if let Some(commands) = commands {
+                content.push_str(&format!("{field} = {}\n", python_string(commands)));
             }
-            content.push_str("]\n");
         }
 
         Ok(content)
@@ -358,20 +394,26 @@ impl PackageSaver {
         }
 
         content.push_str("<package>\n");
-        content.push_str(&format!("  <name>{}</name>\n", package.name));
+        content.push_str(&format!("  <name>{}</name>\n", xml_escape(&package.name)));
 
         if let Some(ref version) = package.version {
-            content.push_str(&format!("  <version>{}</version>\n", version.as_str()));
+            content.push_str(&format!(
+                "  <version>{}</version>\n",
+                xml_escape(version.as_str())
+            ));
         }
 
         if let Some(ref description) = package.description {
-            content.push_str(&format!("  <description>{}</description>\n", description));
+            content.push_str(&format!(
+                "  <description>{}</description>\n",
+                xml_escape(description)
+            ));
         }
 
         if !package.authors.is_empty() {
             content.push_str("  <authors>\n");
             for author in &package.authors {
-                content.push_str(&format!("    <author>{}</author>\n", author));
+                content.push_str(&format!("    <author>{}</author>\n", xml_escape(author)));
             }
             content.push_str("  </authors>\n");
         }
@@ -379,7 +421,10 @@ impl PackageSaver {
         if !package.requires.is_empty() {
             content.push_str("  <requires>\n");
             for req in &package.requires {
-                content.push_str(&format!("    <requirement>{}</requirement>\n", req));
+                content.push_str(&format!(
+                    "    <requirement>{}</requirement>\n",
+                    xml_escape(req)
+                ));
             }
             content.push_str("  </requires>\n");
         }
@@ -425,6 +470,35 @@ impl PackageSaver {
     }
 }
 
+/// Write a text as a Python string literal.
+fn python_string(text: &str) -> String {
+    let mut literal = String::with_capacity(text.len() + 2);
+    literal.push('"');
+    for character in text.chars() {
+        match character {
+            '"' | '\\' => {
+                literal.push('\\');
+                literal.push(character);
+            }
+            '\n' => literal.push_str("\\n"),
+            '\r' => literal.push_str("\\r"),
+            '\t' => literal.push_str("\\t"),
+            _ if character.is_control() => {
+                literal.push_str(&format!("\\u{:04x}", character as u32));
+            }
+            _ => literal.push(character),
+        }
+    }
+    literal.push('"');
+    literal
+}
+
+fn xml_escape(text: &str) -> String {
+    text.replace('&', "&amp;")
+        .replace('<', "&lt;")
+        .replace('>', "&gt;")
+}
+
 /// Convert YAML value to JSON value
 pub fn yaml_to_json_value(yaml_value: serde_yaml::Value) -> serde_json::Value {
     match yaml_value {
-- 
2.43.0


From 18197168302ab68acd3dd0d7219d71b59e64cf7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:50:02 +0000
Subject: [PATCH 20/56] fix: package functions see the final values of the
 module and all arguments are evaluated

---
 .../src/python_ast_parser/commands.rs         |  2 ++
 .../src/python_ast_parser/eval.rs             | 21 ++++++++++---------
 .../src/python_ast_parser/mod.rs              | 13 +++++++++++-
 .../src/python_ast_parser/types.rs            |  2 ++
 4 files changed, 27 insertions(+), 11 deletions(-)

diff --git a/crates/rez-next-package/src/python_ast_parser/commands.rs b/crates/rez-next-package/src/python_ast_parser/commands.rs
index 990ee83..4a6d2f2 100644
--- a/crates/rez-next-package/src/python_ast_parser/commands.rs
+++ b/crates/rez-next-package/src/python_ast_parser/commands.rs
@@ -52,6 +52,7 @@ impl PythonAstParser {
         body: &[Stmt],
     ) -> Result<Option<String>, RezCoreError> {
         let outer_variables = self.context.variables.clone();
+        let outer_imports = self.context.imports.clone();
         let result = (|| {
             let mut commands = Vec::new();
             for stmt in body {
@@ -62,6 +63,7 @@ impl PythonAstParser {
             Ok((!commands.is_empty()).then(|| commands.join("\n")))
         })();
         self.context.variables = outer_variables;
+        self.context.imports = outer_imports;
         result
     }
 
diff --git a/crates/rez-next-package/src/python_ast_parser/eval.rs b/crates/rez-next-package/src/python_ast_parser/eval.rs
index da4dc91..d91e06e 100644
--- a/crates/rez-next-package/src/python_ast_parser/eval.rs
+++ b/crates/rez-next-package/src/python_ast_parser/eval.rs
@@ -264,15 +264,13 @@ impl PythonAstParser {
                 && let Some(name) = call.args.first()
                 && let PythonValue::String(name) = self.evaluate_expression(name)?
             {
-                return Ok(match std::env::var(name) {
-                    Ok(value) => PythonValue::String(value),
-                    Err(_) => call
-                        .args
-                        .get(1)
-                        .map(|default| self.evaluate_expression(default))
-                        .transpose()?
-                        .unwrap_or(PythonValue::None),
-                });
+                let default = call
+                    .args
+                    .get(1)
+                    .map(|default| self.evaluate_expression(default))
+                    .transpose()?
+                    .unwrap_or(PythonValue::None);
+                return Ok(std::env::var(name).map_or(default, PythonValue::String));
             }
 
             if attribute.attr.as_str() == "lower"
@@ -300,6 +298,10 @@ impl PythonAstParser {
     ) -> Result<PythonValue, RezCoreError> {
         let unsupported =
             || RezCoreError::PackageParse(format!("Unsupported format string: {value:?}"));
+        let arguments = arguments
+            .iter()
+            .map(|argument| self.evaluate_expression(argument))
+            .collect::<Result<Vec<_>, _>>()?;
         let mut formatted = String::with_capacity(value.len());
         let mut automatic = 0;
         let mut explicit = false;
@@ -331,7 +333,6 @@ impl PythonAstParser {
                         return Err(unsupported());
                     }
                     let argument = arguments.get(index).ok_or_else(unsupported)?;
-                    let argument = self.evaluate_expression(argument)?;
                     formatted.push_str(&argument.to_python_str().ok_or_else(|| {
                         RezCoreError::PackageParse(format!(
                             "Unsupported format argument: {argument:?}"
diff --git a/crates/rez-next-package/src/python_ast_parser/mod.rs b/crates/rez-next-package/src/python_ast_parser/mod.rs
index c9586bd..2bb6df7 100644
--- a/crates/rez-next-package/src/python_ast_parser/mod.rs
+++ b/crates/rez-next-package/src/python_ast_parser/mod.rs
@@ -50,6 +50,11 @@ impl PythonAstParser {
             self.process_statement(stmt, &mut package_data)?;
         }
 
+        // Functions run once the module is loaded, so they see its final values.
+        for function in std::mem::take(&mut self.context.functions) {
+            self.process_function_definition(&function, &mut package_data)?;
+        }
+
         Self::build_package(package_data)
     }
 
@@ -71,7 +76,10 @@ impl PythonAstParser {
                 }
             }
             Stmt::FunctionDef(func_def) => {
-                self.process_function_definition(func_def, package_data)?;
+                self.context
+                    .functions
+                    .retain(|earlier| earlier.name != func_def.name);
+                self.context.functions.push(func_def.clone());
             }
             Stmt::Import(import) => {
                 self.process_import_statement(import)?;
@@ -207,6 +215,9 @@ impl PythonAstParser {
         package_data: &mut PackageData,
     ) -> Result<(), RezCoreError> {
         let python_value = self.evaluate_expression(value)?;
+        self.context
+            .functions
+            .retain(|earlier| earlier.name.as_str() != var_name);
         self.context
             .variables
             .insert(var_name.to_string(), python_value);
diff --git a/crates/rez-next-package/src/python_ast_parser/types.rs b/crates/rez-next-package/src/python_ast_parser/types.rs
index 564fe80..62ab89e 100644
--- a/crates/rez-next-package/src/python_ast_parser/types.rs
+++ b/crates/rez-next-package/src/python_ast_parser/types.rs
@@ -9,6 +9,8 @@ pub(crate) struct ParsingContext {
     pub variables: HashMap<String, PythonValue>,
     /// Imported modules and their aliases
     pub imports: HashMap<String, String>,
+    /// Functions defined so far, in the order of their definitions
+    pub functions: Vec<rustpython_ast::StmtFunctionDef>,
 }
 
 /// Represents a Python value that can be evaluated
-- 
2.43.0


From 85efa60a6378d1730270875de68571a0409a85e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:10 +0000
Subject: [PATCH 21/56] fix: a saved context keeps where its packages are, and
 naming its file never panics

---
 crates/rez-next-context/src/context.rs       | 47 ++++++++++++++++++++
 crates/rez-next-context/src/serialization.rs |  9 +++-
 2 files changed, 54 insertions(+), 2 deletions(-)

diff --git a/crates/rez-next-context/src/context.rs b/crates/rez-next-context/src/context.rs
index 2354ebe..0f6e4a7 100644
--- a/crates/rez-next-context/src/context.rs
+++ b/crates/rez-next-context/src/context.rs
@@ -22,6 +22,7 @@ pub struct ResolvedContext {
     pub requirements: Vec<PackageRequirement>,
 
     /// Resolved packages in dependency order
+    #[serde(with = "located_packages")]
     pub resolved_packages: Vec<Package>,
 
     /// Environment variables
@@ -49,6 +50,52 @@ pub struct ResolvedContext {
     pub config: ContextConfig,
 }
 
+/// Packages of a stored context keep the location of their definition, so that a
+/// loaded context activates the same package roots.
+mod located_packages {
+    use rez_next_package::Package;
+    use serde::{Deserialize, Deserializer, Serialize, Serializer};
+
+    #[derive(Serialize)]
+    struct LocatedRef<'a> {
+        #[serde(flatten)]
+        package: &'a Package,
+        #[serde(skip_serializing_if = "Option::is_none")]
+        filepath: Option<&'a str>,
+    }
+
+    #[derive(Deserialize)]
+    struct Located {
+        #[serde(default)]
+        filepath: Option<String>,
+        #[serde(flatten)]
+        package: Package,
+    }
+
+    pub fn serialize<S: Serializer>(
+        packages: &[Package],
+        serializer: S,
+    ) -> Result<S::Ok, S::Error> {
+        serializer.collect_seq(packages.iter().map(|package| LocatedRef {
+            package,
+            filepath: package.filepath.as_deref(),
+        }))
+    }
+
+    pub fn deserialize<'de, D: Deserializer<'de>>(
+        deserializer: D,
+    ) -> Result<Vec<Package>, D::Error> {
+        let located = Vec::<Located>::deserialize(deserializer)?;
+        Ok(located
+            .into_iter()
+            .map(|Located { filepath, package }| Package {
+                filepath,
+                ..package
+            })
+            .collect())
+    }
+}
+
 /// Context status enumeration
 #[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
 pub enum ContextStatus {
diff --git a/crates/rez-next-context/src/serialization.rs b/crates/rez-next-context/src/serialization.rs
index c19b4e3..3fa2eb5 100644
--- a/crates/rez-next-context/src/serialization.rs
+++ b/crates/rez-next-context/src/serialization.rs
@@ -330,8 +330,13 @@ impl ContextFileUtils {
     /// Get the default context file name for a context
     pub fn get_default_filename(context: &ResolvedContext) -> String {
         match &context.name {
-            Some(name) => format!("{}.rxt", name.replace(" ", "_").to_lowercase()),
-            None => format!("context_{}.rxt", &context.id[..8]),
+            Some(name) if !name.is_empty() => {
+                format!("{}.rxt", name.replace([' ', '/', '\\'], "_").to_lowercase())
+            }
+            _ => format!(
+                "context_{}.rxt",
+                context.id.chars().take(8).collect::<String>()
+            ),
         }
     }
 
-- 
2.43.0


From 9300c27a3da3ed186f1c6f15d5e3a21b4dd2d925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:29 +0000
Subject: [PATCH 22/56] fix: builds end once, stop when cancelled and never
 install into themselves

---
 crates/rez-next-build/src/builder.rs        |  9 ++-
 crates/rez-next-build/src/process.rs        | 82 +++++++++++++--------
 crates/rez-next-build/src/systems/custom.rs | 46 +++++++++---
 crates/rez-next-build/src/systems/mod.rs    |  2 +-
 4 files changed, 97 insertions(+), 42 deletions(-)

diff --git a/crates/rez-next-build/src/builder.rs b/crates/rez-next-build/src/builder.rs
index 1853223..0b600cc 100644
--- a/crates/rez-next-build/src/builder.rs
+++ b/crates/rez-next-build/src/builder.rs
@@ -365,7 +365,7 @@ impl BuildManager {
             let result = build_process.wait().await?;
 
             // Update statistics
-            self.stats.builds_running -= 1;
+            self.stats.builds_running = self.active_builds.len();
             if result.success {
                 self.stats.builds_successful += 1;
             } else {
@@ -391,7 +391,7 @@ impl BuildManager {
     pub async fn cancel_build(&mut self, build_id: &str) -> Result<(), RezCoreError> {
         if let Some(mut build_process) = self.active_builds.remove(build_id) {
             build_process.cancel().await?;
-            self.stats.builds_running -= 1;
+            self.stats.builds_running = self.active_builds.len();
             self.stats.builds_failed += 1;
             Ok(())
         } else {
@@ -450,7 +450,10 @@ impl BuildManager {
 
     /// Reset build statistics
     pub fn reset_stats(&mut self) {
-        self.stats = BuildStats::default();
+        self.stats = BuildStats {
+            builds_running: self.active_builds.len(),
+            ..BuildStats::default()
+        };
     }
 }
 
diff --git a/crates/rez-next-build/src/process.rs b/crates/rez-next-build/src/process.rs
index 256499d..49d3307 100644
--- a/crates/rez-next-build/src/process.rs
+++ b/crates/rez-next-build/src/process.rs
@@ -32,6 +32,8 @@ pub struct BuildProcess {
     start_time: Option<std::time::Instant>,
     /// Child process (if running)
     child_process: Arc<Mutex<Option<Child>>>,
+    /// Background task running the build steps
+    task: Option<tokio::task::JoinHandle<()>>,
 }
 
 /// Build step enumeration
@@ -124,6 +126,7 @@ impl BuildProcess {
             errors: Arc::new(Mutex::new(String::new())),
             start_time: None,
             child_process: Arc::new(Mutex::new(None)),
+            task: None,
         }
     }
 
@@ -146,7 +149,7 @@ impl BuildProcess {
         let errors = self.errors.clone();
         let child_process = self.child_process.clone();
 
-        tokio::spawn(async move {
+        self.task = Some(tokio::spawn(async move {
             let result = Self::run_build_steps(
                 &build_id,
                 &request,
@@ -158,19 +161,34 @@ impl BuildProcess {
             )
             .await;
 
-            if let Err(error) = &result {
+            if let Err((_, error)) = &result {
                 let mut errors_guard = errors.lock().await;
                 if errors_guard.trim().is_empty() {
                     errors_guard.push_str(&error.to_string());
                 }
             }
 
+            // The end is reported and recorded together, so that a cancellation
+            // comes either before both or after both.
             let mut status_guard = status.write().await;
+            let (message, success) = match &result {
+                Ok(()) => ("Build finished".to_string(), true),
+                Err((step, _)) => (format!("Build failed during {step:?}"), false),
+            };
+            emit_build_event(
+                config.event_sender.as_ref(),
+                &build_id,
+                None,
+                BuildEventKind::BuildFinished,
+                message,
+                Some(success),
+                None,
+            );
             *status_guard = match result {
                 Ok(_) => BuildStatus::Success,
                 Err(_) => BuildStatus::Failed,
             };
-        });
+        }));
 
         Ok(())
     }
@@ -233,9 +251,22 @@ impl BuildProcess {
 
     /// Cancel the build process
     pub async fn cancel(&mut self) -> Result<(), RezCoreError> {
-        {
-            let mut status = self.status.write().await;
-            *status = BuildStatus::Cancelled;
+        // Stop the background task; dropping it ends the command it is running.
+        // A task that completed first keeps its result.
+        if let Some(task) = self.task.take() {
+            task.abort();
+            if task.await.is_ok() {
+                return Ok(());
+            }
+            emit_build_event(
+                self.config.event_sender.as_ref(),
+                &self.build_id,
+                None,
+                BuildEventKind::BuildFinished,
+                "Build cancelled".to_string(),
+                Some(false),
+                None,
+            );
         }
 
         // Kill child process if running
@@ -244,6 +275,9 @@ impl BuildProcess {
             let _ = child.kill().await;
         }
 
+        let mut status = self.status.write().await;
+        *status = BuildStatus::Cancelled;
+
         Ok(())
     }
 
@@ -265,7 +299,7 @@ impl BuildProcess {
         output: Arc<Mutex<String>>,
         errors: Arc<Mutex<String>>,
         child_process: Arc<Mutex<Option<Child>>>,
-    ) -> Result<(), RezCoreError> {
+    ) -> Result<(), (BuildStep, RezCoreError)> {
         let event_sender = config.event_sender.clone();
         emit_build_event(
             event_sender.as_ref(),
@@ -307,6 +341,7 @@ impl BuildProcess {
                 None,
             );
 
+            let step_started = std::time::Instant::now();
             let step_result = Self::execute_build_step(
                 &step,
                 request,
@@ -314,7 +349,14 @@ impl BuildProcess {
                 config,
                 child_process.clone(),
             )
-            .await?;
+            .await
+            .unwrap_or_else(|error| BuildStepResult {
+                step: step.clone(),
+                success: false,
+                output: String::new(),
+                errors: error.to_string(),
+                duration_ms: step_started.elapsed().as_millis() as u64,
+            });
 
             emit_step_lines(
                 event_sender.as_ref(),
@@ -360,32 +402,14 @@ impl BuildProcess {
 
             // Stop on failure
             if !step_result.success {
-                emit_build_event(
-                    event_sender.as_ref(),
-                    build_id,
-                    None,
-                    BuildEventKind::BuildFinished,
-                    format!("Build failed during {:?}", step),
-                    Some(false),
-                    None,
-                );
-                return Err(RezCoreError::BuildError(format!(
+                let error = RezCoreError::BuildError(format!(
                     "Build step {:?} failed: {}",
                     step, step_result.errors
-                )));
+                ));
+                return Err((step, error));
             }
         }
 
-        emit_build_event(
-            event_sender.as_ref(),
-            build_id,
-            None,
-            BuildEventKind::BuildFinished,
-            "Build finished".to_string(),
-            Some(true),
-            None,
-        );
-
         Ok(())
     }
 
diff --git a/crates/rez-next-build/src/systems/custom.rs b/crates/rez-next-build/src/systems/custom.rs
index 893b942..15960a3 100644
--- a/crates/rez-next-build/src/systems/custom.rs
+++ b/crates/rez-next-build/src/systems/custom.rs
@@ -258,8 +258,11 @@ impl CustomBuildSystem {
             expanded = expanded.replace("{version}", "");
         }
 
-        expanded = expanded.replace("{variant_index}", "");
-        expanded
+        let variant_index = request
+            .variant_index
+            .map(|index| index.to_string())
+            .unwrap_or_default();
+        expanded.replace("{variant_index}", &variant_index)
     }
 
     /// Execute build script with specific command
@@ -280,9 +283,9 @@ impl CustomBuildSystem {
             return Self::execute_python_build_script(request, environment, &script_path, command)
                 .await;
         } else if self.script_name.ends_with(".sh") {
-            format!("bash {} {}", script_path.to_string_lossy(), command)
+            format!("bash {} {}", quote_path(&script_path), command)
         } else {
-            format!("{} {}", script_path.to_string_lossy(), command)
+            format!("{} {}", quote_path(&script_path), command)
         };
 
         let executor = ShellExecutor::with_shell(rez_next_context::ShellType::detect())
@@ -329,7 +332,8 @@ impl CustomBuildSystem {
             .envs(Self::script_env(environment))
             .current_dir(&request.source_dir)
             .stdout(Stdio::piped())
-            .stderr(Stdio::piped());
+            .stderr(Stdio::piped())
+            .kill_on_drop(true);
 
         let exec_command = format!("{} {} {}", python.display(), script_path.display(), command);
         environment.emit_event(
@@ -540,12 +544,12 @@ impl CustomBuildSystem {
             let dest_path = install_dir.join(&file_name);
 
             let file_name_str = file_name.to_string_lossy();
-            if Self::should_skip_file(&file_name_str) {
+            if Self::should_skip_file(&file_name_str) || install_dir.starts_with(&src_path) {
                 continue;
             }
 
             if src_path.is_dir() {
-                let dir_files = Self::copy_dir_recursive(src_path, dest_path).await?;
+                let dir_files = Self::copy_dir_recursive(src_path, dest_path, install_dir).await?;
                 files_copied += dir_files;
             } else {
                 fs::copy(&src_path, &dest_path).await.map_err(|e| {
@@ -562,7 +566,11 @@ impl CustomBuildSystem {
     }
 
     /// Recursively copy directory
-    async fn copy_dir_recursive(src: PathBuf, dest: PathBuf) -> Result<usize, RezCoreError> {
+    async fn copy_dir_recursive(
+        src: PathBuf,
+        dest: PathBuf,
+        install_dir: &Path,
+    ) -> Result<usize, RezCoreError> {
         use tokio::fs;
 
         fs::create_dir_all(&dest)
@@ -581,7 +589,12 @@ impl CustomBuildSystem {
             let dest_path = dest.join(entry.file_name());
 
             if src_path.is_dir() {
-                let dir_files = Box::pin(Self::copy_dir_recursive(src_path, dest_path)).await?;
+                // An install directory inside the source is never copied into itself
+                if install_dir.starts_with(&src_path) {
+                    continue;
+                }
+                let dir_files =
+                    Box::pin(Self::copy_dir_recursive(src_path, dest_path, install_dir)).await?;
                 files_copied += dir_files;
             } else {
                 fs::copy(&src_path, &dest_path)
@@ -604,6 +617,7 @@ impl CustomBuildSystem {
                 | ".hg"
                 | ".hgignore"
                 | ".svn"
+                | ".rez_build"
                 | "build"
                 | "dist"
                 | "__pycache__"
@@ -620,6 +634,20 @@ impl CustomBuildSystem {
     }
 }
 
+/// A path as one word of the shell command line, quoted only where needed.
+fn quote_path(path: &Path) -> String {
+    let text = path.to_string_lossy();
+    let plain =
+        |c: char| c.is_alphanumeric() || "/:._-+@%,=".contains(c) || cfg!(windows) && c == '\\';
+    if text.chars().all(plain) {
+        text.into_owned()
+    } else if cfg!(windows) {
+        format!("\"{text}\"")
+    } else {
+        format!("'{}'", text.replace('\'', "'\\''"))
+    }
+}
+
 fn step_for_script_command(command: &str) -> BuildStep {
     match command {
         "build" => BuildStep::Compiling,
diff --git a/crates/rez-next-build/src/systems/mod.rs b/crates/rez-next-build/src/systems/mod.rs
index 13f90d3..a327689 100644
--- a/crates/rez-next-build/src/systems/mod.rs
+++ b/crates/rez-next-build/src/systems/mod.rs
@@ -156,7 +156,7 @@ impl BuildSystem {
     pub fn detect_with_package(source_dir: &Path, package: &Package) -> Result<Self, RezCoreError> {
         // Check for explicit build_command first
         if let Some(ref build_command) = package.build_command {
-            if build_command == "false" || build_command.is_empty() {
+            if build_command.eq_ignore_ascii_case("false") || build_command.is_empty() {
                 return Ok(BuildSystem::Custom(CustomBuildSystem::new(
                     "copy-only".to_string(),
                 )));
-- 
2.43.0


From e988faef49da7a834aafe0eedc37ace0193b2350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:29 +0000
Subject: [PATCH 23/56] fix: binary archives install their own payload only

---
 crates/rez-next-build/src/artifacts.rs        | 13 ++++
 .../src/systems/binary_archive.rs             | 73 +++++++++++++++----
 2 files changed, 70 insertions(+), 16 deletions(-)

diff --git a/crates/rez-next-build/src/artifacts.rs b/crates/rez-next-build/src/artifacts.rs
index 9becb00..2bc9e1c 100644
--- a/crates/rez-next-build/src/artifacts.rs
+++ b/crates/rez-next-build/src/artifacts.rs
@@ -297,6 +297,19 @@ impl BuildArtifacts {
                 ));
             }
 
+            // Check contents
+            if let Some(expected) = &file.checksum {
+                let actual = Self::compute_sha256(&full_path).await?;
+                if &actual != expected {
+                    validation.errors.push(format!(
+                        "Checksum mismatch for {}: expected {}, got {}",
+                        file.path.display(),
+                        expected,
+                        actual
+                    ));
+                }
+            }
+
             validation.files_checked += 1;
         }
 
diff --git a/crates/rez-next-build/src/systems/binary_archive.rs b/crates/rez-next-build/src/systems/binary_archive.rs
index cfdf46c..bbec5d3 100644
--- a/crates/rez-next-build/src/systems/binary_archive.rs
+++ b/crates/rez-next-build/src/systems/binary_archive.rs
@@ -108,6 +108,14 @@ impl BinaryArchiveBuildSystem {
         tokio::fs::create_dir_all(&work_dir).await.map_err(|err| {
             RezCoreError::BuildError(format!("Failed to create archive work dir: {err}"))
         })?;
+        // Nothing of an earlier archive may end up in this one's payload
+        if extract_dir.exists() {
+            tokio::fs::remove_dir_all(&extract_dir)
+                .await
+                .map_err(|err| {
+                    RezCoreError::BuildError(format!("Failed to clear archive extract dir: {err}"))
+                })?;
+        }
         tokio::fs::create_dir_all(&extract_dir)
             .await
             .map_err(|err| {
@@ -136,6 +144,16 @@ impl BinaryArchiveBuildSystem {
                 payload.display()
             )));
         }
+        let inside = match (payload.canonicalize(), extract_dir.canonicalize()) {
+            (Ok(payload), Ok(extract_dir)) => payload.starts_with(extract_dir),
+            _ => false,
+        };
+        if !inside {
+            return Err(RezCoreError::BuildError(format!(
+                "binary archive payload directory is outside the archive: {}",
+                payload.display()
+            )));
+        }
 
         copy_tree_contents(&payload, install_dir)?;
 
@@ -177,9 +195,12 @@ impl BinaryArchiveBuildSystem {
             .unwrap_or("artifact.bin");
         let destination = work_dir.join(filename);
 
-        let response = reqwest::get(url).await.map_err(|err| {
-            RezCoreError::BuildError(format!("Failed to download binary archive {url}: {err}"))
-        })?;
+        let response = reqwest::get(url)
+            .await
+            .and_then(|response| response.error_for_status())
+            .map_err(|err| {
+                RezCoreError::BuildError(format!("Failed to download binary archive {url}: {err}"))
+            })?;
         let bytes = response.bytes().await.map_err(|err| {
             RezCoreError::BuildError(format!("Failed to read binary archive response: {err}"))
         })?;
@@ -223,7 +244,7 @@ fn verify_sha256(path: &Path, expected_sha256: &str) -> Result<(), RezCoreError>
         hasher.update(&buffer[..bytes_read]);
     }
     let actual = hex::encode(hasher.finalize());
-    if actual != expected_sha256 {
+    if !actual.eq_ignore_ascii_case(expected_sha256.trim()) {
         return Err(RezCoreError::BuildError(format!(
             "binary archive sha256 mismatch: expected {expected_sha256}, got {actual}"
         )));
@@ -316,25 +337,32 @@ fn copy_tree_contents(source: &Path, destination: &Path) -> Result<(), RezCoreEr
             .map_err(|err| RezCoreError::BuildError(format!("Failed to read entry: {err}")))?;
         let source_path = entry.path();
         let destination_path = destination.join(entry.file_name());
-        if source_path.is_dir() {
-            if destination_path.exists() {
-                fs::remove_dir_all(&destination_path).map_err(|err| {
-                    RezCoreError::BuildError(format!("Failed to remove directory: {err}"))
-                })?;
-            }
+        if !entry_is_link(&source_path) && source_path.is_dir() {
+            remove_existing(&destination_path)?;
             copy_dir_recursive(&source_path, &destination_path)?;
         } else {
-            if let Some(parent) = destination_path.parent() {
-                fs::create_dir_all(parent).map_err(|err| {
-                    RezCoreError::BuildError(format!("Failed to create parent directory: {err}"))
-                })?;
-            }
             copy_file_preserving_permissions(&source_path, &destination_path)?;
         }
     }
     Ok(())
 }
 
+fn entry_is_link(path: &Path) -> bool {
+    fs::symlink_metadata(path).is_ok_and(|metadata| metadata.file_type().is_symlink())
+}
+
+/// Clear the way for a new entry without following links.
+fn remove_existing(path: &Path) -> Result<(), RezCoreError> {
+    let removed = match fs::symlink_metadata(path) {
+        Ok(metadata) if metadata.is_dir() => fs::remove_dir_all(path),
+        Ok(_) => fs::remove_file(path),
+        Err(_) => Ok(()),
+    };
+    removed.map_err(|err| {
+        RezCoreError::BuildError(format!("Failed to replace {}: {err}", path.display()))
+    })
+}
+
 fn copy_dir_recursive(source: &Path, destination: &Path) -> Result<(), RezCoreError> {
     fs::create_dir_all(destination)
         .map_err(|err| RezCoreError::BuildError(format!("Failed to create directory: {err}")))?;
@@ -345,7 +373,7 @@ fn copy_dir_recursive(source: &Path, destination: &Path) -> Result<(), RezCoreEr
             .map_err(|err| RezCoreError::BuildError(format!("Failed to read entry: {err}")))?;
         let source_path = entry.path();
         let destination_path = destination.join(entry.file_name());
-        if source_path.is_dir() {
+        if !entry_is_link(&source_path) && source_path.is_dir() {
             copy_dir_recursive(&source_path, &destination_path)?;
         } else {
             copy_file_preserving_permissions(&source_path, &destination_path)?;
@@ -355,6 +383,19 @@ fn copy_dir_recursive(source: &Path, destination: &Path) -> Result<(), RezCoreEr
 }
 
 fn copy_file_preserving_permissions(source: &Path, destination: &Path) -> Result<(), RezCoreError> {
+    remove_existing(destination)?;
+    #[cfg(unix)]
+    if entry_is_link(source) {
+        // Links stay links: they may point at siblings that are not copied yet
+        return fs::read_link(source)
+            .and_then(|target| std::os::unix::fs::symlink(target, destination))
+            .map_err(|err| {
+                RezCoreError::BuildError(format!(
+                    "Failed to copy archive link {}: {err}",
+                    source.display()
+                ))
+            });
+    }
     fs::copy(source, destination).map_err(|err| {
         RezCoreError::BuildError(format!(
             "Failed to copy archive file {}: {err}",
-- 
2.43.0


From 96e9a25f195462faad5cd8e1697f3d19710aea84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:29 +0000
Subject: [PATCH 24/56] fix: a release that fails validation or tests is not
 tagged or installed

---
 crates/rez-next-build/src/release.rs | 18 +++++++-----------
 src/cli/commands/release.rs          | 12 ++++++++++--
 2 files changed, 17 insertions(+), 13 deletions(-)

diff --git a/crates/rez-next-build/src/release.rs b/crates/rez-next-build/src/release.rs
index 5ae1d7c..92c9910 100644
--- a/crates/rez-next-build/src/release.rs
+++ b/crates/rez-next-build/src/release.rs
@@ -104,6 +104,9 @@ impl ReleaseManager {
         } else {
             None
         };
+        if !result.errors.is_empty() {
+            return Ok(result);
+        }
 
         // For dry-run mode, add prefix and return early
         if self.mode == ReleaseMode::DryRun {
@@ -128,6 +131,10 @@ impl ReleaseManager {
         } else {
             self.run_tests(source_dir, &package, &install_path, &mut result)?;
         }
+        // Nothing is tagged or installed unless everything before succeeded
+        if !result.errors.is_empty() {
+            return Ok(result);
+        }
 
         // Step 4: Create VCS tag (if VCS is available)
         if let Some(ref vcs_impl) = vcs {
@@ -340,17 +347,6 @@ impl ReleaseManager {
             result
                 .warnings
                 .push("No variants defined, using base install path".to_string());
-
-            // Copy package.py to install directory (basic implementation)
-            let pkg_file = source_dir.join("package.py");
-            if pkg_file.exists() {
-                let dest_file = install_path.join("package.py");
-                if let Err(e) = fs::copy(&pkg_file, &dest_file) {
-                    result
-                        .warnings
-                        .push(format!("Failed to copy package.py: {}", e));
-                }
-            }
         }
 
         Ok(())
diff --git a/src/cli/commands/release.rs b/src/cli/commands/release.rs
index 3b00ba4..93b6ea7 100644
--- a/src/cli/commands/release.rs
+++ b/src/cli/commands/release.rs
@@ -10,6 +10,8 @@ use rez_next_package::serialization::PackageSerializer;
 use std::path::{Path, PathBuf};
 use std::process::Command;
 
+use crate::cli::utils::expand_home_str;
+
 /// Release command configuration
 #[derive(Debug, Clone, Args)]
 pub struct ReleaseArgs {
@@ -173,7 +175,7 @@ pub fn execute(args: ReleaseArgs) -> RezCoreResult<()> {
         .or_else(|| read_message_file(args.message_file.as_ref()))
         .unwrap_or_else(|| format!("Release {}", tag));
 
-    if vcs_type == "git" {
+    if vcs_type == "git" && !(args.ignore_existing_tag && check_tag_exists(&working_dir, &tag)) {
         create_git_tag(&working_dir, &tag, &message, args.verbose)?;
     }
 
@@ -272,6 +274,12 @@ fn validate_vcs_state(working_dir: &Path, vcs_type: &str, args: &ReleaseArgs) ->
             .output()
             .map_err(|e| RezCoreError::BuildError(format!("Failed to run git status: {}", e)))?;
 
+        if !output.status.success() {
+            return Err(RezCoreError::BuildError(format!(
+                "Failed to check repository state: {}",
+                String::from_utf8_lossy(&output.stderr).trim()
+            )));
+        }
         if !output.stdout.is_empty() {
             let dirty_files = String::from_utf8_lossy(&output.stdout);
             return Err(RezCoreError::BuildError(format!(
@@ -367,7 +375,7 @@ fn read_message_file(path: Option<&PathBuf>) -> Option<String> {
 
 /// Get release packages path from config
 fn get_release_path() -> String {
-    RezCoreConfig::load().release_packages_path
+    expand_home_str(&RezCoreConfig::load().release_packages_path)
 }
 
 #[cfg(test)]
-- 
2.43.0


From 2334a8aad0786d63b0a94d9b37b5bbb6dac1d7ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:32:56 +0000
Subject: [PATCH 25/56] fix: a damaged tar.gz archive is not installed

---
 crates/rez-next-build/src/systems/binary_archive.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/crates/rez-next-build/src/systems/binary_archive.rs b/crates/rez-next-build/src/systems/binary_archive.rs
index bbec5d3..358057b 100644
--- a/crates/rez-next-build/src/systems/binary_archive.rs
+++ b/crates/rez-next-build/src/systems/binary_archive.rs
@@ -322,9 +322,13 @@ fn extract_tar_gz(artifact: &Path, destination: &Path) -> Result<(), RezCoreErro
         .map_err(|err| RezCoreError::BuildError(format!("Failed to open tar.gz archive: {err}")))?;
     let decoder = GzDecoder::new(file);
     let mut archive = Archive::new(decoder);
-    archive
-        .unpack(destination)
-        .map_err(|err| RezCoreError::BuildError(format!("Failed to unpack tar.gz archive: {err}")))
+    archive.unpack(destination).map_err(|err| {
+        RezCoreError::BuildError(format!("Failed to unpack tar.gz archive: {err}"))
+    })?;
+    // The checksum follows what the tar reader needs: read to the end to verify it
+    std::io::copy(&mut archive.into_inner(), &mut std::io::sink())
+        .map_err(|err| RezCoreError::BuildError(format!("Damaged tar.gz archive: {err}")))?;
+    Ok(())
 }
 
 fn copy_tree_contents(source: &Path, destination: &Path) -> Result<(), RezCoreError> {
-- 
2.43.0


From ce64d93f6e26669c3e3ce88ae27639c5ef224c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:32:56 +0000
Subject: [PATCH 26/56] fix: a build directory is not a build script, and
 variants build outside what they install

---
 crates/rez-next-build/src/builder.rs     | 6 +++---
 crates/rez-next-build/src/systems/mod.rs | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/rez-next-build/src/builder.rs b/crates/rez-next-build/src/builder.rs
index 0b600cc..0cc9643 100644
--- a/crates/rez-next-build/src/builder.rs
+++ b/crates/rez-next-build/src/builder.rs
@@ -312,12 +312,12 @@ impl BuildManager {
             let variant_requires = request.variant_requires.clone().unwrap_or_default();
             build_env.set_variant_env(variant_index, &variant_requires);
 
-            // Update install path for hash variants if needed
+            // Give each hash variant a build directory of its own, outside what is installed
             if let Some(variant_hash) = request.variant_hash() {
-                let variant_install_path = build_env.get_variant_install_path(Some(&variant_hash));
+                let variant_build_dir = build_env.get_build_dir().join(&variant_hash);
                 build_env = BuildEnvironment::with_install_path(
                     &request.package,
-                    &variant_install_path,
+                    &variant_build_dir,
                     request.context.as_ref(),
                     request.install_path.as_ref(),
                 )?;
diff --git a/crates/rez-next-build/src/systems/mod.rs b/crates/rez-next-build/src/systems/mod.rs
index a327689..19e7be5 100644
--- a/crates/rez-next-build/src/systems/mod.rs
+++ b/crates/rez-next-build/src/systems/mod.rs
@@ -119,7 +119,7 @@ impl BuildSystem {
         // Check for build script first (higher priority for rez packages)
         let build_scripts = ["build.sh", "build.bat", "build.py", "build"];
         for script in &build_scripts {
-            if source_dir.join(script).exists() {
+            if source_dir.join(script).is_file() {
                 return Ok(BuildSystem::Custom(CustomBuildSystem::new(
                     script.to_string(),
                 )));
-- 
2.43.0


From 55bce5c78440fadd455ea35e28079cf6605795f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:05 +0000
Subject: [PATCH 27/56] fix: a release that failed is not left visible in the
 release repository

---
 src/cli/commands/release.rs | 39 ++++++++++++++++++++++++++++++-------
 1 file changed, 32 insertions(+), 7 deletions(-)

diff --git a/src/cli/commands/release.rs b/src/cli/commands/release.rs
index 93b6ea7..71604be 100644
--- a/src/cli/commands/release.rs
+++ b/src/cli/commands/release.rs
@@ -122,6 +122,32 @@ pub fn execute(args: ReleaseArgs) -> RezCoreResult<()> {
     // 5. Build package variants
     println!("Building package...");
     let install_path = PathBuf::from(get_release_path());
+    let package_dir = install_path.join(&package.name).join(
+        package
+            .version
+            .as_ref()
+            .map_or("0.0.0", |version| version.as_str()),
+    );
+    let released_before = package_dir.exists();
+    let released = build_and_tag(&args, &package, &version_str, &working_dir, &install_path);
+    if released.is_err() && !released_before {
+        // A release that failed is not visible in the release repository
+        let _ = std::fs::remove_dir_all(&package_dir);
+    }
+    released?;
+
+    println!("Released {}-{} successfully!", package.name, version_str);
+    Ok(())
+}
+
+/// Build and install every selected variant, then tag the release
+fn build_and_tag(
+    args: &ReleaseArgs,
+    package: &rez_next_package::Package,
+    version_str: &str,
+    working_dir: &Path,
+    install_path: &Path,
+) -> RezCoreResult<()> {
     let build_options = BuildOptions {
         force_rebuild: false,
         skip_tests: false,
@@ -134,21 +160,21 @@ pub fn execute(args: ReleaseArgs) -> RezCoreResult<()> {
         .map_err(|e| RezCoreError::BuildError(format!("Failed to create runtime: {}", e)))?;
 
     let mut build_manager = BuildManager::new();
-    for variant_index in release_variant_indices(&package, args.variants.as_deref())? {
+    for variant_index in release_variant_indices(package, args.variants.as_deref())? {
         let variant_requires = variant_index.map(|index| package.variants[index].clone());
         let context = super::build::resolve_build_context(
-            &package,
+            package,
             variant_requires.as_deref(),
             args.verbose,
         )?;
         let build_request = BuildRequest {
             package: package.clone(),
             context,
-            source_dir: working_dir.clone(),
+            source_dir: working_dir.to_path_buf(),
             variant_index,
             variant_requires,
             options: build_options.clone(),
-            install_path: Some(install_path.clone()),
+            install_path: Some(install_path.to_path_buf()),
         };
         let build_ids = rt.block_on(build_manager.start_build(build_request))?;
         let build_id = build_ids
@@ -175,11 +201,10 @@ pub fn execute(args: ReleaseArgs) -> RezCoreResult<()> {
         .or_else(|| read_message_file(args.message_file.as_ref()))
         .unwrap_or_else(|| format!("Release {}", tag));
 
-    if vcs_type == "git" && !(args.ignore_existing_tag && check_tag_exists(&working_dir, &tag)) {
-        create_git_tag(&working_dir, &tag, &message, args.verbose)?;
+    if !(args.ignore_existing_tag && check_tag_exists(working_dir, &tag)) {
+        create_git_tag(working_dir, &tag, &message, args.verbose)?;
     }
 
-    println!("Released {}-{} successfully!", package.name, version_str);
     Ok(())
 }
 
-- 
2.43.0


From 430299a863f87ece693647c67fcd121d6e23537b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:39:13 +0000
Subject: [PATCH 28/56] fix: package orderers never panic, order
 deterministically and survive from_pod

---
 crates/rez-next-package/src/package_order.rs | 33 +++++++++++++++-----
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/crates/rez-next-package/src/package_order.rs b/crates/rez-next-package/src/package_order.rs
index 68a33b8..bdcc126 100644
--- a/crates/rez-next-package/src/package_order.rs
+++ b/crates/rez-next-package/src/package_order.rs
@@ -200,8 +200,13 @@ impl PackageOrder for VersionSplitPackageOrder {
             }
         }
 
-        before.sort_by(|a, b| a.version.as_ref().unwrap().cmp(b.version.as_ref().unwrap()));
-        after.sort_by(|a, b| a.version.as_ref().unwrap().cmp(b.version.as_ref().unwrap()));
+        // Packages without a version come last
+        let by_version = |a: &Package, b: &Package| match (&a.version, &b.version) {
+            (Some(a), Some(b)) => a.cmp(b),
+            (a, b) => b.is_some().cmp(&a.is_some()),
+        };
+        before.sort_by(by_version);
+        after.sort_by(by_version);
 
         let mut result = before;
         result.extend(after);
@@ -251,13 +256,13 @@ impl PackageOrder for PerFamilyOrder {
     }
 
     fn reorder(&self, packages: &[Package]) -> Option<Vec<Package>> {
-        // Group by family
-        let mut grouped: HashMap<String, Vec<Package>> = HashMap::new();
+        // Group by family, families in the order they first appear
+        let mut grouped: Vec<(String, Vec<Package>)> = Vec::new();
         for pkg in packages {
-            grouped
-                .entry(pkg.name.clone())
-                .or_default()
-                .push(pkg.clone());
+            match grouped.iter_mut().find(|(family, _)| *family == pkg.name) {
+                Some((_, members)) => members.push(pkg.clone()),
+                None => grouped.push((pkg.name.clone(), vec![pkg.clone()])),
+            }
         }
 
         let mut result = Vec::new();
@@ -477,6 +482,18 @@ pub fn from_pod(data: &serde_json::Value) -> Option<Box<dyn PackageOrder>> {
                 timestamp, rank, packages,
             )))
         }
+        "per_family" => {
+            let mut order_dict = HashMap::new();
+            for (family, order) in data.get("order_dict")?.as_object()? {
+                order_dict.insert(family.clone(), from_pod(order)?);
+            }
+            let default_order = match data.get("default_order") {
+                None | Some(serde_json::Value::Null) => None,
+                Some(order) => Some(from_pod(order)?),
+            };
+
+            Some(Box::new(PerFamilyOrder::new(order_dict, default_order)))
+        }
         _ => None,
     }
 }
-- 
2.43.0


From 04c9a9bb8b31de28d524938f5931fac1d591726a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:39:13 +0000
Subject: [PATCH 29/56] fix: suite tools never overwrite each other silently,
 and create keeps an existing suite

---
 crates/rez-next-suites/src/suite.rs | 10 +++++++++-
 src/cli/commands/suites.rs          | 14 ++++++++++----
 2 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/crates/rez-next-suites/src/suite.rs b/crates/rez-next-suites/src/suite.rs
index 67887cb..2285eca 100644
--- a/crates/rez-next-suites/src/suite.rs
+++ b/crates/rez-next-suites/src/suite.rs
@@ -175,7 +175,9 @@ impl Suite {
             // Generate tool entries for this context
             // Since we don't have actual resolved contexts here (that would require async),
             // we use the alias map and any known tools
-            for (alias, original) in &ctx.tool_aliases {
+            let mut aliases: Vec<_> = ctx.tool_aliases.iter().collect();
+            aliases.sort();
+            for (alias, original) in aliases {
                 if !ctx.is_tool_visible(original) {
                     continue;
                 }
@@ -213,6 +215,12 @@ impl Suite {
                         ToolConflictMode::Prefix => {
                             // Rename with context prefix
                             let prefixed_name = format!("{}_{}", ctx.name, alias);
+                            if let Some(taken) = tools.get(&prefixed_name) {
+                                return Err(SuiteError::ToolConflict {
+                                    tool: prefixed_name,
+                                    contexts: format!("{}, {}", taken.context_name, ctx.name),
+                                });
+                            }
                             let prefixed_tool = SuiteTool::new(
                                 prefixed_name.clone(),
                                 original.clone(),
diff --git a/src/cli/commands/suites.rs b/src/cli/commands/suites.rs
index a0a9daa..9dde797 100644
--- a/src/cli/commands/suites.rs
+++ b/src/cli/commands/suites.rs
@@ -198,6 +198,13 @@ fn cmd_create(args: CreateSuiteArgs) -> RezCoreResult<()> {
         .parse()
         .map_err(|e: String| RezCoreError::RequirementParse(e))?;
 
+    if Suite::is_suite(&args.path) {
+        return Err(RezCoreError::ExecutionError(format!(
+            "A suite already exists at {}",
+            args.path.display()
+        )));
+    }
+
     let mut suite = Suite::new().with_conflict_mode(conflict_mode);
     if let Some(desc) = args.description {
         suite = suite.with_description(desc);
@@ -256,10 +263,9 @@ fn cmd_add_context(args: AddContextArgs) -> RezCoreResult<()> {
         .add_context(args.context_name.clone(), args.requests.clone())
         .map_err(|e| RezCoreError::ExecutionError(e.to_string()))?;
 
-    if let Some(prefix) = args.prefix
-        && let Some(ctx) = suite.get_context_mut(&args.context_name)
-    {
-        ctx.prefix = Some(prefix);
+    if let Some(ctx) = suite.get_context_mut(&args.context_name) {
+        ctx.prefix = args.prefix;
+        ctx.priority = args.priority;
     }
 
     suite
-- 
2.43.0


From c7c59763c87e71f6996a51aa8e42f3dde4ca0c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:51 +0000
Subject: [PATCH 30/56] fix: filter rules match versions, literal characters
 and their own family

---
 crates/rez-next-package-filter/src/rule.rs | 25 ++++++++++++++++------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/crates/rez-next-package-filter/src/rule.rs b/crates/rez-next-package-filter/src/rule.rs
index 3420a0b..52c7cd8 100644
--- a/crates/rez-next-package-filter/src/rule.rs
+++ b/crates/rez-next-package-filter/src/rule.rs
@@ -141,17 +141,13 @@ impl GlobRule {
     fn matches_glob(pattern: &str, text: &str) -> bool {
         // Convert glob pattern to regex
         let mut regex_pattern = String::with_capacity(pattern.len() * 2);
-        regex_pattern.push('^');
+        regex_pattern.push_str("(?s)^");
 
         for c in pattern.chars() {
             match c {
                 '*' => regex_pattern.push_str(".*"),
                 '?' => regex_pattern.push('.'),
-                '.' | '(' | ')' | '[' | ']' | '{' | '}' | '|' | '^' | '$' | '+' => {
-                    regex_pattern.push('\\');
-                    regex_pattern.push(c);
-                }
-                _ => regex_pattern.push(c),
+                _ => regex_pattern.push_str(&regex::escape(c.encode_utf8(&mut [0; 4]))),
             }
         }
 
@@ -167,9 +163,16 @@ impl GlobRule {
 
 impl Rule for GlobRule {
     fn apply(&self, package: &Package) -> RuleMatch {
+        if self.family().is_some_and(|family| package.name != family) {
+            return RuleMatch::DoesNotMatch;
+        }
+
         let text = match self.field {
             GlobField::Name => &package.name,
-            GlobField::Version => return RuleMatch::DoesNotMatch, // Version is a struct
+            GlobField::Version => match package.version {
+                Some(ref version) => version.as_str(),
+                None => return RuleMatch::DoesNotMatch,
+            },
             GlobField::Description => package.description.as_deref().unwrap_or(""),
         };
 
@@ -293,6 +296,10 @@ impl RegexRule {
 
 impl Rule for RegexRule {
     fn apply(&self, package: &Package) -> RuleMatch {
+        if self.family().is_some_and(|family| package.name != family) {
+            return RuleMatch::DoesNotMatch;
+        }
+
         let text = match self.field {
             RegexField::Name => &package.name,
             RegexField::Description => package.description.as_deref().unwrap_or(""),
@@ -516,6 +523,10 @@ impl TimestampRule {
 
 impl Rule for TimestampRule {
     fn apply(&self, package: &Package) -> RuleMatch {
+        if self.family().is_some_and(|family| package.name != family) {
+            return RuleMatch::DoesNotMatch;
+        }
+
         // Check package timestamp (package.timestamp is Option<i64>)
         if let Some(ts) = package.timestamp {
             if ts < 0 {
-- 
2.43.0


From fdaf5c31f9e557f1d60a1e03fcf8bb34047a26bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:00:27 +0000
Subject: [PATCH 31/56] fix: environment variables that are not Unicode never
 crash a command

---
 crates/rez-next-build/src/process.rs            | 5 ++++-
 crates/rez-next-config/src/lib.rs               | 4 +++-
 crates/rez-next-context/src/environment.rs      | 5 ++++-
 crates/rez-next-context/src/resolved_context.rs | 4 +++-
 src/cli/commands/build.rs                       | 3 ++-
 5 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/crates/rez-next-build/src/process.rs b/crates/rez-next-build/src/process.rs
index 49d3307..efe385d 100644
--- a/crates/rez-next-build/src/process.rs
+++ b/crates/rez-next-build/src/process.rs
@@ -600,7 +600,10 @@ impl BuildProcess {
             });
         }
         let mut base_environment = std::collections::HashMap::new();
-        for (name, value) in std::env::vars().chain(environment.get_env_vars().clone()) {
+        for (name, value) in std::env::vars_os()
+            .filter_map(|(name, value)| Some((name.into_string().ok()?, value.into_string().ok()?)))
+            .chain(environment.get_env_vars().clone())
+        {
             let name = if cfg!(windows) {
                 name.to_ascii_uppercase()
             } else {
diff --git a/crates/rez-next-config/src/lib.rs b/crates/rez-next-config/src/lib.rs
index 9d08151..748db74 100644
--- a/crates/rez-next-config/src/lib.rs
+++ b/crates/rez-next-config/src/lib.rs
@@ -266,7 +266,9 @@ impl Config {
     /// plain strings are stored as strings.
     fn apply_env_overrides(&mut self) -> Result<(), ConfigError> {
         let mut count = 0usize;
-        for (key, value) in env::vars() {
+        for (key, value) in env::vars_os()
+            .filter_map(|(name, value)| Some((name.into_string().ok()?, value.into_string().ok()?)))
+        {
             if let Some(config_key) = key.strip_prefix("REZ_") {
                 let dotted = config_key.to_lowercase().replace('_', ".");
                 let parsed: JsonValue = serde_json::from_str(&value)
diff --git a/crates/rez-next-context/src/environment.rs b/crates/rez-next-context/src/environment.rs
index 998459c..de51ccc 100644
--- a/crates/rez-next-context/src/environment.rs
+++ b/crates/rez-next-context/src/environment.rs
@@ -54,7 +54,10 @@ impl EnvironmentManager {
     /// Create a new environment manager
     pub fn new(config: ContextConfig) -> Self {
         let base_env = if config.inherit_parent_env {
-            env::vars()
+            env::vars_os()
+                .filter_map(|(name, value)| {
+                    Some((name.into_string().ok()?, value.into_string().ok()?))
+                })
                 .map(|(name, value)| (environment_key(&name), value))
                 .collect()
         } else {
diff --git a/crates/rez-next-context/src/resolved_context.rs b/crates/rez-next-context/src/resolved_context.rs
index 83ea4cd..66ebb3a 100644
--- a/crates/rez-next-context/src/resolved_context.rs
+++ b/crates/rez-next-context/src/resolved_context.rs
@@ -151,7 +151,9 @@ impl RezResolvedContext {
         let mut environ = HashMap::new();
 
         // Start with system environment
-        for (key, value) in std::env::vars() {
+        for (key, value) in std::env::vars_os()
+            .filter_map(|(name, value)| Some((name.into_string().ok()?, value.into_string().ok()?)))
+        {
             environ.insert(key, value);
         }
 
diff --git a/src/cli/commands/build.rs b/src/cli/commands/build.rs
index 4b20c26..8d41fcd 100644
--- a/src/cli/commands/build.rs
+++ b/src/cli/commands/build.rs
@@ -554,7 +554,8 @@ fn parse_build_args(args_str: &Option<String>) -> Vec<String> {
 }
 
 fn collect_build_plugin_env_vars() -> HashMap<String, String> {
-    std::env::vars()
+    std::env::vars_os()
+        .filter_map(|(name, value)| Some((name.into_string().ok()?, value.into_string().ok()?)))
         .filter(|(key, _)| {
             key.starts_with("REZ_BINARY_ARCHIVE_")
                 || key.starts_with("REZ_PYPI_")
-- 
2.43.0


From d857b08f450395ccf53a29d36f6a49503d5c412d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:02:15 +0000
Subject: [PATCH 32/56] fix: a printed environment is quoted and in order

---
 src/cli/commands/env.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/cli/commands/env.rs b/src/cli/commands/env.rs
index 2256567..d44d779 100644
--- a/src/cli/commands/env.rs
+++ b/src/cli/commands/env.rs
@@ -10,7 +10,7 @@ use rez_next_package::{PackageRequirement, Requirement};
 use rez_next_repository::simple_repository::{RepositoryManager, SimpleRepository};
 use rez_next_rex::{RexEnvironment, ShellType as RexShellType, generate_shell_script};
 use rez_next_solver::{DependencyResolver, SolverConfig};
-use std::collections::HashMap;
+use std::collections::{BTreeMap, HashMap};
 use std::path::PathBuf;
 use std::process::{Command, Stdio};
 use std::sync::Arc;
@@ -431,7 +431,7 @@ fn print_context_summary(context: &ResolvedContext, action: &str) {
 /// Print environment variables
 fn print_environment(context: &ResolvedContext, args: &EnvArgs) -> RezCoreResult<()> {
     let environment = context_environment(context, None)?;
-    let env_vars = &environment.vars;
+    let env_vars: BTreeMap<_, _> = environment.vars.iter().collect();
 
     match args.format.as_deref() {
         Some("json") => {
@@ -440,13 +440,17 @@ fn print_environment(context: &ResolvedContext, args: &EnvArgs) -> RezCoreResult
         }
         Some("dict") => {
             for (key, value) in env_vars.iter() {
+                let value = value
+                    .replace('\\', "\\\\")
+                    .replace('\'', "\\'")
+                    .replace('\n', "\\n");
                 println!("'{}': '{}'", key, value);
             }
         }
         _ => {
             // Shell format (default)
             for (key, value) in env_vars.iter() {
-                println!("export {}=\"{}\"", key, value);
+                println!("export {}='{}'", key, value.replace('\'', "'\\''"));
             }
         }
     }
-- 
2.43.0


From 0255604d4afef474913e5c446042786503b661f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:04:00 +0000
Subject: [PATCH 33/56] fix: arguments after -- reach the command unchanged

---
 src/bin/rez-next.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/bin/rez-next.rs b/src/bin/rez-next.rs
index 6dea178..17c1446 100644
--- a/src/bin/rez-next.rs
+++ b/src/bin/rez-next.rs
@@ -27,16 +27,16 @@ fn main() {
 }
 
 fn handle_grouped_command(args: Vec<String>) {
-    // Split arguments by '--'
+    // Split arguments at the first '--'; what follows belongs to the command,
+    // further '--' included
     let mut arg_groups = vec![vec![]];
-    let mut current_group = 0;
 
     for arg in args.iter().skip(1) {
         // Skip program name
-        if arg == "--" {
+        if arg == "--" && arg_groups.len() == 1 {
             arg_groups.push(vec![]);
-            current_group += 1;
         } else {
+            let current_group = arg_groups.len() - 1;
             arg_groups[current_group].push(arg.clone());
         }
     }
@@ -66,7 +66,11 @@ fn handle_grouped_command(args: Vec<String>) {
                         if arg_groups.len() > 1 && !arg_groups[1].is_empty() =>
                     {
                         // Pass extra args as build-args string
-                        let extra = arg_groups[1].join(" ");
+                        let extra = arg_groups[1]
+                            .split(|arg| arg == "--")
+                            .next()
+                            .unwrap_or_default()
+                            .join(" ");
                         if build_args.build_args.is_none() {
                             build_args.build_args = Some(extra);
                         }
-- 
2.43.0


From 49f80124d841a95dd9698bd7c327eb1b507e127b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:04:00 +0000
Subject: [PATCH 34/56] fix: env removes what packages unset and leaves the
 caller's variables alone

---
 src/cli/commands/env.rs | 53 +++++++++++++++++++++++++++++++++++++++--
 1 file changed, 51 insertions(+), 2 deletions(-)

diff --git a/src/cli/commands/env.rs b/src/cli/commands/env.rs
index d44d779..0ab83bd 100644
--- a/src/cli/commands/env.rs
+++ b/src/cli/commands/env.rs
@@ -477,11 +477,54 @@ fn print_shell_script(context: &ResolvedContext, args: &EnvArgs) -> RezCoreResul
         _ => RexShellType::Bash,
     };
 
-    let script = generate_shell_script(&environment, &rex_shell);
+    let script = activation_script(&environment, &rex_shell);
     println!("{}", script);
     Ok(())
 }
 
+/// Names of the caller's variables that the environment no longer has
+fn removed_variables(environment: &RexEnvironment) -> Vec<String> {
+    let has = |name: &str| {
+        environment.vars.contains_key(name)
+            || (cfg!(windows)
+                && environment
+                    .vars
+                    .keys()
+                    .any(|key| key.eq_ignore_ascii_case(name)))
+    };
+    let mut names: Vec<String> = std::env::vars_os()
+        .filter_map(|(name, value)| {
+            value.to_str()?;
+            name.into_string().ok()
+        })
+        .filter(|name| !has(name))
+        .collect();
+    names.sort();
+    names
+}
+
+/// Script that turns the caller's environment into the given one. Variables that
+/// the caller already has are left alone, so that their text is never reinterpreted.
+fn activation_script(environment: &RexEnvironment, shell_type: &RexShellType) -> String {
+    let mut changed = environment.clone();
+    changed
+        .vars
+        .retain(|name, value| std::env::var(name).ok().as_ref() != Some(value));
+    let mut script = String::new();
+    for name in removed_variables(environment) {
+        script.push_str(&match shell_type {
+            RexShellType::Bash | RexShellType::Zsh => format!("unset {name}\n"),
+            RexShellType::Fish => format!("set -e {name}\n"),
+            RexShellType::Cmd => format!("set \"{name}=\"\r\n"),
+            RexShellType::PowerShell => {
+                format!("Remove-Item -ErrorAction SilentlyContinue Env:{name}\n")
+            }
+        });
+    }
+    script.push_str(&generate_shell_script(&changed, shell_type));
+    script
+}
+
 fn create_activation_script(
     environment: &mut RexEnvironment,
     shell_type: &RexShellType,
@@ -500,7 +543,7 @@ fn create_activation_script(
         "REZ_CONTEXT_FILE".to_string(),
         path.to_string_lossy().into_owned(),
     );
-    let mut script = generate_shell_script(environment, shell_type);
+    let mut script = activation_script(environment, shell_type);
     if let Some(command) = trailing_command {
         script.push_str(if matches!(shell_type, RexShellType::Cmd) {
             "\r\n"
@@ -584,6 +627,9 @@ fn execute_shell_command_in_environment(
         }
     }
 
+    for name in removed_variables(&environment) {
+        cmd.env_remove(name);
+    }
     cmd.envs(&environment.vars);
 
     // Execute the command
@@ -701,6 +747,9 @@ fn spawn_shell_in_context(
         }
     }
 
+    for name in removed_variables(&environment) {
+        cmd.env_remove(name);
+    }
     cmd.envs(&environment.vars);
 
     // Set up stdio
-- 
2.43.0


From 07f84aa02bc2a29f30f17f1bc594c2087718e28f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:09:28 +0000
Subject: [PATCH 35/56] fix: a strict resolve backs off from a version whose
 dependency does not exist

---
 crates/rez-next-solver/src/dependency_resolver.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/rez-next-solver/src/dependency_resolver.rs b/crates/rez-next-solver/src/dependency_resolver.rs
index c190ff1..73cde54 100644
--- a/crates/rez-next-solver/src/dependency_resolver.rs
+++ b/crates/rez-next-solver/src/dependency_resolver.rs
@@ -224,6 +224,13 @@ impl DependencyResolver {
                 .any(|resolved| resolved.package.name == requirement.name);
 
             if candidates.is_empty() {
+                if self.config.strict_mode
+                    && self
+                        .backtrack_dependency_source(state, &requirement)
+                        .await?
+                {
+                    continue;
+                }
                 state.failed_requirements.push(requirement.clone());
                 continue;
             }
-- 
2.43.0


From f173cef9057059f88081d17933550d2de9586df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:09:28 +0000
Subject: [PATCH 36/56] fix: a strict resolve backs off from a version that
 excludes a needed package

---
 crates/rez-next-solver/src/dependency_resolver.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/crates/rez-next-solver/src/dependency_resolver.rs b/crates/rez-next-solver/src/dependency_resolver.rs
index 73cde54..896feb3 100644
--- a/crates/rez-next-solver/src/dependency_resolver.rs
+++ b/crates/rez-next-solver/src/dependency_resolver.rs
@@ -316,7 +316,19 @@ impl DependencyResolver {
                 .iter()
                 .filter(|requirement| requirement.name == failed_requirement.name)
                 .collect();
+            let excludes_target =
+                state
+                    .package_conflict_requirements
+                    .get(source)
+                    .is_some_and(|conflicts| {
+                        conflicts
+                            .iter()
+                            .any(|conflict| conflict.name == failed_requirement.name)
+                    });
             if target_requirements.is_empty() {
+                if excludes_target {
+                    incompatible_sources.push(source.clone());
+                }
                 continue;
             }
 
-- 
2.43.0


From 29a1276bdb4d9016a77f31d07c994fc56c81222b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:40 +0000
Subject: [PATCH 37/56] fix: unfinished copies are not taken for packages when
 listing plugins and dependents

---
 crates/rez-next-repository/src/package_search.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/rez-next-repository/src/package_search.rs b/crates/rez-next-repository/src/package_search.rs
index 06d72e0..c2b012a 100644
--- a/crates/rez-next-repository/src/package_search.rs
+++ b/crates/rez-next-repository/src/package_search.rs
@@ -114,8 +114,11 @@ fn is_plugin_for(family_path: &Path, target_package: &str) -> bool {
 fn latest_package(family_path: &Path) -> Option<Package> {
     let mut latest: Option<Package> = None;
     for entry in std::fs::read_dir(family_path).ok()?.flatten() {
-        let marker = format!(".ignore{}", entry.file_name().to_string_lossy());
-        if !entry.path().is_dir() || family_path.join(marker).is_file() {
+        // Hidden directories, such as unfinished copies, are not packages.
+        let dir_name = entry.file_name().to_string_lossy().into_owned();
+        let marker = format!(".ignore{}", dir_name);
+        if dir_name.starts_with('.') || !entry.path().is_dir() || family_path.join(marker).is_file()
+        {
             continue;
         }
         if let Some(pkg) = load_package_from_dir(&entry.path())
-- 
2.43.0


From 023a15a7ecd2162f06fe0e0928c1efb5fb3eeeae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:35 +0000
Subject: [PATCH 38/56] fix: packages without a version count as plugins and
 dependents

---
 crates/rez-next-repository/src/package_search.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/rez-next-repository/src/package_search.rs b/crates/rez-next-repository/src/package_search.rs
index c2b012a..8eedece 100644
--- a/crates/rez-next-repository/src/package_search.rs
+++ b/crates/rez-next-repository/src/package_search.rs
@@ -112,6 +112,10 @@ fn is_plugin_for(family_path: &Path, target_package: &str) -> bool {
 
 /// The highest version of a family that is not hidden by an `.ignore{version}` marker.
 fn latest_package(family_path: &Path) -> Option<Package> {
+    // A package without a version is defined in the family directory itself.
+    if let Some(pkg) = load_package_from_dir(family_path) {
+        return Some(pkg);
+    }
     let mut latest: Option<Package> = None;
     for entry in std::fs::read_dir(family_path).ok()?.flatten() {
         // Hidden directories, such as unfinished copies, are not packages.
-- 
2.43.0


From 11d7e8a001ee82a3a80901f2ffd5229d8edd3a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:41 +0000
Subject: [PATCH 39/56] fix: a lookup that meets a scan does not miss that its
 family is broken

---
 .../src/simple_repository.rs                  | 29 ++++++++++---------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/crates/rez-next-repository/src/simple_repository.rs b/crates/rez-next-repository/src/simple_repository.rs
index c3ac095..ebee61d 100644
--- a/crates/rez-next-repository/src/simple_repository.rs
+++ b/crates/rez-next-repository/src/simple_repository.rs
@@ -75,6 +75,18 @@ impl SimpleRepository {
         Ok(())
     }
 
+    /// What the last scan found of a family, or why it could not be read
+    async fn known_packages(&self, name: &str) -> Result<Option<Vec<Arc<Package>>>, RezCoreError> {
+        // Both locks are held, in the order of `scan`, so that packages and errors
+        // are those of one scan
+        let cache = self.package_cache.read().await;
+        let errors = self.package_errors.read().await;
+        if let Some(error) = errors.get(name) {
+            return Err(RezCoreError::Repository(error.clone()));
+        }
+        Ok(cache.get(name).cloned())
+    }
+
     /// Recursively scan a directory for packages
     fn scan_directory<'a>(
         &'a self,
@@ -153,25 +165,14 @@ impl SimpleRepository {
 impl PackageRepository for SimpleRepository {
     async fn find_packages(&self, name: &str) -> Result<Vec<Arc<Package>>, RezCoreError> {
         // Check cache first
-        if let Some(error) = self.package_errors.read().await.get(name) {
-            return Err(RezCoreError::Repository(error.clone()));
-        }
-        {
-            let cache = self.package_cache.read().await;
-            if let Some(packages) = cache.get(name) {
-                return Ok(packages.clone());
-            }
+        if let Some(known) = self.known_packages(name).await? {
+            return Ok(known);
         }
 
         // If not in cache, scan and try again
         self.scan().await?;
 
-        if let Some(error) = self.package_errors.read().await.get(name) {
-            return Err(RezCoreError::Repository(error.clone()));
-        }
-
-        let cache = self.package_cache.read().await;
-        Ok(cache.get(name).cloned().unwrap_or_default())
+        Ok(self.known_packages(name).await?.unwrap_or_default())
     }
 
     async fn get_package(
-- 
2.43.0


From 3f3eca1ff8bd26a1540c8511cf0e4adef74650a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:24 +0000
Subject: [PATCH 40/56] fix: names in package.py are bound after their value,
 and local to their function

---
 .../src/python_ast_parser/commands.rs         | 21 +++++++++++++++++++
 .../src/python_ast_parser/eval.rs             |  6 +++---
 .../src/python_ast_parser/mod.rs              | 14 +++++++++----
 .../src/python_ast_parser/types.rs            |  2 ++
 4 files changed, 36 insertions(+), 7 deletions(-)

diff --git a/crates/rez-next-package/src/python_ast_parser/commands.rs b/crates/rez-next-package/src/python_ast_parser/commands.rs
index 4a6d2f2..66f4ef4 100644
--- a/crates/rez-next-package/src/python_ast_parser/commands.rs
+++ b/crates/rez-next-package/src/python_ast_parser/commands.rs
@@ -53,6 +53,8 @@ impl PythonAstParser {
     ) -> Result<Option<String>, RezCoreError> {
         let outer_variables = self.context.variables.clone();
         let outer_imports = self.context.imports.clone();
+        // A name the function assigns anywhere is local to all of it.
+        self.unbind_assigned_names(body);
         let result = (|| {
             let mut commands = Vec::new();
             for stmt in body {
@@ -67,6 +69,25 @@ impl PythonAstParser {
         result
     }
 
+    fn unbind_assigned_names(&mut self, body: &[Stmt]) {
+        for stmt in body {
+            match stmt {
+                Stmt::Assign(assign) => {
+                    for target in &assign.targets {
+                        if let Expr::Name(name) = target {
+                            self.context.variables.remove(name.id.as_str());
+                        }
+                    }
+                }
+                Stmt::If(if_stmt) => {
+                    self.unbind_assigned_names(&if_stmt.body);
+                    self.unbind_assigned_names(&if_stmt.orelse);
+                }
+                _ => {}
+            }
+        }
+    }
+
     /// Write one Rex call. Rex has no escapes, so each argument is quoted with a
     /// quote it does not contain; one that cannot be quoted is rejected.
     fn rex_call(function: &str, arguments: &[&str]) -> Result<Option<String>, RezCoreError> {
diff --git a/crates/rez-next-package/src/python_ast_parser/eval.rs b/crates/rez-next-package/src/python_ast_parser/eval.rs
index d91e06e..eb7757f 100644
--- a/crates/rez-next-package/src/python_ast_parser/eval.rs
+++ b/crates/rez-next-package/src/python_ast_parser/eval.rs
@@ -369,12 +369,12 @@ impl PythonAstParser {
                     ));
                 }
                 ("this", "version") => {
-                    if let Some(version) = self.context.variables.get("version") {
+                    if let Some(version) = self.context.package.get("version") {
                         return Ok(version.clone());
                     }
                 }
                 ("this", "name") => {
-                    if let Some(name) = self.context.variables.get("name") {
+                    if let Some(name) = self.context.package.get("name") {
                         return Ok(name.clone());
                     }
                 }
@@ -386,7 +386,7 @@ impl PythonAstParser {
             && let Expr::Name(owner) = &*version.value
             && owner.id.as_str() == "this"
             && version.attr.as_str() == "version"
-            && let Some(PythonValue::String(value)) = self.context.variables.get("version")
+            && let Some(PythonValue::String(value)) = self.context.package.get("version")
         {
             let component = match attr.attr.as_str() {
                 "major" => value.split('.').next(),
diff --git a/crates/rez-next-package/src/python_ast_parser/mod.rs b/crates/rez-next-package/src/python_ast_parser/mod.rs
index 2bb6df7..d320c35 100644
--- a/crates/rez-next-package/src/python_ast_parser/mod.rs
+++ b/crates/rez-next-package/src/python_ast_parser/mod.rs
@@ -51,6 +51,7 @@ impl PythonAstParser {
         }
 
         // Functions run once the module is loaded, so they see its final values.
+        self.context.package = self.context.variables.clone();
         for function in std::mem::take(&mut self.context.functions) {
             self.process_function_definition(&function, &mut package_data)?;
         }
@@ -66,6 +67,7 @@ impl PythonAstParser {
     ) -> Result<(), RezCoreError> {
         match stmt {
             Stmt::Assign(assign) => {
+                let python_value = self.evaluate_expression(&assign.value)?;
                 for target in &assign.targets {
                     let Expr::Name(name_expr) = target else {
                         return Err(RezCoreError::PackageParse(format!(
@@ -74,6 +76,14 @@ impl PythonAstParser {
                     };
                     self.process_assignment(&name_expr.id, &assign.value, package_data)?;
                 }
+                // The names are bound once the value is computed: `a = a + [1]`.
+                for target in &assign.targets {
+                    if let Expr::Name(name_expr) = target {
+                        self.context
+                            .variables
+                            .insert(name_expr.id.to_string(), python_value.clone());
+                    }
+                }
             }
             Stmt::FunctionDef(func_def) => {
                 self.context
@@ -214,13 +224,9 @@ impl PythonAstParser {
         value: &Expr,
         package_data: &mut PackageData,
     ) -> Result<(), RezCoreError> {
-        let python_value = self.evaluate_expression(value)?;
         self.context
             .functions
             .retain(|earlier| earlier.name.as_str() != var_name);
-        self.context
-            .variables
-            .insert(var_name.to_string(), python_value);
 
         match var_name {
             "name" => {
diff --git a/crates/rez-next-package/src/python_ast_parser/types.rs b/crates/rez-next-package/src/python_ast_parser/types.rs
index 62ab89e..06c5dd0 100644
--- a/crates/rez-next-package/src/python_ast_parser/types.rs
+++ b/crates/rez-next-package/src/python_ast_parser/types.rs
@@ -7,6 +7,8 @@ use std::collections::HashMap;
 pub(crate) struct ParsingContext {
     /// Variables defined in the current scope
     pub variables: HashMap<String, PythonValue>,
+    /// Attributes of the loaded package, which functions read as `this`
+    pub package: HashMap<String, PythonValue>,
     /// Imported modules and their aliases
     pub imports: HashMap<String, String>,
     /// Functions defined so far, in the order of their definitions
-- 
2.43.0


From 4560bddba922f397b6a314b03b380c4f045d69e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:11 +0000
Subject: [PATCH 41/56] fix: a partial config file or an override into a scalar
 is not ignored

---
 crates/rez-next-common/src/config.rs | 6 +++---
 crates/rez-next-config/src/lib.rs    | 3 +++
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/crates/rez-next-common/src/config.rs b/crates/rez-next-common/src/config.rs
index b08dff6..c0d9425 100644
--- a/crates/rez-next-common/src/config.rs
+++ b/crates/rez-next-common/src/config.rs
@@ -6,6 +6,7 @@ use std::path::PathBuf;
 
 /// Configuration for rez-core components
 #[derive(Debug, Clone, Serialize, Deserialize)]
+#[serde(default)]
 #[allow(clippy::struct_excessive_bools)]
 pub struct RezCoreConfig {
     /// Enable Rust version system
@@ -68,6 +69,7 @@ pub struct RezCoreConfig {
 
 /// Cache configuration
 #[derive(Debug, Clone, Serialize, Deserialize)]
+#[serde(default)]
 pub struct CacheConfig {
     /// Enable memory cache
     pub enable_memory_cache: bool,
@@ -151,9 +153,7 @@ impl RezCoreConfig {
 
         // 2. Environment variable REZ_CONFIG_FILE
         if let Ok(config_file) = env::var("REZ_CONFIG_FILE") {
-            for path in config_file.split(std::path::MAIN_SEPARATOR) {
-                paths.push(PathBuf::from(path));
-            }
+            paths.extend(split_env_paths(&config_file).into_iter().map(PathBuf::from));
         }
 
         // 3. System-wide config
diff --git a/crates/rez-next-config/src/lib.rs b/crates/rez-next-config/src/lib.rs
index 748db74..334f799 100644
--- a/crates/rez-next-config/src/lib.rs
+++ b/crates/rez-next-config/src/lib.rs
@@ -357,6 +357,9 @@ fn set_nested_value(root: &mut JsonValue, dotted_key: &str, value: JsonValue) {
         return;
     }
     let target = get_or_create_nested(root, &segments[..segments.len() - 1]);
+    if !target.is_object() {
+        *target = JsonValue::Object(serde_json::Map::new());
+    }
     if let Some(obj) = target.as_object_mut() {
         obj.insert(segments.last().unwrap().to_string(), value);
     }
-- 
2.43.0


From be54e150c7f1107f4b5ac3b4f869a5c62e9287d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:11 +0000
Subject: [PATCH 42/56] fix: rez test picks the package it was asked for and
 matches names whole

---
 src/cli/commands/test.rs | 39 ++++++++++++++++++++++++---------------
 1 file changed, 24 insertions(+), 15 deletions(-)

diff --git a/src/cli/commands/test.rs b/src/cli/commands/test.rs
index ef11ac5..c51c15a 100644
--- a/src/cli/commands/test.rs
+++ b/src/cli/commands/test.rs
@@ -14,6 +14,7 @@ use rez_next_context::{ContextConfig, EnvironmentManager, normalize_environment_
 use rez_next_package::{Requirement, serialization::PackageSerializer};
 use rez_next_repository::simple_repository::{RepositoryManager, SimpleRepository};
 use rez_next_solver::{DependencyResolver, SolverConfig};
+use rez_next_version::Version;
 use std::collections::HashMap;
 use std::path::PathBuf;
 use std::process::{Command, Stdio};
@@ -180,6 +181,13 @@ impl PackageTestRunner {
         for candidate in &candidates {
             if candidate.exists() {
                 let mut package = PackageSerializer::load_from_file(candidate)?;
+                // A package that is named is not another one that happens to be here.
+                if package_spec != "."
+                    && !package_spec.contains('/')
+                    && package.name != package_spec
+                {
+                    continue;
+                }
                 package.filepath = Some(candidate.to_string_lossy().into_owned());
                 self.working_dir = candidate
                     .parent()
@@ -196,21 +204,22 @@ impl PackageTestRunner {
             if pkg_path.exists() {
                 // Look for latest version
                 if let Ok(entries) = std::fs::read_dir(&pkg_path) {
-                    let mut versions: Vec<PathBuf> = entries
+                    let latest = entries
                         .flatten()
-                        .filter(|e| e.path().is_dir())
-                        .map(|e| e.path())
-                        .collect();
-                    versions.sort();
-                    if let Some(latest) = versions.last() {
-                        let package_file = latest.join("package.py");
-                        if package_file.exists() {
-                            let mut package = PackageSerializer::load_from_file(&package_file)?;
-                            package.filepath = Some(package_file.to_string_lossy().into_owned());
-                            self.working_dir = latest.clone();
-                            self.extract_tests_from_package(&package, args, &search_paths, true)?;
-                            return Ok(());
+                        .filter_map(|e| {
+                            let version = Version::parse(e.file_name().to_str()?).ok()?;
+                            let package_file = e.path().join("package.py");
+                            package_file.is_file().then_some((version, package_file))
+                        })
+                        .max_by(|(a, _), (b, _)| a.cmp(b));
+                    if let Some((_, package_file)) = latest {
+                        let mut package = PackageSerializer::load_from_file(&package_file)?;
+                        package.filepath = Some(package_file.to_string_lossy().into_owned());
+                        if let Some(directory) = package_file.parent() {
+                            self.working_dir = directory.to_path_buf();
                         }
+                        self.extract_tests_from_package(&package, args, &search_paths, true)?;
+                        return Ok(());
                     }
                 }
             }
@@ -365,8 +374,8 @@ impl PackageTestRunner {
 
         for pattern in requested {
             if pattern.contains('*') {
-                let regex_pattern = pattern.replace('*', ".*");
-                let regex = regex::Regex::new(&regex_pattern).map_err(|e| {
+                let regex_pattern = regex::escape(pattern).replace(r"\*", ".*");
+                let regex = regex::Regex::new(&format!("^(?s:{regex_pattern})$")).map_err(|e| {
                     RezCoreError::CliError(format!("Invalid pattern '{}': {}", pattern, e))
                 })?;
 
-- 
2.43.0


From c7e939116bb97267f21345edca24690fc192a249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:19:50 +0000
Subject: [PATCH 43/56] fix: fish and PowerShell scripts quote aliases, paths
 and typographic quotes

---
 crates/rez-next-context/src/environment.rs |  4 ++
 crates/rez-next-rex/src/shell.rs           | 51 ++++++++++++++++++----
 2 files changed, 46 insertions(+), 9 deletions(-)

diff --git a/crates/rez-next-context/src/environment.rs b/crates/rez-next-context/src/environment.rs
index de51ccc..49f2ab1 100644
--- a/crates/rez-next-context/src/environment.rs
+++ b/crates/rez-next-context/src/environment.rs
@@ -488,6 +488,10 @@ impl EnvironmentManager {
             .replace('`', "``")
             .replace("\"", "`\"")
             .replace("$", "`$")
+            // typographic double quotes end a string as well
+            .replace('\u{201c}', "`\u{201c}")
+            .replace('\u{201d}', "`\u{201d}")
+            .replace('\u{201e}', "`\u{201e}")
     }
 
     /// Escape a value for fish shell
diff --git a/crates/rez-next-rex/src/shell.rs b/crates/rez-next-rex/src/shell.rs
index 2ec91fa..08ac5af 100644
--- a/crates/rez-next-rex/src/shell.rs
+++ b/crates/rez-next-rex/src/shell.rs
@@ -56,6 +56,40 @@ fn escape_bash(value: &str) -> String {
         .replace("$(", "\\$(")
 }
 
+/// Escape a value for a double-quoted fish word; references such as `$HOME`
+/// keep their meaning as in [`escape_bash`], any other dollar sign is literal.
+fn escape_fish(value: &str) -> String {
+    let mut escaped = String::with_capacity(value.len());
+    let mut characters = value.chars().peekable();
+    while let Some(character) = characters.next() {
+        let literal = match character {
+            '\\' | '"' => true,
+            '$' => !characters
+                .peek()
+                .is_some_and(|next| next.is_ascii_alphabetic() || matches!(next, '_' | '{')),
+            _ => false,
+        };
+        if literal {
+            escaped.push('\\');
+        }
+        escaped.push(character);
+    }
+    escaped
+}
+
+/// Escape a value for a single-quoted PowerShell string, which typographic
+/// single quotes end as well.
+fn escape_powershell(value: &str) -> String {
+    let mut escaped = String::with_capacity(value.len());
+    for character in value.chars() {
+        escaped.push(character);
+        if matches!(character, '\'' | '\u{2018}'..='\u{201b}') {
+            escaped.push(character);
+        }
+    }
+    escaped
+}
+
 /// Generate bash/zsh activation script
 fn generate_bash_script(env: &RexEnvironment) -> String {
     let mut lines = Vec::new();
@@ -123,8 +157,7 @@ fn generate_fish_script(env: &RexEnvironment) -> String {
     let mut vars: Vec<_> = env.vars.iter().collect();
     vars.sort_by_key(|(k, _)| k.as_str());
     for (key, value) in &vars {
-        let escaped = value.replace('\\', "\\\\").replace('"', "\\\"");
-        lines.push(format!("set -gx {} \"{}\"", key, escaped));
+        lines.push(format!("set -gx {} \"{}\"", key, escape_fish(value)));
     }
 
     if !env.vars.is_empty() && !env.aliases.is_empty() {
@@ -134,7 +167,8 @@ fn generate_fish_script(env: &RexEnvironment) -> String {
     let mut aliases: Vec<_> = env.aliases.iter().collect();
     aliases.sort_by_key(|(k, _)| k.as_str());
     for (name, cmd) in &aliases {
-        lines.push(format!("alias {} \"{}\"", name, cmd));
+        let escaped = cmd.replace('\\', "\\\\").replace('\'', "\\'");
+        lines.push(format!("alias {} '{}'", name, escaped));
     }
 
     if !env.startup_commands.is_empty() {
@@ -148,8 +182,7 @@ fn generate_fish_script(env: &RexEnvironment) -> String {
     if !env.sourced_scripts.is_empty() {
         lines.push(String::new());
         for script in &env.sourced_scripts {
-            let escaped = script.replace('"', "\\\"");
-            lines.push(format!("source \"{}\"", escaped));
+            lines.push(format!("source \"{}\"", escape_fish(script)));
         }
     }
 
@@ -206,7 +239,7 @@ fn generate_powershell_script(env: &RexEnvironment) -> String {
     let mut vars: Vec<_> = env.vars.iter().collect();
     vars.sort_by_key(|(k, _)| k.as_str());
     for (key, value) in &vars {
-        let escaped = value.replace('\'', "''");
+        let escaped = escape_powershell(value);
         let variable = if key
             .chars()
             .all(|character| character.is_ascii_alphanumeric() || character == '_')
@@ -225,7 +258,8 @@ fn generate_powershell_script(env: &RexEnvironment) -> String {
     let mut aliases: Vec<_> = env.aliases.iter().collect();
     aliases.sort_by_key(|(k, _)| k.as_str());
     for (name, cmd) in &aliases {
-        lines.push(format!("Set-Alias -Name {} -Value \"{}\"", name, cmd));
+        let escaped = escape_powershell(cmd);
+        lines.push(format!("Set-Alias -Name {} -Value '{}'", name, escaped));
     }
 
     if !env.startup_commands.is_empty() {
@@ -240,8 +274,7 @@ fn generate_powershell_script(env: &RexEnvironment) -> String {
         lines.push(String::new());
         lines.push("# Sourced scripts".to_string());
         for script in &env.sourced_scripts {
-            let escaped = script.replace('\'', "''");
-            lines.push(format!(". '{}'", escaped));
+            lines.push(format!(". '{}'", escape_powershell(script)));
         }
     }
 
-- 
2.43.0


From f4f0bac86b0529e2e836f82cc1f0c6a2c1a7d8ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:19:50 +0000
Subject: [PATCH 44/56] fix: bind writes a loadable definition of the tool that
 was found, or nothing

---
 crates/rez-next-bind/src/binder.rs          | 72 +++++++++++++++++++--
 crates/rez-next-bind/src/builtin_binders.rs |  2 +-
 crates/rez-next-bind/src/detect.rs          |  6 +-
 src/cli/commands/bind/mod.rs                | 37 +++++++----
 src/cli/commands/bind/package_gen.rs        | 62 ++++++++++++------
 src/cli/commands/bind/utils.rs              |  6 +-
 6 files changed, 142 insertions(+), 43 deletions(-)

diff --git a/crates/rez-next-bind/src/binder.rs b/crates/rez-next-bind/src/binder.rs
index 526a16a..856f7dc 100644
--- a/crates/rez-next-bind/src/binder.rs
+++ b/crates/rez-next-bind/src/binder.rs
@@ -2,6 +2,7 @@
 
 use crate::detect::{detect_tool_version, extract_version_from_output, find_tool_executable};
 use rez_next_common::config::RezCoreConfig;
+use rez_next_common::utils::is_valid_package_name;
 use std::path::PathBuf;
 use thiserror::Error;
 
@@ -96,9 +97,25 @@ impl PackageBinder {
     /// * `tool_name` – the name of the tool to bind (e.g. "python", "cmake").
     /// * `options`   – bind configuration.
     pub fn bind(&self, tool_name: &str, options: &BindOptions) -> Result<BindResult, BindError> {
+        self.bind_executable(tool_name, tool_name, options)
+    }
+
+    /// Bind the executable `exe_name` as the package `tool_name`.
+    pub(crate) fn bind_executable(
+        &self,
+        tool_name: &str,
+        exe_name: &str,
+        options: &BindOptions,
+    ) -> Result<BindResult, BindError> {
+        if !is_valid_package_name(tool_name) {
+            return Err(BindError::Other(format!(
+                "invalid package name '{tool_name}'"
+            )));
+        }
+
         // 1. Locate executable
         let exe_path = if options.search_path {
-            find_tool_executable(tool_name)
+            find_tool_executable(exe_name)
         } else {
             None
         };
@@ -110,13 +127,17 @@ impl PackageBinder {
             let raw = if let Some(ref p) = exe_path {
                 detect_tool_version(&p.to_string_lossy())
             } else {
-                detect_tool_version(tool_name)
+                detect_tool_version(exe_name)
             };
 
             extract_version_from_output(&raw)
                 .ok_or_else(|| BindError::VersionNotFound(tool_name.to_string()))?
         };
 
+        if !is_valid_version(&version) {
+            return Err(BindError::Other(format!("invalid version '{version}'")));
+        }
+
         // 3. Determine install root
         let install_root = options
             .install_path
@@ -152,19 +173,29 @@ impl PackageBinder {
     ) -> String {
         let exe_comment = exe_path
             .as_ref()
-            .map(|p| format!("# Bound executable: {}", p.display()))
+            .map(|p| {
+                let path = p.display().to_string();
+                format!("# Bound executable: {}", path.escape_debug())
+            })
             .unwrap_or_else(|| "# Executable path not detected".to_string());
 
         let extra_fields: String = options
             .extra_metadata
             .iter()
-            .map(|(k, v)| format!("{} = '{}'\n", k, v))
+            .map(|(k, v)| format!("{} = {}\n", k, python_string(v)))
             .collect();
 
         let tool_bin_path = exe_path
             .as_ref()
             .and_then(|p| p.parent())
-            .map(|d| d.to_string_lossy().replace('\\', "/"))
+            .map(|d| {
+                let dir = d.to_string_lossy();
+                if cfg!(windows) {
+                    dir.replace('\\', "/")
+                } else {
+                    dir.into_owned()
+                }
+            })
             .unwrap_or_default();
 
         let commands_block = if tool_bin_path.is_empty() {
@@ -173,9 +204,9 @@ impl PackageBinder {
             format!(
                 r#"
 def commands():
-    env.prepend_path('PATH', r'{bin}')
+    env.prepend_path('PATH', {bin})
 "#,
-                bin = tool_bin_path
+                bin = python_string(&tool_bin_path)
             )
         };
 
@@ -249,6 +280,33 @@ pub fn list_bound_packages_in(install_root: &std::path::Path) -> Vec<(String, Ve
     result
 }
 
+/// Whether a version is one word and stands for one directory entry.
+fn is_valid_version(version: &str) -> bool {
+    version.chars().any(|c| c.is_ascii_alphanumeric())
+        && version
+            .chars()
+            .all(|c| c.is_ascii_alphanumeric() || matches!(c, '.' | '_' | '-' | '+'))
+}
+
+/// Write a text as a Python string literal.
+fn python_string(text: &str) -> String {
+    let mut literal = String::from("'");
+    for character in text.chars() {
+        match character {
+            '\'' | '\\' => {
+                literal.push('\\');
+                literal.push(character);
+            }
+            _ if character.is_control() => {
+                literal.push_str(&format!("\\u{:04x}", character as u32));
+            }
+            _ => literal.push(character),
+        }
+    }
+    literal.push('\'');
+    literal
+}
+
 fn expand_home(p: &str) -> String {
     if (p.starts_with("~/") || p == "~")
         && let Ok(home) = std::env::var("USERPROFILE").or_else(|_| std::env::var("HOME"))
diff --git a/crates/rez-next-bind/src/builtin_binders.rs b/crates/rez-next-bind/src/builtin_binders.rs
index 916c5e0..4f9dbb0 100644
--- a/crates/rez-next-bind/src/builtin_binders.rs
+++ b/crates/rez-next-bind/src/builtin_binders.rs
@@ -33,7 +33,7 @@ impl BuiltinBinder {
                 // try to detect via this exe name
                 opts.search_path = true;
             }
-            let result = binder.bind(exe, &opts);
+            let result = binder.bind_executable(self.name, exe, &opts);
             if result.is_ok() {
                 return result;
             }
diff --git a/crates/rez-next-bind/src/detect.rs b/crates/rez-next-bind/src/detect.rs
index 603c1b6..c2f072b 100644
--- a/crates/rez-next-bind/src/detect.rs
+++ b/crates/rez-next-bind/src/detect.rs
@@ -20,7 +20,7 @@ pub fn find_tool_executable(name: &str) -> Option<PathBuf> {
         if first_line.is_empty() {
             return None;
         }
-        Some(PathBuf::from(first_line))
+        std::path::absolute(first_line).ok()
     } else {
         None
     }
@@ -55,8 +55,8 @@ pub fn detect_tool_version(executable: &str) -> String {
 /// Scans for the first token matching `N.N` or `N.N.N[.N...]` and returns it.
 /// Falls back to returning the first whitespace-delimited token if no semver found.
 pub fn extract_version_from_output(output: &str) -> Option<String> {
-    // Match patterns like "3.11.4", "2.42.0", "1.8"
-    let semver_re = regex::Regex::new(r"\b(\d+\.\d+(?:\.\d+)*)\b").ok()?;
+    // Match patterns like "3.11.4", "2.42.0", "1.8", "v22.1.0", "go1.23"
+    let semver_re = regex::Regex::new(r"(?:^|[^\d.])(\d+\.\d+(?:\.\d+)*)\b").ok()?;
     if let Some(cap) = semver_re.captures(output) {
         return Some(cap[1].to_string());
     }
diff --git a/src/cli/commands/bind/mod.rs b/src/cli/commands/bind/mod.rs
index 55642ff..0e6c591 100644
--- a/src/cli/commands/bind/mod.rs
+++ b/src/cli/commands/bind/mod.rs
@@ -18,7 +18,7 @@ mod tests;
 use crate::cli::utils::expand_home_path;
 use clap::Args;
 use rez_next_common::{RezCoreError, config::RezCoreConfig, error::RezCoreResult};
-use rez_next_package::Package;
+use rez_next_package::{Package, Requirement};
 use std::collections::HashMap;
 use std::path::{Path, PathBuf};
 
@@ -165,7 +165,7 @@ fn execute_quickstart(args: &BindArgs) -> RezCoreResult<()> {
             install_path.display()
         );
 
-        match bind_single_package(package_name, &install_path, true, args) {
+        match bind_single_package(package_name, None, &install_path, true, args) {
             Ok(result) => {
                 if result.success {
                     if args.verbose {
@@ -240,11 +240,17 @@ fn bind_package(package_spec: &str, args: &BindArgs) -> RezCoreResult<()> {
         println!("Binding package: {}", package_spec);
     }
 
-    let (package_name, _version_range) = parse_package_spec(package_spec)?;
+    let (package_name, version_range) = parse_package_spec(package_spec)?;
     let install_path = get_install_path(args)?;
     std::fs::create_dir_all(&install_path).map_err(RezCoreError::Io)?;
 
-    match bind_single_package(&package_name, &install_path, args.no_deps, args) {
+    match bind_single_package(
+        &package_name,
+        version_range.as_deref(),
+        &install_path,
+        args.no_deps,
+        args,
+    ) {
         Ok(result) => {
             if result.success {
                 println!("Successfully bound package '{}'", package_name);
@@ -305,18 +311,17 @@ fn get_install_path(args: &BindArgs) -> RezCoreResult<PathBuf> {
 
 fn bind_single_package(
     name: &str,
+    version_range: Option<&str>,
     install_path: &Path,
     no_deps: bool,
     args: &BindArgs,
 ) -> RezCoreResult<BindResult> {
-    let detected = detect::detect_system_tool(name);
+    let detected = detect::detect_system_tool(name).ok_or_else(|| {
+        RezCoreError::PackageParse(format!("'{name}' was not found on this system"))
+    })?;
 
-    let version_str = detected
-        .as_ref()
-        .map(|d| d.version.clone())
-        .unwrap_or_else(|| "1.0.0".to_string());
-
-    let exe_path = detected.as_ref().and_then(|d| d.executable_path.clone());
+    let version_str = detected.version;
+    let exe_path = detected.executable_path;
 
     let requires = if no_deps {
         vec![]
@@ -329,6 +334,16 @@ fn bind_single_package(
     let commands = package_gen::get_package_commands(name, exe_path.as_ref());
 
     let version = rez_next_version::Version::parse(&version_str)?;
+    if let Some(range) = version_range
+        && !format!("{name}-{range}")
+            .parse::<Requirement>()
+            .map_err(RezCoreError::RequirementParse)?
+            .is_satisfied_by(&version)
+    {
+        return Err(RezCoreError::PackageParse(format!(
+            "the version found, {version_str}, is not within '{range}'"
+        )));
+    }
 
     let package = Package {
         name: name.to_string(),
diff --git a/src/cli/commands/bind/package_gen.rs b/src/cli/commands/bind/package_gen.rs
index 8dc6df0..80cc4d0 100644
--- a/src/cli/commands/bind/package_gen.rs
+++ b/src/cli/commands/bind/package_gen.rs
@@ -1,6 +1,6 @@
 //! Package metadata helpers and `package.py` generator for the bind command.
 
-use std::path::PathBuf;
+use std::path::{Path, PathBuf};
 
 // ─── package.py generation ───────────────────────────────────────────────────
 
@@ -14,14 +14,14 @@ pub fn generate_package_py(
     commands: Option<&str>,
 ) -> String {
     let mut content = String::new();
-    content.push_str(&format!("name = '{}'\n", name));
-    content.push_str(&format!("version = '{}'\n\n", version));
-    content.push_str(&format!("description = '{}'\n\n", description));
+    content.push_str(&format!("name = {}\n", python_string(name)));
+    content.push_str(&format!("version = {}\n\n", python_string(version)));
+    content.push_str(&format!("description = {}\n\n", python_string(description)));
 
     if !requires.is_empty() {
         content.push_str("requires = [\n");
         for req in requires {
-            content.push_str(&format!("    '{}',\n", req));
+            content.push_str(&format!("    {},\n", python_string(req)));
         }
         content.push_str("]\n\n");
     }
@@ -29,7 +29,7 @@ pub fn generate_package_py(
     if !tools.is_empty() {
         content.push_str("tools = [\n");
         for tool in tools {
-            content.push_str(&format!("    '{}',\n", tool));
+            content.push_str(&format!("    {},\n", python_string(tool)));
         }
         content.push_str("]\n\n");
     }
@@ -41,6 +41,38 @@ pub fn generate_package_py(
     content
 }
 
+/// Write a text as a Python string literal.
+fn python_string(text: &str) -> String {
+    let mut literal = String::from("'");
+    for character in text.chars() {
+        match character {
+            '\'' | '\\' => {
+                literal.push('\\');
+                literal.push(character);
+            }
+            _ if character.is_control() => {
+                literal.push_str(&format!("\\u{:04x}", character as u32));
+            }
+            _ => literal.push(character),
+        }
+    }
+    literal.push('\'');
+    literal
+}
+
+/// The directory of an executable, with forward slashes.
+fn executable_dir(path: &Path) -> String {
+    let dir = path
+        .parent()
+        .map(|p| p.to_string_lossy().into_owned())
+        .unwrap_or_default();
+    if cfg!(windows) {
+        dir.replace('\\', "/")
+    } else {
+        dir
+    }
+}
+
 // ─── Per-package metadata ─────────────────────────────────────────────────────
 
 /// Build the `def commands():` body for a system package, or `None` if not needed.
@@ -48,14 +80,11 @@ pub fn get_package_commands(name: &str, exe_path: Option<&PathBuf>) -> Option<St
     match name {
         "python" => {
             if let Some(path) = exe_path {
-                let dir = path
-                    .parent()
-                    .map(|p| p.to_string_lossy().to_string())
-                    .unwrap_or_default();
+                let dir = executable_dir(path);
                 if !dir.is_empty() {
                     return Some(format!(
-                        "    import os\n    env.PATH.prepend('{}')\n",
-                        dir.replace('\\', "/")
+                        "    import os\n    env.PATH.prepend({})\n",
+                        python_string(&dir)
                     ));
                 }
             }
@@ -63,14 +92,11 @@ pub fn get_package_commands(name: &str, exe_path: Option<&PathBuf>) -> Option<St
         }
         "pip" | "cmake" | "git" | "gcc" | "clang" => {
             if let Some(path) = exe_path {
-                let dir = path
-                    .parent()
-                    .map(|p| p.to_string_lossy().to_string())
-                    .unwrap_or_default();
+                let dir = executable_dir(path);
                 if !dir.is_empty() {
                     return Some(format!(
-                        "    import os\n    env.PATH.prepend('{}')\n",
-                        dir.replace('\\', "/")
+                        "    import os\n    env.PATH.prepend({})\n",
+                        python_string(&dir)
                     ));
                 }
             }
diff --git a/src/cli/commands/bind/utils.rs b/src/cli/commands/bind/utils.rs
index 32feaee..359884a 100644
--- a/src/cli/commands/bind/utils.rs
+++ b/src/cli/commands/bind/utils.rs
@@ -90,7 +90,7 @@ pub fn which_executable(cmd: &str) -> Option<PathBuf> {
         let path_str = String::from_utf8_lossy(&output.stdout);
         let first_line = path_str.lines().next().unwrap_or("").trim();
         if !first_line.is_empty() {
-            return Some(PathBuf::from(first_line));
+            return std::path::absolute(first_line).ok();
         }
     }
     None
@@ -100,8 +100,8 @@ pub fn which_executable(cmd: &str) -> Option<PathBuf> {
 ///
 /// Example: `extract_version_from_output("Python 3.9.7\n", "Python")` → `Some("3.9.7")`
 pub fn extract_version_from_output(output: &str, prefix: &str) -> Option<String> {
-    let lower_output = output.to_lowercase();
-    let lower_prefix = prefix.to_lowercase();
+    let lower_output = output.to_ascii_lowercase();
+    let lower_prefix = prefix.to_ascii_lowercase();
 
     for (line_lower, line_orig) in lower_output.lines().zip(output.lines()) {
         if let Some(pos) = line_lower.find(&lower_prefix) {
-- 
2.43.0


From 806c9e796a319643a17c6eb3c64747742dcbf304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:24:50 +0000
Subject: [PATCH 45/56] fix: looking a tool up passes its name as one word and
 never runs it

---
 crates/rez-next-context/src/shell.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/crates/rez-next-context/src/shell.rs b/crates/rez-next-context/src/shell.rs
index d0b3b25..c142b8c 100644
--- a/crates/rez-next-context/src/shell.rs
+++ b/crates/rez-next-context/src/shell.rs
@@ -427,11 +427,19 @@ impl ShellExecutor {
     /// Check if a command exists in the current environment
     pub async fn command_exists(&self, command: &str) -> bool {
         let check_command = match self.shell_type {
-            ShellType::Bash | ShellType::Zsh => format!("command -v {}", command),
-            ShellType::Fish => format!("command -v {}", command),
-            ShellType::Cmd => format!("where {}", command),
+            ShellType::Bash | ShellType::Zsh => {
+                format!("command -v -- '{}'", command.replace('\'', "'\\''"))
+            }
+            ShellType::Fish => format!(
+                "command -v -- '{}'",
+                command.replace('\\', "\\\\").replace('\'', "\\'")
+            ),
+            ShellType::Cmd => format!("where \"{}\"", command.replace('"', "")),
             ShellType::PowerShell => {
-                format!("Get-Command {} -ErrorAction SilentlyContinue", command)
+                format!(
+                    "Get-Command '{}' -ErrorAction SilentlyContinue",
+                    command.replace('\'', "''")
+                )
             }
         };
 
-- 
2.43.0


From 15007f725da87a5399aee5077c9c03aa21a58629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:24:50 +0000
Subject: [PATCH 46/56] fix: an interactive shell inherits the parent
 environment only when asked to

---
 crates/rez-next-context/src/shell.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/rez-next-context/src/shell.rs b/crates/rez-next-context/src/shell.rs
index c142b8c..0539b62 100644
--- a/crates/rez-next-context/src/shell.rs
+++ b/crates/rez-next-context/src/shell.rs
@@ -395,6 +395,9 @@ impl ShellExecutor {
         }
 
         // Set environment variables
+        if !self.inherit_parent_env {
+            cmd.env_clear();
+        }
         for (key, value) in &self.environment {
             cmd.env(key, value);
         }
-- 
2.43.0


From eae134310900e7831af8fd5fef6142a3ca926549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:46:03 +0000
Subject: [PATCH 47/56] fix: a dependency graph keeps its edges whole when
 packages are added again or are missing

---
 crates/rez-next-solver/src/graph.rs | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/crates/rez-next-solver/src/graph.rs b/crates/rez-next-solver/src/graph.rs
index dc6cc1e..3094471 100644
--- a/crates/rez-next-solver/src/graph.rs
+++ b/crates/rez-next-solver/src/graph.rs
@@ -164,8 +164,13 @@ impl DependencyGraph {
             )));
         }
 
-        let node = GraphNode::new(package);
-        self.nodes.insert(key, node);
+        // A package added again keeps its edges: its neighbours still refer to it
+        match self.nodes.get_mut(&key) {
+            Some(node) => node.package = package,
+            None => {
+                self.nodes.insert(key, GraphNode::new(package));
+            }
+        }
 
         Ok(())
     }
@@ -198,6 +203,14 @@ impl DependencyGraph {
         from_key: &str,
         to_key: &str,
     ) -> Result<(), RezCoreError> {
+        // An edge with an unknown end changes nothing
+        if !self.nodes.contains_key(to_key) {
+            return Err(RezCoreError::Solver(format!(
+                "Package {} not found in graph",
+                to_key
+            )));
+        }
+
         // Add dependency to the from node
         if let Some(from_node) = self.nodes.get_mut(from_key) {
             from_node.add_dependency(to_key.to_string());
@@ -211,11 +224,6 @@ impl DependencyGraph {
         // Add dependent to the to node
         if let Some(to_node) = self.nodes.get_mut(to_key) {
             to_node.add_dependent(from_key.to_string());
-        } else {
-            return Err(RezCoreError::Solver(format!(
-                "Package {} not found in graph",
-                to_key
-            )));
         }
 
         Ok(())
-- 
2.43.0


From e48be6ed76518cc56d780a67d0035a4a528bfa79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:46:03 +0000
Subject: [PATCH 48/56] fix: the packages of a dependency graph are listed in
 the same order every time

---
 crates/rez-next-solver/src/graph.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/crates/rez-next-solver/src/graph.rs b/crates/rez-next-solver/src/graph.rs
index 3094471..8dde612 100644
--- a/crates/rez-next-solver/src/graph.rs
+++ b/crates/rez-next-solver/src/graph.rs
@@ -382,12 +382,14 @@ impl DependencyGraph {
             in_degree.insert(key.clone(), node.dependents.len());
         }
 
-        // Find nodes with no incoming edges
-        for (key, &degree) in &in_degree {
-            if degree == 0 {
-                queue.push_back(key.clone());
-            }
-        }
+        // Find nodes with no incoming edges, in an order that is always the same
+        let mut roots: Vec<&String> = in_degree
+            .iter()
+            .filter(|&(_, &degree)| degree == 0)
+            .map(|(key, _)| key)
+            .collect();
+        roots.sort();
+        queue.extend(roots.into_iter().cloned());
 
         // Process nodes
         while let Some(current_key) = queue.pop_front() {
@@ -395,7 +397,9 @@ impl DependencyGraph {
 
             if let Some(current_node) = self.nodes.get(&current_key) {
                 // Reduce in-degree of dependent nodes
-                for dep_key in &current_node.dependencies {
+                let mut dependencies: Vec<&String> = current_node.dependencies.iter().collect();
+                dependencies.sort();
+                for dep_key in dependencies {
                     if let Some(degree) = in_degree.get_mut(dep_key) {
                         *degree -= 1;
                         if *degree == 0 {
-- 
2.43.0


From 2c6e9f3203fdbf867a2d378b018413ad2cbcea31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:46:03 +0000
Subject: [PATCH 49/56] fix: the depth of a dependency graph is its longest
 chain

---
 crates/rez-next-solver/src/graph.rs | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/crates/rez-next-solver/src/graph.rs b/crates/rez-next-solver/src/graph.rs
index 8dde612..1eac8db 100644
--- a/crates/rez-next-solver/src/graph.rs
+++ b/crates/rez-next-solver/src/graph.rs
@@ -556,24 +556,30 @@ impl DependencyGraph {
 
     /// Calculate the depth of a node in the graph
     fn calculate_node_depth(&self, node_key: &str) -> usize {
-        let mut visited = HashSet::new();
-        self.calculate_depth_recursive(node_key, &mut visited)
+        let mut depths = HashMap::new();
+        self.calculate_depth_recursive(node_key, &mut depths)
     }
 
     /// Recursive helper for depth calculation
-    fn calculate_depth_recursive(&self, node_key: &str, visited: &mut HashSet<String>) -> usize {
-        if visited.contains(node_key) {
-            return 0; // Avoid infinite recursion
+    fn calculate_depth_recursive(
+        &self,
+        node_key: &str,
+        depths: &mut HashMap<String, usize>,
+    ) -> usize {
+        // A node reached again keeps its depth; it is 0 while on the path (a cycle)
+        if let Some(&depth) = depths.get(node_key) {
+            return depth;
         }
 
-        visited.insert(node_key.to_string());
+        depths.insert(node_key.to_string(), 0);
 
         if let Some(node) = self.nodes.get(node_key) {
             let mut max_dep_depth = 0;
             for dep_key in &node.dependencies {
-                let dep_depth = self.calculate_depth_recursive(dep_key, visited);
+                let dep_depth = self.calculate_depth_recursive(dep_key, depths);
                 max_dep_depth = max_dep_depth.max(dep_depth);
             }
+            depths.insert(node_key.to_string(), max_dep_depth + 1);
             max_dep_depth + 1
         } else {
             0
-- 
2.43.0


From 84839d2dce7966c24d234959547cdeded5815e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:55:37 +0000
Subject: [PATCH 50/56] fix: bind refuses a version that a package cannot have

---
 crates/rez-next-bind/src/binder.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/crates/rez-next-bind/src/binder.rs b/crates/rez-next-bind/src/binder.rs
index 856f7dc..5fb7bab 100644
--- a/crates/rez-next-bind/src/binder.rs
+++ b/crates/rez-next-bind/src/binder.rs
@@ -280,12 +280,13 @@ pub fn list_bound_packages_in(install_root: &std::path::Path) -> Vec<(String, Ve
     result
 }
 
-/// Whether a version is one word and stands for one directory entry.
+/// Whether a version is one a package can have, and stands for one directory entry: words of
+/// letters and digits joined by single separators, without a `v` prefix.
 fn is_valid_version(version: &str) -> bool {
-    version.chars().any(|c| c.is_ascii_alphanumeric())
+    !version.starts_with(['v', 'V'])
         && version
-            .chars()
-            .all(|c| c.is_ascii_alphanumeric() || matches!(c, '.' | '_' | '-' | '+'))
+            .split(['.', '_', '-', '+'])
+            .all(|token| !token.is_empty() && token.chars().all(|c| c.is_ascii_alphanumeric()))
 }
 
 /// Write a text as a Python string literal.
-- 
2.43.0


From 1655b46e3a82865d0e40e4fdd79094e639154a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:59:31 +0000
Subject: [PATCH 51/56] fix: truncating a text never cuts a character in two

---
 crates/rez-next-util/src/string.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/rez-next-util/src/string.rs b/crates/rez-next-util/src/string.rs
index a534258..76e30a8 100644
--- a/crates/rez-next-util/src/string.rs
+++ b/crates/rez-next-util/src/string.rs
@@ -33,7 +33,12 @@ pub fn truncate(s: &str, max_len: usize) -> String {
     } else if s.len() <= max_len - 3 {
         s.to_string()
     } else {
-        format!("{}...", &s[..max_len - 3])
+        // Never cut a character in two
+        let end = (0..=max_len - 3)
+            .rev()
+            .find(|&end| s.is_char_boundary(end))
+            .unwrap_or(0);
+        format!("{}...", &s[..end])
     }
 }
 
-- 
2.43.0


From 3098983c250b1e126b8df37b6a7e5887da0db5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:59:32 +0000
Subject: [PATCH 52/56] fix: a duration that is too long is refused

---
 crates/rez-next-util/src/time.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/crates/rez-next-util/src/time.rs b/crates/rez-next-util/src/time.rs
index 88bbcab..d199ab7 100644
--- a/crates/rez-next-util/src/time.rs
+++ b/crates/rez-next-util/src/time.rs
@@ -47,19 +47,26 @@ pub fn parse_duration(s: &str) -> Result<Duration, String> {
             .trim()
             .parse()
             .map_err(|_| format!("Invalid number: {}", num_str))?;
-        Ok(Duration::from_secs(mins * 60))
+        mins.checked_mul(60)
+            .map(Duration::from_secs)
+            .ok_or_else(|| format!("Duration too long: {}", s))
     } else if let Some(num_str) = s.strip_suffix('h') {
         let hours: u64 = num_str
             .trim()
             .parse()
             .map_err(|_| format!("Invalid number: {}", num_str))?;
-        Ok(Duration::from_secs(hours * 3600))
+        hours
+            .checked_mul(3600)
+            .map(Duration::from_secs)
+            .ok_or_else(|| format!("Duration too long: {}", s))
     } else if let Some(num_str) = s.strip_suffix('d') {
         let days: u64 = num_str
             .trim()
             .parse()
             .map_err(|_| format!("Invalid number: {}", num_str))?;
-        Ok(Duration::from_secs(days * 86400))
+        days.checked_mul(86400)
+            .map(Duration::from_secs)
+            .ok_or_else(|| format!("Duration too long: {}", s))
     } else {
         // Try to parse as pure number (seconds)
         let secs: u64 = s.parse().map_err(|_| format!("Invalid duration: {}", s))?;
-- 
2.43.0


From 3eaf58b55e070ea2b1b2d15155879c2551810a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:59:32 +0000
Subject: [PATCH 53/56] fix: base26 links can be made beyond z

---
 crates/rez-next-util/src/base26.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/rez-next-util/src/base26.rs b/crates/rez-next-util/src/base26.rs
index efc8c46..3314992 100644
--- a/crates/rez-next-util/src/base26.rs
+++ b/crates/rez-next-util/src/base26.rs
@@ -205,7 +205,7 @@ fn find_matching_symlink(dir: &Path, target: &Path) -> Result<Option<PathBuf>, B
     Ok(None)
 }
 
-/// Get the maximum (lexicographically last) Base26 name in the directory.
+/// Get the maximum (last in sequence) Base26 name in the directory.
 /// Returns None if no valid Base26 names exist.
 #[cfg(unix)]
 fn get_max_base26_name(dir: &Path) -> Result<Option<String>, Base26Error> {
@@ -225,7 +225,8 @@ fn get_max_base26_name(dir: &Path) -> Result<Option<String>, Base26Error> {
         match &max_name {
             None => max_name = Some(name),
             Some(current) => {
-                if name > *current {
+                // Shorter names come first in the sequence: z is before aa
+                if (name.len(), &name) > (current.len(), current) {
                     max_name = Some(name);
                 }
             }
-- 
2.43.0


From 2c1d62f8337cbceb4bce7c8c33dcf30910c2f703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:59:32 +0000
Subject: [PATCH 54/56] fix: safe_remove removes links that lead nowhere

---
 crates/rez-next-util/src/filesystem.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crates/rez-next-util/src/filesystem.rs b/crates/rez-next-util/src/filesystem.rs
index 050d989..8da85ba 100644
--- a/crates/rez-next-util/src/filesystem.rs
+++ b/crates/rez-next-util/src/filesystem.rs
@@ -86,11 +86,12 @@ pub fn is_writable<P: AsRef<Path>>(path: P) -> bool {
 pub fn safe_remove<P: AsRef<Path>>(path: P) -> RezResult<()> {
     let path = path.as_ref();
 
-    if !path.exists() {
+    // A link is removed itself, whether or not it leads anywhere
+    let Ok(metadata) = fs::symlink_metadata(path) else {
         return Ok(());
-    }
+    };
 
-    if path.is_dir() {
+    if metadata.is_dir() {
         fs::remove_dir_all(path).map_err(RezCoreError::Io)?;
     } else {
         fs::remove_file(path).map_err(RezCoreError::Io)?;
-- 
2.43.0


From f99f13359668c41e8dc7774afbe4d2d67e6eb8dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:59:32 +0000
Subject: [PATCH 55/56] fix: is_writable leaves the files of a directory alone

---
 crates/rez-next-util/src/filesystem.rs | 31 +++++++++++++++++---------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/crates/rez-next-util/src/filesystem.rs b/crates/rez-next-util/src/filesystem.rs
index 8da85ba..12178f7 100644
--- a/crates/rez-next-util/src/filesystem.rs
+++ b/crates/rez-next-util/src/filesystem.rs
@@ -3,6 +3,7 @@
 use std::fs;
 use std::io;
 use std::path::{Path, PathBuf};
+use std::sync::atomic::{AtomicU64, Ordering};
 
 use crate::RezResult;
 use rez_next_common::RezCoreError;
@@ -65,17 +66,27 @@ pub fn is_writable<P: AsRef<Path>>(path: P) -> bool {
         }
     } else if path.is_dir() {
         // For directories, try to create a temp file to check writability
-        let temp_file = path.join(".write_test_tmp");
-        let result = fs::OpenOptions::new()
-            .create(true)
-            .write(true)
-            .truncate(true)
-            .open(&temp_file)
-            .is_ok();
-        if result {
-            let _ = fs::remove_file(temp_file);
+        // of a name that nothing else has
+        static PROBES: AtomicU64 = AtomicU64::new(0);
+        loop {
+            let temp_file = path.join(format!(
+                ".write_test_tmp_{}_{}",
+                std::process::id(),
+                PROBES.fetch_add(1, Ordering::Relaxed)
+            ));
+            match fs::OpenOptions::new()
+                .create_new(true)
+                .write(true)
+                .open(&temp_file)
+            {
+                Ok(_) => {
+                    let _ = fs::remove_file(temp_file);
+                    return true;
+                }
+                Err(error) if error.kind() == io::ErrorKind::AlreadyExists => continue,
+                Err(_) => return false,
+            }
         }
-        result
     } else {
         // Try to open for writing
         fs::OpenOptions::new().write(true).open(path).is_ok()
-- 
2.43.0


From 78756c4887495e2e7d2c2e7b0f52d88208f20bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:59:32 +0000
Subject: [PATCH 56/56] fix: copy_file onto the file itself keeps its content

---
 crates/rez-next-util/src/filesystem.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/crates/rez-next-util/src/filesystem.rs b/crates/rez-next-util/src/filesystem.rs
index 12178f7..ce2bf20 100644
--- a/crates/rez-next-util/src/filesystem.rs
+++ b/crates/rez-next-util/src/filesystem.rs
@@ -118,6 +118,16 @@ pub fn copy_file<P: AsRef<Path>, Q: AsRef<Path>>(from: P, to: Q) -> RezResult<u6
 
     ensure_parent_dir_exists(to)?;
 
+    // Copying a file onto itself would empty it
+    if let (Ok(source), Ok(target)) = (from.canonicalize(), to.canonicalize())
+        && source == target
+        && source.is_file()
+    {
+        return fs::metadata(from)
+            .map(|metadata| metadata.len())
+            .map_err(RezCoreError::Io);
+    }
+
     fs::copy(from, to).map_err(RezCoreError::Io)
 }
 
-- 
2.43.0

