From b1ca9c203ff86077af5417d0209795e3a714818d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:04:51 +0000
Subject: [PATCH 01/24] fix: do not panic (debug builds) when a match starts at
 its included keyword

A match may start exactly where the keyword starts, which is within the look-ahead.
---
 sds/src/proximity_keywords/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sds/src/proximity_keywords/mod.rs b/sds/src/proximity_keywords/mod.rs
index 40cdf98..d7853c5 100644
--- a/sds/src/proximity_keywords/mod.rs
+++ b/sds/src/proximity_keywords/mod.rs
@@ -128,7 +128,7 @@ pub fn is_index_within_prefix(
     target: usize,
     prefix_size: usize,
 ) -> bool {
-    debug_assert!(target > prefix_start);
+    debug_assert!(target >= prefix_start);
     debug_assert!(content.is_char_boundary(prefix_start));
     debug_assert!(content.is_char_boundary(target));
 
-- 
2.43.0


From 91b92d6d874a8869a00b3812450dda6f00ac67ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:04:51 +0000
Subject: [PATCH 02/24] fix: NHS check digit accepts only numbers with exactly
 10 digits

Shorter numbers were checked against a check digit of 0, and an 11th digit overwrote the check digit.
---
 sds/src/secondary_validation/nhs_check_digit.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sds/src/secondary_validation/nhs_check_digit.rs b/sds/src/secondary_validation/nhs_check_digit.rs
index c13125b..5d9aa33 100644
--- a/sds/src/secondary_validation/nhs_check_digit.rs
+++ b/sds/src/secondary_validation/nhs_check_digit.rs
@@ -17,7 +17,7 @@ impl Validator for NhsCheckDigit {
         let mut check_digit = 0;
 
         while let Some(digit) = get_previous_digit(&mut input_iter) {
-            if nb_digit > 10 {
+            if nb_digit >= 10 {
                 return false;
             }
             if nb_digit < 9 {
@@ -29,6 +29,10 @@ impl Validator for NhsCheckDigit {
             nb_digit += 1;
         }
 
+        if nb_digit != 10 {
+            return false;
+        }
+
         // Divide the total_sum by 11 and get the remainder
         let remainder = total_sum % 11;
 
-- 
2.43.0


From 8e2f645ae20ff2647c7aa29b8cfa1a0454389249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:04:51 +0000
Subject: [PATCH 03/24] fix: GitHub token checksums below 62^5 are padded with
 leading zeros

Valid tokens whose CRC32 encodes to fewer than 6 base62 digits were rejected.
---
 sds/src/secondary_validation/github_token_checksum.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sds/src/secondary_validation/github_token_checksum.rs b/sds/src/secondary_validation/github_token_checksum.rs
index e26375b..0ee566f 100644
--- a/sds/src/secondary_validation/github_token_checksum.rs
+++ b/sds/src/secondary_validation/github_token_checksum.rs
@@ -22,7 +22,8 @@ impl Validator for GithubTokenChecksum {
 
         // extract the payload (everything except the last 6 chars)
         let computed_checksum = crc32fast::hash(last_part[..last_part.len() - 6].as_bytes());
-        let computed_checksum_b62 = base62::encode(computed_checksum);
+        // The checksum is always 6 chars, small values are padded with leading zeros
+        let computed_checksum_b62 = format!("{:0>6}", base62::encode(computed_checksum));
         // check that the crc is the last 6 chars
         computed_checksum_b62 == last_part[last_part.len() - 6..]
     }
-- 
2.43.0


From 9eb3cf25e5cea5ce1ef23732d87fbbfb7b20201f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:04:51 +0000
Subject: [PATCH 04/24] fix: validate_matches keeps the matches of rules
 without match validation

They were drained and dropped from the list given by the caller.
---
 sds/src/scanner/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sds/src/scanner/mod.rs b/sds/src/scanner/mod.rs
index 6572883..3f3cd12 100644
--- a/sds/src/scanner/mod.rs
+++ b/sds/src/scanner/mod.rs
@@ -394,6 +394,8 @@ impl Scanner {
         }
         // Create MatchValidatorRuleMatch per match_validator_type to pass it to each match_validator
         let mut match_validator_rule_match_per_type = AHashMap::new();
+        // Matches from rules without a match validation type are kept as they are
+        let mut unvalidated_rule_matches = Vec::new();
         for rule_match in rule_matches.drain(..) {
             let rule = &self.rules[rule_match.rule_index];
             if let Some(match_validation_type) = rule.get_internal_match_validation_type() {
@@ -404,6 +406,8 @@ impl Scanner {
                     .get_mut(match_validation_type)
                     .unwrap()
                     .push(rule_match);
+            } else {
+                unvalidated_rule_matches.push(rule_match);
             }
         }
 
@@ -420,6 +424,7 @@ impl Scanner {
         );
 
         // Refill the rule_matches with the validated matches
+        rule_matches.append(&mut unvalidated_rule_matches);
         for (_, mut matches) in match_validator_rule_match_per_type {
             rule_matches.append(&mut matches);
         }
-- 
2.43.0


From 3a88f611c0e5b6c318428cc5b40c1682967abded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:40 +0000
Subject: [PATCH 05/24] fix: count inserted regexes in the total regex cache
 size metric

Only removals were counted, so the gauge could only go below zero.
---
 sds/src/scanner/regex_rule/regex_store.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sds/src/scanner/regex_rule/regex_store.rs b/sds/src/scanner/regex_rule/regex_store.rs
index 24d9681..1d50b53 100644
--- a/sds/src/scanner/regex_rule/regex_store.rs
+++ b/sds/src/scanner/regex_rule/regex_store.rs
@@ -127,10 +127,12 @@ impl RegexStore {
             let shared_regex = Arc::new(regex);
 
             let regex_cache = shared_regex.create_cache();
+            let cache_size = regex_cache.memory_usage() + std::mem::size_of::<Cache>();
             let cache_key = self.key_map.insert(WeakSharedRegex {
                 regex: Arc::downgrade(&shared_regex),
-                cache_size: regex_cache.memory_usage() + std::mem::size_of::<Cache>(),
+                cache_size,
             });
+            GLOBAL_STATS.add_total_regex_cache(cache_size as i64);
             if let Some(old_cache_key) = self.pattern_index.insert(pattern.to_owned(), cache_key) {
                 // cleanup old value (which must be a "dead" reference since `get` returned None)
                 if let Some(weak_ref) = self.key_map.remove(old_cache_key) {
-- 
2.43.0


From 5fd28c277ece6000ff7557ecbd5a80e436a806d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:43 +0000
Subject: [PATCH 06/24] fix: do not share memoized regexes between rule
 patterns and keywords

They are compiled differently, so a rule whose pattern equals the pattern generated for the keywords
of an earlier rule (or the reverse) got the wrong regex, or was accepted although it is invalid.
---
 sds/src/scanner/regex_rule/config.rs      |  4 +-
 sds/src/scanner/regex_rule/regex_store.rs | 63 +++++++++++++++++------
 2 files changed, 49 insertions(+), 18 deletions(-)

diff --git a/sds/src/scanner/regex_rule/config.rs b/sds/src/scanner/regex_rule/config.rs
index c855fff..c5f122b 100644
--- a/sds/src/scanner/regex_rule/config.rs
+++ b/sds/src/scanner/regex_rule/config.rs
@@ -3,7 +3,7 @@ use crate::proximity_keywords::compile_keywords_proximity_config;
 use crate::scanner::config::RuleConfig;
 use crate::scanner::metrics::RuleMetrics;
 use crate::scanner::regex_rule::compiled::RegexCompiledRule;
-use crate::scanner::regex_rule::regex_store::get_memoized_regex;
+use crate::scanner::regex_rule::regex_store::get_memoized_rule_regex;
 use crate::scanner::scope::Scope;
 use crate::secondary_validation::Validator;
 use crate::validation::validate_and_create_regex;
@@ -95,7 +95,7 @@ impl RuleConfig for RegexRuleConfig {
         rule_index: usize,
         scanner_labels: Labels,
     ) -> Result<Box<dyn CompiledRuleDyn>, CreateScannerError> {
-        let regex = get_memoized_regex(&self.pattern, validate_and_create_regex)?;
+        let regex = get_memoized_rule_regex(&self.pattern, validate_and_create_regex)?;
         self.match_action.validate()?;
 
         let rule_labels = scanner_labels.clone_with_labels(self.labels.clone());
diff --git a/sds/src/scanner/regex_rule/regex_store.rs b/sds/src/scanner/regex_rule/regex_store.rs
index 1d50b53..92d9513 100644
--- a/sds/src/scanner/regex_rule/regex_store.rs
+++ b/sds/src/scanner/regex_rule/regex_store.rs
@@ -27,6 +27,15 @@ impl Deref for SharedRegex {
     }
 }
 
+/// Rule patterns and keyword patterns are compiled differently (syntax, case sensitivity), so the
+/// same pattern string is not the same regex for both.
+#[derive(Copy, Clone, Debug, PartialEq, Eq, Hash)]
+enum RegexKind {
+    Rule,
+    Keywords,
+}
+
+/// Memoizes the regex of proximity keywords
 pub fn get_memoized_regex<T>(
     pattern: &str,
     regex_factory: impl FnOnce(&str) -> Result<regex_automata::meta::Regex, T>,
@@ -34,14 +43,31 @@ pub fn get_memoized_regex<T>(
     get_memoized_regex_with_custom_store(pattern, regex_factory, &REGEX_STORE)
 }
 
+/// Memoizes the regex of a rule pattern
+pub fn get_memoized_rule_regex<T>(
+    pattern: &str,
+    regex_factory: impl FnOnce(&str) -> Result<regex_automata::meta::Regex, T>,
+) -> Result<SharedRegex, T> {
+    get_memoized_regex_of_kind(RegexKind::Rule, pattern, regex_factory, &REGEX_STORE)
+}
+
 fn get_memoized_regex_with_custom_store<T>(
     pattern: &str,
     regex_factory: impl FnOnce(&str) -> Result<regex_automata::meta::Regex, T>,
     store: &Mutex<RegexStore>,
+) -> Result<SharedRegex, T> {
+    get_memoized_regex_of_kind(RegexKind::Keywords, pattern, regex_factory, store)
+}
+
+fn get_memoized_regex_of_kind<T>(
+    kind: RegexKind,
+    pattern: &str,
+    regex_factory: impl FnOnce(&str) -> Result<regex_automata::meta::Regex, T>,
+    store: &Mutex<RegexStore>,
 ) -> Result<SharedRegex, T> {
     {
         let regex_store = store.lock().unwrap();
-        if let Some(exiting_regex) = regex_store.get(pattern) {
+        if let Some(exiting_regex) = regex_store.get(kind, pattern) {
             return Ok(exiting_regex);
         }
     }
@@ -50,7 +76,7 @@ fn get_memoized_regex_with_custom_store<T>(
     let regex = regex_factory(pattern)?;
 
     let mut regex_store = store.lock().unwrap();
-    Ok(regex_store.insert(pattern, regex))
+    Ok(regex_store.insert(kind, pattern, regex))
 }
 
 // A GC of the regex store happens every N insertions
@@ -63,7 +89,7 @@ lazy_static! {
 new_key_type! { pub struct RegexCacheKey; }
 
 struct RegexStore {
-    pattern_index: AHashMap<String, RegexCacheKey>,
+    pattern_index: AHashMap<(RegexKind, String), RegexCacheKey>,
     key_map: SlotMap<RegexCacheKey, WeakSharedRegex>,
     // used to decide when to GC. Counts up to `GC_FREQUENCY` and is reset to 0 when a GC happens
     gc_counter: u64,
@@ -95,16 +121,18 @@ impl RegexStore {
     }
 
     /// Check if a regex for this pattern already exists, and returns a copy if it does
-    pub fn get(&self, pattern: &str) -> Option<SharedRegex> {
-        self.pattern_index.get(pattern).and_then(|cache_key| {
-            self.key_map
-                .get(*cache_key)
-                .and_then(|x| x.regex.upgrade())
-                .map(|regex| SharedRegex {
-                    regex,
-                    cache_key: *cache_key,
-                })
-        })
+    fn get(&self, kind: RegexKind, pattern: &str) -> Option<SharedRegex> {
+        self.pattern_index
+            .get(&(kind, pattern.to_owned()))
+            .and_then(|cache_key| {
+                self.key_map
+                    .get(*cache_key)
+                    .and_then(|x| x.regex.upgrade())
+                    .map(|regex| SharedRegex {
+                        regex,
+                        cache_key: *cache_key,
+                    })
+            })
     }
 
     #[cfg(test)]
@@ -116,12 +144,12 @@ impl RegexStore {
     /// Inserts a new rule into the cache. The "memoized" rule is returned and should be
     /// used instead of the one passed in. This ensures that if there were duplicates of
     /// a rule being created at the same time, only one is kept.
-    pub fn insert(&mut self, pattern: &str, regex: MetaRegex) -> SharedRegex {
+    fn insert(&mut self, kind: RegexKind, pattern: &str, regex: MetaRegex) -> SharedRegex {
         self.gc_counter += 1;
         if self.gc_counter >= GC_FREQUENCY {
             self.gc();
         }
-        if let Some(existing_regex) = self.get(pattern) {
+        if let Some(existing_regex) = self.get(kind, pattern) {
             existing_regex
         } else {
             let shared_regex = Arc::new(regex);
@@ -133,7 +161,10 @@ impl RegexStore {
                 cache_size,
             });
             GLOBAL_STATS.add_total_regex_cache(cache_size as i64);
-            if let Some(old_cache_key) = self.pattern_index.insert(pattern.to_owned(), cache_key) {
+            if let Some(old_cache_key) = self
+                .pattern_index
+                .insert((kind, pattern.to_owned()), cache_key)
+            {
                 // cleanup old value (which must be a "dead" reference since `get` returned None)
                 if let Some(weak_ref) = self.key_map.remove(old_cache_key) {
                     GLOBAL_STATS.add_total_regex_cache(-(weak_ref.cache_size as i64));
-- 
2.43.0


From 75c3a44e17ed343f5f10f146bcc81a3442b56611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:49 +0000
Subject: [PATCH 07/24] fix: excluded keywords next to '-' or '_' lost the char
 next to the context char

---
 .../proximity_keywords/excluded_keywords.rs   | 38 ++++++-------------
 sds/src/proximity_keywords/mod.rs             |  1 +
 2 files changed, 13 insertions(+), 26 deletions(-)

diff --git a/sds/src/proximity_keywords/excluded_keywords.rs b/sds/src/proximity_keywords/excluded_keywords.rs
index 1005c0c..b2ffa34 100644
--- a/sds/src/proximity_keywords/excluded_keywords.rs
+++ b/sds/src/proximity_keywords/excluded_keywords.rs
@@ -1,6 +1,5 @@
 use crate::proximity_keywords::{
-    get_prefix_start, next_char_index, prev_char_index, ProximityKeywordsRegex,
-    EXCLUDED_KEYWORDS_REMOVED_CHARS,
+    get_prefix_start, ProximityKeywordsRegex, EXCLUDED_KEYWORDS_REMOVED_CHARS,
 };
 use metrics::Counter;
 use regex_automata::Input;
@@ -26,38 +25,25 @@ impl CompiledExcludedProximityKeywords {
     }
 }
 
-/// Returns the match context which is what is searched for keywords
-/// and the range where matches are searched for. The range is needed since the context is
-/// expanded to ensure regex assertions (e.g. word boundaries) work correctly.
+/// Checks if a keyword is found in the prefix of a match, ignoring the removed chars. The searched
+/// text is expanded on both sides by the closest char that is not removed, to ensure regex
+/// assertions (e.g. word boundaries) work correctly.
 fn contains_excluded_keyword_match(
     content: &str,
     match_start: usize,
     look_ahead_char_count: usize,
     regex: &ProximityKeywordsRegex,
 ) -> bool {
-    let prefix_start_info = get_prefix_start(
-        match_start,
-        // Adding 1 to the start to account for assertion checking
-        look_ahead_char_count + 1,
-        content,
-    );
+    let is_kept = |c: &char| !EXCLUDED_KEYWORDS_REMOVED_CHARS.contains(c);
 
-    // Adding 1 char here to allow correct assertion checking on the last char. There will always be
-    // at least 1 more char is always available since empty matches aren't allowed
-    let prefix_end = next_char_index(content, match_start).unwrap_or(content.len());
+    let prefix_start = get_prefix_start(match_start, look_ahead_char_count, content).start;
 
-    let stripped_prefix =
-        content[prefix_start_info.start..prefix_end].replace(EXCLUDED_KEYWORDS_REMOVED_CHARS, "");
-
-    // Subtracting one to exclude the last char which was added only for boundary checking
-    let span_end = prev_char_index(&stripped_prefix, stripped_prefix.len()).unwrap_or(0);
-
-    let span_start = if prefix_start_info.used_all_chars {
-        // an extra char was added for assertion checking, so it needs to be removed here
-        next_char_index(&stripped_prefix, 0).unwrap_or(stripped_prefix.len())
-    } else {
-        0
-    };
+    let mut stripped_prefix = String::new();
+    stripped_prefix.extend(content[..prefix_start].chars().rev().find(is_kept));
+    let span_start = stripped_prefix.len();
+    stripped_prefix.extend(content[prefix_start..match_start].chars().filter(is_kept));
+    let span_end = stripped_prefix.len();
+    stripped_prefix.extend(content[match_start..].chars().find(is_kept));
 
     let input = Input::new(&stripped_prefix)
         .earliest(true)
diff --git a/sds/src/proximity_keywords/mod.rs b/sds/src/proximity_keywords/mod.rs
index d7853c5..5071cb8 100644
--- a/sds/src/proximity_keywords/mod.rs
+++ b/sds/src/proximity_keywords/mod.rs
@@ -112,6 +112,7 @@ fn next_char_index(content: &str, start: usize) -> Option<usize> {
         .map(|(i, _c)| start + i)
 }
 
+#[cfg(test)]
 fn prev_char_index(content: &str, start: usize) -> Option<usize> {
     content[..start].char_indices().next_back().map(|(i, _c)| i)
 }
-- 
2.43.0


From c5cb35b7fbdaba10a54248a04c7ec6fce344e5ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:54 +0000
Subject: [PATCH 08/24] fix: included keywords before a match are no longer
 skipped when looking for later matches

---
 sds/src/scanner/regex_rule/compiled.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/sds/src/scanner/regex_rule/compiled.rs b/sds/src/scanner/regex_rule/compiled.rs
index 9623b3e..183d556 100644
--- a/sds/src/scanner/regex_rule/compiled.rs
+++ b/sds/src/scanner/regex_rule/compiled.rs
@@ -169,11 +169,8 @@ impl RegexCompiledRule {
                     true_positive_match.start,
                     included_keywords.look_ahead_character_count,
                 ) {
-                    // The match start might be further than the current start, so some chars
-                    // can be skipped before the next included keyword scanning. The start
-                    // is used instead of the end since the included keyword can overlap with
-                    // a previous match (maybe this can be removed in the future?)
-                    included_keyword_matches.skip_to(true_positive_match.start);
+                    // Keywords before this match can't be skipped, since their prefix may contain
+                    // matches that are too far from the current keyword.
                     match_emitter.emit(true_positive_match);
 
                     // Continue search since another true positive could potentially be found within the same prefix
-- 
2.43.0


From 2df2a8b2537e77ba8e5f3e5be3c66ee378af40df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:33 +0000
Subject: [PATCH 09/24] fix: an included keyword nested in another one no
 longer hides it

---
 sds/src/proximity_keywords/included_keywords.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sds/src/proximity_keywords/included_keywords.rs b/sds/src/proximity_keywords/included_keywords.rs
index d068c7a..3fbbd92 100644
--- a/sds/src/proximity_keywords/included_keywords.rs
+++ b/sds/src/proximity_keywords/included_keywords.rs
@@ -31,7 +31,7 @@ impl<'a> IncludedKeywordSearch<'a> {
     }
 
     pub fn next(&mut self, regex_caches: &mut RegexCaches) -> Option<usize> {
-        let input = Input::new(self.content).range(self.start..).earliest(true);
+        let input = Input::new(self.content).range(self.start..);
 
         if let Some(included_keyword_match) =
             self.keywords.keywords_pattern.content_regex.search_with(
-- 
2.43.0


From 9f9f1cd3e1b453ce5a2b185709a8b5809ff8e925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:15 +0000
Subject: [PATCH 10/24] fix: only matches near an included keyword are excluded
 values of an excluded path

---
 sds/src/scanner/regex_rule/compiled.rs | 102 +++++++++++++------------
 1 file changed, 55 insertions(+), 47 deletions(-)

diff --git a/sds/src/scanner/regex_rule/compiled.rs b/sds/src/scanner/regex_rule/compiled.rs
index 183d556..3f2f666 100644
--- a/sds/src/scanner/regex_rule/compiled.rs
+++ b/sds/src/scanner/regex_rule/compiled.rs
@@ -77,16 +77,16 @@ impl CompiledRule for RegexCompiledRule {
                 );
             }
             None => {
-                let true_positive_search = self.true_positive_matches(
-                    content,
-                    0,
-                    regex_caches.get(&self.regex),
-                    true,
-                    exclusion_check,
-                    excluded_matches,
-                );
+                let true_positive_search =
+                    self.true_positive_matches(content, 0, regex_caches.get(&self.regex), true);
                 for string_match in true_positive_search {
-                    match_emitter.emit(string_match);
+                    self.emit_match(
+                        content,
+                        string_match,
+                        exclusion_check,
+                        excluded_matches,
+                        match_emitter,
+                    );
                 }
             }
         }
@@ -134,16 +134,16 @@ impl RegexCompiledRule {
     ) {
         if true_positive_rule_idx.contains(&self.rule_index) {
             // since the path contains a match, we can skip future included keyword checks
-            let true_positive_search = self.true_positive_matches(
-                content,
-                0,
-                regex_caches.get(&self.regex),
-                false,
-                exclusion_check,
-                excluded_matches,
-            );
+            let true_positive_search =
+                self.true_positive_matches(content, 0, regex_caches.get(&self.regex), false);
             for string_match in true_positive_search {
-                match_emitter.emit(string_match);
+                self.emit_match(
+                    content,
+                    string_match,
+                    exclusion_check,
+                    excluded_matches,
+                    match_emitter,
+                );
             }
             return;
         }
@@ -158,8 +158,6 @@ impl RegexCompiledRule {
                 included_keyword_match_start,
                 regex_caches.get(&self.regex),
                 false,
-                exclusion_check,
-                excluded_matches,
             );
 
             for true_positive_match in true_positive_search {
@@ -171,7 +169,13 @@ impl RegexCompiledRule {
                 ) {
                     // Keywords before this match can't be skipped, since their prefix may contain
                     // matches that are too far from the current keyword.
-                    match_emitter.emit(true_positive_match);
+                    self.emit_match(
+                        content,
+                        true_positive_match,
+                        exclusion_check,
+                        excluded_matches,
+                        match_emitter,
+                    );
 
                     // Continue search since another true positive could potentially be found within the same prefix
                 } else {
@@ -217,17 +221,17 @@ impl RegexCompiledRule {
                 return;
             }
 
-            let true_positive_search = self.true_positive_matches(
-                content,
-                0,
-                regex_caches.get(&self.regex),
-                false,
-                exclusion_check,
-                excluded_matches,
-            );
+            let true_positive_search =
+                self.true_positive_matches(content, 0, regex_caches.get(&self.regex), false);
 
             for string_match in true_positive_search {
-                match_emitter.emit(string_match);
+                self.emit_match(
+                    content,
+                    string_match,
+                    exclusion_check,
+                    excluded_matches,
+                    match_emitter,
+                );
             }
         }
     }
@@ -238,8 +242,6 @@ impl RegexCompiledRule {
         start: usize,
         cache: &'a mut Cache,
         check_excluded_keywords: bool,
-        exclusion_check: &'a ExclusionCheck<'a>,
-        excluded_matches: &'a mut AHashSet<String>,
     ) -> TruePositiveSearch<'a> {
         TruePositiveSearch {
             rule: self,
@@ -247,8 +249,23 @@ impl RegexCompiledRule {
             start,
             cache,
             check_excluded_keywords,
-            exclusion_check,
-            excluded_matches,
+        }
+    }
+
+    fn emit_match(
+        &self,
+        content: &str,
+        string_match: StringMatch,
+        exclusion_check: &ExclusionCheck<'_>,
+        excluded_matches: &mut AHashSet<String>,
+        match_emitter: &mut dyn MatchEmitter,
+    ) {
+        if exclusion_check.is_excluded(self.rule_index) {
+            // Matches from excluded paths are saved and used to treat additional equal matches as false positives.
+            // Matches are checked against this `excluded_matches` set after all scanning has been done.
+            excluded_matches.insert(content[string_match.start..string_match.end].to_string());
+        } else {
+            match_emitter.emit(string_match);
         }
     }
 }
@@ -259,8 +276,6 @@ pub struct TruePositiveSearch<'a> {
     start: usize,
     cache: &'a mut Cache,
     check_excluded_keywords: bool,
-    exclusion_check: &'a ExclusionCheck<'a>,
-    excluded_matches: &'a mut AHashSet<String>,
 }
 
 impl<'a> Iterator for TruePositiveSearch<'a> {
@@ -291,17 +306,10 @@ impl<'a> Iterator for TruePositiveSearch<'a> {
                     // patterns that can match empty matches are rejected.
                     self.start = regex_match.end();
 
-                    if self.exclusion_check.is_excluded(self.rule.rule_index) {
-                        // Matches from excluded paths are saved and used to treat additional equal matches as false positives.
-                        // Matches are checked against this `excluded_matches` set after all scanning has been done.
-                        self.excluded_matches
-                            .insert(self.content[regex_match.range()].to_string());
-                    } else {
-                        return Some(StringMatch {
-                            start: regex_match.start(),
-                            end: regex_match.end(),
-                        });
-                    }
+                    return Some(StringMatch {
+                        start: regex_match.start(),
+                        end: regex_match.end(),
+                    });
                 }
             } else {
                 return None;
-- 
2.43.0


From 67ff873fbb9523d74dbf08afd2112bd4ae7582c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:44 +0000
Subject: [PATCH 11/24] fix: a '-' in front of a class in a bracketed class is
 a literal, not a range

---
 sds/src/parser/regex_parser.rs | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/sds/src/parser/regex_parser.rs b/sds/src/parser/regex_parser.rs
index 391d042..1a57413 100644
--- a/sds/src/parser/regex_parser.rs
+++ b/sds/src/parser/regex_parser.rs
@@ -11,7 +11,7 @@ use crate::parser::error::ParseError;
 use nom::branch::alt;
 use nom::bytes::complete::{tag, take_until};
 use nom::character::complete::{digit1, none_of, one_of};
-use nom::combinator::{eof, map, opt, recognize};
+use nom::combinator::{eof, map, not, opt, recognize};
 use nom::error::ErrorKind;
 use nom::multi::{many0, many1, many_m_n, separated_list1};
 use nom::sequence::{delimited, tuple};
@@ -342,26 +342,33 @@ fn bracket_character_class(input: Input) -> ParseResult<BracketCharacterClass> {
 
 fn bracket_character_class_item(input: Input) -> ParseResult<Vec<BracketCharacterClassItem>> {
     // the order here is important
+    alt((
+        bracket_character_class_quoted_literals,
+        map(bracket_character_class_nested_class, |item| vec![item]),
+        map(bracket_character_class_item_range, |item| vec![item]),
+        map(bracket_character_class_item_literal, |item| vec![item]),
+    ))(input)
+}
+
+/// Items that match a set of chars on their own (so they can't be the end of a range)
+fn bracket_character_class_nested_class(input: Input) -> ParseResult<BracketCharacterClassItem> {
     alt((
         map(perl_character_class, |class| {
-            vec![BracketCharacterClassItem::PerlCharacterClass(class)]
+            BracketCharacterClassItem::PerlCharacterClass(class)
         }),
         map(tag("\\h"), |_| {
-            vec![BracketCharacterClassItem::HorizontalWhitespace]
+            BracketCharacterClassItem::HorizontalWhitespace
         }),
         map(tag("\\H"), |_| {
-            vec![BracketCharacterClassItem::NotHorizontalWhitespace]
+            BracketCharacterClassItem::NotHorizontalWhitespace
         }),
         map(tag("\\v"), |_| {
-            vec![BracketCharacterClassItem::VerticalWhitespace]
+            BracketCharacterClassItem::VerticalWhitespace
         }),
         map(tag("\\V"), |_| {
-            vec![BracketCharacterClassItem::NotVerticalWhitespace]
+            BracketCharacterClassItem::NotVerticalWhitespace
         }),
-        bracket_character_class_quoted_literals,
-        map(bracket_character_class_ascii_class, |item| vec![item]),
-        map(bracket_character_class_item_range, |item| vec![item]),
-        map(bracket_character_class_item_literal, |item| vec![item]),
+        bracket_character_class_ascii_class,
     ))(input)
 }
 
@@ -430,6 +437,8 @@ fn bracket_character_class_item_literal(input: Input) -> ParseResult<BracketChar
 fn bracket_character_class_item_range(input: Input) -> ParseResult<BracketCharacterClassItem> {
     let (input, start) = literal(LiteralKind::BracketedCharacterClass)(input)?;
     let (input, _) = tag("-")(input)?;
+    // The "-" in front of a class is a literal (e.g. `[a-\d]`)
+    let (input, _) = not(bracket_character_class_nested_class)(input)?;
     let (input, end) = literal(LiteralKind::BracketedCharacterClass)(input)?;
     Ok((input, BracketCharacterClassItem::Range(start.c, end.c)))
 }
-- 
2.43.0


From 215d980e5a6663921949ada91fd8cebf8fbd2c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:14 +0000
Subject: [PATCH 12/24] fix: a quantifier on $ or \Z applies to the optional
 newline too

---
 sds/src/normalization/rust_regex_adapter.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/sds/src/normalization/rust_regex_adapter.rs b/sds/src/normalization/rust_regex_adapter.rs
index 01cb4c8..acddc87 100644
--- a/sds/src/normalization/rust_regex_adapter.rs
+++ b/sds/src/normalization/rust_regex_adapter.rs
@@ -119,7 +119,18 @@ fn convert_ast(sds_ast: &SdsAst) -> Result<RegexAst, ParseError> {
                 },
             },
             greedy: !repetition.quantifier.lazy,
-            ast: Box::new(convert_ast(&repetition.inner)?),
+            ast: Box::new(match convert_ast(&repetition.inner)? {
+                // An assertion can be converted to multiple items, and the repetition applies to all of them
+                inner @ RegexAst::Concat(_) => RegexAst::Group(RegexGroup {
+                    span: span(),
+                    kind: RegexGroupKind::NonCapturing(RegexFlags {
+                        span: span(),
+                        items: vec![],
+                    }),
+                    ast: Box::new(inner),
+                }),
+                inner => inner,
+            }),
         }),
         SdsAst::Assertion(assertion_type) => match assertion_type {
             SdsAssertionType::WordBoundary => {
-- 
2.43.0


From 1148681069b424bfea3dbd57a024ba2273bdc029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:37 +0000
Subject: [PATCH 13/24] fix: reject patterns that match an empty string only
 next to some chars (e.g. \b), scanning them never ended

---
 sds/src/validation.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/sds/src/validation.rs b/sds/src/validation.rs
index 89921b6..d30b6a5 100644
--- a/sds/src/validation.rs
+++ b/sds/src/validation.rs
@@ -1,6 +1,6 @@
 use crate::normalization::rust_regex_adapter::{convert_to_rust_regex, QUANTIFIER_LIMIT};
 use crate::parser::error::ParseError;
-use regex_automata::meta::{self};
+use regex_automata::{meta, Input};
 use thiserror::Error;
 
 #[derive(Debug, PartialEq, Eq, Error)]
@@ -65,12 +65,25 @@ pub fn validate_and_create_regex(input: &str) -> Result<meta::Regex, RegexValida
     // This validates that the syntax is valid and normalizes behavior.
     let converted_pattern = convert_to_rust_regex(input)?;
     let regex = build_regex(&converted_pattern, REGEX_COMPLEXITY_LIMIT)?;
-    if regex.is_match("") {
+    if can_match_empty_string(&regex) {
         return Err(RegexValidationError::MatchesEmptyString);
     }
     Ok(regex)
 }
 
+fn can_match_empty_string(regex: &meta::Regex) -> bool {
+    // Assertions (e.g. word boundaries) only depend on the adjacent chars, so trying all kinds of
+    // chars is enough to know if there's any text where an empty match could be found.
+    const ADJACENT: &[&str] = &["", "a", " ", "\n"];
+
+    ADJACENT.iter().any(|before| {
+        ADJACENT.iter().any(|after| {
+            let content = [*before, *after].concat();
+            regex.is_match(Input::new(&content).range(before.len()..before.len()))
+        })
+    })
+}
+
 fn is_regex_within_complexity_limit(
     converted_pattern: &str,
     complexity_limit: usize,
-- 
2.43.0


From cd7b5760e4954566894bbfae11a522fada4428a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:46 +0000
Subject: [PATCH 14/24] fix: a quantifier after quoted literals applies only to
 the last one

The previous grouping of repeated assertions also grouped \Q..\E.
---
 sds/src/normalization/rust_regex_adapter.rs | 29 ++++++++++++---------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/sds/src/normalization/rust_regex_adapter.rs b/sds/src/normalization/rust_regex_adapter.rs
index acddc87..6c9e6f2 100644
--- a/sds/src/normalization/rust_regex_adapter.rs
+++ b/sds/src/normalization/rust_regex_adapter.rs
@@ -119,18 +119,23 @@ fn convert_ast(sds_ast: &SdsAst) -> Result<RegexAst, ParseError> {
                 },
             },
             greedy: !repetition.quantifier.lazy,
-            ast: Box::new(match convert_ast(&repetition.inner)? {
-                // An assertion can be converted to multiple items, and the repetition applies to all of them
-                inner @ RegexAst::Concat(_) => RegexAst::Group(RegexGroup {
-                    span: span(),
-                    kind: RegexGroupKind::NonCapturing(RegexFlags {
-                        span: span(),
-                        items: vec![],
-                    }),
-                    ast: Box::new(inner),
-                }),
-                inner => inner,
-            }),
+            ast: Box::new(
+                match (repetition.inner.as_ref(), convert_ast(&repetition.inner)?) {
+                    // An assertion can be converted to multiple items, and the repetition applies to all of them
+                    // (for quoted literals it applies only to the last one)
+                    (SdsAst::Assertion(_), inner @ RegexAst::Concat(_)) => {
+                        RegexAst::Group(RegexGroup {
+                            span: span(),
+                            kind: RegexGroupKind::NonCapturing(RegexFlags {
+                                span: span(),
+                                items: vec![],
+                            }),
+                            ast: Box::new(inner),
+                        })
+                    }
+                    (_, inner) => inner,
+                },
+            ),
         }),
         SdsAst::Assertion(assertion_type) => match assertion_type {
             SdsAssertionType::WordBoundary => {
-- 
2.43.0


From 67bc467cc88bbaab64dba58fb9252d46cdeb385a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:06 +0000
Subject: [PATCH 15/24] fix: whitespace that is escaped, or not ASCII, is a
 literal also with the x flag

---
 sds/src/normalization/rust_regex_adapter.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/sds/src/normalization/rust_regex_adapter.rs b/sds/src/normalization/rust_regex_adapter.rs
index 6c9e6f2..fe17f40 100644
--- a/sds/src/normalization/rust_regex_adapter.rs
+++ b/sds/src/normalization/rust_regex_adapter.rs
@@ -24,7 +24,10 @@ use regex_syntax::ast::{
 };
 use std::rc::Rc;
 
-const ASCII_WHITESPACE_CHARS: &[char] = &['\x0D', '\x0A', '\x09', '\x0C', '\x0B', '\x20'];
+// Unescaped whitespace that is ignored when the `x` flag is set
+const EXTENDED_WHITESPACE_CHARS: &[char] = &[
+    '\x0D', '\x0A', '\x09', '\x0C', '\x0B', '\x20', '\u{85}', '\u{2028}', '\u{2029}',
+];
 pub const QUANTIFIER_LIMIT: u32 = 3000;
 /// This takes an SDS style regex pattern and converts it to a pattern
 /// compatible with the Rust `regex` crate.
@@ -454,11 +457,12 @@ fn convert_literal(literal: Literal, kind: LiteralKind) -> RegexLiteral {
         // used in a bracketed character class, all whitespace is hex encoded to ensure it
         // is never ignored.
         RegexLiteralKind::HexBrace(RegexHexLiteralKind::X)
-    } else if kind == LiteralKind::Normal && ASCII_WHITESPACE_CHARS.contains(&literal.c) {
+    } else if kind == LiteralKind::Normal && literal.c.is_whitespace() {
         // The HexBrace kind is usually preferred since it makes whitespace characters easier
         // to read, but escaping whitespace can change the behavior of the `x` (extended / verbose)
-        // flag, so the format is kept for those
-        if literal.escaped {
+        // flag, so the format is kept for those that are ignored by the `x` flag (Rust would ignore
+        // all of them)
+        if literal.escaped || !EXTENDED_WHITESPACE_CHARS.contains(&literal.c) {
             RegexLiteralKind::HexBrace(RegexHexLiteralKind::X)
         } else {
             RegexLiteralKind::Verbatim
-- 
2.43.0


From 1a8f3da82047c59642af32e41911670f08456b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:08:20 +0000
Subject: [PATCH 16/24] fix: HTTP match validation uses the config of the rule
 of the match, not of another rule with the same endpoints

---
 sds/src/match_validation/http_validator.rs | 35 ++++++++++++++++------
 1 file changed, 26 insertions(+), 9 deletions(-)

diff --git a/sds/src/match_validation/http_validator.rs b/sds/src/match_validation/http_validator.rs
index 19d2e59..2e9ecdc 100644
--- a/sds/src/match_validation/http_validator.rs
+++ b/sds/src/match_validation/http_validator.rs
@@ -1,5 +1,5 @@
 use super::{
-    config::{HttpValidatorConfig, HttpValidatorConfigBuilder, RequestHeader},
+    config::{HttpValidatorConfig, HttpValidatorConfigBuilder, MatchValidationType, RequestHeader},
     match_validator::MatchValidator,
 };
 use crate::{match_validation::config::HttpMethod, CompiledRuleDyn, MatchStatus, RuleMatch};
@@ -21,16 +21,32 @@ impl HttpValidator {
     pub fn new_from_config(config: HttpValidatorConfig) -> Self {
         HttpValidator { config }
     }
-    fn handle_reqwest_response(&self, match_status: &mut MatchStatus, val: &Response) {
+    // Validators are shared between rules with the same endpoints, the rest of the config is the one of the rule.
+    fn get_rule_config<'a>(
+        &'a self,
+        rule_match: &RuleMatch,
+        scanner_rules: &'a [Box<dyn CompiledRuleDyn>],
+    ) -> &'a HttpValidatorConfig {
+        match scanner_rules[rule_match.rule_index].get_match_validation_type() {
+            Some(MatchValidationType::CustomHttp(config)) => config,
+            _ => &self.config,
+        }
+    }
+
+    fn handle_reqwest_response(
+        config: &HttpValidatorConfig,
+        match_status: &mut MatchStatus,
+        val: &Response,
+    ) {
         // First check if this is in the valid status ranges
-        for valid_range in &self.config.valid_http_status_code {
+        for valid_range in &config.valid_http_status_code {
             if valid_range.contains(&val.status().as_u16()) {
                 *match_status = MatchStatus::Valid;
                 return;
             }
         }
         // Next check if this is in the invalid status ranges
-        for invalid_range in &self.config.invalid_http_status_code {
+        for invalid_range in &config.invalid_http_status_code {
             if invalid_range.contains(&val.status().as_u16()) {
                 *match_status = MatchStatus::Invalid;
                 return;
@@ -99,7 +115,7 @@ impl HttpValidatorHelper {
 }
 
 impl MatchValidator for HttpValidator {
-    fn validate(&self, matches: &mut Vec<RuleMatch>, _: &[Box<dyn CompiledRuleDyn>]) {
+    fn validate(&self, matches: &mut Vec<RuleMatch>, scanner_rules: &[Box<dyn CompiledRuleDyn>]) {
         // build a map of match status per endpoint and per match_idx
         let mut match_status_per_endpoint_and_match: AHashMap<_, _> = matches
             .iter()
@@ -114,25 +130,26 @@ impl MatchValidator for HttpValidator {
 
         match_status_per_endpoint_and_match.par_iter_mut().for_each(
             |((match_idx, endpoint), match_status)| {
+                let config = self.get_rule_config(&matches[*match_idx], scanner_rules);
                 let match_value = matches[*match_idx].match_value.as_ref().unwrap();
-                let mut request_builder = match self.config.method {
+                let mut request_builder = match config.method {
                     HttpMethod::Get => BLOCKING_HTTP_CLIENT.get(*endpoint),
                     HttpMethod::Post => BLOCKING_HTTP_CLIENT.post(*endpoint),
                     HttpMethod::Put => BLOCKING_HTTP_CLIENT.put(*endpoint),
                     HttpMethod::Delete => BLOCKING_HTTP_CLIENT.delete(*endpoint),
                     HttpMethod::Patch => BLOCKING_HTTP_CLIENT.patch(*endpoint),
                 };
-                request_builder = request_builder.timeout(self.config.options.timeout);
+                request_builder = request_builder.timeout(config.options.timeout);
 
                 // Add headers
-                for header in &self.config.request_header {
+                for header in &config.request_header {
                     request_builder = request_builder
                         .header(&header.key, &header.get_value_with_match(match_value));
                 }
                 let res = request_builder.send();
                 match res {
                     Ok(val) => {
-                        self.handle_reqwest_response(match_status, &val);
+                        Self::handle_reqwest_response(config, match_status, &val);
                     }
                     Err(err) => {
                         // TODO(trosenblatt) emit a metrics for this
-- 
2.43.0


From 2ae56730dc073c62858bb16a4fb6a8c55ebb556c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:08:20 +0000
Subject: [PATCH 17/24] fix: AWS match validation uses the config of the rule
 of the secret, not of another rule

---
 sds/src/match_validation/aws_validator.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/sds/src/match_validation/aws_validator.rs b/sds/src/match_validation/aws_validator.rs
index 81fb851..1e628a5 100644
--- a/sds/src/match_validation/aws_validator.rs
+++ b/sds/src/match_validation/aws_validator.rs
@@ -139,22 +139,29 @@ impl MatchValidator for AwsValidator {
                 }
                 let match_secret = extract_aws_secret_from_match(match_secret.as_ref().unwrap());
                 let match_id = match_id.as_ref().unwrap();
+                // The validator is shared between all AWS rules, the config is the one of the rule of the secret
+                let config = match scanner_rules[matches[*secret_index].rule_index]
+                    .get_match_validation_type()
+                {
+                    Some(MatchValidationType::Aws(AwsType::AwsSecret(config))) => config,
+                    _ => &self.config,
+                };
                 // Let's reqwest the HTTP API endpoint to validate the matches
                 let mut datetime = chrono::Utc::now();
-                if self.config.forced_datetime_utc.is_some() {
-                    datetime = self.config.forced_datetime_utc.unwrap()
+                if config.forced_datetime_utc.is_some() {
+                    datetime = config.forced_datetime_utc.unwrap()
                 }
                 let (body, headers) = generate_aws_headers_and_body(
                     &datetime,
-                    &self.config.aws_sts_endpoint,
+                    &config.aws_sts_endpoint,
                     match_id,
                     &match_secret,
                 );
                 let res = AWS_BLOCKING_CLIENT
-                    .post(self.config.aws_sts_endpoint.as_str())
+                    .post(config.aws_sts_endpoint.as_str())
                     .headers(headers)
                     .body(body)
-                    .timeout(self.config.timeout)
+                    .timeout(config.timeout)
                     .send();
 
                 match res {
-- 
2.43.0


From 0710ffd5dbb5e200cbb5016a206f09a82599c441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:08:57 +0000
Subject: [PATCH 18/24] fix: extract AWS secrets that end in '/' or '+'

---
 sds/src/match_validation/aws_validator.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sds/src/match_validation/aws_validator.rs b/sds/src/match_validation/aws_validator.rs
index 1e628a5..ec6b922 100644
--- a/sds/src/match_validation/aws_validator.rs
+++ b/sds/src/match_validation/aws_validator.rs
@@ -17,7 +17,7 @@ lazy_static! {
     static ref AWS_BLOCKING_CLIENT: reqwest::blocking::Client = reqwest::blocking::Client::new();
     // Right now the regex matched the secret key with extra characters, this regex aims to extract the secret key only
     static ref AWS_SECRET_REGEX: regex::Regex =
-        regex::Regex::new(r"([A-Za-z0-9\/+]{40})\b").unwrap();
+        regex::Regex::new(r"([A-Za-z0-9\/+]{40})(?:[^A-Za-z0-9\/+]|$)").unwrap();
 }
 
 pub struct AwsValidator {
-- 
2.43.0


From 64eeadf6b00c4826b041fe2998f4b8f3144db427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:30 +0000
Subject: [PATCH 19/24] fix: AWS ids that cannot be sent in a header get an
 error status instead of a panic

---
 sds/src/match_validation/aws_validator.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sds/src/match_validation/aws_validator.rs b/sds/src/match_validation/aws_validator.rs
index ec6b922..2d60630 100644
--- a/sds/src/match_validation/aws_validator.rs
+++ b/sds/src/match_validation/aws_validator.rs
@@ -139,6 +139,11 @@ impl MatchValidator for AwsValidator {
                 }
                 let match_secret = extract_aws_secret_from_match(match_secret.as_ref().unwrap());
                 let match_id = match_id.as_ref().unwrap();
+                // The id is sent in a header
+                if reqwest::header::HeaderValue::from_str(match_id).is_err() {
+                    *match_status = MatchStatus::Error("Invalid characters in aws_id".to_string());
+                    return;
+                }
                 // The validator is shared between all AWS rules, the config is the one of the rule of the secret
                 let config = match scanner_rules[matches[*secret_index].rule_index]
                     .get_match_validation_type()
-- 
2.43.0


From 093b25cdc2281eeb49270d539365c4f000cabc4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:24 +0000
Subject: [PATCH 20/24] fix: redact matches in JSON numbers and booleans
 instead of panicking

They are visited as strings, so rules can match them, but visit_string_mut
only knew strings.
---
 sds/src/event_json.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/sds/src/event_json.rs b/sds/src/event_json.rs
index 3b56401..ae990d0 100644
--- a/sds/src/event_json.rs
+++ b/sds/src/event_json.rs
@@ -56,6 +56,13 @@ impl Event for serde_json::Value {
             serde_json::Value::String(s) => {
                 (visit)(s);
             }
+            serde_json::Value::Bool(_) | serde_json::Value::Number(_) => {
+                // These are visited as strings, so they only stay what they are if nothing changes
+                let mut s = value.to_string();
+                if (visit)(&mut s) {
+                    *value = serde_json::Value::String(s);
+                }
+            }
             _ => panic!("unknown value"),
         };
     }
-- 
2.43.0


From f16fcf7183c30884501141b630befecff131a59a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:51 +0000
Subject: [PATCH 21/24] fix: ranges in classes that start with ']' or that are
 partly quoted with \Q..\E are ranges

---
 sds/src/parser/regex_parser.rs | 103 +++++++++++++++++++--------------
 1 file changed, 59 insertions(+), 44 deletions(-)

diff --git a/sds/src/parser/regex_parser.rs b/sds/src/parser/regex_parser.rs
index 1a57413..b038e81 100644
--- a/sds/src/parser/regex_parser.rs
+++ b/sds/src/parser/regex_parser.rs
@@ -11,7 +11,7 @@ use crate::parser::error::ParseError;
 use nom::branch::alt;
 use nom::bytes::complete::{tag, take_until};
 use nom::character::complete::{digit1, none_of, one_of};
-use nom::combinator::{eof, map, not, opt, recognize};
+use nom::combinator::{eof, map, opt, recognize};
 use nom::error::ErrorKind;
 use nom::multi::{many0, many1, many_m_n, separated_list1};
 use nom::sequence::{delimited, tuple};
@@ -318,13 +318,14 @@ fn bracket_character_class(input: Input) -> ParseResult<BracketCharacterClass> {
     // "]" is only allowed if it's the very first char
     let (input, closing_bracket) = opt(tag("]"))(input)?;
 
-    let (input, items) = many0(bracket_character_class_item)(input)?;
-    let mut items: Vec<_> = items.into_iter().flatten().collect();
+    let (input, tokens) = many0(bracket_character_class_token)(input)?;
     let (input, _) = tag("]")(input)?;
 
+    let mut tokens: Vec<_> = tokens.into_iter().flatten().collect();
     if closing_bracket.is_some() {
-        items.insert(0, BracketCharacterClassItem::Literal(']'));
+        tokens.insert(0, ClassToken::Char(']'));
     }
+    let items = bracket_character_class_items(&tokens);
 
     if items.is_empty() {
         // An empty bracket character class is not valid
@@ -340,16 +341,65 @@ fn bracket_character_class(input: Input) -> ParseResult<BracketCharacterClass> {
     ))
 }
 
-fn bracket_character_class_item(input: Input) -> ParseResult<Vec<BracketCharacterClassItem>> {
+/// A part of a bracketed class, before it's known which parts are ranges
+enum ClassToken {
+    Char(char),
+    /// An unescaped "-", which is either part of a range or a literal
+    Hyphen,
+    Item(BracketCharacterClassItem),
+}
+
+fn bracket_character_class_token(input: Input) -> ParseResult<Vec<ClassToken>> {
     // the order here is important
     alt((
-        bracket_character_class_quoted_literals,
-        map(bracket_character_class_nested_class, |item| vec![item]),
-        map(bracket_character_class_item_range, |item| vec![item]),
-        map(bracket_character_class_item_literal, |item| vec![item]),
+        map(quoted_literals, |literals| {
+            literals.into_iter().map(ClassToken::Char).collect()
+        }),
+        map(bracket_character_class_nested_class, |item| {
+            vec![ClassToken::Item(item)]
+        }),
+        map(tag("-"), |_| vec![ClassToken::Hyphen]),
+        map(literal(LiteralKind::BracketedCharacterClass), |literal| {
+            vec![ClassToken::Char(literal.c)]
+        }),
+        map(unicode_property_class, |class| {
+            vec![ClassToken::Item(
+                BracketCharacterClassItem::UnicodeProperty(class),
+            )]
+        }),
     ))(input)
 }
 
+/// A "-" between two chars is a range, no matter how the chars are written (e.g. `[]-a]`, `[\Qa\E-z]`)
+fn bracket_character_class_items(mut tokens: &[ClassToken]) -> Vec<BracketCharacterClassItem> {
+    let mut items = vec![];
+    while let Some((token, tail)) = tokens.split_first() {
+        tokens = tail;
+        let start = match token {
+            ClassToken::Char(c) => *c,
+            ClassToken::Hyphen => '-',
+            ClassToken::Item(item) => {
+                items.push(item.clone());
+                continue;
+            }
+        };
+        let end = match tail {
+            [ClassToken::Hyphen, ClassToken::Char(c), ..] => Some(*c),
+            [ClassToken::Hyphen, ClassToken::Hyphen, ..] => Some('-'),
+            // The "-" in front of a class is a literal (e.g. `[a-\d]`)
+            _ => None,
+        };
+        items.push(match end {
+            Some(end) => {
+                tokens = &tail[2..];
+                BracketCharacterClassItem::Range(start, end)
+            }
+            None => BracketCharacterClassItem::Literal(start),
+        });
+    }
+    items
+}
+
 /// Items that match a set of chars on their own (so they can't be the end of a range)
 fn bracket_character_class_nested_class(input: Input) -> ParseResult<BracketCharacterClassItem> {
     alt((
@@ -379,18 +429,6 @@ fn quoted_literals(input: Input) -> ParseResult<Vec<char>> {
     Ok((input, literals.value.chars().collect()))
 }
 
-fn bracket_character_class_quoted_literals(
-    input: Input,
-) -> ParseResult<Vec<BracketCharacterClassItem>> {
-    let (input, literals) = quoted_literals(input)?;
-    let items = literals
-        .into_iter()
-        .map(BracketCharacterClassItem::Literal)
-        .collect();
-
-    Ok((input, items))
-}
-
 fn bracket_character_class_ascii_class(input: Input) -> ParseResult<BracketCharacterClassItem> {
     let (input, _) = tag("[:")(input)?;
     let (input, negated) = opt(tag("^"))(input)?;
@@ -420,29 +458,6 @@ fn bracket_character_class_ascii_class(input: Input) -> ParseResult<BracketChara
     ))
 }
 
-fn bracket_character_class_item_literal(input: Input) -> ParseResult<BracketCharacterClassItem> {
-    alt((
-        map(literal(LiteralKind::BracketedCharacterClass), |literal| {
-            BracketCharacterClassItem::Literal(literal.c)
-        }),
-        map(perl_character_class, |class| {
-            BracketCharacterClassItem::PerlCharacterClass(class)
-        }),
-        map(unicode_property_class, |class| {
-            BracketCharacterClassItem::UnicodeProperty(class)
-        }),
-    ))(input)
-}
-
-fn bracket_character_class_item_range(input: Input) -> ParseResult<BracketCharacterClassItem> {
-    let (input, start) = literal(LiteralKind::BracketedCharacterClass)(input)?;
-    let (input, _) = tag("-")(input)?;
-    // The "-" in front of a class is a literal (e.g. `[a-\d]`)
-    let (input, _) = not(bracket_character_class_nested_class)(input)?;
-    let (input, end) = literal(LiteralKind::BracketedCharacterClass)(input)?;
-    Ok((input, BracketCharacterClassItem::Range(start.c, end.c)))
-}
-
 fn perl_character_class(input: Input) -> ParseResult<PerlCharacterClass> {
     alt((
         map(tag("\\d"), |_| PerlCharacterClass::Digit),
-- 
2.43.0


From 5e42d03b687fd2fe99e7fb9823ccc75ddc93e088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:14 +0000
Subject: [PATCH 22/24] fix: a quantifier that does not fit 32 bits exceeds the
 limit, it is not a literal

---
 sds/src/parser/regex_parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sds/src/parser/regex_parser.rs b/sds/src/parser/regex_parser.rs
index b038e81..7f6a5dd 100644
--- a/sds/src/parser/regex_parser.rs
+++ b/sds/src/parser/regex_parser.rs
@@ -549,8 +549,8 @@ fn hex_digit(input: Input) -> ParseResult<char> {
 
 fn integer(input: Input) -> ParseResult<u32> {
     let (input, digits) = digit1(input)?;
-    let value =
-        u32::from_str(digits.value).map_err(|_| nom::Err::Error(ParseError::InvalidSyntax))?;
+    // this can only fail if the value is too large, which is above any limit
+    let value = u32::from_str(digits.value).unwrap_or(u32::MAX);
     Ok((input, value))
 }
 
-- 
2.43.0


From 227f71a5bcad420fcf6bafe61b9b8f2643789a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:36 +0000
Subject: [PATCH 23/24] fix: reject \x{ without a closing brace, or with
 anything but hex digits (e.g. \x{+41})

---
 sds/src/parser/regex_parser.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sds/src/parser/regex_parser.rs b/sds/src/parser/regex_parser.rs
index 7f6a5dd..02b5298 100644
--- a/sds/src/parser/regex_parser.rs
+++ b/sds/src/parser/regex_parser.rs
@@ -11,7 +11,7 @@ use crate::parser::error::ParseError;
 use nom::branch::alt;
 use nom::bytes::complete::{tag, take_until};
 use nom::character::complete::{digit1, none_of, one_of};
-use nom::combinator::{eof, map, opt, recognize};
+use nom::combinator::{cut, eof, map, opt, recognize};
 use nom::error::ErrorKind;
 use nom::multi::{many0, many1, many_m_n, separated_list1};
 use nom::sequence::{delimited, tuple};
@@ -500,7 +500,8 @@ fn escaped_control_sequence(input: Input) -> ParseResult<char> {
 fn hex_escaped_literal(input: Input) -> ParseResult<char> {
     let (input, (has_brace, hex_string)) = alt((
         map(
-            tuple((tag("x{"), recognize(take_until("}")), tag("}"))),
+            // Anything but hex digits, or a missing "}", is not valid
+            tuple((tag("x{"), cut(recognize(many1(hex_digit))), cut(tag("}")))),
             |(_, hex, _)| (true, hex),
         ),
         map(
-- 
2.43.0


From 66f521a45e22c84889eef7ac10be132f2359ff5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:03:21 +0000
Subject: [PATCH 24/24] fix: reject unknown POSIX classes, and POSIX classes
 outside of a bracketed class, instead of taking them for literals

---
 sds/src/parser/regex_parser.rs | 34 ++++++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/sds/src/parser/regex_parser.rs b/sds/src/parser/regex_parser.rs
index 02b5298..d453122 100644
--- a/sds/src/parser/regex_parser.rs
+++ b/sds/src/parser/regex_parser.rs
@@ -312,6 +312,10 @@ fn flag(input: Input) -> ParseResult<Flag> {
 }
 
 fn bracket_character_class(input: Input) -> ParseResult<BracketCharacterClass> {
+    if is_posix_class_syntax(input.value) {
+        // e.g. `[:alpha:]`, which is only allowed inside of a class (`[[:alpha:]]`)
+        return Err(nom::Err::Failure(ParseError::InvalidSyntax));
+    }
     let (input, _) = tag("[")(input)?;
     let (input, negated) = opt(tag("^"))(input)?;
 
@@ -429,7 +433,37 @@ fn quoted_literals(input: Input) -> ParseResult<Vec<char>> {
     Ok((input, literals.value.chars().collect()))
 }
 
+/// Whether the input starts with something that looks like a POSIX class (`[:name:]`), or a collating
+/// element (`[.name.]` or `[=name=]`, which are not supported), no matter if the name is known.
+fn is_posix_class_syntax(input: &str) -> bool {
+    let mut chars = input.chars();
+    let terminator = match (chars.next(), chars.next()) {
+        (Some('['), Some(c @ (':' | '.' | '='))) => c,
+        _ => return false,
+    };
+    while let Some(c) = chars.next() {
+        let next = chars.clone().next();
+        if c == '\\' && matches!(next, Some(']' | '\\')) {
+            chars.next();
+        } else if c == ']' || (c == '[' && next == Some(terminator)) {
+            return false;
+        } else if c == terminator && next == Some(']') {
+            return true;
+        }
+    }
+    false
+}
+
 fn bracket_character_class_ascii_class(input: Input) -> ParseResult<BracketCharacterClassItem> {
+    if is_posix_class_syntax(input.value) {
+        // if the name isn't known, it's not a list of literals
+        cut(posix_class)(input)
+    } else {
+        Err(nom::Err::Error(ParseError::InvalidSyntax))
+    }
+}
+
+fn posix_class(input: Input) -> ParseResult<BracketCharacterClassItem> {
     let (input, _) = tag("[:")(input)?;
     let (input, negated) = opt(tag("^"))(input)?;
     let (input, ascii_class_kind) = alt((
-- 
2.43.0

