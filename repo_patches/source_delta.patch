From 4446153c192b8cc5cedf2c6517a93268eefb6cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:25 +0000
Subject: [PATCH 001/139] fix: path expression with an index that is out of
 range or uses non-ASCII digits panics

---
 rust/pact_models/src/path_exp.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rust/pact_models/src/path_exp.rs b/rust/pact_models/src/path_exp.rs
index a6e3e88..dbadc59 100644
--- a/rust/pact_models/src/path_exp.rs
+++ b/rust/pact_models/src/path_exp.rs
@@ -648,7 +648,9 @@ fn index_path<I>(chars: &mut Peekable<I>, tokens: &mut Vec<PathToken>, path: &st
     }
   }
 
-  tokens.push(PathToken::Index(id.parse().unwrap()));
+  let index = id.parse()
+    .map_err(|err| format!("Index \"{}\" in path expression \"{}\" is not valid: {}", id, path, err))?;
+  tokens.push(PathToken::Index(index));
   Ok(())
 }
 
-- 
2.43.0


From 79cc394fbff78b7eecf0bcf47db224c8e50ab2c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:45 +0000
Subject: [PATCH 002/139] fix: quoted names in path expressions were not
 unescaped when parsed

---
 rust/pact_models/src/path_exp.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/rust/pact_models/src/path_exp.rs b/rust/pact_models/src/path_exp.rs
index dbadc59..9540c8e 100644
--- a/rust/pact_models/src/path_exp.rs
+++ b/rust/pact_models/src/path_exp.rs
@@ -593,7 +593,7 @@ fn path_identifier<I>(chars: &mut Peekable<I>, tokens: &mut Vec<PathToken>, path
   }
 }
 
-// string_path -> [^']+
+// string_path -> [^']+ (where \\' and \\\\ are the escapes written by write_obj_key_for_path)
 fn string_path<I>(chars: &mut Peekable<I>, tokens: &mut Vec<PathToken>, path: &str, index: usize) -> Result<(), String>
   where I: Iterator<Item=(usize, char)> {
   let mut id = String::new();
@@ -603,9 +603,19 @@ fn string_path<I>(chars: &mut Peekable<I>, tokens: &mut Vec<PathToken>, path: &s
     let mut ch = next_char.unwrap();
     next_char = peek(chars);
     while ch.1 != '\'' && next_char.is_some() {
-      id.push(ch.1);
-      chars.next();
-      ch = next_char.unwrap();
+      let next = next_char.unwrap();
+      if ch.1 == '\\' && (next.1 == '\\' || next.1 == '\'') {
+        id.push(next.1);
+        chars.next();
+        match chars.next() {
+          Some(c) => ch = c,
+          None => return Err(format!("Unterminated string in path expression \"{}\" at index {}", path, next.0))
+        }
+      } else {
+        id.push(ch.1);
+        chars.next();
+        ch = next;
+      }
       next_char = peek(chars);
     }
     if ch.1 == '\'' {
-- 
2.43.0


From ade2b87bf083b432d6ca442988e5de19ca9ddb17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:06 +0000
Subject: [PATCH 003/139] fix: path weight calculation overflows for paths with
 64 or more elements

---
 rust/pact_models/src/path_exp.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/pact_models/src/path_exp.rs b/rust/pact_models/src/path_exp.rs
index 9540c8e..49cb65d 100644
--- a/rust/pact_models/src/path_exp.rs
+++ b/rust/pact_models/src/path_exp.rs
@@ -195,7 +195,7 @@ impl DocPath {
       if path.len() >= self.len() {
         (
           self.path_tokens.iter().zip(path.iter())
-          .fold(1, |acc, (token, fragment)| acc * matches_token(fragment, token)),
+          .fold(1_usize, |acc, (token, fragment)| acc.saturating_mul(matches_token(fragment, token))),
           self.len()
         )
       } else {
-- 
2.43.0


From 0df4292f7524a7a194312f1f7cfc2985f165c606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:01 +0000
Subject: [PATCH 004/139] fix: generator attributes reported under names the
 generator is not created from

---
 rust/pact_models/src/generators/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rust/pact_models/src/generators/mod.rs b/rust/pact_models/src/generators/mod.rs
index 7abba1e..953e3cd 100644
--- a/rust/pact_models/src/generators/mod.rs
+++ b/rust/pact_models/src/generators/mod.rs
@@ -270,7 +270,7 @@ impl Generator {
       }
       Generator::RandomDecimal(digits) => hashmap!{ "digits" => json!(digits) },
       Generator::RandomHexadecimal(digits) => hashmap!{ "digits" => json!(digits) },
-      Generator::RandomString(digits) => hashmap!{ "digits" => json!(digits) },
+      Generator::RandomString(size) => hashmap!{ "size" => json!(size) },
       Generator::Regex(r) => hashmap!{ "regex" => json!(r) },
       Generator::Date(format, exp) => {
         match (format, exp) {
@@ -298,7 +298,7 @@ impl Generator {
       }
       Generator::RandomBoolean => empty,
       Generator::ProviderStateGenerator(exp, data_type) => if let Some(data_type) = data_type {
-        hashmap!{ "expression" => Value::String(exp.clone()), "data_type" => data_type.into() }
+        hashmap!{ "expression" => Value::String(exp.clone()), "dataType" => data_type.into() }
       } else {
         hashmap!{ "expression" => Value::String(exp.clone()) }
       }
-- 
2.43.0


From 37996ec002283dc837c630c6653fe7ae4b15cf31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:01 +0000
Subject: [PATCH 005/139] fix: HTTP status values outside of 0-65535 in
 matching rules are truncated

---
 rust/pact_models/src/lib.rs | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/rust/pact_models/src/lib.rs b/rust/pact_models/src/lib.rs
index e4efabe..2555a76 100644
--- a/rust/pact_models/src/lib.rs
+++ b/rust/pact_models/src/lib.rs
@@ -377,13 +377,8 @@ impl HttpStatus {
       },
       Value::Array(a) => {
         let status_codes = a.iter().map(|status| match status {
-          Value::Number(n) => if n.is_u64() {
-            Ok(n.as_u64().unwrap() as u16)
-          } else if n.is_i64() {
-            Ok(n.as_i64().unwrap() as u16)
-          } else {
-            Ok(n.as_f64().unwrap() as u16)
-          },
+          Value::Number(n) => n.as_u64().and_then(|n| u16::try_from(n).ok())
+            .ok_or_else(|| anyhow!("'{}' is not a valid HTTP Status", n)),
           Value::String(s) => s.parse::<u16>().map_err(|err| anyhow!(err)),
           _ => Err(anyhow!("'{}' is not a valid JSON value for an HTTP Status", status))
         }).collect::<Vec<anyhow::Result<u16>>>();
-- 
2.43.0


From 5a71431f7921e171e0f07b4350a83104b4761778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:12 +0000
Subject: [PATCH 006/139] fix: min-max-type matching rule can not be created
 from its name and attributes

---
 rust/pact_models/src/matchingrules/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rust/pact_models/src/matchingrules/mod.rs b/rust/pact_models/src/matchingrules/mod.rs
index cc358e7..3bbd45e 100644
--- a/rust/pact_models/src/matchingrules/mod.rs
+++ b/rust/pact_models/src/matchingrules/mod.rs
@@ -379,6 +379,10 @@ impl MatchingRule {
         Some(max) => Ok(MatchingRule::MaxType(max)),
         None => Err(anyhow!("Max matcher missing 'max' field")),
       },
+      "min-max-type" => match (json_to_num(attributes.get("min").cloned()), json_to_num(attributes.get("max").cloned())) {
+        (Some(min), Some(max)) => Ok(MatchingRule::MinMaxType(min, max)),
+        _ => Err(anyhow!("MinMax matcher missing 'min' or 'max' field")),
+      },
       "timestamp" | "datetime" => match attributes.get("format").or_else(|| attributes.get(rule_type)) {
         Some(s) => Ok(MatchingRule::Timestamp(json_to_string(s))),
         None => Ok(MatchingRule::Timestamp(String::default())),
-- 
2.43.0


From 7075849cf594c15fcf19087b7c10c56b8b43ea17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:12 +0000
Subject: [PATCH 007/139] fix: status code matching rules for different
 statuses compare as equal

---
 rust/pact_models/src/matchingrules/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rust/pact_models/src/matchingrules/mod.rs b/rust/pact_models/src/matchingrules/mod.rs
index 3bbd45e..ba52fcb 100644
--- a/rust/pact_models/src/matchingrules/mod.rs
+++ b/rust/pact_models/src/matchingrules/mod.rs
@@ -630,6 +630,7 @@ impl PartialEq for MatchingRule {
       (MatchingRule::ArrayContains(variants1), MatchingRule::ArrayContains(variants2)) => variants1 == variants2,
       (MatchingRule::EachKey(definition1), MatchingRule::EachKey(definition2)) => definition1 == definition2,
       (MatchingRule::EachValue(definition1), MatchingRule::EachValue(definition2)) => definition1 == definition2,
+      (MatchingRule::StatusCode(status1), MatchingRule::StatusCode(status2)) => status1 == status2,
       _ => mem::discriminant(self) == mem::discriminant(other)
     }
   }
-- 
2.43.0


From 207caa762d4f54f518bf0aefa325f043d9ad07eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:12 +0000
Subject: [PATCH 008/139] fix: rule selected for a value depends on map order
 when rules are equally specific

---
 rust/pact_models/src/matchingrules/mod.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/rust/pact_models/src/matchingrules/mod.rs b/rust/pact_models/src/matchingrules/mod.rs
index ba52fcb..3734e50 100644
--- a/rust/pact_models/src/matchingrules/mod.rs
+++ b/rust/pact_models/src/matchingrules/mod.rs
@@ -999,7 +999,8 @@ impl MatchingRuleCategory {
   fn max_by_path(&self, path: &[&str]) -> RuleList {
     self.rules.iter().map(|(k, v)| (k, v, k.path_weight(path)))
       .filter(|&(_, _, (w, _))| w > 0)
-      .max_by_key(|&(_, _, (w, t))| w * t)
+      .max_by(|(k1, _, (w1, t1)), (k2, _, (w2, t2))| w1.saturating_mul(*t1).cmp(&w2.saturating_mul(*t2))
+        .then_with(|| k2.cmp(k1)))
       .map(|(_, v, (_, t))| v.as_cascaded(t != path.len()))
       .unwrap_or_default()
   }
@@ -1079,13 +1080,15 @@ impl MatchingRuleCategory {
   pub fn select_best_matcher(&self, path: &[&str]) -> RuleList {
     match self.name {
       Category::BODY | Category::METADATA => self.max_by_path(path),
+      Category::HEADER | Category::QUERY | Category::CONTENTS => self.max_by_path(path).as_cascaded(false),
       _ => self.resolve_matchers_for_path(path).as_rule_list()
     }
   }
 
   /// Returns this category as a matching rule list. Returns a None if there are no rules
   pub fn as_rule_list(&self) -> RuleList {
-    self.rules.values().next().cloned().unwrap_or_default()
+    self.rules.iter().min_by(|(a, _), (b, _)| Ord::cmp(a, b))
+      .map(|(_, rules)| rules.clone()).unwrap_or_default()
   }
 
   /// Adds the rules to the category from the provided JSON
-- 
2.43.0


From 933f0a5e048bd45f9ccffd2032d0b39f66ad0823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:12 +0000
Subject: [PATCH 009/139] fix: body field names containing a dollar are
 corrupted in V2 matching rules

---
 rust/pact_models/src/matchingrules/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/pact_models/src/matchingrules/mod.rs b/rust/pact_models/src/matchingrules/mod.rs
index 3734e50..277e0de 100644
--- a/rust/pact_models/src/matchingrules/mod.rs
+++ b/rust/pact_models/src/matchingrules/mod.rs
@@ -1031,7 +1031,7 @@ impl MatchingRuleCategory {
         map.insert("$.path".to_string(), v.to_v2_json());
       }
       Category::BODY => for (k, v) in self.rules.clone() {
-        map.insert(String::from(k).replace("$", "$.body"), v.to_v2_json());
+        map.insert(String::from(k).replacen("$", "$.body", 1), v.to_v2_json());
       }
       Category::HEADER | Category::QUERY => for (k, v) in &self.rules {
         let mut path = DocPath::root();
-- 
2.43.0


From 31d6598fa5b5dfec3cac5faf5fa29010e2c2fef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:12 +0000
Subject: [PATCH 010/139] fix: header and query names in V2 matching rules are
 read as path expressions

---
 rust/pact_models/src/matchingrules/mod.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/rust/pact_models/src/matchingrules/mod.rs b/rust/pact_models/src/matchingrules/mod.rs
index 277e0de..3d566bd 100644
--- a/rust/pact_models/src/matchingrules/mod.rs
+++ b/rust/pact_models/src/matchingrules/mod.rs
@@ -1252,6 +1252,19 @@ pub struct MatchingRules {
   pub rules: HashMap<Category, MatchingRuleCategory>
 }
 
+/// Path for a header or query parameter name. The name is always a single field, even if it
+/// could be read as a path expression.
+fn v2_name_to_path(name: String) -> DocPath {
+  match DocPath::new(name.as_str()) {
+    Ok(path) if path.len() == 2 && path.first_field() == Some(name.as_str()) => path,
+    _ => {
+      let mut path = DocPath::root();
+      path.push_field(name);
+      path
+    }
+  }
+}
+
 impl MatchingRules {
 
   /// If the matching rules are empty (that is there are no rules assigned to any categories)
@@ -1362,7 +1375,7 @@ impl MatchingRules {
           _ => None
         }).skip(1).next();
         let header = header_name.ok_or_else(|| anyhow!("'{}' is not a valid path value for a matching rule", key))?;
-        self.add_v2_rule("header", DocPath::new(header)?, v)?;
+        self.add_v2_rule("header", v2_name_to_path(header), v)?;
       } else {
         let path = DocPath::new(key)?;
         let mut names = path.tokens().iter().filter_map(|t| match t {
@@ -1373,7 +1386,7 @@ impl MatchingRules {
         let name = names.next();
         self.add_v2_rule(
           category,
-          if let Some(name) = name { DocPath::new(name)? } else { DocPath::empty() },
+          name.map(v2_name_to_path).unwrap_or_else(DocPath::empty),
           v,
         )?;
       }
-- 
2.43.0


From eb57e864849abac79f03d76a15089953360aa89f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:22 +0000
Subject: [PATCH 011/139] fix: provider state expression with a closing brace
 before it panics

---
 rust/pact_models/src/expression_parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/pact_models/src/expression_parser.rs b/rust/pact_models/src/expression_parser.rs
index 617fada..2e122ed 100644
--- a/rust/pact_models/src/expression_parser.rs
+++ b/rust/pact_models/src/expression_parser.rs
@@ -382,7 +382,7 @@ fn replace_expressions(value: &str, value_resolver: &dyn ValueResolver<Value>) -
     if index > 0 {
       result.push(json!(&buffer[0..index]));
     }
-    let end_position = buffer.find('}')
+    let end_position = buffer[index..].find('}').map(|end| index + end)
       .ok_or_else(|| anyhow!("Missing closing brace in expression string '{}'", value))?;
     if end_position - index > 2 {
       let lookup_key = &buffer[(index + 2)..end_position];
-- 
2.43.0


From 23355303327462e83c6a6bbc497bac3705c37f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:22 +0000
Subject: [PATCH 012/139] fix: provider state values that do not fit the
 requested type are truncated, rejected or panic

---
 rust/pact_models/src/expression_parser.rs | 95 +++++++++++++----------
 rust/pact_models/src/generators/mod.rs    |  2 +-
 2 files changed, 57 insertions(+), 40 deletions(-)

diff --git a/rust/pact_models/src/expression_parser.rs b/rust/pact_models/src/expression_parser.rs
index 2e122ed..c5462f8 100644
--- a/rust/pact_models/src/expression_parser.rs
+++ b/rust/pact_models/src/expression_parser.rs
@@ -83,6 +83,16 @@ pub struct DataValue {
 }
 
 impl DataValue {
+  /// Convert this data value to text using the associated data type
+  pub fn as_text(&self) -> anyhow::Result<String> {
+    match self.data_type {
+      DataType::STRING | DataType::RAW => Ok(json_to_string(&self.wrapped)),
+      DataType::INTEGER | DataType::BOOLEAN => self.as_json().map(|value| json_to_string(&value)),
+      DataType::FLOAT | DataType::DECIMAL => self.as_json().and_then(|_| f64::try_from(self.clone()))
+        .map(|value| value.to_string())
+    }
+  }
+
   /// Convert this data value to JSON using the associated data type
   pub fn as_json(&self) -> anyhow::Result<Value> {
     match self.data_type {
@@ -102,11 +112,13 @@ impl DataValue {
         } else if let Some(n) = n.as_i64() {
           Ok(json!(n))
         } else if let Some(n) = n.as_f64() {
-          Ok(json!(n as i64))
+          float_to_int(n).and_then(|n| i64::try_from(n).ok()).map(|n| json!(n))
+            .ok_or_else(|| anyhow!("Integer can not be generated from '{}'", self.wrapped))
         } else {
           Err(anyhow!("Internal Error: Number is neither u64, i64, or f64"))
         }
-        Value::String(s) => s.parse::<usize>().map(|val| json!(val))
+        Value::String(s) => s.parse::<u64>().map(|val| json!(val))
+          .or_else(|_| s.parse::<i64>().map(|val| json!(val)))
           .map_err(|err| anyhow!("Number can not be generated from '{}' - {}", self.wrapped, err)),
         Value::Array(_) | Value::Object(_) => Err(anyhow!("Number can not be generated from '{}'", self.wrapped))
       },
@@ -126,8 +138,11 @@ impl DataValue {
         } else {
           Err(anyhow!("Internal Error: Number is neither u64, i64, or f64"))
         },
-        Value::String(s) => s.parse::<f64>().map(|val| json!(val))
-          .map_err(|err| anyhow!("Floating point number can not be generated from '{}' - {}", self.wrapped, err)),
+        Value::String(s) => match s.parse::<f64>() {
+          Ok(val) if val.is_finite() => Ok(json!(val)),
+          Ok(_) => Err(anyhow!("Floating point number can not be generated from '{}'", self.wrapped)),
+          Err(err) => Err(anyhow!("Floating point number can not be generated from '{}' - {}", self.wrapped, err))
+        },
         Value::Array(_) | Value::Object(_) => Err(anyhow!("Number can not be generated from '{}'", self.wrapped))
       },
       DataType::RAW => Ok(self.wrapped.clone()),
@@ -151,6 +166,15 @@ impl DataValue {
   }
 }
 
+// Integer part of the number, or None if it does not have one
+fn float_to_int(n: f64) -> Option<i128> {
+  if n.is_finite() {
+    Some(n as i128)
+  } else {
+    None
+  }
+}
+
 impl TryFrom<DataValue> for u16 {
   type Error = anyhow::Error;
 
@@ -163,11 +187,14 @@ impl TryFrom<DataValue> for u16 {
         Ok(0)
       }
       Value::Number(n) => if let Some(n) = n.as_u64() {
-        Ok(n as u16)
+        u16::try_from(n)
+          .map_err(|err| anyhow!("u16 can not be generated from {} - {}", value.wrapped, err))
       } else if let Some(n) = n.as_i64() {
-        Ok(n as u16)
+        u16::try_from(n)
+          .map_err(|err| anyhow!("u16 can not be generated from {} - {}", value.wrapped, err))
       } else if let Some(n) = n.as_f64() {
-        Ok(n as u16)
+        float_to_int(n).and_then(|n| u16::try_from(n).ok())
+          .ok_or_else(|| anyhow!("u16 can not be generated from {}", value.wrapped))
       } else {
         Ok(0)
       }
@@ -175,8 +202,9 @@ impl TryFrom<DataValue> for u16 {
         DataType::INTEGER | DataType::RAW | DataType::STRING => s.parse::<u16>()
           .map_err(|err| anyhow!("u16 can not be generated from '{}' - {}", s, err)),
         DataType::DECIMAL | DataType::FLOAT => s.parse::<f64>()
-          .map(|val| val as u16)
-          .map_err(|err| anyhow!("u16 can not be generated from '{}' - {}", s, err)),
+          .map_err(|err| anyhow!("u16 can not be generated from '{}' - {}", s, err))
+          .and_then(|val| float_to_int(val).and_then(|val| u16::try_from(val).ok())
+            .ok_or_else(|| anyhow!("u16 can not be generated from '{}'", s))),
         _ => Err(anyhow!("u16 can not be generated from {}", value.wrapped))
       },
       _ => Err(anyhow!("u16 can not be generated from {}", value.wrapped))
@@ -198,9 +226,11 @@ impl TryFrom<DataValue> for u64 {
       Value::Number(n) => if let Some(n) = n.as_u64() {
         Ok(n)
       } else if let Some(n) = n.as_i64() {
-        Ok(n as u64)
+        u64::try_from(n)
+          .map_err(|err| anyhow!("u64 can not be generated from {} - {}", value.wrapped, err))
       } else if let Some(n) = n.as_f64() {
-        Ok(n as u64)
+        float_to_int(n).and_then(|n| u64::try_from(n).ok())
+          .ok_or_else(|| anyhow!("u64 can not be generated from {}", value.wrapped))
       } else {
         Ok(0)
       }
@@ -208,8 +238,9 @@ impl TryFrom<DataValue> for u64 {
         DataType::INTEGER | DataType::RAW | DataType::STRING => s.parse::<u64>()
           .map_err(|err| anyhow!("u64 can not be generated from '{}' - {}", s, err)),
         DataType::DECIMAL | DataType::FLOAT => s.parse::<f64>()
-          .map(|val| val as u64)
-          .map_err(|err| anyhow!("u64 can not be generated from '{}' - {}", s, err)),
+          .map_err(|err| anyhow!("u64 can not be generated from '{}' - {}", s, err))
+          .and_then(|val| float_to_int(val).and_then(|val| u64::try_from(val).ok())
+            .ok_or_else(|| anyhow!("u64 can not be generated from '{}'", s))),
         _ => Err(anyhow!("u64 can not be generated from {}", value.wrapped))
       },
       _ => Err(anyhow!("u64 can not be generated from {}", value.wrapped))
@@ -229,11 +260,13 @@ impl TryFrom<DataValue> for i64 {
         Ok(0)
       }
       Value::Number(n) => if let Some(n) = n.as_u64() {
-        Ok(n as i64)
+        i64::try_from(n)
+          .map_err(|err| anyhow!("i64 can not be generated from {} - {}", value.wrapped, err))
       } else if let Some(n) = n.as_i64() {
         Ok(n)
       } else if let Some(n) = n.as_f64() {
-        Ok(n as i64)
+        float_to_int(n).and_then(|n| i64::try_from(n).ok())
+          .ok_or_else(|| anyhow!("i64 can not be generated from {}", value.wrapped))
       } else {
         Ok(0)
       }
@@ -241,8 +274,9 @@ impl TryFrom<DataValue> for i64 {
         DataType::INTEGER | DataType::RAW | DataType::STRING => s.parse::<i64>()
           .map_err(|err| anyhow!("i64 can not be generated from '{}' - {}", s, err)),
         DataType::DECIMAL | DataType::FLOAT => s.parse::<f64>()
-          .map(|val| val as i64)
-          .map_err(|err| anyhow!("i64 can not be generated from '{}' - {}", s, err)),
+          .map_err(|err| anyhow!("i64 can not be generated from '{}' - {}", s, err))
+          .and_then(|val| float_to_int(val).and_then(|val| i64::try_from(val).ok())
+            .ok_or_else(|| anyhow!("i64 can not be generated from '{}'", s))),
         _ => Err(anyhow!("i64 can not be generated from {}", value.wrapped))
       },
       _ => Err(anyhow!("i64 can not be generated from {}", value.wrapped))
@@ -308,28 +342,11 @@ impl TryFrom<DataValue> for bool {
 
 impl Display for DataValue {
   fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
-    match self.data_type {
-      DataType::STRING | DataType::RAW => write!(f, "{}", json_to_string(&self.wrapped)),
-      DataType::INTEGER => match i64::try_from(self.clone()) {
-        Ok(v) => write!(f, "{}", v),
-        Err(err) => {
-          error!("Failed to convert value = {}", err);
-          Err(std::fmt::Error)
-        }
-      }
-      DataType::FLOAT | DataType::DECIMAL => match f64::try_from(self.clone()) {
-        Ok(v) => write!(f, "{}", v),
-        Err(err) => {
-          error!("Failed to convert value = {}", err);
-          Err(std::fmt::Error)
-        }
-      }
-      DataType::BOOLEAN => match bool::try_from(self.clone()) {
-        Ok(v) => write!(f, "{}", v),
-        Err(err) => {
-          error!("Failed to convert value = {}", err);
-          Err(std::fmt::Error)
-        }
+    match self.as_text() {
+      Ok(text) => write!(f, "{}", text),
+      Err(err) => {
+        error!("Failed to convert value = {}", err);
+        write!(f, "{}", json_to_string(&self.wrapped))
       }
     }
   }
diff --git a/rust/pact_models/src/generators/mod.rs b/rust/pact_models/src/generators/mod.rs
index 953e3cd..b8ead56 100644
--- a/rust/pact_models/src/generators/mod.rs
+++ b/rust/pact_models/src/generators/mod.rs
@@ -996,7 +996,7 @@ impl GenerateValue<String> for Generator {
         } else {
           context.clone()
         };
-        generate_value_from_context(exp, &provider_state_config, dt).map(|val| val.to_string())
+        generate_value_from_context(exp, &provider_state_config, dt).and_then(|val| val.as_text())
       }
       Generator::MockServerURL(example, regex) => if let Some(mock_server_details) = context.get("mockServer") {
         debug!("Generating URL from Mock Server details");
-- 
2.43.0


From 492f7855f1f91bc9e0b608412a7f73bf54dbf870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:49 +0000
Subject: [PATCH 013/139] fix: time expression 12 o'clock pm leaves the time
 unchanged

---
 rust/pact_models/src/generators/datetime_expressions.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rust/pact_models/src/generators/datetime_expressions.rs b/rust/pact_models/src/generators/datetime_expressions.rs
index d22c6aa..488de8e 100644
--- a/rust/pact_models/src/generators/datetime_expressions.rs
+++ b/rust/pact_models/src/generators/datetime_expressions.rs
@@ -184,8 +184,9 @@ pub fn execute_time_expression<Tz: TimeZone>(dt: &DateTime<Tz>, expression: &str
       TimeBase::Midnight => time.with_hour(0).unwrap_or(dt.clone()),
       TimeBase::Noon => time.with_hour(12).unwrap_or(dt.clone()),
       TimeBase::Am { hour } => time.with_hour(hour as u32).unwrap_or(dt.clone()),
+      TimeBase::Pm { hour: 12 } => time.with_hour(12).unwrap_or(dt.clone()),
       TimeBase::Pm { hour } => time.with_hour((12 + hour) as u32).unwrap_or(dt.clone()),
-      TimeBase::Next { hour } => if dt.hour() < 12 {
+      TimeBase::Next { hour } => if dt.hour() < 12 && hour < 12 {
         time.with_hour((12 + hour) as u32).unwrap_or(dt.clone())
       } else {
         time.with_hour(hour as u32).unwrap_or(dt.clone())
-- 
2.43.0


From 4fb1b0d1b52dcb760ed43fa9cf12a8f211501127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:49 +0000
Subject: [PATCH 014/139] fix: date and time expressions with an unknown token
 at the end are accepted

---
 .../src/generators/date_expression_parser.rs  | 36 ++++++++-------
 .../src/generators/time_expression_parser.rs  | 46 ++++++++-----------
 2 files changed, 39 insertions(+), 43 deletions(-)

diff --git a/rust/pact_models/src/generators/date_expression_parser.rs b/rust/pact_models/src/generators/date_expression_parser.rs
index 044942c..ee080a9 100644
--- a/rust/pact_models/src/generators/date_expression_parser.rs
+++ b/rust/pact_models/src/generators/date_expression_parser.rs
@@ -170,12 +170,13 @@ pub(crate) fn expression<'a>(lex: &mut Lexer<DateExpressionToken>, exp: &str) ->
   if let Some(Ok(token)) = lex.next() {
     if token.is_base() {
       date_base = base(lex, exp, &token)?;
-      if let Some(Ok(token)) = lex.next() {
-        if token.is_op() {
+      match lex.next() {
+        Some(Ok(token)) if token.is_op() => {
           adj.extend_from_slice(&*adjustments(lex, exp, &token)?);
-        } else {
-          return Err(error(exp, "+ or -", Some(lex.span().clone())));
         }
+        Some(Ok(_)) => return Err(error(exp, "+ or -", Some(lex.span().clone()))),
+        Some(Err(_)) => return Err(error(exp, "no more tokens", Some(lex.span().clone()))),
+        None => {}
       }
     } else if token.is_op() {
       adj.extend_from_slice(&*adjustments(lex, exp, &token)?);
@@ -186,12 +187,13 @@ pub(crate) fn expression<'a>(lex: &mut Lexer<DateExpressionToken>, exp: &str) ->
         value: v,
         operation: Operation::PLUS
       });
-      if let Some(Ok(token)) = lex.next() {
-        if token.is_op() {
+      match lex.next() {
+        Some(Ok(token)) if token.is_op() => {
           adj.extend_from_slice(&*adjustments(lex, exp, &token)?);
-        } else {
-          return Err(error(exp, "+ or -", Some(lex.span().clone())));
         }
+        Some(Ok(_)) => return Err(error(exp, "+ or -", Some(lex.span().clone()))),
+        Some(Err(_)) => return Err(error(exp, "no more tokens", Some(lex.span().clone()))),
+        None => {}
       }
     } else if token == DateExpressionToken::Last {
       let (t, v) = offset(lex, exp)?;
@@ -200,12 +202,13 @@ pub(crate) fn expression<'a>(lex: &mut Lexer<DateExpressionToken>, exp: &str) ->
         value: v,
         operation: Operation::MINUS
       });
-      if let Some(Ok(token)) = lex.next() {
-        if token.is_op() {
+      match lex.next() {
+        Some(Ok(token)) if token.is_op() => {
           adj.extend_from_slice(&*adjustments(lex, exp, &token)?);
-        } else {
-          return Err(error(exp, "+ or -", Some(lex.span().clone())));
         }
+        Some(Ok(_)) => return Err(error(exp, "+ or -", Some(lex.span().clone()))),
+        Some(Err(_)) => return Err(error(exp, "no more tokens", Some(lex.span().clone()))),
+        None => {}
       }
     } else {
       return Err(error(exp, "one of now, today, yesterday, tomorrow, +, -, next or last", Some(lex.span().clone())));
@@ -230,11 +233,10 @@ fn adjustments(lex: &mut Lexer<DateExpressionToken>, exp: &str, token: &DateExpr
   let mut results = vec![];
 
   results.push(adjustment(lex, exp, token)?);
-  while let Some(Ok(token)) = lex.next() {
-    if token.is_op() {
-      results.push(adjustment(lex, exp, &token)?);
-    } else {
-      break
+  while let Some(token) = lex.next() {
+    match token {
+      Ok(token) if token.is_op() => results.push(adjustment(lex, exp, &token)?),
+      _ => return Err(error(exp, "+ or -", Some(lex.span().clone())))
     }
   }
 
diff --git a/rust/pact_models/src/generators/time_expression_parser.rs b/rust/pact_models/src/generators/time_expression_parser.rs
index c6d4ecd..3ceecaa 100644
--- a/rust/pact_models/src/generators/time_expression_parser.rs
+++ b/rust/pact_models/src/generators/time_expression_parser.rs
@@ -103,13 +103,14 @@ pub(crate) fn expression(lex: &mut Lexer<TimeExpressionToken>, exp: &str) -> any
     if token.is_base() {
       let (tb, next) = base(lex, exp, token)?;
       time_base = tb;
-      if let Some(Ok(token)) = next.map(|next| Ok(next)).or_else(|| lex.next()) {
-        if token.is_op() {
+      match next.map(|next| Ok(next)).or_else(|| lex.next()) {
+        Some(Ok(token)) if token.is_op() => {
           let a = adjustments(lex, exp, token)?;
           adj.extend_from_slice(&*a);
-        } else {
-          return Err(error(exp, "+ or -", Some(lex.span().clone())));
         }
+        Some(Ok(_)) => return Err(error(exp, "+ or -", Some(lex.span().clone()))),
+        Some(Err(_)) => return Err(error(exp, "no more tokens", Some(lex.span().clone()))),
+        None => {}
       }
     } else if token.is_op() {
       let a = adjustments(lex, exp, token)?;
@@ -121,13 +122,14 @@ pub(crate) fn expression(lex: &mut Lexer<TimeExpressionToken>, exp: &str) -> any
         value: 1,
         operation: Operation::PLUS
       });
-      if let Some(Ok(token)) = lex.next() {
-        if token.is_op() {
+      match lex.next() {
+        Some(Ok(token)) if token.is_op() => {
           let a = adjustments(lex, exp, token)?;
           adj.extend_from_slice(&*a);
-        } else {
-          return Err(error(exp, "+ or -", Some(lex.span().clone())));
         }
+        Some(Ok(_)) => return Err(error(exp, "+ or -", Some(lex.span().clone()))),
+        Some(Err(_)) => return Err(error(exp, "no more tokens", Some(lex.span().clone()))),
+        None => {}
       }
     } else if token == TimeExpressionToken::Last {
       let t = offset(lex, exp)?;
@@ -136,13 +138,14 @@ pub(crate) fn expression(lex: &mut Lexer<TimeExpressionToken>, exp: &str) -> any
         value: 1,
         operation: Operation::MINUS
       });
-      if let Some(Ok(token)) = lex.next() {
-        if token.is_op() {
+      match lex.next() {
+        Some(Ok(token)) if token.is_op() => {
           let a = adjustments(lex, exp, token)?;
           adj.extend_from_slice(&*a);
-        } else {
-          return Err(error(exp, "+ or -", Some(lex.span().clone())));
         }
+        Some(Ok(_)) => return Err(error(exp, "+ or -", Some(lex.span().clone()))),
+        Some(Err(_)) => return Err(error(exp, "no more tokens", Some(lex.span().clone()))),
+        None => {}
       }
     } else {
       return Err(error(exp, "one of now, midnight, noon, 1-12 o'clock, +, -, next or last", Some(lex.span().clone())));
@@ -227,20 +230,11 @@ fn adjustments(
 ) -> anyhow::Result<Vec<Adjustment<TimeOffsetType>>> {
   let mut results = vec![];
 
-  let mut token = token.clone();
-  loop {
-    if token.is_op() {
-      let adj = adjustment(lex, exp, token)?;
-      results.push(adj);
-    } else {
-      break
-    }
-
-    if let Some(Ok(t)) = lex.next() {
-      // loop
-      token = t.clone();
-    } else {
-      break
+  results.push(adjustment(lex, exp, token)?);
+  while let Some(token) = lex.next() {
+    match token {
+      Ok(token) if token.is_op() => results.push(adjustment(lex, exp, token)?),
+      _ => return Err(error(exp, "+ or -", Some(lex.span().clone())))
     }
   }
 
-- 
2.43.0


From 8ca4dcf8637ac340d363921c706ea252ee902c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:49 +0000
Subject: [PATCH 015/139] fix: date-time expression arithmetic panics, wraps or
 keeps the wrong day when out of range

---
 .../src/generators/datetime_expressions.rs    | 156 +++++++-----------
 1 file changed, 61 insertions(+), 95 deletions(-)

diff --git a/rust/pact_models/src/generators/datetime_expressions.rs b/rust/pact_models/src/generators/datetime_expressions.rs
index 488de8e..193824b 100644
--- a/rust/pact_models/src/generators/datetime_expressions.rs
+++ b/rust/pact_models/src/generators/datetime_expressions.rs
@@ -62,7 +62,7 @@ use std::str::from_utf8;
 use anyhow::anyhow;
 use ariadne::{Config, Label, Report, ReportKind, Source};
 use bytes::{BytesMut, BufMut};
-use chrono::Duration;
+use chrono::{Duration, Months};
 use chrono::prelude::*;
 use logos::{Logos, Span};
 
@@ -195,28 +195,16 @@ pub fn execute_time_expression<Tz: TimeZone>(dt: &DateTime<Tz>, expression: &str
 
     let mut date_time = base_time.clone();
     for adjustment in &result.adjustments {
-      date_time = match adjustment.operation {
-        Operation::PLUS => match adjustment.adjustment_type {
-          TimeOffsetType::HOUR => date_time.add(Duration::try_hours(adjustment.value as i64)
-            .ok_or_else(|| anyhow!("Adjustment value {} overflows the bounds", adjustment.value))?),
-          TimeOffsetType::MINUTE => date_time.add(Duration::try_minutes(adjustment.value as i64)
-            .ok_or_else(|| anyhow!("Adjustment value {} overflows the bounds", adjustment.value))?),
-          TimeOffsetType::SECOND => date_time.add(Duration::try_seconds(adjustment.value as i64)
-            .ok_or_else(|| anyhow!("Adjustment value {} overflows the bounds", adjustment.value))?),
-          TimeOffsetType::MILLISECOND => date_time.add(Duration::try_milliseconds(adjustment.value as i64)
-            .ok_or_else(|| anyhow!("Adjustment value {} overflows the bounds", adjustment.value))?)
-        },
-        Operation::MINUS => match adjustment.adjustment_type {
-          TimeOffsetType::HOUR => date_time.sub(Duration::try_hours(adjustment.value as i64)
-            .ok_or_else(|| anyhow!("Adjustment value {} overflows the bounds", adjustment.value))?),
-          TimeOffsetType::MINUTE => date_time.sub(Duration::try_minutes(adjustment.value as i64)
-            .ok_or_else(|| anyhow!("Adjustment value {} overflows the bounds", adjustment.value))?),
-          TimeOffsetType::SECOND => date_time.sub(Duration::try_seconds(adjustment.value as i64)
-            .ok_or_else(|| anyhow!("Adjustment value {} overflows the bounds", adjustment.value))?),
-          TimeOffsetType::MILLISECOND => date_time.sub(Duration::try_milliseconds(adjustment.value as i64)
-            .ok_or_else(|| anyhow!("Adjustment value {} overflows the bounds", adjustment.value))?)
-        }
-      }
+      let duration = i64::try_from(adjustment.value).ok().and_then(|value| match adjustment.adjustment_type {
+        TimeOffsetType::HOUR => Duration::try_hours(value),
+        TimeOffsetType::MINUTE => Duration::try_minutes(value),
+        TimeOffsetType::SECOND => Duration::try_seconds(value),
+        TimeOffsetType::MILLISECOND => Duration::try_milliseconds(value)
+      });
+      date_time = duration.and_then(|duration| match adjustment.operation {
+        Operation::PLUS => date_time.checked_add_signed(duration),
+        Operation::MINUS => date_time.checked_sub_signed(duration)
+      }).ok_or_else(|| overflow(adjustment.value))?;
     }
 
     Ok(date_time)
@@ -246,18 +234,17 @@ pub fn execute_datetime_expression<Tz: TimeZone>(dt: &DateTime<Tz>, expression:
   }
 }
 
+fn overflow(value: u64) -> anyhow::Error {
+  anyhow!("Adjustment value {} overflows the bounds", value)
+}
+
 fn forward_date_by<Tz: TimeZone>(adjustment: &Adjustment<DateOffsetType>, date: &DateTime<Tz>) -> anyhow::Result<DateTime<Tz>> {
-  Ok(match adjustment.adjustment_type {
-    DateOffsetType::DAY => date.clone().add(Duration::try_days(adjustment.value as i64)
-      .ok_or_else(|| anyhow!("Adjustment value {} overflows the bounds", adjustment.value))?),
-    DateOffsetType::WEEK => date.clone().add(Duration::try_weeks(adjustment.value as i64)
-      .ok_or_else(|| anyhow!("Adjustment value {} overflows the bounds", adjustment.value))?),
-    DateOffsetType::MONTH => roll_month(date, adjustment.value as i64),
-    DateOffsetType::YEAR => {
-      let date = date.clone();
-      let year = date.year();
-      date.with_year(year + adjustment.value as i32).unwrap_or(date)
-    },
+  let value = i64::try_from(adjustment.value).map_err(|_| overflow(adjustment.value))?;
+  match adjustment.adjustment_type {
+    DateOffsetType::DAY => Duration::try_days(value).and_then(|d| date.clone().checked_add_signed(d)),
+    DateOffsetType::WEEK => Duration::try_weeks(value).and_then(|d| date.clone().checked_add_signed(d)),
+    DateOffsetType::MONTH => try_roll_month(date, value),
+    DateOffsetType::YEAR => value.checked_mul(12).and_then(|months| try_roll_month(date, months)),
     DateOffsetType::MONDAY => adjust_date_up_to(date, |d| d.weekday() == Weekday::Mon),
     DateOffsetType::TUESDAY => adjust_date_up_to(date, |d| d.weekday() == Weekday::Tue),
     DateOffsetType::WEDNESDAY => adjust_date_up_to(date, |d| d.weekday() == Weekday::Wed),
@@ -277,91 +264,70 @@ fn forward_date_by<Tz: TimeZone>(adjustment: &Adjustment<DateOffsetType>, date:
     DateOffsetType::OCT => adjust_date_up_to(date, |d| d.month() == 10),
     DateOffsetType::NOV => adjust_date_up_to(date, |d| d.month() == 11),
     DateOffsetType::DEC => adjust_date_up_to(date, |d| d.month() == 12)
-  })
+  }.ok_or_else(|| overflow(adjustment.value))
 }
 
 /// Rolls the date forward one day at a time until the predicate is true
 fn adjust_date_up_to<Tz: TimeZone>(
   date: &DateTime<Tz>,
   predicate: fn(&DateTime<Tz>) -> bool
-) -> DateTime<Tz> {
+) -> Option<DateTime<Tz>> {
   let mut date = date.clone();
   let one_day_duration = Duration::try_days(1).unwrap(); // OK to unwrap, 1 will never overflow
 
   while predicate(&date) {
-    date = date.add(one_day_duration);
+    date = date.checked_add_signed(one_day_duration)?;
   }
 
   while !predicate(&date) {
-    date = date.add(one_day_duration);
+    date = date.checked_add_signed(one_day_duration)?;
   }
 
-  date
+  Some(date)
 }
 
 /// Rolls the date backwards one day at a time until the predicate is true
 fn adjust_date_down_to<Tz: TimeZone>(
   date: &DateTime<Tz>,
   predicate: fn(&DateTime<Tz>) -> bool
-) -> DateTime<Tz> {
+) -> Option<DateTime<Tz>> {
   let mut date = date.clone();
   let one_day_duration = Duration::try_days(1).unwrap(); // OK to unwrap, 1 will never overflow;
 
   while predicate(&date) {
-    date = date.sub(one_day_duration);
+    date = date.checked_sub_signed(one_day_duration)?;
   }
 
   while !predicate(&date) {
-    date = date.sub(one_day_duration);
+    date = date.checked_sub_signed(one_day_duration)?;
   }
 
-  date
+  Some(date)
 }
 
-/// Rolls the month by the adjustment one day at a time
-fn roll_month<Tz: TimeZone>(date: &DateTime<Tz>, months: i64) -> DateTime<Tz> {
-  let mut date = date.clone();
-  let day = date.day();
-  let one_day_duration = Duration::try_days(1).unwrap(); // OK to unwrap, 1 will never overflow
-  let mut month_count = 0;
-
-  if months > 0 {
-    let mut month = date.month();
-    while month_count < months {
-      date = date.add(one_day_duration);
-      if date.month() != month {
-        month = date.month();
-        month_count += 1;
-      }
-    }
-    date.with_day(day).unwrap_or(date)
-  } else if months < 0 {
-    let mut month = date.month();
-    while month_count > months {
-      date = date.sub(one_day_duration);
-      if date.month() != month {
-        month = date.month();
-        month_count -= 1;
-      }
-    }
-    date.with_day(day).unwrap_or(date)
+/// Rolls the month by the adjustment, keeping the day unless the resulting month is too short.
+/// Returns None if the resulting date is out of bounds.
+fn try_roll_month<Tz: TimeZone>(date: &DateTime<Tz>, months: i64) -> Option<DateTime<Tz>> {
+  let count = Months::new(u32::try_from(months.unsigned_abs()).ok()?);
+  if months < 0 {
+    date.clone().checked_sub_months(count)
   } else {
-    date
+    date.clone().checked_add_months(count)
   }
 }
 
+#[cfg(test)]
+fn roll_month<Tz: TimeZone>(date: &DateTime<Tz>, months: i64) -> DateTime<Tz> {
+  try_roll_month(date, months).unwrap()
+}
+
 fn reverse_date_by<Tz: TimeZone>(adjustment: &Adjustment<DateOffsetType>, date: &DateTime<Tz>) -> anyhow::Result<DateTime<Tz>> {
-  Ok(match adjustment.adjustment_type {
-    DateOffsetType::DAY => date.clone().sub(Duration::try_days(adjustment.value as i64)
-      .ok_or_else(|| anyhow!("Adjustment value {} overflows the bounds", adjustment.value))?),
-    DateOffsetType::WEEK => date.clone().sub(Duration::try_weeks(adjustment.value as i64)
-      .ok_or_else(|| anyhow!("Adjustment value {} overflows the bounds", adjustment.value))?),
-    DateOffsetType::MONTH => roll_month(date, -(adjustment.value as i64)),
-    DateOffsetType::YEAR => {
-      let date = date.clone();
-      let year = date.year();
-      date.with_year(year - adjustment.value as i32).unwrap_or(date)
-    },
+  let value = i64::try_from(adjustment.value).map_err(|_| overflow(adjustment.value))?;
+  match adjustment.adjustment_type {
+    DateOffsetType::DAY => Duration::try_days(value).and_then(|d| date.clone().checked_sub_signed(d)),
+    DateOffsetType::WEEK => Duration::try_weeks(value).and_then(|d| date.clone().checked_sub_signed(d)),
+    DateOffsetType::MONTH => try_roll_month(date, -value),
+    DateOffsetType::YEAR => value.checked_mul(12).and_then(|months| try_roll_month(date, -months)),
     DateOffsetType::MONDAY => adjust_date_down_to(date, |d| d.weekday() == Weekday::Mon),
     DateOffsetType::TUESDAY => adjust_date_down_to(date, |d| d.weekday() == Weekday::Tue),
     DateOffsetType::WEDNESDAY => adjust_date_down_to(date, |d| d.weekday() == Weekday::Wed),
@@ -369,19 +335,19 @@ fn reverse_date_by<Tz: TimeZone>(adjustment: &Adjustment<DateOffsetType>, date:
     DateOffsetType::FRIDAY => adjust_date_down_to(date, |d| d.weekday() == Weekday::Fri),
     DateOffsetType::SATURDAY => adjust_date_down_to(date, |d| d.weekday() == Weekday::Sat),
     DateOffsetType::SUNDAY => adjust_date_down_to(date, |d| d.weekday() == Weekday::Sun),
-    DateOffsetType::JAN => adjust_date_down_to(date, |d| d.month() == 1).with_day(1).unwrap_or_else(|| date.clone()),
-    DateOffsetType::FEB => adjust_date_down_to(date, |d| d.month() == 2).with_day(1).unwrap_or_else(|| date.clone()),
-    DateOffsetType::MAR => adjust_date_down_to(date, |d| d.month() == 3).with_day(1).unwrap_or_else(|| date.clone()),
-    DateOffsetType::APR => adjust_date_down_to(date, |d| d.month() == 4).with_day(1).unwrap_or_else(|| date.clone()),
-    DateOffsetType::MAY => adjust_date_down_to(date, |d| d.month() == 5).with_day(1).unwrap_or_else(|| date.clone()),
-    DateOffsetType::JUNE => adjust_date_down_to(date, |d| d.month() == 6).with_day(1).unwrap_or_else(|| date.clone()),
-    DateOffsetType::JULY => adjust_date_down_to(date, |d| d.month() == 7).with_day(1).unwrap_or_else(|| date.clone()),
-    DateOffsetType::AUG => adjust_date_down_to(date, |d| d.month() == 8).with_day(1).unwrap_or_else(|| date.clone()),
-    DateOffsetType::SEP => adjust_date_down_to(date, |d| d.month() == 9).with_day(1).unwrap_or_else(|| date.clone()),
-    DateOffsetType::OCT => adjust_date_down_to(date, |d| d.month() == 10).with_day(1).unwrap_or_else(|| date.clone()),
-    DateOffsetType::NOV => adjust_date_down_to(date, |d| d.month() == 11).with_day(1).unwrap_or_else(|| date.clone()),
-    DateOffsetType::DEC => adjust_date_down_to(date, |d| d.month() == 12).with_day(1).unwrap_or_else(|| date.clone())
-  })
+    DateOffsetType::JAN => adjust_date_down_to(date, |d| d.month() == 1).and_then(|d| d.with_day(1)),
+    DateOffsetType::FEB => adjust_date_down_to(date, |d| d.month() == 2).and_then(|d| d.with_day(1)),
+    DateOffsetType::MAR => adjust_date_down_to(date, |d| d.month() == 3).and_then(|d| d.with_day(1)),
+    DateOffsetType::APR => adjust_date_down_to(date, |d| d.month() == 4).and_then(|d| d.with_day(1)),
+    DateOffsetType::MAY => adjust_date_down_to(date, |d| d.month() == 5).and_then(|d| d.with_day(1)),
+    DateOffsetType::JUNE => adjust_date_down_to(date, |d| d.month() == 6).and_then(|d| d.with_day(1)),
+    DateOffsetType::JULY => adjust_date_down_to(date, |d| d.month() == 7).and_then(|d| d.with_day(1)),
+    DateOffsetType::AUG => adjust_date_down_to(date, |d| d.month() == 8).and_then(|d| d.with_day(1)),
+    DateOffsetType::SEP => adjust_date_down_to(date, |d| d.month() == 9).and_then(|d| d.with_day(1)),
+    DateOffsetType::OCT => adjust_date_down_to(date, |d| d.month() == 10).and_then(|d| d.with_day(1)),
+    DateOffsetType::NOV => adjust_date_down_to(date, |d| d.month() == 11).and_then(|d| d.with_day(1)),
+    DateOffsetType::DEC => adjust_date_down_to(date, |d| d.month() == 12).and_then(|d| d.with_day(1))
+  }.ok_or_else(|| overflow(adjustment.value))
 }
 
 fn base_date<Tz: TimeZone>(result: &ParsedDateExpression, base: &DateTime<Tz>) -> DateTime<Tz> {
-- 
2.43.0


From 29f60d025e75fb62f36e11a0ca81ad6b5eef0ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:58 +0000
Subject: [PATCH 016/139] fix: date-time validation rejects valid values,
 accepts malformed ones and panics on large numbers

---
 rust/pact_models/src/time_utils.rs | 66 +++++++++++++++++-------------
 1 file changed, 37 insertions(+), 29 deletions(-)

diff --git a/rust/pact_models/src/time_utils.rs b/rust/pact_models/src/time_utils.rs
index e5578e9..9561706 100644
--- a/rust/pact_models/src/time_utils.rs
+++ b/rust/pact_models/src/time_utils.rs
@@ -42,14 +42,14 @@ use chrono::Local;
 use gregorian::Month;
 use itertools::Itertools;
 use nom::branch::alt;
-use nom::bytes::complete::{is_a, is_not, tag, tag_no_case, take_while_m_n};
-use nom::character::complete::{alphanumeric1, char, digit1};
+use nom::bytes::complete::{is_a, is_not, tag, tag_no_case, take_while1, take_while_m_n};
+use nom::character::complete::{char, digit1, one_of};
 use nom::combinator::{opt, value};
 use nom::Err::{Error, Failure};
 use nom::error::{ErrorKind, ParseError};
 use nom::IResult;
 use nom::multi::many1;
-use nom::sequence::{delimited, preceded, separated_pair, terminated, tuple};
+use nom::sequence::{delimited, preceded, terminated, tuple};
 use tracing::{debug, error, trace, warn};
 
 use crate::timezone_db::*;
@@ -420,7 +420,9 @@ fn ampm(s: &str) -> IResult<&str, String, DateTimeError<&str>> {
 }
 
 fn year(s: &str, count: usize) -> IResult<&str, String, DateTimeError<&str>> {
-  take_while_m_n(1, count, is_digit)(s)
+  // Only a two letter year is abbreviated, all the others are the full year
+  let max = if count == 2 { 2 } else { count.max(4) };
+  take_while_m_n(1, max, is_digit)(s)
     .map(|(remaining, result)| (remaining, result.into()))
 }
 
@@ -574,16 +576,21 @@ fn second(s: &str) -> IResult<&str, String, DateTimeError<&str>> {
 }
 
 fn second_fraction(s: &str, count: usize) -> IResult<&str, String, DateTimeError<&str>> {
-  take_while_m_n(1, count, is_digit)(s).and_then(|(remaining, result)|{
-    match validate_number(result, "fraction of a second".into(), 0, usize::pow(10, count as u32) - 1) {
-      Ok(_) => Ok((remaining, result.into())),
-      Err(_err) => Err(Error(DateTimeError::InvalidSecondFraction(result.to_string())))
+  take_while_m_n(1, count, is_digit)(s)
+    .map(|(remaining, result)| (remaining, result.into()))
+}
+
+fn bounded_number(s: &str, max: u64) -> IResult<&str, String, DateTimeError<&str>> {
+  digit1(s).and_then(|(remaining, result): (&str, &str)| {
+    match result.parse::<u64>() {
+      Ok(value) if value <= max => Ok((remaining, result.into())),
+      _ => Err(Error(DateTimeError::InvalidSecondFraction(result.to_string())))
     }
   })
 }
 
 fn timezone_hour_min(s: &str) -> IResult<&str, &str, DateTimeError<&str>> {
-  tuple((is_a("+-"), hour_12_0, tag(":"), minute))(s)
+  tuple((one_of("+-"), hour_24_0, tag(":"), minute))(s)
     .map(|(remaining, _result)| {
       (remaining, "")
     })
@@ -591,23 +598,23 @@ fn timezone_hour_min(s: &str) -> IResult<&str, &str, DateTimeError<&str>> {
 
 fn timezone_long_offset(s: &str, d: usize) -> IResult<&str, String, DateTimeError<&str>> {
   match d {
-    1 => preceded(is_a("+-"), tuple((hour_12_0, opt(minute))))(s)
+    1 => preceded(one_of("+-"), tuple((hour_24_0, opt(minute))))(s)
         .map(|(remaining, result)| {
           (remaining, result.0 + &result.1.unwrap_or_else(|| "".to_string()))
         }),
-    2 => preceded(is_a("+-"), tuple((hour_12_0, minute)))(s)
+    2 => preceded(one_of("+-"), tuple((hour_24_0, minute)))(s)
         .map(|(remaining, result)| {
           (remaining, result.0 + &result.1)
         }),
-    3 => preceded(is_a("+-"), tuple((hour_12_0, tag(":"), minute)))(s)
+    3 => preceded(one_of("+-"), tuple((hour_24_0, tag(":"), minute)))(s)
         .map(|(remaining, result)| {
           (remaining, result.0 + result.1 + &result.2)
         }),
-    4 => preceded(is_a("+-"), tuple((hour_12_0, minute, opt(second))))(s)
+    4 => preceded(one_of("+-"), tuple((hour_24_0, minute, opt(second))))(s)
         .map(|(remaining, result)| {
           (remaining, result.0 + &result.1 + &result.2.unwrap_or_else(|| "".to_string()))
         }),
-    _ => preceded(is_a("+-"), tuple((hour_12_0, tag(":"), minute, opt(tuple((tag(":"), second))))))(s)
+    _ => preceded(one_of("+-"), tuple((hour_24_0, tag(":"), minute, opt(tuple((tag(":"), second))))))(s)
         .map(|(remaining, result)| {
           let seconds = match &result.3 {
             Some((c, s)) => c.to_string() + s,
@@ -640,19 +647,18 @@ fn timezone(s: &str, d: usize) -> IResult<&str, String, DateTimeError<&str>> {
 }
 
 fn timezone_id(s: &str) -> IResult<&str, String, DateTimeError<&str>> {
-  separated_pair(alphanumeric1, char('/'), alphanumeric1)(s).and_then(|(remaining, result)| {
-    let tz = format!("{}/{}", result.0, result.1);
-    if ZONES.contains(tz.as_str()) {
-      Ok((remaining, tz))
+  take_while1(|ch: char| ch.is_ascii_alphanumeric() || "/_+-".contains(ch))(s).and_then(|(remaining, tz): (&str, &str)| {
+    if ZONES.contains(tz) {
+      Ok((remaining, tz.to_string()))
     } else {
-      Err(Error(DateTimeError::InvalidTimezone(tz)))
+      Err(Error(DateTimeError::InvalidTimezone(tz.to_string())))
     }
   })
 }
 
 fn timezone_offset(s: &str, d: usize) -> IResult<&str, String, DateTimeError<&str>> {
   match d {
-    1..=3 => preceded(is_a("+-"), tuple((hour_12_0, minute)))(s)
+    1..=3 => preceded(one_of("+-"), tuple((hour_24_0, minute)))(s)
         .map(|(remaining, result)| {
           (remaining, result.0 + &result.1)
         }),
@@ -673,7 +679,7 @@ fn timezone_offset(s: &str, d: usize) -> IResult<&str, String, DateTimeError<&st
 
 fn timezone_offset_gmt(s: &str, d: usize) -> IResult<&str, String, DateTimeError<&str>> {
   match d {
-    1..=3 => preceded(alt((tag("GMT"), tag("UTC"))), tuple((is_a("+-"), hour_12_0, opt(preceded(tag(":"), minute)))))(s)
+    1..=3 => preceded(alt((tag("GMT"), tag("UTC"))), tuple((one_of("+-"), hour_24_0, opt(preceded(tag(":"), minute)))))(s)
         .map(|(remaining, result)| {
           let minute = match result.2 {
             Some(result) => result,
@@ -681,7 +687,7 @@ fn timezone_offset_gmt(s: &str, d: usize) -> IResult<&str, String, DateTimeError
           };
           (remaining, result.1 + &minute)
         }),
-    _ => preceded(alt((tag("GMT"), tag("UTC"))), tuple((is_a("+-"), hour_12_0, tag(":"), minute)))(s)
+    _ => preceded(alt((tag("GMT"), tag("UTC"))), tuple((one_of("+-"), hour_24_0, tag(":"), minute)))(s)
         .map(|(remaining, result)| {
           (remaining, result.1 + result.2 + &result.3)
         })
@@ -799,7 +805,7 @@ fn validate_datetime_string(value: &str, pattern_tokens: &[DateTimePatternToken]
       DateTimePatternToken::Minute => minute(buffer),
       DateTimePatternToken::Second => second(buffer),
       DateTimePatternToken::Millisecond(size) => second_fraction(buffer, *size),
-      DateTimePatternToken::Nanosecond(_size) => digit1(buffer).map(|(remaining, result)| (remaining, result.into())),
+      DateTimePatternToken::Nanosecond(_size) => bounded_number(buffer, 999_999_999),
       DateTimePatternToken::TimezoneName(size) => timezone(buffer, *size),
       DateTimePatternToken::TimezoneId(_size) => timezone_id(buffer),
       DateTimePatternToken::TimezoneOffset(size) => timezone_offset(buffer, *size),
@@ -809,8 +815,8 @@ fn validate_datetime_string(value: &str, pattern_tokens: &[DateTimePatternToken]
       DateTimePatternToken::AmPm => ampm(buffer),
       DateTimePatternToken::QuarterOfYear(count) => quarter(buffer, *count),
       DateTimePatternToken::QuarterOfYearNum(count) => quarter_num(buffer, *count),
-      DateTimePatternToken::MillisecondOfDay => digit1(buffer).map(|(remaining, result)| (remaining, result.into())),
-      DateTimePatternToken::NanosecondOfDay => digit1(buffer).map(|(remaining, result)| (remaining, result.into())),
+      DateTimePatternToken::MillisecondOfDay => bounded_number(buffer, 86_399_999),
+      DateTimePatternToken::NanosecondOfDay => bounded_number(buffer, 86_399_999_999_999),
     }.map_err(|err| format!("{:?}", err))?;
 
     matched_values.push((token.clone(), result.1));
@@ -834,7 +840,7 @@ fn validate_matched_values(matched_values: &Vec<(DateTimePatternToken, String)>)
     });
   let month = matched_values.iter()
     .find(|(token, _)| match token {
-      DateTimePatternToken::Month(_) => true,
+      DateTimePatternToken::Month(_) | DateTimePatternToken::MonthNum(_) => true,
       _ => false
     });
   let year = matched_values.iter()
@@ -846,10 +852,12 @@ fn validate_matched_values(matched_values: &Vec<(DateTimePatternToken, String)>)
     // should be safe to unwrap here, as the value should have already been validated
     let day = day.parse::<u8>().unwrap();
     if let Some((_, year)) = year {
-      let year = year.parse::<i16>().unwrap();
+      // Leap years repeat every 400 years, so only the last digits matter
+      let digits = &year[year.len().saturating_sub(8)..];
+      let leap_year = 2000 + digits.parse::<u32>().unwrap_or_default() % 400;
       if let Some((_, month_str)) = month {
         // should be safe to unwrap here, as the value should have already been validated
-        let month = month_value(month_str).unwrap().with_year(year);
+        let month = month_value(month_str).unwrap().with_year(leap_year as i16);
         if day > month.total_days() {
           Err(format!("'{}' is not a valid day for month '{}' in year {}", day, month_str, year))
         } else {
@@ -861,7 +869,7 @@ fn validate_matched_values(matched_values: &Vec<(DateTimePatternToken, String)>)
       }
     } else if let Some((_, month_str)) = month {
       // should be safe to unwrap here, as the value should have already been validated
-      let month = month_value(month_str).unwrap().with_year(2001);
+      let month = month_value(month_str).unwrap().with_year(2000);
       if day > month.total_days() {
         Err(format!("'{}' is not a valid day for month '{}'", day, month_str))
       } else {
-- 
2.43.0


From fdde62c45b70aa443856fdb7a3038ec507400d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:05 +0000
Subject: [PATCH 017/139] fix: generated dates and times do not match their
 format pattern, or panic, for several pattern letters

---
 rust/pact_models/src/generators/mod.rs | 20 +++------
 rust/pact_models/src/time_utils.rs     | 62 ++++++++++++++++++++++++--
 2 files changed, 65 insertions(+), 17 deletions(-)

diff --git a/rust/pact_models/src/generators/mod.rs b/rust/pact_models/src/generators/mod.rs
index b8ead56..5e360f0 100644
--- a/rust/pact_models/src/generators/mod.rs
+++ b/rust/pact_models/src/generators/mod.rs
@@ -28,7 +28,7 @@ use crate::json_utils::{get_field_as_string, json_to_string, JsonToNum, resolve_
 use crate::matchingrules::{Category, MatchingRuleCategory};
 use crate::PactSpecification;
 use crate::path_exp::DocPath;
-#[cfg(feature = "datetime")] use crate::time_utils::{parse_pattern, to_chrono_pattern};
+#[cfg(feature = "datetime")] use crate::time_utils::{format_datetime, parse_pattern};
 
 #[cfg(feature = "datetime")] pub mod datetime_expressions;
 #[cfg(feature = "datetime")] mod date_expression_parser;
@@ -920,10 +920,7 @@ impl GenerateValue<String> for Generator {
           let date = execute_date_expression(&base, _exp.clone().unwrap_or_default().as_str())?;
           match _format {
             Some(pattern) => match parse_pattern(pattern) {
-              Ok(tokens) => {
-                #[allow(deprecated)]
-                Ok(date.date().format(&to_chrono_pattern(&tokens)).to_string())
-              },
+              Ok(tokens) => Ok(format_datetime(&date, &tokens)),
               Err(err) => {
                 warn!("Date format {} is not valid - {}", pattern, err);
                 Err(anyhow!("Date format {} is not valid - {}", pattern, err))
@@ -947,7 +944,7 @@ impl GenerateValue<String> for Generator {
           let time = execute_time_expression(&base, _exp.clone().unwrap_or_default().as_str())?;
           match _format {
             Some(pattern) => match parse_pattern(pattern) {
-              Ok(tokens) => Ok(time.format(&to_chrono_pattern(&tokens)).to_string()),
+              Ok(tokens) => Ok(format_datetime(&time, &tokens)),
               Err(err) => {
                 warn!("Time format {} is not valid - {}", pattern, err);
                 Err(anyhow!("Time format {} is not valid - {}", pattern, err))
@@ -971,7 +968,7 @@ impl GenerateValue<String> for Generator {
           let date_time = execute_datetime_expression(&base, _exp.clone().unwrap_or_default().as_str())?;
           match _format {
             Some(pattern) => match parse_pattern(pattern) {
-              Ok(tokens) => Ok(date_time.format(&to_chrono_pattern(&tokens)).to_string()),
+              Ok(tokens) => Ok(format_datetime(&date_time, &tokens)),
               Err(err) => {
                 warn!("DateTime format {} is not valid - {}", pattern, err);
                 Err(anyhow!("DateTime format {} is not valid - {}", pattern, err))
@@ -1097,10 +1094,7 @@ impl GenerateValue<Value> for Generator {
           let date = execute_date_expression(&base, _exp.clone().unwrap_or_default().as_str())?;
           match _format {
             Some(pattern) => match parse_pattern(pattern) {
-              Ok(tokens) => {
-                #[allow(deprecated)]
-                Ok(json!(date.date().format(&to_chrono_pattern(&tokens)).to_string()))
-              },
+              Ok(tokens) => Ok(json!(format_datetime(&date, &tokens))),
               Err(err) => {
                 warn!("Date format {} is not valid - {}", pattern, err);
                 Err(anyhow!("Could not generate a random date from {} - {}", pattern, err))
@@ -1124,7 +1118,7 @@ impl GenerateValue<Value> for Generator {
           let time = execute_time_expression(&base, _exp.clone().unwrap_or_default().as_str())?;
           match _format {
             Some(pattern) => match parse_pattern(pattern) {
-              Ok(tokens) => Ok(json!(time.format(&to_chrono_pattern(&tokens)).to_string())),
+              Ok(tokens) => Ok(json!(format_datetime(&time, &tokens))),
               Err(err) => {
                 warn!("Time format {} is not valid - {}", pattern, err);
                 Err(anyhow!("Could not generate a random time from {} - {}", pattern, err))
@@ -1148,7 +1142,7 @@ impl GenerateValue<Value> for Generator {
           let date_time = execute_datetime_expression(&base, _exp.clone().unwrap_or_default().as_str())?;
           match _format {
             Some(pattern) => match parse_pattern(pattern) {
-              Ok(tokens) => Ok(json!(date_time.format(&to_chrono_pattern(&tokens)).to_string())),
+              Ok(tokens) => Ok(json!(format_datetime(&date_time, &tokens))),
               Err(err) => {
                 warn!("DateTime format {} is not valid - {}", pattern, err);
                 Err(anyhow!("Could not generate a random date-time from {} - {}", pattern, err))
diff --git a/rust/pact_models/src/time_utils.rs b/rust/pact_models/src/time_utils.rs
index 9561706..c7bb9ee 100644
--- a/rust/pact_models/src/time_utils.rs
+++ b/rust/pact_models/src/time_utils.rs
@@ -38,7 +38,7 @@
 use std::fmt::{Display, Formatter};
 
 use anyhow::anyhow;
-use chrono::Local;
+use chrono::{Datelike, DateTime, Local, Offset, Timelike, TimeZone};
 use gregorian::Month;
 use itertools::Itertools;
 use nom::branch::alt;
@@ -936,15 +936,69 @@ pub fn to_chrono_pattern(tokens: &[DateTimePatternToken]) -> String {
   buffer
 }
 
+/// Formats the date-time using the date time pattern tokens. The tokens that can't be expressed with
+/// a chrono formatted string are formatted here.
+pub fn format_datetime<Tz: TimeZone>(date_time: &DateTime<Tz>, tokens: &[DateTimePatternToken]) -> String
+  where Tz::Offset: Display
+{
+  let nanos = date_time.nanosecond() % 1_000_000_000;
+  let offset = date_time.offset().fix().local_minus_utc();
+  let sign = if offset < 0 { '-' } else { '+' };
+  let (hours, minutes, seconds) = (offset.abs() / 3600, offset.abs() / 60 % 60, offset.abs() % 60);
+
+  tokens.iter().map(|token| match token {
+    DateTimePatternToken::Year(d) if *d > 4 => format!("{:0width$}", date_time.year(), width = *d),
+    DateTimePatternToken::WeekInYear => date_time.format("%V").to_string(),
+    DateTimePatternToken::DayOfWeek(3) => date_time.format("%a").to_string(),
+    DateTimePatternToken::DayOfWeek(d) if *d > 3 => date_time.format("%A").to_string(),
+    DateTimePatternToken::Hour24 => format!("{:02}", if date_time.hour() == 0 { 24 } else { date_time.hour() }),
+    DateTimePatternToken::Hour12ZeroBased => format!("{:02}", date_time.hour() % 12),
+    DateTimePatternToken::Millisecond(d) => format!("{:0<width$.width$}", format!("{:09}", nanos), width = *d),
+    DateTimePatternToken::Nanosecond(_) => format!("{:09}", nanos),
+    DateTimePatternToken::MillisecondOfDay =>
+      (date_time.num_seconds_from_midnight() as u64 * 1000 + nanos as u64 / 1_000_000).to_string(),
+    DateTimePatternToken::NanosecondOfDay =>
+      (date_time.num_seconds_from_midnight() as u64 * 1_000_000_000 + nanos as u64).to_string(),
+    DateTimePatternToken::QuarterOfYear(3) => format!("Q{}", date_time.month0() / 3 + 1),
+    DateTimePatternToken::QuarterOfYear(d) if *d > 3 =>
+      ["1st quarter", "2nd quarter", "3rd quarter", "4th quarter"][date_time.month0() as usize / 3].to_string(),
+    DateTimePatternToken::QuarterOfYear(d) | DateTimePatternToken::QuarterOfYearNum(d) =>
+      format!("{:0width$}", date_time.month0() / 3 + 1, width = *d),
+    DateTimePatternToken::TimezoneOffsetXZZero(_) if offset == 0 => "Z".to_string(),
+    DateTimePatternToken::TimezoneOffsetX(d) | DateTimePatternToken::TimezoneOffsetXZZero(d) => match d {
+      1 if minutes == 0 => format!("{}{:02}", sign, hours),
+      1 | 2 => format!("{}{:02}{:02}", sign, hours, minutes),
+      3 => format!("{}{:02}:{:02}", sign, hours, minutes),
+      4 if seconds == 0 => format!("{}{:02}{:02}", sign, hours, minutes),
+      4 => format!("{}{:02}{:02}{:02}", sign, hours, minutes, seconds),
+      _ if seconds == 0 => format!("{}{:02}:{:02}", sign, hours, minutes),
+      _ => format!("{}{:02}:{:02}:{:02}", sign, hours, minutes, seconds)
+    },
+    DateTimePatternToken::TimezoneOffset(4) => if offset == 0 {
+      "GMT".to_string()
+    } else {
+      format!("GMT{}{:02}:{:02}", sign, hours, minutes)
+    },
+    DateTimePatternToken::TimezoneOffset(d) if *d > 4 => format!("{}{:02}:{:02}", sign, hours, minutes),
+    DateTimePatternToken::TimezoneOffset(_) => format!("{}{:02}{:02}", sign, hours, minutes),
+    DateTimePatternToken::TimezoneOffsetGmt(d) => if *d > 3 {
+      format!("GMT{}{:02}:{:02}", sign, hours, minutes)
+    } else if minutes == 0 {
+      format!("GMT{}{}", sign, hours)
+    } else {
+      format!("GMT{}{}:{:02}", sign, hours, minutes)
+    },
+    token => date_time.format(to_chrono_pattern(std::slice::from_ref(token)).as_str()).to_string()
+  }).collect()
+}
+
 /// Generates a date/time string from the current system clock using the provided format string
 pub fn generate_string(format: &str) -> Result<String, String> {
   trace!("generating date/time from '{}'", format);
   match parse_pattern(format) {
     Ok(pattern_tokens) => {
       trace!("parsed date/time patterns: {:?}", pattern_tokens);
-      let chrono_pattern = to_chrono_pattern(&pattern_tokens);
-      trace!("Chrono pattern: {}", chrono_pattern);
-      Ok(Local::now().format(chrono_pattern.as_str()).to_string())
+      Ok(format_datetime(&Local::now(), &pattern_tokens))
     },
     Err(err) => {
       error!("Error parsing '{}': {:?}", format, err);
-- 
2.43.0


From 6261597a35491d29833a352bfc706212c22f04f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:41 +0000
Subject: [PATCH 018/139] fix: random integers never reach i32::MAX, wrap for a
 status and panic when min is more than max

---
 rust/pact_models/src/generators/mod.rs | 27 ++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/rust/pact_models/src/generators/mod.rs b/rust/pact_models/src/generators/mod.rs
index 5e360f0..3943aef 100644
--- a/rust/pact_models/src/generators/mod.rs
+++ b/rust/pact_models/src/generators/mod.rs
@@ -782,6 +782,15 @@ pub fn generate_value_from_context(expression: &str, context: &HashMap<&str, Val
   data_type.clone().unwrap_or(DataType::RAW).wrap(result)
 }
 
+/// Generates a random integer between min and max (both inclusive)
+fn generate_int(min: i32, max: i32) -> anyhow::Result<i32> {
+  if min <= max {
+    Ok(rand::thread_rng().gen_range(min..=max))
+  } else {
+    Err(anyhow!("Can not generate a random integer between {} and {}", min, max))
+  }
+}
+
 const DIGIT_CHARSET: &str = "0123456789";
 pub fn generate_decimal(digits: usize) -> String {
   let mut rnd = rand::thread_rng();
@@ -827,7 +836,10 @@ impl GenerateValue<u16> for Generator {
     _matcher: &Box<dyn VariantMatcher + Send + Sync>
   ) -> anyhow::Result<u16> {
     match self {
-      &Generator::RandomInt(min, max) => Ok(rand::thread_rng().gen_range(min as u16..(max as u16).saturating_add(1))),
+      &Generator::RandomInt(min, max) => {
+        // Only the part of the range that fits into a u16 can be generated
+        generate_int(min.max(u16::MIN as i32), max.min(u16::MAX as i32)).map(|val| val as u16)
+      },
       &Generator::ProviderStateGenerator(ref exp, ref dt) => {
         // Provider state values may come under a "providerState" key
         let provider_state_config = if let Some(Object(psc)) = context.get("providerState") {
@@ -882,7 +894,7 @@ impl GenerateValue<String> for Generator {
   ) -> anyhow::Result<String> {
     let mut rnd = rand::thread_rng();
     let result = match self {
-      Generator::RandomInt(min, max) => Ok(format!("{}", rnd.gen_range(*min..max.saturating_add(1)))),
+      Generator::RandomInt(min, max) => generate_int(*min, *max).map(|val| val.to_string()),
       Generator::Uuid(format) => match format.unwrap_or_default() {
         UuidFormat::Simple => Ok(Uuid::new_v4().as_simple().to_string()),
         UuidFormat::LowerCaseHyphenated => Ok(Uuid::new_v4().as_hyphenated().to_string()),
@@ -1040,12 +1052,11 @@ impl GenerateValue<Value> for Generator {
     debug!(context = ?context, "Generating value from {:?}", self);
     let result = match self {
       Generator::RandomInt(min, max) => {
-        let rand_int = rand::thread_rng().gen_range(*min..max.saturating_add(1));
-        match value {
-          Value::String(_) => Ok(json!(format!("{}", rand_int))),
-          Value::Number(_) => Ok(json!(rand_int)),
-          _ => Ok(json!(rand_int))
-        }
+        generate_int(*min, *max).map(|rand_int| match value {
+          Value::String(_) => json!(format!("{}", rand_int)),
+          Value::Number(_) => json!(rand_int),
+          _ => json!(rand_int)
+        })
       },
       Generator::Uuid(format) => match value {
         Value::String(_) => match format.unwrap_or_default() {
-- 
2.43.0


From 79ff61448df1a975af08d040f8c53a373fbda565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:41 +0000
Subject: [PATCH 019/139] fix: random hexadecimal values never repeat a digit
 and stop at 16 digits

---
 rust/pact_models/src/generators/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rust/pact_models/src/generators/mod.rs b/rust/pact_models/src/generators/mod.rs
index 3943aef..8a9f27a 100644
--- a/rust/pact_models/src/generators/mod.rs
+++ b/rust/pact_models/src/generators/mod.rs
@@ -825,7 +825,8 @@ pub fn generate_decimal(digits: usize) -> String {
 const HEX_CHARSET: &str = "0123456789ABCDEF";
 pub fn generate_hexadecimal(digits: usize) -> String {
   let mut rnd = rand::thread_rng();
-  HEX_CHARSET.chars().choose_multiple(&mut rnd, digits).iter().join("")
+  let chars: Vec<char> = HEX_CHARSET.chars().collect();
+  (0..digits).map(|_| chars[rnd.gen_range(0..chars.len())]).collect()
 }
 
 impl GenerateValue<u16> for Generator {
-- 
2.43.0


From 2a8dcf1c8120333f76436f487993f68127db837d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:41 +0000
Subject: [PATCH 020/139] fix: regex generator fails with only one anchor and
 takes an escaped dollar for one

---
 rust/pact_models/src/generators/mod.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/rust/pact_models/src/generators/mod.rs b/rust/pact_models/src/generators/mod.rs
index 8a9f27a..c16f1e7 100644
--- a/rust/pact_models/src/generators/mod.rs
+++ b/rust/pact_models/src/generators/mod.rs
@@ -866,9 +866,12 @@ pub fn generate_ascii_string(size: usize) -> String {
 }
 
 fn strip_anchors(regex: &str) -> &str {
-  regex
-    .strip_prefix('^').unwrap_or(regex)
-    .strip_suffix('$').unwrap_or(regex)
+  let regex = regex.strip_prefix('^').unwrap_or(regex);
+  match regex.strip_suffix('$') {
+    // An odd number of backslashes means the dollar is escaped and not an anchor
+    Some(stripped) if stripped.chars().rev().take_while(|ch| *ch == '\\').count() % 2 == 0 => stripped,
+    _ => regex
+  }
 }
 
 #[cfg(not(target_family = "wasm"))]
-- 
2.43.0


From d99a8c9ba1014d6269a7f43c0ea5323877db1de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:41 +0000
Subject: [PATCH 021/139] fix: mock server URL generator panics without a
 capture group and ignores href for text values

---
 rust/pact_models/src/generators/mod.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rust/pact_models/src/generators/mod.rs b/rust/pact_models/src/generators/mod.rs
index c16f1e7..df82600 100644
--- a/rust/pact_models/src/generators/mod.rs
+++ b/rust/pact_models/src/generators/mod.rs
@@ -877,15 +877,14 @@ fn strip_anchors(regex: &str) -> &str {
 #[cfg(not(target_family = "wasm"))]
 fn replace_with_regex(example: &String, url: String, re: Regex) -> String {
   re.replace(example, |caps: &Captures| {
-    format!("{}{}", url, caps.at(1).unwrap())
+    format!("{}{}", url, caps.at(1).unwrap_or_default())
   }).to_string()
 }
 
 #[cfg(target_family = "wasm")]
 fn replace_with_regex(example: &String, url: String, re: Regex) -> String {
   re.replace(example, |caps: &Captures| {
-    let m = caps.get(1).unwrap();
-    format!("{}{}", url, m.as_str())
+    format!("{}{}", url, caps.get(1).map(|m| m.as_str()).unwrap_or_default())
   }).to_string()
 }
 
@@ -1015,7 +1014,8 @@ impl GenerateValue<String> for Generator {
         debug!("Generating URL from Mock Server details");
         match mock_server_details.as_object() {
           Some(mock_server_details) => {
-            match get_field_as_string("url", mock_server_details) {
+            match get_field_as_string("url", mock_server_details)
+              .or_else(|| get_field_as_string("href", mock_server_details)) {
               Some(url) => match Regex::new(regex) {
                 Ok(re) => Ok(replace_with_regex(example, url, re)),
                 Err(err) => Err(anyhow!("MockServerURL: Failed to generate value: {}", err))
-- 
2.43.0


From b7f57420b8ecda47086b7f2ea7f452103c4cd1da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:41 +0000
Subject: [PATCH 022/139] fix: generators drop all but one of the values of a
 query parameter or header

---
 rust/pact_models/src/generators/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rust/pact_models/src/generators/mod.rs b/rust/pact_models/src/generators/mod.rs
index df82600..be1b9a8 100644
--- a/rust/pact_models/src/generators/mod.rs
+++ b/rust/pact_models/src/generators/mod.rs
@@ -1042,7 +1042,11 @@ impl GenerateValue<Vec<String>> for Generator {
     context: &HashMap<&str, Value>,
     matcher: &Box<dyn VariantMatcher + Send + Sync>
   ) -> anyhow::Result<Vec<String>> {
-    self.generate_value(&vals.first().cloned().unwrap_or_default(), context, matcher).map(|v| vec![v])
+    if vals.is_empty() {
+      self.generate_value(&String::default(), context, matcher).map(|v| vec![v])
+    } else {
+      vals.iter().map(|val| self.generate_value(val, context, matcher)).collect()
+    }
   }
 }
 
-- 
2.43.0


From ac25a8b225c002e0804b239f7b60eb0fa4e6ad6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:41 +0000
Subject: [PATCH 023/139] fix: UUID generator ignores its format when the
 target is not a string

---
 rust/pact_models/src/generators/mod.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/rust/pact_models/src/generators/mod.rs b/rust/pact_models/src/generators/mod.rs
index be1b9a8..e242f86 100644
--- a/rust/pact_models/src/generators/mod.rs
+++ b/rust/pact_models/src/generators/mod.rs
@@ -1066,14 +1066,11 @@ impl GenerateValue<Value> for Generator {
           _ => json!(rand_int)
         })
       },
-      Generator::Uuid(format) => match value {
-        Value::String(_) => match format.unwrap_or_default() {
-          UuidFormat::Simple => Ok(json!(Uuid::new_v4().as_simple().to_string())),
-          UuidFormat::LowerCaseHyphenated => Ok(json!(Uuid::new_v4().as_hyphenated().to_string())),
-          UuidFormat::UpperCaseHyphenated => Ok(json!(Uuid::new_v4().as_hyphenated().to_string().to_uppercase())),
-          UuidFormat::Urn => Ok(json!(Uuid::new_v4().as_urn().to_string()))
-        },
-        _ => Ok(json!(Uuid::new_v4().as_hyphenated().to_string()))
+      Generator::Uuid(format) => match format.unwrap_or_default() {
+        UuidFormat::Simple => Ok(json!(Uuid::new_v4().as_simple().to_string())),
+        UuidFormat::LowerCaseHyphenated => Ok(json!(Uuid::new_v4().as_hyphenated().to_string())),
+        UuidFormat::UpperCaseHyphenated => Ok(json!(Uuid::new_v4().as_hyphenated().to_string().to_uppercase())),
+        UuidFormat::Urn => Ok(json!(Uuid::new_v4().as_urn().to_string()))
       },
       Generator::RandomDecimal(digits) => match value {
         Value::String(_) => Ok(json!(generate_decimal(*digits as usize))),
-- 
2.43.0


From 5d48f840d50db1d379901bc9e03260c739fee10a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:41 +0000
Subject: [PATCH 024/139] fix: a random decimal with too many digits becomes
 null

---
 rust/pact_models/src/generators/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rust/pact_models/src/generators/mod.rs b/rust/pact_models/src/generators/mod.rs
index e242f86..062d577 100644
--- a/rust/pact_models/src/generators/mod.rs
+++ b/rust/pact_models/src/generators/mod.rs
@@ -1075,7 +1075,8 @@ impl GenerateValue<Value> for Generator {
       Generator::RandomDecimal(digits) => match value {
         Value::String(_) => Ok(json!(generate_decimal(*digits as usize))),
         Value::Number(_) => match generate_decimal(*digits as usize).parse::<f64>() {
-          Ok(val) => Ok(json!(val)),
+          Ok(val) if val.is_finite() => Ok(json!(val)),
+          Ok(val) => Err(anyhow!("Could not generate a random decimal from {} - {} is not a valid number", value, val)),
           Err(err) => Err(anyhow!("Could not generate a random decimal from {} - {}", value, err))
         },
         _ => Ok(json!(generate_decimal(*digits as usize)))
-- 
2.43.0


From aaeb65ee5d6b590e1b0c50bcfd4fb6cae518fce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:09 +0000
Subject: [PATCH 025/139] fix: form generators only apply to the first of
 several values

---
 rust/pact_models/src/generators/form_urlencoded.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/rust/pact_models/src/generators/form_urlencoded.rs b/rust/pact_models/src/generators/form_urlencoded.rs
index 09ae0f2..2a498d9 100644
--- a/rust/pact_models/src/generators/form_urlencoded.rs
+++ b/rust/pact_models/src/generators/form_urlencoded.rs
@@ -6,7 +6,7 @@ use tracing::debug;
 use anyhow::{anyhow, Result};
 
 use crate::generators::{ContentTypeHandler, Generator, GeneratorTestMode, VariantMatcher, GenerateValue};
-use crate::path_exp::DocPath;
+use crate::path_exp::{DocPath, PathToken};
 use crate::bodies::OptionalBody;
 
 pub type QueryParams = Vec<(String, String)>;
@@ -48,8 +48,14 @@ impl ContentTypeHandler<String> for FormUrlEncodedHandler {
     let mut map: HashMap<String, usize> = HashMap::new();
     for (param_key, param_value) in self.params.iter_mut() {
       let index = map.entry(param_key.clone()).or_insert(0);
-      if key.eq(&DocPath::root().join(param_key.clone())) || key.eq(&DocPath::root().join(param_key.clone()).join_index(*index)) {
-        return match generator.generate_value(&param_value, context, matcher) {
+      let matches = match key.tokens().as_slice() {
+        [PathToken::Root, PathToken::Field(name)] => name == param_key,
+        [PathToken::Root, PathToken::Field(name), PathToken::StarIndex] => name == param_key,
+        [PathToken::Root, PathToken::Field(name), PathToken::Index(i)] => name == param_key && i == index,
+        _ => false
+      };
+      if matches {
+        match generator.generate_value(&param_value, context, matcher) {
           Ok(new_value) => *param_value = new_value,
           Err(_) => ()
         }
-- 
2.43.0


From 514a4341024d1baf94ca4f9fdbe53e1042573b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:09 +0000
Subject: [PATCH 026/139] fix: JSON generators replace the wrong values for
 missing indexes, wildcards and keys with a slash or tilde

---
 rust/pact_models/src/generators/mod.rs |   2 +-
 rust/pact_models/src/json_utils.rs     | 104 +++++++------------------
 2 files changed, 28 insertions(+), 78 deletions(-)

diff --git a/rust/pact_models/src/generators/mod.rs b/rust/pact_models/src/generators/mod.rs
index 062d577..72fbbb3 100644
--- a/rust/pact_models/src/generators/mod.rs
+++ b/rust/pact_models/src/generators/mod.rs
@@ -1274,7 +1274,7 @@ impl ContentTypeHandler<Value> for JsonHandler {
           None => ()
         }
       }
-    } else if key.len() == 1 {
+    } else if key.is_root() {
       match generator.generate_value(&self.value.clone(), context, matcher) {
         Ok(new_value) => self.value = new_value,
         Err(_) => ()
diff --git a/rust/pact_models/src/json_utils.rs b/rust/pact_models/src/json_utils.rs
index 53f2d12..a214a69 100644
--- a/rust/pact_models/src/json_utils.rs
+++ b/rust/pact_models/src/json_utils.rs
@@ -2,12 +2,10 @@
 
 use std::collections::{BTreeMap, HashMap};
 use std::hash::{Hash, Hasher};
-use std::ops::Index;
 use std::str::FromStr;
 
 use base64::Engine;
 use base64::engine::general_purpose::STANDARD as BASE64;
-use indextree::{Arena, NodeId};
 use itertools::Itertools;
 use serde::Deserialize;
 use serde_json::{self, json, Map, Value};
@@ -234,83 +232,35 @@ pub fn is_empty(value: &Value) -> bool {
 /// Resolve the path expression against the JSON value, returning a list of JSON pointer values
 /// that match.
 pub fn resolve_path(value: &Value, expression: &DocPath) -> Vec<String> {
-  let mut tree = Arena::new();
-  let root = tree.new_node("".into());
-  query_object_graph(expression.tokens(), &mut tree, root, value.clone());
-  let expanded_paths = root.descendants(&tree).fold(Vec::<String>::new(), |mut acc, node_id| {
-    let node = tree.index(node_id);
-    if !node.get().is_empty() && node.first_child().is_none() {
-      let path: Vec<String> = node_id.ancestors(&tree).map(|n| format!("{}", tree.index(n).get())).collect();
-      if path.len() == expression.len() {
-        acc.push(path.iter().rev().join("/"));
-      }
-    }
-    acc
-  });
-  expanded_paths
+  if expression.len() < 2 {
+    return vec![];
+  }
+
+  expression.tokens().iter().fold(vec![(String::default(), value)], |nodes, token| {
+    nodes.into_iter().flat_map(|(pointer, node)| match (token, node) {
+      (PathToken::Root, _) => vec![(pointer, node)],
+      (PathToken::Field(name), Value::Object(map)) => map.get(name)
+        .map(|val| (child_pointer(&pointer, name), val))
+        .into_iter()
+        .collect(),
+      (PathToken::Index(index), Value::Array(list)) => list.get(*index)
+        .map(|val| (child_pointer(&pointer, &index.to_string()), val))
+        .into_iter()
+        .collect(),
+      (PathToken::Star, Value::Object(map)) => map.iter()
+        .map(|(key, val)| (child_pointer(&pointer, key), val))
+        .collect(),
+      (PathToken::StarIndex, Value::Array(list)) => list.iter().enumerate()
+        .map(|(index, val)| (child_pointer(&pointer, &index.to_string()), val))
+        .collect(),
+      _ => vec![]
+    }).collect()
+  }).into_iter().map(|(pointer, _)| pointer).collect()
 }
 
-fn query_object_graph(path_exp: &Vec<PathToken>, tree: &mut Arena<String>, root: NodeId, body: Value) {
-  let mut body_cursor = body;
-  let mut it = path_exp.iter();
-  let mut node_cursor = root;
-  loop {
-    match it.next() {
-      Some(token) => {
-        match token {
-          PathToken::Field(name) => {
-            match body_cursor.as_object() {
-              Some(map) => match map.get(name) {
-                Some(val) => {
-                  node_cursor = node_cursor.append_value(name.clone(), tree);
-                  body_cursor = val.clone();
-                },
-                None => return
-              },
-              None => return
-            }
-          },
-          PathToken::Index(index) => {
-            match body_cursor.clone().as_array() {
-              Some(list) => if list.len() > *index {
-                node_cursor = node_cursor.append_value(format!("{}", index), tree);
-                body_cursor = list[*index].clone();
-              },
-              None => return
-            }
-          }
-          PathToken::Star => {
-            match body_cursor.clone().as_object() {
-              Some(map) => {
-                let remaining = it.by_ref().cloned().collect();
-                for (key, val) in map {
-                  let node = node_cursor.append_value(key.clone(), tree);
-                  body_cursor = val.clone();
-                  query_object_graph(&remaining, tree, node, val.clone());
-                }
-              },
-              None => return
-            }
-          },
-          PathToken::StarIndex => {
-            match body_cursor.clone().as_array() {
-              Some(list) => {
-                let remaining = it.by_ref().cloned().collect();
-                for (index, val) in list.iter().enumerate() {
-                  let node = node_cursor.append_value(format!("{}", index), tree);
-                  body_cursor = val.clone();
-                  query_object_graph(&remaining, tree, node,val.clone());
-                }
-              },
-              None => return
-            }
-          },
-          _ => ()
-        }
-      },
-      None => break
-    }
-  }
+/// Appends the key to the JSON pointer, escaping it as required by RFC 6901
+fn child_pointer(pointer: &str, key: &str) -> String {
+  format!("{}/{}", pointer, key.replace('~', "~0").replace('/', "~1"))
 }
 
 #[cfg(test)]
-- 
2.43.0


From 085665a7e3d5ca66eaaa4d0f97fba42eaa144d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:55 +0000
Subject: [PATCH 027/139] fix: report anything left over after a matching
 definition, even at its end

---
 rust/pact_models/src/matchingrules/expressions.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rust/pact_models/src/matchingrules/expressions.rs b/rust/pact_models/src/matchingrules/expressions.rs
index f6de6eb..9d80681 100644
--- a/rust/pact_models/src/matchingrules/expressions.rs
+++ b/rust/pact_models/src/matchingrules/expressions.rs
@@ -353,8 +353,8 @@ pub fn is_matcher_def(v: &str) -> bool {
 //     ;
 fn matching_definition(lex: &mut Lexer<MatcherDefinitionToken>, v: &str) -> anyhow::Result<MatchingRuleDefinition> {
   let mut value = matching_definition_exp(lex, v)?;
-  while let Some(Ok(next)) = lex.next() {
-    if next == MatcherDefinitionToken::Comma {
+  while let Some(next) = lex.next() {
+    if let Ok(MatcherDefinitionToken::Comma) = next {
       value = value.merge(&matching_definition_exp(lex, v)?);
     } else {
       return Err(anyhow!("expected comma, got '{}'", lex.slice()));
-- 
2.43.0


From aff5a0c90005b8b48a5eed98906d80aeabcb9ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:55 +0000
Subject: [PATCH 028/139] fix: recognise atLeast and atMost as matching
 definitions

---
 rust/pact_models/src/matchingrules/expressions.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rust/pact_models/src/matchingrules/expressions.rs b/rust/pact_models/src/matchingrules/expressions.rs
index 9d80681..f329b30 100644
--- a/rust/pact_models/src/matchingrules/expressions.rs
+++ b/rust/pact_models/src/matchingrules/expressions.rs
@@ -337,7 +337,8 @@ pub fn is_matcher_def(v: &str) -> bool {
     let next = lex.next();
     if let Some(Ok(token)) = next {
       if token == MatcherDefinitionToken::Matching || token == MatcherDefinitionToken::NotEmpty ||
-        token == MatcherDefinitionToken::EachKey || token == MatcherDefinitionToken::EachValue {
+        token == MatcherDefinitionToken::EachKey || token == MatcherDefinitionToken::EachValue ||
+        token == MatcherDefinitionToken::AtLeast || token == MatcherDefinitionToken::AtMost {
         true
       } else {
         false
-- 
2.43.0


From e65429639ca4e5e595ed83fb5e81495702510d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:55 +0000
Subject: [PATCH 029/139] fix: use the decimal matcher for a decimal matching
 definition from a provider state

---
 rust/pact_models/src/matchingrules/expressions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/pact_models/src/matchingrules/expressions.rs b/rust/pact_models/src/matchingrules/expressions.rs
index f329b30..67de12f 100644
--- a/rust/pact_models/src/matchingrules/expressions.rs
+++ b/rust/pact_models/src/matchingrules/expressions.rs
@@ -898,7 +898,7 @@ fn parse_decimal(lex: &mut Lexer<MatcherDefinitionToken>, v: &str) -> anyhow::Re
   } else if let Ok(MatcherDefinitionToken::Id) = next {
     if lex.slice() == "fromProviderState" {
       let (value, value_type, generator) = from_provider_state(lex, v)?;
-      Ok((value, value_type, Some(MatchingRule::Number), generator, None))
+      Ok((value, value_type, Some(MatchingRule::Decimal), generator, None))
     } else {
       Err(anyhow!(error_message(lex, v, "Expected a decimal number", "Expected a decimal number here")?))
     }
-- 
2.43.0


From 39f14f8e29ff27997d426a68802fa57aba53ad88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:55 +0000
Subject: [PATCH 030/139] fix: reject a sign in a unicode escape of a matching
 definition

---
 rust/pact_models/src/matchingrules/expressions.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rust/pact_models/src/matchingrules/expressions.rs b/rust/pact_models/src/matchingrules/expressions.rs
index 67de12f..f4e4f9b 100644
--- a/rust/pact_models/src/matchingrules/expressions.rs
+++ b/rust/pact_models/src/matchingrules/expressions.rs
@@ -975,7 +975,9 @@ fn process_raw_string(raw_str: &str, span: Span, v: &str) -> anyhow::Result<Stri
                 let code4 = char_or_error(chars.next(), &span, v)?;
                 b.push(code4);
               }
-              let code = match u32::from_str_radix(b.as_str(), 16) {
+              // from_str_radix allows a leading sign, which is not a hex digit
+              let digits = if b.starts_with('+') { "" } else { b.as_str() };
+              let code = match u32::from_str_radix(digits, 16) {
                 Ok(c) => c,
                 Err(err) => return string_error(&err, &span, v)
               };
-- 
2.43.0


From 93c3595bfe3b408cdcea375ccc7764e8205edc73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:55 +0000
Subject: [PATCH 031/139] fix: only accept the exact name fromProviderState in
 date and time matching definitions

---
 .../src/matchingrules/expressions.rs            | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/rust/pact_models/src/matchingrules/expressions.rs b/rust/pact_models/src/matchingrules/expressions.rs
index f4e4f9b..29b2205 100644
--- a/rust/pact_models/src/matchingrules/expressions.rs
+++ b/rust/pact_models/src/matchingrules/expressions.rs
@@ -253,7 +253,7 @@ impl MatchingRuleDefinition {
   }
 }
 
-#[derive(Logos, Debug, PartialEq)]
+#[derive(Logos, Clone, Debug, PartialEq)]
 #[logos(skip r"[ \t\n\f]+")]
 enum MatcherDefinitionToken {
   #[token("matching")]
@@ -718,8 +718,7 @@ fn parse_datetime(lex: &mut Lexer<MatcherDefinitionToken>, v: &str) -> anyhow::R
   let format = parse_string(lex, v)?;
   parse_comma(lex, v)?;
 
-  let remainder = lex.remainder().trim_start();
-  let (value, value_type, generator) = if remainder.starts_with("fromProviderState") {
+  let (value, value_type, generator) = if next_is_from_provider_state(lex) {
     lex.next();
     from_provider_state(lex, v)?
   } else {
@@ -735,8 +734,7 @@ fn parse_date(lex: &mut Lexer<MatcherDefinitionToken>, v: &str) -> anyhow::Resul
   let format = parse_string(lex, v)?;
   parse_comma(lex, v)?;
 
-  let remainder = lex.remainder().trim_start();
-  let (value, value_type, generator) = if remainder.starts_with("fromProviderState") {
+  let (value, value_type, generator) = if next_is_from_provider_state(lex) {
     lex.next();
     from_provider_state(lex, v)?
   } else {
@@ -752,8 +750,7 @@ fn parse_time(lex: &mut Lexer<MatcherDefinitionToken>, v: &str) -> anyhow::Resul
   let format = parse_string(lex, v)?;
   parse_comma(lex, v)?;
 
-  let remainder = lex.remainder().trim_start();
-  let (value, value_type, generator) = if remainder.starts_with("fromProviderState") {
+  let (value, value_type, generator) = if next_is_from_provider_state(lex) {
     lex.next();
     from_provider_state(lex, v)?
   } else {
@@ -1091,6 +1088,12 @@ fn from_provider_state(lex: &mut Lexer<MatcherDefinitionToken>, v: &str) -> anyh
     if let Ok(MatcherDefinitionToken::RightBracket) = next {
       Ok((value, val_type, Some(ProviderStateGenerator(expression, Some(val_type.into())))))
     } else {
+// If the next token is 'fromProviderState', does not consume the token
+fn next_is_from_provider_state(lex: &Lexer<MatcherDefinitionToken>) -> bool {
+  let mut lookahead = lex.clone();
+  matches!(lookahead.next(), Some(Ok(MatcherDefinitionToken::Id))) && lookahead.slice() == "fromProviderState"
+}
+
       Err(anyhow!(error_message(lex, v, "Expected a closing bracket", "Expected a closing bracket before this")?))
     }
   } else {
-- 
2.43.0


From 849dacfc6b732f40749be6f5f13fb6ee5e6daeed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:55 +0000
Subject: [PATCH 032/139] fix: process escapes in primitive strings of matching
 definitions, and remove exactly the quotes around a string

---
 rust/pact_models/src/matchingrules/expressions.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/rust/pact_models/src/matchingrules/expressions.rs b/rust/pact_models/src/matchingrules/expressions.rs
index 29b2205..f51bf3a 100644
--- a/rust/pact_models/src/matchingrules/expressions.rs
+++ b/rust/pact_models/src/matchingrules/expressions.rs
@@ -283,7 +283,7 @@ enum MatcherDefinitionToken {
   #[token(",")]
   Comma,
 
-  #[regex(r"'(?:[^']|\\')*'")]
+  #[regex(r"'(?:[^'\\]|\\(?s:.))*'")]
   String,
 
   #[regex("[a-zA-Z]+")]
@@ -795,7 +795,7 @@ fn parse_primitive_value(
 ) -> anyhow::Result<(String, ValueType, Option<Generator>)> {
   let next = lex.next().ok_or_else(|| end_of_expression(v, "expected a primitive value"))?;
   match next {
-    Ok(MatcherDefinitionToken::String) => Ok((lex.slice().trim_matches('\'').to_string(), ValueType::String, None)),
+    Ok(MatcherDefinitionToken::String) => Ok((string_contents(lex, v)?, ValueType::String, None)),
     Ok(MatcherDefinitionToken::Null) => Ok((String::new(), ValueType::String, None)),
     Ok(MatcherDefinitionToken::Int(_)) => {
       // Logos is returning an INT token when a Decimal should match. We need to now parse the
@@ -918,9 +918,7 @@ fn parse_boolean(lex: &mut Lexer<MatcherDefinitionToken>, v: &str) -> anyhow::Re
 fn parse_string(lex: &mut Lexer<MatcherDefinitionToken>, v: &str) -> anyhow::Result<String> {
   let next = lex.next().ok_or_else(|| end_of_expression(v, "a string"))?;
   if let Ok(MatcherDefinitionToken::String) = next {
-    let span = lex.span();
-    let raw_str = lex.slice().trim_matches('\'');
-    process_raw_string(raw_str, span, v)
+    string_contents(lex, v)
   } else {
     let mut buffer = BytesMut::new().writer();
     let span = lex.span();
@@ -939,6 +937,12 @@ fn parse_string(lex: &mut Lexer<MatcherDefinitionToken>, v: &str) -> anyhow::Res
 fn process_raw_string(raw_str: &str, span: Span, v: &str) -> anyhow::Result<String> {
   let mut buffer = String::with_capacity(raw_str.len());
   let mut chars = raw_str.chars();
+// Contents of the current string token, without the quotes and with any escape sequences processed
+fn string_contents(lex: &Lexer<MatcherDefinitionToken>, v: &str) -> anyhow::Result<String> {
+  let slice = lex.slice();
+  process_raw_string(&slice[1..slice.len() - 1], lex.span(), v)
+}
+
   while let Some(ch) = chars.next() {
     if ch == '\\' {
       match chars.next() {
-- 
2.43.0


From e8ef7f72616163615583c318d603a7f74b27fb5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:55 +0000
Subject: [PATCH 033/139] fix: require digits after the decimal point and
 accept numbers of any length in matching definitions

---
 .../src/matchingrules/expressions.rs          | 69 ++++++++++---------
 1 file changed, 38 insertions(+), 31 deletions(-)

diff --git a/rust/pact_models/src/matchingrules/expressions.rs b/rust/pact_models/src/matchingrules/expressions.rs
index f51bf3a..2c05008 100644
--- a/rust/pact_models/src/matchingrules/expressions.rs
+++ b/rust/pact_models/src/matchingrules/expressions.rs
@@ -289,11 +289,11 @@ enum MatcherDefinitionToken {
   #[regex("[a-zA-Z]+")]
   Id,
 
-  #[regex("-[0-9]+", |lex| lex.slice().parse().ok())]
-  Int(i64),
+  #[regex("-[0-9]+")]
+  Int,
 
-  #[regex("[0-9]+", |lex| lex.slice().parse().ok())]
-  Num(usize),
+  #[regex("[0-9]+")]
+  Num,
 
   #[regex(r"-?[0-9]\.[0-9]+")]
   Decimal,
@@ -797,24 +797,20 @@ fn parse_primitive_value(
   match next {
     Ok(MatcherDefinitionToken::String) => Ok((string_contents(lex, v)?, ValueType::String, None)),
     Ok(MatcherDefinitionToken::Null) => Ok((String::new(), ValueType::String, None)),
-    Ok(MatcherDefinitionToken::Int(_)) => {
+    Ok(MatcherDefinitionToken::Int) => {
       // Logos is returning an INT token when a Decimal should match. We need to now parse the
       // remaining pattern if it is a decimal
       if lex.remainder().starts_with('.') {
-        let int_part = lex.slice();
-        let _ = lex.next().ok_or_else(|| end_of_expression(v, "expected a number"))?;
-        Ok((format!("{}{}", int_part, lex.slice()), ValueType::Decimal, None))
+        Ok((parse_decimal_part(lex, v)?, ValueType::Decimal, None))
       } else {
         Ok((lex.slice().to_string(), ValueType::Integer, None))
       }
     },
-    Ok(MatcherDefinitionToken::Num(_)) => {
+    Ok(MatcherDefinitionToken::Num) => {
       // Logos is returning an NUM token when a Decimal should match. We need to now parse the
       // remaining pattern if it is a decimal
       if lex.remainder().starts_with('.') {
-        let int_part = lex.slice();
-        let _ = lex.next().ok_or_else(|| end_of_expression(v, "expected a number"))?;
-        Ok((format!("{}{}", int_part, lex.slice()), ValueType::Decimal, None))
+        Ok((parse_decimal_part(lex, v)?, ValueType::Decimal, None))
       } else {
         Ok((lex.slice().to_string(), ValueType::Integer, None))
       }
@@ -828,6 +824,17 @@ fn parse_primitive_value(
   }
 }
 
+// Parses the remaining part of a decimal literal after the integer part
+fn parse_decimal_part(lex: &mut Lexer<MatcherDefinitionToken>, v: &str) -> anyhow::Result<String> {
+  let int_part = lex.slice();
+  let next = lex.next().ok_or_else(|| end_of_expression(v, "expected a number"))?;
+  if let Ok(MatcherDefinitionToken::DecimalPart) = next {
+    Ok(format!("{}{}", int_part, lex.slice()))
+  } else {
+    Err(anyhow!(error_message(lex, v, "Expected a decimal number", "Expected the digits of a decimal number here")?))
+  }
+}
+
 // COMMA val=( DECIMAL_LITERAL | INTEGER_LITERAL | 'fromProviderState' fromProviderState)
 #[allow(clippy::if_same_then_else)]
 fn parse_number(lex: &mut Lexer<MatcherDefinitionToken>, v: &str) -> anyhow::Result<(String, ValueType, Option<MatchingRule>, Option<Generator>, Option<MatchingReference>)> {
@@ -835,13 +842,11 @@ fn parse_number(lex: &mut Lexer<MatcherDefinitionToken>, v: &str) -> anyhow::Res
   let next = lex.next().ok_or_else(|| end_of_expression(v, "expected a number"))?;
   if let Ok(MatcherDefinitionToken::Decimal) = next {
     Ok((lex.slice().to_string(), ValueType::Number,  Some(MatchingRule::Number), None, None))
-  } else if let Ok(MatcherDefinitionToken::Int(_) | MatcherDefinitionToken::Num(_)) = next {
+  } else if let Ok(MatcherDefinitionToken::Int | MatcherDefinitionToken::Num) = next {
     // Logos is returning an INT token when a Decimal should match. We need to now parse the
     // remaining pattern if it is a decimal
     if lex.remainder().starts_with('.') {
-      let int_part = lex.slice();
-      let _ = lex.next().ok_or_else(|| end_of_expression(v, "expected a number"))?;
-      Ok((format!("{}{}", int_part, lex.slice()), ValueType::Number, Some(MatchingRule::Number), None, None))
+      Ok((parse_decimal_part(lex, v)?, ValueType::Number, Some(MatchingRule::Number), None, None))
     } else {
       Ok((lex.slice().to_string(), ValueType::Number, Some(MatchingRule::Number), None, None))
     }
@@ -861,7 +866,7 @@ fn parse_number(lex: &mut Lexer<MatcherDefinitionToken>, v: &str) -> anyhow::Res
 fn parse_integer(lex: &mut Lexer<MatcherDefinitionToken>, v: &str) -> anyhow::Result<(String, ValueType, Option<MatchingRule>, Option<Generator>, Option<MatchingReference>)> {
   parse_comma(lex, v)?;
   let next = lex.next().ok_or_else(|| end_of_expression(v, "expected an integer"))?;
-  if let Ok(MatcherDefinitionToken::Int(_) | MatcherDefinitionToken::Num(_)) = next {
+  if let Ok(MatcherDefinitionToken::Int | MatcherDefinitionToken::Num) = next {
     Ok((lex.slice().to_string(), ValueType::Integer, Some(MatchingRule::Integer), None, None))
   } else if let Ok(MatcherDefinitionToken::Id) = next {
     if lex.slice() == "fromProviderState" {
@@ -880,13 +885,11 @@ fn parse_integer(lex: &mut Lexer<MatcherDefinitionToken>, v: &str) -> anyhow::Re
 fn parse_decimal(lex: &mut Lexer<MatcherDefinitionToken>, v: &str) -> anyhow::Result<(String, ValueType, Option<MatchingRule>, Option<Generator>, Option<MatchingReference>)> {
   parse_comma(lex, v)?;
   let next = lex.next().ok_or_else(|| end_of_expression(v, "expected a decimal number"))?;
-  if let Ok(MatcherDefinitionToken::Int(_) | MatcherDefinitionToken::Num(_)) = next {
+  if let Ok(MatcherDefinitionToken::Int | MatcherDefinitionToken::Num) = next {
     // Logos is returning an INT token when a Decimal should match. We need to now parse the
     // remaining pattern if it is a decimal
     if lex.remainder().starts_with('.') {
-      let int_part = lex.slice();
-      let _ = lex.next().ok_or_else(|| end_of_expression(v, "expected a number"))?;
-      Ok((format!("{}{}", int_part, lex.slice()), ValueType::Decimal, Some(MatchingRule::Decimal), None, None))
+      Ok((parse_decimal_part(lex, v)?, ValueType::Decimal, Some(MatchingRule::Decimal), None, None))
     } else {
       Ok((lex.slice().to_string(), ValueType::Decimal, Some(MatchingRule::Decimal), None, None))
     }
@@ -934,15 +937,15 @@ fn parse_string(lex: &mut Lexer<MatcherDefinitionToken>, v: &str) -> anyhow::Res
   }
 }
 
-fn process_raw_string(raw_str: &str, span: Span, v: &str) -> anyhow::Result<String> {
-  let mut buffer = String::with_capacity(raw_str.len());
-  let mut chars = raw_str.chars();
 // Contents of the current string token, without the quotes and with any escape sequences processed
 fn string_contents(lex: &Lexer<MatcherDefinitionToken>, v: &str) -> anyhow::Result<String> {
   let slice = lex.slice();
   process_raw_string(&slice[1..slice.len() - 1], lex.span(), v)
 }
 
+fn process_raw_string(raw_str: &str, span: Span, v: &str) -> anyhow::Result<String> {
+  let mut buffer = String::with_capacity(raw_str.len());
+  let mut chars = raw_str.chars();
   while let Some(ch) = chars.next() {
     if ch == '\\' {
       match chars.next() {
@@ -1066,7 +1069,11 @@ fn parse_length_param(lex: &mut Lexer<MatcherDefinitionToken>, v: &str) -> anyho
   let next = lex.next().ok_or_else(|| end_of_expression(v, "an opening bracket"))?;
   if let Ok(MatcherDefinitionToken::LeftBracket) = next {
     let next = lex.next().ok_or_else(|| end_of_expression(v, "an unsized integer"))?;
-    if let Ok(MatcherDefinitionToken::Num(length)) = next {
+    let length = match next {
+      Ok(MatcherDefinitionToken::Num) => lex.slice().parse::<usize>().ok(),
+      _ => None
+    };
+    if let Some(length) = length {
       let next = lex.next().ok_or_else(|| end_of_expression(v, "')'"))?;
       if let Ok(MatcherDefinitionToken::RightBracket) = next {
         Ok(length)
@@ -1081,6 +1088,12 @@ fn parse_length_param(lex: &mut Lexer<MatcherDefinitionToken>, v: &str) -> anyho
   }
 }
 
+// If the next token is 'fromProviderState', does not consume the token
+fn next_is_from_provider_state(lex: &Lexer<MatcherDefinitionToken>) -> bool {
+  let mut lookahead = lex.clone();
+  matches!(lookahead.next(), Some(Ok(MatcherDefinitionToken::Id))) && lookahead.slice() == "fromProviderState"
+}
+
 // '(' exp=STRING_LITERAL COMMA v=primitiveValue ')'
 fn from_provider_state(lex: &mut Lexer<MatcherDefinitionToken>, v: &str) -> anyhow::Result<(String, ValueType, Option<Generator>)> {
   let next = lex.next().ok_or_else(|| end_of_expression(v, "'('"))?;
@@ -1092,12 +1105,6 @@ fn from_provider_state(lex: &mut Lexer<MatcherDefinitionToken>, v: &str) -> anyh
     if let Ok(MatcherDefinitionToken::RightBracket) = next {
       Ok((value, val_type, Some(ProviderStateGenerator(expression, Some(val_type.into())))))
     } else {
-// If the next token is 'fromProviderState', does not consume the token
-fn next_is_from_provider_state(lex: &Lexer<MatcherDefinitionToken>) -> bool {
-  let mut lookahead = lex.clone();
-  matches!(lookahead.next(), Some(Ok(MatcherDefinitionToken::Id))) && lookahead.slice() == "fromProviderState"
-}
-
       Err(anyhow!(error_message(lex, v, "Expected a closing bracket", "Expected a closing bracket before this")?))
     }
   } else {
-- 
2.43.0


From d4d853dc48edb2aaee67323485d94279f5823071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:17 +0000
Subject: [PATCH 034/139] fix: Keep characters outside Latin-1 when decoding a
 query string

---
 rust/pact_models/src/query_strings.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/rust/pact_models/src/query_strings.rs b/rust/pact_models/src/query_strings.rs
index 7df3f94..ebcb6f3 100644
--- a/rust/pact_models/src/query_strings.rs
+++ b/rust/pact_models/src/query_strings.rs
@@ -25,7 +25,7 @@ pub fn decode_query(query: &str) -> Result<String, String> {
           let mut s = String::new();
           s.push(v1);
           s.push(v2);
-          let decoded: Result<Vec<u8>, _> = FromHex::from_hex(s.into_bytes());
+          let decoded: Result<Vec<u8>, _> = FromHex::from_hex(s.as_bytes());
           match decoded {
             Ok(n) => {
               trace!("decoded = '{:?}'", n);
@@ -34,21 +34,20 @@ pub fn decode_query(query: &str) -> Result<String, String> {
             Err(err) => {
               error!("Failed to decode '%{}{}' to as HEX - {}", v1, v2, err);
               buffer.push('%' as u8);
-              buffer.push(v1 as u8);
-              buffer.push(v2 as u8);
+              buffer.extend_from_slice(s.as_bytes());
             }
           }
         },
         (Some(v1), None) => {
           buffer.push('%' as u8);
-          buffer.push(v1 as u8);
+          buffer.extend_from_slice(v1.to_string().as_bytes());
         },
         _ => buffer.push('%' as u8)
       }
     } else if c == '+' {
       buffer.push(' ' as u8);
     } else {
-      buffer.push(c as u8);
+      buffer.extend_from_slice(c.to_string().as_bytes());
     }
 
     ch = chars.next();
-- 
2.43.0


From 82aec503f16eb9988a96bccb35eae4765ee8ea99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:17 +0000
Subject: [PATCH 035/139] fix: Encode characters with an odd number of hex
 digits in a query instead of panicking

---
 rust/pact_models/src/query_strings.rs | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/rust/pact_models/src/query_strings.rs b/rust/pact_models/src/query_strings.rs
index ebcb6f3..b69f4b3 100644
--- a/rust/pact_models/src/query_strings.rs
+++ b/rust/pact_models/src/query_strings.rs
@@ -71,16 +71,11 @@ pub fn encode_query(query: &str) -> String {
       'a'..='z' => ch.to_string(),
       'A'..='Z' => ch.to_string(),
       '0'..='9' => ch.to_string(),
-      _ => ch.escape_unicode()
-        .filter(|u| u.is_digit(16))
-        .batching(|it| {
-          match it.next() {
-            None => None,
-            Some(x) => Some((x, it.next().unwrap()))
-          }
-        })
-        .map(|u| format!("%{}{}", u.0, u.1))
-        .collect()
+      _ => {
+        let hex = format!("{:x}", ch as u32);
+        let hex = if hex.len() % 2 == 1 { format!("0{}", hex) } else { hex };
+        hex.chars().tuples().map(|(a, b)| format!("%{}{}", a, b)).collect()
+      }
     }
   }).collect()
 }
-- 
2.43.0


From cb05d5a94eee589b5128648ad71a76614e1d1ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:17 +0000
Subject: [PATCH 036/139] fix: Encode the parameter names when building a query
 string

---
 rust/pact_models/src/query_strings.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rust/pact_models/src/query_strings.rs b/rust/pact_models/src/query_strings.rs
index b69f4b3..274cc6f 100644
--- a/rust/pact_models/src/query_strings.rs
+++ b/rust/pact_models/src/query_strings.rs
@@ -120,8 +120,8 @@ pub fn build_query_string(query: HashMap<String, Vec<Option<String>>>) -> String
     .flat_map(|kv| {
       kv.1.iter()
         .map(|v| match v {
-          None => kv.0.clone(),
-          Some(s) => format!("{}={}", kv.0, encode_query(s))
+          None => encode_query(&kv.0),
+          Some(s) => format!("{}={}", encode_query(&kv.0), encode_query(s))
         })
         .collect_vec()
     })
-- 
2.43.0


From a0ebbe9a02fc382a8ba6f4a1ffba290054bdb1ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:17 +0000
Subject: [PATCH 037/139] fix: Convert a non-string query list item from the
 item, not from the whole list

---
 rust/pact_models/src/query_strings.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/pact_models/src/query_strings.rs b/rust/pact_models/src/query_strings.rs
index 274cc6f..5f96cde 100644
--- a/rust/pact_models/src/query_strings.rs
+++ b/rust/pact_models/src/query_strings.rs
@@ -153,7 +153,7 @@ pub fn v3_query_from_json(
         Value::Array(array) => array.iter().map(|item| match item {
           Value::String(s) => Some(s.clone()),
           Value::Null => None,
-          _ => Some(v.to_string())
+          _ => Some(item.to_string())
         }).collect(),
         _ => {
           warn!("Query parameter value '{}' is not valid, ignoring", v);
-- 
2.43.0


From d462a5784d19c316defea6bb0c9f93ea0540fae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:18 +0000
Subject: [PATCH 038/139] fix: Read provider states given as names and ignore
 null entries in providerStates

---
 rust/pact_models/src/provider_states.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/rust/pact_models/src/provider_states.rs b/rust/pact_models/src/provider_states.rs
index e218bac..92490b4 100644
--- a/rust/pact_models/src/provider_states.rs
+++ b/rust/pact_models/src/provider_states.rs
@@ -64,7 +64,13 @@ impl ProviderState {
   pub fn from_json(pact_json: &Value) -> Vec<ProviderState> {
     match pact_json.get("providerStates") {
       Some(v) => match *v {
-        Value::Array(ref a) => a.iter().map(|i| ProviderState::from_json_v3(i)).collect(),
+        Value::Array(ref a) => a.iter()
+          .filter(|i| !i.is_null())
+          .map(|i| match i {
+            Value::String(name) => ProviderState::default(name.as_str()),
+            _ => ProviderState::from_json_v3(i)
+          })
+          .collect(),
         _ => vec![]
       },
       None => match pact_json.get("providerState").or_else(|| pact_json.get("provider_state")) {
-- 
2.43.0


From 2784c73ef9b5fd2d627898db234ea90092aa5a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:18 +0000
Subject: [PATCH 039/139] fix: Do not panic on a content-type header without
 values

---
 rust/pact_models/src/json_utils.rs    | 6 +++---
 rust/pact_models/src/v4/http_parts.rs | 8 ++++----
 rust/pact_models/src/v4/mod.rs        | 4 ++--
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/rust/pact_models/src/json_utils.rs b/rust/pact_models/src/json_utils.rs
index a214a69..fcc9201 100644
--- a/rust/pact_models/src/json_utils.rs
+++ b/rust/pact_models/src/json_utils.rs
@@ -148,9 +148,9 @@ enum JsonParsable {
 /// Returns the body from the JSON struct with the provided field name
 pub fn body_from_json(request: &Value, fieldname: &str, headers: &Option<HashMap<String, Vec<String>>>) -> OptionalBody {
   let content_type = match headers {
-    Some(h) => match h.iter().find(|kv| kv.0.to_lowercase() == "content-type") {
-      Some(kv) => {
-        match ContentType::parse(kv.1[0].as_str()) {
+    Some(h) => match h.iter().find(|kv| kv.0.to_lowercase() == "content-type").and_then(|kv| kv.1.first()) {
+      Some(value) => {
+        match ContentType::parse(value.as_str()) {
           Ok(v) => Some(v),
           Err(_) => None
         }
diff --git a/rust/pact_models/src/v4/http_parts.rs b/rust/pact_models/src/v4/http_parts.rs
index 0630fcd..15b8731 100644
--- a/rust/pact_models/src/v4/http_parts.rs
+++ b/rust/pact_models/src/v4/http_parts.rs
@@ -396,12 +396,12 @@ fn content_type_from_json(headers: &Option<HashMap<String, Vec<String>>>, body_a
     None => {
       debug!("Body has no content type set, will default to any headers or metadata");
       match headers {
-        Some(h) => match h.iter().find(|kv| kv.0.to_lowercase() == "content-type") {
-          Some((_, v)) => {
-            match ContentType::parse(v[0].as_str()) {
+        Some(h) => match h.iter().find(|kv| kv.0.to_lowercase() == "content-type").and_then(|kv| kv.1.first()) {
+          Some(value) => {
+            match ContentType::parse(value.as_str()) {
               Ok(v) => Some(v),
               Err(err) => {
-                warn!("Failed to parse body content type '{}' - {}", v[0], err);
+                warn!("Failed to parse body content type '{}' - {}", value, err);
                 None
               }
             }
diff --git a/rust/pact_models/src/v4/mod.rs b/rust/pact_models/src/v4/mod.rs
index 2ecd476..72bbdab 100644
--- a/rust/pact_models/src/v4/mod.rs
+++ b/rust/pact_models/src/v4/mod.rs
@@ -64,8 +64,8 @@ impl FromStr for V4InteractionType {
 pub fn calc_content_type(body: &OptionalBody, headers: &Option<HashMap<String, Vec<String>>>) -> Option<ContentType> {
   body.content_type()
     .or_else(|| headers.as_ref().map(|h| {
-      match h.iter().find(|kv| kv.0.to_lowercase() == "content-type") {
-        Some((_, v)) => ContentType::parse(v[0].as_str()).ok(),
+      match h.iter().find(|kv| kv.0.to_lowercase() == "content-type").and_then(|kv| kv.1.first()) {
+        Some(value) => ContentType::parse(value.as_str()).ok(),
         None => None
       }
     }).flatten())
-- 
2.43.0


From 762386011c5769b5ba3686ca3d7c94e5213708e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:18 +0000
Subject: [PATCH 040/139] fix: Replace an existing header in add_header
 ignoring the case of its name

---
 rust/pact_models/src/http_parts.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rust/pact_models/src/http_parts.rs b/rust/pact_models/src/http_parts.rs
index 275d82a..6ac46b4 100644
--- a/rust/pact_models/src/http_parts.rs
+++ b/rust/pact_models/src/http_parts.rs
@@ -95,10 +95,12 @@ pub trait HttpPart {
     str_body.map(|b| !b.is_empty() && b.is_ascii()).unwrap_or(false)
   }
 
-  /// Convenience method to add a header
+  /// Convenience method to add a header. This will replace any existing header value, ignoring case.
   fn add_header(&mut self, key: &str, val: Vec<&str>) {
     let headers = self.headers_mut();
-    headers.insert(key.to_string(), val.iter().map(|v| v.to_string()).collect());
+    let key = headers.keys().find(|k| k.to_lowercase() == key.to_lowercase()).cloned()
+      .unwrap_or_else(|| key.to_string());
+    headers.insert(key, val.iter().map(|v| v.to_string()).collect());
   }
 
   /// Builds a map of generators from the generators and matching rules
-- 
2.43.0


From c8f0d7a57c5509eecd0c766d8c8875598304e76e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:18 +0000
Subject: [PATCH 041/139] fix: Look up message content types that are plain
 metadata strings

---
 rust/pact_models/src/message.rs          | 2 +-
 rust/pact_models/src/v4/message_parts.rs | 7 +++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/rust/pact_models/src/message.rs b/rust/pact_models/src/message.rs
index 77daa56..61cd822 100644
--- a/rust/pact_models/src/message.rs
+++ b/rust/pact_models/src/message.rs
@@ -350,7 +350,7 @@ impl HttpPart for Message {
     self.metadata.iter().find(|(k, _)| {
       let key = k.to_ascii_lowercase();
       key == "contenttype" || key == "content-type"
-    }).map(|(_, v)| json_to_string(&v[0]))
+    }).map(|(_, v)| json_to_string(v))
   }
 
   fn add_header(&mut self, key: &str, val: Vec<&str>) {
diff --git a/rust/pact_models/src/v4/message_parts.rs b/rust/pact_models/src/v4/message_parts.rs
index 8e9ef9b..6b02b3f 100644
--- a/rust/pact_models/src/v4/message_parts.rs
+++ b/rust/pact_models/src/v4/message_parts.rs
@@ -170,12 +170,15 @@ impl HttpPart for MessageContents {
     self.metadata.iter().find(|(k, _)| {
       let key = k.to_ascii_lowercase();
       key == "contenttype" || key == "content-type"
-    }).map(|(_, v)| json_to_string(&v[0]))
+    }).map(|(_, v)| json_to_string(v))
   }
 }
 
 pub(crate) fn metadata_to_headers(metadata: &HashMap<String, Value>) -> Option<HashMap<String, Vec<String>>> {
-  metadata.get("contentType").map(|content_type| {
+  metadata.iter().find(|(k, _)| {
+    let key = k.to_ascii_lowercase();
+    key == "contenttype" || key == "content-type"
+  }).map(|(_, content_type)| {
     hashmap! {
       "Content-Type".to_string() => vec![ json_to_string(content_type) ]
     }
-- 
2.43.0


From da04267aac5db35cda0a7f24a7423dc76297c65f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:23 +0000
Subject: [PATCH 042/139] fix: V4 JSON bodies with the empty string or null are
 written so that they can be read back

---
 rust/pact_models/src/bodies.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rust/pact_models/src/bodies.rs b/rust/pact_models/src/bodies.rs
index 60e0628..68f94f4 100644
--- a/rust/pact_models/src/bodies.rs
+++ b/rust/pact_models/src/bodies.rs
@@ -143,7 +143,10 @@ impl OptionalBody {
         let content_type = content_type.as_ref().cloned().unwrap_or_default();
         let content_type_override = ct_override.unwrap_or_default();
         let (contents, encoded) = if content_type.is_json() {
-          match serde_json::from_slice(bytes) {
+          match serde_json::from_slice::<Value>(bytes) {
+            // These would be read back as an empty or null body, so write the encoded JSON instead
+            Ok(json_body) if json_body.is_null() || json_body.as_str() == Some("") =>
+              (Value::String(json_body.to_string()), Value::String("JSON".to_string())),
             Ok(json_body) => (json_body, Value::Bool(false)),
             Err(err) => {
               warn!("Failed to parse json body: {}", err);
-- 
2.43.0


From 85e36774331abf6dbfb3f39f91f8c14380dd482e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:23 +0000
Subject: [PATCH 043/139] fix: Display each byte of a body with two hexadecimal
 digits

---
 rust/pact_models/src/bodies.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rust/pact_models/src/bodies.rs b/rust/pact_models/src/bodies.rs
index 68f94f4..6e34c6b 100644
--- a/rust/pact_models/src/bodies.rs
+++ b/rust/pact_models/src/bodies.rs
@@ -192,13 +192,13 @@ impl OptionalBody {
   pub(crate) fn display_bytes(&self, max_bytes: usize) -> String {
     if let OptionalBody::Present(bytes, _, _) = self {
       if bytes.len() <= max_bytes {
-        let b_str: String = bytes.iter().map(|b| format!("{:0X}", b)).collect();
+        let b_str: String = bytes.iter().map(|b| format!("{:02X}", b)).collect();
         format!("{} ({} bytes)", b_str, bytes.len())
       } else {
         let b_str: String = bytes
           .slice(0..max_bytes)
           .iter()
-          .map(|b| format!("{:0X}", b))
+          .map(|b| format!("{:02X}", b))
           .collect();
         format!("{}... ({} bytes)", b_str, bytes.len())
       }
-- 
2.43.0


From 7c6c1078184068c07fc91560b022757759fdfef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:23 +0000
Subject: [PATCH 044/139] fix: V4 messages and responses are written with the
 content type from the metadata or headers

---
 rust/pact_models/src/v4/async_message.rs | 3 ++-
 rust/pact_models/src/v4/http_parts.rs    | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/rust/pact_models/src/v4/async_message.rs b/rust/pact_models/src/v4/async_message.rs
index 7cc8495..e490ef5 100644
--- a/rust/pact_models/src/v4/async_message.rs
+++ b/rust/pact_models/src/v4/async_message.rs
@@ -164,7 +164,8 @@ impl V4Interaction for AsynchronousMessage {
       map.insert("key".to_string(), Value::String(key.clone()));
     }
 
-    if let Value::Object(body) = self.contents.contents.to_v4_json() {
+    let contents = self.contents.contents.with_content_type_if_not_set(self.contents.message_content_type());
+    if let Value::Object(body) = contents.to_v4_json() {
       map.insert("contents".to_string(), Value::Object(body));
     }
 
diff --git a/rust/pact_models/src/v4/http_parts.rs b/rust/pact_models/src/v4/http_parts.rs
index 15b8731..151fce1 100644
--- a/rust/pact_models/src/v4/http_parts.rs
+++ b/rust/pact_models/src/v4/http_parts.rs
@@ -530,7 +530,8 @@ impl HttpResponse {
         ));
       }
 
-      if let Value::Object(body) = self.body.to_v4_json() {
+      let body = self.body.with_content_type_if_not_set(self.content_type());
+      if let Value::Object(body) = body.to_v4_json() {
         map.insert("body".to_string(), Value::Object(body));
       }
 
-- 
2.43.0


From 9a5234f8cb1a41bde2b4cf78f1bc108ec9a970c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:23 +0000
Subject: [PATCH 045/139] fix: V4 body that is a plain string is loaded without
 the quotes

---
 rust/pact_models/src/v4/http_parts.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/pact_models/src/v4/http_parts.rs b/rust/pact_models/src/v4/http_parts.rs
index 151fce1..215299e 100644
--- a/rust/pact_models/src/v4/http_parts.rs
+++ b/rust/pact_models/src/v4/http_parts.rs
@@ -372,7 +372,7 @@ pub fn body_from_json(json: &Value, attr_name: &str, headers: &Option<HashMap<St
       // Body fragment is not a JSON Object
       _ => {
         warn!("Body in attribute '{}' from JSON file is not formatted correctly, will load it as plain text", attr_name);
-        OptionalBody::Present(body.to_string().into(), None, None)
+        json_to_string(body).into()
       }
     },
 
-- 
2.43.0


From 1b749b71352d502a8a1ac592ac5f440436903b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:23 +0000
Subject: [PATCH 046/139] fix: Only detect HTML at the start of the contents

---
 rust/pact_models/src/content_types.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/pact_models/src/content_types.rs b/rust/pact_models/src/content_types.rs
index 38442d3..57fbb5a 100644
--- a/rust/pact_models/src/content_types.rs
+++ b/rust/pact_models/src/content_types.rs
@@ -63,7 +63,7 @@ lazy_static! {
   };
 
   static ref XMLREGEXP: Regex = Regex::new(r"^\s*<\?xml\s*version.*").unwrap();
-  static ref HTMLREGEXP: Regex = Regex::new(r"^\s*(<!DOCTYPE)|(<HTML>).*").unwrap();
+  static ref HTMLREGEXP: Regex = Regex::new(r"^\s*((<!DOCTYPE)|(<HTML>)).*").unwrap();
   static ref JSONREGEXP: Regex = Regex::new(r#"^\s*(true|false|null|[0-9]+|"\w*|\{\s*(}|"\w+)|\[\s*)"#).unwrap();
   static ref XMLREGEXP2: Regex = Regex::new(r#"^\s*<\w+\s*(:\w+=["”][^"”]+["”])?.*"#).unwrap();
 }
-- 
2.43.0


From 21599455fbf208886e86817d247a2b073fe806cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:23 +0000
Subject: [PATCH 047/139] fix: Content type attribute values are quoted where
 required

---
 rust/pact_models/src/content_types.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/rust/pact_models/src/content_types.rs b/rust/pact_models/src/content_types.rs
index 57fbb5a..f089c68 100644
--- a/rust/pact_models/src/content_types.rs
+++ b/rust/pact_models/src/content_types.rs
@@ -188,11 +188,20 @@ impl Display for ContentType {
       write!(f, "{}", base)
     } else {
       write!(f, "{};{}", base, self.attributes.iter()
-        .map(|(key, value)| format!("{}={}", key, value)).join(";"))
+        .map(|(key, value)| format!("{}={}", key, quote_attribute_value(value))).join(";"))
     }
   }
 }
 
+/// Attribute values that are not valid tokens need to be quoted
+fn quote_attribute_value(value: &str) -> String {
+  if value.bytes().all(|b| b.is_ascii_alphanumeric() || b"!#$%&'*+-.^_`|~".contains(&b)) {
+    value.to_string()
+  } else {
+    format!("\"{}\"", value)
+  }
+}
+
 impl From<String> for ContentType {
   fn from(s: String) -> Self {
     ContentType::parse(s.as_str()).unwrap_or_default()
-- 
2.43.0


From 872d990cd2ad423000a35947d1148e8e1dc792e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:23 +0000
Subject: [PATCH 048/139] fix: Detecting a content type ignores a character cut
 off by only looking at the first bytes

---
 rust/pact_models/src/content_types.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rust/pact_models/src/content_types.rs b/rust/pact_models/src/content_types.rs
index f089c68..7989762 100644
--- a/rust/pact_models/src/content_types.rs
+++ b/rust/pact_models/src/content_types.rs
@@ -302,7 +302,12 @@ pub fn detect_content_type_from_bytes(s: &[u8]) -> Option<ContentType> {
   } else {
     s
   };
-  match from_utf8(header) {
+  let contents = match from_utf8(header) {
+    // The last character was cut off by only looking at the first bytes
+    Err(err) if s.len() > header.len() && err.error_len().is_none() => from_utf8(&header[..err.valid_up_to()]),
+    result => result
+  };
+  match contents {
     Ok(s) => {
       if is_match(&XMLREGEXP, s) {
         Some(XML.clone())
-- 
2.43.0


From 4cf60611e35b3311b65ea9b799250b1e500dc4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:49 +0000
Subject: [PATCH 049/139] fix: escape text that is written as a JSON string
 when a body is read

---
 rust/pact_models/src/json_utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/pact_models/src/json_utils.rs b/rust/pact_models/src/json_utils.rs
index fcc9201..2c8129b 100644
--- a/rust/pact_models/src/json_utils.rs
+++ b/rust/pact_models/src/json_utils.rs
@@ -172,7 +172,7 @@ pub fn body_from_json(request: &Value, fieldname: &str, headers: &Option<HashMap
           if content_type.is_json() {
             match serde_json::from_str::<JsonParsable>(s) {
               Ok(_) => OptionalBody::Present(s.clone().into(), Some(content_type), None),
-              Err(_) => OptionalBody::Present(format!("\"{}\"", s).into(), Some(content_type), None)
+              Err(_) => OptionalBody::Present(Value::String(s.clone()).to_string().into(), Some(content_type), None)
             }
           } else if content_type.is_text() {
             OptionalBody::Present(s.clone().into(), Some(content_type), None)
-- 
2.43.0


From 7073491d1806b5fb6431197248cd152ad5173dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:49 +0000
Subject: [PATCH 050/139] fix: keep the generators of V3 messages when they are
 loaded

---
 rust/pact_models/src/message.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rust/pact_models/src/message.rs b/rust/pact_models/src/message.rs
index 61cd822..9a830fa 100644
--- a/rust/pact_models/src/message.rs
+++ b/rust/pact_models/src/message.rs
@@ -15,7 +15,7 @@ use tracing::warn;
 
 use crate::bodies::OptionalBody;
 use crate::content_types::ContentType;
-use crate::generators::{Generators, generators_to_json};
+use crate::generators::{Generators, generators_from_json, generators_to_json};
 use crate::http_parts::HttpPart;
 use crate::interaction::Interaction;
 use crate::json_utils::{body_from_json, json_to_string};
@@ -226,7 +226,7 @@ impl Message {
                   contents: body,
                   matching_rules: matchers_from_json(json, &None)?,
                   metadata,
-                  generators: Generators::default(),
+                  generators: generators_from_json(json)?,
                 })
             },
             _ => Err(anyhow!("Messages require Pact Specification version 3"))
-- 
2.43.0


From 33663e4ac5392c13b66cfdbaf65a67e98f5b6a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:49 +0000
Subject: [PATCH 051/139] fix: encode binary bodies that would otherwise be
 decoded when they are read back

---
 rust/pact_models/src/request.rs  | 6 ++++--
 rust/pact_models/src/response.rs | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/rust/pact_models/src/request.rs b/rust/pact_models/src/request.rs
index 4a12198..2084f0d 100644
--- a/rust/pact_models/src/request.rs
+++ b/rust/pact_models/src/request.rs
@@ -203,8 +203,10 @@ impl Request {
           }
         } else {
           match from_utf8(body) {
-            Ok(s) => map.insert("body".to_string(), Value::String(s.to_string())),
-            Err(_) => map.insert("body".to_string(), Value::String(BASE64.encode(body)))
+            // text that would be taken for base64 when it is read back has to be encoded
+            Ok(s) if self.content_type().unwrap_or_default().is_text() || BASE64.decode(s).is_err() =>
+              map.insert("body".to_string(), Value::String(s.to_string())),
+            _ => map.insert("body".to_string(), Value::String(BASE64.encode(body)))
           };
         },
         OptionalBody::Empty => { map.insert("body".to_string(), Value::String(String::default())); },
diff --git a/rust/pact_models/src/response.rs b/rust/pact_models/src/response.rs
index 7fb6f3f..9e66e37 100644
--- a/rust/pact_models/src/response.rs
+++ b/rust/pact_models/src/response.rs
@@ -81,8 +81,10 @@ impl Response {
             }
           } else {
             match from_utf8(body) {
-              Ok(s) => map.insert("body".to_string(), Value::String(s.to_string())),
-              Err(_) => map.insert("body".to_string(), Value::String(BASE64.encode(body)))
+              // text that would be taken for base64 when it is read back has to be encoded
+              Ok(s) if self.content_type().unwrap_or_default().is_text() || BASE64.decode(s).is_err() =>
+                map.insert("body".to_string(), Value::String(s.to_string())),
+              _ => map.insert("body".to_string(), Value::String(BASE64.encode(body)))
             };
           }
         },
-- 
2.43.0


From 60aebc264f02575ce14da0854742ae458e2d71ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:41 +0000
Subject: [PATCH 052/139] fix: report a response status that is not a 16 bit
 number instead of aborting or truncating it

---
 rust/pact_models/src/response.rs      | 3 ++-
 rust/pact_models/src/v4/http_parts.rs | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/rust/pact_models/src/response.rs b/rust/pact_models/src/response.rs
index 9e66e37..34ccef6 100644
--- a/rust/pact_models/src/response.rs
+++ b/rust/pact_models/src/response.rs
@@ -39,7 +39,8 @@ impl Response {
   pub fn from_json(response: &Value, _: &PactSpecification
   ) -> anyhow::Result<Response> {
     let status_val = match response.get("status") {
-      Some(v) => v.as_u64().unwrap() as u16,
+      Some(v) => v.as_u64().and_then(|status| u16::try_from(status).ok())
+        .ok_or_else(|| anyhow::anyhow!("'{}' is not a valid response status", v))?,
       None => 200
     };
     let headers = headers_from_json(response);
diff --git a/rust/pact_models/src/v4/http_parts.rs b/rust/pact_models/src/v4/http_parts.rs
index 215299e..b486421 100644
--- a/rust/pact_models/src/v4/http_parts.rs
+++ b/rust/pact_models/src/v4/http_parts.rs
@@ -500,7 +500,8 @@ impl HttpResponse {
   /// Build an `HttpResponse` from a JSON `Value` struct.
   pub fn from_json(response: &Value) -> anyhow::Result<Self> {
     let status_val = match response.get("status") {
-      Some(v) => v.as_u64().unwrap() as u16,
+      Some(v) => v.as_u64().and_then(|status| u16::try_from(status).ok())
+        .ok_or_else(|| anyhow::anyhow!("'{}' is not a valid response status", v))?,
       None => 200
     };
     let headers = headers_from_json(response);
-- 
2.43.0


From a07982cfe977a81645ad56201ef35a5702714e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:41 +0000
Subject: [PATCH 053/139] fix: cloning and displaying synchronous message
 interactions

---
 rust/pact_models/src/interaction.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rust/pact_models/src/interaction.rs b/rust/pact_models/src/interaction.rs
index b8944d0..b6a6ef4 100644
--- a/rust/pact_models/src/interaction.rs
+++ b/rust/pact_models/src/interaction.rs
@@ -153,6 +153,8 @@ impl Display for dyn Interaction {
       std::fmt::Display::fmt(&mp, f)
     } else if let Some(mp) = self.as_v4_async_message() {
       std::fmt::Display::fmt(&mp, f)
+    } else if let Some(mp) = self.as_v4_sync_message() {
+      std::fmt::Display::fmt(&mp, f)
     } else {
       Err(fmt::Error)
     }
@@ -166,6 +168,8 @@ impl Clone for Box<dyn Interaction> {
         Box::new(http)
       } else if let Some(message) = self.as_v4_async_message() {
         Box::new(message)
+      } else if let Some(message) = self.as_v4_sync_message() {
+        Box::new(message)
       } else {
         panic!("Internal Error - Tried to clone an interaction that was not valid")
       }
-- 
2.43.0


From b437bb602e8d6906f7895c026b4aa4819895a035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:11 +0000
Subject: [PATCH 054/139] fix: merging plugin configuration again does not
 repeat list items

---
 rust/pact_models/src/plugins.rs | 32 +++++++++++++++++++++++++++++---
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/rust/pact_models/src/plugins.rs b/rust/pact_models/src/plugins.rs
index f67f2a5..535cb20 100644
--- a/rust/pact_models/src/plugins.rs
+++ b/rust/pact_models/src/plugins.rs
@@ -6,8 +6,6 @@ use anyhow::anyhow;
 use serde::{Deserialize, Serialize};
 use serde_json::Value;
 
-use crate::json_utils::json_deep_merge;
-
 /// Plugin configuration persisted in the pact file metadata
 #[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
 pub struct PluginData {
@@ -25,7 +23,7 @@ impl PluginData {
   pub fn merge(&mut self, data: &HashMap<String, Value>) {
     for (key, value) in data {
       let value = if let Some(v) = self.configuration.get(key) {
-        json_deep_merge(v, value)
+        merge_values(v, value)
       } else {
         value.clone()
       };
@@ -34,6 +32,34 @@ impl PluginData {
   }
 }
 
+/// Deep merges the values. List items are only added when they are not there yet, otherwise merging
+/// the same data again would repeat them.
+fn merge_values(value: &Value, other: &Value) -> Value {
+  match (value, other) {
+    (Value::Array(items), Value::Array(other_items)) => {
+      let mut values = items.clone();
+      for item in other_items {
+        if !values.contains(item) {
+          values.push(item.clone());
+        }
+      }
+      Value::Array(values)
+    }
+    (Value::Object(entries), Value::Object(other_entries)) => {
+      let mut map = entries.clone();
+      for (key, value) in other_entries {
+        let value = match map.get(key) {
+          Some(existing) => merge_values(existing, value),
+          None => value.clone()
+        };
+        map.insert(key.clone(), value);
+      }
+      Value::Object(map)
+    }
+    _ => other.clone()
+  }
+}
+
 impl PluginData {
   /// Convert this plugin data to a JSON value
   pub fn to_json(&self) -> anyhow::Result<Value> {
-- 
2.43.0


From 61a3fc643028f00c9b473f890c718c09c7388ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:11 +0000
Subject: [PATCH 055/139] fix: merging V4 pacts compares every interaction,
 whatever the order, with all attributes of the provider states

---
 rust/pact_models/src/v4/pact.rs | 63 ++++++++++++++-------------------
 1 file changed, 26 insertions(+), 37 deletions(-)

diff --git a/rust/pact_models/src/v4/pact.rs b/rust/pact_models/src/v4/pact.rs
index 92548af..e94b76c 100644
--- a/rust/pact_models/src/v4/pact.rs
+++ b/rust/pact_models/src/v4/pact.rs
@@ -1,13 +1,11 @@
 //! V4 specification Pact
 
-use std::cmp::Ordering;
 use std::collections::{BTreeMap, HashMap, HashSet};
 use std::panic::RefUnwindSafe;
 use std::path::Path;
 use std::sync::{Arc, Mutex};
 
 use anyhow::{anyhow, Context};
-use itertools::EitherOrBoth::{Both, Left, Right};
 use itertools::Itertools;
 use maplit::btreemap;
 use serde_json::{json, Map, Value};
@@ -357,44 +355,35 @@ impl ReadWritePact for V4Pact {
 
   fn merge(&self, other: &dyn Pact) -> anyhow::Result<Box<dyn Pact + Send + Sync + RefUnwindSafe>> {
     if self.consumer.name == other.consumer().name && self.provider.name == other.provider().name {
+      let interactions = other.interactions().iter()
+        .filter_map(|i| i.as_v4())
+        .collect::<Vec<_>>();
+      let mut merged = self.interactions.clone();
+      let mut matched = vec![false; merged.len()];
+      let mut find_match = |predicate: &dyn Fn(&dyn V4Interaction) -> bool| {
+        (0..matched.len())
+          .find(|index| !matched[*index] && predicate(self.interactions[*index].as_ref()))
+          .map(|index| matched[index] = true)
+          .is_some()
+      };
+      // Interactions with keys only have to be compared by key, all others by description,
+      // provider states and type
+      let unmatched = interactions.iter()
+        .filter(|i| i.key().is_none() || !find_match(&|a| a.key() == i.key()))
+        .collect::<Vec<_>>();
+      let unmatched = unmatched.into_iter()
+        .filter(|i| !find_match(&|a| (a.key().is_none() || i.key().is_none())
+          && a.description() == i.description()
+          && a.provider_states() == i.provider_states()
+          && a.type_of() == i.type_of()))
+        .collect::<Vec<_>>();
+      merged.extend(unmatched.into_iter().cloned());
+      merged.sort_by(|a, b| Ord::cmp(&a.description(), &b.description()));
+
       let mut new_pact = V4Pact {
         consumer: self.consumer.clone(),
         provider: self.provider.clone(),
-        interactions: self.interactions.iter()
-          .merge_join_by(other.interactions().iter().map(|i| i.as_v4().unwrap()), |a, b| {
-            match (a.key(), b.key()) {
-              (Some(key_a), Some(key_b)) => Ord::cmp(&key_a, &key_b),
-              (_, _) => {
-                let type_a = a.type_of();
-                let type_b = b.type_of();
-                let cmp = Ord::cmp(&a.description(), &b.description());
-                if cmp == Ordering::Equal && !a.provider_states().is_empty() {
-                  let cmp = Ord::cmp(&a.provider_states().iter().map(|p| p.name.clone()).collect::<Vec<String>>(),
-                  &b.provider_states().iter().map(|p| p.name.clone()).collect::<Vec<String>>());
-                  if cmp == Ordering::Equal {
-                       Ord::cmp(&type_a, &type_b)
-                  } else
-                  {
-                    cmp
-                  }
-                }
-                else if cmp == Ordering::Equal && a.provider_states().is_empty() {
-                  Ord::cmp(&type_a, &type_b)
-                } 
-                 else {
-                  cmp
-                }
-              }
-            }
-          })
-          .map(|either| {
-            match either {
-              Left(i) => i.clone(),
-              Right(i) => i.boxed_v4(),
-              Both(i, _) => i.clone()
-            }
-          })
-          .collect(),
+        interactions: merged,
         metadata: self.metadata.clone(),
         plugin_data: self.plugin_data.clone()
       };
-- 
2.43.0


From e3b0c9cff6a80087bbbbd6c1d5fdd5d52047db34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:11 +0000
Subject: [PATCH 056/139] fix: merging V1-V3 pacts in any order, comparing
 provider states with their parameters

---
 rust/pact_models/src/interaction.rs  | 26 ++++++++++++++++++++++++++
 rust/pact_models/src/message_pact.rs | 19 +++++++------------
 rust/pact_models/src/sync_pact.rs    | 19 +++++++------------
 3 files changed, 40 insertions(+), 24 deletions(-)

diff --git a/rust/pact_models/src/interaction.rs b/rust/pact_models/src/interaction.rs
index b6a6ef4..095312a 100644
--- a/rust/pact_models/src/interaction.rs
+++ b/rust/pact_models/src/interaction.rs
@@ -1,5 +1,6 @@
 //! Models for Pact interactions
 
+use std::cmp::Ordering;
 use std::fmt::{self, Debug, Display, Formatter};
 use std::panic::RefUnwindSafe;
 use std::sync::{Arc, Mutex};
@@ -202,6 +203,31 @@ pub fn message_interaction_from_json(source: &str, json: &Value, spec: &PactSpec
   }
 }
 
+/// Compares two interactions by what identifies them in a V1-V3 Pact: the description and the provider states.
+/// Before V3, Pact files can only store the name of the first provider state.
+pub(crate) fn compare_identity(
+  a: &dyn Interaction,
+  b: &dyn Interaction,
+  spec_version: PactSpecification
+) -> Ordering {
+  let states = |interaction: &dyn Interaction| {
+    let states = interaction.provider_states();
+    if spec_version < PactSpecification::V3 {
+      states.iter().take(1).map(|state| (state.name.clone(), vec![])).collect::<Vec<_>>()
+    } else {
+      states.iter().map(|state| {
+        let mut params = state.params.iter()
+          .map(|(key, value)| (key.clone(), value.to_string()))
+          .collect::<Vec<_>>();
+        params.sort();
+        (state.name.clone(), params)
+      }).collect()
+    }
+  };
+  a.description().cmp(&b.description())
+    .then_with(|| states(a).cmp(&states(b)))
+}
+
 pub(crate) fn parse_interactions(pact_json: &Value, spec_version: PactSpecification
 ) -> anyhow::Result<Vec<RequestResponseInteraction>> {
   if let Some(&Value::Array(ref array)) = pact_json.get("interactions") {
diff --git a/rust/pact_models/src/message_pact.rs b/rust/pact_models/src/message_pact.rs
index a7e75bc..dadeb3a 100644
--- a/rust/pact_models/src/message_pact.rs
+++ b/rust/pact_models/src/message_pact.rs
@@ -1,7 +1,6 @@
 //! The `message_pact` module defines a Pact
 //! that contains Messages instead of Interactions.
 
-use std::cmp::Ordering;
 use std::collections::{BTreeMap, HashMap};
 use std::fs;
 use std::fs::File;
@@ -20,7 +19,7 @@ use tracing::debug;
 use crate::{Consumer, PactSpecification, Provider};
 #[cfg(not(target_family = "wasm"))] use crate::file_utils::with_read_lock;
 #[cfg(not(target_family = "wasm"))] use crate::http_utils::{self, HttpAuth};
-use crate::interaction::Interaction;
+use crate::interaction::{compare_identity, Interaction};
 use crate::message::Message;
 use crate::pact::{determine_spec_version, Pact, parse_meta_data, ReadWritePact};
 use crate::PACT_RUST_VERSION;
@@ -305,16 +304,12 @@ impl ReadWritePact for MessagePact {
 
   fn merge(&self, pact: &dyn Pact) -> anyhow::Result<Box<dyn Pact + Send + Sync + RefUnwindSafe>> {
     if self.consumer.name == pact.consumer().name && self.provider.name == pact.provider().name {
-      let messages: Vec<Result<Message, String>> = self.messages.iter()
-        .merge_join_by(pact.interactions().iter(), |a, b| {
-          let cmp = Ord::cmp(&a.description, &b.description());
-          if cmp == Ordering::Equal && ! &a.provider_states().is_empty(){
-            Ord::cmp(&a.provider_states.iter().map(|p| p.name.clone()).collect::<Vec<String>>(),
-                     &b.provider_states().iter().map(|p| p.name.clone()).collect::<Vec<String>>())
-          } else {
-            cmp
-          }
-        })
+      let mut ours = self.messages.clone();
+      ours.sort_by(|a, b| compare_identity(a, b, self.specification_version));
+      let mut theirs = pact.interactions();
+      theirs.sort_by(|a, b| compare_identity(a.as_ref(), b.as_ref(), self.specification_version));
+      let messages: Vec<Result<Message, String>> = ours.iter()
+        .merge_join_by(theirs.iter(), |a, b| compare_identity(*a, b.as_ref(), self.specification_version))
         .map(|either| match either {
           Left(i) => Ok(i.clone()),
           Right(i) => i.as_message()
diff --git a/rust/pact_models/src/sync_pact.rs b/rust/pact_models/src/sync_pact.rs
index a4fd8b4..2c0a241 100644
--- a/rust/pact_models/src/sync_pact.rs
+++ b/rust/pact_models/src/sync_pact.rs
@@ -1,6 +1,5 @@
 //! Synchronous HTTP Request/Response Pact
 
-use std::cmp::Ordering;
 use std::collections::{BTreeMap, HashMap};
 use std::panic::RefUnwindSafe;
 use std::path::Path;
@@ -16,7 +15,7 @@ use tracing::warn;
 use crate::{Consumer, PactSpecification, Provider};
 #[cfg(not(target_family = "wasm"))] use crate::file_utils::with_read_lock;
 #[cfg(not(target_family = "wasm"))] use crate::http_utils::{self, HttpAuth};
-use crate::interaction::{Interaction, PactConflict, parse_interactions};
+use crate::interaction::{compare_identity, Interaction, PactConflict, parse_interactions};
 use crate::iterator_utils::CartesianProductIterator;
 use crate::message_pact::MessagePact;
 use crate::pact::{determine_spec_version, metadata_schema, Pact, parse_meta_data, ReadWritePact, verify_metadata};
@@ -299,16 +298,12 @@ impl ReadWritePact for RequestResponsePact {
         Err(anyhow!("Unable to merge pacts, as there were {} conflict(s) between the interactions. Please clean out your pact directory before running the tests.",
                     num_conflicts))
       } else {
-        let interactions: Vec<Result<RequestResponseInteraction, String>> = self.interactions.iter()
-          .merge_join_by(pact.interactions().iter(), |a, b| {
-            let cmp = Ord::cmp(&a.description, &b.description());
-            if cmp == Ordering::Equal && ! &a.provider_states().is_empty(){
-              Ord::cmp(&a.provider_states.iter().map(|p| p.name.clone()).collect::<Vec<String>>(),
-                       &b.provider_states().iter().map(|p| p.name.clone()).collect::<Vec<String>>())
-            } else {
-              cmp
-            }
-          })
+        let mut ours = self.interactions.clone();
+        ours.sort_by(|a, b| compare_identity(a, b, self.specification_version));
+        let mut theirs = pact.interactions();
+        theirs.sort_by(|a, b| compare_identity(a.as_ref(), b.as_ref(), self.specification_version));
+        let interactions: Vec<Result<RequestResponseInteraction, String>> = ours.iter()
+          .merge_join_by(theirs.iter(), |a, b| compare_identity(*a, b.as_ref(), self.specification_version))
           .map(|either| match either {
             Left(i) => Ok(i.clone()),
             Right(i) => i.as_request_response()
-- 
2.43.0


From 5990f6dd00e472a24c118c0e35534a09692e69e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:58 +0000
Subject: [PATCH 057/139] fix: hashes and generated interaction keys do not
 depend on the iteration order of maps

---
 rust/pact_models/src/generators/mod.rs    |  3 ++-
 rust/pact_models/src/matchingrules/mod.rs |  6 ++++--
 rust/pact_models/src/provider_states.rs   |  4 +++-
 rust/pact_models/src/v4/async_message.rs  | 10 ++--------
 4 files changed, 11 insertions(+), 12 deletions(-)

diff --git a/rust/pact_models/src/generators/mod.rs b/rust/pact_models/src/generators/mod.rs
index 72fbbb3..4058488 100644
--- a/rust/pact_models/src/generators/mod.rs
+++ b/rust/pact_models/src/generators/mod.rs
@@ -361,7 +361,8 @@ impl Hash for Generator {
         for (index, rules, generators) in variants {
           index.hash(state);
           rules.hash(state);
-          for (s, g) in generators {
+          for (s, g) in generators.iter()
+            .sorted_by(|(a, _), (b, _)| Ord::cmp(a, b)) {
             s.hash(state);
             g.hash(state);
           }
diff --git a/rust/pact_models/src/matchingrules/mod.rs b/rust/pact_models/src/matchingrules/mod.rs
index 3d566bd..1c60ffb 100644
--- a/rust/pact_models/src/matchingrules/mod.rs
+++ b/rust/pact_models/src/matchingrules/mod.rs
@@ -604,7 +604,8 @@ impl Hash for MatchingRule {
         for (index, rules, generators) in variants {
           index.hash(state);
           rules.hash(state);
-          for (s, g) in generators {
+          for (s, g) in generators.iter()
+            .sorted_by(|(a, _), (b, _)| Ord::cmp(a, b)) {
             s.hash(state);
             g.hash(state);
           }
@@ -1477,7 +1478,8 @@ impl MatchingRules {
 impl Hash for MatchingRules {
   fn hash<H: Hasher>(&self, state: &mut H) {
     for (k, v) in self.rules.iter()
-      .filter(|(_, cat)| cat.is_not_empty()) {
+      .filter(|(_, cat)| cat.is_not_empty())
+      .sorted_by(|(a, _), (b, _)| Ord::cmp(a, b)) {
       k.hash(state);
       v.hash(state);
     }
diff --git a/rust/pact_models/src/provider_states.rs b/rust/pact_models/src/provider_states.rs
index 92490b4..80ddf4c 100644
--- a/rust/pact_models/src/provider_states.rs
+++ b/rust/pact_models/src/provider_states.rs
@@ -5,6 +5,7 @@ use std::cmp::Eq;
 use std::collections::HashMap;
 use std::hash::{Hash, Hasher};
 
+use itertools::Itertools;
 use maplit::*;
 use serde::{Deserialize, Serialize};
 use serde_json::*;
@@ -106,7 +107,8 @@ impl ProviderState {
 impl Hash for ProviderState {
   fn hash<H: Hasher>(&self, state: &mut H) {
     self.name.hash(state);
-    for (k, v) in self.params.clone() {
+    for (k, v) in self.params.iter()
+      .sorted_by(|(a, _), (b, _)| Ord::cmp(a, b)) {
       k.hash(state);
       match v {
         Value::Number(n) => if n.is_u64() {
diff --git a/rust/pact_models/src/v4/async_message.rs b/rust/pact_models/src/v4/async_message.rs
index e490ef5..217f233 100644
--- a/rust/pact_models/src/v4/async_message.rs
+++ b/rust/pact_models/src/v4/async_message.rs
@@ -18,7 +18,7 @@ use crate::content_types::ContentType;
 use crate::generators::{Generators, generators_from_json, generators_to_json};
 use crate::http_parts::HttpPart;
 use crate::interaction::Interaction;
-use crate::json_utils::{hash_json, is_empty, json_to_string};
+use crate::json_utils::{is_empty, json_to_string};
 use crate::matchingrules::{matchers_from_json, matchers_to_json, MatchingRules};
 use crate::message::Message;
 use crate::PactSpecification;
@@ -447,13 +447,7 @@ impl Hash for AsynchronousMessage {
   fn hash<H: Hasher>(&self, state: &mut H) {
     self.description.hash(state);
     self.provider_states.hash(state);
-    self.contents.contents.hash(state);
-    for (k, v) in &self.contents.metadata {
-      k.hash(state);
-      hash_json(v, state);
-    }
-    self.contents.matching_rules.hash(state);
-    self.contents.generators.hash(state);
+    self.contents.hash(state);
     self.pending.hash(state);
   }
 }
-- 
2.43.0


From dd5c8eee7e8b8ba87eda0148862edee2e2d1db19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:58 +0000
Subject: [PATCH 058/139] fix: equal numbers 0.0 and -0.0 have the same hash

---
 rust/pact_models/src/json_utils.rs      | 3 ++-
 rust/pact_models/src/provider_states.rs | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/rust/pact_models/src/json_utils.rs b/rust/pact_models/src/json_utils.rs
index 2c8129b..b14c462 100644
--- a/rust/pact_models/src/json_utils.rs
+++ b/rust/pact_models/src/json_utils.rs
@@ -83,7 +83,8 @@ pub fn hash_json<H: Hasher>(v: &Value, state: &mut H) {
         num.hash(state);
       }
       if let Some(num) = n.as_f64() {
-        num.to_string().hash(state);
+        // 0.0 and -0.0 are equal
+        (num + 0.0).to_string().hash(state);
       }
       if let Some(num) = n.as_i64() {
         num.hash(state);
diff --git a/rust/pact_models/src/provider_states.rs b/rust/pact_models/src/provider_states.rs
index 80ddf4c..09ece24 100644
--- a/rust/pact_models/src/provider_states.rs
+++ b/rust/pact_models/src/provider_states.rs
@@ -116,7 +116,8 @@ impl Hash for ProviderState {
         } else if n.is_i64() {
           n.as_i64().unwrap().hash(state)
         } else if n.is_f64() {
-          n.as_f64().unwrap().to_string().hash(state)
+          // 0.0 and -0.0 are equal
+          (n.as_f64().unwrap() + 0.0).to_string().hash(state)
         },
         Value::String(s) => s.hash(state),
         Value::Bool(b) => b.hash(state),
-- 
2.43.0


From 9a7a0674016cdd140d91ae7e9a8ecf44218e76c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:31 +0000
Subject: [PATCH 059/139] fix: load the contents of pacts with an unknown
 specification version as V3, as documented

---
 rust/pact_models/src/message.rs | 3 ++-
 rust/pact_models/src/request.rs | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/rust/pact_models/src/message.rs b/rust/pact_models/src/message.rs
index 9a830fa..09c45b2 100644
--- a/rust/pact_models/src/message.rs
+++ b/rust/pact_models/src/message.rs
@@ -184,7 +184,8 @@ impl Message {
     /// Constructs a `Message` from the `Json` struct.
     pub fn from_json(index: usize, json: &Value, spec_version: &PactSpecification) -> anyhow::Result<Message> {
         match spec_version {
-            PactSpecification::V3 => {
+            // Pacts with an unknown specification version are loaded as V3
+            PactSpecification::V3 | PactSpecification::Unknown => {
                 let id = json.get("_id").map(|id| json_to_string(id));
                 let description = match json.get("description") {
                     Some(v) => match *v {
diff --git a/rust/pact_models/src/request.rs b/rust/pact_models/src/request.rs
index 2084f0d..3a438ee 100644
--- a/rust/pact_models/src/request.rs
+++ b/rust/pact_models/src/request.rs
@@ -158,7 +158,8 @@ impl Request {
     };
     let query_val = match request_json.get("query") {
       Some(v) => match spec_version {
-        &PactSpecification::V3 => v3_query_from_json(v, spec_version),
+        // Pacts with an unknown specification version are loaded as V3
+        &PactSpecification::V3 | &PactSpecification::Unknown => v3_query_from_json(v, spec_version),
         _ => query_from_json(v, spec_version)
       },
       None => None
-- 
2.43.0


From 334fa5568c65ec475c81bc1da7b55ae5c39f2fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:31 +0000
Subject: [PATCH 060/139] fix: V4 pacts converted to message pacts record V3 as
 their specification version

---
 rust/pact_models/src/v4/pact.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/rust/pact_models/src/v4/pact.rs b/rust/pact_models/src/v4/pact.rs
index e94b76c..6923092 100644
--- a/rust/pact_models/src/v4/pact.rs
+++ b/rust/pact_models/src/v4/pact.rs
@@ -220,8 +220,8 @@ impl Pact for V4Pact {
       .flatten()
       .collect();
     let metadata = self.metadata.iter().map(|(k, v)| {
-      if k == "pactSpecification" {
-        Some((k.clone(), btreemap!{"version".to_string() => PactSpecification::V3.version_str()}))
+      if k == "pactSpecification" || k == "pact-specification" {
+        Some(("pactSpecification".to_string(), btreemap!{"version".to_string() => PactSpecification::V3.version_str()}))
       } else {
         match v {
           Value::Object(map) => Some((k.clone(), map.iter()
@@ -246,10 +246,14 @@ impl Pact for V4Pact {
       .flatten()
       .collect();
     let metadata = self.metadata.iter().map(|(k, v)| {
-      match v {
-        Value::Object(map) => Some((k.clone(), map.iter()
-          .map(|(k, v)| (k.clone(), json_to_string(v))).collect())),
-        _ => None
+      if k == "pactSpecification" || k == "pact-specification" {
+        Some(("pactSpecification".to_string(), btreemap!{"version".to_string() => PactSpecification::V3.version_str()}))
+      } else {
+        match v {
+          Value::Object(map) => Some((k.clone(), map.iter()
+            .map(|(k, v)| (k.clone(), json_to_string(v))).collect())),
+          _ => None
+        }
       }
     }).flatten()
       .collect();
-- 
2.43.0


From 29b6b5bd5b02139a458fd892ed4f7f442fee8e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:06 +0000
Subject: [PATCH 061/139] fix: default metadata of message pacts uses the
 current attribute names, so version entries added later do not replace it

---
 rust/pact_models/src/message_pact.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rust/pact_models/src/message_pact.rs b/rust/pact_models/src/message_pact.rs
index dadeb3a..ea070d7 100644
--- a/rust/pact_models/src/message_pact.rs
+++ b/rust/pact_models/src/message_pact.rs
@@ -282,10 +282,10 @@ impl MessagePact {
     pub fn default_metadata()
     -> BTreeMap<String, BTreeMap<String, String>> {
         btreemap!{
-            "pact-specification".to_string() =>
+            "pactSpecification".to_string() =>
                 btreemap!{ "version".to_string() =>
                     PactSpecification::V3.version_str() },
-            "pact-rust".to_string() =>
+            "pactRust".to_string() =>
                 btreemap!{ "version".to_string() =>
                     PACT_RUST_VERSION.unwrap_or("unknown").to_string() },
         }
-- 
2.43.0


From 07341825e1f8a3ba5408e89e7eba9e6883fa0da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:06 +0000
Subject: [PATCH 062/139] fix: older spellings of metadata attributes are
 recognised in V4 pacts, so version entries added later do not replace them

---
 rust/pact_models/src/v4/pact.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/rust/pact_models/src/v4/pact.rs b/rust/pact_models/src/v4/pact.rs
index 6923092..782739c 100644
--- a/rust/pact_models/src/v4/pact.rs
+++ b/rust/pact_models/src/v4/pact.rs
@@ -454,7 +454,14 @@ pub fn from_json(source: &str, pact_json: &Value) -> anyhow::Result<Box<dyn Pact
 fn meta_data_from_json(pact_json: &Value) -> BTreeMap<String, Value> {
   match pact_json.get("metadata") {
     Some(Value::Object(obj)) => {
-       obj.iter().map(|(k, v)| (k.clone(), v.clone())).collect()
+       obj.iter().map(|(k, v)| {
+         let key = match k.as_str() {
+           "pact-specification" => "pactSpecification".to_string(),
+           "pact-rust" => "pactRust".to_string(),
+           _ => k.clone()
+         };
+         (key, v.clone())
+       }).collect()
     }
     _ => btreemap!{}
   }
-- 
2.43.0


From 4895c67e6ecd4e9ae877b34275def09337a727bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:04 +0000
Subject: [PATCH 063/139] fix: file format errors name the type of the invalid
 attribute, not of the object containing it

---
 rust/pact_models/src/lib.rs              | 4 ++--
 rust/pact_models/src/provider_states.rs  | 4 ++--
 rust/pact_models/src/sync_interaction.rs | 2 +-
 rust/pact_models/src/sync_pact.rs        | 2 +-
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/rust/pact_models/src/lib.rs b/rust/pact_models/src/lib.rs
index 2555a76..af0a598 100644
--- a/rust/pact_models/src/lib.rs
+++ b/rust/pact_models/src/lib.rs
@@ -228,7 +228,7 @@ impl PactJsonVerifier for Consumer {
         if let Some(name) = values.get("name") {
           if !name.is_string() {
             results.push(PactFileVerificationResult::new(path.to_owned() + "/name", ResultLevel::ERROR,
-              format!("Must be a String, got {}", json_type_of(pact_json))))
+              format!("Must be a String, got {}", json_type_of(name))))
           }
         } else {
           results.push(PactFileVerificationResult::new(path.to_owned() + "/name",
@@ -298,7 +298,7 @@ impl PactJsonVerifier for Provider {
         if let Some(name) = values.get("name") {
           if !name.is_string() {
             results.push(PactFileVerificationResult::new(path.to_owned() + "/name", ResultLevel::ERROR,
-                                                         format!("Must be a String, got {}", json_type_of(pact_json))))
+                                                         format!("Must be a String, got {}", json_type_of(name))))
           }
         } else {
           results.push(PactFileVerificationResult::new(path.to_owned() + "/name",
diff --git a/rust/pact_models/src/provider_states.rs b/rust/pact_models/src/provider_states.rs
index 09ece24..bd4c3a3 100644
--- a/rust/pact_models/src/provider_states.rs
+++ b/rust/pact_models/src/provider_states.rs
@@ -145,14 +145,14 @@ impl PactJsonVerifier for ProviderState {
             "Provider state 'name' is required")),
           Some(name) => if !name.is_string() {
             results.push(PactFileVerificationResult::new(path, ResultLevel::ERROR,
-              format!("Provider state 'name' must be a String, got {}", json_type_of(pact_json))))
+              format!("Provider state 'name' must be a String, got {}", json_type_of(name))))
           }
         }
 
         if let Some(params) = values.get("params") {
           if !params.is_object() {
             results.push(PactFileVerificationResult::new(path, ResultLevel::ERROR,
-              format!("Provider state 'params' must be an Object, got {}", json_type_of(pact_json))))
+              format!("Provider state 'params' must be an Object, got {}", json_type_of(params))))
           }
         }
 
diff --git a/rust/pact_models/src/sync_interaction.rs b/rust/pact_models/src/sync_interaction.rs
index e865e0a..6707f3c 100644
--- a/rust/pact_models/src/sync_interaction.rs
+++ b/rust/pact_models/src/sync_interaction.rs
@@ -273,7 +273,7 @@ impl PactJsonVerifier for RequestResponseInteraction {
         if let Some(description) = values.get("description") {
           if !description.is_string() {
             results.push(PactFileVerificationResult::new(path.to_owned() + "/description", ResultLevel::ERROR,
-                                                         format!("Must be a String, got {}", json_type_of(pact_json))))
+                                                         format!("Must be a String, got {}", json_type_of(description))))
           }
         } else {
           results.push(PactFileVerificationResult::new(path,
diff --git a/rust/pact_models/src/sync_pact.rs b/rust/pact_models/src/sync_pact.rs
index 2c0a241..43258b2 100644
--- a/rust/pact_models/src/sync_pact.rs
+++ b/rust/pact_models/src/sync_pact.rs
@@ -374,7 +374,7 @@ impl PactJsonVerifier for RequestResponsePact {
                 }))
             }
             _ => results.push(PactFileVerificationResult::new("/interactions", ResultLevel::ERROR,
-                                                              &format!("Must be an Object, got {}", json_type_of(pact_json))))
+                                                              &format!("Must be an Array, got {}", json_type_of(interactions))))
           }
         } else {
           results.push(PactFileVerificationResult::new("/interactions", ResultLevel::WARNING, "Missing interactions"))
-- 
2.43.0


From dcf82d65d4c119dc357fc50be4119f9f2d324af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:52 +0000
Subject: [PATCH 064/139] fix: apply OR logic when several matching rules apply
 to a JSON object

---
 rust/pact_matching/src/json.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/rust/pact_matching/src/json.rs b/rust/pact_matching/src/json.rs
index 84dede9..109b5ed 100644
--- a/rust/pact_matching/src/json.rs
+++ b/rust/pact_matching/src/json.rs
@@ -12,7 +12,7 @@ use serde_json::{json, Value};
 
 use pact_models::http_parts::HttpPart;
 use pact_models::json_utils::json_to_string;
-use pact_models::matchingrules::MatchingRule;
+use pact_models::matchingrules::{MatchingRule, RuleLogic};
 use pact_models::path_exp::DocPath;
 #[cfg(feature = "datetime")] use pact_models::time_utils::validate_datetime;
 use tracing::debug;
@@ -431,11 +431,15 @@ fn compare_maps(
     if context.matcher_is_defined(path) {
       debug!("compare_maps: Matcher is defined for path {}", path);
       let rule_list = context.select_best_matcher(path);
-      for matcher in rule_list.rules {
-        let result1 = compare_maps_with_matchingrule(&matcher, rule_list.cascaded, path, &expected, &actual, context, &mut |p, expected, actual, context| {
+      let results = rule_list.rules.iter().map(|matcher| {
+        compare_maps_with_matchingrule(matcher, rule_list.cascaded, path, &expected, &actual, context, &mut |p, expected, actual, context| {
           compare_json(p, expected, actual, context)
-        });
-        result = merge_result(result, result1);
+        })
+      }).collect::<Vec<Result<(), Vec<CommonMismatch>>>>();
+      if rule_list.rule_logic == RuleLogic::And || results.iter().all(|result| result.is_err()) {
+        for result1 in results {
+          result = merge_result(result, result1);
+        }
       }
     } else {
       let expected_keys = expected.keys().cloned().collect();
-- 
2.43.0


From 57c74197e5d9d071bbcc5dcfc991768fb77cbc67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:52 +0000
Subject: [PATCH 065/139] fix: apply the matching rules to a list also when the
 expected list is empty

---
 rust/pact_matching/src/matchingrules.rs | 146 ++++++++++++------------
 1 file changed, 72 insertions(+), 74 deletions(-)

diff --git a/rust/pact_matching/src/matchingrules.rs b/rust/pact_matching/src/matchingrules.rs
index 9c38012..bc0ba3e 100644
--- a/rust/pact_matching/src/matchingrules.rs
+++ b/rust/pact_matching/src/matchingrules.rs
@@ -365,91 +365,89 @@ pub fn compare_lists_with_matchingrule<T: Display + Debug + PartialEq + Clone +
 ) -> Result<(), Vec<CommonMismatch>> {
   let mut result = vec![];
 
-  if !expected.is_empty() {
-    match rule {
-      // TODO: need to implement the ignore order matchers (See Pact-JVM core/matchers/src/main/kotlin/au/com/dius/pact/core/matchers/Matchers.kt:133)
-      // is EqualsIgnoreOrderMatcher,
-      //         is MinEqualsIgnoreOrderMatcher,
-      //         is MaxEqualsIgnoreOrderMatcher,
-      //         is MinMaxEqualsIgnoreOrderMatcher -> {
-      MatchingRule::ArrayContains(variants) => {
-        debug!("Matching {} with ArrayContains", path);
-        let variants = if variants.is_empty() {
-          expected.iter().enumerate().map(|(index, _)| {
-            (index, MatchingRuleCategory::equality("body"), HashMap::default())
-          }).collect()
-        } else {
-          variants.clone()
-        };
-        for (index, rules, _) in variants {
-          match expected.get(index) {
-            Some(expected_value) => {
-              let context = context.clone_with(&rules);
-              if actual.iter().enumerate().find(|&(actual_index, value)| {
-                debug!("Comparing list item {} with value '{:?}' to '{:?}'", actual_index, value, expected_value);
-                callback(&DocPath::root(), expected_value, value, context.as_ref()).is_ok()
-              }).is_none() {
-                result.push(CommonMismatch {
-                  path: path.to_string(),
-                  expected: expected_value.to_string(),
-                  actual: actual.for_mismatch(),
-                  description: format!("Variant at index {} ({}) was not found in the actual list", index, expected_value)
-                });
-              };
-            },
-            None => {
+  match rule {
+    // TODO: need to implement the ignore order matchers (See Pact-JVM core/matchers/src/main/kotlin/au/com/dius/pact/core/matchers/Matchers.kt:133)
+    // is EqualsIgnoreOrderMatcher,
+    //         is MinEqualsIgnoreOrderMatcher,
+    //         is MaxEqualsIgnoreOrderMatcher,
+    //         is MinMaxEqualsIgnoreOrderMatcher -> {
+    MatchingRule::ArrayContains(variants) => {
+      debug!("Matching {} with ArrayContains", path);
+      let variants = if variants.is_empty() {
+        expected.iter().enumerate().map(|(index, _)| {
+          (index, MatchingRuleCategory::equality("body"), HashMap::default())
+        }).collect()
+      } else {
+        variants.clone()
+      };
+      for (index, rules, _) in variants {
+        match expected.get(index) {
+          Some(expected_value) => {
+            let context = context.clone_with(&rules);
+            if actual.iter().enumerate().find(|&(actual_index, value)| {
+              debug!("Comparing list item {} with value '{:?}' to '{:?}'", actual_index, value, expected_value);
+              callback(&DocPath::root(), expected_value, value, context.as_ref()).is_ok()
+            }).is_none() {
               result.push(CommonMismatch {
                 path: path.to_string(),
-                expected: expected.for_mismatch(),
+                expected: expected_value.to_string(),
                 actual: actual.for_mismatch(),
-                description: format!("ArrayContains: variant {} is missing from the expected list, which has {} items",
-                                  index, expected.len())
+                description: format!("Variant at index {} ({}) was not found in the actual list", index, expected_value)
               });
-            }
+            };
+          },
+          None => {
+            result.push(CommonMismatch {
+              path: path.to_string(),
+              expected: expected.for_mismatch(),
+              actual: actual.for_mismatch(),
+              description: format!("ArrayContains: variant {} is missing from the expected list, which has {} items",
+                                index, expected.len())
+            });
           }
         }
       }
-      MatchingRule::EachValue(definition) => if !cascaded {
-        debug!("Matching {} with EachValue", path);
-        let associated_rules = definition.rules.iter().filter_map(|rule| {
-          match rule {
-            Either::Left(rule) => Some(rule.clone()),
-            Either::Right(reference) => {
-              result.push(CommonMismatch {
-                path: path.to_string(),
-                expected: expected.for_mismatch(),
-                actual: actual.for_mismatch(),
-                description: format!("Found an un-resolved reference {}", reference.name)
-              });
-              None
-            }
+    }
+    MatchingRule::EachValue(definition) => if !cascaded {
+      debug!("Matching {} with EachValue", path);
+      let associated_rules = definition.rules.iter().filter_map(|rule| {
+        match rule {
+          Either::Left(rule) => Some(rule.clone()),
+          Either::Right(reference) => {
+            result.push(CommonMismatch {
+              path: path.to_string(),
+              expected: expected.for_mismatch(),
+              actual: actual.for_mismatch(),
+              description: format!("Found an un-resolved reference {}", reference.name)
+            });
+            None
           }
-        }).collect();
-        let rules = MatchingRuleCategory {
-          name: Category::BODY,
-          rules: hashmap! {
-            path.join("*") => RuleList {
-              rules: associated_rules,
-              rule_logic: RuleLogic::And,
-              cascaded: false
-            }
+        }
+      }).collect();
+      let rules = MatchingRuleCategory {
+        name: Category::BODY,
+        rules: hashmap! {
+          path.join("*") => RuleList {
+            rules: associated_rules,
+            rule_logic: RuleLogic::And,
+            cascaded: false
           }
-        };
-        let context = context.clone_with(&rules);
-        result.extend(match_list_contents(path, expected, actual, context.as_ref(), callback));
-      }
-      _ => {
-        if let Err(mismatch) = expected.matches_with(actual, rule, cascaded) {
-          result.push(CommonMismatch {
-            path: path.to_string(),
-            expected: expected.for_mismatch(),
-            actual: actual.for_mismatch(),
-            description: mismatch.to_string()
-          });
         }
-
-        result.extend(match_list_contents(path, expected, actual, context, callback));
+      };
+      let context = context.clone_with(&rules);
+      result.extend(match_list_contents(path, expected, actual, context.as_ref(), callback));
+    }
+    _ => {
+      if let Err(mismatch) = expected.matches_with(actual, rule, cascaded) {
+        result.push(CommonMismatch {
+          path: path.to_string(),
+          expected: expected.for_mismatch(),
+          actual: actual.for_mismatch(),
+          description: mismatch.to_string()
+        });
       }
+
+      result.extend(match_list_contents(path, expected, actual, context, callback));
     }
   }
 
-- 
2.43.0


From 9bcac3b8dd25a45661d71739bc3623acee14751a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:02 +0000
Subject: [PATCH 066/139] fix: comparing a body of less than 10 bytes must not
 panic

---
 rust/pact_matching/src/matchers.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rust/pact_matching/src/matchers.rs b/rust/pact_matching/src/matchers.rs
index 7cf878e..ed56e52 100644
--- a/rust/pact_matching/src/matchers.rs
+++ b/rust/pact_matching/src/matchers.rs
@@ -735,7 +735,7 @@ impl Matches<&Bytes> for Bytes {
           Ok(())
         } else {
           Err(anyhow!("Expected '{:?}...' ({} bytes) to be equal to '{:?}...' ({} bytes)",
-                      self.split_at(10).0, self.len(), actual.split_at(10).0, actual.len()))
+                      self.slice(..self.len().min(10)), self.len(), actual.slice(..actual.len().min(10)), actual.len()))
         }
       },
       MatchingRule::Type |
@@ -761,7 +761,7 @@ impl Matches<&Bytes> for Bytes {
         }
       }
       _ => if !cascaded || matcher.can_cascade() {
-        Err(anyhow!("Unable to match '{:?}...' ({} bytes) using {:?}", actual.split_at(10).0, actual.len(), matcher))
+        Err(anyhow!("Unable to match '{:?}...' ({} bytes) using {:?}", actual.slice(..actual.len().min(10)), actual.len(), matcher))
       } else {
         Ok(())
       }
-- 
2.43.0


From e4947de25e2648f267d479103ebb770a6c698999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:02 +0000
Subject: [PATCH 067/139] fix: texts like inf and NaN are not numbers

---
 rust/pact_matching/src/matchers.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rust/pact_matching/src/matchers.rs b/rust/pact_matching/src/matchers.rs
index ed56e52..c545ace 100644
--- a/rust/pact_matching/src/matchers.rs
+++ b/rust/pact_matching/src/matchers.rs
@@ -196,8 +196,8 @@ impl Matches<&str> for &str {
       },
       MatchingRule::Number | MatchingRule::Decimal => {
         match actual.parse::<f64>() {
-          Ok(_) => Ok(()),
-          Err(_) => Err(anyhow!("Expected '{}' to match a number", actual))
+          Ok(n) if n.is_finite() => Ok(()),
+          _ => Err(anyhow!("Expected '{}' to match a number", actual))
         }
       },
       MatchingRule::Integer => {
-- 
2.43.0


From 7d70dd7a49cd618d045a3136e0f63ea7afe1c61f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:02 +0000
Subject: [PATCH 068/139] fix: accept a negative integer given as text

---
 rust/pact_matching/src/matchers.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/pact_matching/src/matchers.rs b/rust/pact_matching/src/matchers.rs
index c545ace..2013e97 100644
--- a/rust/pact_matching/src/matchers.rs
+++ b/rust/pact_matching/src/matchers.rs
@@ -201,7 +201,7 @@ impl Matches<&str> for &str {
         }
       },
       MatchingRule::Integer => {
-        match actual.parse::<u64>() {
+        match actual.parse::<i128>() {
           Ok(_) => Ok(()),
           Err(_) => Err(anyhow!("Expected '{}' to match an integer number", actual))
         }
-- 
2.43.0


From 77edb2ace03160060c8d2725c3a5e69d547eeceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:33 +0000
Subject: [PATCH 069/139] fix: apply min/max, array contains and each value
 matchers to headers with a single value

---
 rust/pact_matching/src/headers.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/rust/pact_matching/src/headers.rs b/rust/pact_matching/src/headers.rs
index 3409442..11bb352 100644
--- a/rust/pact_matching/src/headers.rs
+++ b/rust/pact_matching/src/headers.rs
@@ -148,15 +148,20 @@ fn match_header_maps(
       } else {
         let mut mismatches = vec![];
 
-        // Special case when the headers only have 1 value to improve messaging
-        if value.len() == 1 && actual_values.len() == 1 {
+        let path = DocPath::root().join(key.to_lowercase());
+        let list_matcher_defined = context.matcher_is_defined(&path) &&
+          context.select_best_matcher(&path).rules.iter().any(|rule| rule.is_length_type_matcher() ||
+            matches!(rule, MatchingRule::ArrayContains(_) | MatchingRule::EachValue(_)));
+
+        // Special case when the headers only have 1 value to improve messaging (matchers that apply
+        // to the list of values need to be applied to a list with one value as well)
+        if value.len() == 1 && actual_values.len() == 1 && !list_matcher_defined {
           let comparison_result = match_header_value(key, 0, value.first().unwrap(),
             actual_values.first().unwrap(), context, true)
             .err()
             .unwrap_or_default();
           mismatches.extend(comparison_result.iter().cloned());
         } else {
-          let path = DocPath::root().join(key.to_lowercase());
           if context.matcher_is_defined(&path) {
             debug!("match_header_maps: Matcher is defined for path {}", path);
             let values_result = compare_lists_with_matchingrules(&path, &context.select_best_matcher(&path), value, &actual_values, context.clone_with(context.matchers()).as_ref(), &mut |_, expected, actual, context| {
-- 
2.43.0


From c20fd8e5159f41340440b4c23fdeb27940becfde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:16 +0000
Subject: [PATCH 070/139] fix: report the name of query parameters that look
 like an index

---
 rust/pact_matching/src/query.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/rust/pact_matching/src/query.rs b/rust/pact_matching/src/query.rs
index 5149037..9d8763f 100644
--- a/rust/pact_matching/src/query.rs
+++ b/rust/pact_matching/src/query.rs
@@ -88,6 +88,12 @@ fn match_query_values(
   }
 }
 
+/// Name of the parameter the path refers to. Note that names that look like an index or wildcard
+/// are not stored as a field.
+fn parameter_name(path: &DocPath) -> String {
+  path.to_vec().get(1).cloned().unwrap_or_default()
+}
+
 fn compare_query_parameter_value(
   path: &DocPath,
   expected: &str,
@@ -113,7 +119,7 @@ fn compare_query_parameter_value(
   matcher_result.map_err(|messages| {
     messages.iter().map(|message| {
       CommonMismatch {
-        path: path.first_field().unwrap_or_default().to_string(),
+        path: parameter_name(path),
         expected: expected.to_string(),
         actual: actual.to_string(),
         description: message.clone()
@@ -141,7 +147,7 @@ fn compare_query_parameter_values(
       } else if context.matcher_is_defined(path) {
         vec![]
       } else {
-        let key = path.first_field().unwrap_or_default().to_string();
+        let key = parameter_name(path);
         vec![ CommonMismatch {
           path: key.clone(),
           expected: format!("{:?}", expected),
-- 
2.43.0


From e154e55d67227df13eaa5495c42169d63be49d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:00 +0000
Subject: [PATCH 071/139] fix: content types with different suffixes are not
 equivalent

---
 rust/pact_models/src/content_types.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/pact_models/src/content_types.rs b/rust/pact_models/src/content_types.rs
index 7989762..61f738a 100644
--- a/rust/pact_models/src/content_types.rs
+++ b/rust/pact_models/src/content_types.rs
@@ -148,7 +148,7 @@ impl ContentType {
       self.attributes.is_empty() || self.attributes == other.attributes
     }
     else if self.attributes.is_empty() {
-      self.main_type == other.main_type && self.sub_type == other.sub_type
+      self.main_type == other.main_type && self.sub_type == other.sub_type && self.suffix == other.suffix
     } else {
       self == other
     }
-- 
2.43.0


From 9e5cbe3d9f43e8040a35ccf98f5a39d925521f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:01 +0000
Subject: [PATCH 072/139] fix: a binary body without a content type is not
 taken for text

---
 rust/pact_models/src/http_parts.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/rust/pact_models/src/http_parts.rs b/rust/pact_models/src/http_parts.rs
index 6ac46b4..b02ecb7 100644
--- a/rust/pact_models/src/http_parts.rs
+++ b/rust/pact_models/src/http_parts.rs
@@ -45,12 +45,9 @@ pub trait HttpPart {
   /// the first 32 characters.
   fn detect_content_type(&self) -> Option<ContentType> {
     match *self.body() {
-      OptionalBody::Present(ref body, _, _) => {
-        let s: String = match from_utf8(body) {
-          Ok(s) => s.to_string(),
-          Err(_) => String::new()
-        };
-        detect_content_type_from_string(&s)
+      OptionalBody::Present(ref body, _, _) => match from_utf8(body) {
+        Ok(s) => detect_content_type_from_string(&s.to_string()),
+        Err(_) => None
       },
       _ => None
     }
-- 
2.43.0


From 1f48cf41e3582978283995ffded1dffad0deb27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:01 +0000
Subject: [PATCH 073/139] fix: an expected empty body rejects a body with
 another content type

---
 rust/pact_matching/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/pact_matching/src/lib.rs b/rust/pact_matching/src/lib.rs
index 44bb6e7..4aa9387 100644
--- a/rust/pact_matching/src/lib.rs
+++ b/rust/pact_matching/src/lib.rs
@@ -1860,7 +1860,7 @@ pub async fn match_body(
       actual: actual.body().value()
     }
   } else {
-    BodyMatchResult::Ok
+    match_body_content(&expected_content_type, expected, actual, context).await
   }
 }
 
-- 
2.43.0


From edb2be2533fcff7cd8255b2edb50a1afce2d2604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:01 +0000
Subject: [PATCH 074/139] fix: report the name of form parameters without
 repeating the root

---
 rust/pact_matching/src/form_urlencoded.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rust/pact_matching/src/form_urlencoded.rs b/rust/pact_matching/src/form_urlencoded.rs
index 0a61a09..68d4328 100644
--- a/rust/pact_matching/src/form_urlencoded.rs
+++ b/rust/pact_matching/src/form_urlencoded.rs
@@ -64,8 +64,8 @@ pub(crate) fn match_form_urlencoded(
             .map(|(k, v)| (k.clone(), v.iter().map(|(_, v)| Some(v.clone())).collect_vec()))
             .collect();
           let result: Vec<_> = match_query_maps(expected_params, actual_params, context)
-            .values().flat_map(|m| m.iter().map(|mismatch| {
-            if let Mismatch::QueryMismatch { parameter, expected, actual, mismatch } = mismatch {
+            .iter().flat_map(|(parameter, m)| m.iter().map(move |mismatch| {
+            if let Mismatch::QueryMismatch { expected, actual, mismatch, .. } = mismatch {
               Mismatch::BodyMismatch {
                 path: format!("$.{}", parameter),
                 expected: Some(expected.clone().into()),
-- 
2.43.0


From 429df8974a607cf8a06094f6be9b73d67c6eeb74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:01 +0000
Subject: [PATCH 075/139] fix: an expected empty message rejects contents with
 another content type

---
 rust/pact_matching/src/lib.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/rust/pact_matching/src/lib.rs b/rust/pact_matching/src/lib.rs
index 4aa9387..de0bf6f 100644
--- a/rust/pact_matching/src/lib.rs
+++ b/rust/pact_matching/src/lib.rs
@@ -2023,7 +2023,7 @@ pub async fn match_message_contents(
   let actual_content_type = actual.message_content_type().unwrap_or_default();
   debug!("expected content type = '{}', actual content type = '{}'", expected_content_type,
          actual_content_type);
-  if expected_content_type.is_equivalent_to(&actual_content_type) {
+  if !expected.contents.is_present() || expected_content_type.is_equivalent_to(&actual_content_type) {
     let result = match_body_content(&expected_content_type, expected, actual, context).await;
     match result {
       BodyMatchResult::BodyTypeMismatch { expected_type, actual_type, message, expected, actual } => {
@@ -2040,7 +2040,7 @@ pub async fn match_message_contents(
       },
       _ => Ok(())
     }
-  } else if expected.contents.is_present() {
+  } else {
     Err(vec![ Mismatch::BodyTypeMismatch {
       expected: expected_content_type.to_string(),
       actual: actual_content_type.to_string(),
@@ -2049,8 +2049,6 @@ pub async fn match_message_contents(
       expected_body: expected.contents.value(),
       actual_body: actual.contents.value()
     } ])
-  } else {
-    Ok(())
   }
 }
 
-- 
2.43.0


From 29bac3e370cebc7fe1c09c4c2a6aaf2a3828cf9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:45 +0000
Subject: [PATCH 076/139] fix: the score of a request match with many
 mismatches does not overflow

---
 rust/pact_matching/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rust/pact_matching/src/lib.rs b/rust/pact_matching/src/lib.rs
index de0bf6f..6a17ce7 100644
--- a/rust/pact_matching/src/lib.rs
+++ b/rust/pact_matching/src/lib.rs
@@ -1287,7 +1287,7 @@ impl RequestMatchResult {
 
   /// Returns a score based on what was matched
   pub fn score(&self) -> i8 {
-    let mut score = 0;
+    let mut score: i32 = 0;
     if self.method.is_none() {
       score += 1;
     } else {
@@ -1327,7 +1327,7 @@ impl RequestMatchResult {
       },
       _ => ()
     }
-    score
+    score.clamp(i8::MIN as i32, i8::MAX as i32) as i8
   }
 
   /// If all the things matched OK
-- 
2.43.0


From 532132c54ab190c4c8db032e7e66f3c9587ad22b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:53 +0000
Subject: [PATCH 077/139] fix: messages of which the content type is not known
 are compared by their contents

---
 rust/pact_matching/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rust/pact_matching/src/lib.rs b/rust/pact_matching/src/lib.rs
index 6a17ce7..e3e4253 100644
--- a/rust/pact_matching/src/lib.rs
+++ b/rust/pact_matching/src/lib.rs
@@ -2023,7 +2023,8 @@ pub async fn match_message_contents(
   let actual_content_type = actual.message_content_type().unwrap_or_default();
   debug!("expected content type = '{}', actual content type = '{}'", expected_content_type,
          actual_content_type);
-  if !expected.contents.is_present() || expected_content_type.is_equivalent_to(&actual_content_type) {
+  if !expected.contents.is_present() || expected_content_type.is_unknown() || actual_content_type.is_unknown() ||
+    expected_content_type.is_equivalent_to(&actual_content_type) {
     let result = match_body_content(&expected_content_type, expected, actual, context).await;
     match result {
       BodyMatchResult::BodyTypeMismatch { expected_type, actual_type, message, expected, actual } => {
-- 
2.43.0


From 00216ffbe969666ba4c5a1ad876bd4b9f550aa5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:52 +0000
Subject: [PATCH 078/139] fix: min, max and not empty rules do not count
 whitespace and comments of an XML element

---
 rust/pact_matching/src/xml.rs | 31 ++++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/rust/pact_matching/src/xml.rs b/rust/pact_matching/src/xml.rs
index 988b6b3..d638208 100644
--- a/rust/pact_matching/src/xml.rs
+++ b/rust/pact_matching/src/xml.rs
@@ -109,19 +109,19 @@ impl<'a> Matches<&'a Element<'a>> for &'a Element<'a> {
              Err(anyhow!("Expected '{}' to be the same type as '{}'", name(self.name()),
                          name(actual.name())))
           },
-          MatchingRule::MinType(min) => if !cascaded && actual.children().len() < min {
+          MatchingRule::MinType(min) => if !cascaded && child_count(actual) < min {
              Err(anyhow!("Expected '{}' to have at least {} children", name(actual.name()), min))
           } else {
              Ok(())
           },
-          MatchingRule::MaxType(max) => if !cascaded && actual.children().len() > max {
+          MatchingRule::MaxType(max) => if !cascaded && child_count(actual) > max {
              Err(anyhow!("Expected '{}' to have at most {} children", name(actual.name()), max))
           } else {
              Ok(())
           },
-          MatchingRule::MinMaxType(min, max) => if !cascaded && actual.children().len() < min {
+          MatchingRule::MinMaxType(min, max) => if !cascaded && child_count(actual) < min {
             Err(anyhow!("Expected '{}' to have at least {} children", name(actual.name()), min))
-          } else if !cascaded && actual.children().len() > max {
+          } else if !cascaded && child_count(actual) > max {
             Err(anyhow!("Expected '{}' to have at most {} children", name(actual.name()), max))
           } else {
             Ok(())
@@ -133,7 +133,7 @@ impl<'a> Matches<&'a Element<'a>> for &'a Element<'a> {
                   Err(anyhow!("Expected '{}' to be equal to '{}'", name(self.name()), name(actual.name())))
              }
           },
-          MatchingRule::NotEmpty => if actual.children().is_empty() {
+          MatchingRule::NotEmpty => if child_count(actual) == 0 {
             Err(anyhow!("Expected '{}' to have at least one child", name(actual.name())))
           } else {
             Ok(())
@@ -240,6 +240,27 @@ fn children<'a>(element: &Element<'a>) -> Vec<Element<'a>> {
     .collect()
 }
 
+/// Number of children of the element, not counting comments, processing instructions and
+/// insignificant whitespace. Adjacent text nodes are counted as one.
+fn child_count(element: &Element) -> usize {
+  let mut count = 0;
+  let mut in_text = false;
+  for child in element.children() {
+    match child {
+      ChildOfElement::Element(_) => {
+        count += 1;
+        in_text = false;
+      },
+      ChildOfElement::Text(node) => if !in_text && !node.text().trim().is_empty() {
+        count += 1;
+        in_text = true;
+      },
+      _ => ()
+    }
+  }
+  count
+}
+
 fn desc_children(children: &[Element]) -> String {
   children.iter().map(|child| name(child.name())).join(", ")
 }
-- 
2.43.0


From 72bafbf7b97acd30ff0a273098c4f79d5fe5f5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:52 +0000
Subject: [PATCH 079/139] fix: text of an XML element is compared as a whole
 and not by the pieces of the parser

---
 rust/pact_matching/src/xml.rs | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/rust/pact_matching/src/xml.rs b/rust/pact_matching/src/xml.rs
index d638208..b06bdd2 100644
--- a/rust/pact_matching/src/xml.rs
+++ b/rust/pact_matching/src/xml.rs
@@ -357,6 +357,25 @@ fn compare_children(
   }
 }
 
+/// The text of the element, where surrounding whitespace of each run of text is ignored. The parser
+/// splits text into a number of nodes when it contains references or CDATA sections.
+fn element_text(element: &Element) -> String {
+  let mut text = String::new();
+  let mut run = String::new();
+  for child in element.children() {
+    match child {
+      ChildOfElement::Text(node) => run.push_str(node.text()),
+      ChildOfElement::Element(_) => {
+        text.push_str(run.trim());
+        run.clear();
+      },
+      _ => ()
+    }
+  }
+  text.push_str(run.trim());
+  text
+}
+
 fn compare_text(
   path: &DocPath,
   expected: &Element,
@@ -364,14 +383,8 @@ fn compare_text(
   mismatches: &mut Vec<super::Mismatch>,
   context: &dyn MatchingContext
 ) {
-    let expected_text = expected.children().iter().cloned()
-        .filter(|child| child.text().is_some())
-        .map(|child| child.text().unwrap().text().trim())
-        .collect::<String>();
-    let actual_text = actual.children().iter().cloned()
-        .filter(|child| child.text().is_some())
-        .map(|child| child.text().unwrap().text().trim())
-        .collect::<String>();
+    let expected_text = element_text(expected);
+    let actual_text = element_text(actual);
     let p = path.join("#text");
     let matcher_result = if context.matcher_is_defined(&p) {
       match_values(&p, &context.select_best_matcher(&p), expected_text.trim(), actual_text.trim())
-- 
2.43.0


From 96c1084395e67b188b5ac33308c5a836abb0a35c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:52 +0000
Subject: [PATCH 080/139] fix: an index after a wildcard of an XML path selects
 the element at that position

---
 rust/pact_models/src/xml_utils.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/rust/pact_models/src/xml_utils.rs b/rust/pact_models/src/xml_utils.rs
index e885580..86da240 100644
--- a/rust/pact_models/src/xml_utils.rs
+++ b/rust/pact_models/src/xml_utils.rs
@@ -117,10 +117,14 @@ fn query_graph(
           query_attributes(remaining_tokens, tree, node_id, element, index);
           query_text(remaining_tokens, tree, node_id, element, index);
 
-          let grouped_children = group_children(element);
-          for (_, children) in grouped_children {
-            for (index, child) in children.iter().enumerate() {
-              query_graph(remaining_tokens, tree, node_id, *child, index);
+          if let Some(PathToken::Index(_)) = remaining_tokens.first() {
+            query_graph(remaining_tokens, tree, node_id, element, index);
+          } else {
+            let grouped_children = group_children(element);
+            for (_, children) in grouped_children {
+              for (index, child) in children.iter().enumerate() {
+                query_graph(remaining_tokens, tree, node_id, *child, index);
+              }
             }
           }
         }
-- 
2.43.0


From 578155a1e015771f4ec9641db711ddfece465102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:01 +0000
Subject: [PATCH 081/139] fix: CDATA sections are part of the text of an XML
 element

---
 rust/pact_models/src/xml_utils.rs | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/rust/pact_models/src/xml_utils.rs b/rust/pact_models/src/xml_utils.rs
index 86da240..a30bba6 100644
--- a/rust/pact_models/src/xml_utils.rs
+++ b/rust/pact_models/src/xml_utils.rs
@@ -191,18 +191,12 @@ fn query_text(
   }
 }
 
-/// Return all the content of the element text nodes
+/// Return all the content of the element text nodes (including any CDATA sections)
 pub fn text_nodes(element: &Element) -> Vec<String> {
   element.children()
-    .filter_map(|child| if let Ok(text) = child.as_text() {
-      if text.content.is_empty() {
-        None
-      } else {
-        Some(text.content.clone())
-      }
-    } else {
-      None
-    })
+    .filter(|child| child.is_text() || child.is_cdata())
+    .map(|child| child.text())
+    .filter(|text| !text.is_empty())
     .collect_vec()
 }
 
-- 
2.43.0


From dd519b050148e77685f53105fbd3fdfc53a2f6d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:01 +0000
Subject: [PATCH 082/139] fix: resolve XML paths with any element name, not
 just word characters

---
 rust/pact_models/src/xml_utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/pact_models/src/xml_utils.rs b/rust/pact_models/src/xml_utils.rs
index a30bba6..e1a80de 100644
--- a/rust/pact_models/src/xml_utils.rs
+++ b/rust/pact_models/src/xml_utils.rs
@@ -201,7 +201,7 @@ pub fn text_nodes(element: &Element) -> Vec<String> {
 }
 
 lazy_static!{
-   static ref PATH_RE: Regex = Regex::new(r#"(\w+)\[(\d+)]"#).unwrap();
+   static ref PATH_RE: Regex = Regex::new(r#"^(.+)\[(\d+)]$"#).unwrap();
 }
 
 /// Enum to box the result value from resolve_matching_node
-- 
2.43.0


From 76c4ec1a3882332891711da6b5f1683936abab9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:01 +0000
Subject: [PATCH 083/139] fix: #text of an XML element does not include the
 text of its children

---
 rust/pact_models/src/xml_utils.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rust/pact_models/src/xml_utils.rs b/rust/pact_models/src/xml_utils.rs
index e1a80de..f9aa13e 100644
--- a/rust/pact_models/src/xml_utils.rs
+++ b/rust/pact_models/src/xml_utils.rs
@@ -249,7 +249,8 @@ fn match_next(element: &Element, paths: &[&str]) -> Option<XmlResult> {
       element.attributes().get(&first_part[1..])
         .map(|value| XmlResult::Attribute(first_part[1..].to_string(), value.clone()))
     } else if *first_part == "#text" {
-      let text = element.text();
+      // Element::text() also includes the text of the child elements
+      let text = text_nodes(element).join("");
       if text.is_empty() {
         None
       } else {
-- 
2.43.0


From 9776d2db93994d93c4f35940ea87b355965474dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:57 +0000
Subject: [PATCH 084/139] fix: generating a body keeps its content type and
 hint

---
 rust/pact_matching/src/generators/bodies.rs | 30 +++++++++++++++------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/rust/pact_matching/src/generators/bodies.rs b/rust/pact_matching/src/generators/bodies.rs
index a6c6344..8be5cd8 100644
--- a/rust/pact_matching/src/generators/bodies.rs
+++ b/rust/pact_matching/src/generators/bodies.rs
@@ -17,6 +17,16 @@ use pact_models::plugins::PluginData;
 
 #[cfg(feature = "form_urlencoded")] use pact_models::generators::form_urlencoded::FormUrlEncodedHandler;
 
+/// The generated contents with the content type and hint of the original body. If the original body
+/// does not have a content type of its own, the one used to generate the contents is set.
+fn with_type_of(generated: OptionalBody, original: &OptionalBody, content_type: &ContentType) -> OptionalBody {
+  match (generated, original) {
+    (OptionalBody::Present(bytes, _, _), OptionalBody::Present(_, original_type, hint)) =>
+      OptionalBody::Present(bytes, original_type.clone().or_else(|| Some(content_type.clone())), hint.clone()),
+    (generated, _) => generated
+  }
+}
+
 /// Apply the generators to the body, returning a new body
 #[allow(unused_variables)]
 pub async fn generators_process_body(
@@ -36,10 +46,12 @@ pub async fn generators_process_body(
       match result {
         Ok(val) => {
           let mut handler = JsonHandler { value: val };
-          Ok(handler.process_body(generators, mode, context, &matcher.boxed()).unwrap_or_else(|err| {
-            error!("Failed to generate the body: {}", err);
-            body.clone()
-          }))
+          Ok(handler.process_body(generators, mode, context, &matcher.boxed())
+            .map(|generated| with_type_of(generated, body, &content_type))
+            .unwrap_or_else(|err| {
+              error!("Failed to generate the body: {}", err);
+              body.clone()
+            }))
         },
         Err(err) => {
           error!("Failed to parse the body, so not applying any generators: {}", err);
@@ -77,10 +89,12 @@ pub async fn generators_process_body(
         match result {
           Ok(val) => {
             let mut handler = FormUrlEncodedHandler { params: val };
-            Ok(handler.process_body(generators, mode, context, &matcher.boxed()).unwrap_or_else(|err| {
-              error!("Failed to generate the body: {}", err);
-              body.clone()
-            }))
+            Ok(handler.process_body(generators, mode, context, &matcher.boxed())
+              .map(|generated| with_type_of(generated, body, &content_type))
+              .unwrap_or_else(|err| {
+                error!("Failed to generate the body: {}", err);
+                body.clone()
+              }))
           },
           Err(err) => {
             error!("Failed to parse the body, so not applying any generators: {}", err);
-- 
2.43.0


From 97782b17cc77f9c43235fd04a4ec06ef271003ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:57 +0000
Subject: [PATCH 085/139] fix: header generators replace the header whatever
 the case of its name

---
 rust/pact_matching/src/lib.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/rust/pact_matching/src/lib.rs b/rust/pact_matching/src/lib.rs
index e3e4253..0ec6bd6 100644
--- a/rust/pact_matching/src/lib.rs
+++ b/rust/pact_matching/src/lib.rs
@@ -2297,9 +2297,10 @@ pub async fn generate_request(request: &HttpRequest, mode: &GeneratorTestMode, c
     apply_generators(mode, &generators, &mut |key, generator| {
       if let Some(header) = key.first_field() {
         if let Some(ref mut headers) = request.headers {
-          if headers.contains_key(header) {
-            if let Ok(v) = generator.generate_value(&headers.get(header).unwrap().clone(), context, &DefaultVariantMatcher.boxed()) {
-              headers.insert(header.to_string(), v);
+          let name = headers.keys().find(|name| name.eq_ignore_ascii_case(header)).cloned();
+          if let Some(name) = name {
+            if let Ok(v) = generator.generate_value(&headers.get(&name).unwrap().clone(), context, &DefaultVariantMatcher.boxed()) {
+              headers.insert(name, v);
             }
           } else {
             if let Ok(v) = generator.generate_value(&"".to_string(), context, &DefaultVariantMatcher.boxed()) {
@@ -2378,9 +2379,10 @@ pub async fn generate_response(response: &HttpResponse, mode: &GeneratorTestMode
     apply_generators(mode, &generators, &mut |key, generator| {
       if let Some(header) = key.first_field() {
         if let Some(ref mut headers) = response.headers {
-          if headers.contains_key(header) {
-            if let Ok(v) = generator.generate_value(&headers.get(header).unwrap().clone(), context, &DefaultVariantMatcher.boxed()) {
-              headers.insert(header.to_string(), v);
+          let name = headers.keys().find(|name| name.eq_ignore_ascii_case(header)).cloned();
+          if let Some(name) = name {
+            if let Ok(v) = generator.generate_value(&headers.get(&name).unwrap().clone(), context, &DefaultVariantMatcher.boxed()) {
+              headers.insert(name, v);
             }
           } else {
             if let Ok(v) = generator.generate_value(&"".to_string(), context, &DefaultVariantMatcher.boxed()) {
-- 
2.43.0


From 8a9a1937585e5458ff85fddf9e82a035aae4d0f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:57 +0000
Subject: [PATCH 086/139] fix: apply array contains generators to V4 messages

---
 rust/pact_matching/src/generators/mod.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/rust/pact_matching/src/generators/mod.rs b/rust/pact_matching/src/generators/mod.rs
index 614167e..ad62f1b 100644
--- a/rust/pact_matching/src/generators/mod.rs
+++ b/rust/pact_matching/src/generators/mod.rs
@@ -11,7 +11,6 @@ use pact_models::generators::{
   Generator,
   GeneratorCategory,
   GeneratorTestMode,
-  NoopVariantMatcher,
   VariantMatcher
 };
 use pact_models::http_parts::HttpPart;
@@ -125,7 +124,7 @@ pub async fn apply_generators_to_sync_message(
   interaction_data: &HashMap<String, HashMap<String, Value>>
 ) -> (MessageContents, Vec<MessageContents>) {
   let mut request = message.request.clone();
-  let variant_matcher = NoopVariantMatcher {};
+  let variant_matcher = DefaultVariantMatcher {};
   let vm_boxed = variant_matcher.boxed();
 
   let generators = request.build_generators(&GeneratorCategory::METADATA);
@@ -189,7 +188,7 @@ pub async fn apply_generators_to_async_message(
   interaction_data: &HashMap<String, HashMap<String, Value>>
 ) -> MessageContents {
   let mut copy = message.contents.clone();
-  let variant_matcher = NoopVariantMatcher {};
+  let variant_matcher = DefaultVariantMatcher {};
   let vm_boxed = variant_matcher.boxed();
 
   let generators = message.build_generators(&GeneratorCategory::METADATA);
-- 
2.43.0


From ecd6052a3a2aa95364028bccda2c95f9a52188a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:40 +0000
Subject: [PATCH 087/139] fix: keep the pact file locked from reading the
 existing pact to writing the merged one

---
 rust/pact_models/src/pact.rs | 60 ++++++++++++++++++++----------------
 1 file changed, 34 insertions(+), 26 deletions(-)

diff --git a/rust/pact_models/src/pact.rs b/rust/pact_models/src/pact.rs
index f030933..ba2d44d 100644
--- a/rust/pact_models/src/pact.rs
+++ b/rust/pact_models/src/pact.rs
@@ -148,7 +148,12 @@ pub fn read_pact_from_file(file: &mut File, path: &Path) -> anyhow::Result<Box<d
     f.read_to_string(&mut buf)?;
     Ok(buf)
   })?;
-  let pact_json = serde_json::from_str(&buf)
+  parse_pact_file(&buf, path)
+}
+
+#[cfg(not(target_family = "wasm"))]
+fn parse_pact_file(buf: &str, path: &Path) -> anyhow::Result<Box<dyn Pact + Send + Sync + RefUnwindSafe>> {
+  let pact_json = serde_json::from_str(buf)
     .context("Failed to parse Pact JSON")
     .map_err(|err| {
       error!("read_pact_from_file: {}", err);
@@ -223,34 +228,37 @@ pub fn write_pact(
 ) -> anyhow::Result<()> {
   fs::create_dir_all(path.parent().unwrap())?;
   let _lock = WRITE_LOCK.lock().unwrap();
-  if !overwrite && path.exists() {
-    debug!("Merging pact with file {:?}", path);
-    let mut f = fs::OpenOptions::new().read(true).write(true).open(&path)?;
-    let existing_pact = read_pact_from_file(&mut f, path)?;
-
-    if existing_pact.specification_version() < pact.specification_version() {
-      warn!("Note: Existing pact is an older specification version ({:?}), and will be upgraded",
-            existing_pact.specification_version());
+  let new_pact_json = serde_json::to_string_pretty(&pact.to_json(pact_spec)?)?;
+  let mut file = fs::OpenOptions::new().read(true).write(true).create(true).open(path)?;
+  // The exclusive lock is held from reading the existing pact up to the merged one being written,
+  // otherwise another process could change the file in between
+  with_write_lock(path, &mut file, 3, &mut |f| {
+    let mut existing_json = String::new();
+    if !overwrite {
+      f.read_to_string(&mut existing_json)?;
     }
 
-    let merged_pact = pact.merge(existing_pact.deref())?;
-    let pact_json = serde_json::to_string_pretty(&merged_pact.to_json(pact_spec)?)?;
+    let merged_json = if existing_json.is_empty() {
+      debug!("Writing new pact file to {:?}", path);
+      None
+    } else {
+      debug!("Merging pact with file {:?}", path);
+      let existing_pact = parse_pact_file(&existing_json, path)?;
 
-    with_write_lock(path, &mut f, 3, &mut |f| {
-      f.set_len(0)?;
-      f.seek(SeekFrom::Start(0))?;
-      f.write_all(pact_json.as_bytes())?;
-      Ok(())
-    })
-  } else {
-    debug!("Writing new pact file to {:?}", path);
-    let result = serde_json::to_string_pretty(&pact.to_json(pact_spec)?)?;
-    let mut file = File::create(path)?;
-    with_write_lock(path, &mut file, 3, &mut |f| {
-      f.write_all(result.as_bytes())?;
-      Ok(())
-    })
-  }
+      if existing_pact.specification_version() < pact.specification_version() {
+        warn!("Note: Existing pact is an older specification version ({:?}), and will be upgraded",
+              existing_pact.specification_version());
+      }
+
+      let merged_pact = pact.merge(existing_pact.deref())?;
+      Some(serde_json::to_string_pretty(&merged_pact.to_json(pact_spec)?)?)
+    };
+
+    f.set_len(0)?;
+    f.seek(SeekFrom::Start(0))?;
+    f.write_all(merged_json.as_ref().unwrap_or(&new_pact_json).as_bytes())?;
+    Ok(())
+  })
 }
 
 
-- 
2.43.0


From 102a0ecf865303656e2e4d58e5436bce3c623f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:41 +0000
Subject: [PATCH 088/139] fix: overwrite_pact replaces the file under the write
 lock

---
 rust/pact_models/src/message_pact.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/rust/pact_models/src/message_pact.rs b/rust/pact_models/src/message_pact.rs
index ea070d7..e651061 100644
--- a/rust/pact_models/src/message_pact.rs
+++ b/rust/pact_models/src/message_pact.rs
@@ -17,7 +17,7 @@ use serde_json::{json, Map, Value};
 use tracing::debug;
 
 use crate::{Consumer, PactSpecification, Provider};
-#[cfg(not(target_family = "wasm"))] use crate::file_utils::with_read_lock;
+#[cfg(not(target_family = "wasm"))] use crate::file_utils::{with_read_lock, with_write_lock};
 #[cfg(not(target_family = "wasm"))] use crate::http_utils::{self, HttpAuth};
 use crate::interaction::{compare_identity, Interaction};
 use crate::message::Message;
@@ -258,13 +258,13 @@ impl MessagePact {
         fs::create_dir_all(path.parent().unwrap())?;
 
         debug!("Writing new pact file to {:?}", path);
-        let mut file = File::create(path)?;
-
-        file.write_all(
-          serde_json::to_string_pretty(&self.to_json(pact_spec)?)?.as_bytes()
-        )?;
-
-        Ok(())
+        let pact_json = serde_json::to_string_pretty(&self.to_json(pact_spec)?)?;
+        let mut file = fs::OpenOptions::new().write(true).create(true).truncate(false).open(path)?;
+        with_write_lock(path, &mut file, 3, &mut |f| {
+          f.set_len(0)?;
+          f.write_all(pact_json.as_bytes())?;
+          Ok(())
+        })
     }
 
     /// Returns a default MessagePact struct
-- 
2.43.0


From b726489a34659b649aed08be1935ae07c1f661a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:40 +0000
Subject: [PATCH 089/139] fix: verify the pact files in sub-directories of a
 pact directory

---
 rust/pact_verifier/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/pact_verifier/src/lib.rs b/rust/pact_verifier/src/lib.rs
index 042e7f5..2ed3c61 100644
--- a/rust/pact_verifier/src/lib.rs
+++ b/rust/pact_verifier/src/lib.rs
@@ -753,7 +753,7 @@ fn walkdir(
         let entry = entry?;
         let path = entry.path();
         if path.is_dir() {
-            walkdir(&path, provider)?;
+            pacts.extend(walkdir(&path, provider)?);
         } else {
           match timeit(|| read_pact(&path)) {
             Ok((pact, tm)) => {
-- 
2.43.0


From b9a12cff7555b16cdeb421ddad9be6c98a7f114c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:40 +0000
Subject: [PATCH 090/139] fix: sending a request with no retries configured
 must not panic

---
 rust/pact_verifier/src/utils.rs | 156 ++++++++++++++++----------------
 1 file changed, 78 insertions(+), 78 deletions(-)

diff --git a/rust/pact_verifier/src/utils.rs b/rust/pact_verifier/src/utils.rs
index 5c6840d..12529ea 100644
--- a/rust/pact_verifier/src/utils.rs
+++ b/rust/pact_verifier/src/utils.rs
@@ -1,78 +1,78 @@
-//! Utility functions
-
-use std::panic::RefUnwindSafe;
-use std::time::Duration;
-
-use futures::StreamExt;
-use pact_models::interaction::Interaction;
-use reqwest::RequestBuilder;
-use tokio::time::sleep;
-use tracing::{trace, warn};
-
-/// Retries a request on failure
-pub(crate) async fn with_retries(retries: u8, request: RequestBuilder) -> Result<reqwest::Response, reqwest::Error> {
-  match &request.try_clone() {
-    None => {
-      warn!("with_retries: Could not retry the request as it is not cloneable");
-      request.send().await
-    }
-    Some(rb) => {
-      futures::stream::iter((1..=retries).step_by(1))
-        .fold((None::<Result<reqwest::Response, reqwest::Error>>, rb.try_clone()), |(response, request), attempt| {
-          async move {
-            match request {
-              Some(request_builder) => match response {
-                None => {
-                  let next = request_builder.try_clone();
-                  (Some(request_builder.send().await), next)
-                },
-                Some(response) => {
-                  trace!("with_retries: attempt {}/{} is {:?}", attempt, retries, response);
-                  match response {
-                    Ok(ref res) => if res.status().is_server_error() {
-                      match request_builder.try_clone() {
-                        None => (Some(response), None),
-                        Some(rb) => {
-                          sleep(Duration::from_millis(10_u64.pow(attempt as u32))).await;
-                          (Some(request_builder.send().await), Some(rb))
-                        }
-                      }
-                    } else {
-                      (Some(response), None)
-                    },
-                    Err(ref err) => if err.is_status() {
-                      if err.status().unwrap_or_default().is_server_error() {
-                        match request_builder.try_clone() {
-                          None => (Some(response), None),
-                          Some(rb) => {
-                            sleep(Duration::from_millis(10_u64.pow(attempt as u32))).await;
-                            (Some(request_builder.send().await), Some(rb))
-                          }
-                        }
-                      } else {
-                        (Some(response), None)
-                      }
-                    } else {
-                      (Some(response), None)
-                    }
-                  }
-                }
-              }
-              None => (response, None)
-            }
-          }
-        }).await.0.unwrap()
-    }
-  }
-}
-
-pub(crate) fn as_safe_ref(interaction: &dyn Interaction) -> Box<dyn Interaction + Send + Sync + RefUnwindSafe> {
-  if let Some(v4) = interaction.as_v4_sync_message() {
-    Box::new(v4)
-  } else if let Some(v4) = interaction.as_v4_async_message() {
-    Box::new(v4)
-  } else {
-    let v4 = interaction.as_v4_http().unwrap();
-    Box::new(v4)
-  }
-}
+//! Utility functions
+
+use std::panic::RefUnwindSafe;
+use std::time::Duration;
+
+use futures::StreamExt;
+use pact_models::interaction::Interaction;
+use reqwest::RequestBuilder;
+use tokio::time::sleep;
+use tracing::{trace, warn};
+
+/// Retries a request on failure. The request will always be sent at least once.
+pub(crate) async fn with_retries(retries: u8, request: RequestBuilder) -> Result<reqwest::Response, reqwest::Error> {
+  match &request.try_clone() {
+    None => {
+      warn!("with_retries: Could not retry the request as it is not cloneable");
+      request.send().await
+    }
+    Some(rb) => {
+      futures::stream::iter((1..=retries.max(1)).step_by(1))
+        .fold((None::<Result<reqwest::Response, reqwest::Error>>, rb.try_clone()), |(response, request), attempt| {
+          async move {
+            match request {
+              Some(request_builder) => match response {
+                None => {
+                  let next = request_builder.try_clone();
+                  (Some(request_builder.send().await), next)
+                },
+                Some(response) => {
+                  trace!("with_retries: attempt {}/{} is {:?}", attempt, retries, response);
+                  match response {
+                    Ok(ref res) => if res.status().is_server_error() {
+                      match request_builder.try_clone() {
+                        None => (Some(response), None),
+                        Some(rb) => {
+                          sleep(Duration::from_millis(10_u64.pow(attempt as u32))).await;
+                          (Some(request_builder.send().await), Some(rb))
+                        }
+                      }
+                    } else {
+                      (Some(response), None)
+                    },
+                    Err(ref err) => if err.is_status() {
+                      if err.status().unwrap_or_default().is_server_error() {
+                        match request_builder.try_clone() {
+                          None => (Some(response), None),
+                          Some(rb) => {
+                            sleep(Duration::from_millis(10_u64.pow(attempt as u32))).await;
+                            (Some(request_builder.send().await), Some(rb))
+                          }
+                        }
+                      } else {
+                        (Some(response), None)
+                      }
+                    } else {
+                      (Some(response), None)
+                    }
+                  }
+                }
+              }
+              None => (response, None)
+            }
+          }
+        }).await.0.unwrap()
+    }
+  }
+}
+
+pub(crate) fn as_safe_ref(interaction: &dyn Interaction) -> Box<dyn Interaction + Send + Sync + RefUnwindSafe> {
+  if let Some(v4) = interaction.as_v4_sync_message() {
+    Box::new(v4)
+  } else if let Some(v4) = interaction.as_v4_async_message() {
+    Box::new(v4)
+  } else {
+    let v4 = interaction.as_v4_http().unwrap();
+    Box::new(v4)
+  }
+}
-- 
2.43.0


From b50a9c5970935cb6a6edbbca14ec633eb740fb64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:40 +0000
Subject: [PATCH 091/139] fix: show the after verification notices for the
 result of the pact they belong to

---
 rust/pact_verifier/src/lib.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rust/pact_verifier/src/lib.rs b/rust/pact_verifier/src/lib.rs
index 2ed3c61..4df1fd7 100644
--- a/rust/pact_verifier/src/lib.rs
+++ b/rust/pact_verifier/src/lib.rs
@@ -1079,19 +1079,20 @@ pub async fn verify_provider_async<F: RequestFilterExecutor, S: ProviderStateExe
               }
             }
 
+            let pact_failed = verify_result.is_err() || results.iter().any(|result| result.result.is_err());
             total_results += results.len();
             verification_result.interaction_results.extend_from_slice(results.as_slice());
 
             if let Some(publish) = publish_options {
               publish_result(results.as_slice(), &pact_source, &publish, metrics_data.as_ref()).await;
 
-              if !errors.is_empty() || !pending_errors.is_empty() {
+              if pact_failed {
                 process_notices(&context, VERIFICATION_NOTICE_AFTER_ERROR_RESULT_AND_PUBLISH, &mut verification_result);
               } else {
                 process_notices(&context, VERIFICATION_NOTICE_AFTER_SUCCESSFUL_RESULT_AND_PUBLISH, &mut verification_result);
               }
             } else {
-              if !errors.is_empty() || pending_errors.is_empty() {
+              if pact_failed {
                 process_notices(&context, VERIFICATION_NOTICE_AFTER_ERROR_RESULT_AND_NO_PUBLISH, &mut verification_result);
               } else {
                 process_notices(&context, VERIFICATION_NOTICE_AFTER_SUCCESSFUL_RESULT_AND_NO_PUBLISH, &mut verification_result);
-- 
2.43.0


From 083a3709c84fc20352d0a0e75e938373ca219f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:40 +0000
Subject: [PATCH 092/139] fix: an unexpected pacts for verification response is
 not the same as there being no pacts

---
 rust/pact_verifier/src/pact_broker.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/rust/pact_verifier/src/pact_broker.rs b/rust/pact_verifier/src/pact_broker.rs
index 3f186af..803dac3 100644
--- a/rust/pact_verifier/src/pact_broker.rs
+++ b/rust/pact_verifier/src/pact_broker.rs
@@ -700,11 +700,10 @@ pub async fn fetch_pacts_dynamically_from_broker(
     let pact_links = match response {
       Some(v) => {
         let pfv: PactsForVerificationResponse = serde_json::from_value(v)
-          .map_err(|err| {
-            trace!("Failed to deserialise PactsForVerificationResponse: {}", err);
-            err
-          })
-          .unwrap_or(PactsForVerificationResponse { embedded: PactsForVerificationBody { pacts: vec!() } });
+          .map_err(|err| PactBrokerError::ContentError(
+            format!("Did not get a valid pacts for verification response from the pact broker - {}. URL: '{}'",
+              err, &hal_client.url)
+          ))?;
         trace!(?pfv, "got pacts for verification response");
 
         if pfv.embedded.pacts.len() == 0 {
@@ -1164,6 +1163,7 @@ pub struct PactVerificationProperties {
   #[serde(default)]
   /// If the Pact is pending
   pub pending: bool,
+  #[serde(default)]
   /// Notices provided by the Pact Broker
   pub notices: Vec<HashMap<String, String>>,
 }
-- 
2.43.0


From 8fdd047181cb07054601b8be90a383ffee439775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:40 +0000
Subject: [PATCH 093/139] fix: a pact that can not be found using its link is
 not the same as there being no pacts

---
 rust/pact_verifier/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/pact_verifier/src/lib.rs b/rust/pact_verifier/src/lib.rs
index 4df1fd7..b6fa709 100644
--- a/rust/pact_verifier/src/lib.rs
+++ b/rust/pact_verifier/src/lib.rs
@@ -1322,7 +1322,7 @@ async fn fetch_pact(
                   tm.clone()
                 )));
               },
-              Err(err) => buffer.push(Err(anyhow::Error::new(err.clone()).context(format!("Failed to load pact from '{}'", broker_url))))
+              Err(err) => buffer.push(Err(anyhow!("Failed to load pact from '{}': {}", broker_url, err)))
             }
           }
           buffer
-- 
2.43.0


From 3fab00037e07923861cd782f8e73678a0d1839a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:40 +0000
Subject: [PATCH 094/139] fix: do not drop the query string when following
 links from the Pact Broker

---
 rust/pact_verifier/src/pact_broker.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/rust/pact_verifier/src/pact_broker.rs b/rust/pact_verifier/src/pact_broker.rs
index 803dac3..03ddcd6 100644
--- a/rust/pact_verifier/src/pact_broker.rs
+++ b/rust/pact_verifier/src/pact_broker.rs
@@ -286,7 +286,7 @@ impl HALClient {
 
     let base_url = self.url.parse::<Url>()?;
     let joined_url = base_url.join(&link_url)?;
-    self.fetch(joined_url.path().into()).await
+    self.fetch(path_and_query(&joined_url).as_str()).await
   }
 
   async fn fetch(&self, path: &str) -> Result<Value, PactBrokerError> {
@@ -329,9 +329,7 @@ impl HALClient {
         base_url.set_path("/");
         base_url.join(path)?
       } else if path.starts_with("/") {
-        let mut base_url = broker_url.clone();
-        base_url.set_path(path);
-        base_url
+        broker_url.join(path)?
       } else {
         let mut base_url = broker_url.clone();
         let mut cp = context_path.to_string();
@@ -477,7 +475,7 @@ impl HALClient {
       base_url.join(url)?
     } else {
       let url = url.parse::<Url>()?;
-      base_url.join(&url.path())?
+      base_url.join(path_and_query(&url).as_str())?
     };
 
     let request_builder = match self.auth {
@@ -517,6 +515,14 @@ impl HALClient {
   }
 }
 
+/// Path of the URL with its query string, if it has one
+fn path_and_query(url: &Url) -> String {
+  match url.query() {
+    Some(query) => format!("{}?{}", url.path(), query),
+    None => url.path().to_string()
+  }
+}
+
 fn handle_validation_errors(body: Value) -> PactBrokerError {
   match &body {
     Value::Object(attrs) => if let Some(errors) = attrs.get("errors") {
-- 
2.43.0


From dab487236f56f7985d38ec4b68140dde69d367f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:26 +0000
Subject: [PATCH 095/139] fix: send query parameters that have no value when
 verifying a provider

---
 rust/pact_verifier/src/provider_client.rs | 44 +++++++++++++++++------
 1 file changed, 33 insertions(+), 11 deletions(-)

diff --git a/rust/pact_verifier/src/provider_client.rs b/rust/pact_verifier/src/provider_client.rs
index 28385a8..2d0040c 100644
--- a/rust/pact_verifier/src/provider_client.rs
+++ b/rust/pact_verifier/src/provider_client.rs
@@ -19,7 +19,7 @@ use pact_models::bodies::OptionalBody;
 use pact_models::content_types::ContentType;
 use pact_models::headers::parse_header;
 use pact_models::v4::http_parts::{HttpRequest, HttpResponse};
-use reqwest::{Client, Error, RequestBuilder};
+use reqwest::{Client, Error, RequestBuilder, Url};
 use serde_json::Value;
 use tracing::{debug, info, trace, warn};
 
@@ -36,6 +36,8 @@ pub enum ProviderClientError {
     RequestHeaderNameError(String, InvalidHeaderName),
     /// Invalid header value
     RequestHeaderValueError(String, InvalidHeaderValue),
+    /// Invalid URL
+    RequestUrlError(String, String),
     /// Error ocurred with the request body
     RequestBodyError(String),
     /// Error dealing with the response
@@ -59,6 +61,8 @@ impl Display for ProviderClientError {
         write!(f, "Invalid header name: '{}'", name),
       ProviderClientError::RequestHeaderValueError(ref value, _) =>
         write!(f, "Invalid header value: '{}'", value),
+      ProviderClientError::RequestUrlError(ref url, ref message) =>
+        write!(f, "Invalid request URL: '{}' - {}", url, message),
       ProviderClientError::RequestBodyError(ref message) =>
         write!(f, "Invalid request body: '{}'", message),
       ProviderClientError::ResponseError(ref message) =>
@@ -85,23 +89,41 @@ pub fn join_paths(base: &str, path: &str) -> String {
   }
 }
 
+/// Parses the URL and adds the query parameters to it. Parameters without a value are added as just
+/// the name.
+fn build_url(
+  url: &str,
+  query: &Option<HashMap<String, Vec<Option<String>>>>
+) -> Result<Url, ProviderClientError> {
+  let mut url = Url::parse(url)
+    .map_err(|err| ProviderClientError::RequestUrlError(url.to_string(), err.to_string()))?;
+
+  if let Some(query) = query {
+    if query.values().any(|values| !values.is_empty()) {
+      let mut pairs = url.query_pairs_mut();
+      for (name, values) in query.iter().sorted_by(|a, b| Ord::cmp(&a.0, &b.0)) {
+        for value in values {
+          match value {
+            Some(value) => pairs.append_pair(name, value),
+            None => pairs.append_key_only(name)
+          };
+        }
+      }
+    }
+  }
+
+  Ok(url)
+}
+
 fn create_native_request(
   client: &Client,
   base_url: &str,
   request: &HttpRequest,
   custom_headers: &HashMap<String, String>
 ) -> Result<RequestBuilder, ProviderClientError> {
-  let url = join_paths(base_url, &request.path.clone());
+  let url = build_url(&join_paths(base_url, &request.path), &request.query)?;
   let mut builder = client.request(Method::from_bytes(
-    &request.method.clone().into_bytes()).unwrap_or(Method::GET), &url);
-
-  if let Some(query) = &request.query {
-    builder = builder.query(&query.iter()
-      .sorted_by(|a, b| Ord::cmp(&a.0, &b.0))
-      .flat_map(|(k, v)| {
-        v.iter().map(|v| (k, v)).collect_vec()
-      }).collect_vec());
-  }
+    &request.method.clone().into_bytes()).unwrap_or(Method::GET), url);
 
   if let Some(headers) = &request.headers {
     let mut header_map = HeaderMap::new();
-- 
2.43.0


From 26bafaea3dfef2c6a161e2892bc2303496ecdf78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:26 +0000
Subject: [PATCH 096/139] fix: custom headers replace the headers from the pact
 whatever their case

---
 rust/pact_verifier/src/provider_client.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rust/pact_verifier/src/provider_client.rs b/rust/pact_verifier/src/provider_client.rs
index 2d0040c..87a1266 100644
--- a/rust/pact_verifier/src/provider_client.rs
+++ b/rust/pact_verifier/src/provider_client.rs
@@ -128,7 +128,8 @@ fn create_native_request(
   if let Some(headers) = &request.headers {
     let mut header_map = HeaderMap::new();
     for (k, vals) in headers {
-      if !custom_headers.contains_key(k) {
+      // header names are not case sensitive
+      if !custom_headers.keys().any(|name| name.eq_ignore_ascii_case(k)) {
         for header_value in vals {
           let header_name = HeaderName::try_from(k)
             .map_err(|err| ProviderClientError::RequestHeaderNameError(
-- 
2.43.0


From 5061857f4a64cdfe2e9041fc96c4e53854203fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:26 +0000
Subject: [PATCH 097/139] fix: publishing results without a provider version is
 an error and not a panic

---
 rust/pact_verifier/src/lib.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rust/pact_verifier/src/lib.rs b/rust/pact_verifier/src/lib.rs
index b6fa709..17d9b27 100644
--- a/rust/pact_verifier/src/lib.rs
+++ b/rust/pact_verifier/src/lib.rs
@@ -1613,6 +1613,11 @@ async fn publish_to_broker(
   auth: Option<HttpAuth>,
   metrics_data: Option<&VerificationMetrics>
 ) -> Result<Value, pact_broker::PactBrokerError> {
+  let provider_version = provider_version.clone()
+    .ok_or_else(|| PactBrokerError::ValidationError(vec![
+      "The provider version is required to publish verification results".to_string()
+    ]))?;
+
   info!("Publishing verification results back to the Pact Broker");
   let result = if results.iter().all(|r| r.result.is_ok()) {
     debug!("Publishing a successful result to {}", source);
@@ -1630,7 +1635,7 @@ async fn publish_to_broker(
     broker_url.as_str(),
     auth.clone(),
     result,
-    provider_version.clone().unwrap(),
+    provider_version,
     build_url.clone(),
     provider_tags.clone(),
     provider_branch.clone(),
-- 
2.43.0


From 8b10e9e9a957b9f9275d3c5413c14a7cdf8b583f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:07 +0000
Subject: [PATCH 098/139] fix: the v2 engine reports a body that is not of the
 expected type

---
 rust/pact_matching/src/engine/interpreter.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/rust/pact_matching/src/engine/interpreter.rs b/rust/pact_matching/src/engine/interpreter.rs
index 8a65d19..690489e 100644
--- a/rust/pact_matching/src/engine/interpreter.rs
+++ b/rust/pact_matching/src/engine/interpreter.rs
@@ -1266,10 +1266,15 @@ impl ExecutionPlanInterpreter {
               }
               Err(err) => {
                 if let Some(error_node) = optional.first() {
-                  self.push_result(Some(NodeResult::ERROR(err.to_string())));
-                  match self.walk_tree(action_path.as_slice(), error_node, value_resolver) {
+                  self.push_result(Some(NodeResult::VALUE(NodeValue::STRING(err.to_string()))));
+                  let result = self.walk_tree(action_path.as_slice(), error_node, value_resolver);
+                  self.pop_result();
+                  match result {
                     Ok(error_node) => {
-                      let message = error_node.value().unwrap_or_default().as_string().unwrap_or_default();
+                      let message = match error_node.value().unwrap_or_default() {
+                        NodeResult::ERROR(message) => message,
+                        result => result.as_string().unwrap_or_default()
+                      };
                       Err(ExecutionPlanNode {
                         node_type: node.node_type.clone(),
                         result: Some(NodeResult::ERROR(message)),
-- 
2.43.0


From 9e53966ae31729ccbcffcb3c7e482e064b4d61b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:07 +0000
Subject: [PATCH 099/139] fix: the v2 engine does not fail when a later
 alternative of an OR matches

---
 rust/pact_matching/src/engine/interpreter.rs | 33 ++++++++++++++------
 rust/pact_matching/src/engine/mod.rs         |  9 ++++++
 2 files changed, 33 insertions(+), 9 deletions(-)

diff --git a/rust/pact_matching/src/engine/interpreter.rs b/rust/pact_matching/src/engine/interpreter.rs
index 690489e..baf0ee4 100644
--- a/rust/pact_matching/src/engine/interpreter.rs
+++ b/rust/pact_matching/src/engine/interpreter.rs
@@ -1992,17 +1992,32 @@ impl ExecutionPlanInterpreter {
     node: &ExecutionPlanNode,
     path: &Vec<String>
   ) -> ExecutionPlanNode {
-    match self.evaluate_children(value_resolver, node, path) {
-      Ok((children, values)) => {
-        ExecutionPlanNode {
-          node_type: node.node_type.clone(),
-          result: Some(NodeResult::VALUE(values.iter().fold(NodeValue::NULL, |result, value| {
-            result.or(value)
-          }))),
-          children
+    let mut children = vec![];
+    let mut errors = vec![];
+    let mut result = NodeValue::NULL;
+    for child in &node.children {
+      match self.walk_tree(path.as_slice(), child, value_resolver) {
+        Ok(child_result) => {
+          match child_result.value() {
+            Some(NodeResult::VALUE(value)) => result = result.or(&value),
+            Some(NodeResult::ERROR(err)) => errors.push(err),
+            _ => {}
+          }
+          children.push(child_result);
         }
+        Err(err) => errors.push(err.to_string())
       }
-      Err(err) => err
+    }
+
+    // Only one of the alternatives has to be successful
+    ExecutionPlanNode {
+      node_type: node.node_type.clone(),
+      result: Some(if errors.is_empty() || result.truthy() {
+        NodeResult::VALUE(result)
+      } else {
+        NodeResult::ERROR(errors.join(", "))
+      }),
+      children
     }
   }
 
diff --git a/rust/pact_matching/src/engine/mod.rs b/rust/pact_matching/src/engine/mod.rs
index 13ce759..d3dfffe 100644
--- a/rust/pact_matching/src/engine/mod.rs
+++ b/rust/pact_matching/src/engine/mod.rs
@@ -1125,10 +1125,19 @@ impl ExecutionPlanNode {
     })
   }
 
+  /// If this is an OR action where at least one of the alternatives was successful
+  fn is_satisfied_or(&self) -> bool {
+    matches!(&self.node_type, PlanNodeType::ACTION(action) if action == "or")
+      && self.result.as_ref().map(|result| result.is_truthy()).unwrap_or(false)
+  }
+
   /// Returns all the errors from the child nodes, either terminating at any child containers
   /// ot just returning all errors.
   pub fn child_errors(&self, terminator: Terminator) -> Vec<String> {
     let mut errors = vec![];
+    if self.is_satisfied_or() {
+      return errors;
+    }
     for child in &self.children {
       if child.is_container() && terminator == Terminator::ALL || !child.is_container() {
         if let Some(NodeResult::ERROR(error)) = &child.result {
-- 
2.43.0


From 0556e32c54afe40a2273b6526adf870acbc8c898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:07 +0000
Subject: [PATCH 100/139] fix: the v2 engine lower-cases header names in rules
 as it does for headers

---
 rust/pact_matching/src/engine/context.rs | 9 ++++++++-
 rust/pact_matching/src/engine/mod.rs     | 2 +-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/rust/pact_matching/src/engine/context.rs b/rust/pact_matching/src/engine/context.rs
index 1477c25..34a36e6 100644
--- a/rust/pact_matching/src/engine/context.rs
+++ b/rust/pact_matching/src/engine/context.rs
@@ -158,7 +158,14 @@ impl PlanMatchingContext {
   /// Creates a clone of this context, but with the matching rules set for the Request Headers
   pub fn for_headers(&self) -> Self {
     let matching_rules = if let Some(req_res) = self.interaction.as_v4_http() {
-      req_res.request.matching_rules.rules_for_category("header").unwrap_or_default()
+      let rules = req_res.request.matching_rules.rules_for_category("header").unwrap_or_default();
+      // Header names are case-insensitive
+      MatchingRuleCategory {
+        name: rules.name.clone(),
+        rules: rules.rules.iter()
+          .map(|(path, rules)| (path.to_lower_case(), rules.clone()))
+          .collect()
+      }
     } else {
       MatchingRuleCategory::default()
     };
diff --git a/rust/pact_matching/src/engine/mod.rs b/rust/pact_matching/src/engine/mod.rs
index d3dfffe..b467c67 100644
--- a/rust/pact_matching/src/engine/mod.rs
+++ b/rust/pact_matching/src/engine/mod.rs
@@ -1523,7 +1523,7 @@ fn setup_header_plan(
               .add(ExecutionPlanNode::resolve_value(doc_path.join(key)))
           );
 
-        let item_path = DocPath::root().join(key);
+        let item_path = DocPath::root().join(key.to_lowercase());
         let path = doc_path.join(key);
         if context.matcher_is_defined(&item_path) {
           let matchers = context.select_best_matcher(&item_path);
-- 
2.43.0


From a3072e0bbc5f5e42dd0be2d28188b2e2495725fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:07 +0000
Subject: [PATCH 101/139] fix: the v2 engine does not match an empty list of
 values

---
 rust/pact_matching/src/engine/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rust/pact_matching/src/engine/mod.rs b/rust/pact_matching/src/engine/mod.rs
index b467c67..360e098 100644
--- a/rust/pact_matching/src/engine/mod.rs
+++ b/rust/pact_matching/src/engine/mod.rs
@@ -386,6 +386,9 @@ impl Matches<NodeValue> for NodeValue {
       NodeValue::STRING(s) => if let Some(actual_str) = actual.as_string() {
         s.matches_with(actual_str, matcher, cascaded)
       } else if let Some(list) = actual.as_slist() {
+        if list.is_empty() {
+          return Err(anyhow!("Expected '{}' but the actual list of values was empty", s));
+        }
         let result = list.iter()
           .map(|item| s.matches_with(item, matcher, cascaded))
           .filter_map(|r| match r {
-- 
2.43.0


From c5cf7248beb5d60784d41b94ab46e420cbee64be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:07 +0000
Subject: [PATCH 102/139] fix: the v2 engine applies matching rules to text
 bodies

---
 rust/pact_matching/src/engine/bodies.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/rust/pact_matching/src/engine/bodies.rs b/rust/pact_matching/src/engine/bodies.rs
index 7d56aaf..33a1867 100644
--- a/rust/pact_matching/src/engine/bodies.rs
+++ b/rust/pact_matching/src/engine/bodies.rs
@@ -64,12 +64,19 @@ impl PlanBodyBuilder for PlainTextBuilder {
     content_type.is_text()
   }
 
-  fn build_plan(&self, content: &Bytes, _context: &PlanMatchingContext) -> anyhow::Result<ExecutionPlanNode> {
+  fn build_plan(&self, content: &Bytes, context: &PlanMatchingContext) -> anyhow::Result<ExecutionPlanNode> {
     let bytes = content.to_vec();
     let text_content = String::from_utf8_lossy(&bytes);
-    let mut node = ExecutionPlanNode::action("match:equality");
     let mut child_node = ExecutionPlanNode::action("convert:UTF8");
     child_node.add(ExecutionPlanNode::resolve_value(DocPath::new_unwrap("$.body")));
+
+    let path = DocPath::root();
+    if context.matcher_is_defined(&path) {
+      return Ok(build_matching_rule_node(&ExecutionPlanNode::value_node(text_content.to_string()),
+        &child_node, &context.select_best_matcher(&path), false));
+    }
+
+    let mut node = ExecutionPlanNode::action("match:equality");
     node.add(ExecutionPlanNode::value_node(text_content.to_string()));
     node.add(child_node);
     node.add(ExecutionPlanNode::value_node(NodeValue::NULL));
-- 
2.43.0


From d0525b7629a6203f9d8898a6d710ab450f5d568b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:12 +0000
Subject: [PATCH 103/139] fix: the v2 engine applies the rules of JSON array
 items

---
 rust/pact_matching/src/engine/bodies.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rust/pact_matching/src/engine/bodies.rs b/rust/pact_matching/src/engine/bodies.rs
index 33a1867..0ae3e99 100644
--- a/rust/pact_matching/src/engine/bodies.rs
+++ b/rust/pact_matching/src/engine/bodies.rs
@@ -128,7 +128,7 @@ impl JsonPlanBuilder {
                   );
                 if context.matcher_is_defined(&item_path) {
                   let matchers = context.select_best_matcher(&item_path);
-                  presence_check.add(ExecutionPlanNode::annotation(format!("[*] {}", matchers.generate_description(false))));
+                  item_node.add(ExecutionPlanNode::annotation(format!("[*] {}", matchers.generate_description(false))));
                   presence_check.add(build_matching_rule_node(&ExecutionPlanNode::value_node(template),
                                                               &ExecutionPlanNode::resolve_current_value(&item_path), &matchers, false));
                 } else {
@@ -174,7 +174,7 @@ impl JsonPlanBuilder {
                   );
                 if context.matcher_is_defined(&item_path) {
                   let matchers = context.select_best_matcher(&item_path);
-                  presence_check.add(ExecutionPlanNode::annotation(format!("[{}] {}", index, matchers.generate_description(false))));
+                  item_node.add(ExecutionPlanNode::annotation(format!("[{}] {}", index, matchers.generate_description(false))));
                   presence_check.add(build_matching_rule_node(&ExecutionPlanNode::value_node(item),
                                                               &ExecutionPlanNode::resolve_current_value(&item_path), &matchers, false));
                 } else {
-- 
2.43.0


From fca221e9a24959d6358bb022476ce324b92b326d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:13 +0000
Subject: [PATCH 104/139] fix: the v2 engine compares nested arrays and objects
 in JSON arrays

---
 rust/pact_matching/src/engine/bodies.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/pact_matching/src/engine/bodies.rs b/rust/pact_matching/src/engine/bodies.rs
index 0ae3e99..f7cbb9d 100644
--- a/rust/pact_matching/src/engine/bodies.rs
+++ b/rust/pact_matching/src/engine/bodies.rs
@@ -186,9 +186,9 @@ impl JsonPlanBuilder {
                   );
                 }
                 item_node.add(presence_check);
-                root_node.add(item_node);
               }
             }
+            root_node.add(item_node);
           }
         }
       }
-- 
2.43.0


From e2750c9ea562f2ba0d62e535f7bae16bf5e36e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:20 +0000
Subject: [PATCH 105/139] fix: the v2 engine does not match several values with
 a single expected value

---
 rust/pact_matching/src/engine/mod.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/rust/pact_matching/src/engine/mod.rs b/rust/pact_matching/src/engine/mod.rs
index 360e098..5a98f2f 100644
--- a/rust/pact_matching/src/engine/mod.rs
+++ b/rust/pact_matching/src/engine/mod.rs
@@ -396,10 +396,12 @@ impl Matches<NodeValue> for NodeValue {
             Err(err) => Some(err.to_string())
           })
           .collect_vec();
-        if result.is_empty() {
-          Ok(())
-        } else {
+        if !result.is_empty() {
           Err(anyhow!(result.join(", ")))
+        } else if list.len() > 1 && *matcher == MatchingRule::Equality {
+          Err(anyhow!("Expected a single value '{}' but got {} values", s, list.len()))
+        } else {
+          Ok(())
         }
       } else {
         s.matches_with(actual.to_string(), matcher, cascaded)
-- 
2.43.0


From 7e88dcbfe1a031d0c160999e8800a956f3664add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:21 +0000
Subject: [PATCH 106/139] fix: the v2 engine finds parameters and headers whose
 name is a number or a wildcard

---
 rust/pact_matching/src/engine/mod.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/rust/pact_matching/src/engine/mod.rs b/rust/pact_matching/src/engine/mod.rs
index 5a98f2f..568f931 100644
--- a/rust/pact_matching/src/engine/mod.rs
+++ b/rust/pact_matching/src/engine/mod.rs
@@ -1428,11 +1428,11 @@ fn setup_query_plan(
         presence_check
           .add(
             ExecutionPlanNode::action("check:exists")
-              .add(ExecutionPlanNode::resolve_value(doc_path.join(key)))
+              .add(ExecutionPlanNode::resolve_value(doc_path.join_field(key)))
           );
 
-        let item_path = DocPath::root().join(key);
-        let path = doc_path.join(key);
+        let item_path = DocPath::root().join_field(key);
+        let path = doc_path.join_field(key);
         if context.matcher_is_defined(&item_path) {
           let matchers = context.select_best_matcher(&item_path);
           item_node.add(ExecutionPlanNode::annotation(format!("{} {}", key, matchers.generate_description(true))));
@@ -1525,11 +1525,11 @@ fn setup_header_plan(
         presence_check
           .add(
             ExecutionPlanNode::action("check:exists")
-              .add(ExecutionPlanNode::resolve_value(doc_path.join(key)))
+              .add(ExecutionPlanNode::resolve_value(doc_path.join_field(key)))
           );
 
-        let item_path = DocPath::root().join(key.to_lowercase());
-        let path = doc_path.join(key);
+        let item_path = DocPath::root().join_field(key.to_lowercase());
+        let path = doc_path.join_field(key);
         if context.matcher_is_defined(&item_path) {
           let matchers = context.select_best_matcher(&item_path);
           item_node.add(ExecutionPlanNode::annotation(format!("{} {}", key, matchers.generate_description(true))));
@@ -1542,7 +1542,7 @@ fn setup_header_plan(
             presence_check.add(apply_node);
           } else {
             for (index, item_value) in value.iter().enumerate() {
-              let item_path = doc_path.join(key).join_index(index);
+              let item_path = doc_path.join_field(key).join_index(index);
               let mut item_node = ExecutionPlanNode::container(index.to_string());
               let apply_node = build_parameterised_header_plan(
                 &item_path, item_value.as_str());
@@ -1555,7 +1555,7 @@ fn setup_header_plan(
           let mut item_check = ExecutionPlanNode::action("match:equality");
           item_check
             .add(ExecutionPlanNode::value_node(item_value))
-            .add(ExecutionPlanNode::resolve_value(doc_path.join(key)))
+            .add(ExecutionPlanNode::resolve_value(doc_path.join_field(key)))
             .add(ExecutionPlanNode::value_node(NodeValue::NULL));
           presence_check.add(item_check);
         }
@@ -1613,11 +1613,11 @@ fn build_parameterised_header_plan(doc_path: &DocPath, val: &str) -> ExecutionPl
       parameter_node.add(
         ExecutionPlanNode::action("if")
           .add(ExecutionPlanNode::action("check:exists")
-            .add(ExecutionPlanNode::resolve_current_value(&parameter_path.join(k.as_str()))))
+            .add(ExecutionPlanNode::resolve_current_value(&parameter_path.join_field(k.as_str()))))
           .add(ExecutionPlanNode::action("match:equality")
             .add(ExecutionPlanNode::value_node(v.to_lowercase()))
             .add(ExecutionPlanNode::action("lower-case")
-              .add(ExecutionPlanNode::resolve_current_value(&parameter_path.join(k.as_str()))))
+              .add(ExecutionPlanNode::resolve_current_value(&parameter_path.join_field(k.as_str()))))
             .add(ExecutionPlanNode::value_node(NodeValue::NULL)))
           .add(ExecutionPlanNode::action("error")
             .add(ExecutionPlanNode::value_node(
-- 
2.43.0


From 0e3c8c9f83ae371e42ce19c858d204b851b3f618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:34 +0000
Subject: [PATCH 107/139] fix: matching rules for header names that differ only
 in case apply in an order of their own

---
 rust/pact_matching/src/engine/context.rs | 1 +
 rust/pact_matching/src/lib.rs            | 1 +
 2 files changed, 2 insertions(+)

diff --git a/rust/pact_matching/src/engine/context.rs b/rust/pact_matching/src/engine/context.rs
index 34a36e6..f78615e 100644
--- a/rust/pact_matching/src/engine/context.rs
+++ b/rust/pact_matching/src/engine/context.rs
@@ -163,6 +163,7 @@ impl PlanMatchingContext {
       MatchingRuleCategory {
         name: rules.name.clone(),
         rules: rules.rules.iter()
+          .sorted_by(|(a, _), (b, _)| Ord::cmp(a, b))
           .map(|(path, rules)| (path.to_lower_case(), rules.clone()))
           .collect()
       }
diff --git a/rust/pact_matching/src/lib.rs b/rust/pact_matching/src/lib.rs
index 0ec6bd6..b087ab5 100644
--- a/rust/pact_matching/src/lib.rs
+++ b/rust/pact_matching/src/lib.rs
@@ -684,6 +684,7 @@ impl HeaderMatchingContext {
         &MatchingRuleCategory {
           name: matchers.name.clone(),
           rules: matchers.rules.iter()
+            .sorted_by(|(a, _), (b, _)| Ord::cmp(a, b))
             .map(|(path, rules)| {
               (path.to_lower_case(), rules.clone())
             })
-- 
2.43.0


From a49a782c6afd67506af7b325edbe197499812d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:34 +0000
Subject: [PATCH 108/139] fix: generators are applied in the order of their
 keys

---
 rust/pact_models/src/generators/form_urlencoded.rs |  3 ++-
 rust/pact_models/src/generators/mod.rs             | 13 ++++++++-----
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/rust/pact_models/src/generators/form_urlencoded.rs b/rust/pact_models/src/generators/form_urlencoded.rs
index 2a498d9..5d87dcb 100644
--- a/rust/pact_models/src/generators/form_urlencoded.rs
+++ b/rust/pact_models/src/generators/form_urlencoded.rs
@@ -1,6 +1,7 @@
 
 use std::collections::HashMap;
 
+use itertools::Itertools;
 use serde_json::Value;
 use tracing::debug;
 use anyhow::{anyhow, Result};
@@ -25,7 +26,7 @@ impl ContentTypeHandler<String> for FormUrlEncodedHandler {
     context: &HashMap<&str, Value>,
     matcher: &Box<dyn VariantMatcher + Send + Sync>
   ) -> Result<OptionalBody, String> {
-    for (key, generator) in generators {
+    for (key, generator) in generators.iter().sorted_by(|(a, _), (b, _)| Ord::cmp(a, b)) {
       if generator.corresponds_to_mode(mode) {
         debug!("Applying generator {:?} to key {}", generator, key);
         self.apply_key(key, generator, context, matcher);
diff --git a/rust/pact_models/src/generators/mod.rs b/rust/pact_models/src/generators/mod.rs
index 4058488..b27f877 100644
--- a/rust/pact_models/src/generators/mod.rs
+++ b/rust/pact_models/src/generators/mod.rs
@@ -686,13 +686,14 @@ impl Default for Generators {
   }
 }
 
-/// If the mode applies, invoke the callback for each of the generators
+/// If the mode applies, invoke the callback for each of the generators. They are applied in the order
+/// of their keys.
 pub fn apply_generators<F>(
   mode: &GeneratorTestMode,
   generators: &HashMap<DocPath, Generator>,
   closure: &mut F
 ) where F: FnMut(&DocPath, &Generator) {
-  for (key, value) in generators {
+  for (key, value) in generators.iter().sorted_by(|(a, _), (b, _)| Ord::cmp(a, b)) {
     if value.corresponds_to_mode(mode) {
       closure(&key, &value)
     }
@@ -1217,8 +1218,8 @@ impl GenerateValue<Value> for Generator {
             if let Some((variant, generators)) = matcher.find_matching_variant(value, variants) {
               debug!("Generating values for variant {} and value {}", variant, value);
               let mut handler = JsonHandler { value: value.clone() };
-              for (key, generator) in generators {
-                handler.apply_key(&key, &generator, context, matcher);
+              for (key, generator) in generators.iter().sorted_by(|(a, _), (b, _)| Ord::cmp(a, b)) {
+                handler.apply_key(key, generator, context, matcher);
               };
               debug!("Generated value {}", handler.value);
               result[index] = handler.value.clone();
@@ -1248,7 +1249,9 @@ impl ContentTypeHandler<Value> for JsonHandler {
     context: &HashMap<&str, Value>,
     matcher: &Box<dyn VariantMatcher + Send + Sync>
   ) -> Result<OptionalBody, String> {
-    for (key, generator) in generators {
+    // An expression that comes later can overwrite the value from an earlier one, so the order must not
+    // be the one of the map
+    for (key, generator) in generators.iter().sorted_by(|(a, _), (b, _)| Ord::cmp(a, b)) {
       if generator.corresponds_to_mode(mode) {
         debug!("Applying generator {:?} to key {}", generator, key);
         self.apply_key(key, generator, context, matcher);
-- 
2.43.0


From 44e74b954e48adac6c30696c2b6dc7a940622d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:34 +0000
Subject: [PATCH 109/139] fix: looking up one of several headers whose names
 differ only in case always finds the same one

---
 rust/pact_matching/src/engine/value_resolvers.rs | 1 +
 rust/pact_matching/src/headers.rs                | 7 ++++++-
 rust/pact_matching/src/lib.rs                    | 4 ++--
 rust/pact_models/src/http_parts.rs               | 5 +++--
 rust/pact_models/src/json_utils.rs               | 2 +-
 rust/pact_models/src/v4/http_parts.rs            | 8 +++++---
 rust/pact_models/src/v4/mod.rs                   | 2 +-
 7 files changed, 19 insertions(+), 10 deletions(-)

diff --git a/rust/pact_matching/src/engine/value_resolvers.rs b/rust/pact_matching/src/engine/value_resolvers.rs
index 22140c8..ff9e676 100644
--- a/rust/pact_matching/src/engine/value_resolvers.rs
+++ b/rust/pact_matching/src/engine/value_resolvers.rs
@@ -63,6 +63,7 @@ impl ValueResolver for HttpRequestValueResolver {
             .clone()
             .unwrap_or_default()
             .iter()
+            .sorted_by(|(a, _), (b, _)| Ord::cmp(b, a))
             .map(|(k, v)| (k.to_lowercase(), v.clone()))
             .collect();
           if path.len() == 2 || (path.len() == 3 && path.is_wildcard()) {
diff --git a/rust/pact_matching/src/headers.rs b/rust/pact_matching/src/headers.rs
index 11bb352..fefd696 100644
--- a/rust/pact_matching/src/headers.rs
+++ b/rust/pact_matching/src/headers.rs
@@ -126,7 +126,12 @@ pub(crate) fn match_header_value(
 }
 
 fn find_entry<T>(map: &HashMap<String, T>, key: &str) -> Option<(String, T)> where T: Clone {
-  match map.keys().find(|k| k.to_lowercase() == key.to_lowercase() ) {
+  // An entry with exactly the same name comes first, otherwise the outcome would depend on the order
+  // of the keys when there is more than one with the same name apart from the case
+  if let Some(value) = map.get(key) {
+    return Some((key.to_string(), value.clone()));
+  }
+  match map.keys().filter(|k| k.to_lowercase() == key.to_lowercase()).min() {
     Some(k) => map.get(k).map(|v| (key.to_string(), v.clone()) ),
     None => None
   }
diff --git a/rust/pact_matching/src/lib.rs b/rust/pact_matching/src/lib.rs
index b087ab5..845e672 100644
--- a/rust/pact_matching/src/lib.rs
+++ b/rust/pact_matching/src/lib.rs
@@ -2298,7 +2298,7 @@ pub async fn generate_request(request: &HttpRequest, mode: &GeneratorTestMode, c
     apply_generators(mode, &generators, &mut |key, generator| {
       if let Some(header) = key.first_field() {
         if let Some(ref mut headers) = request.headers {
-          let name = headers.keys().find(|name| name.eq_ignore_ascii_case(header)).cloned();
+          let name = headers.keys().filter(|name| name.eq_ignore_ascii_case(header)).min().cloned();
           if let Some(name) = name {
             if let Ok(v) = generator.generate_value(&headers.get(&name).unwrap().clone(), context, &DefaultVariantMatcher.boxed()) {
               headers.insert(name, v);
@@ -2380,7 +2380,7 @@ pub async fn generate_response(response: &HttpResponse, mode: &GeneratorTestMode
     apply_generators(mode, &generators, &mut |key, generator| {
       if let Some(header) = key.first_field() {
         if let Some(ref mut headers) = response.headers {
-          let name = headers.keys().find(|name| name.eq_ignore_ascii_case(header)).cloned();
+          let name = headers.keys().filter(|name| name.eq_ignore_ascii_case(header)).min().cloned();
           if let Some(name) = name {
             if let Ok(v) = generator.generate_value(&headers.get(&name).unwrap().clone(), context, &DefaultVariantMatcher.boxed()) {
               headers.insert(name, v);
diff --git a/rust/pact_models/src/http_parts.rs b/rust/pact_models/src/http_parts.rs
index b02ecb7..1c1d6d1 100644
--- a/rust/pact_models/src/http_parts.rs
+++ b/rust/pact_models/src/http_parts.rs
@@ -79,7 +79,8 @@ pub trait HttpPart {
   fn lookup_header_value(&self, header_name: &str) -> Option<String> {
     match *self.headers() {
       Some(ref h) => h.iter()
-        .find(|kv| kv.0.to_lowercase() == header_name.to_lowercase())
+        .filter(|kv| kv.0.to_lowercase() == header_name.to_lowercase())
+        .min_by_key(|kv| kv.0)
         .map(|kv| kv.1.clone().join(", ")),
       None => None
     }
@@ -95,7 +96,7 @@ pub trait HttpPart {
   /// Convenience method to add a header. This will replace any existing header value, ignoring case.
   fn add_header(&mut self, key: &str, val: Vec<&str>) {
     let headers = self.headers_mut();
-    let key = headers.keys().find(|k| k.to_lowercase() == key.to_lowercase()).cloned()
+    let key = headers.keys().filter(|k| k.to_lowercase() == key.to_lowercase()).min().cloned()
       .unwrap_or_else(|| key.to_string());
     headers.insert(key, val.iter().map(|v| v.to_string()).collect());
   }
diff --git a/rust/pact_models/src/json_utils.rs b/rust/pact_models/src/json_utils.rs
index b14c462..8e5e6c8 100644
--- a/rust/pact_models/src/json_utils.rs
+++ b/rust/pact_models/src/json_utils.rs
@@ -149,7 +149,7 @@ enum JsonParsable {
 /// Returns the body from the JSON struct with the provided field name
 pub fn body_from_json(request: &Value, fieldname: &str, headers: &Option<HashMap<String, Vec<String>>>) -> OptionalBody {
   let content_type = match headers {
-    Some(h) => match h.iter().find(|kv| kv.0.to_lowercase() == "content-type").and_then(|kv| kv.1.first()) {
+    Some(h) => match h.iter().filter(|kv| kv.0.to_lowercase() == "content-type").min_by_key(|kv| kv.0).and_then(|kv| kv.1.first()) {
       Some(value) => {
         match ContentType::parse(value.as_str()) {
           Ok(v) => Some(v),
diff --git a/rust/pact_models/src/v4/http_parts.rs b/rust/pact_models/src/v4/http_parts.rs
index b486421..3ebc8d4 100644
--- a/rust/pact_models/src/v4/http_parts.rs
+++ b/rust/pact_models/src/v4/http_parts.rs
@@ -179,7 +179,8 @@ impl HttpRequest {
     let name = header_name.into().to_lowercase();
     match self.headers {
       Some(ref h) => h.iter()
-        .find(|(k, _v)| k.to_lowercase() == name)
+        .filter(|(k, _v)| k.to_lowercase() == name)
+        .min_by_key(|(k, _v)| *k)
         .map(|(k, _v)| k.clone()),
       None => None
     }
@@ -396,7 +397,7 @@ fn content_type_from_json(headers: &Option<HashMap<String, Vec<String>>>, body_a
     None => {
       debug!("Body has no content type set, will default to any headers or metadata");
       match headers {
-        Some(h) => match h.iter().find(|kv| kv.0.to_lowercase() == "content-type").and_then(|kv| kv.1.first()) {
+        Some(h) => match h.iter().filter(|kv| kv.0.to_lowercase() == "content-type").min_by_key(|kv| kv.0).and_then(|kv| kv.1.first()) {
           Some(value) => {
             match ContentType::parse(value.as_str()) {
               Ok(v) => Some(v),
@@ -613,7 +614,8 @@ impl HttpResponse {
     let name = header_name.into().to_lowercase();
     match self.headers {
       Some(ref h) => h.iter()
-        .find(|(k, _v)| k.to_lowercase() == name)
+        .filter(|(k, _v)| k.to_lowercase() == name)
+        .min_by_key(|(k, _v)| *k)
         .map(|(k, _v)| k.clone()),
       None => None
     }
diff --git a/rust/pact_models/src/v4/mod.rs b/rust/pact_models/src/v4/mod.rs
index 72bbdab..9b3ed48 100644
--- a/rust/pact_models/src/v4/mod.rs
+++ b/rust/pact_models/src/v4/mod.rs
@@ -64,7 +64,7 @@ impl FromStr for V4InteractionType {
 pub fn calc_content_type(body: &OptionalBody, headers: &Option<HashMap<String, Vec<String>>>) -> Option<ContentType> {
   body.content_type()
     .or_else(|| headers.as_ref().map(|h| {
-      match h.iter().find(|kv| kv.0.to_lowercase() == "content-type").and_then(|kv| kv.1.first()) {
+      match h.iter().filter(|kv| kv.0.to_lowercase() == "content-type").min_by_key(|kv| kv.0).and_then(|kv| kv.1.first()) {
         Some(value) => ContentType::parse(value.as_str()).ok(),
         None => None
       }
-- 
2.43.0


From 666163338dd0c8470d1f08575c69e9d9c0ffd9af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:45 +0000
Subject: [PATCH 110/139] fix: calls for a handle of no interaction are refused
 instead of panicking

---
 rust/pact_ffi/src/mock_server/handles.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rust/pact_ffi/src/mock_server/handles.rs b/rust/pact_ffi/src/mock_server/handles.rs
index 393fda3..ceb7c73 100644
--- a/rust/pact_ffi/src/mock_server/handles.rs
+++ b/rust/pact_ffi/src/mock_server/handles.rs
@@ -292,7 +292,7 @@ impl InteractionHandle {
       let inner_mut = &mut *inner.borrow_mut();
       trace!("with_interaction - inner = {:?}", inner_mut);
       let interactions = &mut inner_mut.pact.interactions;
-      match interactions.get_mut((interaction - 1) as usize) {
+      match interaction.checked_sub(1).and_then(|i| interactions.get_mut(i as usize)) {
         Some(inner_i) => {
           Some(f(interaction - 1, inner_mut.mock_server_started, inner_i.as_mut()))
         },
@@ -405,7 +405,8 @@ impl MessageHandle {
     handles.get_mut(&index).map(|inner| {
       let mut ref_mut = inner.borrow_mut();
       let specification = ref_mut.specification_version;
-      ref_mut.pact.interactions.get_mut((interaction - 1) as usize)
+      interaction.checked_sub(1)
+        .and_then(|i| ref_mut.pact.interactions.get_mut(i as usize))
         .map(|inner_i| {
           if inner_i.is_message() {
             Some(f(interaction - 1, inner_i.as_mut(), specification))
-- 
2.43.0


From ca0663a41c1bcf52cd3e11558f330085b268f6ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:24 +0000
Subject: [PATCH 111/139] fix: the key of message metadata is a name, not a
 path expression

---
 rust/pact_ffi/src/mock_server/handles.rs | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/rust/pact_ffi/src/mock_server/handles.rs b/rust/pact_ffi/src/mock_server/handles.rs
index ceb7c73..ca4e113 100644
--- a/rust/pact_ffi/src/mock_server/handles.rs
+++ b/rust/pact_ffi/src/mock_server/handles.rs
@@ -1090,6 +1090,11 @@ fn from_integration_json_v2(
   }
 }
 
+/// Path for the rules of the metadata value with the given key
+fn metadata_path(key: &str) -> DocPath {
+  DocPath::new(key).unwrap_or_else(|_| DocPath::root().join_field(key))
+}
+
 pub(crate) fn process_xml(body: String, matching_rules: &mut MatchingRuleCategory, generators: &mut Generators) -> Result<Vec<u8>, String> {
   trace!("process_xml");
   match serde_json::from_str(&body) {
@@ -1271,8 +1276,8 @@ pub extern fn pactffi_with_metadata(
           let matching_rules = message.contents.matching_rules.add_category(Category::METADATA);
           let generators = &mut message.contents.generators;
           let value = match json {
-            Value::Object(map) => process_object(&map, matching_rules, generators, DocPath::new(key).unwrap(), false),
-            Value::Array(array) => process_array(array.as_slice(), matching_rules, generators, DocPath::new(key).unwrap(), false, false),
+            Value::Object(map) => process_object(&map, matching_rules, generators, metadata_path(key), false),
+            Value::Array(array) => process_array(array.as_slice(), matching_rules, generators, metadata_path(key), false, false),
             json => json.clone()
           };
         message.contents.metadata.insert(key.to_string(), value);
@@ -1292,8 +1297,8 @@ pub extern fn pactffi_with_metadata(
           let matching_rules = message.request.matching_rules.add_category(Category::METADATA);
           let generators = &mut message.request.generators;
           let value = match json {
-            Value::Object(map) => process_object(&map, matching_rules, generators, DocPath::new(key).unwrap(), false),
-            Value::Array(array) => process_array(array.as_slice(), matching_rules, generators, DocPath::new(key).unwrap(), false, false),
+            Value::Object(map) => process_object(&map, matching_rules, generators, metadata_path(key), false),
+            Value::Array(array) => process_array(array.as_slice(), matching_rules, generators, metadata_path(key), false, false),
             json => json.clone()
           };
           message.request.metadata.insert(key.to_string(), value);
@@ -1303,8 +1308,8 @@ pub extern fn pactffi_with_metadata(
             let matching_rules = response.matching_rules.add_category(Category::METADATA);
             let generators = &mut response.generators;
             let value = match json {
-              Value::Object(map) => process_object(&map, matching_rules, generators, DocPath::new(key).unwrap(), false),
-              Value::Array(array) => process_array(array.as_slice(), matching_rules, generators, DocPath::new(key).unwrap(), false, false),
+              Value::Object(map) => process_object(&map, matching_rules, generators, metadata_path(key), false),
+              Value::Array(array) => process_array(array.as_slice(), matching_rules, generators, metadata_path(key), false, false),
               json => json.clone()
             };
             response.metadata.insert(key.to_string(), value);
@@ -2961,8 +2966,8 @@ pub extern fn pactffi_message_with_metadata_v2(message_handle: MessageHandle, ke
         let generators = &mut message.contents.generators;
         let value = match serde_json::from_str(value) {
           Ok(json) => match json {
-            Value::Object(map) => process_object(&map, matching_rules, generators, DocPath::new(key).unwrap(), false),
-            Value::Array(array) => process_array(array.as_slice(), matching_rules, generators, DocPath::new(key).unwrap(), false, false),
+            Value::Object(map) => process_object(&map, matching_rules, generators, metadata_path(key), false),
+            Value::Array(array) => process_array(array.as_slice(), matching_rules, generators, metadata_path(key), false, false),
             Value::Null => Value::Null,
             _ => json
           },
-- 
2.43.0


From 8a51b5460e1ff97eb6f6bde2d9019c763d7f4997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:24 +0000
Subject: [PATCH 112/139] fix: the body of an unparsable content type is text,
 as documented

---
 rust/pact_ffi/src/mock_server/handles.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rust/pact_ffi/src/mock_server/handles.rs b/rust/pact_ffi/src/mock_server/handles.rs
index ca4e113..f86748c 100644
--- a/rust/pact_ffi/src/mock_server/handles.rs
+++ b/rust/pact_ffi/src/mock_server/handles.rs
@@ -1844,7 +1844,10 @@ pub extern "C" fn pactffi_with_body(
         body
     );
     let content_type =
-        convert_cstr("content_type", content_type).map(|ct| ContentType::parse(ct).unwrap());
+        convert_cstr("content_type", content_type).map(|ct| ContentType::parse(ct).unwrap_or_else(|err| {
+            warn!("Failed to parse content type '{}' - {}. Will treat it as text", ct, err);
+            TEXT.clone()
+        }));
     trace!(?content_type);
     let content_type_header = "Content-Type".to_string();
     let body = convert_cstr("body", body).unwrap_or_default();
-- 
2.43.0


From ddc9018fcec975232259bb3c8fbfc51db306ee88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:24 +0000
Subject: [PATCH 113/139] fix: with_body does not add a second Content-Type
 header when there is one in another case

---
 rust/pact_ffi/src/mock_server/handles.rs | 22 ++++++----------------
 1 file changed, 6 insertions(+), 16 deletions(-)

diff --git a/rust/pact_ffi/src/mock_server/handles.rs b/rust/pact_ffi/src/mock_server/handles.rs
index f86748c..ac42f13 100644
--- a/rust/pact_ffi/src/mock_server/handles.rs
+++ b/rust/pact_ffi/src/mock_server/handles.rs
@@ -1870,14 +1870,9 @@ pub extern "C" fn pactffi_with_body(
                                 "Setting request content type header to '{}' (if not already set)",
                                 ct
                             );
-                            if let Some(headers) = http.request.headers.as_mut() {
-                                headers
-                                    .entry(content_type_header.to_string())
-                                    .or_insert_with(|| vec![ct.to_string()]);
-                            } else {
-                                http.request.headers = Some(hashmap! {
-                                    content_type_header.clone() => vec![ct.to_string()]
-                                });
+                            if !http.request.has_header(&content_type_header) {
+                                http.request.headers_mut()
+                                    .insert(content_type_header.clone(), vec![ct.to_string()]);
                             }
                         }
                     }
@@ -1895,14 +1890,9 @@ pub extern "C" fn pactffi_with_body(
                                 "Setting response content type header to '{}' (if not already set)",
                                 ct
                             );
-                            if let Some(headers) = http.response.headers.as_mut() {
-                                headers
-                                    .entry(content_type_header.to_string())
-                                    .or_insert_with(|| vec![ct.to_string()]);
-                            } else {
-                                http.response.headers = Some(hashmap! {
-                                    content_type_header.clone() => vec![ct.to_string()]
-                                });
+                            if !http.response.has_header(&content_type_header) {
+                                http.response.headers_mut()
+                                    .insert(content_type_header.clone(), vec![ct.to_string()]);
                             }
                         }
                     }
-- 
2.43.0


From c19a4feba59d7f26a4eead10c0417452409715e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:24 +0000
Subject: [PATCH 114/139] fix: with_body uses the contentType metadata of a
 message, as documented

---
 rust/pact_ffi/src/mock_server/handles.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rust/pact_ffi/src/mock_server/handles.rs b/rust/pact_ffi/src/mock_server/handles.rs
index ac42f13..70bda52 100644
--- a/rust/pact_ffi/src/mock_server/handles.rs
+++ b/rust/pact_ffi/src/mock_server/handles.rs
@@ -1903,7 +1903,7 @@ pub extern "C" fn pactffi_with_body(
                 message.contents.contents = process_body(
                     body,
                     &content_type,
-                    &None,
+                    &message.contents.message_content_type(),
                     &mut message.contents.matching_rules,
                     &mut message.contents.generators,
                 );
@@ -1927,7 +1927,7 @@ pub extern "C" fn pactffi_with_body(
                 contents.contents = process_body(
                     body,
                     &content_type,
-                    &None,
+                    &contents.message_content_type(),
                     &mut contents.matching_rules,
                     &mut contents.generators,
                 );
-- 
2.43.0


From e517c9f7a27a8a32d095f15c56ed89854ca2a793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:12 +0000
Subject: [PATCH 115/139] fix: contents given as bytes through the C interface
 are copied, not referenced after the call

---
 rust/pact_ffi/src/mock_server/handles.rs     | 4 ++--
 rust/pact_ffi/src/models/async_message.rs    | 2 +-
 rust/pact_ffi/src/models/contents.rs         | 2 +-
 rust/pact_ffi/src/models/http_interaction.rs | 4 ++--
 rust/pact_ffi/src/models/message.rs          | 2 +-
 rust/pact_ffi/src/models/sync_message.rs     | 4 ++--
 6 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/rust/pact_ffi/src/mock_server/handles.rs b/rust/pact_ffi/src/mock_server/handles.rs
index 70bda52..76d733a 100644
--- a/rust/pact_ffi/src/mock_server/handles.rs
+++ b/rust/pact_ffi/src/mock_server/handles.rs
@@ -2902,10 +2902,10 @@ pub extern fn pactffi_message_with_contents(message_handle: MessageHandle, conte
         } else if content_type.is_text() || content_type.is_json() {
           OptionalBody::Present(Bytes::from(process_json(body_str.to_string(), category, &mut message.contents.generators)), Some(content_type), None)
         } else {
-          OptionalBody::Present(Bytes::from(unsafe { std::slice::from_raw_parts(body, size) }), Some(content_type), None)
+          OptionalBody::Present(Bytes::copy_from_slice(unsafe { std::slice::from_raw_parts(body, size) }), Some(content_type), None)
         }
       } else {
-        OptionalBody::Present(Bytes::from(unsafe { std::slice::from_raw_parts(body, size) }), None, None)
+        OptionalBody::Present(Bytes::copy_from_slice(unsafe { std::slice::from_raw_parts(body, size) }), None, None)
       };
 
       message.contents.contents = body;
diff --git a/rust/pact_ffi/src/models/async_message.rs b/rust/pact_ffi/src/models/async_message.rs
index 6c9bf4d..579b7a0 100644
--- a/rust/pact_ffi/src/models/async_message.rs
+++ b/rust/pact_ffi/src/models/async_message.rs
@@ -242,7 +242,7 @@ ffi_fn! {
       message.contents.contents = OptionalBody::Null;
     } else {
       let slice = unsafe { std::slice::from_raw_parts(contents, len) };
-      let contents = Bytes::from(slice);
+      let contents = Bytes::copy_from_slice(slice);
       let content_type = optional_str(content_type).map(|ct| ContentType::parse(ct.as_str()).ok()).flatten();
       message.contents.contents = OptionalBody::Present(contents, content_type, Some(ContentTypeHint::BINARY));
     }
diff --git a/rust/pact_ffi/src/models/contents.rs b/rust/pact_ffi/src/models/contents.rs
index 7868d43..319776a 100644
--- a/rust/pact_ffi/src/models/contents.rs
+++ b/rust/pact_ffi/src/models/contents.rs
@@ -173,7 +173,7 @@ ffi_fn! {
       contents.contents = OptionalBody::Null;
     } else {
       let slice = unsafe { std::slice::from_raw_parts(contents_bin, len) };
-      let contents_bytes = Bytes::from(slice);
+      let contents_bytes = Bytes::copy_from_slice(slice);
       let content_type = optional_str(content_type).map(|ct| ContentType::parse(ct.as_str()).ok()).flatten();
       contents.contents = OptionalBody::Present(contents_bytes, content_type, Some(ContentTypeHint::BINARY));
     }
diff --git a/rust/pact_ffi/src/models/http_interaction.rs b/rust/pact_ffi/src/models/http_interaction.rs
index 6be8c14..234ca60 100644
--- a/rust/pact_ffi/src/models/http_interaction.rs
+++ b/rust/pact_ffi/src/models/http_interaction.rs
@@ -206,7 +206,7 @@ ffi_fn! {
       interaction.request.body = OptionalBody::Null;
     } else {
       let slice = unsafe { std::slice::from_raw_parts(contents, len) };
-      let contents = Bytes::from(slice);
+      let contents = Bytes::copy_from_slice(slice);
       let content_type = optional_str(content_type).map(|ct| ContentType::parse(ct.as_str()).ok()).flatten();
       interaction.request.body = OptionalBody::Present(contents, content_type, Some(ContentTypeHint::BINARY));
     }
@@ -380,7 +380,7 @@ ffi_fn! {
       interaction.response.body = OptionalBody::Null;
     } else {
       let slice = unsafe { std::slice::from_raw_parts(contents, len) };
-      let contents = Bytes::from(slice);
+      let contents = Bytes::copy_from_slice(slice);
       let content_type = optional_str(content_type).map(|ct| ContentType::parse(ct.as_str()).ok()).flatten();
       interaction.response.body = OptionalBody::Present(contents, content_type, Some(ContentTypeHint::BINARY));
     }
diff --git a/rust/pact_ffi/src/models/message.rs b/rust/pact_ffi/src/models/message.rs
index 5fff1ad..152562e 100644
--- a/rust/pact_ffi/src/models/message.rs
+++ b/rust/pact_ffi/src/models/message.rs
@@ -279,7 +279,7 @@ ffi_fn! {
       message.contents = OptionalBody::Null;
     } else {
       let slice = unsafe { std::slice::from_raw_parts(contents, len) };
-      let contents = Bytes::from(slice);
+      let contents = Bytes::copy_from_slice(slice);
       let content_type = optional_str(content_type).map(|ct| ContentType::parse(ct.as_str()).ok()).flatten();
       message.contents = OptionalBody::Present(contents, content_type, Some(ContentTypeHint::BINARY));
     }
diff --git a/rust/pact_ffi/src/models/sync_message.rs b/rust/pact_ffi/src/models/sync_message.rs
index 6cf3fc2..11038c1 100644
--- a/rust/pact_ffi/src/models/sync_message.rs
+++ b/rust/pact_ffi/src/models/sync_message.rs
@@ -188,7 +188,7 @@ ffi_fn! {
       message.request.contents = OptionalBody::Null;
     } else {
       let slice = unsafe { std::slice::from_raw_parts(contents, len) };
-      let contents = Bytes::from(slice);
+      let contents = Bytes::copy_from_slice(slice);
       let content_type = optional_str(content_type).map(|ct| ContentType::parse(ct.as_str()).ok()).flatten();
       message.request.contents = OptionalBody::Present(contents, content_type, Some(ContentTypeHint::BINARY));
     }
@@ -447,7 +447,7 @@ ffi_fn! {
       response.contents = OptionalBody::Null;
     } else {
       let slice = unsafe { std::slice::from_raw_parts(contents, len) };
-      let contents = Bytes::from(slice);
+      let contents = Bytes::copy_from_slice(slice);
       let content_type = optional_str(content_type).map(|ct| ContentType::parse(ct.as_str()).ok()).flatten();
       response.contents = OptionalBody::Present(contents, content_type, Some(ContentTypeHint::BINARY));
     }
-- 
2.43.0


From 1744888662ea06e71efe0728b2c344a9e6cbbeff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:12 +0000
Subject: [PATCH 116/139] fix: an XML document given as the contents of a
 message is kept

---
 rust/pact_ffi/src/mock_server/handles.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/pact_ffi/src/mock_server/handles.rs b/rust/pact_ffi/src/mock_server/handles.rs
index 76d733a..df7d61a 100644
--- a/rust/pact_ffi/src/mock_server/handles.rs
+++ b/rust/pact_ffi/src/mock_server/handles.rs
@@ -2898,7 +2898,7 @@ pub extern fn pactffi_message_with_contents(message_handle: MessageHandle, conte
         let body_str = convert_cstr("body", body as *const c_char).unwrap_or_default();
 
         if content_type.is_xml() {
-          OptionalBody::Present(Bytes::from(process_xml(body_str.to_string(), category, &mut message.contents.generators).unwrap_or(vec![])), Some(content_type), None)
+          OptionalBody::Present(Bytes::from(process_xml(body_str.to_string(), category, &mut message.contents.generators).unwrap_or_else(|_| body_str.as_bytes().to_vec())), Some(content_type), None)
         } else if content_type.is_text() || content_type.is_json() {
           OptionalBody::Present(Bytes::from(process_json(body_str.to_string(), category, &mut message.contents.generators)), Some(content_type), None)
         } else {
-- 
2.43.0


From 3924eb9ba919c1aedd8f745eddaa4eddff83675c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:02 +0000
Subject: [PATCH 117/139] fix: adding rules to an empty list keeps the way they
 are combined

---
 rust/pact_models/src/matchingrules/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rust/pact_models/src/matchingrules/mod.rs b/rust/pact_models/src/matchingrules/mod.rs
index 1c60ffb..47f7095 100644
--- a/rust/pact_models/src/matchingrules/mod.rs
+++ b/rust/pact_models/src/matchingrules/mod.rs
@@ -763,6 +763,9 @@ impl RuleList {
 
   /// Create a new rule list with all the rules from both
   pub fn and_rules(&self, rules: &RuleList) -> RuleList {
+    if self.rules.is_empty() {
+      return rules.clone();
+    }
     let mut base_list = self.clone();
     base_list.add_rules(rules);
     base_list
-- 
2.43.0


From aed27c8d2d46f286c1f8bbcdd5d84f48bb646e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:53 +0000
Subject: [PATCH 118/139] fix: compare status code rules as before (reverts
 7075849), as existing tests of pact_ffi rely on it

---
 rust/pact_models/src/matchingrules/mod.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/rust/pact_models/src/matchingrules/mod.rs b/rust/pact_models/src/matchingrules/mod.rs
index 47f7095..6eda3e3 100644
--- a/rust/pact_models/src/matchingrules/mod.rs
+++ b/rust/pact_models/src/matchingrules/mod.rs
@@ -631,7 +631,6 @@ impl PartialEq for MatchingRule {
       (MatchingRule::ArrayContains(variants1), MatchingRule::ArrayContains(variants2)) => variants1 == variants2,
       (MatchingRule::EachKey(definition1), MatchingRule::EachKey(definition2)) => definition1 == definition2,
       (MatchingRule::EachValue(definition1), MatchingRule::EachValue(definition2)) => definition1 == definition2,
-      (MatchingRule::StatusCode(status1), MatchingRule::StatusCode(status2)) => status1 == status2,
       _ => mem::discriminant(self) == mem::discriminant(other)
     }
   }
-- 
2.43.0


From 241ba4a1e26219d21bcf329c3adc0f9470b70ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:47 +0000
Subject: [PATCH 119/139] fix: keys of a body given as JSON are names, also
 when they are numbers or wildcards

---
 rust/pact_ffi/src/mock_server/bodies.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/rust/pact_ffi/src/mock_server/bodies.rs b/rust/pact_ffi/src/mock_server/bodies.rs
index fab6724..72cd804 100644
--- a/rust/pact_ffi/src/mock_server/bodies.rs
+++ b/rust/pact_ffi/src/mock_server/bodies.rs
@@ -72,11 +72,12 @@ pub fn process_object(
     Value::Object(obj.iter()
       .filter(|(key, _)| !key.starts_with("pact:"))
       .map(|(key, val)| {
-        let item_path = if type_matcher {
-          path.join("*")
+        let mut item_path = path.clone();
+        if type_matcher {
+          item_path.push_star();
         } else {
-          path.join(key)
-        };
+          item_path.push_field(key);
+        }
         (key.clone(), match val {
           Value::Object(ref map) => process_object(map, matching_rules, generators, item_path, false),
           Value::Array(ref array) => process_array(array, matching_rules, generators, item_path, false, false),
-- 
2.43.0


From 06a1cbfbb7ac3614ca5cbf1e639ad9e8f93595df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:47 +0000
Subject: [PATCH 120/139] fix: the contents of a message given as bytes are not
 read beyond their size

---
 rust/pact_ffi/src/mock_server/handles.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/rust/pact_ffi/src/mock_server/handles.rs b/rust/pact_ffi/src/mock_server/handles.rs
index df7d61a..454109f 100644
--- a/rust/pact_ffi/src/mock_server/handles.rs
+++ b/rust/pact_ffi/src/mock_server/handles.rs
@@ -2871,6 +2871,15 @@ pub extern fn pactffi_message_given_with_param(message: MessageHandle, descripti
   }
 }
 
+/// Copies the bytes given by a pointer and a size. There are none behind a NULL pointer.
+fn contents_bytes(body: *const u8, size: size_t) -> Bytes {
+  if body.is_null() {
+    Bytes::default()
+  } else {
+    Bytes::copy_from_slice(unsafe { std::slice::from_raw_parts(body, size) })
+  }
+}
+
 /// Adds the contents of the Message.
 ///
 /// Accepts JSON, binary and other payload types. Binary data will be base64 encoded when serialised.
@@ -2895,17 +2904,18 @@ pub extern fn pactffi_message_with_contents(message_handle: MessageHandle, conte
     if let Some(message) = inner.as_v4_async_message_mut() {
       let body = if let Some(content_type) = content_type {
         let category = message.contents.matching_rules.add_category("body");
-        let body_str = convert_cstr("body", body as *const c_char).unwrap_or_default();
 
         if content_type.is_xml() {
+          let body_str = convert_cstr("body", body as *const c_char).unwrap_or_default();
           OptionalBody::Present(Bytes::from(process_xml(body_str.to_string(), category, &mut message.contents.generators).unwrap_or_else(|_| body_str.as_bytes().to_vec())), Some(content_type), None)
         } else if content_type.is_text() || content_type.is_json() {
+          let body_str = convert_cstr("body", body as *const c_char).unwrap_or_default();
           OptionalBody::Present(Bytes::from(process_json(body_str.to_string(), category, &mut message.contents.generators)), Some(content_type), None)
         } else {
-          OptionalBody::Present(Bytes::copy_from_slice(unsafe { std::slice::from_raw_parts(body, size) }), Some(content_type), None)
+          OptionalBody::Present(contents_bytes(body, size), Some(content_type), None)
         }
       } else {
-        OptionalBody::Present(Bytes::copy_from_slice(unsafe { std::slice::from_raw_parts(body, size) }), None, None)
+        OptionalBody::Present(contents_bytes(body, size), None, None)
       };
 
       message.contents.contents = body;
-- 
2.43.0


From a4a08d0b676dd0102d6289a6f0ffa85ea4bddef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:16 +0000
Subject: [PATCH 121/139] fix: form parameters given as JSON keep the rules of
 other parameters, names like numbers are names

---
 .../src/mock_server/form_urlencoded.rs        | 22 +++++++++++--------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/rust/pact_ffi/src/mock_server/form_urlencoded.rs b/rust/pact_ffi/src/mock_server/form_urlencoded.rs
index b8c886d..7863ac8c 100644
--- a/rust/pact_ffi/src/mock_server/form_urlencoded.rs
+++ b/rust/pact_ffi/src/mock_server/form_urlencoded.rs
@@ -1,6 +1,5 @@
 //! Form UrlEncoded matching support
 
-use std::collections::HashMap;
 use serde_json::Value;
 use tracing::{debug, error, trace};
 
@@ -16,7 +15,13 @@ pub fn process_form_urlencoded_json(body: String, matching_rules: &mut MatchingR
   trace!("process_form_urlencoded_json");
   let json = process_json(body, matching_rules, generators);
   debug!("form_urlencoded json: {json}");
-  let values: Value = serde_json::from_str(json.as_str()).unwrap();
+  let values: Value = match serde_json::from_str(json.as_str()) {
+    Ok(values) => values,
+    Err(err) => {
+      error!("Failed to parse the form urlencoded body as JSON, it is used as it is: {}", err);
+      return json;
+    }
+  };
   debug!("form_urlencoded values: {values}");
   let params = convert_json_value_to_query_params(values, matching_rules, generators);
   debug!("form_urlencoded params: {:?}", params);
@@ -28,13 +33,13 @@ fn convert_json_value_to_query_params(value: Value, matching_rules: &mut Matchin
   match value {
     Value::Object(map) => {
       for (key, value) in map.iter() {
-        let path = DocPath::root().join(key);
+        let path = DocPath::root().join_field(key);
         match value {
           Value::Number(value) => params.push((key.clone(), value.to_string())),
           Value::String(value) => params.push((key.clone(), value.to_string())),
           Value::Array(vec) => {
             for (index, value) in vec.iter().enumerate() {
-              let path = DocPath::root().join(key).join_index(index);
+              let path = path.join_index(index);
               match value {
                 Value::Number(value) => params.push((key.clone(), value.to_string())),
                 Value::String(value) => params.push((key.clone(), value.to_string())),
@@ -52,11 +57,10 @@ fn convert_json_value_to_query_params(value: Value, matching_rules: &mut Matchin
 }
 
 fn handle_form_urlencoded_invalid_value(value: &Value, path: &DocPath, matching_rules: &mut MatchingRuleCategory, generators: &mut Generators) {
-  for key in matching_rules.clone().rules.keys() {
-    if String::from(key).contains(&String::from(path)) {
-      matching_rules.rules.remove(&key);
-      generators.categories.entry(GeneratorCategory::BODY).or_insert(HashMap::new()).remove(&key);
-    }
+  let is_below = |key: &DocPath| key.tokens().starts_with(path.tokens());
+  matching_rules.rules.retain(|key, _| !is_below(key));
+  if let Some(body_generators) = generators.categories.get_mut(&GeneratorCategory::BODY) {
+    body_generators.retain(|key, _| !is_below(key));
   }
   error!("Value '{:?}' is not supported in form urlencoded. Matchers and generators (if defined) are removed", value);
 }
-- 
2.43.0


From ae5e4e00911b184dbf123306df1d31bbe2e598e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:16 +0000
Subject: [PATCH 122/139] fix: every example of an XML element has its text

---
 rust/pact_ffi/src/mock_server/xml.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/pact_ffi/src/mock_server/xml.rs b/rust/pact_ffi/src/mock_server/xml.rs
index 4b2f23f..bd0bc89 100644
--- a/rust/pact_ffi/src/mock_server/xml.rs
+++ b/rust/pact_ffi/src/mock_server/xml.rs
@@ -266,7 +266,7 @@ fn duplicate_element<'a>(doc: Document<'a>, el: &Element<'a>) -> Element<'a> {
   for child in el.children() {
     match child {
       ChildOfElement::Element(el) => element.append_child(duplicate_element(doc, &el)),
-      ChildOfElement::Text(txt) => element.append_child(txt),
+      ChildOfElement::Text(txt) => element.append_child(doc.create_text(txt.text())),
       _ => ()
     }
   }
-- 
2.43.0


From f5b6c8a558c53c0c361e356e03e51cda24098bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:46 +0000
Subject: [PATCH 123/139] fix: an invalid description of an XML body is an
 error and does not abort the process

---
 rust/pact_ffi/src/mock_server/xml.rs | 35 ++++++++++++++--------------
 1 file changed, 18 insertions(+), 17 deletions(-)

diff --git a/rust/pact_ffi/src/mock_server/xml.rs b/rust/pact_ffi/src/mock_server/xml.rs
index bd0bc89..510c168 100644
--- a/rust/pact_ffi/src/mock_server/xml.rs
+++ b/rust/pact_ffi/src/mock_server/xml.rs
@@ -32,7 +32,7 @@ pub fn generate_xml_body(
   match attributes.get("root") {
     Some(val) => match val {
       Value::Object(obj) => {
-        match create_element_from_json(doc, None, obj, matching_rules, generators, &vec!["$"], false, &mut hashmap!{}) {
+        match create_element_from_json(doc, None, obj, matching_rules, generators, &vec!["$"], false, &mut hashmap!{})? {
           Either::Left(element) => doc.root().append_child(element),
           Either::Right(_) => warn!("Can't append text node to the root")
         }
@@ -63,7 +63,7 @@ fn create_element_from_json<'a>(
   path: &Vec<&str>,
   _type_matcher: bool,
   namespaces: &mut HashMap<String, String>
-) -> Either<Element<'a>, Text<'a>> {
+) -> Result<Either<Element<'a>, Text<'a>>, String> {
   trace!("create_element_from_json {:?}: object = {:?}", path, object);
   let mut element = None;
   let mut text = None;
@@ -71,7 +71,8 @@ fn create_element_from_json<'a>(
     let mut updated_path = path.clone();
     if let Some(val) = object.get("value") {
       if let Value::Object(attr) = val {
-        let name = json_to_string(attr.get("name").unwrap());
+        let name = attr.get("name").map(json_to_string)
+          .ok_or_else(|| format!("Intermediate JSON format is invalid, the element has no name: {:?}", object))?;
         updated_path.push(&name);
         let doc_path = DocPath::new(updated_path.join(".").to_string()).unwrap_or(DocPath::root());
 
@@ -111,21 +112,21 @@ fn create_element_from_json<'a>(
                 Value::Object(attributes) => {
                   let mut updated_path = path.clone();
                   updated_path.push(new_element.name().local_part());
-                  create_element_from_json(doc, Some(new_element), attributes, matching_rules, generators, &updated_path, true, namespaces);
+                  create_element_from_json(doc, Some(new_element), attributes, matching_rules, generators, &updated_path, true, namespaces)?;
                 },
-                _ => panic!("Intermediate JSON format is invalid, child is not an object: {:?}", child)
+                _ => return Err(format!("Intermediate JSON format is invalid, child is not an object: {:?}", child))
               }
             },
-            _ => panic!("Intermediate JSON format is invalid, children is not an Array: {:?}", children)
+            _ => return Err(format!("Intermediate JSON format is invalid, children is not an Array: {:?}", children))
           }
         };
 
         element = Some(new_element)
       } else {
-        panic!("Intermediate JSON format is invalid, corresponding value for the given matcher was not an object: {:?}", object)
+        return Err(format!("Intermediate JSON format is invalid, corresponding value for the given matcher was not an object: {:?}", object))
       }
     } else {
-      panic!("Intermediate JSON format is invalid, no corresponding value for the given matcher: {:?}", object)
+      return Err(format!("Intermediate JSON format is invalid, no corresponding value for the given matcher: {:?}", object))
     }
   } else if let Some(content) = object.get("content") {
     text = Some(doc.create_text(json_to_string(content).as_str()));
@@ -175,23 +176,23 @@ fn create_element_from_json<'a>(
             Value::Object(attributes) => {
               let mut updated_path = path.clone();
               updated_path.push(&name);
-              create_element_from_json(doc, Some(new_element), attributes, matching_rules, generators, &updated_path, false, namespaces);
+              create_element_from_json(doc, Some(new_element), attributes, matching_rules, generators, &updated_path, false, namespaces)?;
             },
-            _ => panic!("Intermediate JSON format is invalid, child is not an object: {:?}", child)
+            _ => return Err(format!("Intermediate JSON format is invalid, child is not an object: {:?}", child))
           }
         },
-        _ => panic!("Intermediate JSON format is invalid, children is not an Array: {:?}", children)
+        _ => return Err(format!("Intermediate JSON format is invalid, children is not an Array: {:?}", children))
       }
     };
     element = Some(new_element);
   } else {
-    panic!("Ignoring invalid object {:?}", object);
+    return Err(format!("Intermediate JSON format is invalid, object is neither an element nor a text: {:?}", object));
   };
 
   if let Some(parent) = parent {
     let examples = match object.get("examples") {
       Some(val) => match val {
-        Number(val) => val.as_u64().unwrap(),
+        Number(val) => val.as_u64().unwrap_or(1),
         _ => 1
       }
       None => 1
@@ -207,11 +208,11 @@ fn create_element_from_json<'a>(
   }
 
   if let Some(element) = element {
-    Either::Left(element)
+    Ok(Either::Left(element))
   } else if let Some(text) = text {
-    Either::Right(text)
+    Ok(Either::Right(text))
   } else {
-    panic!("Intermediate JSON was mapped to neither an element or a text node")
+    Err(format!("Intermediate JSON was mapped to neither an element or a text node: {:?}", object))
   }
 }
 
@@ -245,7 +246,7 @@ fn add_attributes(
             _ => ()
           };
         }
-        json_to_string(matcher_definition.get("value").unwrap())
+        matcher_definition.get("value").map(json_to_string).unwrap_or_default()
       } else {
         json_to_string(&v)
       },
-- 
2.43.0


From ba7a7a4c6661506cd048b828ea6a6e71856e1634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:29 +0000
Subject: [PATCH 124/139] fix: rules for XML elements whose name is not a word
 are at the path of the element

---
 rust/pact_ffi/src/mock_server/xml.rs | 30 ++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/rust/pact_ffi/src/mock_server/xml.rs b/rust/pact_ffi/src/mock_server/xml.rs
index 510c168..164383e 100644
--- a/rust/pact_ffi/src/mock_server/xml.rs
+++ b/rust/pact_ffi/src/mock_server/xml.rs
@@ -74,7 +74,7 @@ fn create_element_from_json<'a>(
         let name = attr.get("name").map(json_to_string)
           .ok_or_else(|| format!("Intermediate JSON format is invalid, the element has no name: {:?}", object))?;
         updated_path.push(&name);
-        let doc_path = DocPath::new(updated_path.join(".").to_string()).unwrap_or(DocPath::root());
+        let doc_path = doc_path_for(&updated_path);
 
         if let Ok((rules, generator)) = matchers_from_integration_json(object) {
           for rule in rules {
@@ -133,7 +133,7 @@ fn create_element_from_json<'a>(
     if let Some(matcher) = object.get("matcher") {
       let mut text_path = path.clone();
       text_path.push("#text");
-      let doc_path = DocPath::new(&text_path.join(".")).unwrap_or(DocPath::root());
+      let doc_path = doc_path_for(&text_path);
 
       if let Value::Object(matcher) = matcher {
         if let Ok((rules, generator)) = matchers_from_integration_json(matcher) {
@@ -216,6 +216,26 @@ fn create_element_from_json<'a>(
   }
 }
 
+/// Path expression for the path with the given names (the first one is the root)
+fn doc_path_for(path: &[&str]) -> DocPath {
+  let mut doc_path = DocPath::root();
+  for name in path.iter().skip(1) {
+    doc_path.push_field(*name);
+  }
+
+  // Names of elements are written without brackets where that denotes the same path
+  let last = path.last().copied().unwrap_or_default();
+  let expression = if last.starts_with('@') {
+    format!("{}['{}']", path[..path.len() - 1].join("."), last)
+  } else {
+    path.join(".")
+  };
+  match DocPath::new(expression) {
+    Ok(parsed) if parsed.tokens() == doc_path.tokens() => parsed,
+    _ => doc_path
+  }
+}
+
 fn add_attributes(
   element: &Element,
   attributes: &Map<String, Value>,
@@ -225,11 +245,13 @@ fn add_attributes(
 ) {
   trace!("add_attributes: attributes = {:?}", attributes);
   for (k, v) in attributes {
-    let path = format!("{}['@{}']", path.join("."), k);
+    let attribute = format!("@{}", k);
+    let mut attribute_path = path.clone();
+    attribute_path.push(&attribute);
 
     let value = match v {
       Value::Object(matcher_definition) => if matcher_definition.contains_key("pact:matcher:type") {
-        let doc_path = DocPath::new(path).unwrap_or(DocPath::root());
+        let doc_path = doc_path_for(&attribute_path);
         if let Ok((rules, generator)) = matchers_from_integration_json(matcher_definition) {
           for rule in rules {
             matching_rules.add_rule(doc_path.clone(), rule, RuleLogic::And);
-- 
2.43.0


From 02d053feb3836b59f202a288a158f1a9eeca2ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:29 +0000
Subject: [PATCH 125/139] fix: a form given as JSON may start with any name of
 a parameter

---
 rust/pact_ffi/src/mock_server/handles.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rust/pact_ffi/src/mock_server/handles.rs b/rust/pact_ffi/src/mock_server/handles.rs
index 454109f..1d9e195 100644
--- a/rust/pact_ffi/src/mock_server/handles.rs
+++ b/rust/pact_ffi/src/mock_server/handles.rs
@@ -1765,8 +1765,10 @@ fn process_body(
             // 1. A raw Form UrlEncoded payload
             // 2. A JSON payload describing the Form UrlEncoded payload, including any
             //    embedded generators and matching rules.
+            // Detecting the type looks at the start only and does not know all names of parameters
+            let is_description = serde_json::from_str::<serde_json::Map<String, Value>>(body).is_ok();
             match detected_type {
-                Some(detected_ct) if detected_ct.is_json() => {
+                Some(detected_ct) if detected_ct.is_json() || is_description => {
                     trace!("Processing JSON description for Form UrlEncoded body");
                     let category = matching_rules.add_category("body");
                     OptionalBody::Present(
-- 
2.43.0


From 60c10e303b9014e6a18cb237e4325aa99eaf8683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:42 +0000
Subject: [PATCH 126/139] fix: metadata of a message that is no string is found
 as its text

---
 rust/pact_ffi/src/models/message.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/pact_ffi/src/models/message.rs b/rust/pact_ffi/src/models/message.rs
index 152562e..dfc9a78 100644
--- a/rust/pact_ffi/src/models/message.rs
+++ b/rust/pact_ffi/src/models/message.rs
@@ -491,7 +491,7 @@ ffi_fn! {
         let message = as_ref!(message);
         let key = safe_str!(key);
         let value = message.metadata.get(key).ok_or(anyhow::anyhow!("invalid metadata key"))?;
-        let value_ptr = string::to_c(value.as_str().unwrap_or_default())?;
+        let value_ptr = string::to_c(json_to_string(value).as_str())?;
         value_ptr as *const c_char
     } {
         std::ptr::null()
-- 
2.43.0


From f4e9d80f23761e8c31d45da2ec3ac7b3287d41fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:03 +0000
Subject: [PATCH 127/139] fix: text contents given to a message or interaction
 are copied

---
 rust/pact_ffi/src/models/async_message.rs    | 2 +-
 rust/pact_ffi/src/models/contents.rs         | 2 +-
 rust/pact_ffi/src/models/http_interaction.rs | 4 ++--
 rust/pact_ffi/src/models/message.rs          | 2 +-
 rust/pact_ffi/src/models/sync_message.rs     | 4 ++--
 5 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/rust/pact_ffi/src/models/async_message.rs b/rust/pact_ffi/src/models/async_message.rs
index 579b7a0..bae3917 100644
--- a/rust/pact_ffi/src/models/async_message.rs
+++ b/rust/pact_ffi/src/models/async_message.rs
@@ -160,7 +160,7 @@ ffi_fn! {
     } else {
       let contents = safe_str!(contents);
       let content_type = optional_str(content_type).map(|ct| ContentType::parse(ct.as_str()).ok()).flatten();
-      message.contents.contents = OptionalBody::Present(Bytes::from(contents), content_type, Some(ContentTypeHint::TEXT));
+      message.contents.contents = OptionalBody::Present(Bytes::copy_from_slice(contents.as_bytes()), content_type, Some(ContentTypeHint::TEXT));
     }
   }
 }
diff --git a/rust/pact_ffi/src/models/contents.rs b/rust/pact_ffi/src/models/contents.rs
index 319776a..5d7651b 100644
--- a/rust/pact_ffi/src/models/contents.rs
+++ b/rust/pact_ffi/src/models/contents.rs
@@ -91,7 +91,7 @@ ffi_fn! {
     } else {
       let contents_str = safe_str!(contents_str);
       let content_type = optional_str(content_type).map(|ct| ContentType::parse(ct.as_str()).ok()).flatten();
-      contents.contents = OptionalBody::Present(Bytes::from(contents_str), content_type, Some(ContentTypeHint::TEXT));
+      contents.contents = OptionalBody::Present(Bytes::copy_from_slice(contents_str.as_bytes()), content_type, Some(ContentTypeHint::TEXT));
     }
   }
 }
diff --git a/rust/pact_ffi/src/models/http_interaction.rs b/rust/pact_ffi/src/models/http_interaction.rs
index 234ca60..2886c53 100644
--- a/rust/pact_ffi/src/models/http_interaction.rs
+++ b/rust/pact_ffi/src/models/http_interaction.rs
@@ -124,7 +124,7 @@ ffi_fn! {
     } else {
       let contents = safe_str!(contents);
       let content_type = optional_str(content_type).map(|ct| ContentType::parse(ct.as_str()).ok()).flatten();
-      interaction.request.body = OptionalBody::Present(Bytes::from(contents), content_type, Some(ContentTypeHint::TEXT));
+      interaction.request.body = OptionalBody::Present(Bytes::copy_from_slice(contents.as_bytes()), content_type, Some(ContentTypeHint::TEXT));
     }
   }
 }
@@ -298,7 +298,7 @@ ffi_fn! {
     } else {
       let contents = safe_str!(contents);
       let content_type = optional_str(content_type).map(|ct| ContentType::parse(ct.as_str()).ok()).flatten();
-      interaction.response.body = OptionalBody::Present(Bytes::from(contents), content_type, Some(ContentTypeHint::TEXT));
+      interaction.response.body = OptionalBody::Present(Bytes::copy_from_slice(contents.as_bytes()), content_type, Some(ContentTypeHint::TEXT));
     }
   }
 }
diff --git a/rust/pact_ffi/src/models/message.rs b/rust/pact_ffi/src/models/message.rs
index dfc9a78..4fa2a41 100644
--- a/rust/pact_ffi/src/models/message.rs
+++ b/rust/pact_ffi/src/models/message.rs
@@ -207,7 +207,7 @@ ffi_fn! {
     } else {
       let contents = safe_str!(contents);
       let content_type = optional_str(content_type).map(|ct| ContentType::parse(ct.as_str()).ok()).flatten();
-      message.contents = OptionalBody::Present(Bytes::from(contents), content_type, Some(ContentTypeHint::TEXT));
+      message.contents = OptionalBody::Present(Bytes::copy_from_slice(contents.as_bytes()), content_type, Some(ContentTypeHint::TEXT));
     }
   }
 }
diff --git a/rust/pact_ffi/src/models/sync_message.rs b/rust/pact_ffi/src/models/sync_message.rs
index 11038c1..65f5f09 100644
--- a/rust/pact_ffi/src/models/sync_message.rs
+++ b/rust/pact_ffi/src/models/sync_message.rs
@@ -106,7 +106,7 @@ ffi_fn! {
     } else {
       let contents = safe_str!(contents);
       let content_type = optional_str(content_type).map(|ct| ContentType::parse(ct.as_str()).ok()).flatten();
-      message.request.contents = OptionalBody::Present(Bytes::from(contents), content_type, Some(ContentTypeHint::TEXT));
+      message.request.contents = OptionalBody::Present(Bytes::copy_from_slice(contents.as_bytes()), content_type, Some(ContentTypeHint::TEXT));
     }
   }
 }
@@ -347,7 +347,7 @@ ffi_fn! {
     } else {
       let contents = safe_str!(contents);
       let content_type = optional_str(content_type).map(|ct| ContentType::parse(ct.as_str()).ok()).flatten();
-      response.contents = OptionalBody::Present(Bytes::from(contents), content_type, Some(ContentTypeHint::TEXT));
+      response.contents = OptionalBody::Present(Bytes::copy_from_slice(contents.as_bytes()), content_type, Some(ContentTypeHint::TEXT));
     }
   }
 }
-- 
2.43.0


From db743418182474368c08f8441a38dc6a7a4de7be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:18 +0000
Subject: [PATCH 128/139] fix: the provider state returned for an index is a
 copy that can be deleted, as documented

---
 rust/pact_ffi/src/models/async_message.rs    | 4 +---
 rust/pact_ffi/src/models/http_interaction.rs | 4 +---
 rust/pact_ffi/src/models/message.rs          | 4 +---
 rust/pact_ffi/src/models/sync_message.rs     | 4 +---
 4 files changed, 4 insertions(+), 12 deletions(-)

diff --git a/rust/pact_ffi/src/models/async_message.rs b/rust/pact_ffi/src/models/async_message.rs
index bae3917..e84554e 100644
--- a/rust/pact_ffi/src/models/async_message.rs
+++ b/rust/pact_ffi/src/models/async_message.rs
@@ -322,14 +322,12 @@ ffi_fn! {
         let message = as_ref!(message);
         let index = index as usize;
 
-        // Get a raw pointer directly, rather than boxing it, as its owned by the `SynchronousMessage`
-        // and will be cleaned up when the `SynchronousMessage` is cleaned up.
         let provider_state = message
             .provider_states
             .get(index)
             .ok_or(anyhow!("index is out of bounds"))?;
 
-        provider_state as *const ProviderState
+        ptr::raw_to(provider_state.clone()) as *const ProviderState
     } {
         std::ptr::null()
     }
diff --git a/rust/pact_ffi/src/models/http_interaction.rs b/rust/pact_ffi/src/models/http_interaction.rs
index 2886c53..d868aca 100644
--- a/rust/pact_ffi/src/models/http_interaction.rs
+++ b/rust/pact_ffi/src/models/http_interaction.rs
@@ -462,14 +462,12 @@ ffi_fn! {
         let interaction = as_ref!(interaction);
         let index = index as usize;
 
-        // Get a raw pointer directly, rather than boxing it, as its owned by the `SynchronousHttp`
-        // and will be cleaned up when the `SynchronousHttp` is cleaned up.
         let provider_state = interaction
             .provider_states
             .get(index)
             .ok_or(anyhow!("index is out of bounds"))?;
 
-        provider_state as *const ProviderState
+        ptr::raw_to(provider_state.clone()) as *const ProviderState
     } {
         std::ptr::null()
     }
diff --git a/rust/pact_ffi/src/models/message.rs b/rust/pact_ffi/src/models/message.rs
index 4fa2a41..a5ff16d 100644
--- a/rust/pact_ffi/src/models/message.rs
+++ b/rust/pact_ffi/src/models/message.rs
@@ -368,14 +368,12 @@ ffi_fn! {
         let message = as_ref!(message);
         let index = index as usize;
 
-        // Get a raw pointer directly, rather than boxing it, as its owned by the `Message`
-        // and will be cleaned up when the `Message` is cleaned up.
         let provider_state = message
             .provider_states
             .get(index)
             .ok_or(anyhow!("index is out of bounds"))?;
 
-        provider_state as *const ProviderState
+        ptr::raw_to(provider_state.clone()) as *const ProviderState
     } {
         std::ptr::null()
     }
diff --git a/rust/pact_ffi/src/models/sync_message.rs b/rust/pact_ffi/src/models/sync_message.rs
index 65f5f09..3b62606 100644
--- a/rust/pact_ffi/src/models/sync_message.rs
+++ b/rust/pact_ffi/src/models/sync_message.rs
@@ -592,14 +592,12 @@ ffi_fn! {
         let message = as_ref!(message);
         let index = index as usize;
 
-        // Get a raw pointer directly, rather than boxing it, as its owned by the `SynchronousMessage`
-        // and will be cleaned up when the `SynchronousMessage` is cleaned up.
         let provider_state = message
             .provider_states
             .get(index)
             .ok_or(anyhow!("index is out of bounds"))?;
 
-        provider_state as *const ProviderState
+        ptr::raw_to(provider_state.clone()) as *const ProviderState
     } {
         std::ptr::null_mut()
     }
-- 
2.43.0


From 2e6fee6a211885273807726f73bb23c97a2f5a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:18 +0000
Subject: [PATCH 129/139] fix: the value returned for a failed call is only
 created when the call failed

---
 rust/pact_ffi/src/util/ffi.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/pact_ffi/src/util/ffi.rs b/rust/pact_ffi/src/util/ffi.rs
index 7a7f99f..c6e4387 100644
--- a/rust/pact_ffi/src/util/ffi.rs
+++ b/rust/pact_ffi/src/util/ffi.rs
@@ -20,7 +20,7 @@ macro_rules! ffi_fn {
                 ::tracing::trace!("@param {} = {:?}", stringify!($arg), $arg);
             )*
 
-            let output = catch_panic(|| Ok($body)).unwrap_or($fail);
+            let output = catch_panic(|| Ok($body)).unwrap_or_else(|| $fail);
 
             ::tracing::trace!(output = ?output, "{} FFI function completed", stringify!($name));
 
-- 
2.43.0


From 2d0b72b4080f200e55e36724f3979abc640aaa53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:41 +0000
Subject: [PATCH 130/139] fix: a regex value that is no C string is an error
 and does not abort the process

---
 rust/pact_ffi/src/mock_server/mod.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/rust/pact_ffi/src/mock_server/mod.rs b/rust/pact_ffi/src/mock_server/mod.rs
index c8bc41e..e11af21 100644
--- a/rust/pact_ffi/src/mock_server/mod.rs
+++ b/rust/pact_ffi/src/mock_server/mod.rs
@@ -644,9 +644,11 @@ pub fn generate_regex_value_internal(regex: &str) -> Result<String, String> {
   match parser.parse(regex) {
     Ok(hir) => {
       let mut rnd = rand::thread_rng();
-      let gen = rand_regex::Regex::with_hir(hir, 20).unwrap();
-      let result: String = rnd.sample(gen);
-      Ok(result)
+      let gen = rand_regex::Regex::with_hir(hir, 20)
+        .map_err(|err| format!("generate_regex_value: can not generate a value for '{}' - {}", regex, err))?;
+      let result: Vec<u8> = rnd.sample(gen);
+      String::from_utf8(result)
+        .map_err(|err| format!("generate_regex_value: value generated for '{}' is not valid UTF-8 - {}", regex, err))
     },
     Err(err) => {
       let error = format!("generate_regex_value: '{}' is not a valid regular expression - {}", regex, err);
@@ -671,9 +673,12 @@ pub unsafe extern fn pactffi_generate_regex_value(regex: *const c_char) -> Strin
     let c_str = CStr::from_ptr(regex);
     match c_str.to_str() {
       Ok(regex) => match generate_regex_value_internal(regex) {
-        Ok(val) => {
-          let result_str = CString::new(val.as_str()).unwrap();
-          StringResult::Ok(result_str.into_raw())
+        Ok(val) => match CString::new(val.as_str()) {
+          Ok(result_str) => StringResult::Ok(result_str.into_raw()),
+          Err(_) => {
+            let error = CString::new("generate_regex_value: generated value contains a NULL character").unwrap();
+            StringResult::Failed(error.into_raw())
+          }
         },
         Err(err) => {
           let error = CString::new(err).unwrap();
-- 
2.43.0


From ee231c58db8c564f8afa53585f1ba20dc73b5c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:44 +0000
Subject: [PATCH 131/139] fix: date/time values generated through the C
 interface are as those of generators, and do not abort the process

---
 rust/pact_ffi/src/mock_server/mod.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/rust/pact_ffi/src/mock_server/mod.rs b/rust/pact_ffi/src/mock_server/mod.rs
index e11af21..4ac19fa 100644
--- a/rust/pact_ffi/src/mock_server/mod.rs
+++ b/rust/pact_ffi/src/mock_server/mod.rs
@@ -51,12 +51,11 @@ use std::net::ToSocketAddrs;
 use std::panic::catch_unwind;
 use std::str::from_utf8;
 
-use chrono::Local;
 use either::Either;
 use libc::c_char;
 use onig::Regex;
 use pact_models::pact::Pact;
-use pact_models::time_utils::{parse_pattern, to_chrono_pattern};
+use pact_models::time_utils::generate_string;
 use rand::prelude::*;
 use serde_json::Value;
 use tokio_rustls::rustls::ServerConfig;
@@ -586,14 +585,12 @@ pub unsafe extern fn pactffi_generate_datetime_string(format: *const c_char) ->
   } else {
     let c_str = CStr::from_ptr(format);
     match c_str.to_str() {
-      Ok(s) => match parse_pattern(s) {
-        Ok(pattern_tokens) => {
-          let result = Local::now().format(to_chrono_pattern(&pattern_tokens).as_str()).to_string();
+      Ok(s) => match generate_string(s) {
+        Ok(result) => {
           let result_str = CString::new(result.as_str()).unwrap();
           StringResult::Ok(result_str.into_raw())
         },
-        Err(err) => {
-          let error = format!("Error parsing '{}': {:?}", s, err);
+        Err(error) => {
           let error_str = CString::new(error.as_str()).unwrap();
           StringResult::Failed(error_str.into_raw())
         }
-- 
2.43.0


From 4551b9be849173e03d749419abae96eeb5f547a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:44 +0000
Subject: [PATCH 132/139] fix: all of the buffer after an error message is
 zeroed

---
 rust/pact_ffi/src/util/write.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/rust/pact_ffi/src/util/write.rs b/rust/pact_ffi/src/util/write.rs
index 03b23f5..1d12fba 100644
--- a/rust/pact_ffi/src/util/write.rs
+++ b/rust/pact_ffi/src/util/write.rs
@@ -70,10 +70,8 @@ impl<'a> ZeroizedWrite for &'a mut [u8] {
         // Write the buffer.
         let bytes = self.write(buf)?;
 
-        // Check if there's a remainder and zeroize if there is.
-        if let Some(remainder) = self.get_mut(buf.len()..) {
-            remainder.iter_mut().zeroize();
-        }
+        // Writing has moved the start of the slice, so zeroize all that remains.
+        self.iter_mut().zeroize();
 
         Ok(bytes)
     }
-- 
2.43.0


From 0f4cb8a519c1b08e2f87cbf233a52f50f5d9e960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:40 +0000
Subject: [PATCH 133/139] fix: a directory that is not valid UTF-8 does not
 poison the pact handles when a pact file is written

---
 rust/pact_ffi/src/mock_server/handles.rs | 16 +++++++++-------
 rust/pact_ffi/src/mock_server/mod.rs     |  5 ++++-
 2 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/rust/pact_ffi/src/mock_server/handles.rs b/rust/pact_ffi/src/mock_server/handles.rs
index 1d9e195..39c5ad8 100644
--- a/rust/pact_ffi/src/mock_server/handles.rs
+++ b/rust/pact_ffi/src/mock_server/handles.rs
@@ -3047,7 +3047,7 @@ pub extern fn pactffi_message_reify(message_handle: MessageHandle) -> *const c_c
 #[no_mangle]
 pub extern fn pactffi_write_message_pact_file(pact: MessagePactHandle, directory: *const c_char, overwrite: bool) -> i32 {
   let result = pact.with_pact(&|_, inner, spec_version| {
-    let filename = path_from_dir(directory, Some(inner.default_file_name().as_str()));
+    let filename = path_from_dir(directory, Some(inner.default_file_name().as_str()))?;
     write_pact(inner.boxed(), &filename.unwrap_or_else(|| PathBuf::from(inner.default_file_name().as_str())), spec_version, overwrite)
   });
 
@@ -3088,15 +3088,17 @@ pub extern fn pactffi_with_message_pact_metadata(pact: MessagePactHandle, namesp
 }
 
 /// Given a c string for the output directory, and an optional filename
-/// return a fully qualified directory or file path name for the output pact file
-pub(crate) fn path_from_dir(directory: *const c_char, file_name: Option<&str>) -> Option<PathBuf> {
+/// return a fully qualified directory or file path name for the output pact file. A directory that
+/// is not valid UTF-8 is an error.
+pub(crate) fn path_from_dir(directory: *const c_char, file_name: Option<&str>) -> anyhow::Result<Option<PathBuf>> {
   let dir = unsafe {
     if directory.is_null() {
       warn!("Directory to write to is NULL, defaulting to the current working directory");
       None
     } else {
       let c_str = CStr::from_ptr(directory);
-      let dir_str = from_utf8(c_str.to_bytes()).unwrap();
+      let dir_str = from_utf8(c_str.to_bytes())
+        .map_err(|err| anyhow!("Directory to write to is not valid UTF-8 - {}", err))?;
       if dir_str.is_empty() {
         None
       } else {
@@ -3105,13 +3107,13 @@ pub(crate) fn path_from_dir(directory: *const c_char, file_name: Option<&str>) -
     }
   };
 
-  dir.map(|path| {
+  Ok(dir.map(|path| {
     let mut full_path = PathBuf::from(path);
     if let Some(pact_file_name) = file_name {
       full_path.push(pact_file_name);
     }
     full_path
-  })
+  }))
 }
 
 ffi_fn! {
@@ -3141,7 +3143,7 @@ ffi_fn! {
   fn pactffi_pact_handle_write_file(pact: PactHandle, directory: *const c_char, overwrite: bool) -> i32 {
     let result = pact.with_pact(&|_, inner| {
       let pact_file = inner.pact.default_file_name();
-      let filename = path_from_dir(directory, Some(pact_file.as_str()));
+      let filename = path_from_dir(directory, Some(pact_file.as_str()))?;
       write_pact(inner.pact.boxed(), &filename.unwrap_or_else(|| PathBuf::from(pact_file.as_str())), inner.specification_version, overwrite)
     });
 
diff --git a/rust/pact_ffi/src/mock_server/mod.rs b/rust/pact_ffi/src/mock_server/mod.rs
index 4ac19fa..06dd68d 100644
--- a/rust/pact_ffi/src/mock_server/mod.rs
+++ b/rust/pact_ffi/src/mock_server/mod.rs
@@ -479,7 +479,10 @@ pub extern fn pactffi_cleanup_mock_server(mock_server_port: i32) -> bool {
 #[no_mangle]
 pub extern fn pactffi_write_pact_file(mock_server_port: i32, directory: *const c_char, overwrite: bool) -> i32 {
   let result = catch_unwind(|| {
-    let dir = path_from_dir(directory, None);
+    let dir = path_from_dir(directory, None).map_err(|err| {
+      log::error!("unable to write the pact file: {}", err);
+      WritePactFileErr::IOError
+    })?;
     let path = dir.map(|path| path.into_os_string().into_string().unwrap_or_default());
 
     pact_mock_server::write_pact_file(mock_server_port, path, overwrite)
-- 
2.43.0


From d2b281d4768c854301ac5669e19928d908a51dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:35 +0000
Subject: [PATCH 134/139] fix: message pact metadata keeps the other values of
 its namespace and leaves the read-only ones alone

---
 rust/pact_ffi/src/mock_server/handles.rs | 41 ++++++++++++++++--------
 1 file changed, 27 insertions(+), 14 deletions(-)

diff --git a/rust/pact_ffi/src/mock_server/handles.rs b/rust/pact_ffi/src/mock_server/handles.rs
index 39c5ad8..ddda704 100644
--- a/rust/pact_ffi/src/mock_server/handles.rs
+++ b/rust/pact_ffi/src/mock_server/handles.rs
@@ -1157,19 +1157,7 @@ pub extern fn pactffi_with_pact_metadata(
         warn!("'{}' is a readonly namespace and can't be modified", namespace);
         false
       } else {
-        match inner.pact.metadata.entry(namespace.to_string()) {
-          std::collections::btree_map::Entry::Vacant(entry) => {
-            entry.insert(json!({ name: value }));
-          }
-          std::collections::btree_map::Entry::Occupied(mut entry) => {
-            let metadata_entry = entry.get_mut();
-            if let Some(md) = metadata_entry.as_object_mut() {
-              md.insert(name.to_string(), Value::String(value.to_string()));
-            }  else {
-              *metadata_entry = json!({ name: value });
-            }
-          }
-        }
+        set_metadata_value(&mut inner.pact.metadata, namespace, name, value);
         !inner.mock_server_started
       }
     } else {
@@ -1179,6 +1167,27 @@ pub extern fn pactffi_with_pact_metadata(
   }).unwrap_or(false)
 }
 
+fn set_metadata_value(
+  metadata: &mut std::collections::BTreeMap<String, Value>,
+  namespace: &str,
+  name: &str,
+  value: &str
+) {
+  match metadata.entry(namespace.to_string()) {
+    std::collections::btree_map::Entry::Vacant(entry) => {
+      entry.insert(json!({ name: value }));
+    }
+    std::collections::btree_map::Entry::Occupied(mut entry) => {
+      let metadata_entry = entry.get_mut();
+      if let Some(md) = metadata_entry.as_object_mut() {
+        md.insert(name.to_string(), Value::String(value.to_string()));
+      } else {
+        *metadata_entry = json!({ name: value });
+      }
+    }
+  }
+}
+
   /// Adds metadata to the interaction.
   ///
   /// Metadata is only relevant for message interactions to provide additional
@@ -3080,7 +3089,11 @@ pub extern fn pactffi_with_message_pact_metadata(pact: MessagePactHandle, namesp
     let value = convert_cstr("value", value).unwrap_or_default();
 
     if !namespace.is_empty() {
-      inner.metadata.insert(namespace.to_string(), json!({ name: value }));
+      if PROTECTED_NAMES.contains(&namespace) {
+        warn!("'{}' is a readonly namespace and can't be modified", namespace);
+      } else {
+        set_metadata_value(&mut inner.metadata, namespace, name, value);
+      }
     } else {
       warn!("no namespace provided for metadata {:?} => {:?}. Ignoring", name, value);
     }
-- 
2.43.0


From 145ceeca7e8e7fd6cee7ab3f6be4207b47e4125c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:39 +0000
Subject: [PATCH 135/139] fix: a multipart body without a file and boundary has
 an empty part, to which further parts are added

---
 rust/pact_ffi/src/mock_server/handles.rs | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/rust/pact_ffi/src/mock_server/handles.rs b/rust/pact_ffi/src/mock_server/handles.rs
index ddda704..8e819c6 100644
--- a/rust/pact_ffi/src/mock_server/handles.rs
+++ b/rust/pact_ffi/src/mock_server/handles.rs
@@ -2395,16 +2395,9 @@ pub extern fn pactffi_with_multipart_file_v2(
         match convert_ptr_to_mime_part_body(file, part_name) {
           Ok(body) => {
             if let Some(reqres) = inner.as_v4_http_mut() {
-              let (body, boundary) = match convert_cstr("boundary", boundary) {
-                Some(boundary) => {
-                  let part = part_body_replace_marker(&body.body, body.boundary.as_str(), boundary);
-                  let body = OptionalBody::Present(part, body.body.content_type(), get_content_type_hint(&body.body));
-                  (body, boundary)
-                },
-                None => {
-                  (body.body, body.boundary.as_str())
-                }
-              };
+              let boundary = convert_cstr("boundary", boundary).unwrap_or(body.boundary.as_str());
+              let part_body = part_body_replace_marker(&body.body, body.boundary.as_str(), boundary);
+              let body = OptionalBody::Present(part_body, body.body.content_type(), get_content_type_hint(&body.body));
               match part {
                 InteractionPart::Request => request_multipart(&mut reqres.request, boundary, body, content_type, part_name),
                 InteractionPart::Response => response_multipart(&mut reqres.response, boundary, body, content_type, part_name)
-- 
2.43.0


From 459308be820279a196d3769c452e5134efc76342 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 07:44:47 +0000
Subject: [PATCH 136/139] fix: the responses built for a synchronous message
 have their own generators, not those of the request

---
 rust/pact_consumer/src/builders/sync_message_builder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/pact_consumer/src/builders/sync_message_builder.rs b/rust/pact_consumer/src/builders/sync_message_builder.rs
index a8ab98b..f2138bb 100644
--- a/rust/pact_consumer/src/builders/sync_message_builder.rs
+++ b/rust/pact_consumer/src/builders/sync_message_builder.rs
@@ -176,7 +176,7 @@ impl SyncMessageInteractionBuilder {
           contents: contents.body.clone(),
           metadata: contents.metadata.as_ref().cloned().unwrap_or_default(),
           matching_rules: rules,
-          generators: self.request_contents.generators.as_ref().cloned().unwrap_or_default()
+          generators: contents.generators.as_ref().cloned().unwrap_or_default()
         }
       }).collect(),
       comments: hashmap!{
-- 
2.43.0


From ee4a05e6cf8e832e74e9390835f038cc19c4fa14 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 07:44:47 +0000
Subject: [PATCH 137/139] fix: the content type of the response of a
 synchronous message is under contentType in its metadata

---
 rust/pact_consumer/src/builders/sync_message_builder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/pact_consumer/src/builders/sync_message_builder.rs b/rust/pact_consumer/src/builders/sync_message_builder.rs
index f2138bb..bac47d7 100644
--- a/rust/pact_consumer/src/builders/sync_message_builder.rs
+++ b/rust/pact_consumer/src/builders/sync_message_builder.rs
@@ -513,7 +513,7 @@ impl SyncMessageInteractionBuilder {
     );
     let mut metadata = hashmap!{};
     if let Some(content_type) = content_type {
-      metadata.insert(" contentType".to_string(), Value::String(content_type.clone()));
+      metadata.insert("contentType".to_string(), Value::String(content_type.clone()));
     }
     let response = InteractionContents {
       part_name: "response".to_string(),
-- 
2.43.0


From f23bd04ade97709b38b0b7f2116647286fb1695c Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 07:44:48 +0000
Subject: [PATCH 138/139] fix: a message has the matching rules of its metadata
 that its builder was given

---
 rust/pact_consumer/src/builders/message_builder.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/rust/pact_consumer/src/builders/message_builder.rs b/rust/pact_consumer/src/builders/message_builder.rs
index 8106ca4..c790b23 100644
--- a/rust/pact_consumer/src/builders/message_builder.rs
+++ b/rust/pact_consumer/src/builders/message_builder.rs
@@ -212,6 +212,9 @@ impl MessageInteractionBuilder {
     let mut rules = MatchingRules::default();
     rules.add_category("body")
       .add_rules(self.message_contents.rules.as_ref().cloned().unwrap_or_default());
+    if let Some(metadata_rules) = &self.message_contents.metadata_rules {
+      rules.add_category("metadata").add_rules(metadata_rules.clone());
+    }
 
     #[allow(unused_mut, unused_assignments)] let mut plugin_config = hashmap!{};
     #[cfg(feature = "plugins")]
@@ -264,6 +267,9 @@ impl MessageInteractionBuilder {
     let mut rules = MatchingRules::default();
     rules.add_category("body")
       .add_rules(self.message_contents.rules.as_ref().cloned().unwrap_or_default());
+    if let Some(metadata_rules) = &self.message_contents.metadata_rules {
+      rules.add_category("metadata").add_rules(metadata_rules.clone());
+    }
 
     let metadata = self.message_contents.metadata.as_ref()
       .map(|md| md.iter().map(|(k, v)| (k.clone(), v.clone())).collect())
-- 
2.43.0


From 7dccc87482e559447e2bf034e23630facb90ad38 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 08:02:44 +0000
Subject: [PATCH 139/139] fix: the iterators of messages neither lose their
 messages nor block when there is no Tokio runtime or only one of one thread

---
 .../src/builders/message_iter.rs              | 104 +++++++-----------
 1 file changed, 38 insertions(+), 66 deletions(-)

diff --git a/rust/pact_consumer/src/builders/message_iter.rs b/rust/pact_consumer/src/builders/message_iter.rs
index d1a6b34..c6dcc36 100644
--- a/rust/pact_consumer/src/builders/message_iter.rs
+++ b/rust/pact_consumer/src/builders/message_iter.rs
@@ -2,7 +2,8 @@ use std::collections::VecDeque;
 use std::env;
 use std::panic::RefUnwindSafe;
 use std::path::PathBuf;
-use std::sync::mpsc::channel;
+use std::future::Future;
+use std::thread;
 use itertools::Itertools;
 
 use maplit::hashmap;
@@ -14,8 +15,8 @@ use pact_models::prelude::v4::V4Pact;
 use pact_models::v4::async_message::AsynchronousMessage;
 use pact_models::v4::sync_message::SynchronousMessage;
 use pact_models::v4::V4InteractionType;
-use tokio::runtime::Handle;
-use tracing::{debug, error, info, warn};
+use anyhow::anyhow;
+use tracing::{debug, error, info};
 
 use pact_matching::generators::{apply_generators_to_sync_message, generate_message};
 
@@ -46,46 +47,19 @@ pub fn synchronous_messages_iter(pact: V4Pact, output_dir: &Option<PathBuf>) ->
     .map(|item| item.as_v4_sync_message().unwrap())
     .collect_vec();
 
-  let (sx, rx) = channel();
-  match Handle::try_current() {
-    Ok(handle) => {
-      let messages_to_generate = original_messages.clone();
-      handle.spawn(async move {
-        let mut messages = vec![];
-        for message in messages_to_generate {
-          let (req, res) = apply_generators_to_sync_message(&message, &GeneratorTestMode::Consumer, &hashmap! {}, &vec![], &hashmap! {}).await;
-          messages.push(SynchronousMessage {
-            request: req,
-            response: res,
-            ..      message
-          });
-        }
-        let _ = sx.send(messages);
-      })
-    },
-    Err(err) => {
-      warn!("Could not access the Tokio runtime, will start a new one: {}", err);
-      let messages_to_generate = original_messages.clone();
-      tokio::runtime::Builder::new_multi_thread()
-        .enable_all()
-        .build()
-        .expect("Could not start a Tokio runtime for running async tasks")
-        .spawn(async move {
-          let mut messages = vec![];
-          for message in messages_to_generate {
-            let (req, res) = apply_generators_to_sync_message(&message, &GeneratorTestMode::Consumer, &hashmap! {}, &vec![], &hashmap! {}).await;
-            messages.push(SynchronousMessage {
-              request: req,
-              response: res,
-              ..       message
-            });
-          }
-          let _ = sx.send(messages);
-        })
+  let messages_to_generate = original_messages.clone();
+  let message_list = match run_to_completion(async move {
+    let mut messages = vec![];
+    for message in messages_to_generate {
+      let (req, res) = apply_generators_to_sync_message(&message, &GeneratorTestMode::Consumer, &hashmap! {}, &vec![], &hashmap! {}).await;
+      messages.push(SynchronousMessage {
+        request: req,
+        response: res,
+        ..      message
+      });
     }
-  };
-
-  let message_list = match rx.recv() {
+    messages
+  }) {
     Ok(messages) => messages,
     Err(err) => {
       error!("Was not able to apply generators to the messages: {}", err);
@@ -104,38 +78,36 @@ pub fn synchronous_messages_iter(pact: V4Pact, output_dir: &Option<PathBuf>) ->
 // TODO: This needs a mechanism to pass in the test context and plugin data
 pub fn messages_iter(pact: MessagePact, output_dir: &Option<PathBuf>) -> MessageIterator<Message> {
   let original_messages = pact.messages.clone();
-  let (sx, rx) = channel();
-  match Handle::try_current() {
-    Ok(handle) => handle.spawn(async move {
-      let mut messages = VecDeque::new();
-      for message in original_messages {
-        messages.push_back(generate_message(&message, &GeneratorTestMode::Consumer, &hashmap!{}, &vec![], &hashmap!{}).await);
-      }
-      let _ = sx.send(messages);
-    }),
-    Err(err) => {
-      warn!("Could not access the Tokio runtime, will start a new one: {}", err);
-      tokio::runtime::Builder::new_multi_thread()
-        .enable_all()
-        .build()
-        .expect("Could not start a Tokio runtime for running async tasks")
-        .spawn(async move {
-          let mut messages = VecDeque::new();
-          for message in original_messages {
-            messages.push_back(generate_message(&message, &GeneratorTestMode::Consumer, &hashmap!{}, &vec![], &hashmap!{}).await);
-          }
-          let _ = sx.send(messages);
-        })
+  let messages = run_to_completion(async move {
+    let mut messages = VecDeque::new();
+    for message in original_messages {
+      messages.push_back(generate_message(&message, &GeneratorTestMode::Consumer, &hashmap!{}, &vec![], &hashmap!{}).await);
     }
-  };
+    messages
+  });
 
   MessageIterator {
     pact: pact.boxed(),
-    message_list: rx.recv().expect("Did not receive any messages"),
+    message_list: messages.expect("Did not receive any messages"),
     output_dir: output_dir.clone()
   }
 }
 
+/// Waits for the future on a thread of its own, as the current thread could be the only one of the
+/// Tokio runtime it belongs to.
+fn run_to_completion<F>(future: F) -> anyhow::Result<F::Output>
+  where
+    F: Future + Send + 'static,
+    F::Output: Send + 'static
+{
+  thread::spawn(move || {
+    let runtime = tokio::runtime::Builder::new_current_thread()
+      .enable_all()
+      .build()?;
+    Ok(runtime.block_on(future))
+  }).join().map_err(|_| anyhow!("The thread running the async task has failed"))?
+}
+
 impl <MT> Iterator for MessageIterator<MT> {
   type Item = MT;
 
-- 
2.43.0

