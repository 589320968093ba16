From 160d7939a4ad08bd41fcb151bb33d3ae274c7ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:57 +0000
Subject: [PATCH 001/116] fix: generators of V3 messages were dropped when
 loading a Pact file

---
 rust/pact_models/src/message.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rust/pact_models/src/message.rs b/rust/pact_models/src/message.rs
index 77daa56..abfffef 100644
--- a/rust/pact_models/src/message.rs
+++ b/rust/pact_models/src/message.rs
@@ -15,7 +15,7 @@ use tracing::warn;
 
 use crate::bodies::OptionalBody;
 use crate::content_types::ContentType;
-use crate::generators::{Generators, generators_to_json};
+use crate::generators::{Generators, generators_from_json, generators_to_json};
 use crate::http_parts::HttpPart;
 use crate::interaction::Interaction;
 use crate::json_utils::{body_from_json, json_to_string};
@@ -226,7 +226,7 @@ impl Message {
                   contents: body,
                   matching_rules: matchers_from_json(json, &None)?,
                   metadata,
-                  generators: Generators::default(),
+                  generators: generators_from_json(json)?,
                 })
             },
             _ => Err(anyhow!("Messages require Pact Specification version 3"))
-- 
2.43.0


From 66fee09d4bdd8b727b82d3587e5959fbbd379ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:57 +0000
Subject: [PATCH 002/116] fix: pre-V4 JSON bodies with no content type header
 could be written back as a string

---
 rust/pact_models/src/json_utils.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rust/pact_models/src/json_utils.rs b/rust/pact_models/src/json_utils.rs
index 53f2d12..2f2f316 100644
--- a/rust/pact_models/src/json_utils.rs
+++ b/rust/pact_models/src/json_utils.rs
@@ -13,7 +13,7 @@ use serde::Deserialize;
 use serde_json::{self, json, Map, Value};
 
 use crate::bodies::OptionalBody;
-use crate::content_types::{ContentType, detect_content_type_from_string};
+use crate::content_types::{ContentType, detect_content_type_from_string, JSON};
 use crate::headers::parse_header;
 use crate::path_exp::{DocPath, PathToken};
 
@@ -187,7 +187,7 @@ pub fn body_from_json(request: &Value, fieldname: &str, headers: &Option<HashMap
         }
       },
       Value::Null => OptionalBody::Null,
-      _ => OptionalBody::Present(v.to_string().into(), None, None)
+      _ => OptionalBody::Present(v.to_string().into(), content_type.or_else(|| Some(JSON.clone())), None)
     },
     None => OptionalBody::Missing
   }
-- 
2.43.0


From a9f8bf8eae80a2ea9d1b3a6a7b8d3c385f374592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:57 +0000
Subject: [PATCH 003/116] fix: V2 matching rules with names that are not path
 identifiers or paths containing a dollar sign did not round trip

---
 rust/pact_models/src/matchingrules/mod.rs | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/rust/pact_models/src/matchingrules/mod.rs b/rust/pact_models/src/matchingrules/mod.rs
index cc358e7..0dd2b64 100644
--- a/rust/pact_models/src/matchingrules/mod.rs
+++ b/rust/pact_models/src/matchingrules/mod.rs
@@ -39,6 +39,20 @@ fn generator_from_json(json: &Map<String, Value>) -> Option<Generator> {
   }
 }
 
+/// Path for the name of a header, query parameter, etc. in a V2 matching rule expression. Names are
+/// not required to be valid path expressions, so ones which are not a single identifier are added
+/// to the path as a field.
+fn v2_rule_name(name: String) -> DocPath {
+  match DocPath::new(name.as_str()) {
+    Ok(path) if path.len() == 2 => path,
+    _ => {
+      let mut path = DocPath::root();
+      path.push_field(name);
+      path
+    }
+  }
+}
+
 fn rules_from_json(attributes: &Map<String, Value>) -> anyhow::Result<Vec<Either<MatchingRule, MatchingReference>>> {
   match attributes.get("rules") {
     Some(rules) => match rules {
@@ -1025,7 +1039,7 @@ impl MatchingRuleCategory {
         map.insert("$.path".to_string(), v.to_v2_json());
       }
       Category::BODY => for (k, v) in self.rules.clone() {
-        map.insert(String::from(k).replace("$", "$.body"), v.to_v2_json());
+        map.insert(String::from(k).replacen("$", "$.body", 1), v.to_v2_json());
       }
       Category::HEADER | Category::QUERY => for (k, v) in &self.rules {
         let mut path = DocPath::root();
@@ -1354,7 +1368,7 @@ impl MatchingRules {
           _ => None
         }).skip(1).next();
         let header = header_name.ok_or_else(|| anyhow!("'{}' is not a valid path value for a matching rule", key))?;
-        self.add_v2_rule("header", DocPath::new(header)?, v)?;
+        self.add_v2_rule("header", v2_rule_name(header), v)?;
       } else {
         let path = DocPath::new(key)?;
         let mut names = path.tokens().iter().filter_map(|t| match t {
@@ -1365,7 +1379,7 @@ impl MatchingRules {
         let name = names.next();
         self.add_v2_rule(
           category,
-          if let Some(name) = name { DocPath::new(name)? } else { DocPath::empty() },
+          if let Some(name) = name { v2_rule_name(name) } else { DocPath::empty() },
           v,
         )?;
       }
-- 
2.43.0


From f5196767a2ae841a1692c34242856cf14d86fef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:07 +0000
Subject: [PATCH 004/116] fix: unencoded non-ASCII characters in query strings
 were corrupted when decoding

---
 rust/pact_models/src/query_strings.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/rust/pact_models/src/query_strings.rs b/rust/pact_models/src/query_strings.rs
index 7df3f94..7f4d79c 100644
--- a/rust/pact_models/src/query_strings.rs
+++ b/rust/pact_models/src/query_strings.rs
@@ -8,6 +8,10 @@ use tracing::{error, trace, warn};
 
 use crate::PactSpecification;
 
+fn push_char(buffer: &mut Vec<u8>, ch: char) {
+  buffer.extend_from_slice(ch.encode_utf8(&mut [0; 4]).as_bytes());
+}
+
 /// Decodes a query string using a percent-encoding scheme
 pub fn decode_query(query: &str) -> Result<String, String> {
   let mut chars = query.chars();
@@ -34,21 +38,21 @@ pub fn decode_query(query: &str) -> Result<String, String> {
             Err(err) => {
               error!("Failed to decode '%{}{}' to as HEX - {}", v1, v2, err);
               buffer.push('%' as u8);
-              buffer.push(v1 as u8);
-              buffer.push(v2 as u8);
+              push_char(&mut buffer, v1);
+              push_char(&mut buffer, v2);
             }
           }
         },
         (Some(v1), None) => {
           buffer.push('%' as u8);
-          buffer.push(v1 as u8);
+          push_char(&mut buffer, v1);
         },
         _ => buffer.push('%' as u8)
       }
     } else if c == '+' {
       buffer.push(' ' as u8);
     } else {
-      buffer.push(c as u8);
+      push_char(&mut buffer, c);
     }
 
     ch = chars.next();
-- 
2.43.0


From cc4e20b48839b708dd566ec0f1c26d8c1f9f3e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:07 +0000
Subject: [PATCH 005/116] fix: encoding a query string panicked on characters
 with an odd number of hex digits

---
 rust/pact_models/src/query_strings.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/rust/pact_models/src/query_strings.rs b/rust/pact_models/src/query_strings.rs
index 7f4d79c..462687c 100644
--- a/rust/pact_models/src/query_strings.rs
+++ b/rust/pact_models/src/query_strings.rs
@@ -76,14 +76,12 @@ pub fn encode_query(query: &str) -> String {
       'a'..='z' => ch.to_string(),
       'A'..='Z' => ch.to_string(),
       '0'..='9' => ch.to_string(),
-      _ => ch.escape_unicode()
-        .filter(|u| u.is_digit(16))
-        .batching(|it| {
-          match it.next() {
-            None => None,
-            Some(x) => Some((x, it.next().unwrap()))
-          }
-        })
+      _ => {
+        let hex = format!("{:x}", ch as u32);
+        // pad to a whole number of bytes
+        if hex.len() % 2 == 0 { hex } else { format!("0{}", hex) }
+      }.chars()
+        .tuples::<(char, char)>()
         .map(|u| format!("%{}{}", u.0, u.1))
         .collect()
     }
-- 
2.43.0


From e28d5af1cbaabffd6d605697d004e520166915fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:07 +0000
Subject: [PATCH 006/116] fix: query parameter names were not encoded, and
 non-string V3 values were replaced with the whole list

---
 rust/pact_models/src/query_strings.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/rust/pact_models/src/query_strings.rs b/rust/pact_models/src/query_strings.rs
index 462687c..5659d16 100644
--- a/rust/pact_models/src/query_strings.rs
+++ b/rust/pact_models/src/query_strings.rs
@@ -120,6 +120,17 @@ pub fn parse_query_string(query: &str) -> Option<HashMap<String, Vec<Option<Stri
   }
 }
 
+// Encodes the characters in a query parameter name which have a meaning in a query string
+fn encode_name(name: &str) -> String {
+  name.chars().map(|ch| {
+    match ch {
+      ' ' => "+".to_string(),
+      '%' | '&' | '=' | '+' | '#' => format!("%{:02x}", ch as u32),
+      _ => ch.to_string()
+    }
+  }).collect()
+}
+
 /// Converts a query string map into a query string
 pub fn build_query_string(query: HashMap<String, Vec<Option<String>>>) -> String {
   query.into_iter()
@@ -128,8 +139,8 @@ pub fn build_query_string(query: HashMap<String, Vec<Option<String>>>) -> String
     .flat_map(|kv| {
       kv.1.iter()
         .map(|v| match v {
-          None => kv.0.clone(),
-          Some(s) => format!("{}={}", kv.0, encode_query(s))
+          None => encode_name(&kv.0),
+          Some(s) => format!("{}={}", encode_name(&kv.0), encode_query(s))
         })
         .collect_vec()
     })
@@ -161,7 +172,7 @@ pub fn v3_query_from_json(
         Value::Array(array) => array.iter().map(|item| match item {
           Value::String(s) => Some(s.clone()),
           Value::Null => None,
-          _ => Some(v.to_string())
+          _ => Some(item.to_string())
         }).collect(),
         _ => {
           warn!("Query parameter value '{}' is not valid, ignoring", v);
-- 
2.43.0


From 4672e3ed69e531be448d59f29a12c5638b009fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:07 +0000
Subject: [PATCH 007/116] fix: panic or truncation when a response status is
 not a valid HTTP status

---
 rust/pact_models/src/response.rs      | 5 ++++-
 rust/pact_models/src/v4/http_parts.rs | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/rust/pact_models/src/response.rs b/rust/pact_models/src/response.rs
index 7fb6f3f..2923a34 100644
--- a/rust/pact_models/src/response.rs
+++ b/rust/pact_models/src/response.rs
@@ -1,3 +1,4 @@
+use anyhow::anyhow;
 use std::collections::HashMap;
 use std::fmt::{Display, Formatter};
 use std::hash::{Hash, Hasher};
@@ -39,7 +40,9 @@ impl Response {
   pub fn from_json(response: &Value, _: &PactSpecification
   ) -> anyhow::Result<Response> {
     let status_val = match response.get("status") {
-      Some(v) => v.as_u64().unwrap() as u16,
+      Some(v) => v.as_u64()
+        .and_then(|status| u16::try_from(status).ok())
+        .ok_or_else(|| anyhow!("'{}' is not a valid HTTP response status", v))?,
       None => 200
     };
     let headers = headers_from_json(response);
diff --git a/rust/pact_models/src/v4/http_parts.rs b/rust/pact_models/src/v4/http_parts.rs
index 0630fcd..07150b4 100644
--- a/rust/pact_models/src/v4/http_parts.rs
+++ b/rust/pact_models/src/v4/http_parts.rs
@@ -1,5 +1,6 @@
 //! V4 specification models - HTTP parts for SynchronousHttp
 
+use anyhow::anyhow;
 use std::collections::hash_map::Entry;
 use std::collections::HashMap;
 use std::convert::TryFrom;
@@ -500,7 +501,9 @@ impl HttpResponse {
   /// Build an `HttpResponse` from a JSON `Value` struct.
   pub fn from_json(response: &Value) -> anyhow::Result<Self> {
     let status_val = match response.get("status") {
-      Some(v) => v.as_u64().unwrap() as u16,
+      Some(v) => v.as_u64()
+        .and_then(|status| u16::try_from(status).ok())
+        .ok_or_else(|| anyhow!("'{}' is not a valid HTTP response status", v))?,
       None => 200
     };
     let headers = headers_from_json(response);
-- 
2.43.0


From cd485c628987c772f111eee5977fb83256ba6847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:12 +0000
Subject: [PATCH 008/116] fix: panic on a content type header with no values

---
 rust/pact_models/src/json_utils.rs    | 5 +----
 rust/pact_models/src/v4/http_parts.rs | 8 ++++----
 rust/pact_models/src/v4/mod.rs        | 2 +-
 3 files changed, 6 insertions(+), 9 deletions(-)

diff --git a/rust/pact_models/src/json_utils.rs b/rust/pact_models/src/json_utils.rs
index 2f2f316..cc270b3 100644
--- a/rust/pact_models/src/json_utils.rs
+++ b/rust/pact_models/src/json_utils.rs
@@ -152,10 +152,7 @@ pub fn body_from_json(request: &Value, fieldname: &str, headers: &Option<HashMap
   let content_type = match headers {
     Some(h) => match h.iter().find(|kv| kv.0.to_lowercase() == "content-type") {
       Some(kv) => {
-        match ContentType::parse(kv.1[0].as_str()) {
-          Ok(v) => Some(v),
-          Err(_) => None
-        }
+        kv.1.first().and_then(|v| ContentType::parse(v.as_str()).ok())
       },
       None => None
     },
diff --git a/rust/pact_models/src/v4/http_parts.rs b/rust/pact_models/src/v4/http_parts.rs
index 07150b4..ef2ddb5 100644
--- a/rust/pact_models/src/v4/http_parts.rs
+++ b/rust/pact_models/src/v4/http_parts.rs
@@ -398,15 +398,15 @@ fn content_type_from_json(headers: &Option<HashMap<String, Vec<String>>>, body_a
       debug!("Body has no content type set, will default to any headers or metadata");
       match headers {
         Some(h) => match h.iter().find(|kv| kv.0.to_lowercase() == "content-type") {
-          Some((_, v)) => {
-            match ContentType::parse(v[0].as_str()) {
+          Some((_, v)) => v.first().and_then(|v| {
+            match ContentType::parse(v.as_str()) {
               Ok(v) => Some(v),
               Err(err) => {
-                warn!("Failed to parse body content type '{}' - {}", v[0], err);
+                warn!("Failed to parse body content type '{}' - {}", v, err);
                 None
               }
             }
-          },
+          }),
           None => None
         },
         None => None
diff --git a/rust/pact_models/src/v4/mod.rs b/rust/pact_models/src/v4/mod.rs
index 2ecd476..4ad33ab 100644
--- a/rust/pact_models/src/v4/mod.rs
+++ b/rust/pact_models/src/v4/mod.rs
@@ -65,7 +65,7 @@ pub fn calc_content_type(body: &OptionalBody, headers: &Option<HashMap<String, V
   body.content_type()
     .or_else(|| headers.as_ref().map(|h| {
       match h.iter().find(|kv| kv.0.to_lowercase() == "content-type") {
-        Some((_, v)) => ContentType::parse(v[0].as_str()).ok(),
+        Some((_, v)) => v.first().and_then(|v| ContentType::parse(v.as_str()).ok()),
         None => None
       }
     }).flatten())
-- 
2.43.0


From ed415a80d23860940443be173da544495665dce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:12 +0000
Subject: [PATCH 009/116] fix: content type of message metadata was never used

---
 rust/pact_models/src/message.rs          | 5 ++++-
 rust/pact_models/src/v4/message_parts.rs | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/rust/pact_models/src/message.rs b/rust/pact_models/src/message.rs
index abfffef..8e1bfc5 100644
--- a/rust/pact_models/src/message.rs
+++ b/rust/pact_models/src/message.rs
@@ -350,7 +350,10 @@ impl HttpPart for Message {
     self.metadata.iter().find(|(k, _)| {
       let key = k.to_ascii_lowercase();
       key == "contenttype" || key == "content-type"
-    }).map(|(_, v)| json_to_string(&v[0]))
+    }).and_then(|(_, v)| match v {
+      Value::Array(values) => values.first().map(json_to_string),
+      _ => Some(json_to_string(v))
+    })
   }
 
   fn add_header(&mut self, key: &str, val: Vec<&str>) {
diff --git a/rust/pact_models/src/v4/message_parts.rs b/rust/pact_models/src/v4/message_parts.rs
index 8e9ef9b..83dd71e 100644
--- a/rust/pact_models/src/v4/message_parts.rs
+++ b/rust/pact_models/src/v4/message_parts.rs
@@ -170,7 +170,10 @@ impl HttpPart for MessageContents {
     self.metadata.iter().find(|(k, _)| {
       let key = k.to_ascii_lowercase();
       key == "contenttype" || key == "content-type"
-    }).map(|(_, v)| json_to_string(&v[0]))
+    }).and_then(|(_, v)| match v {
+      Value::Array(values) => values.first().map(json_to_string),
+      _ => Some(json_to_string(v))
+    })
   }
 }
 
-- 
2.43.0


From 99bb11fd294d51c974ba02ec721461b6991dd18f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:20 +0000
Subject: [PATCH 010/116] fix: merging pacts lost or duplicated interactions
 when they were not in description order

---
 rust/pact_models/src/iterator_utils.rs | 29 ++++++++++++++++
 rust/pact_models/src/message_pact.rs   | 25 ++++++--------
 rust/pact_models/src/sync_pact.rs      | 25 +++++---------
 rust/pact_models/src/v4/pact.rs        | 48 ++++++++------------------
 4 files changed, 62 insertions(+), 65 deletions(-)

diff --git a/rust/pact_models/src/iterator_utils.rs b/rust/pact_models/src/iterator_utils.rs
index 86f6f30..578f1a0 100644
--- a/rust/pact_models/src/iterator_utils.rs
+++ b/rust/pact_models/src/iterator_utils.rs
@@ -1,3 +1,6 @@
+use itertools::EitherOrBoth;
+
+use crate::interaction::Interaction;
 
 pub(crate) struct CartesianProductIterator<'a, I1, I2> {
   v1: &'a [I1],
@@ -34,6 +37,32 @@ impl <'a, I1: 'a, I2> Iterator for CartesianProductIterator<'a, I1, I2> {
   }
 }
 
+/// Merges two lists of interactions. Each interaction from the left list is paired with the first
+/// unpaired interaction on the right that is the same interaction, regardless of the order of
+/// the lists. Every interaction from both lists will be in the result exactly once.
+pub(crate) fn merge_interactions<'a, I1, I2>(
+  left: &'a [I1],
+  right: &'a [I2],
+  is_same: impl Fn(&I1, &I2) -> bool
+) -> Vec<EitherOrBoth<&'a I1, &'a I2>> {
+  let mut remaining: Vec<&'a I2> = right.iter().collect();
+  let mut result = vec![];
+  for interaction in left {
+    match remaining.iter().position(|other| is_same(interaction, other)) {
+      Some(index) => result.push(EitherOrBoth::Both(interaction, remaining.remove(index))),
+      None => result.push(EitherOrBoth::Left(interaction))
+    }
+  }
+  result.extend(remaining.into_iter().map(EitherOrBoth::Right));
+  result
+}
+
+/// Key to use to keep a merged list of interactions in a consistent order
+pub(crate) fn merge_order(interaction: &dyn Interaction) -> (String, Vec<String>) {
+  let states = interaction.provider_states().iter().map(|state| state.name.clone()).collect();
+  (interaction.description(), states)
+}
+
 #[cfg(test)]
 mod tests {
   use expectest::prelude::*;
diff --git a/rust/pact_models/src/message_pact.rs b/rust/pact_models/src/message_pact.rs
index a7e75bc..c538493 100644
--- a/rust/pact_models/src/message_pact.rs
+++ b/rust/pact_models/src/message_pact.rs
@@ -1,7 +1,6 @@
 //! The `message_pact` module defines a Pact
 //! that contains Messages instead of Interactions.
 
-use std::cmp::Ordering;
 use std::collections::{BTreeMap, HashMap};
 use std::fs;
 use std::fs::File;
@@ -21,6 +20,7 @@ use crate::{Consumer, PactSpecification, Provider};
 #[cfg(not(target_family = "wasm"))] use crate::file_utils::with_read_lock;
 #[cfg(not(target_family = "wasm"))] use crate::http_utils::{self, HttpAuth};
 use crate::interaction::Interaction;
+use crate::iterator_utils::{merge_interactions, merge_order};
 use crate::message::Message;
 use crate::pact::{determine_spec_version, Pact, parse_meta_data, ReadWritePact};
 use crate::PACT_RUST_VERSION;
@@ -305,24 +305,17 @@ impl ReadWritePact for MessagePact {
 
   fn merge(&self, pact: &dyn Pact) -> anyhow::Result<Box<dyn Pact + Send + Sync + RefUnwindSafe>> {
     if self.consumer.name == pact.consumer().name && self.provider.name == pact.provider().name {
-      let messages: Vec<Result<Message, String>> = self.messages.iter()
-        .merge_join_by(pact.interactions().iter(), |a, b| {
-          let cmp = Ord::cmp(&a.description, &b.description());
-          if cmp == Ordering::Equal && ! &a.provider_states().is_empty(){
-            Ord::cmp(&a.provider_states.iter().map(|p| p.name.clone()).collect::<Vec<String>>(),
-                     &b.provider_states().iter().map(|p| p.name.clone()).collect::<Vec<String>>())
-          } else {
-            cmp
-          }
-        })
+      let others = pact.interactions();
+      let messages: Vec<Result<Message, String>> = merge_interactions(&self.messages, &others,
+        |a, b| a.description == b.description() && a.provider_states == b.provider_states())
+        .into_iter()
         .map(|either| match either {
           Left(i) => Ok(i.clone()),
-          Right(i) => i.as_message()
-            .ok_or(format!("Can't convert interaction of type {} to V3 Asynchronous/Messages", i.type_of())),
-          Both(_, i) => i.as_message()
+          Right(i) | Both(_, i) => i.as_message()
             .ok_or(format!("Can't convert interaction of type {} to V3 Asynchronous/Messages", i.type_of()))
         })
         .collect();
+
       let errors: Vec<String> = messages.iter()
         .filter(|i| i.is_err())
         .map(|i| i.as_ref().unwrap_err().to_string())
@@ -333,7 +326,9 @@ impl ReadWritePact for MessagePact {
           consumer: self.consumer.clone(),
           messages: messages.iter()
             .filter(|i| i.is_ok())
-            .map(|i| i.as_ref().unwrap().clone()).collect(),
+            .map(|i| i.as_ref().unwrap().clone())
+            .sorted_by_key(|i| merge_order(i))
+            .collect(),
           metadata: self.metadata.clone(),
           specification_version: self.specification_version
         }))
diff --git a/rust/pact_models/src/sync_pact.rs b/rust/pact_models/src/sync_pact.rs
index a4fd8b4..c16aa6d 100644
--- a/rust/pact_models/src/sync_pact.rs
+++ b/rust/pact_models/src/sync_pact.rs
@@ -1,6 +1,5 @@
 //! Synchronous HTTP Request/Response Pact
 
-use std::cmp::Ordering;
 use std::collections::{BTreeMap, HashMap};
 use std::panic::RefUnwindSafe;
 use std::path::Path;
@@ -17,7 +16,7 @@ use crate::{Consumer, PactSpecification, Provider};
 #[cfg(not(target_family = "wasm"))] use crate::file_utils::with_read_lock;
 #[cfg(not(target_family = "wasm"))] use crate::http_utils::{self, HttpAuth};
 use crate::interaction::{Interaction, PactConflict, parse_interactions};
-use crate::iterator_utils::CartesianProductIterator;
+use crate::iterator_utils::{CartesianProductIterator, merge_interactions, merge_order};
 use crate::message_pact::MessagePact;
 use crate::pact::{determine_spec_version, metadata_schema, Pact, parse_meta_data, ReadWritePact, verify_metadata};
 use crate::PACT_RUST_VERSION;
@@ -299,21 +298,13 @@ impl ReadWritePact for RequestResponsePact {
         Err(anyhow!("Unable to merge pacts, as there were {} conflict(s) between the interactions. Please clean out your pact directory before running the tests.",
                     num_conflicts))
       } else {
-        let interactions: Vec<Result<RequestResponseInteraction, String>> = self.interactions.iter()
-          .merge_join_by(pact.interactions().iter(), |a, b| {
-            let cmp = Ord::cmp(&a.description, &b.description());
-            if cmp == Ordering::Equal && ! &a.provider_states().is_empty(){
-              Ord::cmp(&a.provider_states.iter().map(|p| p.name.clone()).collect::<Vec<String>>(),
-                       &b.provider_states().iter().map(|p| p.name.clone()).collect::<Vec<String>>())
-            } else {
-              cmp
-            }
-          })
+        let others = pact.interactions();
+        let interactions: Vec<Result<RequestResponseInteraction, String>> = merge_interactions(&self.interactions, &others,
+          |a, b| a.description == b.description() && a.provider_states == b.provider_states())
+          .into_iter()
           .map(|either| match either {
             Left(i) => Ok(i.clone()),
-            Right(i) => i.as_request_response()
-              .ok_or(format!("Can't convert interaction of type {} to V3 Synchronous/HTTP", i.type_of())),
-            Both(_, i) => i.as_request_response()
+            Right(i) | Both(_, i) => i.as_request_response()
               .ok_or(format!("Can't convert interaction of type {} to V3 Synchronous/HTTP", i.type_of()))
           })
           .collect();
@@ -328,7 +319,9 @@ impl ReadWritePact for RequestResponsePact {
             consumer: self.consumer.clone(),
             interactions: interactions.iter()
               .filter(|i| i.is_ok())
-              .map(|i| i.as_ref().unwrap().clone()).collect(),
+              .map(|i| i.as_ref().unwrap().clone())
+              .sorted_by_key(|i| merge_order(i))
+              .collect(),
             metadata: self.metadata.clone(),
             specification_version: self.specification_version.clone()
           }))
diff --git a/rust/pact_models/src/v4/pact.rs b/rust/pact_models/src/v4/pact.rs
index 92548af..c2af87d 100644
--- a/rust/pact_models/src/v4/pact.rs
+++ b/rust/pact_models/src/v4/pact.rs
@@ -1,6 +1,5 @@
 //! V4 specification Pact
 
-use std::cmp::Ordering;
 use std::collections::{BTreeMap, HashMap, HashSet};
 use std::panic::RefUnwindSafe;
 use std::path::Path;
@@ -16,6 +15,7 @@ use tracing::{trace, warn};
 use crate::{Consumer, PactSpecification, Provider};
 #[cfg(not(target_family = "wasm"))] use crate::file_utils::with_read_lock;
 use crate::interaction::Interaction;
+use crate::iterator_utils::{merge_interactions, merge_order};
 use crate::json_utils::json_to_string;
 use crate::message_pact::MessagePact;
 use crate::pact::{Pact, ReadWritePact};
@@ -357,43 +357,23 @@ impl ReadWritePact for V4Pact {
 
   fn merge(&self, other: &dyn Pact) -> anyhow::Result<Box<dyn Pact + Send + Sync + RefUnwindSafe>> {
     if self.consumer.name == other.consumer().name && self.provider.name == other.provider().name {
+      let others = other.interactions().iter()
+        .map(|i| i.as_v4().unwrap())
+        .collect_vec();
       let mut new_pact = V4Pact {
         consumer: self.consumer.clone(),
         provider: self.provider.clone(),
-        interactions: self.interactions.iter()
-          .merge_join_by(other.interactions().iter().map(|i| i.as_v4().unwrap()), |a, b| {
-            match (a.key(), b.key()) {
-              (Some(key_a), Some(key_b)) => Ord::cmp(&key_a, &key_b),
-              (_, _) => {
-                let type_a = a.type_of();
-                let type_b = b.type_of();
-                let cmp = Ord::cmp(&a.description(), &b.description());
-                if cmp == Ordering::Equal && !a.provider_states().is_empty() {
-                  let cmp = Ord::cmp(&a.provider_states().iter().map(|p| p.name.clone()).collect::<Vec<String>>(),
-                  &b.provider_states().iter().map(|p| p.name.clone()).collect::<Vec<String>>());
-                  if cmp == Ordering::Equal {
-                       Ord::cmp(&type_a, &type_b)
-                  } else
-                  {
-                    cmp
-                  }
-                }
-                else if cmp == Ordering::Equal && a.provider_states().is_empty() {
-                  Ord::cmp(&type_a, &type_b)
-                } 
-                 else {
-                  cmp
-                }
-              }
-            }
-          })
-          .map(|either| {
-            match either {
-              Left(i) => i.clone(),
-              Right(i) => i.boxed_v4(),
-              Both(i, _) => i.clone()
-            }
+        interactions: merge_interactions(&self.interactions, &others, |a, b| match (a.key(), b.key()) {
+          (Some(key_a), Some(key_b)) => key_a == key_b,
+          (_, _) => a.description() == b.description() && a.provider_states() == b.provider_states() &&
+            a.type_of() == b.type_of()
+        })
+          .into_iter()
+          .map(|either| match either {
+            Left(i) | Both(i, _) => i.clone(),
+            Right(i) => i.boxed_v4()
           })
+          .sorted_by_key(|i| merge_order(i.as_ref()))
           .collect(),
         metadata: self.metadata.clone(),
         plugin_data: self.plugin_data.clone()
-- 
2.43.0


From ddfeae17ead430886dbf7105fd2f3176ead48fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:07 +0000
Subject: [PATCH 011/116] fix: concurrent writers of the same pact file could
 lose each other's interactions

---
 rust/pact_models/src/pact.rs | 60 ++++++++++++++++++++----------------
 1 file changed, 34 insertions(+), 26 deletions(-)

diff --git a/rust/pact_models/src/pact.rs b/rust/pact_models/src/pact.rs
index f030933..a92203d 100644
--- a/rust/pact_models/src/pact.rs
+++ b/rust/pact_models/src/pact.rs
@@ -148,7 +148,12 @@ pub fn read_pact_from_file(file: &mut File, path: &Path) -> anyhow::Result<Box<d
     f.read_to_string(&mut buf)?;
     Ok(buf)
   })?;
-  let pact_json = serde_json::from_str(&buf)
+  pact_from_json_str(&buf, path)
+}
+
+#[cfg(not(target_family = "wasm"))]
+fn pact_from_json_str(buf: &str, path: &Path) -> anyhow::Result<Box<dyn Pact + Send + Sync + RefUnwindSafe>> {
+  let pact_json = serde_json::from_str(buf)
     .context("Failed to parse Pact JSON")
     .map_err(|err| {
       error!("read_pact_from_file: {}", err);
@@ -223,34 +228,37 @@ pub fn write_pact(
 ) -> anyhow::Result<()> {
   fs::create_dir_all(path.parent().unwrap())?;
   let _lock = WRITE_LOCK.lock().unwrap();
-  if !overwrite && path.exists() {
-    debug!("Merging pact with file {:?}", path);
-    let mut f = fs::OpenOptions::new().read(true).write(true).open(&path)?;
-    let existing_pact = read_pact_from_file(&mut f, path)?;
-
-    if existing_pact.specification_version() < pact.specification_version() {
-      warn!("Note: Existing pact is an older specification version ({:?}), and will be upgraded",
-            existing_pact.specification_version());
+  let new_pact_json = serde_json::to_string_pretty(&pact.to_json(pact_spec)?)?;
+  // The file must not be truncated or read outside of the lock, otherwise the contents written by
+  // another process could be lost
+  let mut file = fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(path)?;
+  with_write_lock(path, &mut file, 3, &mut |f| {
+    let mut existing = String::new();
+    if !overwrite {
+      f.read_to_string(&mut existing)?;
     }
 
-    let merged_pact = pact.merge(existing_pact.deref())?;
-    let pact_json = serde_json::to_string_pretty(&merged_pact.to_json(pact_spec)?)?;
+    let pact_json = if existing.is_empty() {
+      debug!("Writing new pact file to {:?}", path);
+      new_pact_json.clone()
+    } else {
+      debug!("Merging pact with file {:?}", path);
+      let existing_pact = pact_from_json_str(&existing, path)?;
 
-    with_write_lock(path, &mut f, 3, &mut |f| {
-      f.set_len(0)?;
-      f.seek(SeekFrom::Start(0))?;
-      f.write_all(pact_json.as_bytes())?;
-      Ok(())
-    })
-  } else {
-    debug!("Writing new pact file to {:?}", path);
-    let result = serde_json::to_string_pretty(&pact.to_json(pact_spec)?)?;
-    let mut file = File::create(path)?;
-    with_write_lock(path, &mut file, 3, &mut |f| {
-      f.write_all(result.as_bytes())?;
-      Ok(())
-    })
-  }
+      if existing_pact.specification_version() < pact.specification_version() {
+        warn!("Note: Existing pact is an older specification version ({:?}), and will be upgraded",
+              existing_pact.specification_version());
+      }
+
+      let merged_pact = pact.merge(existing_pact.deref())?;
+      serde_json::to_string_pretty(&merged_pact.to_json(pact_spec)?)?
+    };
+
+    f.set_len(0)?;
+    f.seek(SeekFrom::Start(0))?;
+    f.write_all(pact_json.as_bytes())?;
+    Ok(())
+  })
 }
 
 
-- 
2.43.0


From 7879abbbc5a9628f8aa0a9ed94b666967c2099d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:28 +0000
Subject: [PATCH 012/116] fix: panic on path expressions with an index that is
 not a valid number

---
 rust/pact_models/src/path_exp.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/rust/pact_models/src/path_exp.rs b/rust/pact_models/src/path_exp.rs
index a6e3e88..67e1a72 100644
--- a/rust/pact_models/src/path_exp.rs
+++ b/rust/pact_models/src/path_exp.rs
@@ -632,7 +632,7 @@ fn index_path<I>(chars: &mut Peekable<I>, tokens: &mut Vec<PathToken>, path: &st
   next_char = peek(chars);
   while next_char.is_some() {
     let ch = next_char.unwrap();
-    if ch.1.is_numeric() {
+    if ch.1.is_ascii_digit() {
       id.push(ch.1);
       chars.next();
     } else {
@@ -648,7 +648,9 @@ fn index_path<I>(chars: &mut Peekable<I>, tokens: &mut Vec<PathToken>, path: &st
     }
   }
 
-  tokens.push(PathToken::Index(id.parse().unwrap()));
+  let index = id.parse()
+    .map_err(|err| format!("\"{}\" is not a valid index in path expression \"{}\" - {}", id, path, err))?;
+  tokens.push(PathToken::Index(index));
   Ok(())
 }
 
@@ -661,7 +663,7 @@ fn bracket_path<I>(chars: &mut Peekable<I>, tokens: &mut Vec<PathToken>, path: &
       if c.1 == '\'' {
         chars.next();
         string_path(chars, tokens, path, c.0)?
-      } else if c.1.is_numeric() {
+      } else if c.1.is_ascii_digit() {
         index_path(chars, tokens, path)?
       } else if c.1 == '*' {
         chars.next();
-- 
2.43.0


From 1cc7ccc4754ede44cf6f7b3af44e0fa24502fb8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:00 +0000
Subject: [PATCH 013/116] fix: path expressions for keys with a quote or a
 backslash did not parse as they were written

---
 rust/pact_models/src/path_exp.rs | 39 ++++++++++++++++----------------
 1 file changed, 19 insertions(+), 20 deletions(-)

diff --git a/rust/pact_models/src/path_exp.rs b/rust/pact_models/src/path_exp.rs
index 67e1a72..7fd8b5b 100644
--- a/rust/pact_models/src/path_exp.rs
+++ b/rust/pact_models/src/path_exp.rs
@@ -593,34 +593,33 @@ fn path_identifier<I>(chars: &mut Peekable<I>, tokens: &mut Vec<PathToken>, path
   }
 }
 
-// string_path -> [^']+
+// string_path -> ([^'\] | \' | \\ | \)+
 fn string_path<I>(chars: &mut Peekable<I>, tokens: &mut Vec<PathToken>, path: &str, index: usize) -> Result<(), String>
   where I: Iterator<Item=(usize, char)> {
   let mut id = String::new();
-  let mut next_char = peek(chars);
-  if next_char.is_some() {
-    chars.next();
-    let mut ch = next_char.unwrap();
-    next_char = peek(chars);
-    while ch.1 != '\'' && next_char.is_some() {
-      id.push(ch.1);
-      chars.next();
-      ch = next_char.unwrap();
-      next_char = peek(chars);
-    }
-    if ch.1 == '\'' {
-      if id.is_empty() {
-        Err(format!("Empty strings are not allowed in path expression \"{}\" at index {}", path, ch.0))
+  let mut last_index = index;
+  while let Some((ch_index, ch)) = chars.next() {
+    last_index = ch_index;
+    match ch {
+      '\'' => return if id.is_empty() {
+        Err(format!("Empty strings are not allowed in path expression \"{}\" at index {}", path, ch_index))
       } else {
         tokens.push(PathToken::Field(id));
         Ok(())
-      }
-    } else {
-      Err(format!("Unterminated string in path expression \"{}\" at index {}", path, ch.0))
+      },
+      // quotes and backslashes are escaped when a path is written
+      '\\' => match peek(chars) {
+        Some((escaped_index, escaped)) if escaped == '\'' || escaped == '\\' => {
+          chars.next();
+          last_index = escaped_index;
+          id.push(escaped);
+        }
+        _ => id.push(ch)
+      },
+      _ => id.push(ch)
     }
-  } else {
-    Err(format!("Unterminated string in path expression \"{}\" at index {}", path, index))
   }
+  Err(format!("Unterminated string in path expression \"{}\" at index {}", path, last_index))
 }
 
 // index_path -> [0-9]+
-- 
2.43.0


From 8304ffb66ea07f64080b2765885ca6fc2a730928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:32 +0000
Subject: [PATCH 014/116] fix: paths to JSON keys with a slash or a tilde were
 not resolved

---
 rust/pact_models/src/json_utils.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/rust/pact_models/src/json_utils.rs b/rust/pact_models/src/json_utils.rs
index cc270b3..221716f 100644
--- a/rust/pact_models/src/json_utils.rs
+++ b/rust/pact_models/src/json_utils.rs
@@ -236,7 +236,7 @@ pub fn resolve_path(value: &Value, expression: &DocPath) -> Vec<String> {
   query_object_graph(expression.tokens(), &mut tree, root, value.clone());
   let expanded_paths = root.descendants(&tree).fold(Vec::<String>::new(), |mut acc, node_id| {
     let node = tree.index(node_id);
-    if !node.get().is_empty() && node.first_child().is_none() {
+    if node_id != root && node.first_child().is_none() {
       let path: Vec<String> = node_id.ancestors(&tree).map(|n| format!("{}", tree.index(n).get())).collect();
       if path.len() == expression.len() {
         acc.push(path.iter().rev().join("/"));
@@ -247,6 +247,11 @@ pub fn resolve_path(value: &Value, expression: &DocPath) -> Vec<String> {
   expanded_paths
 }
 
+// Escapes an object key so it can be used as part of a JSON pointer
+fn pointer_part(key: &str) -> String {
+  key.replace('~', "~0").replace('/', "~1")
+}
+
 fn query_object_graph(path_exp: &Vec<PathToken>, tree: &mut Arena<String>, root: NodeId, body: Value) {
   let mut body_cursor = body;
   let mut it = path_exp.iter();
@@ -259,7 +264,7 @@ fn query_object_graph(path_exp: &Vec<PathToken>, tree: &mut Arena<String>, root:
             match body_cursor.as_object() {
               Some(map) => match map.get(name) {
                 Some(val) => {
-                  node_cursor = node_cursor.append_value(name.clone(), tree);
+                  node_cursor = node_cursor.append_value(pointer_part(name), tree);
                   body_cursor = val.clone();
                 },
                 None => return
@@ -281,7 +286,7 @@ fn query_object_graph(path_exp: &Vec<PathToken>, tree: &mut Arena<String>, root:
               Some(map) => {
                 let remaining = it.by_ref().cloned().collect();
                 for (key, val) in map {
-                  let node = node_cursor.append_value(key.clone(), tree);
+                  let node = node_cursor.append_value(pointer_part(key), tree);
                   body_cursor = val.clone();
                   query_object_graph(&remaining, tree, node, val.clone());
                 }
-- 
2.43.0


From 49afcfa235bcad137658a98415088bc963b23db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:32 +0000
Subject: [PATCH 015/116] fix: paths to XML elements with names that are not
 plain words were not resolved

---
 rust/pact_models/src/xml_utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/pact_models/src/xml_utils.rs b/rust/pact_models/src/xml_utils.rs
index e885580..94a5abe 100644
--- a/rust/pact_models/src/xml_utils.rs
+++ b/rust/pact_models/src/xml_utils.rs
@@ -203,7 +203,7 @@ pub fn text_nodes(element: &Element) -> Vec<String> {
 }
 
 lazy_static!{
-   static ref PATH_RE: Regex = Regex::new(r#"(\w+)\[(\d+)]"#).unwrap();
+   static ref PATH_RE: Regex = Regex::new(r#"^([^/\[]+)\[(\d+)]$"#).unwrap();
 }
 
 /// Enum to box the result value from resolve_matching_node
-- 
2.43.0


From 31d0ad09b1fca478fc1968ed7e9935febafcd4eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:00 +0000
Subject: [PATCH 016/116] fix: hashes and unique keys of equal interactions
 depended on the iteration order of maps

---
 rust/pact_models/src/generators/mod.rs    | 2 +-
 rust/pact_models/src/matchingrules/mod.rs | 5 +++--
 rust/pact_models/src/provider_states.rs   | 3 ++-
 rust/pact_models/src/v4/async_message.rs  | 4 +++-
 4 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/rust/pact_models/src/generators/mod.rs b/rust/pact_models/src/generators/mod.rs
index 7abba1e..427f106 100644
--- a/rust/pact_models/src/generators/mod.rs
+++ b/rust/pact_models/src/generators/mod.rs
@@ -361,7 +361,7 @@ impl Hash for Generator {
         for (index, rules, generators) in variants {
           index.hash(state);
           rules.hash(state);
-          for (s, g) in generators {
+          for (s, g) in generators.iter().sorted_by(|(a, _), (b, _)| Ord::cmp(a, b)) {
             s.hash(state);
             g.hash(state);
           }
diff --git a/rust/pact_models/src/matchingrules/mod.rs b/rust/pact_models/src/matchingrules/mod.rs
index 0dd2b64..7e52e0d 100644
--- a/rust/pact_models/src/matchingrules/mod.rs
+++ b/rust/pact_models/src/matchingrules/mod.rs
@@ -614,7 +614,7 @@ impl Hash for MatchingRule {
         for (index, rules, generators) in variants {
           index.hash(state);
           rules.hash(state);
-          for (s, g) in generators {
+          for (s, g) in generators.iter().sorted_by(|(a, _), (b, _)| Ord::cmp(a, b)) {
             s.hash(state);
             g.hash(state);
           }
@@ -1470,7 +1470,8 @@ impl MatchingRules {
 impl Hash for MatchingRules {
   fn hash<H: Hasher>(&self, state: &mut H) {
     for (k, v) in self.rules.iter()
-      .filter(|(_, cat)| cat.is_not_empty()) {
+      .filter(|(_, cat)| cat.is_not_empty())
+      .sorted_by(|(a, _), (b, _)| Ord::cmp(a, b)) {
       k.hash(state);
       v.hash(state);
     }
diff --git a/rust/pact_models/src/provider_states.rs b/rust/pact_models/src/provider_states.rs
index e218bac..6f4ad9d 100644
--- a/rust/pact_models/src/provider_states.rs
+++ b/rust/pact_models/src/provider_states.rs
@@ -5,6 +5,7 @@ use std::cmp::Eq;
 use std::collections::HashMap;
 use std::hash::{Hash, Hasher};
 
+use itertools::Itertools;
 use maplit::*;
 use serde::{Deserialize, Serialize};
 use serde_json::*;
@@ -100,7 +101,7 @@ impl ProviderState {
 impl Hash for ProviderState {
   fn hash<H: Hasher>(&self, state: &mut H) {
     self.name.hash(state);
-    for (k, v) in self.params.clone() {
+    for (k, v) in self.params.iter().sorted_by(|(a, _), (b, _)| Ord::cmp(a, b)) {
       k.hash(state);
       match v {
         Value::Number(n) => if n.is_u64() {
diff --git a/rust/pact_models/src/v4/async_message.rs b/rust/pact_models/src/v4/async_message.rs
index 7cc8495..588d41c 100644
--- a/rust/pact_models/src/v4/async_message.rs
+++ b/rust/pact_models/src/v4/async_message.rs
@@ -9,6 +9,7 @@ use std::panic::RefUnwindSafe;
 use std::sync::{Arc, Mutex};
 
 use anyhow::anyhow;
+use itertools::Itertools;
 use maplit::hashmap;
 use serde_json::{json, Map, Value};
 use tracing::warn;
@@ -447,7 +448,8 @@ impl Hash for AsynchronousMessage {
     self.description.hash(state);
     self.provider_states.hash(state);
     self.contents.contents.hash(state);
-    for (k, v) in &self.contents.metadata {
+    for (k, v) in self.contents.metadata.iter()
+      .sorted_by(|(a, _), (b, _)| Ord::cmp(a, b)) {
       k.hash(state);
       hash_json(v, state);
     }
-- 
2.43.0


From 0e37f92558936162e9f222d60d6091cdfa169cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:14 +0000
Subject: [PATCH 017/116] fix: status code matching rules for different
 statuses were equal

---
 rust/pact_models/src/matchingrules/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rust/pact_models/src/matchingrules/mod.rs b/rust/pact_models/src/matchingrules/mod.rs
index 7e52e0d..04e4b72 100644
--- a/rust/pact_models/src/matchingrules/mod.rs
+++ b/rust/pact_models/src/matchingrules/mod.rs
@@ -638,6 +638,7 @@ impl PartialEq for MatchingRule {
       (MatchingRule::Include(str1), MatchingRule::Include(str2)) => str1 == str2,
       (MatchingRule::ContentType(str1), MatchingRule::ContentType(str2)) => str1 == str2,
       (MatchingRule::ArrayContains(variants1), MatchingRule::ArrayContains(variants2)) => variants1 == variants2,
+      (MatchingRule::StatusCode(status1), MatchingRule::StatusCode(status2)) => status1 == status2,
       (MatchingRule::EachKey(definition1), MatchingRule::EachKey(definition2)) => definition1 == definition2,
       (MatchingRule::EachValue(definition1), MatchingRule::EachValue(definition2)) => definition1 == definition2,
       _ => mem::discriminant(self) == mem::discriminant(other)
-- 
2.43.0


From 380adc11908a967006baaf5f66220dfe11e8f92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:04 +0000
Subject: [PATCH 018/116] fix: min/max type and array contains matching rules
 could not be created from their attributes

---
 rust/pact_models/src/matchingrules/mod.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/rust/pact_models/src/matchingrules/mod.rs b/rust/pact_models/src/matchingrules/mod.rs
index 04e4b72..6e294f3 100644
--- a/rust/pact_models/src/matchingrules/mod.rs
+++ b/rust/pact_models/src/matchingrules/mod.rs
@@ -393,6 +393,10 @@ impl MatchingRule {
         Some(max) => Ok(MatchingRule::MaxType(max)),
         None => Err(anyhow!("Max matcher missing 'max' field")),
       },
+      "min-max-type" => match (json_to_num(attributes.get("min").cloned()), json_to_num(attributes.get("max").cloned())) {
+        (Some(min), Some(max)) => Ok(MatchingRule::MinMaxType(min, max)),
+        _ => Err(anyhow!("Min/Max matcher missing 'min' or 'max' field")),
+      },
       "timestamp" | "datetime" => match attributes.get("format").or_else(|| attributes.get(rule_type)) {
         Some(s) => Ok(MatchingRule::Timestamp(json_to_string(s))),
         None => Ok(MatchingRule::Timestamp(String::default())),
@@ -415,6 +419,15 @@ impl MatchingRule {
           Value::Array(variants) => {
             let mut values = Vec::new();
             for variant in variants {
+              // Variants can also be in the form returned by values(): [index, rules, generators]
+              let variant = &match variant.as_array().map(|parts| parts.as_slice()) {
+                Some([index, rules, generators]) => json!({
+                  "index": index,
+                  "rules": rules,
+                  "generators": generators
+                }),
+                _ => variant.clone()
+              };
               let index = json_to_num(variant.get("index").cloned()).unwrap_or_default();
               let mut category = MatchingRuleCategory::empty("body");
               if let Some(rules) = variant.get("rules") {
-- 
2.43.0


From fbc57998096a71e62ebe86343f46b088fbbb71f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:17 +0000
Subject: [PATCH 019/116] fix: random string and provider state generators were
 not re-created from their attributes

---
 rust/pact_models/src/generators/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rust/pact_models/src/generators/mod.rs b/rust/pact_models/src/generators/mod.rs
index 427f106..c4897e7 100644
--- a/rust/pact_models/src/generators/mod.rs
+++ b/rust/pact_models/src/generators/mod.rs
@@ -270,7 +270,7 @@ impl Generator {
       }
       Generator::RandomDecimal(digits) => hashmap!{ "digits" => json!(digits) },
       Generator::RandomHexadecimal(digits) => hashmap!{ "digits" => json!(digits) },
-      Generator::RandomString(digits) => hashmap!{ "digits" => json!(digits) },
+      Generator::RandomString(size) => hashmap!{ "size" => json!(size) },
       Generator::Regex(r) => hashmap!{ "regex" => json!(r) },
       Generator::Date(format, exp) => {
         match (format, exp) {
@@ -298,7 +298,7 @@ impl Generator {
       }
       Generator::RandomBoolean => empty,
       Generator::ProviderStateGenerator(exp, data_type) => if let Some(data_type) = data_type {
-        hashmap!{ "expression" => Value::String(exp.clone()), "data_type" => data_type.into() }
+        hashmap!{ "expression" => Value::String(exp.clone()), "dataType" => data_type.into() }
       } else {
         hashmap!{ "expression" => Value::String(exp.clone()) }
       }
-- 
2.43.0


From d9bec42fc9a4b66cfcf193abb691cef8cbddb46c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:20 +0000
Subject: [PATCH 020/116] fix: the matching rule selected for a path was random
 when several rules had the same weight

---
 rust/pact_models/src/matchingrules/mod.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/rust/pact_models/src/matchingrules/mod.rs b/rust/pact_models/src/matchingrules/mod.rs
index 6e294f3..66fb3ee 100644
--- a/rust/pact_models/src/matchingrules/mod.rs
+++ b/rust/pact_models/src/matchingrules/mod.rs
@@ -1022,7 +1022,7 @@ impl MatchingRuleCategory {
   fn max_by_path(&self, path: &[&str]) -> RuleList {
     self.rules.iter().map(|(k, v)| (k, v, k.path_weight(path)))
       .filter(|&(_, _, (w, _))| w > 0)
-      .max_by_key(|&(_, _, (w, t))| w * t)
+      .max_by_key(|&(k, _, (w, t))| (w * t, k))
       .map(|(_, v, (_, t))| v.as_cascaded(t != path.len()))
       .unwrap_or_default()
   }
@@ -1108,7 +1108,10 @@ impl MatchingRuleCategory {
 
   /// Returns this category as a matching rule list. Returns a None if there are no rules
   pub fn as_rule_list(&self) -> RuleList {
-    self.rules.values().next().cloned().unwrap_or_default()
+    self.rules.iter()
+      .max_by_key(|&(path, _)| path)
+      .map(|(_, rules)| rules.clone())
+      .unwrap_or_default()
   }
 
   /// Adds the rules to the category from the provided JSON
-- 
2.43.0


From f7b4d0110bc504468b3b15e39aa1002e40bc4ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:29 +0000
Subject: [PATCH 021/116] fix: copying a boxed synchronous message panicked,
 and displaying it failed

---
 rust/pact_models/src/interaction.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rust/pact_models/src/interaction.rs b/rust/pact_models/src/interaction.rs
index b8944d0..b6a6ef4 100644
--- a/rust/pact_models/src/interaction.rs
+++ b/rust/pact_models/src/interaction.rs
@@ -153,6 +153,8 @@ impl Display for dyn Interaction {
       std::fmt::Display::fmt(&mp, f)
     } else if let Some(mp) = self.as_v4_async_message() {
       std::fmt::Display::fmt(&mp, f)
+    } else if let Some(mp) = self.as_v4_sync_message() {
+      std::fmt::Display::fmt(&mp, f)
     } else {
       Err(fmt::Error)
     }
@@ -166,6 +168,8 @@ impl Clone for Box<dyn Interaction> {
         Box::new(http)
       } else if let Some(message) = self.as_v4_async_message() {
         Box::new(message)
+      } else if let Some(message) = self.as_v4_sync_message() {
+        Box::new(message)
       } else {
         panic!("Internal Error - Tried to clone an interaction that was not valid")
       }
-- 
2.43.0


From 10f3c719999f96592c2213704f620c9db88088c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:29 +0000
Subject: [PATCH 022/116] fix: unique keys ignored nested provider state
 values, status codes and each key/value definitions

---
 rust/pact_models/src/matchingrules/mod.rs | 16 ++++++++++++++++
 rust/pact_models/src/provider_states.rs   |  3 ++-
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/rust/pact_models/src/matchingrules/mod.rs b/rust/pact_models/src/matchingrules/mod.rs
index 66fb3ee..1dee825 100644
--- a/rust/pact_models/src/matchingrules/mod.rs
+++ b/rust/pact_models/src/matchingrules/mod.rs
@@ -633,6 +633,22 @@ impl Hash for MatchingRule {
           }
         }
       }
+      MatchingRule::StatusCode(status) => {
+        mem::discriminant(status).hash(state);
+        if let HttpStatus::StatusCodes(codes) = status {
+          codes.hash(state);
+        }
+      }
+      MatchingRule::EachKey(definition) | MatchingRule::EachValue(definition) => {
+        definition.value.hash(state);
+        for rule in &definition.rules {
+          match rule {
+            Either::Left(rule) => rule.hash(state),
+            Either::Right(reference) => reference.name.hash(state)
+          }
+        }
+        definition.generator.hash(state);
+      }
       _ => ()
     }
   }
diff --git a/rust/pact_models/src/provider_states.rs b/rust/pact_models/src/provider_states.rs
index 6f4ad9d..b6a94bf 100644
--- a/rust/pact_models/src/provider_states.rs
+++ b/rust/pact_models/src/provider_states.rs
@@ -11,6 +11,7 @@ use serde::{Deserialize, Serialize};
 use serde_json::*;
 use tracing::warn;
 
+use crate::json_utils::hash_json;
 use crate::PactSpecification;
 use crate::verify_json::{json_type_of, PactFileVerificationResult, PactJsonVerifier, ResultLevel};
 
@@ -113,7 +114,7 @@ impl Hash for ProviderState {
         },
         Value::String(s) => s.hash(state),
         Value::Bool(b) => b.hash(state),
-        _ => ()
+        _ => hash_json(v, state)
       }
     }
   }
-- 
2.43.0


From f9be5d039a658bc83bf80bd3b3f916fedb0b7af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:54 +0000
Subject: [PATCH 023/116] fix: date expressions ignored years from a leap day,
 rolled past month ends and panicked on large amounts

---
 .../src/generators/datetime_expressions.rs    | 130 ++++++++----------
 1 file changed, 60 insertions(+), 70 deletions(-)

diff --git a/rust/pact_models/src/generators/datetime_expressions.rs b/rust/pact_models/src/generators/datetime_expressions.rs
index d22c6aa..f26476c 100644
--- a/rust/pact_models/src/generators/datetime_expressions.rs
+++ b/rust/pact_models/src/generators/datetime_expressions.rs
@@ -62,7 +62,7 @@ use std::str::from_utf8;
 use anyhow::anyhow;
 use ariadne::{Config, Label, Report, ReportKind, Source};
 use bytes::{BytesMut, BufMut};
-use chrono::Duration;
+use chrono::{Duration, Months};
 use chrono::prelude::*;
 use logos::{Logos, Span};
 
@@ -195,27 +195,9 @@ pub fn execute_time_expression<Tz: TimeZone>(dt: &DateTime<Tz>, expression: &str
     let mut date_time = base_time.clone();
     for adjustment in &result.adjustments {
       date_time = match adjustment.operation {
-        Operation::PLUS => match adjustment.adjustment_type {
-          TimeOffsetType::HOUR => date_time.add(Duration::try_hours(adjustment.value as i64)
-            .ok_or_else(|| anyhow!("Adjustment value {} overflows the bounds", adjustment.value))?),
-          TimeOffsetType::MINUTE => date_time.add(Duration::try_minutes(adjustment.value as i64)
-            .ok_or_else(|| anyhow!("Adjustment value {} overflows the bounds", adjustment.value))?),
-          TimeOffsetType::SECOND => date_time.add(Duration::try_seconds(adjustment.value as i64)
-            .ok_or_else(|| anyhow!("Adjustment value {} overflows the bounds", adjustment.value))?),
-          TimeOffsetType::MILLISECOND => date_time.add(Duration::try_milliseconds(adjustment.value as i64)
-            .ok_or_else(|| anyhow!("Adjustment value {} overflows the bounds", adjustment.value))?)
-        },
-        Operation::MINUS => match adjustment.adjustment_type {
-          TimeOffsetType::HOUR => date_time.sub(Duration::try_hours(adjustment.value as i64)
-            .ok_or_else(|| anyhow!("Adjustment value {} overflows the bounds", adjustment.value))?),
-          TimeOffsetType::MINUTE => date_time.sub(Duration::try_minutes(adjustment.value as i64)
-            .ok_or_else(|| anyhow!("Adjustment value {} overflows the bounds", adjustment.value))?),
-          TimeOffsetType::SECOND => date_time.sub(Duration::try_seconds(adjustment.value as i64)
-            .ok_or_else(|| anyhow!("Adjustment value {} overflows the bounds", adjustment.value))?),
-          TimeOffsetType::MILLISECOND => date_time.sub(Duration::try_milliseconds(adjustment.value as i64)
-            .ok_or_else(|| anyhow!("Adjustment value {} overflows the bounds", adjustment.value))?)
-        }
-      }
+        Operation::PLUS => date_time.checked_add_signed(time_duration(adjustment)?),
+        Operation::MINUS => date_time.checked_sub_signed(time_duration(adjustment)?)
+      }.ok_or_else(|| overflows(adjustment.value))?;
     }
 
     Ok(date_time)
@@ -245,18 +227,48 @@ pub fn execute_datetime_expression<Tz: TimeZone>(dt: &DateTime<Tz>, expression:
   }
 }
 
+fn overflows(value: u64) -> anyhow::Error {
+  anyhow!("Adjustment value {} overflows the bounds", value)
+}
+
+/// Duration for a time adjustment
+fn time_duration(adjustment: &Adjustment<TimeOffsetType>) -> anyhow::Result<Duration> {
+  i64::try_from(adjustment.value).ok()
+    .and_then(|value| match adjustment.adjustment_type {
+      TimeOffsetType::HOUR => Duration::try_hours(value),
+      TimeOffsetType::MINUTE => Duration::try_minutes(value),
+      TimeOffsetType::SECOND => Duration::try_seconds(value),
+      TimeOffsetType::MILLISECOND => Duration::try_milliseconds(value)
+    })
+    .ok_or_else(|| overflows(adjustment.value))
+}
+
+/// Number of months to adjust by, if the adjusted date will be within the bounds of the dates supported
+fn bounded_months<Tz: TimeZone>(date: &DateTime<Tz>, adjustment: &Adjustment<DateOffsetType>, months: u64) -> anyhow::Result<i64> {
+  let value = adjustment.value.checked_mul(months).and_then(|v| i64::try_from(v).ok())
+    .ok_or_else(|| overflows(adjustment.value))?;
+  let years = value / 12 + 1;
+  let max = match adjustment.operation {
+    Operation::PLUS => NaiveDate::MAX.year() as i64 - date.year() as i64,
+    Operation::MINUS => date.year() as i64 - NaiveDate::MIN.year() as i64
+  };
+  if years < max {
+    Ok(value)
+  } else {
+    Err(overflows(adjustment.value))
+  }
+}
+
 fn forward_date_by<Tz: TimeZone>(adjustment: &Adjustment<DateOffsetType>, date: &DateTime<Tz>) -> anyhow::Result<DateTime<Tz>> {
   Ok(match adjustment.adjustment_type {
-    DateOffsetType::DAY => date.clone().add(Duration::try_days(adjustment.value as i64)
-      .ok_or_else(|| anyhow!("Adjustment value {} overflows the bounds", adjustment.value))?),
-    DateOffsetType::WEEK => date.clone().add(Duration::try_weeks(adjustment.value as i64)
-      .ok_or_else(|| anyhow!("Adjustment value {} overflows the bounds", adjustment.value))?),
-    DateOffsetType::MONTH => roll_month(date, adjustment.value as i64),
-    DateOffsetType::YEAR => {
-      let date = date.clone();
-      let year = date.year();
-      date.with_year(year + adjustment.value as i32).unwrap_or(date)
-    },
+    DateOffsetType::DAY => i64::try_from(adjustment.value).ok().and_then(Duration::try_days)
+      .and_then(|days| date.clone().checked_add_signed(days))
+      .ok_or_else(|| overflows(adjustment.value))?,
+    DateOffsetType::WEEK => i64::try_from(adjustment.value).ok().and_then(Duration::try_weeks)
+      .and_then(|weeks| date.clone().checked_add_signed(weeks))
+      .ok_or_else(|| overflows(adjustment.value))?,
+    DateOffsetType::MONTH => roll_month(date, bounded_months(date, adjustment, 1)?),
+    DateOffsetType::YEAR => roll_month(date, bounded_months(date, adjustment, 12)?),
     DateOffsetType::MONDAY => adjust_date_up_to(date, |d| d.weekday() == Weekday::Mon),
     DateOffsetType::TUESDAY => adjust_date_up_to(date, |d| d.weekday() == Weekday::Tue),
     DateOffsetType::WEDNESDAY => adjust_date_up_to(date, |d| d.weekday() == Weekday::Wed),
@@ -317,50 +329,28 @@ fn adjust_date_down_to<Tz: TimeZone>(
   date
 }
 
-/// Rolls the month by the adjustment one day at a time
+/// Rolls the month by the adjustment. If the resulting month does not have the day, the last day
+/// of the month is used.
 fn roll_month<Tz: TimeZone>(date: &DateTime<Tz>, months: i64) -> DateTime<Tz> {
-  let mut date = date.clone();
-  let day = date.day();
-  let one_day_duration = Duration::try_days(1).unwrap(); // OK to unwrap, 1 will never overflow
-  let mut month_count = 0;
-
-  if months > 0 {
-    let mut month = date.month();
-    while month_count < months {
-      date = date.add(one_day_duration);
-      if date.month() != month {
-        month = date.month();
-        month_count += 1;
-      }
-    }
-    date.with_day(day).unwrap_or(date)
-  } else if months < 0 {
-    let mut month = date.month();
-    while month_count > months {
-      date = date.sub(one_day_duration);
-      if date.month() != month {
-        month = date.month();
-        month_count -= 1;
-      }
-    }
-    date.with_day(day).unwrap_or(date)
+  let adjustment = Months::new(months.unsigned_abs() as u32);
+  let result = if months < 0 {
+    date.clone().checked_sub_months(adjustment)
   } else {
-    date
-  }
+    date.clone().checked_add_months(adjustment)
+  };
+  result.unwrap_or_else(|| date.clone())
 }
 
 fn reverse_date_by<Tz: TimeZone>(adjustment: &Adjustment<DateOffsetType>, date: &DateTime<Tz>) -> anyhow::Result<DateTime<Tz>> {
   Ok(match adjustment.adjustment_type {
-    DateOffsetType::DAY => date.clone().sub(Duration::try_days(adjustment.value as i64)
-      .ok_or_else(|| anyhow!("Adjustment value {} overflows the bounds", adjustment.value))?),
-    DateOffsetType::WEEK => date.clone().sub(Duration::try_weeks(adjustment.value as i64)
-      .ok_or_else(|| anyhow!("Adjustment value {} overflows the bounds", adjustment.value))?),
-    DateOffsetType::MONTH => roll_month(date, -(adjustment.value as i64)),
-    DateOffsetType::YEAR => {
-      let date = date.clone();
-      let year = date.year();
-      date.with_year(year - adjustment.value as i32).unwrap_or(date)
-    },
+    DateOffsetType::DAY => i64::try_from(adjustment.value).ok().and_then(Duration::try_days)
+      .and_then(|days| date.clone().checked_sub_signed(days))
+      .ok_or_else(|| overflows(adjustment.value))?,
+    DateOffsetType::WEEK => i64::try_from(adjustment.value).ok().and_then(Duration::try_weeks)
+      .and_then(|weeks| date.clone().checked_sub_signed(weeks))
+      .ok_or_else(|| overflows(adjustment.value))?,
+    DateOffsetType::MONTH => roll_month(date, -bounded_months(date, adjustment, 1)?),
+    DateOffsetType::YEAR => roll_month(date, -bounded_months(date, adjustment, 12)?),
     DateOffsetType::MONDAY => adjust_date_down_to(date, |d| d.weekday() == Weekday::Mon),
     DateOffsetType::TUESDAY => adjust_date_down_to(date, |d| d.weekday() == Weekday::Tue),
     DateOffsetType::WEDNESDAY => adjust_date_down_to(date, |d| d.weekday() == Weekday::Wed),
-- 
2.43.0


From 6caae2fa3bd09bf36f05b471e1c405318860dfa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:54 +0000
Subject: [PATCH 024/116] fix: date and time expressions with something unknown
 at the end were accepted

---
 .../src/generators/date_expression_parser.rs  | 40 +++++++-------
 .../src/generators/time_expression_parser.rs  | 53 ++++++++++---------
 2 files changed, 49 insertions(+), 44 deletions(-)

diff --git a/rust/pact_models/src/generators/date_expression_parser.rs b/rust/pact_models/src/generators/date_expression_parser.rs
index 044942c..54b1bc5 100644
--- a/rust/pact_models/src/generators/date_expression_parser.rs
+++ b/rust/pact_models/src/generators/date_expression_parser.rs
@@ -170,11 +170,11 @@ pub(crate) fn expression<'a>(lex: &mut Lexer<DateExpressionToken>, exp: &str) ->
   if let Some(Ok(token)) = lex.next() {
     if token.is_base() {
       date_base = base(lex, exp, &token)?;
-      if let Some(Ok(token)) = lex.next() {
-        if token.is_op() {
-          adj.extend_from_slice(&*adjustments(lex, exp, &token)?);
-        } else {
-          return Err(error(exp, "+ or -", Some(lex.span().clone())));
+      if let Some(token) = lex.next() {
+        match token {
+          Ok(token) if token.is_op() => adj.extend_from_slice(&*adjustments(lex, exp, &token)?),
+          Ok(_) => return Err(error(exp, "+ or -", Some(lex.span().clone()))),
+          Err(_) => return Err(error(exp, "no more tokens", Some(lex.span().clone())))
         }
       }
     } else if token.is_op() {
@@ -186,11 +186,11 @@ pub(crate) fn expression<'a>(lex: &mut Lexer<DateExpressionToken>, exp: &str) ->
         value: v,
         operation: Operation::PLUS
       });
-      if let Some(Ok(token)) = lex.next() {
-        if token.is_op() {
-          adj.extend_from_slice(&*adjustments(lex, exp, &token)?);
-        } else {
-          return Err(error(exp, "+ or -", Some(lex.span().clone())));
+      if let Some(token) = lex.next() {
+        match token {
+          Ok(token) if token.is_op() => adj.extend_from_slice(&*adjustments(lex, exp, &token)?),
+          Ok(_) => return Err(error(exp, "+ or -", Some(lex.span().clone()))),
+          Err(_) => return Err(error(exp, "no more tokens", Some(lex.span().clone())))
         }
       }
     } else if token == DateExpressionToken::Last {
@@ -200,11 +200,11 @@ pub(crate) fn expression<'a>(lex: &mut Lexer<DateExpressionToken>, exp: &str) ->
         value: v,
         operation: Operation::MINUS
       });
-      if let Some(Ok(token)) = lex.next() {
-        if token.is_op() {
-          adj.extend_from_slice(&*adjustments(lex, exp, &token)?);
-        } else {
-          return Err(error(exp, "+ or -", Some(lex.span().clone())));
+      if let Some(token) = lex.next() {
+        match token {
+          Ok(token) if token.is_op() => adj.extend_from_slice(&*adjustments(lex, exp, &token)?),
+          Ok(_) => return Err(error(exp, "+ or -", Some(lex.span().clone()))),
+          Err(_) => return Err(error(exp, "no more tokens", Some(lex.span().clone())))
         }
       }
     } else {
@@ -230,11 +230,11 @@ fn adjustments(lex: &mut Lexer<DateExpressionToken>, exp: &str, token: &DateExpr
   let mut results = vec![];
 
   results.push(adjustment(lex, exp, token)?);
-  while let Some(Ok(token)) = lex.next() {
-    if token.is_op() {
-      results.push(adjustment(lex, exp, &token)?);
-    } else {
-      break
+  while let Some(token) = lex.next() {
+    match token {
+      Ok(token) if token.is_op() => results.push(adjustment(lex, exp, &token)?),
+      Ok(_) => return Err(error(exp, "+ or -", Some(lex.span().clone()))),
+      Err(_) => return Err(error(exp, "no more tokens", Some(lex.span().clone())))
     }
   }
 
diff --git a/rust/pact_models/src/generators/time_expression_parser.rs b/rust/pact_models/src/generators/time_expression_parser.rs
index c6d4ecd..384fd6e 100644
--- a/rust/pact_models/src/generators/time_expression_parser.rs
+++ b/rust/pact_models/src/generators/time_expression_parser.rs
@@ -103,12 +103,14 @@ pub(crate) fn expression(lex: &mut Lexer<TimeExpressionToken>, exp: &str) -> any
     if token.is_base() {
       let (tb, next) = base(lex, exp, token)?;
       time_base = tb;
-      if let Some(Ok(token)) = next.map(|next| Ok(next)).or_else(|| lex.next()) {
-        if token.is_op() {
-          let a = adjustments(lex, exp, token)?;
-          adj.extend_from_slice(&*a);
-        } else {
-          return Err(error(exp, "+ or -", Some(lex.span().clone())));
+      if let Some(token) = next.map(|next| Ok(next)).or_else(|| lex.next()) {
+        match token {
+          Ok(token) if token.is_op() => {
+            let a = adjustments(lex, exp, token)?;
+            adj.extend_from_slice(&*a);
+          }
+          Ok(_) => return Err(error(exp, "+ or -", Some(lex.span().clone()))),
+          Err(_) => return Err(error(exp, "no more tokens", Some(lex.span().clone())))
         }
       }
     } else if token.is_op() {
@@ -121,12 +123,14 @@ pub(crate) fn expression(lex: &mut Lexer<TimeExpressionToken>, exp: &str) -> any
         value: 1,
         operation: Operation::PLUS
       });
-      if let Some(Ok(token)) = lex.next() {
-        if token.is_op() {
-          let a = adjustments(lex, exp, token)?;
-          adj.extend_from_slice(&*a);
-        } else {
-          return Err(error(exp, "+ or -", Some(lex.span().clone())));
+      if let Some(token) = lex.next() {
+        match token {
+          Ok(token) if token.is_op() => {
+            let a = adjustments(lex, exp, token)?;
+            adj.extend_from_slice(&*a);
+          }
+          Ok(_) => return Err(error(exp, "+ or -", Some(lex.span().clone()))),
+          Err(_) => return Err(error(exp, "no more tokens", Some(lex.span().clone())))
         }
       }
     } else if token == TimeExpressionToken::Last {
@@ -136,12 +140,14 @@ pub(crate) fn expression(lex: &mut Lexer<TimeExpressionToken>, exp: &str) -> any
         value: 1,
         operation: Operation::MINUS
       });
-      if let Some(Ok(token)) = lex.next() {
-        if token.is_op() {
-          let a = adjustments(lex, exp, token)?;
-          adj.extend_from_slice(&*a);
-        } else {
-          return Err(error(exp, "+ or -", Some(lex.span().clone())));
+      if let Some(token) = lex.next() {
+        match token {
+          Ok(token) if token.is_op() => {
+            let a = adjustments(lex, exp, token)?;
+            adj.extend_from_slice(&*a);
+          }
+          Ok(_) => return Err(error(exp, "+ or -", Some(lex.span().clone()))),
+          Err(_) => return Err(error(exp, "no more tokens", Some(lex.span().clone())))
         }
       }
     } else {
@@ -233,14 +239,13 @@ fn adjustments(
       let adj = adjustment(lex, exp, token)?;
       results.push(adj);
     } else {
-      break
+      return Err(error(exp, "+ or -", Some(lex.span().clone())));
     }
 
-    if let Some(Ok(t)) = lex.next() {
-      // loop
-      token = t.clone();
-    } else {
-      break
+    match lex.next() {
+      Some(Ok(t)) => token = t, // loop
+      None => break,
+      Some(Err(_)) => return Err(error(exp, "no more tokens", Some(lex.span().clone())))
     }
   }
 
-- 
2.43.0


From 8ef81ffd85cc9e7fa1e05c39425dc85485416d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:54 +0000
Subject: [PATCH 025/116] fix: 12 o'clock (pm) left the time unchanged

---
 rust/pact_models/src/generators/datetime_expressions.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rust/pact_models/src/generators/datetime_expressions.rs b/rust/pact_models/src/generators/datetime_expressions.rs
index f26476c..4f3b303 100644
--- a/rust/pact_models/src/generators/datetime_expressions.rs
+++ b/rust/pact_models/src/generators/datetime_expressions.rs
@@ -184,9 +184,9 @@ pub fn execute_time_expression<Tz: TimeZone>(dt: &DateTime<Tz>, expression: &str
       TimeBase::Midnight => time.with_hour(0).unwrap_or(dt.clone()),
       TimeBase::Noon => time.with_hour(12).unwrap_or(dt.clone()),
       TimeBase::Am { hour } => time.with_hour(hour as u32).unwrap_or(dt.clone()),
-      TimeBase::Pm { hour } => time.with_hour((12 + hour) as u32).unwrap_or(dt.clone()),
+      TimeBase::Pm { hour } => time.with_hour((12 + hour % 12) as u32).unwrap_or(dt.clone()),
       TimeBase::Next { hour } => if dt.hour() < 12 {
-        time.with_hour((12 + hour) as u32).unwrap_or(dt.clone())
+        time.with_hour((12 + hour % 12) as u32).unwrap_or(dt.clone())
       } else {
         time.with_hour(hour as u32).unwrap_or(dt.clone())
       }
-- 
2.43.0


From ad613e5facf4f08952a6d09d42053f0adb2b506b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:16 +0000
Subject: [PATCH 026/116] fix: timezone offsets over 11 hours were not valid,
 and offsets with several signs were

---
 rust/pact_models/src/time_utils.rs | 33 ++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/rust/pact_models/src/time_utils.rs b/rust/pact_models/src/time_utils.rs
index e5578e9..21235d7 100644
--- a/rust/pact_models/src/time_utils.rs
+++ b/rust/pact_models/src/time_utils.rs
@@ -582,8 +582,23 @@ fn second_fraction(s: &str, count: usize) -> IResult<&str, String, DateTimeError
   })
 }
 
+// Sign of a timezone offset
+fn timezone_sign(s: &str) -> IResult<&str, &str, DateTimeError<&str>> {
+  alt((tag("+"), tag("-")))(s)
+}
+
+// Hours of a timezone offset, these can be up to 18 hours
+fn timezone_hour(s: &str) -> IResult<&str, String, DateTimeError<&str>> {
+  take_while_m_n(1, 2, is_digit)(s).and_then(|(remaining, result)|{
+    match validate_number(result, "timezone hour".into(), 0, 18) {
+      Ok(_) => Ok((remaining, result.into())),
+      Err(_err) => Err(Error(DateTimeError::InvalidHour(result.to_string())))
+    }
+  })
+}
+
 fn timezone_hour_min(s: &str) -> IResult<&str, &str, DateTimeError<&str>> {
-  tuple((is_a("+-"), hour_12_0, tag(":"), minute))(s)
+  tuple((timezone_sign, timezone_hour, tag(":"), minute))(s)
     .map(|(remaining, _result)| {
       (remaining, "")
     })
@@ -591,23 +606,23 @@ fn timezone_hour_min(s: &str) -> IResult<&str, &str, DateTimeError<&str>> {
 
 fn timezone_long_offset(s: &str, d: usize) -> IResult<&str, String, DateTimeError<&str>> {
   match d {
-    1 => preceded(is_a("+-"), tuple((hour_12_0, opt(minute))))(s)
+    1 => preceded(timezone_sign, tuple((timezone_hour, opt(minute))))(s)
         .map(|(remaining, result)| {
           (remaining, result.0 + &result.1.unwrap_or_else(|| "".to_string()))
         }),
-    2 => preceded(is_a("+-"), tuple((hour_12_0, minute)))(s)
+    2 => preceded(timezone_sign, tuple((timezone_hour, minute)))(s)
         .map(|(remaining, result)| {
           (remaining, result.0 + &result.1)
         }),
-    3 => preceded(is_a("+-"), tuple((hour_12_0, tag(":"), minute)))(s)
+    3 => preceded(timezone_sign, tuple((timezone_hour, tag(":"), minute)))(s)
         .map(|(remaining, result)| {
           (remaining, result.0 + result.1 + &result.2)
         }),
-    4 => preceded(is_a("+-"), tuple((hour_12_0, minute, opt(second))))(s)
+    4 => preceded(timezone_sign, tuple((timezone_hour, minute, opt(second))))(s)
         .map(|(remaining, result)| {
           (remaining, result.0 + &result.1 + &result.2.unwrap_or_else(|| "".to_string()))
         }),
-    _ => preceded(is_a("+-"), tuple((hour_12_0, tag(":"), minute, opt(tuple((tag(":"), second))))))(s)
+    _ => preceded(timezone_sign, tuple((timezone_hour, tag(":"), minute, opt(tuple((tag(":"), second))))))(s)
         .map(|(remaining, result)| {
           let seconds = match &result.3 {
             Some((c, s)) => c.to_string() + s,
@@ -652,7 +667,7 @@ fn timezone_id(s: &str) -> IResult<&str, String, DateTimeError<&str>> {
 
 fn timezone_offset(s: &str, d: usize) -> IResult<&str, String, DateTimeError<&str>> {
   match d {
-    1..=3 => preceded(is_a("+-"), tuple((hour_12_0, minute)))(s)
+    1..=3 => preceded(timezone_sign, tuple((timezone_hour, minute)))(s)
         .map(|(remaining, result)| {
           (remaining, result.0 + &result.1)
         }),
@@ -673,7 +688,7 @@ fn timezone_offset(s: &str, d: usize) -> IResult<&str, String, DateTimeError<&st
 
 fn timezone_offset_gmt(s: &str, d: usize) -> IResult<&str, String, DateTimeError<&str>> {
   match d {
-    1..=3 => preceded(alt((tag("GMT"), tag("UTC"))), tuple((is_a("+-"), hour_12_0, opt(preceded(tag(":"), minute)))))(s)
+    1..=3 => preceded(alt((tag("GMT"), tag("UTC"))), tuple((timezone_sign, timezone_hour, opt(preceded(tag(":"), minute)))))(s)
         .map(|(remaining, result)| {
           let minute = match result.2 {
             Some(result) => result,
@@ -681,7 +696,7 @@ fn timezone_offset_gmt(s: &str, d: usize) -> IResult<&str, String, DateTimeError
           };
           (remaining, result.1 + &minute)
         }),
-    _ => preceded(alt((tag("GMT"), tag("UTC"))), tuple((is_a("+-"), hour_12_0, tag(":"), minute)))(s)
+    _ => preceded(alt((tag("GMT"), tag("UTC"))), tuple((timezone_sign, timezone_hour, tag(":"), minute)))(s)
         .map(|(remaining, result)| {
           (remaining, result.1 + result.2 + &result.3)
         })
-- 
2.43.0


From 7620f5b647ab81c227939c98eb1e3f54809e2e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:16 +0000
Subject: [PATCH 027/116] fix: dates were validated with the wrong month length
 when there is no year or with L months, and panicked on large years

---
 rust/pact_models/src/time_utils.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/rust/pact_models/src/time_utils.rs b/rust/pact_models/src/time_utils.rs
index 21235d7..799827b 100644
--- a/rust/pact_models/src/time_utils.rs
+++ b/rust/pact_models/src/time_utils.rs
@@ -849,7 +849,7 @@ fn validate_matched_values(matched_values: &Vec<(DateTimePatternToken, String)>)
     });
   let month = matched_values.iter()
     .find(|(token, _)| match token {
-      DateTimePatternToken::Month(_) => true,
+      DateTimePatternToken::Month(_) | DateTimePatternToken::MonthNum(_) => true,
       _ => false
     });
   let year = matched_values.iter()
@@ -861,6 +861,8 @@ fn validate_matched_values(matched_values: &Vec<(DateTimePatternToken, String)>)
     // should be safe to unwrap here, as the value should have already been validated
     let day = day.parse::<u8>().unwrap();
     if let Some((_, year)) = year {
+      // The calendar repeats every 400 years, so the last four digits are all that matter
+      let year = &year[year.len().saturating_sub(4)..];
       let year = year.parse::<i16>().unwrap();
       if let Some((_, month_str)) = month {
         // should be safe to unwrap here, as the value should have already been validated
@@ -876,7 +878,8 @@ fn validate_matched_values(matched_values: &Vec<(DateTimePatternToken, String)>)
       }
     } else if let Some((_, month_str)) = month {
       // should be safe to unwrap here, as the value should have already been validated
-      let month = month_value(month_str).unwrap().with_year(2001);
+      // there is no year, so the 29th of February could be valid
+      let month = month_value(month_str).unwrap().with_year(2000);
       if day > month.total_days() {
         Err(format!("'{}' is not a valid day for month '{}'", day, month_str))
       } else {
-- 
2.43.0


From 183267048a61c3266a7d55a394454a707ddb4a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:54 +0000
Subject: [PATCH 028/116] fix: fractions of a second with some numbers of
 digits panicked

---
 rust/pact_models/src/time_utils.rs | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/rust/pact_models/src/time_utils.rs b/rust/pact_models/src/time_utils.rs
index 799827b..e24882a 100644
--- a/rust/pact_models/src/time_utils.rs
+++ b/rust/pact_models/src/time_utils.rs
@@ -574,12 +574,8 @@ fn second(s: &str) -> IResult<&str, String, DateTimeError<&str>> {
 }
 
 fn second_fraction(s: &str, count: usize) -> IResult<&str, String, DateTimeError<&str>> {
-  take_while_m_n(1, count, is_digit)(s).and_then(|(remaining, result)|{
-    match validate_number(result, "fraction of a second".into(), 0, usize::pow(10, count as u32) - 1) {
-      Ok(_) => Ok((remaining, result.into())),
-      Err(_err) => Err(Error(DateTimeError::InvalidSecondFraction(result.to_string())))
-    }
-  })
+  take_while_m_n(1, count, is_digit)(s)
+    .map(|(remaining, result)| (remaining, result.into()))
 }
 
 // Sign of a timezone offset
@@ -926,12 +922,8 @@ pub fn to_chrono_pattern(tokens: &[DateTimePatternToken]) -> String {
       DateTimePatternToken::Hour12ZeroBased => buffer.push_str("%I"),
       DateTimePatternToken::Minute => buffer.push_str("%M"),
       DateTimePatternToken::Second => buffer.push_str("%S"),
-      DateTimePatternToken::Millisecond(d) => if *d < 3 {
-        // something in chrono panics
-        buffer.push_str("%3f")
-      } else {
-        buffer.push_str(&format!("%{}f", *d))
-      },
+      // chrono only supports fractions with 3, 6 or 9 digits, and panics with any other number
+      DateTimePatternToken::Millisecond(d) => buffer.push_str(if *d <= 3 { "%3f" } else if *d <= 6 { "%6f" } else { "%9f" }),
       DateTimePatternToken::Nanosecond(_d) => buffer.push_str("%f"),
       DateTimePatternToken::TimezoneName(_d) => buffer.push_str("%Z"),
       DateTimePatternToken::TimezoneId(_d) => buffer.push_str("%Z"),
-- 
2.43.0


From 503a09514ccec4a693413cd6e15059e90d7d84f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:54 +0000
Subject: [PATCH 029/116] fix: timezone offsets were not generated in the form
 given by the format

---
 rust/pact_models/src/time_utils.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/rust/pact_models/src/time_utils.rs b/rust/pact_models/src/time_utils.rs
index e24882a..0832666 100644
--- a/rust/pact_models/src/time_utils.rs
+++ b/rust/pact_models/src/time_utils.rs
@@ -927,9 +927,10 @@ pub fn to_chrono_pattern(tokens: &[DateTimePatternToken]) -> String {
       DateTimePatternToken::Nanosecond(_d) => buffer.push_str("%f"),
       DateTimePatternToken::TimezoneName(_d) => buffer.push_str("%Z"),
       DateTimePatternToken::TimezoneId(_d) => buffer.push_str("%Z"),
-      DateTimePatternToken::TimezoneOffset(_d) => buffer.push_str("%z"),
-      DateTimePatternToken::TimezoneOffsetX(_d) => buffer.push_str("%:z"),
-      DateTimePatternToken::TimezoneOffsetXZZero(_d) => buffer.push_str("%:z"),
+      DateTimePatternToken::TimezoneOffset(d) => buffer.push_str(match d { 4 => "GMT%:z", 5 => "%:z", _ => "%z" }),
+      DateTimePatternToken::TimezoneOffsetGmt(_d) => buffer.push_str("GMT%:z"),
+      DateTimePatternToken::TimezoneOffsetX(d) | DateTimePatternToken::TimezoneOffsetXZZero(d) =>
+        buffer.push_str(if *d == 3 || *d == 5 { "%:z" } else { "%z" }),
       DateTimePatternToken::AmPm => buffer.push_str("%p"),
       _ => warn!("Chono does not support {:?}", token)
     };
-- 
2.43.0


From 71ee553278d19768904358c98746585a567fb1dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:54 +0000
Subject: [PATCH 030/116] fix: years with a single letter format were limited
 to one digit

---
 rust/pact_models/src/time_utils.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rust/pact_models/src/time_utils.rs b/rust/pact_models/src/time_utils.rs
index 0832666..44c9e5a 100644
--- a/rust/pact_models/src/time_utils.rs
+++ b/rust/pact_models/src/time_utils.rs
@@ -420,7 +420,9 @@ fn ampm(s: &str) -> IResult<&str, String, DateTimeError<&str>> {
 }
 
 fn year(s: &str, count: usize) -> IResult<&str, String, DateTimeError<&str>> {
-  take_while_m_n(1, count, is_digit)(s)
+  // A single letter is a year with as many digits as required
+  let max = if count == 1 { 9 } else { count };
+  take_while_m_n(1, max, is_digit)(s)
     .map(|(remaining, result)| (remaining, result.into()))
 }
 
-- 
2.43.0


From 6569b61a3296095c3cf708bbb3e5164282934070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:40 +0000
Subject: [PATCH 031/116] fix: only one of several quotes in quoted text of
 date and time formats was kept

---
 rust/pact_models/src/time_utils.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/rust/pact_models/src/time_utils.rs b/rust/pact_models/src/time_utils.rs
index 44c9e5a..685bdb7 100644
--- a/rust/pact_models/src/time_utils.rs
+++ b/rust/pact_models/src/time_utils.rs
@@ -40,7 +40,6 @@ use std::fmt::{Display, Formatter};
 use anyhow::anyhow;
 use chrono::Local;
 use gregorian::Month;
-use itertools::Itertools;
 use nom::branch::alt;
 use nom::bytes::complete::{is_a, is_not, tag, tag_no_case, take_while_m_n};
 use nom::character::complete::{alphanumeric1, char, digit1};
@@ -292,11 +291,9 @@ fn quarter_pattern(s: &str) -> IResult<&str, DateTimePatternToken, DateTimePatte
 }
 
 fn quoted_text_pattern(s: &str) -> IResult<&str, DateTimePatternToken, DateTimePatternError<&str>> {
-  delimited(char('\''), many1(alt((tag("''"), is_not("'")))), char('\''))(s)
+  delimited(char('\''), many1(alt((value("'", tag("''")), is_not("'")))), char('\''))(s)
     .map(|(remaining, result)| {
-      (remaining, DateTimePatternToken::Text(result.join("").chars().coalesce(|x, y| {
-        if x == '\'' && y == '\'' { Ok('\'') } else { Err((x, y)) }
-      }).collect()))
+      (remaining, DateTimePatternToken::Text(result.join("")))
     })
 }
 
-- 
2.43.0


From 3cd2b39c32ec36d8e1d08734d0c65777c2de7776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:41 +0000
Subject: [PATCH 032/116] fix: date generators with a time in the format
 panicked

---
 rust/pact_models/src/generators/mod.rs | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/rust/pact_models/src/generators/mod.rs b/rust/pact_models/src/generators/mod.rs
index c4897e7..9411818 100644
--- a/rust/pact_models/src/generators/mod.rs
+++ b/rust/pact_models/src/generators/mod.rs
@@ -920,10 +920,7 @@ impl GenerateValue<String> for Generator {
           let date = execute_date_expression(&base, _exp.clone().unwrap_or_default().as_str())?;
           match _format {
             Some(pattern) => match parse_pattern(pattern) {
-              Ok(tokens) => {
-                #[allow(deprecated)]
-                Ok(date.date().format(&to_chrono_pattern(&tokens)).to_string())
-              },
+              Ok(tokens) => Ok(date.format(&to_chrono_pattern(&tokens)).to_string()),
               Err(err) => {
                 warn!("Date format {} is not valid - {}", pattern, err);
                 Err(anyhow!("Date format {} is not valid - {}", pattern, err))
@@ -1097,10 +1094,7 @@ impl GenerateValue<Value> for Generator {
           let date = execute_date_expression(&base, _exp.clone().unwrap_or_default().as_str())?;
           match _format {
             Some(pattern) => match parse_pattern(pattern) {
-              Ok(tokens) => {
-                #[allow(deprecated)]
-                Ok(json!(date.date().format(&to_chrono_pattern(&tokens)).to_string()))
-              },
+              Ok(tokens) => Ok(json!(date.format(&to_chrono_pattern(&tokens)).to_string())),
               Err(err) => {
                 warn!("Date format {} is not valid - {}", pattern, err);
                 Err(anyhow!("Could not generate a random date from {} - {}", pattern, err))
-- 
2.43.0


From 961d31e3fa1d550394f2d76059f3569cf36871da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:41 +0000
Subject: [PATCH 033/116] fix: timezone IDs that are not two plain words were
 not valid

---
 rust/pact_models/src/time_utils.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/rust/pact_models/src/time_utils.rs b/rust/pact_models/src/time_utils.rs
index 685bdb7..9cb262c 100644
--- a/rust/pact_models/src/time_utils.rs
+++ b/rust/pact_models/src/time_utils.rs
@@ -41,14 +41,14 @@ use anyhow::anyhow;
 use chrono::Local;
 use gregorian::Month;
 use nom::branch::alt;
-use nom::bytes::complete::{is_a, is_not, tag, tag_no_case, take_while_m_n};
-use nom::character::complete::{alphanumeric1, char, digit1};
+use nom::bytes::complete::{is_a, is_not, tag, tag_no_case, take_while1, take_while_m_n};
+use nom::character::complete::{char, digit1};
 use nom::combinator::{opt, value};
 use nom::Err::{Error, Failure};
 use nom::error::{ErrorKind, ParseError};
 use nom::IResult;
 use nom::multi::many1;
-use nom::sequence::{delimited, preceded, separated_pair, terminated, tuple};
+use nom::sequence::{delimited, preceded, terminated, tuple};
 use tracing::{debug, error, trace, warn};
 
 use crate::timezone_db::*;
@@ -650,12 +650,11 @@ fn timezone(s: &str, d: usize) -> IResult<&str, String, DateTimeError<&str>> {
 }
 
 fn timezone_id(s: &str) -> IResult<&str, String, DateTimeError<&str>> {
-  separated_pair(alphanumeric1, char('/'), alphanumeric1)(s).and_then(|(remaining, result)| {
-    let tz = format!("{}/{}", result.0, result.1);
-    if ZONES.contains(tz.as_str()) {
-      Ok((remaining, tz))
+  take_while1(|ch: char| ch.is_ascii_alphanumeric() || "/_+-".contains(ch))(s).and_then(|(remaining, result): (&str, &str)| {
+    if ZONES.contains(result) {
+      Ok((remaining, result.to_string()))
     } else {
-      Err(Error(DateTimeError::InvalidTimezone(tz)))
+      Err(Error(DateTimeError::InvalidTimezone(result.to_string())))
     }
   })
 }
-- 
2.43.0


From 78441c212f0bc82b5bd958ae026beb4a22e22fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:37 +0000
Subject: [PATCH 034/116] fix: atLeast and atMost start a matching rule
 definition too

---
 rust/pact_models/src/matchingrules/expressions.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rust/pact_models/src/matchingrules/expressions.rs b/rust/pact_models/src/matchingrules/expressions.rs
index f6de6eb..5f92e46 100644
--- a/rust/pact_models/src/matchingrules/expressions.rs
+++ b/rust/pact_models/src/matchingrules/expressions.rs
@@ -337,7 +337,8 @@ pub fn is_matcher_def(v: &str) -> bool {
     let next = lex.next();
     if let Some(Ok(token)) = next {
       if token == MatcherDefinitionToken::Matching || token == MatcherDefinitionToken::NotEmpty ||
-        token == MatcherDefinitionToken::EachKey || token == MatcherDefinitionToken::EachValue {
+        token == MatcherDefinitionToken::EachKey || token == MatcherDefinitionToken::EachValue ||
+        token == MatcherDefinitionToken::AtLeast || token == MatcherDefinitionToken::AtMost {
         true
       } else {
         false
-- 
2.43.0


From 2fa2f4947165b1b7fa4f2d285c15406bba2e97f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:37 +0000
Subject: [PATCH 035/116] fix: refuse a matching rule definition that is
 followed by an unknown character

---
 rust/pact_models/src/matchingrules/expressions.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rust/pact_models/src/matchingrules/expressions.rs b/rust/pact_models/src/matchingrules/expressions.rs
index 5f92e46..f329b30 100644
--- a/rust/pact_models/src/matchingrules/expressions.rs
+++ b/rust/pact_models/src/matchingrules/expressions.rs
@@ -354,8 +354,8 @@ pub fn is_matcher_def(v: &str) -> bool {
 //     ;
 fn matching_definition(lex: &mut Lexer<MatcherDefinitionToken>, v: &str) -> anyhow::Result<MatchingRuleDefinition> {
   let mut value = matching_definition_exp(lex, v)?;
-  while let Some(Ok(next)) = lex.next() {
-    if next == MatcherDefinitionToken::Comma {
+  while let Some(next) = lex.next() {
+    if let Ok(MatcherDefinitionToken::Comma) = next {
       value = value.merge(&matching_definition_exp(lex, v)?);
     } else {
       return Err(anyhow!("expected comma, got '{}'", lex.slice()));
-- 
2.43.0


From b34d35f893c59a0823d2330dda0dc771431190a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:37 +0000
Subject: [PATCH 036/116] fix: a matching rule definition string ending in an
 escaped backslash was not closed by its quote

---
 rust/pact_models/src/matchingrules/expressions.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/rust/pact_models/src/matchingrules/expressions.rs b/rust/pact_models/src/matchingrules/expressions.rs
index f329b30..c573b3b 100644
--- a/rust/pact_models/src/matchingrules/expressions.rs
+++ b/rust/pact_models/src/matchingrules/expressions.rs
@@ -283,7 +283,7 @@ enum MatcherDefinitionToken {
   #[token(",")]
   Comma,
 
-  #[regex(r"'(?:[^']|\\')*'")]
+  #[regex(r"'(?:[^'\\]|\\[^\n]|\\\n)*'")]
   String,
 
   #[regex("[a-zA-Z]+")]
@@ -922,7 +922,7 @@ fn parse_string(lex: &mut Lexer<MatcherDefinitionToken>, v: &str) -> anyhow::Res
   let next = lex.next().ok_or_else(|| end_of_expression(v, "a string"))?;
   if let Ok(MatcherDefinitionToken::String) = next {
     let span = lex.span();
-    let raw_str = lex.slice().trim_matches('\'');
+    let raw_str = string_contents(lex.slice());
     process_raw_string(raw_str, span, v)
   } else {
     let mut buffer = BytesMut::new().writer();
@@ -939,6 +939,11 @@ fn parse_string(lex: &mut Lexer<MatcherDefinitionToken>, v: &str) -> anyhow::Res
   }
 }
 
+/// Contents of a string literal without the surrounding quotes
+fn string_contents(literal: &str) -> &str {
+  literal.strip_prefix('\'').and_then(|s| s.strip_suffix('\'')).unwrap_or(literal)
+}
+
 fn process_raw_string(raw_str: &str, span: Span, v: &str) -> anyhow::Result<String> {
   let mut buffer = String::with_capacity(raw_str.len());
   let mut chars = raw_str.chars();
-- 
2.43.0


From 9c7eb0cc3c0a729ef00b659e2a1353da2914e618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:37 +0000
Subject: [PATCH 037/116] fix: escape sequences in primitive string values of
 matching rule definitions were left as they are

---
 rust/pact_models/src/matchingrules/expressions.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rust/pact_models/src/matchingrules/expressions.rs b/rust/pact_models/src/matchingrules/expressions.rs
index c573b3b..07cce2a 100644
--- a/rust/pact_models/src/matchingrules/expressions.rs
+++ b/rust/pact_models/src/matchingrules/expressions.rs
@@ -798,7 +798,10 @@ fn parse_primitive_value(
 ) -> anyhow::Result<(String, ValueType, Option<Generator>)> {
   let next = lex.next().ok_or_else(|| end_of_expression(v, "expected a primitive value"))?;
   match next {
-    Ok(MatcherDefinitionToken::String) => Ok((lex.slice().trim_matches('\'').to_string(), ValueType::String, None)),
+    Ok(MatcherDefinitionToken::String) => {
+      let value = process_raw_string(string_contents(lex.slice()), lex.span(), v)?;
+      Ok((value, ValueType::String, None))
+    },
     Ok(MatcherDefinitionToken::Null) => Ok((String::new(), ValueType::String, None)),
     Ok(MatcherDefinitionToken::Int(_)) => {
       // Logos is returning an INT token when a Decimal should match. We need to now parse the
-- 
2.43.0


From 732e28c1c1d0a14dffb977fb5dd2cf832d024a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:37 +0000
Subject: [PATCH 038/116] fix: a decimal matcher with a provider state value
 was a number matcher

---
 rust/pact_models/src/matchingrules/expressions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/pact_models/src/matchingrules/expressions.rs b/rust/pact_models/src/matchingrules/expressions.rs
index 07cce2a..36972aa 100644
--- a/rust/pact_models/src/matchingrules/expressions.rs
+++ b/rust/pact_models/src/matchingrules/expressions.rs
@@ -901,7 +901,7 @@ fn parse_decimal(lex: &mut Lexer<MatcherDefinitionToken>, v: &str) -> anyhow::Re
   } else if let Ok(MatcherDefinitionToken::Id) = next {
     if lex.slice() == "fromProviderState" {
       let (value, value_type, generator) = from_provider_state(lex, v)?;
-      Ok((value, value_type, Some(MatchingRule::Number), generator, None))
+      Ok((value, value_type, Some(MatchingRule::Decimal), generator, None))
     } else {
       Err(anyhow!(error_message(lex, v, "Expected a decimal number", "Expected a decimal number here")?))
     }
-- 
2.43.0


From 948a43b21dc183670c5ab573e4d496992677fcac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:17 +0000
Subject: [PATCH 039/116] fix: refuse a number without digits after the decimal
 point in matching rule definitions

---
 .../src/matchingrules/expressions.rs            | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/rust/pact_models/src/matchingrules/expressions.rs b/rust/pact_models/src/matchingrules/expressions.rs
index 36972aa..9e85387 100644
--- a/rust/pact_models/src/matchingrules/expressions.rs
+++ b/rust/pact_models/src/matchingrules/expressions.rs
@@ -808,7 +808,7 @@ fn parse_primitive_value(
       // remaining pattern if it is a decimal
       if lex.remainder().starts_with('.') {
         let int_part = lex.slice();
-        let _ = lex.next().ok_or_else(|| end_of_expression(v, "expected a number"))?;
+        expect_decimal_part(lex, v)?;
         Ok((format!("{}{}", int_part, lex.slice()), ValueType::Decimal, None))
       } else {
         Ok((lex.slice().to_string(), ValueType::Integer, None))
@@ -819,7 +819,7 @@ fn parse_primitive_value(
       // remaining pattern if it is a decimal
       if lex.remainder().starts_with('.') {
         let int_part = lex.slice();
-        let _ = lex.next().ok_or_else(|| end_of_expression(v, "expected a number"))?;
+        expect_decimal_part(lex, v)?;
         Ok((format!("{}{}", int_part, lex.slice()), ValueType::Decimal, None))
       } else {
         Ok((lex.slice().to_string(), ValueType::Integer, None))
@@ -834,6 +834,15 @@ fn parse_primitive_value(
   }
 }
 
+fn expect_decimal_part(lex: &mut Lexer<MatcherDefinitionToken>, v: &str) -> anyhow::Result<()> {
+  let next = lex.next().ok_or_else(|| end_of_expression(v, "expected a number"))?;
+  if let Ok(MatcherDefinitionToken::DecimalPart) = next {
+    Ok(())
+  } else {
+    Err(anyhow!(error_message(lex, v, "Expected a number", "Expected digits after the decimal point")?))
+  }
+}
+
 // COMMA val=( DECIMAL_LITERAL | INTEGER_LITERAL | 'fromProviderState' fromProviderState)
 #[allow(clippy::if_same_then_else)]
 fn parse_number(lex: &mut Lexer<MatcherDefinitionToken>, v: &str) -> anyhow::Result<(String, ValueType, Option<MatchingRule>, Option<Generator>, Option<MatchingReference>)> {
@@ -846,7 +855,7 @@ fn parse_number(lex: &mut Lexer<MatcherDefinitionToken>, v: &str) -> anyhow::Res
     // remaining pattern if it is a decimal
     if lex.remainder().starts_with('.') {
       let int_part = lex.slice();
-      let _ = lex.next().ok_or_else(|| end_of_expression(v, "expected a number"))?;
+      expect_decimal_part(lex, v)?;
       Ok((format!("{}{}", int_part, lex.slice()), ValueType::Number, Some(MatchingRule::Number), None, None))
     } else {
       Ok((lex.slice().to_string(), ValueType::Number, Some(MatchingRule::Number), None, None))
@@ -891,7 +900,7 @@ fn parse_decimal(lex: &mut Lexer<MatcherDefinitionToken>, v: &str) -> anyhow::Re
     // remaining pattern if it is a decimal
     if lex.remainder().starts_with('.') {
       let int_part = lex.slice();
-      let _ = lex.next().ok_or_else(|| end_of_expression(v, "expected a number"))?;
+      expect_decimal_part(lex, v)?;
       Ok((format!("{}{}", int_part, lex.slice()), ValueType::Decimal, Some(MatchingRule::Decimal), None, None))
     } else {
       Ok((lex.slice().to_string(), ValueType::Decimal, Some(MatchingRule::Decimal), None, None))
-- 
2.43.0


From c635f4103e64ad385a84d25f94db4f42771cebd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:15 +0000
Subject: [PATCH 040/116] fix: RandomInt generator never gave the largest
 integer, panicked on an empty range and wrapped values that are not 16 bit

---
 rust/pact_models/src/generators/mod.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/rust/pact_models/src/generators/mod.rs b/rust/pact_models/src/generators/mod.rs
index 9411818..61d8985 100644
--- a/rust/pact_models/src/generators/mod.rs
+++ b/rust/pact_models/src/generators/mod.rs
@@ -813,6 +813,14 @@ pub fn generate_decimal(digits: usize) -> String {
   }
 }
 
+fn random_int(min: i32, max: i32) -> anyhow::Result<i32> {
+  if min <= max {
+    Ok(rand::thread_rng().gen_range(min..=max))
+  } else {
+    Err(anyhow!("Could not generate a random integer as {} is greater than {}", min, max))
+  }
+}
+
 const HEX_CHARSET: &str = "0123456789ABCDEF";
 pub fn generate_hexadecimal(digits: usize) -> String {
   let mut rnd = rand::thread_rng();
@@ -827,7 +835,9 @@ impl GenerateValue<u16> for Generator {
     _matcher: &Box<dyn VariantMatcher + Send + Sync>
   ) -> anyhow::Result<u16> {
     match self {
-      &Generator::RandomInt(min, max) => Ok(rand::thread_rng().gen_range(min as u16..(max as u16).saturating_add(1))),
+      &Generator::RandomInt(min, max) => random_int(min.max(u16::MIN as i32), max.min(u16::MAX as i32))
+        .map(|val| val as u16)
+        .map_err(|_| anyhow!("Could not generate a u16 value between {} and {}", min, max)),
       &Generator::ProviderStateGenerator(ref exp, ref dt) => {
         // Provider state values may come under a "providerState" key
         let provider_state_config = if let Some(Object(psc)) = context.get("providerState") {
@@ -882,7 +892,7 @@ impl GenerateValue<String> for Generator {
   ) -> anyhow::Result<String> {
     let mut rnd = rand::thread_rng();
     let result = match self {
-      Generator::RandomInt(min, max) => Ok(format!("{}", rnd.gen_range(*min..max.saturating_add(1)))),
+      Generator::RandomInt(min, max) => random_int(*min, *max).map(|val| val.to_string()),
       Generator::Uuid(format) => match format.unwrap_or_default() {
         UuidFormat::Simple => Ok(Uuid::new_v4().as_simple().to_string()),
         UuidFormat::LowerCaseHyphenated => Ok(Uuid::new_v4().as_hyphenated().to_string()),
@@ -1040,7 +1050,7 @@ impl GenerateValue<Value> for Generator {
     debug!(context = ?context, "Generating value from {:?}", self);
     let result = match self {
       Generator::RandomInt(min, max) => {
-        let rand_int = rand::thread_rng().gen_range(*min..max.saturating_add(1));
+        let rand_int = random_int(*min, *max)?;
         match value {
           Value::String(_) => Ok(json!(format!("{}", rand_int))),
           Value::Number(_) => Ok(json!(rand_int)),
-- 
2.43.0


From b6d84c3e8440e4582f5f253a42e67baf3ea8cc3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:15 +0000
Subject: [PATCH 041/116] fix: RandomHexadecimal generator gave at most 16
 digits and never repeated one

---
 rust/pact_models/src/generators/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rust/pact_models/src/generators/mod.rs b/rust/pact_models/src/generators/mod.rs
index 61d8985..82596b2 100644
--- a/rust/pact_models/src/generators/mod.rs
+++ b/rust/pact_models/src/generators/mod.rs
@@ -824,7 +824,8 @@ fn random_int(min: i32, max: i32) -> anyhow::Result<i32> {
 const HEX_CHARSET: &str = "0123456789ABCDEF";
 pub fn generate_hexadecimal(digits: usize) -> String {
   let mut rnd = rand::thread_rng();
-  HEX_CHARSET.chars().choose_multiple(&mut rnd, digits).iter().join("")
+  let chars: Vec<char> = HEX_CHARSET.chars().collect();
+  (0..digits).filter_map(|_| chars.choose(&mut rnd)).collect()
 }
 
 impl GenerateValue<u16> for Generator {
-- 
2.43.0


From 528725a88bfe791153b68c17ef38391112dc2fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:15 +0000
Subject: [PATCH 042/116] fix: Uuid generator ignored its format if the
 original value is not a string

---
 rust/pact_models/src/generators/mod.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/rust/pact_models/src/generators/mod.rs b/rust/pact_models/src/generators/mod.rs
index 82596b2..59fe847 100644
--- a/rust/pact_models/src/generators/mod.rs
+++ b/rust/pact_models/src/generators/mod.rs
@@ -1058,14 +1058,11 @@ impl GenerateValue<Value> for Generator {
           _ => Ok(json!(rand_int))
         }
       },
-      Generator::Uuid(format) => match value {
-        Value::String(_) => match format.unwrap_or_default() {
-          UuidFormat::Simple => Ok(json!(Uuid::new_v4().as_simple().to_string())),
-          UuidFormat::LowerCaseHyphenated => Ok(json!(Uuid::new_v4().as_hyphenated().to_string())),
-          UuidFormat::UpperCaseHyphenated => Ok(json!(Uuid::new_v4().as_hyphenated().to_string().to_uppercase())),
-          UuidFormat::Urn => Ok(json!(Uuid::new_v4().as_urn().to_string()))
-        },
-        _ => Ok(json!(Uuid::new_v4().as_hyphenated().to_string()))
+      Generator::Uuid(format) => match format.unwrap_or_default() {
+        UuidFormat::Simple => Ok(json!(Uuid::new_v4().as_simple().to_string())),
+        UuidFormat::LowerCaseHyphenated => Ok(json!(Uuid::new_v4().as_hyphenated().to_string())),
+        UuidFormat::UpperCaseHyphenated => Ok(json!(Uuid::new_v4().as_hyphenated().to_string().to_uppercase())),
+        UuidFormat::Urn => Ok(json!(Uuid::new_v4().as_urn().to_string()))
       },
       Generator::RandomDecimal(digits) => match value {
         Value::String(_) => Ok(json!(generate_decimal(*digits as usize))),
-- 
2.43.0


From 3da93c27bd3ce68be0bd107295d9638c04cddf73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:15 +0000
Subject: [PATCH 043/116] fix: Regex generator did not strip the start anchor
 without an end anchor, and took an escaped dollar sign for an anchor

---
 rust/pact_models/src/generators/mod.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/rust/pact_models/src/generators/mod.rs b/rust/pact_models/src/generators/mod.rs
index 59fe847..81a36c8 100644
--- a/rust/pact_models/src/generators/mod.rs
+++ b/rust/pact_models/src/generators/mod.rs
@@ -864,9 +864,12 @@ pub fn generate_ascii_string(size: usize) -> String {
 }
 
 fn strip_anchors(regex: &str) -> &str {
-  regex
-    .strip_prefix('^').unwrap_or(regex)
-    .strip_suffix('$').unwrap_or(regex)
+  let regex = regex.strip_prefix('^').unwrap_or(regex);
+  match regex.strip_suffix('$') {
+    // An anchor is preceded by an even number of backslashes, otherwise it is an escaped dollar sign
+    Some(stripped) if (stripped.len() - stripped.trim_end_matches('\\').len()) % 2 == 0 => stripped,
+    _ => regex
+  }
 }
 
 #[cfg(not(target_family = "wasm"))]
-- 
2.43.0


From 4ca1a65ad0fa86d0d8c57c12f8ce7884bd2726c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:15 +0000
Subject: [PATCH 044/116] fix: MockServerURL generator panicked if its regex
 has no capture group

---
 rust/pact_models/src/generators/mod.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/rust/pact_models/src/generators/mod.rs b/rust/pact_models/src/generators/mod.rs
index 81a36c8..7596fec 100644
--- a/rust/pact_models/src/generators/mod.rs
+++ b/rust/pact_models/src/generators/mod.rs
@@ -875,15 +875,14 @@ fn strip_anchors(regex: &str) -> &str {
 #[cfg(not(target_family = "wasm"))]
 fn replace_with_regex(example: &String, url: String, re: Regex) -> String {
   re.replace(example, |caps: &Captures| {
-    format!("{}{}", url, caps.at(1).unwrap())
+    format!("{}{}", url, caps.at(1).unwrap_or_default())
   }).to_string()
 }
 
 #[cfg(target_family = "wasm")]
 fn replace_with_regex(example: &String, url: String, re: Regex) -> String {
   re.replace(example, |caps: &Captures| {
-    let m = caps.get(1).unwrap();
-    format!("{}{}", url, m.as_str())
+    format!("{}{}", url, caps.get(1).map(|m| m.as_str()).unwrap_or_default())
   }).to_string()
 }
 
-- 
2.43.0


From 96d777eff9e0df30e635f00c7d793c1e39c4850c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:15 +0000
Subject: [PATCH 045/116] fix: MockServerURL generator did not use the mock
 server href for string values

---
 rust/pact_models/src/generators/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rust/pact_models/src/generators/mod.rs b/rust/pact_models/src/generators/mod.rs
index 7596fec..b9f0e28 100644
--- a/rust/pact_models/src/generators/mod.rs
+++ b/rust/pact_models/src/generators/mod.rs
@@ -1012,7 +1012,8 @@ impl GenerateValue<String> for Generator {
         debug!("Generating URL from Mock Server details");
         match mock_server_details.as_object() {
           Some(mock_server_details) => {
-            match get_field_as_string("url", mock_server_details) {
+            match get_field_as_string("url", mock_server_details)
+              .or_else(|| get_field_as_string("href", mock_server_details)) {
               Some(url) => match Regex::new(regex) {
                 Ok(re) => Ok(replace_with_regex(example, url, re)),
                 Err(err) => Err(anyhow!("MockServerURL: Failed to generate value: {}", err))
-- 
2.43.0


From 4b0f405b87230d68c789b2b3973339aecbb647cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:15 +0000
Subject: [PATCH 046/116] fix: ProviderState generator panicked if the value
 can not be converted to the data type

---
 rust/pact_models/src/generators/mod.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/rust/pact_models/src/generators/mod.rs b/rust/pact_models/src/generators/mod.rs
index b9f0e28..90f7d7e 100644
--- a/rust/pact_models/src/generators/mod.rs
+++ b/rust/pact_models/src/generators/mod.rs
@@ -2,7 +2,7 @@
 
 use std::collections::HashMap;
 use std::convert::TryFrom;
-use std::fmt::{Debug, Display, Formatter};
+use std::fmt::{Debug, Display, Formatter, Write};
 use std::hash::{Hash, Hasher};
 use std::mem;
 use std::str::FromStr;
@@ -1006,7 +1006,11 @@ impl GenerateValue<String> for Generator {
         } else {
           context.clone()
         };
-        generate_value_from_context(exp, &provider_state_config, dt).map(|val| val.to_string())
+        let val = generate_value_from_context(exp, &provider_state_config, dt)?;
+        let mut result = String::new();
+        write!(result, "{}", val)
+          .map_err(|_| anyhow!("'{}' can not be converted to {:?}", val.wrapped, val.data_type))?;
+        Ok(result)
       }
       Generator::MockServerURL(example, regex) => if let Some(mock_server_details) = context.get("mockServer") {
         debug!("Generating URL from Mock Server details");
-- 
2.43.0


From f12dde19d8b8f58f5d92115efd9da31375ef7878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:15 +0000
Subject: [PATCH 047/116] fix: panic on a closing brace before a provider state
 expression

---
 rust/pact_models/src/expression_parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/pact_models/src/expression_parser.rs b/rust/pact_models/src/expression_parser.rs
index 617fada..2e122ed 100644
--- a/rust/pact_models/src/expression_parser.rs
+++ b/rust/pact_models/src/expression_parser.rs
@@ -382,7 +382,7 @@ fn replace_expressions(value: &str, value_resolver: &dyn ValueResolver<Value>) -
     if index > 0 {
       result.push(json!(&buffer[0..index]));
     }
-    let end_position = buffer.find('}')
+    let end_position = buffer[index..].find('}').map(|end| index + end)
       .ok_or_else(|| anyhow!("Missing closing brace in expression string '{}'", value))?;
     if end_position - index > 2 {
       let lookup_key = &buffer[(index + 2)..end_position];
-- 
2.43.0


From 1f81a49b7de80813e5559cba13b34e95d367eefe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:15 +0000
Subject: [PATCH 048/116] fix: negative integers in provider state strings
 could not be converted to integers

---
 rust/pact_models/src/expression_parser.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rust/pact_models/src/expression_parser.rs b/rust/pact_models/src/expression_parser.rs
index 2e122ed..a8546c1 100644
--- a/rust/pact_models/src/expression_parser.rs
+++ b/rust/pact_models/src/expression_parser.rs
@@ -106,7 +106,8 @@ impl DataValue {
         } else {
           Err(anyhow!("Internal Error: Number is neither u64, i64, or f64"))
         }
-        Value::String(s) => s.parse::<usize>().map(|val| json!(val))
+        Value::String(s) => s.parse::<i64>().map(|val| json!(val))
+          .or_else(|_| s.parse::<u64>().map(|val| json!(val)))
           .map_err(|err| anyhow!("Number can not be generated from '{}' - {}", self.wrapped, err)),
         Value::Array(_) | Value::Object(_) => Err(anyhow!("Number can not be generated from '{}'", self.wrapped))
       },
-- 
2.43.0


From 6eaee691c2ccf4f00d1d629c74add8b7d6a3ce11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:08 +0000
Subject: [PATCH 049/116] fix: provider state numbers that do not fit the
 target type were converted to other numbers

---
 rust/pact_models/src/expression_parser.rs | 50 ++++++++++++++++-------
 1 file changed, 36 insertions(+), 14 deletions(-)

diff --git a/rust/pact_models/src/expression_parser.rs b/rust/pact_models/src/expression_parser.rs
index a8546c1..f5515c5 100644
--- a/rust/pact_models/src/expression_parser.rs
+++ b/rust/pact_models/src/expression_parser.rs
@@ -152,6 +152,12 @@ impl DataValue {
   }
 }
 
+// Value without its fractional part, if that is within the given limits
+fn truncate(value: f64, min: f64, max: f64) -> Option<f64> {
+  let value = value.trunc();
+  if value >= min && value <= max { Some(value) } else { None }
+}
+
 impl TryFrom<DataValue> for u16 {
   type Error = anyhow::Error;
 
@@ -164,11 +170,15 @@ impl TryFrom<DataValue> for u16 {
         Ok(0)
       }
       Value::Number(n) => if let Some(n) = n.as_u64() {
-        Ok(n as u16)
+        u16::try_from(n)
+          .map_err(|_| anyhow!("u16 can not be generated from {}", value.wrapped))
       } else if let Some(n) = n.as_i64() {
-        Ok(n as u16)
+        u16::try_from(n)
+          .map_err(|_| anyhow!("u16 can not be generated from {}", value.wrapped))
       } else if let Some(n) = n.as_f64() {
-        Ok(n as u16)
+        truncate(n, u16::MIN as f64, u16::MAX as f64)
+          .map(|n| n as u16)
+          .ok_or_else(|| anyhow!("u16 can not be generated from {}", value.wrapped))
       } else {
         Ok(0)
       }
@@ -176,8 +186,10 @@ impl TryFrom<DataValue> for u16 {
         DataType::INTEGER | DataType::RAW | DataType::STRING => s.parse::<u16>()
           .map_err(|err| anyhow!("u16 can not be generated from '{}' - {}", s, err)),
         DataType::DECIMAL | DataType::FLOAT => s.parse::<f64>()
-          .map(|val| val as u16)
-          .map_err(|err| anyhow!("u16 can not be generated from '{}' - {}", s, err)),
+          .map_err(|err| anyhow!("u16 can not be generated from '{}' - {}", s, err))
+          .and_then(|val| truncate(val, u16::MIN as f64, u16::MAX as f64)
+            .map(|val| val as u16)
+            .ok_or_else(|| anyhow!("u16 can not be generated from '{}'", s))),
         _ => Err(anyhow!("u16 can not be generated from {}", value.wrapped))
       },
       _ => Err(anyhow!("u16 can not be generated from {}", value.wrapped))
@@ -199,9 +211,12 @@ impl TryFrom<DataValue> for u64 {
       Value::Number(n) => if let Some(n) = n.as_u64() {
         Ok(n)
       } else if let Some(n) = n.as_i64() {
-        Ok(n as u64)
+        u64::try_from(n)
+          .map_err(|_| anyhow!("u64 can not be generated from {}", value.wrapped))
       } else if let Some(n) = n.as_f64() {
-        Ok(n as u64)
+        truncate(n, u64::MIN as f64, u64::MAX as f64)
+          .map(|n| n as u64)
+          .ok_or_else(|| anyhow!("u64 can not be generated from {}", value.wrapped))
       } else {
         Ok(0)
       }
@@ -209,8 +224,10 @@ impl TryFrom<DataValue> for u64 {
         DataType::INTEGER | DataType::RAW | DataType::STRING => s.parse::<u64>()
           .map_err(|err| anyhow!("u64 can not be generated from '{}' - {}", s, err)),
         DataType::DECIMAL | DataType::FLOAT => s.parse::<f64>()
-          .map(|val| val as u64)
-          .map_err(|err| anyhow!("u64 can not be generated from '{}' - {}", s, err)),
+          .map_err(|err| anyhow!("u64 can not be generated from '{}' - {}", s, err))
+          .and_then(|val| truncate(val, u64::MIN as f64, u64::MAX as f64)
+            .map(|val| val as u64)
+            .ok_or_else(|| anyhow!("u64 can not be generated from '{}'", s))),
         _ => Err(anyhow!("u64 can not be generated from {}", value.wrapped))
       },
       _ => Err(anyhow!("u64 can not be generated from {}", value.wrapped))
@@ -230,11 +247,14 @@ impl TryFrom<DataValue> for i64 {
         Ok(0)
       }
       Value::Number(n) => if let Some(n) = n.as_u64() {
-        Ok(n as i64)
+        i64::try_from(n)
+          .map_err(|_| anyhow!("i64 can not be generated from {}", value.wrapped))
       } else if let Some(n) = n.as_i64() {
         Ok(n)
       } else if let Some(n) = n.as_f64() {
-        Ok(n as i64)
+        truncate(n, i64::MIN as f64, i64::MAX as f64)
+          .map(|n| n as i64)
+          .ok_or_else(|| anyhow!("i64 can not be generated from {}", value.wrapped))
       } else {
         Ok(0)
       }
@@ -242,8 +262,10 @@ impl TryFrom<DataValue> for i64 {
         DataType::INTEGER | DataType::RAW | DataType::STRING => s.parse::<i64>()
           .map_err(|err| anyhow!("i64 can not be generated from '{}' - {}", s, err)),
         DataType::DECIMAL | DataType::FLOAT => s.parse::<f64>()
-          .map(|val| val as i64)
-          .map_err(|err| anyhow!("i64 can not be generated from '{}' - {}", s, err)),
+          .map_err(|err| anyhow!("i64 can not be generated from '{}' - {}", s, err))
+          .and_then(|val| truncate(val, i64::MIN as f64, i64::MAX as f64)
+            .map(|val| val as i64)
+            .ok_or_else(|| anyhow!("i64 can not be generated from '{}'", s))),
         _ => Err(anyhow!("i64 can not be generated from {}", value.wrapped))
       },
       _ => Err(anyhow!("i64 can not be generated from {}", value.wrapped))
@@ -311,7 +333,7 @@ impl Display for DataValue {
   fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
     match self.data_type {
       DataType::STRING | DataType::RAW => write!(f, "{}", json_to_string(&self.wrapped)),
-      DataType::INTEGER => match i64::try_from(self.clone()) {
+      DataType::INTEGER => match self.as_json() {
         Ok(v) => write!(f, "{}", v),
         Err(err) => {
           error!("Failed to convert value = {}", err);
-- 
2.43.0


From 8ef37761a673d2283ed87bd41f32a8eea3c692f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:39 +0000
Subject: [PATCH 050/116] fix: content types with quoted attribute values were
 written as text that can not be parsed

---
 rust/pact_models/src/content_types.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/rust/pact_models/src/content_types.rs b/rust/pact_models/src/content_types.rs
index 38442d3..a551450 100644
--- a/rust/pact_models/src/content_types.rs
+++ b/rust/pact_models/src/content_types.rs
@@ -188,7 +188,14 @@ impl Display for ContentType {
       write!(f, "{}", base)
     } else {
       write!(f, "{};{}", base, self.attributes.iter()
-        .map(|(key, value)| format!("{}={}", key, value)).join(";"))
+        .map(|(key, value)| {
+          // Values that are not a plain token have to be quoted, otherwise the result can't be parsed
+          if value.bytes().all(|b| b.is_ascii_alphanumeric() || b"!#$%&'*+-.^_`|~".contains(&b)) {
+            format!("{}={}", key, value)
+          } else {
+            format!("{}=\"{}\"", key, value)
+          }
+        }).join(";"))
     }
   }
 }
-- 
2.43.0


From ceb1d2413a8b353cc6e3f2791180812a22a526f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:39 +0000
Subject: [PATCH 051/116] fix: content types with different suffixes were
 equivalent (application/hal+json and application/hal+xml)

---
 rust/pact_models/src/content_types.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/pact_models/src/content_types.rs b/rust/pact_models/src/content_types.rs
index a551450..f705c67 100644
--- a/rust/pact_models/src/content_types.rs
+++ b/rust/pact_models/src/content_types.rs
@@ -148,7 +148,7 @@ impl ContentType {
       self.attributes.is_empty() || self.attributes == other.attributes
     }
     else if self.attributes.is_empty() {
-      self.main_type == other.main_type && self.sub_type == other.sub_type
+      self.main_type == other.main_type && self.sub_type == other.sub_type && self.suffix == other.suffix
     } else {
       self == other
     }
-- 
2.43.0


From ed4f0ef4936b50244e626c8ae090b45597ff2295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:39 +0000
Subject: [PATCH 052/116] fix: some HTML and JSON documents were detected as
 other content types

---
 rust/pact_models/src/content_types.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rust/pact_models/src/content_types.rs b/rust/pact_models/src/content_types.rs
index f705c67..eaff204 100644
--- a/rust/pact_models/src/content_types.rs
+++ b/rust/pact_models/src/content_types.rs
@@ -63,8 +63,8 @@ lazy_static! {
   };
 
   static ref XMLREGEXP: Regex = Regex::new(r"^\s*<\?xml\s*version.*").unwrap();
-  static ref HTMLREGEXP: Regex = Regex::new(r"^\s*(<!DOCTYPE)|(<HTML>).*").unwrap();
-  static ref JSONREGEXP: Regex = Regex::new(r#"^\s*(true|false|null|[0-9]+|"\w*|\{\s*(}|"\w+)|\[\s*)"#).unwrap();
+  static ref HTMLREGEXP: Regex = Regex::new(r"^\s*(<!DOCTYPE|<HTML[\s>]).*").unwrap();
+  static ref JSONREGEXP: Regex = Regex::new(r#"^\s*(true|false|null|-?[0-9]+|"\w*|\{\s*(}|")|\[\s*)"#).unwrap();
   static ref XMLREGEXP2: Regex = Regex::new(r#"^\s*<\w+\s*(:\w+=["”][^"”]+["”])?.*"#).unwrap();
 }
 
-- 
2.43.0


From c9ee4cd5379b9ca0aa3541bbea0e4291cc98f3eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:39 +0000
Subject: [PATCH 053/116] fix: the content type was not detected if a
 multi-byte character crossed the 32nd byte

---
 rust/pact_models/src/content_types.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rust/pact_models/src/content_types.rs b/rust/pact_models/src/content_types.rs
index eaff204..72a1e5b 100644
--- a/rust/pact_models/src/content_types.rs
+++ b/rust/pact_models/src/content_types.rs
@@ -300,6 +300,11 @@ pub fn detect_content_type_from_bytes(s: &[u8]) -> Option<ContentType> {
   } else {
     s
   };
+  // The limit may have been in the middle of a multi-byte character
+  let header = match from_utf8(header) {
+    Err(err) if err.error_len().is_none() && header.len() < s.len() => &header[..err.valid_up_to()],
+    _ => header
+  };
   match from_utf8(header) {
     Ok(s) => {
       if is_match(&XMLREGEXP, s) {
-- 
2.43.0


From da6b102ccd8e9cd30a7eae69badbc484cce31aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:39 +0000
Subject: [PATCH 054/116] fix: text bodies with the default content type hint
 were treated as binary

---
 rust/pact_models/src/bodies.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/rust/pact_models/src/bodies.rs b/rust/pact_models/src/bodies.rs
index 60e0628..b04fa65 100644
--- a/rust/pact_models/src/bodies.rs
+++ b/rust/pact_models/src/bodies.rs
@@ -62,12 +62,10 @@ impl OptionalBody {
   }
 
   fn is_text(ct: &Option<ContentType>, hint: &Option<ContentTypeHint>) -> bool {
-    if let Some(hint) = hint {
-      *hint == ContentTypeHint::TEXT
-    } else if let Some(ct) = ct {
-      ct.is_text()
-    } else {
-      false
+    match hint {
+      Some(ContentTypeHint::TEXT) => true,
+      Some(ContentTypeHint::BINARY) => false,
+      Some(ContentTypeHint::DEFAULT) | None => ct.as_ref().map(|ct| ct.is_text()).unwrap_or(false)
     }
   }
 
-- 
2.43.0


From e3b202e8df29c63a94189fc55794c00c846d39ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:39 +0000
Subject: [PATCH 055/116] fix: bytes less than 16 were displayed with only one
 hexadecimal digit

---
 rust/pact_models/src/bodies.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rust/pact_models/src/bodies.rs b/rust/pact_models/src/bodies.rs
index b04fa65..ade53b1 100644
--- a/rust/pact_models/src/bodies.rs
+++ b/rust/pact_models/src/bodies.rs
@@ -187,13 +187,13 @@ impl OptionalBody {
   pub(crate) fn display_bytes(&self, max_bytes: usize) -> String {
     if let OptionalBody::Present(bytes, _, _) = self {
       if bytes.len() <= max_bytes {
-        let b_str: String = bytes.iter().map(|b| format!("{:0X}", b)).collect();
+        let b_str: String = bytes.iter().map(|b| format!("{:02X}", b)).collect();
         format!("{} ({} bytes)", b_str, bytes.len())
       } else {
         let b_str: String = bytes
           .slice(0..max_bytes)
           .iter()
-          .map(|b| format!("{:0X}", b))
+          .map(|b| format!("{:02X}", b))
           .collect();
         format!("{}... ({} bytes)", b_str, bytes.len())
       }
-- 
2.43.0


From dfe816038a36c2dce30243970f26beddb130160b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:39 +0000
Subject: [PATCH 056/116] fix: adding a header with another case duplicated the
 header

---
 rust/pact_models/src/http_parts.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/rust/pact_models/src/http_parts.rs b/rust/pact_models/src/http_parts.rs
index 275d82a..32a4cd2 100644
--- a/rust/pact_models/src/http_parts.rs
+++ b/rust/pact_models/src/http_parts.rs
@@ -95,10 +95,15 @@ pub trait HttpPart {
     str_body.map(|b| !b.is_empty() && b.is_ascii()).unwrap_or(false)
   }
 
-  /// Convenience method to add a header
+  /// Convenience method to add a header. This will replace any existing header with the same
+  /// name (case-insensitive).
   fn add_header(&mut self, key: &str, val: Vec<&str>) {
     let headers = self.headers_mut();
-    headers.insert(key.to_string(), val.iter().map(|v| v.to_string()).collect());
+    let key = headers.keys()
+      .find(|k| k.eq_ignore_ascii_case(key))
+      .cloned()
+      .unwrap_or_else(|| key.to_string());
+    headers.insert(key, val.iter().map(|v| v.to_string()).collect());
   }
 
   /// Builds a map of generators from the generators and matching rules
-- 
2.43.0


From 7b33429de1684d8ca396633c520fafc2612fc9cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:39 +0000
Subject: [PATCH 057/116] fix: binary bodies were detected as plain text

---
 rust/pact_models/src/http_parts.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/rust/pact_models/src/http_parts.rs b/rust/pact_models/src/http_parts.rs
index 32a4cd2..eeae747 100644
--- a/rust/pact_models/src/http_parts.rs
+++ b/rust/pact_models/src/http_parts.rs
@@ -6,7 +6,7 @@ use std::str::from_utf8;
 use maplit::hashmap;
 
 use crate::bodies::OptionalBody;
-use crate::content_types::{ContentType, detect_content_type_from_string};
+use crate::content_types::{ContentType, detect_content_type_from_bytes, detect_content_type_from_string};
 use crate::generators::{Generator, GeneratorCategory, Generators};
 use crate::matchingrules::{Category, MatchingRules};
 use crate::path_exp::DocPath;
@@ -46,11 +46,10 @@ pub trait HttpPart {
   fn detect_content_type(&self) -> Option<ContentType> {
     match *self.body() {
       OptionalBody::Present(ref body, _, _) => {
-        let s: String = match from_utf8(body) {
-          Ok(s) => s.to_string(),
-          Err(_) => String::new()
-        };
-        detect_content_type_from_string(&s)
+        match from_utf8(body) {
+          Ok(s) => detect_content_type_from_string(s),
+          Err(_) => detect_content_type_from_bytes(body)
+        }
       },
       _ => None
     }
-- 
2.43.0


From de4e6cdd0ded4fcd5368793fd85b090084ded8cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:39 +0000
Subject: [PATCH 058/116] fix: V3 message content type was unknown if the
 metadata value was a list or could not be parsed

---
 rust/pact_models/src/message.rs | 13 +------------
 1 file changed, 1 insertion(+), 12 deletions(-)

diff --git a/rust/pact_models/src/message.rs b/rust/pact_models/src/message.rs
index 8e1bfc5..a885bc8 100644
--- a/rust/pact_models/src/message.rs
+++ b/rust/pact_models/src/message.rs
@@ -288,18 +288,7 @@ impl Message {
   /// Returns the content type of the message by returning the content type associated with
   /// the body, or by looking it up in the message metadata
   pub fn message_content_type(&self) -> Option<ContentType> {
-    let body = &self.contents;
-    if body.has_content_type() {
-      body.content_type()
-    } else {
-      match self.metadata.iter().find(|(k, _)| {
-        let key = k.to_ascii_lowercase();
-        key == "contenttype" || key == "content-type"
-      }) {
-        Some((_, v)) => ContentType::parse(json_to_string(&v).as_str()).ok(),
-        None => self.detect_content_type()
-      }
-    }
+    HttpPart::content_type(self)
   }
 
   /// Converts this message into a V4 message content
-- 
2.43.0


From 7b7a02dd057b2331cd6f97e9aa3ace7bea16242e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:39 +0000
Subject: [PATCH 059/116] fix: content type of V4 messages was only found for
 one case of the metadata key

---
 rust/pact_models/src/v4/message_parts.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/rust/pact_models/src/v4/message_parts.rs b/rust/pact_models/src/v4/message_parts.rs
index 83dd71e..aaf8a79 100644
--- a/rust/pact_models/src/v4/message_parts.rs
+++ b/rust/pact_models/src/v4/message_parts.rs
@@ -178,7 +178,14 @@ impl HttpPart for MessageContents {
 }
 
 pub(crate) fn metadata_to_headers(metadata: &HashMap<String, Value>) -> Option<HashMap<String, Vec<String>>> {
-  metadata.get("contentType").map(|content_type| {
+  metadata.iter().find(|(k, _)| {
+    let key = k.to_ascii_lowercase();
+    key == "contenttype" || key == "content-type"
+  }).map(|(_, content_type)| {
+    let content_type = match content_type {
+      Value::Array(values) => values.first().unwrap_or(&Value::Null),
+      _ => content_type
+    };
     hashmap! {
       "Content-Type".to_string() => vec![ json_to_string(content_type) ]
     }
-- 
2.43.0


From c9a5d1c50d681c75c79157b8ccdba6f8f1c16925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:41 +0000
Subject: [PATCH 060/116] fix: apply size, equality and not empty rules to
 lists when the example list is empty

---
 rust/pact_matching/src/matchingrules.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/rust/pact_matching/src/matchingrules.rs b/rust/pact_matching/src/matchingrules.rs
index 9c38012..cfc0b98 100644
--- a/rust/pact_matching/src/matchingrules.rs
+++ b/rust/pact_matching/src/matchingrules.rs
@@ -451,6 +451,17 @@ pub fn compare_lists_with_matchingrule<T: Display + Debug + PartialEq + Clone +
         result.extend(match_list_contents(path, expected, actual, context, callback));
       }
     }
+  } else if matches!(rule, MatchingRule::MinType(_) | MatchingRule::MaxType(_) | MatchingRule::MinMaxType(_, _) |
+    MatchingRule::Equality | MatchingRule::NotEmpty) {
+    // There is no example to compare the items with, but the rule still applies to the list itself
+    if let Err(mismatch) = expected.matches_with(actual, rule, cascaded) {
+      result.push(CommonMismatch {
+        path: path.to_string(),
+        expected: expected.for_mismatch(),
+        actual: actual.for_mismatch(),
+        description: mismatch.to_string()
+      });
+    }
   }
 
   if result.is_empty() {
-- 
2.43.0


From b68ba977ecd4d410931ea3138a33bdea8d908116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:04 +0000
Subject: [PATCH 061/116] fix: integer matcher refused negative integers in
 headers, query parameters and paths

---
 rust/pact_matching/src/matchers.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/rust/pact_matching/src/matchers.rs b/rust/pact_matching/src/matchers.rs
index 7cf878e..12c643c 100644
--- a/rust/pact_matching/src/matchers.rs
+++ b/rust/pact_matching/src/matchers.rs
@@ -201,9 +201,11 @@ impl Matches<&str> for &str {
         }
       },
       MatchingRule::Integer => {
-        match actual.parse::<u64>() {
-          Ok(_) => Ok(()),
-          Err(_) => Err(anyhow!("Expected '{}' to match an integer number", actual))
+        let digits = actual.strip_prefix(['-', '+']).unwrap_or(actual);
+        if !digits.is_empty() && digits.chars().all(|ch| ch.is_ascii_digit()) {
+          Ok(())
+        } else {
+          Err(anyhow!("Expected '{}' to match an integer number", actual))
         }
       },
       #[allow(unused_variables)]
-- 
2.43.0


From b8afed9bc1e60c5ec677651882b7e1ffbb165be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:04 +0000
Subject: [PATCH 062/116] fix: number and decimal matchers accepted NaN and
 infinity as numbers in text

---
 rust/pact_matching/src/matchers.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rust/pact_matching/src/matchers.rs b/rust/pact_matching/src/matchers.rs
index 12c643c..c742733 100644
--- a/rust/pact_matching/src/matchers.rs
+++ b/rust/pact_matching/src/matchers.rs
@@ -196,8 +196,8 @@ impl Matches<&str> for &str {
       },
       MatchingRule::Number | MatchingRule::Decimal => {
         match actual.parse::<f64>() {
-          Ok(_) => Ok(()),
-          Err(_) => Err(anyhow!("Expected '{}' to match a number", actual))
+          Ok(number) if number.is_finite() => Ok(()),
+          _ => Err(anyhow!("Expected '{}' to match a number", actual))
         }
       },
       MatchingRule::Integer => {
-- 
2.43.0


From fed13cc57011920e3bbf7985f0ff08f70bb3625e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:35 +0000
Subject: [PATCH 063/116] fix: the score of a request with more than 125 query
 parameters and headers overflowed

---
 rust/pact_matching/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rust/pact_matching/src/lib.rs b/rust/pact_matching/src/lib.rs
index 44bb6e7..3881132 100644
--- a/rust/pact_matching/src/lib.rs
+++ b/rust/pact_matching/src/lib.rs
@@ -1287,7 +1287,7 @@ impl RequestMatchResult {
 
   /// Returns a score based on what was matched
   pub fn score(&self) -> i8 {
-    let mut score = 0;
+    let mut score: i64 = 0;
     if self.method.is_none() {
       score += 1;
     } else {
@@ -1327,7 +1327,7 @@ impl RequestMatchResult {
       },
       _ => ()
     }
-    score
+    score.clamp(i8::MIN as i64, i8::MAX as i64) as i8
   }
 
   /// If all the things matched OK
-- 
2.43.0


From b5b4372495e64d8d8cd6327c055f6094917a1288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:56 +0000
Subject: [PATCH 064/116] fix: pact file verification named the type of the
 wrong element

---
 rust/pact_models/src/lib.rs              | 4 ++--
 rust/pact_models/src/provider_states.rs  | 4 ++--
 rust/pact_models/src/sync_interaction.rs | 2 +-
 rust/pact_models/src/sync_pact.rs        | 2 +-
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/rust/pact_models/src/lib.rs b/rust/pact_models/src/lib.rs
index e4efabe..e750d92 100644
--- a/rust/pact_models/src/lib.rs
+++ b/rust/pact_models/src/lib.rs
@@ -228,7 +228,7 @@ impl PactJsonVerifier for Consumer {
         if let Some(name) = values.get("name") {
           if !name.is_string() {
             results.push(PactFileVerificationResult::new(path.to_owned() + "/name", ResultLevel::ERROR,
-              format!("Must be a String, got {}", json_type_of(pact_json))))
+              format!("Must be a String, got {}", json_type_of(name))))
           }
         } else {
           results.push(PactFileVerificationResult::new(path.to_owned() + "/name",
@@ -298,7 +298,7 @@ impl PactJsonVerifier for Provider {
         if let Some(name) = values.get("name") {
           if !name.is_string() {
             results.push(PactFileVerificationResult::new(path.to_owned() + "/name", ResultLevel::ERROR,
-                                                         format!("Must be a String, got {}", json_type_of(pact_json))))
+                                                         format!("Must be a String, got {}", json_type_of(name))))
           }
         } else {
           results.push(PactFileVerificationResult::new(path.to_owned() + "/name",
diff --git a/rust/pact_models/src/provider_states.rs b/rust/pact_models/src/provider_states.rs
index b6a94bf..d15974b 100644
--- a/rust/pact_models/src/provider_states.rs
+++ b/rust/pact_models/src/provider_states.rs
@@ -138,14 +138,14 @@ impl PactJsonVerifier for ProviderState {
             "Provider state 'name' is required")),
           Some(name) => if !name.is_string() {
             results.push(PactFileVerificationResult::new(path, ResultLevel::ERROR,
-              format!("Provider state 'name' must be a String, got {}", json_type_of(pact_json))))
+              format!("Provider state 'name' must be a String, got {}", json_type_of(name))))
           }
         }
 
         if let Some(params) = values.get("params") {
           if !params.is_object() {
             results.push(PactFileVerificationResult::new(path, ResultLevel::ERROR,
-              format!("Provider state 'params' must be an Object, got {}", json_type_of(pact_json))))
+              format!("Provider state 'params' must be an Object, got {}", json_type_of(params))))
           }
         }
 
diff --git a/rust/pact_models/src/sync_interaction.rs b/rust/pact_models/src/sync_interaction.rs
index e865e0a..6707f3c 100644
--- a/rust/pact_models/src/sync_interaction.rs
+++ b/rust/pact_models/src/sync_interaction.rs
@@ -273,7 +273,7 @@ impl PactJsonVerifier for RequestResponseInteraction {
         if let Some(description) = values.get("description") {
           if !description.is_string() {
             results.push(PactFileVerificationResult::new(path.to_owned() + "/description", ResultLevel::ERROR,
-                                                         format!("Must be a String, got {}", json_type_of(pact_json))))
+                                                         format!("Must be a String, got {}", json_type_of(description))))
           }
         } else {
           results.push(PactFileVerificationResult::new(path,
diff --git a/rust/pact_models/src/sync_pact.rs b/rust/pact_models/src/sync_pact.rs
index c16aa6d..f87a40b 100644
--- a/rust/pact_models/src/sync_pact.rs
+++ b/rust/pact_models/src/sync_pact.rs
@@ -372,7 +372,7 @@ impl PactJsonVerifier for RequestResponsePact {
                 }))
             }
             _ => results.push(PactFileVerificationResult::new("/interactions", ResultLevel::ERROR,
-                                                              &format!("Must be an Object, got {}", json_type_of(pact_json))))
+                                                              &format!("Must be an Array, got {}", json_type_of(interactions))))
           }
         } else {
           results.push(PactFileVerificationResult::new("/interactions", ResultLevel::WARNING, "Missing interactions"))
-- 
2.43.0


From b41c72a6f30416a98a99d48e7c847a2d9a3097a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:23 +0000
Subject: [PATCH 065/116] fix: status codes that do not fit were wrapped around
 instead of refused

---
 rust/pact_models/src/lib.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/rust/pact_models/src/lib.rs b/rust/pact_models/src/lib.rs
index e750d92..b10841f 100644
--- a/rust/pact_models/src/lib.rs
+++ b/rust/pact_models/src/lib.rs
@@ -377,13 +377,10 @@ impl HttpStatus {
       },
       Value::Array(a) => {
         let status_codes = a.iter().map(|status| match status {
-          Value::Number(n) => if n.is_u64() {
-            Ok(n.as_u64().unwrap() as u16)
-          } else if n.is_i64() {
-            Ok(n.as_i64().unwrap() as u16)
-          } else {
-            Ok(n.as_f64().unwrap() as u16)
-          },
+          Value::Number(n) => n.as_u64()
+            .or_else(|| n.as_f64().filter(|n| *n >= 0.0 && n.fract() == 0.0).map(|n| n as u64))
+            .and_then(|n| u16::try_from(n).ok())
+            .ok_or_else(|| anyhow!("'{}' is not a valid HTTP status code", n)),
           Value::String(s) => s.parse::<u16>().map_err(|err| anyhow!(err)),
           _ => Err(anyhow!("'{}' is not a valid JSON value for an HTTP Status", status))
         }).collect::<Vec<anyhow::Result<u16>>>();
-- 
2.43.0


From 529b0997cd411ea24f49e36a439c72075ef687c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:52 +0000
Subject: [PATCH 066/116] fix: passwords and tokens of four characters were
 displayed in full

---
 rust/pact_models/src/http_utils.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/rust/pact_models/src/http_utils.rs b/rust/pact_models/src/http_utils.rs
index bae5d0e..9fc43eb 100644
--- a/rust/pact_models/src/http_utils.rs
+++ b/rust/pact_models/src/http_utils.rs
@@ -56,15 +56,24 @@ pub fn fetch_json_from_url(url: &String, auth: &Option<HttpAuth>) -> anyhow::Res
   }
 }
 
+/// The part of a secret that can be displayed. Short secrets are never displayed.
+fn visible_prefix(secret: &str) -> &str {
+  if secret.len() > 4 {
+    secret.get(0..4).unwrap_or("")
+  } else {
+    ""
+  }
+}
+
 impl Display for HttpAuth {
   fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
     match *self {
       HttpAuth::Token(ref t) =>
-        write!(f, "Token({:*<width$})", t.get(0..4).unwrap_or(""), width = t.len()),
+        write!(f, "Token({:*<width$})", visible_prefix(t), width = t.len()),
       HttpAuth::User(ref u, ref p) => {
         let username = if u.is_empty() { "none" } else { u.as_str() };
         if let Some(pass) = p {
-          write!(f, "User({}, {:*<width$})", username, pass.get(0..4).unwrap_or(""), width = pass.len())
+          write!(f, "User({}, {:*<width$})", username, visible_prefix(pass), width = pass.len())
         } else {
           write!(f, "User({}, [no password])", username)
         }
-- 
2.43.0


From 935340dfbb6a76b1a9a3dc7e5e697e226f62bbbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:02 +0000
Subject: [PATCH 067/116] fix: renaming a category of matching rules to an
 existing one lost rules

---
 rust/pact_models/src/matchingrules/mod.rs | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/rust/pact_models/src/matchingrules/mod.rs b/rust/pact_models/src/matchingrules/mod.rs
index 1dee825..409a77b 100644
--- a/rust/pact_models/src/matchingrules/mod.rs
+++ b/rust/pact_models/src/matchingrules/mod.rs
@@ -1468,20 +1468,17 @@ impl MatchingRules {
     }))
   }
 
-  /// Clones the matching rules, renaming the category
+  /// Clones the matching rules, renaming the category. If there are already rules with the new
+  /// category name, the renamed ones are added to them.
   pub fn rename<S>(&self, old_name: S, new_name: S) -> Self
     where S: Into<Category> {
     let old = old_name.into();
     let new = new_name.into();
-    MatchingRules {
-      rules: self.rules.iter().map(|(key, value)| {
-        if key == &old {
-          (new.clone(), value.rename(new.clone()))
-        } else {
-          (key.clone(), value.clone())
-        }
-      }).collect()
+    let mut renamed = self.clone();
+    if let Some(category) = renamed.rules.remove(&old) {
+      renamed.add_rules(new, category);
     }
+    renamed
   }
 
   /// Add the rules to the category
-- 
2.43.0


From 4f958a874f82ca248786c500e4339d3916506f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:50 +0000
Subject: [PATCH 068/116] fix: white space and comments counted as children of
 an XML element

---
 rust/pact_matching/src/xml.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/rust/pact_matching/src/xml.rs b/rust/pact_matching/src/xml.rs
index 988b6b3..a068271 100644
--- a/rust/pact_matching/src/xml.rs
+++ b/rust/pact_matching/src/xml.rs
@@ -88,6 +88,14 @@ fn name(name: QName) -> String {
   }
 }
 
+// White space, comments and processing instructions are not contents of an element
+fn child_count(element: &Element) -> usize {
+  element.children().iter()
+    .filter(|child| child.element().is_some() ||
+      child.text().map(|text| !text.text().trim().is_empty()).unwrap_or(false))
+    .count()
+}
+
 impl<'a> Matches<&'a Element<'a>> for &'a Element<'a> {
     fn matches_with(&self, actual: &Element, matcher: &MatchingRule, cascaded: bool) -> anyhow::Result<()> {
         let result = match *matcher {
@@ -109,19 +117,19 @@ impl<'a> Matches<&'a Element<'a>> for &'a Element<'a> {
              Err(anyhow!("Expected '{}' to be the same type as '{}'", name(self.name()),
                          name(actual.name())))
           },
-          MatchingRule::MinType(min) => if !cascaded && actual.children().len() < min {
+          MatchingRule::MinType(min) => if !cascaded && child_count(actual) < min {
              Err(anyhow!("Expected '{}' to have at least {} children", name(actual.name()), min))
           } else {
              Ok(())
           },
-          MatchingRule::MaxType(max) => if !cascaded && actual.children().len() > max {
+          MatchingRule::MaxType(max) => if !cascaded && child_count(actual) > max {
              Err(anyhow!("Expected '{}' to have at most {} children", name(actual.name()), max))
           } else {
              Ok(())
           },
-          MatchingRule::MinMaxType(min, max) => if !cascaded && actual.children().len() < min {
+          MatchingRule::MinMaxType(min, max) => if !cascaded && child_count(actual) < min {
             Err(anyhow!("Expected '{}' to have at least {} children", name(actual.name()), min))
-          } else if !cascaded && actual.children().len() > max {
+          } else if !cascaded && child_count(actual) > max {
             Err(anyhow!("Expected '{}' to have at most {} children", name(actual.name()), max))
           } else {
             Ok(())
@@ -133,7 +141,7 @@ impl<'a> Matches<&'a Element<'a>> for &'a Element<'a> {
                   Err(anyhow!("Expected '{}' to be equal to '{}'", name(self.name()), name(actual.name())))
              }
           },
-          MatchingRule::NotEmpty => if actual.children().is_empty() {
+          MatchingRule::NotEmpty => if child_count(actual) == 0 {
             Err(anyhow!("Expected '{}' to have at least one child", name(actual.name())))
           } else {
             Ok(())
-- 
2.43.0


From 4e658cfe2936024f5dc4799393e39f7047d6d109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:38 +0000
Subject: [PATCH 069/116] fix: XML root element with a size rule accepted under
 any name

---
 rust/pact_matching/src/xml.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rust/pact_matching/src/xml.rs b/rust/pact_matching/src/xml.rs
index a068271..d4f5b91 100644
--- a/rust/pact_matching/src/xml.rs
+++ b/rust/pact_matching/src/xml.rs
@@ -117,6 +117,9 @@ impl<'a> Matches<&'a Element<'a>> for &'a Element<'a> {
              Err(anyhow!("Expected '{}' to be the same type as '{}'", name(self.name()),
                          name(actual.name())))
           },
+          MatchingRule::MinType(_) | MatchingRule::MaxType(_) | MatchingRule::MinMaxType(_, _)
+            if self.name() != actual.name() =>
+              Err(anyhow!("Expected '{}' to be the same type as '{}'", name(self.name()), name(actual.name()))),
           MatchingRule::MinType(min) => if !cascaded && child_count(actual) < min {
              Err(anyhow!("Expected '{}' to have at least {} children", name(actual.name()), min))
           } else {
-- 
2.43.0


From 8a113735f026aff7dea39b457409e281d0b604bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:30 +0000
Subject: [PATCH 070/116] fix: contents of another type accepted where an empty
 body is expected

---
 rust/pact_matching/src/lib.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/rust/pact_matching/src/lib.rs b/rust/pact_matching/src/lib.rs
index 3881132..15866a3 100644
--- a/rust/pact_matching/src/lib.rs
+++ b/rust/pact_matching/src/lib.rs
@@ -1860,7 +1860,7 @@ pub async fn match_body(
       actual: actual.body().value()
     }
   } else {
-    BodyMatchResult::Ok
+    match_body_content(&expected_content_type, expected, actual, context).await
   }
 }
 
@@ -2050,7 +2050,12 @@ pub async fn match_message_contents(
       actual_body: actual.contents.value()
     } ])
   } else {
-    Ok(())
+    match match_body_content(&expected_content_type, expected, actual, context).await {
+      BodyMatchResult::BodyMismatches(results) => {
+        Err(results.values().flat_map(|values| values.iter().cloned()).collect())
+      },
+      _ => Ok(())
+    }
   }
 }
 
-- 
2.43.0


From 856f7059c4a1f09c2a3b5b7c2d83af053cc2b7c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:30 +0000
Subject: [PATCH 071/116] fix: panic when a body of less than ten bytes does
 not match

---
 rust/pact_matching/src/matchers.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rust/pact_matching/src/matchers.rs b/rust/pact_matching/src/matchers.rs
index c742733..9b75d21 100644
--- a/rust/pact_matching/src/matchers.rs
+++ b/rust/pact_matching/src/matchers.rs
@@ -737,7 +737,7 @@ impl Matches<&Bytes> for Bytes {
           Ok(())
         } else {
           Err(anyhow!("Expected '{:?}...' ({} bytes) to be equal to '{:?}...' ({} bytes)",
-                      self.split_at(10).0, self.len(), actual.split_at(10).0, actual.len()))
+                      self.slice(..self.len().min(10)), self.len(), actual.slice(..actual.len().min(10)), actual.len()))
         }
       },
       MatchingRule::Type |
@@ -763,7 +763,7 @@ impl Matches<&Bytes> for Bytes {
         }
       }
       _ => if !cascaded || matcher.can_cascade() {
-        Err(anyhow!("Unable to match '{:?}...' ({} bytes) using {:?}", actual.split_at(10).0, actual.len(), matcher))
+        Err(anyhow!("Unable to match '{:?}...' ({} bytes) using {:?}", actual.slice(..actual.len().min(10)), actual.len(), matcher))
       } else {
         Ok(())
       }
-- 
2.43.0


From 4e38fcca49d287cc278609c0842b3ab0799e5205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:30 +0000
Subject: [PATCH 072/116] fix: field of a form with the wrong number of values
 reported at a path that does not exist

---
 rust/pact_matching/src/form_urlencoded.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rust/pact_matching/src/form_urlencoded.rs b/rust/pact_matching/src/form_urlencoded.rs
index 0a61a09..92ec719 100644
--- a/rust/pact_matching/src/form_urlencoded.rs
+++ b/rust/pact_matching/src/form_urlencoded.rs
@@ -64,10 +64,10 @@ pub(crate) fn match_form_urlencoded(
             .map(|(k, v)| (k.clone(), v.iter().map(|(_, v)| Some(v.clone())).collect_vec()))
             .collect();
           let result: Vec<_> = match_query_maps(expected_params, actual_params, context)
-            .values().flat_map(|m| m.iter().map(|mismatch| {
-            if let Mismatch::QueryMismatch { parameter, expected, actual, mismatch } = mismatch {
+            .iter().flat_map(|(name, m)| m.iter().map(move |mismatch| {
+            if let Mismatch::QueryMismatch { expected, actual, mismatch, .. } = mismatch {
               Mismatch::BodyMismatch {
-                path: format!("$.{}", parameter),
+                path: format!("$.{}", name),
                 expected: Some(expected.clone().into()),
                 actual: Some(actual.clone().into()),
                 mismatch: mismatch.replace("query parameter", "form post parameter")
-- 
2.43.0


From 4bb91ef94eaa923a14ceea36970e75293302042a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:31 +0000
Subject: [PATCH 073/116] fix: content type of a V4 asynchronous message was
 unknown if the metadata value was a list

---
 rust/pact_models/src/v4/async_message.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/rust/pact_models/src/v4/async_message.rs b/rust/pact_models/src/v4/async_message.rs
index 588d41c..6eb9595 100644
--- a/rust/pact_models/src/v4/async_message.rs
+++ b/rust/pact_models/src/v4/async_message.rs
@@ -501,10 +501,7 @@ impl HttpPart for AsynchronousMessage {
   }
 
   fn lookup_content_type(&self) -> Option<String> {
-    self.contents.metadata.iter().find(|(k, _)| {
-      let key = k.to_ascii_lowercase();
-      key == "contenttype" || key == "content-type"
-    }).map(|(_, v)| json_to_string(v))
+    self.contents.lookup_content_type()
   }
 }
 
-- 
2.43.0


From 1db4ce7b115fe9b2e10532230c75a126a76b7a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:52 +0000
Subject: [PATCH 074/116] fix: synchronous messages could never be matched as
 an interaction

---
 rust/pact_matching/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rust/pact_matching/src/lib.rs b/rust/pact_matching/src/lib.rs
index 15866a3..40aee01 100644
--- a/rust/pact_matching/src/lib.rs
+++ b/rust/pact_matching/src/lib.rs
@@ -2469,6 +2469,10 @@ pub async fn match_interaction(
     let mut mismatches = request_result.mismatches();
     mismatches.extend_from_slice(&*response_result);
     Ok(mismatches)
+  } else if let Some(expected) = expected.as_v4_sync_message() {
+    let actual = actual.as_v4_sync_message()
+      .ok_or_else(|| anyhow!("Could not unpack actual message as a V4 Synchronous Message"))?;
+    Ok(match_sync_message(expected, actual, &pact).await)
   } else if expected.is_message() || expected.is_v4() {
     Ok(match_message(&expected, &actual, &pact).await)
   } else {
-- 
2.43.0


From 0491c17986af367fc190a226ff3ed64df23eca97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:11 +0000
Subject: [PATCH 075/116] fix: content types in message metadata that are not
 text were accepted whatever they were

---
 rust/pact_matching/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rust/pact_matching/src/lib.rs b/rust/pact_matching/src/lib.rs
index 40aee01..f16674f 100644
--- a/rust/pact_matching/src/lib.rs
+++ b/rust/pact_matching/src/lib.rs
@@ -2102,7 +2102,8 @@ fn match_metadata_value(
   let path = DocPath::root().join(key);
   let matcher_result = if context.matcher_is_defined(&path) {
     match_values(&path, &context.select_best_matcher(&path), expected, actual)
-  } else if key.to_ascii_lowercase() == "contenttype" || key.to_ascii_lowercase() == "content-type" {
+  } else if (key.to_ascii_lowercase() == "contenttype" || key.to_ascii_lowercase() == "content-type")
+    && expected.is_string() && actual.is_string() {
     debug!("Comparing message context type '{}' => '{}'", expected, actual);
     headers::match_parameter_header(expected.as_str().unwrap_or_default(), actual.as_str().unwrap_or_default(),
       key, "metadata", 0, true)
-- 
2.43.0


From e0bdc2bac95ea401927e427b5db4b75a16df7e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:43 +0000
Subject: [PATCH 076/116] fix: generated header was added again if its name was
 in another case

---
 rust/pact_matching/src/lib.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/rust/pact_matching/src/lib.rs b/rust/pact_matching/src/lib.rs
index f16674f..152c6c8 100644
--- a/rust/pact_matching/src/lib.rs
+++ b/rust/pact_matching/src/lib.rs
@@ -2304,9 +2304,9 @@ pub async fn generate_request(request: &HttpRequest, mode: &GeneratorTestMode, c
     apply_generators(mode, &generators, &mut |key, generator| {
       if let Some(header) = key.first_field() {
         if let Some(ref mut headers) = request.headers {
-          if headers.contains_key(header) {
-            if let Ok(v) = generator.generate_value(&headers.get(header).unwrap().clone(), context, &DefaultVariantMatcher.boxed()) {
-              headers.insert(header.to_string(), v);
+          if let Some((_, values)) = headers.iter_mut().find(|(name, _)| name.eq_ignore_ascii_case(header)) {
+            if let Ok(v) = generator.generate_value(&*values, context, &DefaultVariantMatcher.boxed()) {
+              *values = v;
             }
           } else {
             if let Ok(v) = generator.generate_value(&"".to_string(), context, &DefaultVariantMatcher.boxed()) {
@@ -2385,9 +2385,9 @@ pub async fn generate_response(response: &HttpResponse, mode: &GeneratorTestMode
     apply_generators(mode, &generators, &mut |key, generator| {
       if let Some(header) = key.first_field() {
         if let Some(ref mut headers) = response.headers {
-          if headers.contains_key(header) {
-            if let Ok(v) = generator.generate_value(&headers.get(header).unwrap().clone(), context, &DefaultVariantMatcher.boxed()) {
-              headers.insert(header.to_string(), v);
+          if let Some((_, values)) = headers.iter_mut().find(|(name, _)| name.eq_ignore_ascii_case(header)) {
+            if let Ok(v) = generator.generate_value(&*values, context, &DefaultVariantMatcher.boxed()) {
+              *values = v;
             }
           } else {
             if let Ok(v) = generator.generate_value(&"".to_string(), context, &DefaultVariantMatcher.boxed()) {
-- 
2.43.0


From cef8b86cc3fff6f1225df4510e63ac3d61d53be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:22 +0000
Subject: [PATCH 077/116] fix: generating a body changed its content type to
 the general one

---
 rust/pact_matching/src/generators/bodies.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/rust/pact_matching/src/generators/bodies.rs b/rust/pact_matching/src/generators/bodies.rs
index a6c6344..9205b14 100644
--- a/rust/pact_matching/src/generators/bodies.rs
+++ b/rust/pact_matching/src/generators/bodies.rs
@@ -36,7 +36,9 @@ pub async fn generators_process_body(
       match result {
         Ok(val) => {
           let mut handler = JsonHandler { value: val };
-          Ok(handler.process_body(generators, mode, context, &matcher.boxed()).unwrap_or_else(|err| {
+          Ok(handler.process_body(generators, mode, context, &matcher.boxed()).map(|generated| {
+            keep_content_type(generated, body, &content_type)
+          }).unwrap_or_else(|err| {
             error!("Failed to generate the body: {}", err);
             body.clone()
           }))
@@ -77,7 +79,9 @@ pub async fn generators_process_body(
         match result {
           Ok(val) => {
             let mut handler = FormUrlEncodedHandler { params: val };
-            Ok(handler.process_body(generators, mode, context, &matcher.boxed()).unwrap_or_else(|err| {
+            Ok(handler.process_body(generators, mode, context, &matcher.boxed()).map(|generated| {
+              keep_content_type(generated, body, &content_type)
+            }).unwrap_or_else(|err| {
               error!("Failed to generate the body: {}", err);
               body.clone()
             }))
@@ -118,6 +122,15 @@ pub async fn generators_process_body(
   }
 }
 
+/// The content type handlers only know the general type, so this restores the type of the original body
+fn keep_content_type(generated: OptionalBody, body: &OptionalBody, content_type: &ContentType) -> OptionalBody {
+  match (generated, body) {
+    (OptionalBody::Present(contents, _, _), OptionalBody::Present(_, _, hint)) =>
+      OptionalBody::Present(contents, Some(content_type.clone()), hint.clone()),
+    (generated, _) => generated
+  }
+}
+
 #[cfg(test)]
 mod tests {
   use expectest::prelude::*;
-- 
2.43.0


From b7aef52cc05d9b883f97f84c616a37dca0ee7fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:42 +0000
Subject: [PATCH 078/116] fix: generators in the variants of an array were not
 applied to messages

---
 rust/pact_matching/src/generators/mod.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/rust/pact_matching/src/generators/mod.rs b/rust/pact_matching/src/generators/mod.rs
index 614167e..d67dec8 100644
--- a/rust/pact_matching/src/generators/mod.rs
+++ b/rust/pact_matching/src/generators/mod.rs
@@ -11,7 +11,6 @@ use pact_models::generators::{
   Generator,
   GeneratorCategory,
   GeneratorTestMode,
-  NoopVariantMatcher,
   VariantMatcher
 };
 use pact_models::http_parts::HttpPart;
@@ -125,7 +124,7 @@ pub async fn apply_generators_to_sync_message(
   interaction_data: &HashMap<String, HashMap<String, Value>>
 ) -> (MessageContents, Vec<MessageContents>) {
   let mut request = message.request.clone();
-  let variant_matcher = NoopVariantMatcher {};
+  let variant_matcher = DefaultVariantMatcher;
   let vm_boxed = variant_matcher.boxed();
 
   let generators = request.build_generators(&GeneratorCategory::METADATA);
@@ -189,7 +188,7 @@ pub async fn apply_generators_to_async_message(
   interaction_data: &HashMap<String, HashMap<String, Value>>
 ) -> MessageContents {
   let mut copy = message.contents.clone();
-  let variant_matcher = NoopVariantMatcher {};
+  let variant_matcher = DefaultVariantMatcher;
   let vm_boxed = variant_matcher.boxed();
 
   let generators = message.build_generators(&GeneratorCategory::METADATA);
-- 
2.43.0


From 2982ec1e8407f59e4f426c4a11caccb63779110e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:34 +0000
Subject: [PATCH 079/116] fix: a message provider that answers with an error
 status has not provided the message

---
 rust/pact_verifier/src/messages.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rust/pact_verifier/src/messages.rs b/rust/pact_verifier/src/messages.rs
index 498e44b..d3ca0e0 100644
--- a/rust/pact_verifier/src/messages.rs
+++ b/rust/pact_verifier/src/messages.rs
@@ -85,6 +85,9 @@ pub(crate) async fn verify_message_from_provider<'a, F: RequestFilterExecutor>(
   });
 
   match make_provider_request(provider, &message_request, options, client, transport).await {
+    Ok(ref actual_response) if !actual_response.is_success() => {
+      Err(MismatchResult::Error(format!("Request to fetch message from provider failed: status {}", actual_response.status), interaction.id().clone()))
+    },
     Ok(ref actual_response) => {
       let metadata = extract_metadata(actual_response);
       let actual = AsynchronousMessage {
-- 
2.43.0


From cdd065ebfe52e30df7ef9ce0d855d36e19096b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:21 +0000
Subject: [PATCH 080/116] fix: query parameters without a value were not sent
 to the provider

---
 rust/pact_verifier/src/provider_client.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/pact_verifier/src/provider_client.rs b/rust/pact_verifier/src/provider_client.rs
index 28385a8..5366e6d 100644
--- a/rust/pact_verifier/src/provider_client.rs
+++ b/rust/pact_verifier/src/provider_client.rs
@@ -99,7 +99,7 @@ fn create_native_request(
     builder = builder.query(&query.iter()
       .sorted_by(|a, b| Ord::cmp(&a.0, &b.0))
       .flat_map(|(k, v)| {
-        v.iter().map(|v| (k, v)).collect_vec()
+        v.iter().map(|v| (k, v.clone().unwrap_or_default())).collect_vec()
       }).collect_vec());
   }
 
-- 
2.43.0


From 7588217c20275be51a5e7273b9df30df05e1165d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:21 +0000
Subject: [PATCH 081/116] fix: a custom header was lost if the pact had the
 header in another case

---
 rust/pact_verifier/src/provider_client.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/pact_verifier/src/provider_client.rs b/rust/pact_verifier/src/provider_client.rs
index 5366e6d..b5895d6 100644
--- a/rust/pact_verifier/src/provider_client.rs
+++ b/rust/pact_verifier/src/provider_client.rs
@@ -106,7 +106,7 @@ fn create_native_request(
   if let Some(headers) = &request.headers {
     let mut header_map = HeaderMap::new();
     for (k, vals) in headers {
-      if !custom_headers.contains_key(k) {
+      if !custom_headers.keys().any(|name| name.eq_ignore_ascii_case(k)) {
         for header_value in vals {
           let header_name = HeaderName::try_from(k)
             .map_err(|err| ProviderClientError::RequestHeaderNameError(
-- 
2.43.0


From a68b70beaa0825696a5d3ae09af2e2e55194b15e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:24 +0000
Subject: [PATCH 082/116] fix: zero retries for the state change requests
 panicked instead of sending the request once

---
 rust/pact_verifier/src/utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/pact_verifier/src/utils.rs b/rust/pact_verifier/src/utils.rs
index 5c6840d..bf9ecd8 100644
--- a/rust/pact_verifier/src/utils.rs
+++ b/rust/pact_verifier/src/utils.rs
@@ -17,7 +17,7 @@ pub(crate) async fn with_retries(retries: u8, request: RequestBuilder) -> Result
       request.send().await
     }
     Some(rb) => {
-      futures::stream::iter((1..=retries).step_by(1))
+      futures::stream::iter((1..=retries.max(1)).step_by(1))
         .fold((None::<Result<reqwest::Response, reqwest::Error>>, rb.try_clone()), |(response, request), attempt| {
           async move {
             match request {
-- 
2.43.0


From 29a3adec3ff48e49a9e1bdb8b55d7c3cb67226a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:54 +0000
Subject: [PATCH 083/116] fix: pacts in the sub-directories of a pact directory
 were loaded but not verified

---
 rust/pact_verifier/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/pact_verifier/src/lib.rs b/rust/pact_verifier/src/lib.rs
index 042e7f5..2ed3c61 100644
--- a/rust/pact_verifier/src/lib.rs
+++ b/rust/pact_verifier/src/lib.rs
@@ -753,7 +753,7 @@ fn walkdir(
         let entry = entry?;
         let path = entry.path();
         if path.is_dir() {
-            walkdir(&path, provider)?;
+            pacts.extend(walkdir(&path, provider)?);
         } else {
           match timeit(|| read_pact(&path)) {
             Ok((pact, tm)) => {
-- 
2.43.0


From ae30fa4226e7bbb181ab716e71986ad725875556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:13 +0000
Subject: [PATCH 084/116] fix: the notices shown after a verification depended
 on the other pacts, and a passing pact got those of a failure

---
 rust/pact_verifier/src/lib.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/rust/pact_verifier/src/lib.rs b/rust/pact_verifier/src/lib.rs
index 2ed3c61..f84f23f 100644
--- a/rust/pact_verifier/src/lib.rs
+++ b/rust/pact_verifier/src/lib.rs
@@ -1050,6 +1050,10 @@ pub async fn verify_provider_async<F: RequestFilterExecutor, S: ProviderStateExe
               pact_source_duration
             ).await;
 
+            let failed = match &verify_result {
+              Ok(result) => result.results.iter().any(|r| r.result.is_err()),
+              Err(_) => true
+            };
             let mut results = vec![];
             match &verify_result {
               Ok(result) => {
@@ -1085,13 +1089,13 @@ pub async fn verify_provider_async<F: RequestFilterExecutor, S: ProviderStateExe
             if let Some(publish) = publish_options {
               publish_result(results.as_slice(), &pact_source, &publish, metrics_data.as_ref()).await;
 
-              if !errors.is_empty() || !pending_errors.is_empty() {
+              if failed {
                 process_notices(&context, VERIFICATION_NOTICE_AFTER_ERROR_RESULT_AND_PUBLISH, &mut verification_result);
               } else {
                 process_notices(&context, VERIFICATION_NOTICE_AFTER_SUCCESSFUL_RESULT_AND_PUBLISH, &mut verification_result);
               }
             } else {
-              if !errors.is_empty() || pending_errors.is_empty() {
+              if failed {
                 process_notices(&context, VERIFICATION_NOTICE_AFTER_ERROR_RESULT_AND_NO_PUBLISH, &mut verification_result);
               } else {
                 process_notices(&context, VERIFICATION_NOTICE_AFTER_SUCCESSFUL_RESULT_AND_NO_PUBLISH, &mut verification_result);
-- 
2.43.0


From a5093771b8b4460822f861f056bedfb952761eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:13 +0000
Subject: [PATCH 085/116] fix: a malformed list of pacts for verification was
 taken for an empty one

---
 rust/pact_verifier/src/pact_broker.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/rust/pact_verifier/src/pact_broker.rs b/rust/pact_verifier/src/pact_broker.rs
index 3f186af..5af4db5 100644
--- a/rust/pact_verifier/src/pact_broker.rs
+++ b/rust/pact_verifier/src/pact_broker.rs
@@ -702,9 +702,10 @@ pub async fn fetch_pacts_dynamically_from_broker(
         let pfv: PactsForVerificationResponse = serde_json::from_value(v)
           .map_err(|err| {
             trace!("Failed to deserialise PactsForVerificationResponse: {}", err);
-            err
-          })
-          .unwrap_or(PactsForVerificationResponse { embedded: PactsForVerificationBody { pacts: vec!() } });
+            PactBrokerError::ContentError(
+              format!("Did not get a valid list of pacts for verification from the pact broker: {}", err)
+            )
+          })?;
         trace!(?pfv, "got pacts for verification response");
 
         if pfv.embedded.pacts.len() == 0 {
-- 
2.43.0


From ede234be585f743859ee3770c5c6c1b2d3e26b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:53 +0000
Subject: [PATCH 086/116] fix: whole numbers beyond the limits were cast to
 another number

---
 rust/pact_models/src/expression_parser.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rust/pact_models/src/expression_parser.rs b/rust/pact_models/src/expression_parser.rs
index f5515c5..113a321 100644
--- a/rust/pact_models/src/expression_parser.rs
+++ b/rust/pact_models/src/expression_parser.rs
@@ -102,7 +102,9 @@ impl DataValue {
         } else if let Some(n) = n.as_i64() {
           Ok(json!(n))
         } else if let Some(n) = n.as_f64() {
-          Ok(json!(n as i64))
+          truncate(n, i64::MIN as f64, i64::MAX as f64).map(|n| json!(n as i64))
+            .or_else(|| truncate(n, 0.0, u64::MAX as f64).map(|n| json!(n as u64)))
+            .ok_or_else(|| anyhow!("Number can not be generated from '{}'", self.wrapped))
         } else {
           Err(anyhow!("Internal Error: Number is neither u64, i64, or f64"))
         }
@@ -155,7 +157,7 @@ impl DataValue {
 // Value without its fractional part, if that is within the given limits
 fn truncate(value: f64, min: f64, max: f64) -> Option<f64> {
   let value = value.trunc();
-  if value >= min && value <= max { Some(value) } else { None }
+  if value >= min && value < max + 1.0 { Some(value) } else { None }
 }
 
 impl TryFrom<DataValue> for u16 {
-- 
2.43.0


From 6af26d13b5e720050722244ce88d79111f819531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:43 +0000
Subject: [PATCH 087/116] fix: the weight of a path with more than 60 steps
 overflowed

---
 rust/pact_models/src/matchingrules/mod.rs | 2 +-
 rust/pact_models/src/path_exp.rs          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/rust/pact_models/src/matchingrules/mod.rs b/rust/pact_models/src/matchingrules/mod.rs
index 409a77b..b16ec54 100644
--- a/rust/pact_models/src/matchingrules/mod.rs
+++ b/rust/pact_models/src/matchingrules/mod.rs
@@ -1038,7 +1038,7 @@ impl MatchingRuleCategory {
   fn max_by_path(&self, path: &[&str]) -> RuleList {
     self.rules.iter().map(|(k, v)| (k, v, k.path_weight(path)))
       .filter(|&(_, _, (w, _))| w > 0)
-      .max_by_key(|&(k, _, (w, t))| (w * t, k))
+      .max_by_key(|&(k, _, (w, t))| (w as u128 * t as u128, k))
       .map(|(_, v, (_, t))| v.as_cascaded(t != path.len()))
       .unwrap_or_default()
   }
diff --git a/rust/pact_models/src/path_exp.rs b/rust/pact_models/src/path_exp.rs
index 7fd8b5b..fdfde30 100644
--- a/rust/pact_models/src/path_exp.rs
+++ b/rust/pact_models/src/path_exp.rs
@@ -195,7 +195,7 @@ impl DocPath {
       if path.len() >= self.len() {
         (
           self.path_tokens.iter().zip(path.iter())
-          .fold(1, |acc, (token, fragment)| acc * matches_token(fragment, token)),
+          .fold(1, |acc: usize, (token, fragment)| acc.saturating_mul(matches_token(fragment, token))),
           self.len()
         )
       } else {
-- 
2.43.0


From 342a15b15d681cd738805cedac1fb7e60bab0ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:42 +0000
Subject: [PATCH 088/116] fix: string bodies with quotes or escapes became
 invalid JSON when loaded with a JSON content type

---
 rust/pact_models/src/json_utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/pact_models/src/json_utils.rs b/rust/pact_models/src/json_utils.rs
index 221716f..8eb825f 100644
--- a/rust/pact_models/src/json_utils.rs
+++ b/rust/pact_models/src/json_utils.rs
@@ -171,7 +171,7 @@ pub fn body_from_json(request: &Value, fieldname: &str, headers: &Option<HashMap
           if content_type.is_json() {
             match serde_json::from_str::<JsonParsable>(s) {
               Ok(_) => OptionalBody::Present(s.clone().into(), Some(content_type), None),
-              Err(_) => OptionalBody::Present(format!("\"{}\"", s).into(), Some(content_type), None)
+              Err(_) => OptionalBody::Present(json!(s).to_string().into(), Some(content_type), None)
             }
           } else if content_type.is_text() {
             OptionalBody::Present(s.clone().into(), Some(content_type), None)
-- 
2.43.0


From 2e752aa3a2f0ef622af8e85579005c19c5c12d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:42 +0000
Subject: [PATCH 089/116] fix: binary bodies that are also valid Base64 changed
 when a pact was written and read again

---
 rust/pact_models/src/request.rs  | 9 +++++++--
 rust/pact_models/src/response.rs | 9 +++++++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/rust/pact_models/src/request.rs b/rust/pact_models/src/request.rs
index 4a12198..7e300af 100644
--- a/rust/pact_models/src/request.rs
+++ b/rust/pact_models/src/request.rs
@@ -14,6 +14,7 @@ use tracing::warn;
 
 use crate::{DifferenceType, PactSpecification};
 use crate::bodies::OptionalBody;
+use crate::content_types::ContentType;
 use crate::generators::{Generators, generators_from_json, generators_to_json};
 use crate::http_parts::HttpPart;
 use crate::json_utils::{body_from_json, headers_from_json, headers_to_json};
@@ -202,9 +203,13 @@ impl Request {
             }
           }
         } else {
+          // A binary body that is also valid Base64 has to be encoded, otherwise it will be decoded when it is read
+          let binary = self.lookup_content_type()
+            .and_then(|ct| ContentType::parse(ct.as_str()).ok())
+            .map_or(false, |ct| !ct.is_text());
           match from_utf8(body) {
-            Ok(s) => map.insert("body".to_string(), Value::String(s.to_string())),
-            Err(_) => map.insert("body".to_string(), Value::String(BASE64.encode(body)))
+            Ok(s) if !binary || BASE64.decode(s).is_err() => map.insert("body".to_string(), Value::String(s.to_string())),
+            _ => map.insert("body".to_string(), Value::String(BASE64.encode(body)))
           };
         },
         OptionalBody::Empty => { map.insert("body".to_string(), Value::String(String::default())); },
diff --git a/rust/pact_models/src/response.rs b/rust/pact_models/src/response.rs
index 2923a34..ea55641 100644
--- a/rust/pact_models/src/response.rs
+++ b/rust/pact_models/src/response.rs
@@ -13,6 +13,7 @@ use tracing::warn;
 
 use crate::{DifferenceType, PactSpecification};
 use crate::bodies::OptionalBody;
+use crate::content_types::ContentType;
 use crate::generators::{Generators, generators_from_json, generators_to_json};
 use crate::http_parts::HttpPart;
 use crate::json_utils::{body_from_json, headers_from_json, headers_to_json};
@@ -83,9 +84,13 @@ impl Response {
               }
             }
           } else {
+            // A binary body that is also valid Base64 has to be encoded, otherwise it will be decoded when it is read
+            let binary = self.lookup_content_type()
+              .and_then(|ct| ContentType::parse(ct.as_str()).ok())
+              .map_or(false, |ct| !ct.is_text());
             match from_utf8(body) {
-              Ok(s) => map.insert("body".to_string(), Value::String(s.to_string())),
-              Err(_) => map.insert("body".to_string(), Value::String(BASE64.encode(body)))
+              Ok(s) if !binary || BASE64.decode(s).is_err() => map.insert("body".to_string(), Value::String(s.to_string())),
+              _ => map.insert("body".to_string(), Value::String(BASE64.encode(body)))
             };
           }
         },
-- 
2.43.0


From e95f4fccf589eaee870038c7fe0760a2af1b8c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:42 +0000
Subject: [PATCH 090/116] fix: generator limits out of range wrapped around
 when a pact was loaded

---
 rust/pact_models/src/json_utils.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rust/pact_models/src/json_utils.rs b/rust/pact_models/src/json_utils.rs
index 8eb825f..5bb050a 100644
--- a/rust/pact_models/src/json_utils.rs
+++ b/rust/pact_models/src/json_utils.rs
@@ -28,7 +28,7 @@ impl JsonToNum<i32> for i32 {
     match map.get(field) {
       Some(Value::Number(num)) => {
          match num.as_i64() {
-          Some(num) => num as i32,
+          Some(num) => num.clamp(i32::MIN as i64, i32::MAX as i64) as i32,
           None => default
         }
       },
@@ -42,7 +42,7 @@ impl JsonToNum<u16> for u16 {
     match map.get(field) {
       Some(Value::Number(num)) => {
         match num.as_u64() {
-          Some(num) => num as u16,
+          Some(num) => num.min(u16::MAX as u64) as u16,
           None => default
         }
       },
-- 
2.43.0


From f42ec2322955ffd15bab37f505c7c35ba82e1db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:43 +0000
Subject: [PATCH 091/116] fix: requests differing only in the values of their
 headers were not reported as different

---
 rust/pact_models/src/request.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/rust/pact_models/src/request.rs b/rust/pact_models/src/request.rs
index 7e300af..54e6bae 100644
--- a/rust/pact_models/src/request.rs
+++ b/rust/pact_models/src/request.rs
@@ -248,11 +248,12 @@ impl Request {
     if self.query != other.query {
       differences.push((DifferenceType::QueryParameters, format!("Request query {:?} != {:?}", self.query, other.query)));
     }
-    let mut keys = self.headers.clone().map(|m| m.keys().cloned().collect_vec()).unwrap_or_default();
-    let mut other_keys = other.headers.clone().map(|m| m.keys().cloned().collect_vec()).unwrap_or_default();
-    keys.sort();
-    other_keys.sort();
-    if keys != other_keys {
+    // compared as text, values may have been joined when the request was written to JSON
+    let headers = |request: &Request| request.headers.iter().flatten()
+      .map(|(name, values)| (name.clone(), values.join(", ")))
+      .sorted()
+      .collect_vec();
+    if headers(self) != headers(other) {
       differences.push((DifferenceType::Headers, format!("Request headers {:?} != {:?}", self.headers, other.headers)));
     }
     if self.body != other.body {
-- 
2.43.0


From 6ec103d465978df6710a26b4c71b7a80df23c0ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:56 +0000
Subject: [PATCH 092/116] fix: adding a header to a message with different case
 added it a second time

---
 rust/pact_models/src/message.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/rust/pact_models/src/message.rs b/rust/pact_models/src/message.rs
index a885bc8..8fb2739 100644
--- a/rust/pact_models/src/message.rs
+++ b/rust/pact_models/src/message.rs
@@ -346,15 +346,19 @@ impl HttpPart for Message {
   }
 
   fn add_header(&mut self, key: &str, val: Vec<&str>) {
+    let key = self.metadata.keys()
+      .find(|k| k.eq_ignore_ascii_case(key))
+      .cloned()
+      .unwrap_or_else(|| key.to_string());
     if !val.is_empty() {
       if val.len() == 1 {
-        self.metadata.insert(key.to_string(), Value::String(val.first().unwrap().to_string()));
+        self.metadata.insert(key, Value::String(val.first().unwrap().to_string()));
       } else {
-        self.metadata.insert(key.to_string(), Value::Array(val.iter()
+        self.metadata.insert(key, Value::Array(val.iter()
           .map(|v| Value::String(v.to_string())).collect()));
       }
     } else {
-      self.metadata.insert(key.to_string(), Value::Null);
+      self.metadata.insert(key, Value::Null);
     }
   }
 }
-- 
2.43.0


From e81dc0b6293c4b2d1115a763f5c78626e01a05b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:57 +0000
Subject: [PATCH 093/116] fix: the most specific matching rule was not selected
 for message contents

---
 rust/pact_models/src/matchingrules/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/pact_models/src/matchingrules/mod.rs b/rust/pact_models/src/matchingrules/mod.rs
index b16ec54..21c7a3e 100644
--- a/rust/pact_models/src/matchingrules/mod.rs
+++ b/rust/pact_models/src/matchingrules/mod.rs
@@ -1117,7 +1117,7 @@ impl MatchingRuleCategory {
   /// Selects the best matcher for the given path by calculating a weighting for each one
   pub fn select_best_matcher(&self, path: &[&str]) -> RuleList {
     match self.name {
-      Category::BODY | Category::METADATA => self.max_by_path(path),
+      Category::BODY | Category::CONTENTS | Category::METADATA => self.max_by_path(path),
       _ => self.resolve_matchers_for_path(path).as_rule_list()
     }
   }
-- 
2.43.0


From e9f57d82c47c6e6615ceb4b5ff29c4dff08a5ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:27 +0000
Subject: [PATCH 094/116] fix: an invalid interaction handle is not found,
 instead of overflowing

---
 rust/pact_ffi/src/mock_server/handles.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rust/pact_ffi/src/mock_server/handles.rs b/rust/pact_ffi/src/mock_server/handles.rs
index 393fda3..4c1454a 100644
--- a/rust/pact_ffi/src/mock_server/handles.rs
+++ b/rust/pact_ffi/src/mock_server/handles.rs
@@ -292,7 +292,7 @@ impl InteractionHandle {
       let inner_mut = &mut *inner.borrow_mut();
       trace!("with_interaction - inner = {:?}", inner_mut);
       let interactions = &mut inner_mut.pact.interactions;
-      match interactions.get_mut((interaction - 1) as usize) {
+      match interactions.get_mut((interaction as usize).wrapping_sub(1)) {
         Some(inner_i) => {
           Some(f(interaction - 1, inner_mut.mock_server_started, inner_i.as_mut()))
         },
@@ -405,7 +405,7 @@ impl MessageHandle {
     handles.get_mut(&index).map(|inner| {
       let mut ref_mut = inner.borrow_mut();
       let specification = ref_mut.specification_version;
-      ref_mut.pact.interactions.get_mut((interaction - 1) as usize)
+      ref_mut.pact.interactions.get_mut((interaction as usize).wrapping_sub(1))
         .map(|inner_i| {
           if inner_i.is_message() {
             Some(f(interaction - 1, inner_i.as_mut(), specification))
-- 
2.43.0


From 8d4790c1ffa853168e3fdff7f176251d8ec38f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:27 +0000
Subject: [PATCH 095/116] fix: a content type that can not be parsed does not
 abort pactffi_with_body

---
 rust/pact_ffi/src/mock_server/handles.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/pact_ffi/src/mock_server/handles.rs b/rust/pact_ffi/src/mock_server/handles.rs
index 4c1454a..8ca3f0e 100644
--- a/rust/pact_ffi/src/mock_server/handles.rs
+++ b/rust/pact_ffi/src/mock_server/handles.rs
@@ -1838,7 +1838,7 @@ pub extern "C" fn pactffi_with_body(
         body
     );
     let content_type =
-        convert_cstr("content_type", content_type).map(|ct| ContentType::parse(ct).unwrap());
+        convert_cstr("content_type", content_type).and_then(|ct| ContentType::parse(ct).ok());
     trace!(?content_type);
     let content_type_header = "Content-Type".to_string();
     let body = convert_cstr("body", body).unwrap_or_default();
-- 
2.43.0


From 1565f29460eb4a0750e7c381b6d0e3f60c46041b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:33 +0000
Subject: [PATCH 096/116] fix: message contents given as bytes are copied, not
 kept as a pointer to the caller's memory

---
 rust/pact_ffi/src/mock_server/handles.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rust/pact_ffi/src/mock_server/handles.rs b/rust/pact_ffi/src/mock_server/handles.rs
index 8ca3f0e..db4ac85 100644
--- a/rust/pact_ffi/src/mock_server/handles.rs
+++ b/rust/pact_ffi/src/mock_server/handles.rs
@@ -2903,10 +2903,10 @@ pub extern fn pactffi_message_with_contents(message_handle: MessageHandle, conte
         } else if content_type.is_text() || content_type.is_json() {
           OptionalBody::Present(Bytes::from(process_json(body_str.to_string(), category, &mut message.contents.generators)), Some(content_type), None)
         } else {
-          OptionalBody::Present(Bytes::from(unsafe { std::slice::from_raw_parts(body, size) }), Some(content_type), None)
+          convert_ptr_to_body(body, size, Some(content_type))
         }
       } else {
-        OptionalBody::Present(Bytes::from(unsafe { std::slice::from_raw_parts(body, size) }), None, None)
+        convert_ptr_to_body(body, size, None)
       };
 
       message.contents.contents = body;
-- 
2.43.0


From 3dd34e2de144c677c897e0900c5a1579811776a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:18 +0000
Subject: [PATCH 097/116] fix: a metadata key that is no valid path expression
 does not abort

---
 rust/pact_ffi/src/mock_server/handles.rs | 26 ++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/rust/pact_ffi/src/mock_server/handles.rs b/rust/pact_ffi/src/mock_server/handles.rs
index db4ac85..8ccaafa 100644
--- a/rust/pact_ffi/src/mock_server/handles.rs
+++ b/rust/pact_ffi/src/mock_server/handles.rs
@@ -1270,8 +1270,8 @@ pub extern fn pactffi_with_metadata(
           let matching_rules = message.contents.matching_rules.add_category(Category::METADATA);
           let generators = &mut message.contents.generators;
           let value = match json {
-            Value::Object(map) => process_object(&map, matching_rules, generators, DocPath::new(key).unwrap(), false),
-            Value::Array(array) => process_array(array.as_slice(), matching_rules, generators, DocPath::new(key).unwrap(), false, false),
+            Value::Object(map) => process_object(&map, matching_rules, generators, metadata_path(key), false),
+            Value::Array(array) => process_array(array.as_slice(), matching_rules, generators, metadata_path(key), false, false),
             json => json.clone()
           };
         message.contents.metadata.insert(key.to_string(), value);
@@ -1291,8 +1291,8 @@ pub extern fn pactffi_with_metadata(
           let matching_rules = message.request.matching_rules.add_category(Category::METADATA);
           let generators = &mut message.request.generators;
           let value = match json {
-            Value::Object(map) => process_object(&map, matching_rules, generators, DocPath::new(key).unwrap(), false),
-            Value::Array(array) => process_array(array.as_slice(), matching_rules, generators, DocPath::new(key).unwrap(), false, false),
+            Value::Object(map) => process_object(&map, matching_rules, generators, metadata_path(key), false),
+            Value::Array(array) => process_array(array.as_slice(), matching_rules, generators, metadata_path(key), false, false),
             json => json.clone()
           };
           message.request.metadata.insert(key.to_string(), value);
@@ -1302,8 +1302,8 @@ pub extern fn pactffi_with_metadata(
             let matching_rules = response.matching_rules.add_category(Category::METADATA);
             let generators = &mut response.generators;
             let value = match json {
-              Value::Object(map) => process_object(&map, matching_rules, generators, DocPath::new(key).unwrap(), false),
-              Value::Array(array) => process_array(array.as_slice(), matching_rules, generators, DocPath::new(key).unwrap(), false, false),
+              Value::Object(map) => process_object(&map, matching_rules, generators, metadata_path(key), false),
+              Value::Array(array) => process_array(array.as_slice(), matching_rules, generators, metadata_path(key), false, false),
               json => json.clone()
             };
             response.metadata.insert(key.to_string(), value);
@@ -1672,6 +1672,16 @@ pub extern fn pactffi_response_status_v2(interaction: InteractionHandle, status:
   }).unwrap_or(false)
 }
 
+/// Path to use for a metadata entry. Keys that are not valid path expressions are used as the
+/// name of a field.
+fn metadata_path(key: &str) -> DocPath {
+  DocPath::new(key).unwrap_or_else(|_| {
+    let mut path = DocPath::root();
+    path.push_field(key);
+    path
+  })
+}
+
 /// Process the body, including generators and matching rules.
 ///
 /// As the body may contain embedded generators and matching rules, we must use
@@ -2960,8 +2970,8 @@ pub extern fn pactffi_message_with_metadata_v2(message_handle: MessageHandle, ke
         let generators = &mut message.contents.generators;
         let value = match serde_json::from_str(value) {
           Ok(json) => match json {
-            Value::Object(map) => process_object(&map, matching_rules, generators, DocPath::new(key).unwrap(), false),
-            Value::Array(array) => process_array(array.as_slice(), matching_rules, generators, DocPath::new(key).unwrap(), false, false),
+            Value::Object(map) => process_object(&map, matching_rules, generators, metadata_path(key), false),
+            Value::Array(array) => process_array(array.as_slice(), matching_rules, generators, metadata_path(key), false, false),
             Value::Null => Value::Null,
             _ => json
           },
-- 
2.43.0


From 67efb41d4ce0bde12db2f275208fcb3ef6d32a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:15 +0000
Subject: [PATCH 098/116] fix: writing a rule with an unresolved reference does
 not panic

---
 rust/pact_models/src/matchingrules/mod.rs | 28 +++++++++++++++--------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/rust/pact_models/src/matchingrules/mod.rs b/rust/pact_models/src/matchingrules/mod.rs
index 21c7a3e..3d16065 100644
--- a/rust/pact_models/src/matchingrules/mod.rs
+++ b/rust/pact_models/src/matchingrules/mod.rs
@@ -11,7 +11,7 @@ use anyhow::{anyhow, Context as _};
 use itertools::{Either, Itertools};
 use maplit::hashmap;
 use serde_json::{json, Map, Value};
-use tracing::{error, trace};
+use tracing::{error, trace, warn};
 
 use crate::{HttpStatus, PactSpecification};
 use crate::generators::{Generator, GeneratorCategory, Generators};
@@ -210,9 +210,7 @@ impl MatchingRule {
       MatchingRule::EachKey(definition) => {
         let mut json = json!({
           "match": "eachKey",
-          "rules": definition.rules.iter()
-            .map(|rule| rule.as_ref().expect_left("Expected a matching rule, found an unresolved reference").to_json())
-          .collect::<Vec<Value>>()
+          "rules": resolved_rules_to_json(definition)
         });
         let map = json.as_object_mut().unwrap();
 
@@ -229,9 +227,7 @@ impl MatchingRule {
       MatchingRule::EachValue(definition) => {
         let mut json = json!({
           "match": "eachValue",
-          "rules": definition.rules.iter()
-            .map(|rule| rule.as_ref().expect_left("Expected a matching rule, found an unresolved reference").to_json())
-          .collect::<Vec<Value>>()
+          "rules": resolved_rules_to_json(definition)
         });
         let map = json.as_object_mut().unwrap();
 
@@ -327,9 +323,7 @@ impl MatchingRule {
       MatchingRule::Semver => empty,
       MatchingRule::EachKey(definition) | MatchingRule::EachValue(definition) => {
         let mut map = hashmap! {
-          "rules" => Value::Array(definition.rules.iter()
-            .map(|rule| rule.as_ref().expect_left("Expected a matching rule, found an unresolved reference").to_json())
-            .collect())
+          "rules" => Value::Array(resolved_rules_to_json(definition))
         };
 
         if !definition.value.is_empty() {
@@ -607,6 +601,20 @@ impl MatchingRule {
   }
 }
 
+/// JSON form of the rules of the definition. A reference that was not resolved has no form in the
+/// Pact file, so is left out.
+fn resolved_rules_to_json(definition: &MatchingRuleDefinition) -> Vec<Value> {
+  definition.rules.iter()
+    .filter_map(|rule| match rule {
+      Either::Left(rule) => Some(rule.to_json()),
+      Either::Right(reference) => {
+        warn!("Reference to '{}' was not resolved, it will be ignored", reference.name);
+        None
+      }
+    })
+    .collect()
+}
+
 impl Hash for MatchingRule {
   fn hash<H: Hasher>(&self, state: &mut H) {
     mem::discriminant(self).hash(state);
-- 
2.43.0


From bde06f09da0333630c9241a8811825d6fe57efbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:28:32 +0000
Subject: [PATCH 099/116] fix: a form body that only looks like JSON does not
 abort

---
 rust/pact_ffi/src/mock_server/form_urlencoded.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/rust/pact_ffi/src/mock_server/form_urlencoded.rs b/rust/pact_ffi/src/mock_server/form_urlencoded.rs
index b8c886d..5d2cd42 100644
--- a/rust/pact_ffi/src/mock_server/form_urlencoded.rs
+++ b/rust/pact_ffi/src/mock_server/form_urlencoded.rs
@@ -2,7 +2,7 @@
 
 use std::collections::HashMap;
 use serde_json::Value;
-use tracing::{debug, error, trace};
+use tracing::{debug, error, trace, warn};
 
 use pact_models::generators::{GeneratorCategory, Generators};
 use pact_models::generators::form_urlencoded::QueryParams;
@@ -16,7 +16,13 @@ pub fn process_form_urlencoded_json(body: String, matching_rules: &mut MatchingR
   trace!("process_form_urlencoded_json");
   let json = process_json(body, matching_rules, generators);
   debug!("form_urlencoded json: {json}");
-  let values: Value = serde_json::from_str(json.as_str()).unwrap();
+  let values: Value = match serde_json::from_str(json.as_str()) {
+    Ok(values) => values,
+    Err(err) => {
+      warn!("Body is not a JSON document, will use it as is - {}", err);
+      return json;
+    }
+  };
   debug!("form_urlencoded values: {values}");
   let params = convert_json_value_to_query_params(values, matching_rules, generators);
   debug!("form_urlencoded params: {:?}", params);
-- 
2.43.0


From 631d7fe212ec109599297283b60ff4b58eb38f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:54 +0000
Subject: [PATCH 100/116] fix: an invalid JSON form of an XML body does not
 abort

---
 rust/pact_ffi/src/mock_server/xml.rs | 35 ++++++++++++++--------------
 1 file changed, 18 insertions(+), 17 deletions(-)

diff --git a/rust/pact_ffi/src/mock_server/xml.rs b/rust/pact_ffi/src/mock_server/xml.rs
index 4b2f23f..ac14ab6 100644
--- a/rust/pact_ffi/src/mock_server/xml.rs
+++ b/rust/pact_ffi/src/mock_server/xml.rs
@@ -32,7 +32,7 @@ pub fn generate_xml_body(
   match attributes.get("root") {
     Some(val) => match val {
       Value::Object(obj) => {
-        match create_element_from_json(doc, None, obj, matching_rules, generators, &vec!["$"], false, &mut hashmap!{}) {
+        match create_element_from_json(doc, None, obj, matching_rules, generators, &vec!["$"], false, &mut hashmap!{})? {
           Either::Left(element) => doc.root().append_child(element),
           Either::Right(_) => warn!("Can't append text node to the root")
         }
@@ -63,7 +63,7 @@ fn create_element_from_json<'a>(
   path: &Vec<&str>,
   _type_matcher: bool,
   namespaces: &mut HashMap<String, String>
-) -> Either<Element<'a>, Text<'a>> {
+) -> Result<Either<Element<'a>, Text<'a>>, String> {
   trace!("create_element_from_json {:?}: object = {:?}", path, object);
   let mut element = None;
   let mut text = None;
@@ -71,7 +71,8 @@ fn create_element_from_json<'a>(
     let mut updated_path = path.clone();
     if let Some(val) = object.get("value") {
       if let Value::Object(attr) = val {
-        let name = json_to_string(attr.get("name").unwrap());
+        let name = attr.get("name").map(json_to_string)
+          .ok_or_else(|| format!("Intermediate JSON format is invalid, element has no name: {:?}", attr))?;
         updated_path.push(&name);
         let doc_path = DocPath::new(updated_path.join(".").to_string()).unwrap_or(DocPath::root());
 
@@ -111,21 +112,21 @@ fn create_element_from_json<'a>(
                 Value::Object(attributes) => {
                   let mut updated_path = path.clone();
                   updated_path.push(new_element.name().local_part());
-                  create_element_from_json(doc, Some(new_element), attributes, matching_rules, generators, &updated_path, true, namespaces);
+                  create_element_from_json(doc, Some(new_element), attributes, matching_rules, generators, &updated_path, true, namespaces)?;
                 },
-                _ => panic!("Intermediate JSON format is invalid, child is not an object: {:?}", child)
+                _ => return Err(format!("Intermediate JSON format is invalid, child is not an object: {:?}", child))
               }
             },
-            _ => panic!("Intermediate JSON format is invalid, children is not an Array: {:?}", children)
+            _ => return Err(format!("Intermediate JSON format is invalid, children is not an Array: {:?}", children))
           }
         };
 
         element = Some(new_element)
       } else {
-        panic!("Intermediate JSON format is invalid, corresponding value for the given matcher was not an object: {:?}", object)
+        return Err(format!("Intermediate JSON format is invalid, corresponding value for the given matcher was not an object: {:?}", object))
       }
     } else {
-      panic!("Intermediate JSON format is invalid, no corresponding value for the given matcher: {:?}", object)
+      return Err(format!("Intermediate JSON format is invalid, no corresponding value for the given matcher: {:?}", object))
     }
   } else if let Some(content) = object.get("content") {
     text = Some(doc.create_text(json_to_string(content).as_str()));
@@ -175,23 +176,23 @@ fn create_element_from_json<'a>(
             Value::Object(attributes) => {
               let mut updated_path = path.clone();
               updated_path.push(&name);
-              create_element_from_json(doc, Some(new_element), attributes, matching_rules, generators, &updated_path, false, namespaces);
+              create_element_from_json(doc, Some(new_element), attributes, matching_rules, generators, &updated_path, false, namespaces)?;
             },
-            _ => panic!("Intermediate JSON format is invalid, child is not an object: {:?}", child)
+            _ => return Err(format!("Intermediate JSON format is invalid, child is not an object: {:?}", child))
           }
         },
-        _ => panic!("Intermediate JSON format is invalid, children is not an Array: {:?}", children)
+        _ => return Err(format!("Intermediate JSON format is invalid, children is not an Array: {:?}", children))
       }
     };
     element = Some(new_element);
   } else {
-    panic!("Ignoring invalid object {:?}", object);
+    return Err(format!("Intermediate JSON format is invalid, object is not an element or text: {:?}", object));
   };
 
   if let Some(parent) = parent {
     let examples = match object.get("examples") {
       Some(val) => match val {
-        Number(val) => val.as_u64().unwrap(),
+        Number(val) => val.as_u64().unwrap_or(1),
         _ => 1
       }
       None => 1
@@ -207,11 +208,11 @@ fn create_element_from_json<'a>(
   }
 
   if let Some(element) = element {
-    Either::Left(element)
+    Ok(Either::Left(element))
   } else if let Some(text) = text {
-    Either::Right(text)
+    Ok(Either::Right(text))
   } else {
-    panic!("Intermediate JSON was mapped to neither an element or a text node")
+    Err("Intermediate JSON was mapped to neither an element or a text node".to_string())
   }
 }
 
@@ -245,7 +246,7 @@ fn add_attributes(
             _ => ()
           };
         }
-        json_to_string(matcher_definition.get("value").unwrap())
+        matcher_definition.get("value").map(json_to_string).unwrap_or_default()
       } else {
         json_to_string(&v)
       },
-- 
2.43.0


From 30edf3c9eaab32adafab36179465ffbd30f9788a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:48 +0000
Subject: [PATCH 101/116] fix: setting the response contents of a synchronous
 message without a response does not panic

---
 rust/pact_ffi/src/plugins/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rust/pact_ffi/src/plugins/mod.rs b/rust/pact_ffi/src/plugins/mod.rs
index 6fe387d..def257e 100644
--- a/rust/pact_ffi/src/plugins/mod.rs
+++ b/rust/pact_ffi/src/plugins/mod.rs
@@ -345,7 +345,12 @@ fn get_part<'a>(interaction: &'a mut dyn V4Interaction, part: InteractionPart) -
     let message = interaction.as_v4_sync_message_mut().unwrap();
     match part {
       InteractionPart::Request => &mut message.request,
-      InteractionPart::Response => message.response.get_mut(0).expect("Message did not have a response")
+      InteractionPart::Response => {
+        if message.response.is_empty() {
+          message.response.push(MessageContents::default());
+        }
+        &mut message.response[0]
+      }
     }
   } else {
     interaction.as_v4_async_message_mut().unwrap()
-- 
2.43.0


From c64b365940d1df1b53c2df2564a525944ae492d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:36:22 +0000
Subject: [PATCH 102/116] fix: the text of an XML element was lost in all but
 the first of its examples

---
 rust/pact_ffi/src/mock_server/xml.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/pact_ffi/src/mock_server/xml.rs b/rust/pact_ffi/src/mock_server/xml.rs
index ac14ab6..358731b 100644
--- a/rust/pact_ffi/src/mock_server/xml.rs
+++ b/rust/pact_ffi/src/mock_server/xml.rs
@@ -267,7 +267,7 @@ fn duplicate_element<'a>(doc: Document<'a>, el: &Element<'a>) -> Element<'a> {
   for child in el.children() {
     match child {
       ChildOfElement::Element(el) => element.append_child(duplicate_element(doc, &el)),
-      ChildOfElement::Text(txt) => element.append_child(txt),
+      ChildOfElement::Text(txt) => element.append_child(doc.create_text(txt.text())),
       _ => ()
     }
   }
-- 
2.43.0


From 68e209a0e2dfb1ee83287faaed9f2b53640f8722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:37:14 +0000
Subject: [PATCH 103/116] fix: setting a body adds no second Content-Type
 header when one is set with another case

---
 rust/pact_ffi/src/mock_server/handles.rs | 24 ++++++++----------------
 1 file changed, 8 insertions(+), 16 deletions(-)

diff --git a/rust/pact_ffi/src/mock_server/handles.rs b/rust/pact_ffi/src/mock_server/handles.rs
index 8ccaafa..f907d88 100644
--- a/rust/pact_ffi/src/mock_server/handles.rs
+++ b/rust/pact_ffi/src/mock_server/handles.rs
@@ -1871,14 +1871,10 @@ pub extern "C" fn pactffi_with_body(
                                 "Setting request content type header to '{}' (if not already set)",
                                 ct
                             );
-                            if let Some(headers) = http.request.headers.as_mut() {
-                                headers
-                                    .entry(content_type_header.to_string())
-                                    .or_insert_with(|| vec![ct.to_string()]);
-                            } else {
-                                http.request.headers = Some(hashmap! {
-                                    content_type_header.clone() => vec![ct.to_string()]
-                                });
+                            if !http.request.has_header(&content_type_header) {
+                                http.request
+                                    .headers_mut()
+                                    .insert(content_type_header.clone(), vec![ct.to_string()]);
                             }
                         }
                     }
@@ -1896,14 +1892,10 @@ pub extern "C" fn pactffi_with_body(
                                 "Setting response content type header to '{}' (if not already set)",
                                 ct
                             );
-                            if let Some(headers) = http.response.headers.as_mut() {
-                                headers
-                                    .entry(content_type_header.to_string())
-                                    .or_insert_with(|| vec![ct.to_string()]);
-                            } else {
-                                http.response.headers = Some(hashmap! {
-                                    content_type_header.clone() => vec![ct.to_string()]
-                                });
+                            if !http.response.has_header(&content_type_header) {
+                                http.response
+                                    .headers_mut()
+                                    .insert(content_type_header.clone(), vec![ct.to_string()]);
                             }
                         }
                     }
-- 
2.43.0


From 1efd09e3eeeefa69f877ed45c6bbf885983d43f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:33 +0000
Subject: [PATCH 104/116] fix: the content type metadata of a message was not
 used for the body set after it

---
 rust/pact_ffi/src/mock_server/handles.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rust/pact_ffi/src/mock_server/handles.rs b/rust/pact_ffi/src/mock_server/handles.rs
index f907d88..f89577b 100644
--- a/rust/pact_ffi/src/mock_server/handles.rs
+++ b/rust/pact_ffi/src/mock_server/handles.rs
@@ -1903,10 +1903,11 @@ pub extern "C" fn pactffi_with_body(
                 !mock_server_started
             } else if let Some(message) = inner.as_v4_async_message_mut() {
                 trace!("Processing async message body");
+                let content_type_hint = message.contents.message_content_type();
                 message.contents.contents = process_body(
                     body,
                     &content_type,
-                    &None,
+                    &content_type_hint,
                     &mut message.contents.matching_rules,
                     &mut message.contents.generators,
                 );
@@ -1927,10 +1928,11 @@ pub extern "C" fn pactffi_with_body(
                         message.response.last_mut().unwrap()
                     }
                 };
+                let content_type_hint = contents.message_content_type();
                 contents.contents = process_body(
                     body,
                     &content_type,
-                    &None,
+                    &content_type_hint,
                     &mut contents.matching_rules,
                     &mut contents.generators,
                 );
-- 
2.43.0


From eca9d22647918056bad4fd523d2bd6a92d54aeae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:47:49 +0000
Subject: [PATCH 105/116] fix: the provider state returned for an index is a
 copy, as documented, which can be deleted

---
 rust/pact_ffi/src/models/async_message.rs    | 4 +---
 rust/pact_ffi/src/models/http_interaction.rs | 4 +---
 rust/pact_ffi/src/models/message.rs          | 4 +---
 rust/pact_ffi/src/models/sync_message.rs     | 4 +---
 4 files changed, 4 insertions(+), 12 deletions(-)

diff --git a/rust/pact_ffi/src/models/async_message.rs b/rust/pact_ffi/src/models/async_message.rs
index 6c9bf4d..dc446e7 100644
--- a/rust/pact_ffi/src/models/async_message.rs
+++ b/rust/pact_ffi/src/models/async_message.rs
@@ -322,14 +322,12 @@ ffi_fn! {
         let message = as_ref!(message);
         let index = index as usize;
 
-        // Get a raw pointer directly, rather than boxing it, as its owned by the `SynchronousMessage`
-        // and will be cleaned up when the `SynchronousMessage` is cleaned up.
         let provider_state = message
             .provider_states
             .get(index)
             .ok_or(anyhow!("index is out of bounds"))?;
 
-        provider_state as *const ProviderState
+        ptr::raw_to(provider_state.clone()) as *const ProviderState
     } {
         std::ptr::null()
     }
diff --git a/rust/pact_ffi/src/models/http_interaction.rs b/rust/pact_ffi/src/models/http_interaction.rs
index 6be8c14..a70b6ee 100644
--- a/rust/pact_ffi/src/models/http_interaction.rs
+++ b/rust/pact_ffi/src/models/http_interaction.rs
@@ -462,14 +462,12 @@ ffi_fn! {
         let interaction = as_ref!(interaction);
         let index = index as usize;
 
-        // Get a raw pointer directly, rather than boxing it, as its owned by the `SynchronousHttp`
-        // and will be cleaned up when the `SynchronousHttp` is cleaned up.
         let provider_state = interaction
             .provider_states
             .get(index)
             .ok_or(anyhow!("index is out of bounds"))?;
 
-        provider_state as *const ProviderState
+        ptr::raw_to(provider_state.clone()) as *const ProviderState
     } {
         std::ptr::null()
     }
diff --git a/rust/pact_ffi/src/models/message.rs b/rust/pact_ffi/src/models/message.rs
index 5fff1ad..c36cd85 100644
--- a/rust/pact_ffi/src/models/message.rs
+++ b/rust/pact_ffi/src/models/message.rs
@@ -368,14 +368,12 @@ ffi_fn! {
         let message = as_ref!(message);
         let index = index as usize;
 
-        // Get a raw pointer directly, rather than boxing it, as its owned by the `Message`
-        // and will be cleaned up when the `Message` is cleaned up.
         let provider_state = message
             .provider_states
             .get(index)
             .ok_or(anyhow!("index is out of bounds"))?;
 
-        provider_state as *const ProviderState
+        ptr::raw_to(provider_state.clone()) as *const ProviderState
     } {
         std::ptr::null()
     }
diff --git a/rust/pact_ffi/src/models/sync_message.rs b/rust/pact_ffi/src/models/sync_message.rs
index 6cf3fc2..4d7be5a 100644
--- a/rust/pact_ffi/src/models/sync_message.rs
+++ b/rust/pact_ffi/src/models/sync_message.rs
@@ -592,14 +592,12 @@ ffi_fn! {
         let message = as_ref!(message);
         let index = index as usize;
 
-        // Get a raw pointer directly, rather than boxing it, as its owned by the `SynchronousMessage`
-        // and will be cleaned up when the `SynchronousMessage` is cleaned up.
         let provider_state = message
             .provider_states
             .get(index)
             .ok_or(anyhow!("index is out of bounds"))?;
 
-        provider_state as *const ProviderState
+        ptr::raw_to(provider_state.clone()) as *const ProviderState
     } {
         std::ptr::null_mut()
     }
-- 
2.43.0


From fa773e64cbbe7bf2f8b760f5b8cd0436239accb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:48:46 +0000
Subject: [PATCH 106/116] fix: contents set through the C API are copied, the
 model kept using the caller's memory

---
 rust/pact_ffi/src/models/async_message.rs    | 4 ++--
 rust/pact_ffi/src/models/contents.rs         | 4 ++--
 rust/pact_ffi/src/models/http_interaction.rs | 8 ++++----
 rust/pact_ffi/src/models/message.rs          | 4 ++--
 rust/pact_ffi/src/models/sync_message.rs     | 8 ++++----
 5 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/rust/pact_ffi/src/models/async_message.rs b/rust/pact_ffi/src/models/async_message.rs
index dc446e7..e84554e 100644
--- a/rust/pact_ffi/src/models/async_message.rs
+++ b/rust/pact_ffi/src/models/async_message.rs
@@ -160,7 +160,7 @@ ffi_fn! {
     } else {
       let contents = safe_str!(contents);
       let content_type = optional_str(content_type).map(|ct| ContentType::parse(ct.as_str()).ok()).flatten();
-      message.contents.contents = OptionalBody::Present(Bytes::from(contents), content_type, Some(ContentTypeHint::TEXT));
+      message.contents.contents = OptionalBody::Present(Bytes::copy_from_slice(contents.as_bytes()), content_type, Some(ContentTypeHint::TEXT));
     }
   }
 }
@@ -242,7 +242,7 @@ ffi_fn! {
       message.contents.contents = OptionalBody::Null;
     } else {
       let slice = unsafe { std::slice::from_raw_parts(contents, len) };
-      let contents = Bytes::from(slice);
+      let contents = Bytes::copy_from_slice(slice);
       let content_type = optional_str(content_type).map(|ct| ContentType::parse(ct.as_str()).ok()).flatten();
       message.contents.contents = OptionalBody::Present(contents, content_type, Some(ContentTypeHint::BINARY));
     }
diff --git a/rust/pact_ffi/src/models/contents.rs b/rust/pact_ffi/src/models/contents.rs
index 7868d43..5d7651b 100644
--- a/rust/pact_ffi/src/models/contents.rs
+++ b/rust/pact_ffi/src/models/contents.rs
@@ -91,7 +91,7 @@ ffi_fn! {
     } else {
       let contents_str = safe_str!(contents_str);
       let content_type = optional_str(content_type).map(|ct| ContentType::parse(ct.as_str()).ok()).flatten();
-      contents.contents = OptionalBody::Present(Bytes::from(contents_str), content_type, Some(ContentTypeHint::TEXT));
+      contents.contents = OptionalBody::Present(Bytes::copy_from_slice(contents_str.as_bytes()), content_type, Some(ContentTypeHint::TEXT));
     }
   }
 }
@@ -173,7 +173,7 @@ ffi_fn! {
       contents.contents = OptionalBody::Null;
     } else {
       let slice = unsafe { std::slice::from_raw_parts(contents_bin, len) };
-      let contents_bytes = Bytes::from(slice);
+      let contents_bytes = Bytes::copy_from_slice(slice);
       let content_type = optional_str(content_type).map(|ct| ContentType::parse(ct.as_str()).ok()).flatten();
       contents.contents = OptionalBody::Present(contents_bytes, content_type, Some(ContentTypeHint::BINARY));
     }
diff --git a/rust/pact_ffi/src/models/http_interaction.rs b/rust/pact_ffi/src/models/http_interaction.rs
index a70b6ee..d868aca 100644
--- a/rust/pact_ffi/src/models/http_interaction.rs
+++ b/rust/pact_ffi/src/models/http_interaction.rs
@@ -124,7 +124,7 @@ ffi_fn! {
     } else {
       let contents = safe_str!(contents);
       let content_type = optional_str(content_type).map(|ct| ContentType::parse(ct.as_str()).ok()).flatten();
-      interaction.request.body = OptionalBody::Present(Bytes::from(contents), content_type, Some(ContentTypeHint::TEXT));
+      interaction.request.body = OptionalBody::Present(Bytes::copy_from_slice(contents.as_bytes()), content_type, Some(ContentTypeHint::TEXT));
     }
   }
 }
@@ -206,7 +206,7 @@ ffi_fn! {
       interaction.request.body = OptionalBody::Null;
     } else {
       let slice = unsafe { std::slice::from_raw_parts(contents, len) };
-      let contents = Bytes::from(slice);
+      let contents = Bytes::copy_from_slice(slice);
       let content_type = optional_str(content_type).map(|ct| ContentType::parse(ct.as_str()).ok()).flatten();
       interaction.request.body = OptionalBody::Present(contents, content_type, Some(ContentTypeHint::BINARY));
     }
@@ -298,7 +298,7 @@ ffi_fn! {
     } else {
       let contents = safe_str!(contents);
       let content_type = optional_str(content_type).map(|ct| ContentType::parse(ct.as_str()).ok()).flatten();
-      interaction.response.body = OptionalBody::Present(Bytes::from(contents), content_type, Some(ContentTypeHint::TEXT));
+      interaction.response.body = OptionalBody::Present(Bytes::copy_from_slice(contents.as_bytes()), content_type, Some(ContentTypeHint::TEXT));
     }
   }
 }
@@ -380,7 +380,7 @@ ffi_fn! {
       interaction.response.body = OptionalBody::Null;
     } else {
       let slice = unsafe { std::slice::from_raw_parts(contents, len) };
-      let contents = Bytes::from(slice);
+      let contents = Bytes::copy_from_slice(slice);
       let content_type = optional_str(content_type).map(|ct| ContentType::parse(ct.as_str()).ok()).flatten();
       interaction.response.body = OptionalBody::Present(contents, content_type, Some(ContentTypeHint::BINARY));
     }
diff --git a/rust/pact_ffi/src/models/message.rs b/rust/pact_ffi/src/models/message.rs
index c36cd85..166b48a 100644
--- a/rust/pact_ffi/src/models/message.rs
+++ b/rust/pact_ffi/src/models/message.rs
@@ -207,7 +207,7 @@ ffi_fn! {
     } else {
       let contents = safe_str!(contents);
       let content_type = optional_str(content_type).map(|ct| ContentType::parse(ct.as_str()).ok()).flatten();
-      message.contents = OptionalBody::Present(Bytes::from(contents), content_type, Some(ContentTypeHint::TEXT));
+      message.contents = OptionalBody::Present(Bytes::copy_from_slice(contents.as_bytes()), content_type, Some(ContentTypeHint::TEXT));
     }
   }
 }
@@ -279,7 +279,7 @@ ffi_fn! {
       message.contents = OptionalBody::Null;
     } else {
       let slice = unsafe { std::slice::from_raw_parts(contents, len) };
-      let contents = Bytes::from(slice);
+      let contents = Bytes::copy_from_slice(slice);
       let content_type = optional_str(content_type).map(|ct| ContentType::parse(ct.as_str()).ok()).flatten();
       message.contents = OptionalBody::Present(contents, content_type, Some(ContentTypeHint::BINARY));
     }
diff --git a/rust/pact_ffi/src/models/sync_message.rs b/rust/pact_ffi/src/models/sync_message.rs
index 4d7be5a..3b62606 100644
--- a/rust/pact_ffi/src/models/sync_message.rs
+++ b/rust/pact_ffi/src/models/sync_message.rs
@@ -106,7 +106,7 @@ ffi_fn! {
     } else {
       let contents = safe_str!(contents);
       let content_type = optional_str(content_type).map(|ct| ContentType::parse(ct.as_str()).ok()).flatten();
-      message.request.contents = OptionalBody::Present(Bytes::from(contents), content_type, Some(ContentTypeHint::TEXT));
+      message.request.contents = OptionalBody::Present(Bytes::copy_from_slice(contents.as_bytes()), content_type, Some(ContentTypeHint::TEXT));
     }
   }
 }
@@ -188,7 +188,7 @@ ffi_fn! {
       message.request.contents = OptionalBody::Null;
     } else {
       let slice = unsafe { std::slice::from_raw_parts(contents, len) };
-      let contents = Bytes::from(slice);
+      let contents = Bytes::copy_from_slice(slice);
       let content_type = optional_str(content_type).map(|ct| ContentType::parse(ct.as_str()).ok()).flatten();
       message.request.contents = OptionalBody::Present(contents, content_type, Some(ContentTypeHint::BINARY));
     }
@@ -347,7 +347,7 @@ ffi_fn! {
     } else {
       let contents = safe_str!(contents);
       let content_type = optional_str(content_type).map(|ct| ContentType::parse(ct.as_str()).ok()).flatten();
-      response.contents = OptionalBody::Present(Bytes::from(contents), content_type, Some(ContentTypeHint::TEXT));
+      response.contents = OptionalBody::Present(Bytes::copy_from_slice(contents.as_bytes()), content_type, Some(ContentTypeHint::TEXT));
     }
   }
 }
@@ -447,7 +447,7 @@ ffi_fn! {
       response.contents = OptionalBody::Null;
     } else {
       let slice = unsafe { std::slice::from_raw_parts(contents, len) };
-      let contents = Bytes::from(slice);
+      let contents = Bytes::copy_from_slice(slice);
       let content_type = optional_str(content_type).map(|ct| ContentType::parse(ct.as_str()).ok()).flatten();
       response.contents = OptionalBody::Present(contents, content_type, Some(ContentTypeHint::BINARY));
     }
-- 
2.43.0


From 1935f9f4baca04d0409f10c95342c233629bd81a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:50:38 +0000
Subject: [PATCH 107/116] fix: the strings of a provider state parameter pair
 are released with it

---
 rust/pact_ffi/src/models/provider_state.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/rust/pact_ffi/src/models/provider_state.rs b/rust/pact_ffi/src/models/provider_state.rs
index 3697536..a738973 100644
--- a/rust/pact_ffi/src/models/provider_state.rs
+++ b/rust/pact_ffi/src/models/provider_state.rs
@@ -169,3 +169,11 @@ impl ProviderStateParamPair {
         })
     }
 }
+
+// Ensure that the owned strings are freed when the pair is dropped.
+impl Drop for ProviderStateParamPair {
+    fn drop(&mut self) {
+        string::pactffi_string_delete(self.key as *mut c_char);
+        string::pactffi_string_delete(self.value as *mut c_char);
+    }
+}
-- 
2.43.0


From 534e38e74b49b2fceaf7afa520a3464dbe6e2fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:26 +0000
Subject: [PATCH 108/116] fix: matching two messages through the C API does not
 free the caller's messages

---
 rust/pact_ffi/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rust/pact_ffi/src/lib.rs b/rust/pact_ffi/src/lib.rs
index 683e256..535dcaa 100644
--- a/rust/pact_ffi/src/lib.rs
+++ b/rust/pact_ffi/src/lib.rs
@@ -196,8 +196,8 @@ ffi_fn! {
     /// Match a pair of messages, producing a collection of mismatches,
     /// which is empty if the two messages matched.
     fn pactffi_match_message(msg_1: *const Message, msg_2: *const Message) -> *const Mismatches {
-        let msg_1: Box<dyn Interaction + Send + Sync + RefUnwindSafe> = unsafe { Box::from_raw(msg_1 as *mut Message) };
-        let msg_2: Box<dyn Interaction + Send + Sync + RefUnwindSafe> = unsafe { Box::from_raw(msg_2 as *mut Message) };
+        let msg_1: Box<dyn Interaction + Send + Sync + RefUnwindSafe> = Box::new(as_ref!(msg_1).clone());
+        let msg_2: Box<dyn Interaction + Send + Sync + RefUnwindSafe> = Box::new(as_ref!(msg_2).clone());
 
         let mismatches = RUNTIME.block_on(async move {
             // TODO: match_message also requires the Pact that the messages belong to
-- 
2.43.0


From bc388b7371027e066d5940d1b51761671305435a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:54 +0000
Subject: [PATCH 109/116] fix: deleting nothing through the C API does nothing

---
 rust/pact_ffi/src/util/ptr.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rust/pact_ffi/src/util/ptr.rs b/rust/pact_ffi/src/util/ptr.rs
index 73da66e..a4e5e01 100644
--- a/rust/pact_ffi/src/util/ptr.rs
+++ b/rust/pact_ffi/src/util/ptr.rs
@@ -16,10 +16,12 @@ pub(crate) fn raw_to<T>(value: T) -> *mut T {
     Box::into_raw(Box::new(value))
 }
 
-/// Drop the value pointed to by a raw pointer.
+/// Drop the value pointed to by a raw pointer. Does nothing if the pointer is NULL.
 #[inline]
 pub(crate) fn drop_raw<T>(raw: *mut T) {
-    mem::drop(unsafe { Box::from_raw(raw) })
+    if !raw.is_null() {
+        mem::drop(unsafe { Box::from_raw(raw) })
+    }
 }
 
 /// Get an immutable reference from a raw pointer
-- 
2.43.0


From ee335c9ce7aa456e916f1f65cd42c804f452dc9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:56:18 +0000
Subject: [PATCH 110/116] fix: the excess of an error message buffer is zeroed,
 as documented

---
 rust/pact_ffi/src/util/write.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/rust/pact_ffi/src/util/write.rs b/rust/pact_ffi/src/util/write.rs
index 03b23f5..7a426f2 100644
--- a/rust/pact_ffi/src/util/write.rs
+++ b/rust/pact_ffi/src/util/write.rs
@@ -70,10 +70,8 @@ impl<'a> ZeroizedWrite for &'a mut [u8] {
         // Write the buffer.
         let bytes = self.write(buf)?;
 
-        // Check if there's a remainder and zeroize if there is.
-        if let Some(remainder) = self.get_mut(buf.len()..) {
-            remainder.iter_mut().zeroize();
-        }
+        // Writing to the slice advances it, so what is left of it is the remainder to zeroize.
+        self.iter_mut().zeroize();
 
         Ok(bytes)
     }
-- 
2.43.0


From cadbac500394f4a54d79971045d92a8ea1160250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:17 +0000
Subject: [PATCH 111/116] fix: the value of a C function that fails is made
 only when it fails, its strings leaked

---
 rust/pact_ffi/src/util/ffi.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/pact_ffi/src/util/ffi.rs b/rust/pact_ffi/src/util/ffi.rs
index 7a7f99f..c6e4387 100644
--- a/rust/pact_ffi/src/util/ffi.rs
+++ b/rust/pact_ffi/src/util/ffi.rs
@@ -20,7 +20,7 @@ macro_rules! ffi_fn {
                 ::tracing::trace!("@param {} = {:?}", stringify!($arg), $arg);
             )*
 
-            let output = catch_panic(|| Ok($body)).unwrap_or($fail);
+            let output = catch_panic(|| Ok($body)).unwrap_or_else(|| $fail);
 
             ::tracing::trace!(output = ?output, "{} FFI function completed", stringify!($name));
 
-- 
2.43.0


From 5f8005cb16f660ee95454e045a07dfe931e9f178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:59:14 +0000
Subject: [PATCH 112/116] fix: store the content type of a synchronous message
 response under contentType

---
 rust/pact_consumer/src/builders/sync_message_builder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/pact_consumer/src/builders/sync_message_builder.rs b/rust/pact_consumer/src/builders/sync_message_builder.rs
index a8ab98b..1cf1002 100644
--- a/rust/pact_consumer/src/builders/sync_message_builder.rs
+++ b/rust/pact_consumer/src/builders/sync_message_builder.rs
@@ -513,7 +513,7 @@ impl SyncMessageInteractionBuilder {
     );
     let mut metadata = hashmap!{};
     if let Some(content_type) = content_type {
-      metadata.insert(" contentType".to_string(), Value::String(content_type.clone()));
+      metadata.insert("contentType".to_string(), Value::String(content_type.clone()));
     }
     let response = InteractionContents {
       part_name: "response".to_string(),
-- 
2.43.0


From 2a32223be6f911d029dfc7cc4a5790199c2610b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:59:14 +0000
Subject: [PATCH 113/116] fix: synchronous message responses keep their own
 generators

---
 rust/pact_consumer/src/builders/sync_message_builder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/pact_consumer/src/builders/sync_message_builder.rs b/rust/pact_consumer/src/builders/sync_message_builder.rs
index 1cf1002..bac47d7 100644
--- a/rust/pact_consumer/src/builders/sync_message_builder.rs
+++ b/rust/pact_consumer/src/builders/sync_message_builder.rs
@@ -176,7 +176,7 @@ impl SyncMessageInteractionBuilder {
           contents: contents.body.clone(),
           metadata: contents.metadata.as_ref().cloned().unwrap_or_default(),
           matching_rules: rules,
-          generators: self.request_contents.generators.as_ref().cloned().unwrap_or_default()
+          generators: contents.generators.as_ref().cloned().unwrap_or_default()
         }
       }).collect(),
       comments: hashmap!{
-- 
2.43.0


From 746a38f8782ca7bdc9aca7925fe550114176b5a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:59:14 +0000
Subject: [PATCH 114/116] fix: message builder keeps the metadata matching
 rules of the contents

---
 rust/pact_consumer/src/builders/message_builder.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rust/pact_consumer/src/builders/message_builder.rs b/rust/pact_consumer/src/builders/message_builder.rs
index 8106ca4..f58d282 100644
--- a/rust/pact_consumer/src/builders/message_builder.rs
+++ b/rust/pact_consumer/src/builders/message_builder.rs
@@ -212,6 +212,8 @@ impl MessageInteractionBuilder {
     let mut rules = MatchingRules::default();
     rules.add_category("body")
       .add_rules(self.message_contents.rules.as_ref().cloned().unwrap_or_default());
+    rules.add_category("metadata")
+      .add_rules(self.message_contents.metadata_rules.as_ref().cloned().unwrap_or_default());
 
     #[allow(unused_mut, unused_assignments)] let mut plugin_config = hashmap!{};
     #[cfg(feature = "plugins")]
@@ -264,6 +266,8 @@ impl MessageInteractionBuilder {
     let mut rules = MatchingRules::default();
     rules.add_category("body")
       .add_rules(self.message_contents.rules.as_ref().cloned().unwrap_or_default());
+    rules.add_category("metadata")
+      .add_rules(self.message_contents.metadata_rules.as_ref().cloned().unwrap_or_default());
 
     let metadata = self.message_contents.metadata.as_ref()
       .map(|md| md.iter().map(|(k, v)| (k.clone(), v.clone())).collect())
-- 
2.43.0


From df578f7990b07a5b54b6176e6ea771e965059cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:59:14 +0000
Subject: [PATCH 115/116] fix: message iterators work outside a Tokio runtime
 and in a single threaded one

---
 .../src/builders/message_iter.rs              | 107 +++++++-----------
 1 file changed, 42 insertions(+), 65 deletions(-)

diff --git a/rust/pact_consumer/src/builders/message_iter.rs b/rust/pact_consumer/src/builders/message_iter.rs
index d1a6b34..bfd26ea 100644
--- a/rust/pact_consumer/src/builders/message_iter.rs
+++ b/rust/pact_consumer/src/builders/message_iter.rs
@@ -1,8 +1,11 @@
 use std::collections::VecDeque;
 use std::env;
+use std::future::Future;
 use std::panic::RefUnwindSafe;
 use std::path::PathBuf;
-use std::sync::mpsc::channel;
+use std::thread;
+
+use anyhow::anyhow;
 use itertools::Itertools;
 
 use maplit::hashmap;
@@ -14,8 +17,7 @@ use pact_models::prelude::v4::V4Pact;
 use pact_models::v4::async_message::AsynchronousMessage;
 use pact_models::v4::sync_message::SynchronousMessage;
 use pact_models::v4::V4InteractionType;
-use tokio::runtime::Handle;
-use tracing::{debug, error, info, warn};
+use tracing::{debug, error, info};
 
 use pact_matching::generators::{apply_generators_to_sync_message, generate_message};
 
@@ -27,6 +29,23 @@ pub struct MessageIterator<MT> {
   output_dir: Option<PathBuf>,
 }
 
+/// Runs the task to completion on another thread, so that it neither depends on nor blocks the
+/// Tokio runtime (if any) the test is running in.
+fn run_to_completion<F>(task: F) -> anyhow::Result<F::Output>
+  where
+    F: Future + Send + 'static,
+    F::Output: Send + 'static
+{
+  thread::spawn(move || {
+    tokio::runtime::Builder::new_current_thread()
+      .enable_all()
+      .build()
+      .map(|runtime| runtime.block_on(task))
+  }).join()
+    .map_err(|_| anyhow!("The task panicked"))?
+    .map_err(|err| anyhow!("Could not start a Tokio runtime for running async tasks: {}", err))
+}
+
 /// Construct a new iterator over the asynchronous messages in the pact
 pub fn asynchronous_messages_iter(pact: V4Pact, output_dir: &Option<PathBuf>) -> MessageIterator<AsynchronousMessage> {
   MessageIterator {
@@ -46,46 +65,21 @@ pub fn synchronous_messages_iter(pact: V4Pact, output_dir: &Option<PathBuf>) ->
     .map(|item| item.as_v4_sync_message().unwrap())
     .collect_vec();
 
-  let (sx, rx) = channel();
-  match Handle::try_current() {
-    Ok(handle) => {
-      let messages_to_generate = original_messages.clone();
-      handle.spawn(async move {
-        let mut messages = vec![];
-        for message in messages_to_generate {
-          let (req, res) = apply_generators_to_sync_message(&message, &GeneratorTestMode::Consumer, &hashmap! {}, &vec![], &hashmap! {}).await;
-          messages.push(SynchronousMessage {
-            request: req,
-            response: res,
-            ..      message
-          });
-        }
-        let _ = sx.send(messages);
-      })
-    },
-    Err(err) => {
-      warn!("Could not access the Tokio runtime, will start a new one: {}", err);
-      let messages_to_generate = original_messages.clone();
-      tokio::runtime::Builder::new_multi_thread()
-        .enable_all()
-        .build()
-        .expect("Could not start a Tokio runtime for running async tasks")
-        .spawn(async move {
-          let mut messages = vec![];
-          for message in messages_to_generate {
-            let (req, res) = apply_generators_to_sync_message(&message, &GeneratorTestMode::Consumer, &hashmap! {}, &vec![], &hashmap! {}).await;
-            messages.push(SynchronousMessage {
-              request: req,
-              response: res,
-              ..       message
-            });
-          }
-          let _ = sx.send(messages);
-        })
+  let messages_to_generate = original_messages.clone();
+  let generated = run_to_completion(async move {
+    let mut messages = vec![];
+    for message in messages_to_generate {
+      let (req, res) = apply_generators_to_sync_message(&message, &GeneratorTestMode::Consumer, &hashmap! {}, &vec![], &hashmap! {}).await;
+      messages.push(SynchronousMessage {
+        request: req,
+        response: res,
+        ..      message
+      });
     }
-  };
+    messages
+  });
 
-  let message_list = match rx.recv() {
+  let message_list = match generated {
     Ok(messages) => messages,
     Err(err) => {
       error!("Was not able to apply generators to the messages: {}", err);
@@ -104,34 +98,17 @@ pub fn synchronous_messages_iter(pact: V4Pact, output_dir: &Option<PathBuf>) ->
 // TODO: This needs a mechanism to pass in the test context and plugin data
 pub fn messages_iter(pact: MessagePact, output_dir: &Option<PathBuf>) -> MessageIterator<Message> {
   let original_messages = pact.messages.clone();
-  let (sx, rx) = channel();
-  match Handle::try_current() {
-    Ok(handle) => handle.spawn(async move {
-      let mut messages = VecDeque::new();
-      for message in original_messages {
-        messages.push_back(generate_message(&message, &GeneratorTestMode::Consumer, &hashmap!{}, &vec![], &hashmap!{}).await);
-      }
-      let _ = sx.send(messages);
-    }),
-    Err(err) => {
-      warn!("Could not access the Tokio runtime, will start a new one: {}", err);
-      tokio::runtime::Builder::new_multi_thread()
-        .enable_all()
-        .build()
-        .expect("Could not start a Tokio runtime for running async tasks")
-        .spawn(async move {
-          let mut messages = VecDeque::new();
-          for message in original_messages {
-            messages.push_back(generate_message(&message, &GeneratorTestMode::Consumer, &hashmap!{}, &vec![], &hashmap!{}).await);
-          }
-          let _ = sx.send(messages);
-        })
+  let message_list = run_to_completion(async move {
+    let mut messages = VecDeque::new();
+    for message in original_messages {
+      messages.push_back(generate_message(&message, &GeneratorTestMode::Consumer, &hashmap!{}, &vec![], &hashmap!{}).await);
     }
-  };
+    messages
+  }).expect("Did not receive any messages");
 
   MessageIterator {
     pact: pact.boxed(),
-    message_list: rx.recv().expect("Did not receive any messages"),
+    message_list,
     output_dir: output_dir.clone()
   }
 }
-- 
2.43.0


From 8dc9d119a662e86af489d77a81babef6da9fb47b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:59:14 +0000
Subject: [PATCH 116/116] fix: apply generators to the asynchronous messages of
 a V4 pact

---
 .../src/builders/message_iter.rs              | 37 ++++++++++++++++---
 1 file changed, 32 insertions(+), 5 deletions(-)

diff --git a/rust/pact_consumer/src/builders/message_iter.rs b/rust/pact_consumer/src/builders/message_iter.rs
index bfd26ea..32c5466 100644
--- a/rust/pact_consumer/src/builders/message_iter.rs
+++ b/rust/pact_consumer/src/builders/message_iter.rs
@@ -19,7 +19,11 @@ use pact_models::v4::sync_message::SynchronousMessage;
 use pact_models::v4::V4InteractionType;
 use tracing::{debug, error, info};
 
-use pact_matching::generators::{apply_generators_to_sync_message, generate_message};
+use pact_matching::generators::{
+  apply_generators_to_async_message,
+  apply_generators_to_sync_message,
+  generate_message
+};
 
 /// Iterator over the messages build with the PactBuilder
 pub struct MessageIterator<MT> {
@@ -48,12 +52,35 @@ fn run_to_completion<F>(task: F) -> anyhow::Result<F::Output>
 
 /// Construct a new iterator over the asynchronous messages in the pact
 pub fn asynchronous_messages_iter(pact: V4Pact, output_dir: &Option<PathBuf>) -> MessageIterator<AsynchronousMessage> {
+  let original_messages = pact.filter_interactions(V4InteractionType::Asynchronous_Messages)
+    .iter()
+    .map(|item| item.as_v4_async_message().unwrap())
+    .collect_vec();
+
+  let messages_to_generate = original_messages.clone();
+  let generated = run_to_completion(async move {
+    let mut messages = vec![];
+    for message in messages_to_generate {
+      let contents = apply_generators_to_async_message(&message, &GeneratorTestMode::Consumer, &hashmap! {}, &vec![], &hashmap! {}).await;
+      messages.push(AsynchronousMessage {
+        contents,
+        ..      message
+      });
+    }
+    messages
+  });
+
+  let message_list = match generated {
+    Ok(messages) => messages,
+    Err(err) => {
+      error!("Was not able to apply generators to the messages: {}", err);
+      original_messages
+    }
+  };
+
   MessageIterator {
     pact: pact.boxed(),
-    message_list: pact.filter_interactions(V4InteractionType::Asynchronous_Messages)
-      .iter()
-      .map(|item| item.as_v4_async_message().unwrap())
-      .collect(),
+    message_list: message_list.into(),
     output_dir: output_dir.clone()
   }
 }
-- 
2.43.0

