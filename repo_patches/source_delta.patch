From 76bb17d4a5166eb19f5ee1079282eb0e69ec4458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:59 +0000
Subject: [PATCH 01/37] fix: cubic interactions with a repeated namespace skip
 by the middle feature

When the last two namespaces are the same, the innermost loop has to start at
the position of the second feature. Starting at that of the first one lost
combinations for (a, b, b) and repeated them for (a, a, a).
---
 reductionml-core/src/weights.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/reductionml-core/src/weights.rs b/reductionml-core/src/weights.rs
index ed44568..46f0d18 100644
--- a/reductionml-core/src/weights.rs
+++ b/reductionml-core/src/weights.rs
@@ -64,12 +64,14 @@ macro_rules! generate_foreach_feature_func {
                         let halfhash1 =
                             (FNV_PRIME as u64).wrapping_mul(u32::from(feat1.0) as u64) as u32;
                         if let Some(ns2) = features.get_namespace(*ns2) {
-                            for feat2 in ns2.iter().skip(if same_ns { i } else { 0 }) {
+                            for (j, feat2) in
+                                ns2.iter().enumerate().skip(if same_ns { i } else { 0 })
+                            {
                                 let halfhash2 = (FNV_PRIME as u64)
                                     .wrapping_mul((halfhash1 ^ u32::from(feat2.0)) as u64)
                                     as u32;
                                 if let Some(ns3) = features.get_namespace(*ns3) {
-                                    for feat3 in ns3.iter().skip(if same_ns2 { i } else { 0 }) {
+                                    for feat3 in ns3.iter().skip(if same_ns2 { j } else { 0 }) {
                                         let idx = FeatureHash::from(halfhash2 ^ u32::from(feat3.0))
                                             .mask(masker);
                                         let model_weight =
-- 
2.43.0


From 8beb0ed38a946c2a78048061cdfce19095a5e950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:59 +0000
Subject: [PATCH 02/37] fix: SparseFeaturesNamespace::reserve underflows on a
 recycled container

The capacity of a recycled namespace can exceed the requested size.
---
 reductionml-core/src/sparse_namespaced_features.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reductionml-core/src/sparse_namespaced_features.rs b/reductionml-core/src/sparse_namespaced_features.rs
index d9490b4..7201a30 100644
--- a/reductionml-core/src/sparse_namespaced_features.rs
+++ b/reductionml-core/src/sparse_namespaced_features.rs
@@ -130,9 +130,9 @@ impl SparseFeaturesNamespace {
 
     pub fn reserve(&mut self, size: usize) {
         self.feature_indices
-            .reserve_exact(size - self.feature_indices.capacity());
+            .reserve_exact(size.saturating_sub(self.feature_indices.len()));
         self.feature_values
-            .reserve(size - self.feature_values.capacity());
+            .reserve(size.saturating_sub(self.feature_values.len()));
     }
 
     pub fn add_feature(&mut self, feature_index: FeatureIndex, feature_value: f32) {
-- 
2.43.0


From 1cc08db1651b6364ac444751cd3b72bddea803f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:59 +0000
Subject: [PATCH 03/37] fix: namespaces without features do not make feature
 sets different

Appending and removing the shared features deactivates a namespace that was
present but empty, which made the debug check of every reduction panic although
no feature had changed.
---
 .../src/sparse_namespaced_features.rs            | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/reductionml-core/src/sparse_namespaced_features.rs b/reductionml-core/src/sparse_namespaced_features.rs
index 7201a30..4b92ddd 100644
--- a/reductionml-core/src/sparse_namespaced_features.rs
+++ b/reductionml-core/src/sparse_namespaced_features.rs
@@ -221,14 +221,26 @@ impl AbsDiffEq for SparseFeatures {
         let left_ns: BTreeSet<Namespace> = self
             .namespaces
             .iter()
-            .filter_map(|(ns, ns_vals)| if ns_vals.is_active() { Some(ns) } else { None })
+            .filter_map(|(ns, ns_vals)| {
+                if ns_vals.is_active() && ns_vals.size() > 0 {
+                    Some(ns)
+                } else {
+                    None
+                }
+            })
             .cloned()
             .collect();
 
         let right_ns = other
             .namespaces
             .iter()
-            .filter_map(|(ns, ns_vals)| if ns_vals.is_active() { Some(ns) } else { None })
+            .filter_map(|(ns, ns_vals)| {
+                if ns_vals.is_active() && ns_vals.size() > 0 {
+                    Some(ns)
+                } else {
+                    None
+                }
+            })
             .cloned()
             .collect();
         if left_ns != right_ns {
-- 
2.43.0


From 4de245a73292ac5e09ad83786f9964f0da503936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:59 +0000
Subject: [PATCH 04/37] fix: importance weighted learning works without shared
 features

It was not implemented. The features are now put together as they are for
predicting, so that interactions within a namespace see the same order.
---
 reductionml-core/src/reductions/cb_adf.rs | 27 ++++++++++-------------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/reductionml-core/src/reductions/cb_adf.rs b/reductionml-core/src/reductions/cb_adf.rs
index 1c0fac5..d547c20 100644
--- a/reductionml-core/src/reductions/cb_adf.rs
+++ b/reductionml-core/src/reductions/cb_adf.rs
@@ -201,21 +201,18 @@ impl ReductionImpl for CBAdfReduction {
                     * (self.mtr_state.event_sum as f32 / self.mtr_state.action_sum as f32);
 
                 let simple_label = SimpleLabel::new(cost, weight);
-                match cb_adf_features.shared.as_mut() {
-                    Some(shared_feats) => {
-                        let action = cb_adf_features.actions.get(cb_label.action).unwrap();
-                        shared_feats.append(action);
-                        self.regressor.learn(
-                            &mut Features::SparseSimpleRef(shared_feats),
-                            &simple_label.into(),
-                            depth_info,
-                            0.into(),
-                        );
-                        shared_feats.remove(action);
-                    }
-                    None => {
-                        todo!()
-                    }
+                let action = cb_adf_features.actions.get_mut(cb_label.action).unwrap();
+                if let Some(shared_feats) = &cb_adf_features.shared {
+                    action.append(shared_feats);
+                }
+                self.regressor.learn(
+                    &mut Features::SparseSimpleRef(action),
+                    &simple_label.into(),
+                    depth_info,
+                    0.into(),
+                );
+                if let Some(shared_feats) = &cb_adf_features.shared {
+                    action.remove(shared_feats);
                 }
             }
         }
-- 
2.43.0


From cea76fb5c756cfb0e7a2e43eee4c9f62a68634ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:52 +0000
Subject: [PATCH 05/37] fix: positional features of a namespace with a hash
 close to the maximum

The addition overflowed: a panic in debug builds, and no features for JSON
arrays otherwise.
---
 reductionml-core/src/inverse_hash_table.rs  | 2 +-
 reductionml-core/src/parsers.rs             | 2 +-
 reductionml-core/src/parsers/json_parser.rs | 5 +++--
 3 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/reductionml-core/src/inverse_hash_table.rs b/reductionml-core/src/inverse_hash_table.rs
index eda9277..6672d3a 100644
--- a/reductionml-core/src/inverse_hash_table.rs
+++ b/reductionml-core/src/inverse_hash_table.rs
@@ -48,7 +48,7 @@ impl Feature {
             }
             Feature::Anonymous { namespace, offset } => {
                 let namespace_hash = hash_bytes(namespace.as_bytes(), hash_seed);
-                (namespace_hash + offset).into()
+                namespace_hash.wrapping_add(*offset).into()
             }
             // In a very cool property hashing of the interacted feature does not need to take into account bit masking until the very end
             // In fact, the produced result is idenitical if interim values are masked or just the final value.
diff --git a/reductionml-core/src/parsers.rs b/reductionml-core/src/parsers.rs
index 9850247..e8f55a8 100644
--- a/reductionml-core/src/parsers.rs
+++ b/reductionml-core/src/parsers.rs
@@ -26,7 +26,7 @@ impl<'a> ParsedFeature<'a> {
                 let name_key_hash = hash_bytes(name.as_bytes(), *namespace_hash);
                 FeatureHash::from(hash_bytes(value.as_bytes(), name_key_hash))
             }
-            ParsedFeature::Anonymous { offset } => (*namespace_hash + offset).into(),
+            ParsedFeature::Anonymous { offset } => namespace_hash.wrapping_add(*offset).into(),
         }
     }
 }
diff --git a/reductionml-core/src/parsers/json_parser.rs b/reductionml-core/src/parsers/json_parser.rs
index b11fb4d..8f0bc85 100644
--- a/reductionml-core/src/parsers/json_parser.rs
+++ b/reductionml-core/src/parsers/json_parser.rs
@@ -28,8 +28,9 @@ pub fn to_features(
                     Value::Str(_) => todo!(),
                     Value::Array(ar) => match ar.first() {
                         Some(Value::Number(_)) => {
-                            let it = (u32::from(ns_hash)..(u32::from(ns_hash) + ar.len() as u32))
-                                .map(|x| FeatureHash::from(x).mask(mask));
+                            let it = (0..ar.len() as u32).map(|x| {
+                                FeatureHash::from(u32::from(ns_hash).wrapping_add(x)).mask(mask)
+                            });
                             ns.add_features_with_iter(
                                 it,
                                 ar.iter().map(|x| {
-- 
2.43.0


From 3bb76b70acf0d42322a74e97cea7bd3b53da7eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:30 +0000
Subject: [PATCH 06/37] fix: the JSON parser reports bad examples instead of
 panicking

Malformed JSON, missing features, values of the wrong type and bad labels are
errors now; an empty array is a namespace without features.
---
 reductionml-core/src/parsers/json_parser.rs | 83 +++++++++++++--------
 1 file changed, 52 insertions(+), 31 deletions(-)

diff --git a/reductionml-core/src/parsers/json_parser.rs b/reductionml-core/src/parsers/json_parser.rs
index 8f0bc85..9718eb2 100644
--- a/reductionml-core/src/parsers/json_parser.rs
+++ b/reductionml-core/src/parsers/json_parser.rs
@@ -1,6 +1,6 @@
-use core::{f32, panic};
+use core::f32;
 
-use crate::error::Result;
+use crate::error::{Error, Result};
 
 use crate::object_pool::Pool;
 use crate::parsers::ParsedFeature;
@@ -17,7 +17,7 @@ pub fn to_features(
     mut output: SparseFeatures,
     hash_seed: u32,
     num_bits: u8,
-) -> SparseFeatures {
+) -> Result<SparseFeatures> {
     match val {
         Value::Object(obj) => {
             for (ns_name, value) in obj {
@@ -25,32 +25,32 @@ pub fn to_features(
                 let ns_hash = ns.namespace().hash();
                 let mask = FeatureMask::from_num_bits(num_bits);
                 match value {
-                    Value::Str(_) => todo!(),
                     Value::Array(ar) => match ar.first() {
                         Some(Value::Number(_)) => {
                             let it = (0..ar.len() as u32).map(|x| {
                                 FeatureHash::from(u32::from(ns_hash).wrapping_add(x)).mask(mask)
                             });
-                            ns.add_features_with_iter(
-                                it,
-                                ar.iter().map(|x| {
-                                    x.as_f64().expect("Arrays must contain the same type") as f32
-                                }),
-                            );
+                            let values = ar
+                                .iter()
+                                .map(|x| x.as_f64().map(|x| x as f32).ok_or_else(mixed_array))
+                                .collect::<Result<Vec<f32>>>()?;
+                            ns.add_features_with_iter(it, values.into_iter());
                         }
                         Some(Value::Str(_)) => {
                             ns.reserve(ar.len());
                             for string in ar {
                                 let feat = ParsedFeature::Simple {
-                                    name: string
-                                        .as_str()
-                                        .expect("Arrays must contain the same type"),
+                                    name: string.as_str().ok_or_else(mixed_array)?,
                                 };
                                 ns.add_feature(feat.hash(ns_hash).mask(mask), 1.0);
                             }
                         }
-                        Some(_) => panic!("Not a number or string"),
-                        None => todo!(),
+                        Some(_) => {
+                            return Err(Error::ParserError(
+                                "Arrays must contain numbers or strings".to_owned(),
+                            ))
+                        }
+                        None => (),
                     },
 
                     Value::Object(contents) => {
@@ -75,17 +75,33 @@ pub fn to_features(
                                         ns.add_feature(feat.hash(ns_hash).mask(mask), 1.0);
                                     }
                                 }
-                                _ => todo!(),
+                                _ => {
+                                    return Err(Error::ParserError(format!(
+                                        "Feature {key} must be a number, string or boolean"
+                                    )))
+                                }
                             }
                         }
                     }
-                    _ => todo!(),
+                    _ => {
+                        return Err(Error::ParserError(format!(
+                            "Namespace {ns_name} must be an object or an array"
+                        )))
+                    }
                 }
             }
         }
-        _ => panic!("Not an object"),
+        _ => {
+            return Err(Error::ParserError(
+                "Features must be an object of namespaces".to_owned(),
+            ))
+        }
     }
-    output
+    Ok(output)
+}
+
+fn mixed_array() -> Error {
+    Error::ParserError("Arrays must contain the same type".to_owned())
 }
 
 #[derive(Default)]
@@ -123,30 +139,34 @@ impl<'a, 'b> JsonParser {
     fn parse_features(&self, json_input: &'a Value) -> Result<Features<'b>> {
         match self.features_type {
             FeaturesType::SparseSimple => match json_input.get("features") {
-                Value::Null => panic!("No features found"),
+                Value::Null => Err(Error::ParserError("No features found".to_owned())),
                 val => Ok(
-                    to_features(val, self.pool.get_object(), self.hash_seed, self.num_bits).into(),
+                    to_features(val, self.pool.get_object(), self.hash_seed, self.num_bits)?.into(),
                 ),
             },
             FeaturesType::SparseCBAdf => {
                 let shared = match json_input.get("shared") {
                     Value::Null => None,
                     val => {
-                        let feats =
-                            to_features(val, self.pool.get_object(), self.hash_seed, self.num_bits);
+                        let feats = to_features(
+                            val,
+                            self.pool.get_object(),
+                            self.hash_seed,
+                            self.num_bits,
+                        )?;
                         Some(feats)
                     }
                 };
 
                 let actions = match json_input.get("actions") {
-                    Value::Null => panic!("No actions found"),
+                    Value::Null => return Err(Error::ParserError("No actions found".to_owned())),
                     Value::Array(val) => val
                         .iter()
                         .map(|x| {
                             to_features(x, self.pool.get_object(), self.hash_seed, self.num_bits)
                         })
-                        .collect(),
-                    _ => panic!("Actions must be an array"),
+                        .collect::<Result<_>>()?,
+                    _ => return Err(Error::ParserError("Actions must be an array".to_owned())),
                 };
 
                 Ok(CBAdfFeatures { shared, actions }.into())
@@ -163,17 +183,18 @@ impl JsonParser {
                 Value::Number(val) => Some(SimpleLabel::from(val.as_f64().unwrap() as f32)),
                 val => {
                     let l: SimpleLabel =
-                        serde_json::from_value(serde_json::Value::from(val.clone())).unwrap();
+                        serde_json::from_value(serde_json::Value::from(val.clone()))?;
                     Some(l)
                 }
             }
             .map(Into::into)),
-            LabelType::Binary => todo!(),
+            LabelType::Binary => Err(Error::ParserError(
+                "Binary labels are not supported".to_owned(),
+            )),
             LabelType::CB => Ok(match json_input.get("label") {
                 Value::Null => None,
                 val => {
-                    let l: CBLabel =
-                        serde_json::from_value(serde_json::Value::from(val.clone())).unwrap();
+                    let l: CBLabel = serde_json::from_value(serde_json::Value::from(val.clone()))?;
                     Some(l.into())
                 }
             }),
@@ -196,7 +217,7 @@ impl TextModeParser for JsonParser {
     }
 
     fn parse_chunk<'a, 'b>(&self, chunk: &'a str) -> Result<(Features<'b>, Option<Label>)> {
-        let json: Value = serde_json::from_str(chunk).expect("JSON was not well-formatted");
+        let json: Value = serde_json::from_str(chunk)?;
         let features = self.parse_features(&json)?;
         let label = self.parse_label(&json)?;
         Ok((features, label))
-- 
2.43.0


From 4f339ace1b01e221d587ab8bb29590866b136451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:30 +0000
Subject: [PATCH 07/37] fix: the weight of a JSON label is optional

---
 reductionml-core/src/types.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/reductionml-core/src/types.rs b/reductionml-core/src/types.rs
index a7cb81a..b250f36 100644
--- a/reductionml-core/src/types.rs
+++ b/reductionml-core/src/types.rs
@@ -78,9 +78,14 @@ pub enum PredictionType {
 #[derive(Clone, Copy, Debug, Serialize, Deserialize)]
 pub struct SimpleLabel {
     value: f32,
+    #[serde(default = "default_weight")]
     weight: f32,
 }
 
+fn default_weight() -> f32 {
+    1.0
+}
+
 impl SimpleLabel {
     pub fn new(value: f32, weight: f32) -> Self {
         SimpleLabel { value, weight }
-- 
2.43.0


From dfe315ed8138f4cacdf2ffefaff3be24a093c49b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:24 +0000
Subject: [PATCH 08/37] fix: the DsJson parser reports bad examples instead of
 panicking

---
 reductionml-core/src/parsers/dsjson_parser.rs | 62 +++++++++++--------
 1 file changed, 37 insertions(+), 25 deletions(-)

diff --git a/reductionml-core/src/parsers/dsjson_parser.rs b/reductionml-core/src/parsers/dsjson_parser.rs
index 90fe366..5e670a3 100644
--- a/reductionml-core/src/parsers/dsjson_parser.rs
+++ b/reductionml-core/src/parsers/dsjson_parser.rs
@@ -2,7 +2,7 @@ use core::f32;
 
 use serde_json_borrow::Value;
 
-use crate::error::Result;
+use crate::error::{Error, Result};
 
 use crate::object_pool::Pool;
 use crate::parsers::ParsedFeature;
@@ -59,19 +59,17 @@ impl DsJsonParser {
         object_key: &str,
         json_value: &Value,
         namespace_stack: &mut Vec<Namespace>,
-    ) {
+    ) -> Result<()> {
         // All underscore prefixed keys are ignored.
         if object_key.starts_with('_') {
-            return;
+            return Ok(());
         }
 
         // skip everything with _
         match json_value {
-            Value::Null => panic!("Null is not supported"),
+            Value::Null => return Err(Error::ParserError("Null is not supported".to_owned())),
             Value::Bool(true) => {
-                let current_ns = *namespace_stack
-                    .last()
-                    .expect("namespace stack should not be empty here");
+                let current_ns = *namespace_stack.last().ok_or_else(not_an_object)?;
                 let current_ns_hash = current_ns.hash();
                 let current_feats = features.get_or_create_namespace(current_ns);
                 current_feats.add_feature(
@@ -83,9 +81,7 @@ impl DsJsonParser {
             }
             Value::Bool(false) => (),
             Value::Number(value) => {
-                let current_ns = *namespace_stack
-                    .last()
-                    .expect("namespace stack should not be empty here");
+                let current_ns = *namespace_stack.last().ok_or_else(not_an_object)?;
                 let current_ns_hash = current_ns.hash();
                 let current_feats = features.get_or_create_namespace(current_ns);
                 current_feats.add_feature(
@@ -96,9 +92,7 @@ impl DsJsonParser {
                 );
             }
             Value::Str(value) => {
-                let current_ns = namespace_stack
-                    .last()
-                    .expect("namespace stack should not be empty here");
+                let current_ns = namespace_stack.last().ok_or_else(not_an_object)?;
                 let current_ns_hash = current_ns.hash();
                 let current_feats = features.get_or_create_namespace(*current_ns);
                 current_feats.add_feature(
@@ -133,14 +127,16 @@ impl DsJsonParser {
                             );
                         }
                         Value::Object(_) => {
-                            self.handle_features(features, object_key, v, namespace_stack);
+                            self.handle_features(features, object_key, v, namespace_stack)?;
                         }
                         // Just ignore null and do nothing
                         Value::Null => (),
-                        _ => panic!(
-                            "Array of non-number or object is not supported key:{} value:{:?}",
-                            object_key, v
-                        ),
+                        _ => {
+                            return Err(Error::ParserError(format!(
+                                "Array of non-number or object is not supported key:{} value:{:?}",
+                                object_key, v
+                            )))
+                        }
                     }
                 }
                 namespace_stack.pop().unwrap();
@@ -148,14 +144,19 @@ impl DsJsonParser {
             Value::Object(value) => {
                 namespace_stack.push(Namespace::from_name(object_key, self.hash_seed));
                 for (key, v) in value {
-                    self.handle_features(features, key, v, namespace_stack);
+                    self.handle_features(features, key, v, namespace_stack)?;
                 }
                 namespace_stack.pop().unwrap();
             }
         }
+        Ok(())
     }
 }
 
+fn not_an_object() -> Error {
+    Error::ParserError("Features must be inside of an object".to_owned())
+}
+
 impl TextModeParser for DsJsonParser {
     fn get_next_chunk(
         &self,
@@ -171,18 +172,23 @@ impl TextModeParser for DsJsonParser {
     }
 
     fn parse_chunk<'a, 'b>(&self, chunk: &'a str) -> Result<(Features<'b>, Option<Label>)> {
-        let json: Value = serde_json::from_str(chunk).expect("JSON was not well-formatted");
+        let json: Value = serde_json::from_str(chunk)?;
 
         let mut namespace_stack = Vec::new();
 
         let mut shared_ex = self.pool.get_object();
-        self.handle_features(&mut shared_ex, " ", json.get("c"), &mut namespace_stack);
+        self.handle_features(&mut shared_ex, " ", json.get("c"), &mut namespace_stack)?;
         assert!(namespace_stack.is_empty());
 
         let mut actions = Vec::new();
-        for item in json.get("c").get("_multi").iter_array().unwrap() {
+        for item in json
+            .get("c")
+            .get("_multi")
+            .iter_array()
+            .ok_or_else(|| Error::ParserError("No actions found in _multi".to_owned()))?
+        {
             let mut action = self.pool.get_object();
-            self.handle_features(&mut action, " ", item, &mut namespace_stack);
+            self.handle_features(&mut action, " ", item, &mut namespace_stack)?;
             actions.push(action);
             assert!(namespace_stack.is_empty());
         }
@@ -193,12 +199,18 @@ impl TextModeParser for DsJsonParser {
             json.get("_labelIndex"),
         ) {
             (Value::Number(cost), Value::Number(prob), Value::Number(action)) => Some(CBLabel {
-                action: action.as_u64().unwrap() as usize,
+                action: action.as_u64().ok_or_else(|| {
+                    Error::ParserError("The label index must be a non-negative integer".to_owned())
+                })? as usize,
                 cost: cost.as_f64().unwrap() as f32,
                 probability: prob.as_f64().unwrap() as f32,
             }),
             (Value::Null, Value::Null, Value::Null) => None,
-            _ => panic!("Invalid label, all 3 or none must be present"),
+            _ => {
+                return Err(Error::ParserError(
+                    "Invalid label, all 3 or none must be present".to_owned(),
+                ))
+            }
         };
 
         Ok((
-- 
2.43.0


From 57c8420a8b150983c7d712ad82967c6dbe922b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:23 +0000
Subject: [PATCH 09/37] fix: the VW text parser reports bad examples instead of
 panicking

---
 .../src/parsers/vw_text_parser.rs             | 76 ++++++++++++-------
 1 file changed, 48 insertions(+), 28 deletions(-)

diff --git a/reductionml-core/src/parsers/vw_text_parser.rs b/reductionml-core/src/parsers/vw_text_parser.rs
index fbe7fc2..a293b54 100644
--- a/reductionml-core/src/parsers/vw_text_parser.rs
+++ b/reductionml-core/src/parsers/vw_text_parser.rs
@@ -50,18 +50,23 @@ fn finalize_parsed_result_singleline<'a>(
     parsed: TextParseResult,
     _num_bits: u8,
     dest: SparseFeatures,
-) -> (Features<'a>, Option<Label>) {
+) -> Result<(Features<'a>, Option<Label>)> {
     let hashed_sparse_features = Features::SparseSimple(dest);
-    match parsed.label {
+    let result = match parsed.label {
         // TODO fix
         Some(TextLabel::Simple(x, weight)) => (
             hashed_sparse_features,
             Some(Label::Simple(SimpleLabel::new(x, weight.unwrap_or(1.0)))),
         ),
         // TODO binary
-        Some(_) => todo!(),
+        Some(_) => {
+            return Err(Error::ParserError(
+                "Expected a simple label for a single line example".to_owned(),
+            ))
+        }
         None => (hashed_sparse_features, None),
-    }
+    };
+    Ok(result)
 }
 
 fn finalize_parsed_result_multiline<'a, 'b, T, U>(
@@ -87,7 +92,6 @@ where
                 .expect("Label should be CB");
             let first_is_shared = first_label.shared;
 
-            // TODO assert not more than 1 is shared.
             let shared_ex = if first_is_shared {
                 // Consume shared token
                 txt_labels_iter.next();
@@ -100,6 +104,11 @@ where
             let mut label: Option<CBLabel> = None;
             for (counter, action_label) in txt_labels_iter.enumerate() {
                 let lbl: &CBTextLabel = action_label.as_inner().expect("Label should be CB");
+                if lbl.shared {
+                    return Err(Error::InvalidArgument(
+                        "Only the first line can be the shared example".to_owned(),
+                    ));
+                }
                 if let Some((_a, c, p)) = lbl.acp {
                     if label.is_some() {
                         return Err(Error::InvalidArgument(
@@ -132,23 +141,31 @@ struct TextParseResult<'a> {
     label: Option<TextLabel>,
 }
 
+fn parse_label_number(token: &str) -> Result<f32> {
+    fast_float::parse(token)
+        .map_err(|err| Error::ParserError(format!("Failed to parse label '{}': {}", token, err)))
+}
+
 fn parse_label(tokens: &[&str], label_type: LabelType) -> Result<Option<TextLabel>> {
     match label_type {
         LabelType::Simple => match tokens.len() {
             0 => Ok(None),
             1 => Ok(Some(TextLabel::Simple(
-                fast_float::parse(tokens[0]).unwrap(),
+                parse_label_number(tokens[0])?,
                 None,
             ))),
             2 => Ok(Some(TextLabel::Simple(
-                fast_float::parse(tokens[0]).unwrap(),
-                Some(fast_float::parse(tokens[1]).unwrap()),
+                parse_label_number(tokens[0])?,
+                Some(parse_label_number(tokens[1])?),
             ))),
             // Initial not currently supported...
-            3 => todo!(),
-            _ => todo!(),
+            _ => Err(Error::ParserError(
+                "A simple label consists of a value and an optional weight".to_owned(),
+            )),
         },
-        LabelType::Binary => todo!(),
+        LabelType::Binary => Err(Error::ParserError(
+            "Binary labels are not supported by the text format".to_owned(),
+        )),
         LabelType::CB => match tokens.iter().next() {
             None => Ok(Some(TextLabel::CB(CBTextLabel {
                 shared: false,
@@ -160,9 +177,20 @@ fn parse_label(tokens: &[&str], label_type: LabelType) -> Result<Option<TextLabe
             }))),
             Some(value) => {
                 let mut tokens = value.split(':');
-                let action = tokens.next().unwrap().parse().unwrap();
-                let cost = fast_float::parse(tokens.next().unwrap()).unwrap();
-                let probability = fast_float::parse(tokens.next().unwrap()).unwrap();
+                let mut next_token = || {
+                    tokens.next().ok_or_else(|| {
+                        Error::ParserError(format!(
+                            "Expected 'shared' or action:cost:probability but got '{}'",
+                            value
+                        ))
+                    })
+                };
+                let action_token = next_token()?;
+                let action = action_token.parse().map_err(|err| {
+                    Error::ParserError(format!("Failed to parse label '{}': {}", action_token, err))
+                })?;
+                let cost = parse_label_number(next_token()?)?;
+                let probability = parse_label_number(next_token()?)?;
 
                 // TODO: check that there are no more tokens
 
@@ -238,15 +266,11 @@ fn parse_namespace_inline(
         // Anonymous namespace
         (" ", 1.0)
     } else {
-        let namespace_info_token = tokens.next().unwrap();
-        let mut namespace_info_tokens = namespace_info_token.split(':');
-        let name = namespace_info_tokens.next().unwrap();
-        let value = match namespace_info_tokens.next() {
-            Some(value) => fast_float::parse(value).unwrap(),
-            None => 1.0,
-        };
-
-        (name, value)
+        match tokens.next() {
+            Some(namespace_info_token) => parse_namespace_info_token(namespace_info_token)?,
+            // There is nothing in this segment, so no name and no features.
+            None => return Ok(()),
+        }
     };
 
     let namespace_def = Namespace::from_name(namespace_name, hash_seed);
@@ -485,11 +509,7 @@ impl TextModeParser for VwTextParser {
                 self.hash_seed,
                 self.num_bits,
             )?;
-            Ok(finalize_parsed_result_singleline(
-                result,
-                self.num_bits,
-                dest,
-            ))
+            finalize_parsed_result_singleline(result, self.num_bits, dest)
         }
     }
 
-- 
2.43.0


From 02c10d079f5951807ac9a0d58d1965d4bab28413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:10 +0000
Subject: [PATCH 10/37] fix: feature name extraction covers every namespace of
 a text example

---
 .../src/parsers/vw_text_parser.rs             | 82 ++++++++++---------
 1 file changed, 45 insertions(+), 37 deletions(-)

diff --git a/reductionml-core/src/parsers/vw_text_parser.rs b/reductionml-core/src/parsers/vw_text_parser.rs
index a293b54..eb3322a 100644
--- a/reductionml-core/src/parsers/vw_text_parser.rs
+++ b/reductionml-core/src/parsers/vw_text_parser.rs
@@ -1,4 +1,5 @@
 use core::f32;
+use std::collections::HashMap;
 
 use derive_more::TryInto;
 
@@ -304,37 +305,49 @@ fn parse_namespace_info_token(namespace_segment: &str) -> Result<(&str, f32)> {
     Ok((name, value))
 }
 
-// "Consumes" some amount of input and returns the namespace info and the remaining input
-fn parse_namespace_info(input: &str) -> Result<(&str, (ParsedNamespaceInfo, f32))> {
+// "Consumes" some amount of input and returns the namespace info and the remaining input.
+// None if the segment is empty and so there is no namespace.
+fn parse_namespace_info(input: &str) -> Result<Option<(&str, (ParsedNamespaceInfo, f32))>> {
     let first_char_is_space = input.starts_with(' ');
     // Extract up until the first space
     if first_char_is_space {
-        Ok((&input[1..], (ParsedNamespaceInfo::Default, 1.0)))
-    } else {
-        let input_until_first_space = input.find(' ').unwrap();
-        let namespace_info_token = &input[..input_until_first_space];
-        let (ns_name, ns_value) = parse_namespace_info_token(namespace_info_token)?;
-        Ok((
-            &input[input_until_first_space..],
-            (ParsedNamespaceInfo::Named(ns_name), ns_value),
-        ))
+        return Ok(Some((&input[1..], (ParsedNamespaceInfo::Default, 1.0))));
     }
-}
 
-fn extract_namespace_features(
-    namespace_segment: &str,
-) -> Result<(ParsedNamespaceInfo, Vec<ParsedFeature>)> {
-    let (remaining, (namespace_name, _namespace_value)) = parse_namespace_info(namespace_segment)?;
+    let input = input.trim_start_matches(|c: char| c.is_ascii_whitespace());
+    if input.is_empty() {
+        return Ok(None);
+    }
+    let name_end = input
+        .find(|c: char| c.is_ascii_whitespace())
+        .unwrap_or(input.len());
+    let (ns_name, ns_value) = parse_namespace_info_token(&input[..name_end])?;
+    Ok(Some((
+        &input[name_end..],
+        (ParsedNamespaceInfo::Named(ns_name), ns_value),
+    )))
+}
 
-    let tokens = remaining.split_ascii_whitespace();
-    let mut offset_counter = 0;
-    let extracted_featrues = tokens
-        .map(|x| {
-            let (feat, _value) = parse_feature(x, &mut offset_counter);
-            feat
-        })
-        .collect();
-    Ok((namespace_name, extracted_featrues))
+fn extract_line_features<'a>(
+    line: &'a str,
+    dest: &mut HashMap<ParsedNamespaceInfo<'a>, Vec<ParsedFeature<'a>>>,
+) -> Result<()> {
+    let mut segments = line.split('|');
+    let _label_section = segments.next().unwrap();
+    for segment in segments {
+        if let Some((remaining, (namespace_name, _namespace_value))) =
+            parse_namespace_info(segment)?
+        {
+            // The same namespace may appear several times.
+            let features = dest.entry(namespace_name).or_default();
+            let mut offset_counter = 0;
+            for token in remaining.split_ascii_whitespace() {
+                let (feature, _value) = parse_feature(token, &mut offset_counter);
+                features.push(feature);
+            }
+        }
+    }
+    Ok(())
 }
 
 // TODO revisit this function. Scanning to the last character is not ideal since it is linear time.
@@ -516,21 +529,16 @@ impl TextModeParser for VwTextParser {
     fn extract_feature_names<'a>(
         &self,
         chunk: &'a str,
-    ) -> Result<std::collections::HashMap<ParsedNamespaceInfo<'a>, Vec<ParsedFeature<'a>>>> {
+    ) -> Result<HashMap<ParsedNamespaceInfo<'a>, Vec<ParsedFeature<'a>>>> {
+        let mut features = HashMap::new();
         if self.is_multiline() {
-            chunk
-                .lines()
-                .flat_map(|line| {
-                    let mut segments = line.split('|');
-                    let _label_section = segments.next().unwrap();
-                    segments.map(extract_namespace_features)
-                })
-                .collect()
+            for line in chunk.lines() {
+                extract_line_features(line, &mut features)?;
+            }
         } else {
-            let mut segments = chunk.split('|');
-            let _label_section = segments.next().unwrap();
-            segments.map(extract_namespace_features).collect()
+            extract_line_features(chunk, &mut features)?;
         }
+        Ok(features)
     }
 }
 
-- 
2.43.0


From 4f22b03be88d4a0016f763a6133290c74239a0a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:12 +0000
Subject: [PATCH 11/37] fix: inverse hash table hashes features of the default
 namespace like the parsers

---
 reductionml-core/src/inverse_hash_table.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/reductionml-core/src/inverse_hash_table.rs b/reductionml-core/src/inverse_hash_table.rs
index 6672d3a..57559c3 100644
--- a/reductionml-core/src/inverse_hash_table.rs
+++ b/reductionml-core/src/inverse_hash_table.rs
@@ -3,6 +3,7 @@ use serde::{Deserialize, Serialize};
 use crate::{
     hash::{hash_bytes, FNV_PRIME},
     parsers::ParsedFeature,
+    sparse_namespaced_features::Namespace,
     FeatureHash, FeatureIndex,
 };
 
@@ -34,7 +35,7 @@ impl Feature {
     pub fn hash(&self, hash_seed: u32) -> FeatureHash {
         match &self {
             Feature::Simple { namespace, name } => {
-                let namespace_hash = hash_bytes(namespace.as_bytes(), hash_seed);
+                let namespace_hash = *Namespace::from_name(namespace, hash_seed).hash();
                 hash_bytes(name.as_bytes(), namespace_hash).into()
             }
             Feature::SimpleWithStringValue {
@@ -42,12 +43,12 @@ impl Feature {
                 name,
                 value,
             } => {
-                let namespace_hash = hash_bytes(namespace.as_bytes(), hash_seed);
+                let namespace_hash = *Namespace::from_name(namespace, hash_seed).hash();
                 let name_key_hash = hash_bytes(name.as_bytes(), namespace_hash);
                 hash_bytes(value.as_bytes(), name_key_hash).into()
             }
             Feature::Anonymous { namespace, offset } => {
-                let namespace_hash = hash_bytes(namespace.as_bytes(), hash_seed);
+                let namespace_hash = *Namespace::from_name(namespace, hash_seed).hash();
                 namespace_hash.wrapping_add(*offset).into()
             }
             // In a very cool property hashing of the interacted feature does not need to take into account bit masking until the very end
-- 
2.43.0


From 0d38fa91a56f00a32fcc90a6ea06758e0e23695a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:27 +0000
Subject: [PATCH 12/37] fix: elementwise interaction handles missing namespaces
 and wrapped positions

---
 .../src/reductions/elementwise_interaction.rs | 59 +++++++++++++------
 1 file changed, 40 insertions(+), 19 deletions(-)

diff --git a/reductionml-core/src/reductions/elementwise_interaction.rs b/reductionml-core/src/reductions/elementwise_interaction.rs
index 11f8136..92f19f5 100644
--- a/reductionml-core/src/reductions/elementwise_interaction.rs
+++ b/reductionml-core/src/reductions/elementwise_interaction.rs
@@ -123,6 +123,10 @@ impl ReductionFactory for ElementwiseInteractionFactory {
     }
 }
 
+fn position(index: FeatureIndex, base: FeatureIndex, mask: FeatureMask) -> FeatureIndex {
+    FeatureHash::from(u32::from(index).wrapping_sub(u32::from(base))).mask(mask)
+}
+
 fn elementwise_multiply(
     num_bits: u8,
     features: &SparseFeatures,
@@ -139,8 +143,13 @@ fn elementwise_multiply(
     let composite_base = FeatureHash::from(u32::from(composite_ns.hash())).mask(mask);
 
     let mut dest_iter = SparseFeaturesNamespace::new(composite_ns);
-    let mut ns_one_it = features.get_namespace(one).unwrap().iter();
-    let mut ns_two_it = features.get_namespace(two).unwrap().iter();
+    let (ns_one, ns_two) = match (features.get_namespace(one), features.get_namespace(two)) {
+        (Some(ns_one), Some(ns_two)) => (ns_one, ns_two),
+        // There are no products if one of them is missing.
+        _ => return (composite_ns, dest_iter),
+    };
+    let mut ns_one_it = ns_one.iter();
+    let mut ns_two_it = ns_two.iter();
     let mut cur_1 = ns_one_it.next();
     let mut cur_2 = ns_two_it.next();
     loop {
@@ -155,13 +164,13 @@ fn elementwise_multiply(
             }
         };
 
-        let idx1 = u32::from(idx1) - u32::from(base_one);
-        let idx2 = u32::from(idx2) - u32::from(base_two);
-
-        let dest_index = u32::from(composite_base) + idx1;
+        // The positions wrap around at the end of the index space.
+        let idx1 = position(idx1, base_one, mask);
+        let idx2 = position(idx2, base_two, mask);
 
         if idx1 == idx2 {
-            dest_iter.add_feature(dest_index.into(), val1 * val2);
+            let dest_hash = u32::from(composite_base).wrapping_add(u32::from(idx1));
+            dest_iter.add_feature(FeatureHash::from(dest_hash).mask(mask), val1 * val2);
             cur_1 = ns_one_it.next();
             cur_2 = ns_two_it.next();
         } else if idx1 < idx2 {
@@ -196,15 +205,19 @@ impl ReductionImpl for ElementwiseInteraction {
             sparse_feats.remove_namespace(composite_ns);
             pred
         } else {
-            let ns1 = sparse_feats.remove_namespace(self.pair.0).unwrap();
-            let ns2 = sparse_feats.remove_namespace(self.pair.1).unwrap();
+            let ns1 = sparse_feats.remove_namespace(self.pair.0);
+            let ns2 = sparse_feats.remove_namespace(self.pair.1);
             let pred = self
                 .regressor
                 .predict(&mut sparse_feats.into(), depth_info, 0.into());
             let sparse_feats: &mut SparseFeatures = features.as_inner_mut().unwrap();
             sparse_feats.remove_namespace(composite_ns);
-            sparse_feats.set_namespace(self.pair.0, ns1);
-            sparse_feats.set_namespace(self.pair.1, ns2);
+            if let Some(ns1) = ns1 {
+                sparse_feats.set_namespace(self.pair.0, ns1);
+            }
+            if let Some(ns2) = ns2 {
+                sparse_feats.set_namespace(self.pair.1, ns2);
+            }
             pred
         }
     }
@@ -233,8 +246,8 @@ impl ReductionImpl for ElementwiseInteraction {
             sparse_feats.remove_namespace(composite_ns);
             pred
         } else {
-            let ns1 = sparse_feats.remove_namespace(self.pair.0).unwrap();
-            let ns2 = sparse_feats.remove_namespace(self.pair.1).unwrap();
+            let ns1 = sparse_feats.remove_namespace(self.pair.0);
+            let ns2 = sparse_feats.remove_namespace(self.pair.1);
             let pred = self.regressor.predict_then_learn(
                 &mut sparse_feats.into(),
                 label,
@@ -243,8 +256,12 @@ impl ReductionImpl for ElementwiseInteraction {
             );
             let sparse_feats: &mut SparseFeatures = features.as_inner_mut().unwrap();
             sparse_feats.remove_namespace(composite_ns);
-            sparse_feats.set_namespace(self.pair.0, ns1);
-            sparse_feats.set_namespace(self.pair.1, ns2);
+            if let Some(ns1) = ns1 {
+                sparse_feats.set_namespace(self.pair.0, ns1);
+            }
+            if let Some(ns2) = ns2 {
+                sparse_feats.set_namespace(self.pair.1, ns2);
+            }
             pred
         }
     }
@@ -268,14 +285,18 @@ impl ReductionImpl for ElementwiseInteraction {
             let sparse_feats: &mut SparseFeatures = features.as_inner_mut().unwrap();
             sparse_feats.remove_namespace(composite_ns);
         } else {
-            let ns1 = sparse_feats.remove_namespace(self.pair.0).unwrap();
-            let ns2 = sparse_feats.remove_namespace(self.pair.1).unwrap();
+            let ns1 = sparse_feats.remove_namespace(self.pair.0);
+            let ns2 = sparse_feats.remove_namespace(self.pair.1);
             self.regressor
                 .learn(&mut sparse_feats.into(), label, depth_info, 0.into());
             let sparse_feats: &mut SparseFeatures = features.as_inner_mut().unwrap();
             sparse_feats.remove_namespace(composite_ns);
-            sparse_feats.set_namespace(self.pair.0, ns1);
-            sparse_feats.set_namespace(self.pair.1, ns2);
+            if let Some(ns1) = ns1 {
+                sparse_feats.set_namespace(self.pair.0, ns1);
+            }
+            if let Some(ns2) = ns2 {
+                sparse_feats.set_namespace(self.pair.1, ns2);
+            }
         }
     }
 
-- 
2.43.0


From 1ae62e00c3abdbbc0ffeb38e04dc2be40e6bf6df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:37 +0000
Subject: [PATCH 13/37] fix: a model that cannot be read is an error instead of
 a panic

---
 reductionml-core/src/dense_weights.rs | 149 +++++++++++++++++++-------
 reductionml-core/src/workspace.rs     |  40 +++----
 2 files changed, 132 insertions(+), 57 deletions(-)

diff --git a/reductionml-core/src/dense_weights.rs b/reductionml-core/src/dense_weights.rs
index cb0805a..e086bc7 100644
--- a/reductionml-core/src/dense_weights.rs
+++ b/reductionml-core/src/dense_weights.rs
@@ -1,7 +1,7 @@
 use std::collections::HashMap;
 
 use approx::AbsDiffEq;
-use serde::{Deserialize, Deserializer, Serialize, Serializer};
+use serde::{Deserialize, Serialize, Serializer};
 
 use crate::{
     error::{Error, Result},
@@ -13,12 +13,72 @@ fn num_bits_to_represent(val: u64) -> u64 {
     64 - val.leading_zeros() as u64
 }
 
+// The number of weights in the storage for the given sizes.
+fn storage_size(
+    feature_index_size: FeatureIndex,
+    model_index_size_shift: u8,
+    feature_state_size_shift: u8,
+) -> Result<usize> {
+    let feature_index_size_shift =
+        num_bits_to_represent((*feature_index_size as u64).checked_sub(1).ok_or_else(|| {
+            Error::InvalidArgument("There must be at least one weight".to_owned())
+        })?);
+    let total_shift =
+        feature_index_size_shift + model_index_size_shift as u64 + feature_state_size_shift as u64;
+    1_usize
+        .checked_shl(total_shift as u32)
+        .ok_or_else(|| Error::InvalidArgument("Too many weights".to_owned()))
+}
+
+fn allocate_weights(len: usize) -> Result<Vec<f32>> {
+    // Allocating too much aborts the process, so find out first if it is possible.
+    Vec::<f32>::new()
+        .try_reserve_exact(len)
+        .map_err(|e| Error::InvalidArgument(format!("Cannot allocate {} weights: {}", len, e)))?;
+    Ok(vec![0.0; len])
+}
+
+// What is stored of DenseWeights. It must be checked before it can be used.
+#[derive(Deserialize)]
+struct StoredDenseWeights {
+    weights: SparseF32Vec,
+    feature_index_size: FeatureIndex,
+    model_index_size: ModelIndex,
+    feature_state_size: StateIndex,
+    model_index_size_shift: u8,
+    feature_state_size_shift: u8,
+}
+
+impl TryFrom<StoredDenseWeights> for DenseWeights {
+    type Error = Error;
+
+    fn try_from(stored: StoredDenseWeights) -> Result<Self> {
+        let mut result = DenseWeights::new(
+            stored.feature_index_size,
+            stored.model_index_size,
+            stored.feature_state_size,
+        )?;
+        if result.model_index_size_shift != stored.model_index_size_shift
+            || result.feature_state_size_shift != stored.feature_state_size_shift
+            || result.weights.len() as u64 != stored.weights.len
+        {
+            return Err(Error::InvalidArgument(
+                "The sizes of the weights do not match".to_owned(),
+            ));
+        }
+        for (index, value) in stored.weights.non_zero_value_and_index_pairs {
+            *result.weights.get_mut(index).ok_or_else(|| {
+                Error::InvalidArgument(format!("Weight index {} is out of range", index))
+            })? = value;
+        }
+        Ok(result)
+    }
+}
+
 #[derive(Deserialize, Serialize, PartialEq, Debug, Clone)]
+#[serde(try_from = "StoredDenseWeights")]
 pub struct DenseWeights {
-    #[serde(
-        deserialize_with = "deserialize_sparse_f32_vec",
-        serialize_with = "serialize_sparse_f32_vec"
-    )]
+    #[serde(serialize_with = "serialize_sparse_f32_vec")]
     weights: Vec<f32>,
     // Max size of index
     feature_index_size: FeatureIndex,
@@ -106,6 +166,36 @@ impl DenseWeightsWithNDArray {
         }
     }
 
+    /// Checks that the listed weights fit to the sizes.
+    pub(crate) fn validate(&self) -> Result<()> {
+        let expected = DenseWeights::new(
+            self.feature_index_size,
+            self.model_index_size,
+            self.feature_state_size,
+        )?;
+        if expected.model_index_size_shift != self.model_index_size_shift
+            || expected.feature_state_size_shift != self.feature_state_size_shift
+        {
+            return Err(Error::InvalidArgument(
+                "The sizes of the weights do not match".to_owned(),
+            ));
+        }
+        for (feature_index, feature) in &self.weights {
+            if *feature_index >= self.feature_index_size
+                || feature.len() != *self.model_index_size as usize
+                || feature
+                    .iter()
+                    .any(|state| state.len() != *self.feature_state_size as usize)
+            {
+                return Err(Error::InvalidArgument(format!(
+                    "The weights of feature {} do not match the sizes",
+                    **feature_index
+                )));
+            }
+        }
+        Ok(())
+    }
+
     pub fn to_dense_weights(&self) -> DenseWeights {
         let feature_index_size_shift =
             num_bits_to_represent(*self.feature_index_size as u64 - 1) as usize;
@@ -158,14 +248,6 @@ impl SparseF32Vec {
             non_zero_value_and_index_pairs,
         }
     }
-
-    fn to_dense(&self) -> Vec<f32> {
-        let mut vec = vec![0.0; self.len as usize];
-        for (index, value) in self.non_zero_value_and_index_pairs.iter() {
-            vec[*index] = *value;
-        }
-        vec
-    }
 }
 
 fn serialize_sparse_f32_vec<S>(
@@ -179,14 +261,6 @@ where
     sparse_vec.serialize(serializer)
 }
 
-fn deserialize_sparse_f32_vec<'de, D>(deserializer: D) -> std::result::Result<Vec<f32>, D::Error>
-where
-    D: Deserializer<'de>,
-{
-    let sparse_vec = SparseF32Vec::deserialize(deserializer)?;
-    Ok(sparse_vec.to_dense())
-}
-
 impl DenseWeights {
     fn convert_index(
         &self,
@@ -208,28 +282,25 @@ impl DenseWeights {
         model_index_size: ModelIndex,
         feature_state_size: StateIndex,
     ) -> Result<DenseWeights> {
-        let feature_index_size_shift =
-            num_bits_to_represent(*feature_index_size as u64 - 1) as usize;
-        let model_index_size_shift = num_bits_to_represent(*model_index_size as u64 - 1) as usize;
-        let feature_state_size_shift =
-            num_bits_to_represent(*feature_state_size as u64 - 1) as usize;
-        assert!(feature_index_size_shift + model_index_size_shift + feature_state_size_shift <= 64);
-        let weights = vec![
-            0.0;
-            (1 << feature_index_size_shift)
-                * (1 << model_index_size_shift)
-                * (1 << feature_state_size_shift)
-        ];
+        let shift = |size: u8| match size.checked_sub(1) {
+            Some(max_index) => Ok(num_bits_to_represent(max_index as u64) as u8),
+            None => Err(Error::InvalidArgument(
+                "There must be at least one weight".to_owned(),
+            )),
+        };
+        let model_index_size_shift = shift(*model_index_size)?;
+        let feature_state_size_shift = shift(*feature_state_size)?;
         Ok(DenseWeights {
-            weights,
+            weights: allocate_weights(storage_size(
+                feature_index_size,
+                model_index_size_shift,
+                feature_state_size_shift,
+            )?)?,
             feature_index_size,
             model_index_size,
             feature_state_size,
-            // TODO better error message
-            model_index_size_shift: u8::try_from(model_index_size_shift)
-                .map_err(|e| Error::InvalidArgument(e.to_string()))?,
-            feature_state_size_shift: u8::try_from(feature_state_size_shift)
-                .map_err(|e| Error::InvalidArgument(e.to_string()))?,
+            model_index_size_shift,
+            feature_state_size_shift,
         })
     }
 }
diff --git a/reductionml-core/src/workspace.rs b/reductionml-core/src/workspace.rs
index e4e6ed1..ac0bfd6 100644
--- a/reductionml-core/src/workspace.rs
+++ b/reductionml-core/src/workspace.rs
@@ -66,7 +66,7 @@ impl TryInto<Configuration> for serde_yaml::Value {
 }
 
 // We need to search until we find an object with the keys weights, feature_index_size, model_index_size, feature_state_size, model_index_size_shift, feature_state_size_shift
-fn rewrite_json_ndarray_to_sparse(value: &mut serde_json::Value) {
+fn rewrite_json_ndarray_to_sparse(value: &mut serde_json::Value) -> Result<()> {
     match value {
         serde_json::Value::Object(map) => {
             if map.contains_key("weights")
@@ -76,24 +76,26 @@ fn rewrite_json_ndarray_to_sparse(value: &mut serde_json::Value) {
                 && map.contains_key("model_index_size_shift")
                 && map.contains_key("feature_state_size_shift")
             {
-                let wts: DenseWeightsWithNDArray = serde_json::from_value(value.clone()).unwrap();
-                *value = serde_json::to_value(wts.to_dense_weights()).unwrap();
-                return;
+                let wts: DenseWeightsWithNDArray = serde_json::from_value(value.clone())?;
+                wts.validate()?;
+                *value = serde_json::to_value(wts.to_dense_weights())?;
+                return Ok(());
             }
             for (_, v) in map {
-                rewrite_json_ndarray_to_sparse(v);
+                rewrite_json_ndarray_to_sparse(v)?;
             }
         }
         serde_json::Value::Array(vec) => {
             for v in vec {
-                rewrite_json_ndarray_to_sparse(v);
+                rewrite_json_ndarray_to_sparse(v)?;
             }
         }
         _ => (),
     }
+    Ok(())
 }
 
-fn rewrite_json_sparse_to_ndarray(value: &mut serde_json::Value) {
+fn rewrite_json_sparse_to_ndarray(value: &mut serde_json::Value) -> Result<()> {
     match value {
         serde_json::Value::Object(map) => {
             if map.contains_key("weights")
@@ -103,22 +105,22 @@ fn rewrite_json_sparse_to_ndarray(value: &mut serde_json::Value) {
                 && map.contains_key("model_index_size_shift")
                 && map.contains_key("feature_state_size_shift")
             {
-                let wts: DenseWeights = serde_json::from_value(value.clone()).unwrap();
-                *value =
-                    serde_json::to_value(DenseWeightsWithNDArray::from_dense_weights(wts)).unwrap();
-                return;
+                let wts: DenseWeights = serde_json::from_value(value.clone())?;
+                *value = serde_json::to_value(DenseWeightsWithNDArray::from_dense_weights(wts))?;
+                return Ok(());
             }
             for (_, v) in map {
-                rewrite_json_sparse_to_ndarray(v);
+                rewrite_json_sparse_to_ndarray(v)?;
             }
         }
         serde_json::Value::Array(vec) => {
             for v in vec {
-                rewrite_json_sparse_to_ndarray(v);
+                rewrite_json_sparse_to_ndarray(v)?;
             }
         }
         _ => (),
     }
+    Ok(())
 }
 
 impl Workspace {
@@ -139,8 +141,10 @@ impl Workspace {
 
     // TODO move to bincode or msgpack
     pub fn create_from_model(json: &[u8]) -> Result<Workspace> {
-        let r = flexbuffers::Reader::get_root(json).unwrap();
-        Ok(Workspace::deserialize(r).unwrap())
+        let r = flexbuffers::Reader::get_root(json)
+            .map_err(|e| Error::InvalidArgument(format!("Failed to read model: {e}")))?;
+        Workspace::deserialize(r)
+            .map_err(|e| Error::InvalidArgument(format!("Failed to read model: {e}")))
     }
 
     // TODO move to bincode or msgpack
@@ -152,8 +156,8 @@ impl Workspace {
 
     // experimental
     pub fn serialize_to_json(&self) -> Result<Value> {
-        let mut value = serde_json::to_value(self).unwrap();
-        rewrite_json_sparse_to_ndarray(&mut value);
+        let mut value = serde_json::to_value(self)?;
+        rewrite_json_sparse_to_ndarray(&mut value)?;
         Ok(value)
     }
 
@@ -162,7 +166,7 @@ impl Workspace {
         let mut value: serde_json::Value = serde_json::from_value(json.clone()).map_err(|e| {
             Error::InvalidConfiguration(format!("Failed to parse configuration: {e}"))
         })?;
-        rewrite_json_ndarray_to_sparse(&mut value);
+        rewrite_json_ndarray_to_sparse(&mut value)?;
         serde_json::from_value(value)
             .map_err(|e| Error::InvalidConfiguration(format!("Failed to parse model: {e}")))
     }
-- 
2.43.0


From 7c2f851c87ad61dadf4755718d64673647ad1230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:40 +0000
Subject: [PATCH 14/37] fix: numBits and interactions out of range are
 configuration errors

---
 reductionml-core/src/global_config.rs | 28 ++++++++++++++++++++++++++-
 reductionml-core/src/workspace.rs     |  1 +
 2 files changed, 28 insertions(+), 1 deletion(-)

diff --git a/reductionml-core/src/global_config.rs b/reductionml-core/src/global_config.rs
index c03b039..c6fe022 100644
--- a/reductionml-core/src/global_config.rs
+++ b/reductionml-core/src/global_config.rs
@@ -3,7 +3,13 @@ use schemars::JsonSchema;
 use serde::{Deserialize, Serialize};
 use serde_default::DefaultFromSerde;
 
-use crate::interactions::Interaction;
+use crate::{
+    error::{Error, Result},
+    interactions::Interaction,
+};
+
+/// Feature indices have 32 bits, and the number of features must be representable too.
+const MAX_NUM_BITS: u8 = 31;
 
 #[derive(Clone, Serialize, Deserialize, Debug, JsonSchema, DefaultFromSerde, Builder)]
 #[serde(rename_all = "camelCase")]
@@ -45,6 +51,26 @@ impl GlobalConfig {
         }
     }
 
+    /// Checks that all settings are in the supported range.
+    pub fn validate(&self) -> Result<()> {
+        if self.num_bits > MAX_NUM_BITS {
+            return Err(Error::InvalidConfiguration(format!(
+                "numBits must be at most {} but is {}",
+                MAX_NUM_BITS, self.num_bits
+            )));
+        }
+        if self
+            .interactions
+            .iter()
+            .any(|interaction| !matches!(interaction.len(), 2 | 3))
+        {
+            return Err(Error::InvalidConfiguration(
+                "Only interactions of two or three namespaces are supported".to_owned(),
+            ));
+        }
+        Ok(())
+    }
+
     pub fn num_bits(&self) -> u8 {
         self.num_bits
     }
diff --git a/reductionml-core/src/workspace.rs b/reductionml-core/src/workspace.rs
index ac0bfd6..c16bd9b 100644
--- a/reductionml-core/src/workspace.rs
+++ b/reductionml-core/src/workspace.rs
@@ -125,6 +125,7 @@ fn rewrite_json_sparse_to_ndarray(value: &mut serde_json::Value) -> Result<()> {
 
 impl Workspace {
     pub fn new(config: Configuration) -> Result<Workspace> {
+        config.global_config.validate()?;
         let reduction_config = crate::reduction_factory::parse_config(&config.entry_reduction)?;
         let entry_reduction = crate::reduction_factory::create_reduction(
             reduction_config.as_ref(),
-- 
2.43.0


From 28f2537ec4ae565ccc93c4cc87559033a6d8cd48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:43 +0000
Subject: [PATCH 15/37] fix: unknown settings next to a typename and of loss
 functions are rejected

---
 reductionml-core/src/loss_function/logistic_loss.rs | 1 +
 reductionml-core/src/loss_function/squared_loss.rs  | 1 +
 reductionml-core/src/reduction_factory.rs           | 1 +
 3 files changed, 3 insertions(+)

diff --git a/reductionml-core/src/loss_function/logistic_loss.rs b/reductionml-core/src/loss_function/logistic_loss.rs
index 1c15304..cf8e6fa 100644
--- a/reductionml-core/src/loss_function/logistic_loss.rs
+++ b/reductionml-core/src/loss_function/logistic_loss.rs
@@ -5,6 +5,7 @@ use serde_default::DefaultFromSerde;
 use crate::loss_function::LossFunctionImpl;
 
 #[derive(Clone, Copy, Debug, Serialize, Deserialize, JsonSchema, DefaultFromSerde)]
+#[serde(deny_unknown_fields)]
 pub struct LogisticLoss {
     #[serde(default = "default_min")]
     min_label: f32,
diff --git a/reductionml-core/src/loss_function/squared_loss.rs b/reductionml-core/src/loss_function/squared_loss.rs
index bbc16d0..6d354ca 100644
--- a/reductionml-core/src/loss_function/squared_loss.rs
+++ b/reductionml-core/src/loss_function/squared_loss.rs
@@ -4,6 +4,7 @@ use serde::{Deserialize, Serialize};
 use crate::loss_function::LossFunctionImpl;
 
 #[derive(Clone, Copy, Debug, Serialize, Deserialize, JsonSchema, Default)]
+#[serde(deny_unknown_fields)]
 pub struct SquaredLoss {}
 
 impl SquaredLoss {
diff --git a/reductionml-core/src/reduction_factory.rs b/reductionml-core/src/reduction_factory.rs
index c60046d..1dad0d5 100644
--- a/reductionml-core/src/reduction_factory.rs
+++ b/reductionml-core/src/reduction_factory.rs
@@ -18,6 +18,7 @@ use crate::{
 // Use gen_json_reduction_config_schema instead with schema_with
 #[derive(Clone, Deserialize, Serialize, Debug)]
 #[serde(rename_all = "camelCase")]
+#[serde(deny_unknown_fields)]
 pub struct JsonReductionConfig {
     typename: PascalCaseString,
     // TODO: ensure json schema reflects that this is option based on the below deserialize impl
-- 
2.43.0


From 9254b4f5ca37ac1ecc5c22aeb8cdbcfe05ba10c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:09 +0000
Subject: [PATCH 16/37] fix: an exploration mass outside of 0 to 1 is a
 configuration error

---
 reductionml-core/src/explore.rs                | 18 ++++++++++++------
 .../src/reductions/cb_explore_adf_greedy.rs    |  2 ++
 .../src/reductions/cb_explore_adf_softmax.rs   |  3 ++-
 .../src/reductions/cb_explore_adf_squarecb.rs  |  3 ++-
 4 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/reductionml-core/src/explore.rs b/reductionml-core/src/explore.rs
index 256e955..4105a45 100644
--- a/reductionml-core/src/explore.rs
+++ b/reductionml-core/src/explore.rs
@@ -1,5 +1,16 @@
 use crate::error::Result;
 
+/// An exploration mass must be a probability.
+pub(crate) fn check_epsilon(name: &str, epsilon: f32) -> Result<()> {
+    if epsilon < 0.0 || epsilon > 1.0 {
+        return Err(crate::error::Error::InvalidArgument(format!(
+            "{} must be in [0, 1], but is {}",
+            name, epsilon
+        )));
+    }
+    Ok(())
+}
+
 pub fn enforce_min_prob(
     uniform_epsilon: f32,
     consider_zero_valued_elements: bool,
@@ -15,12 +26,7 @@ pub fn enforce_min_prob(
         return Ok(());
     }
 
-    if uniform_epsilon < 0.0 || uniform_epsilon > 1.0 {
-        return Err(crate::error::Error::InvalidArgument(format!(
-            "uniform_epsilon must be in [0, 1], but is {}",
-            uniform_epsilon
-        )));
-    }
+    check_epsilon("uniform_epsilon", uniform_epsilon)?;
 
     let num_actions = elements.len();
     let support_size = if consider_zero_valued_elements {
diff --git a/reductionml-core/src/reductions/cb_explore_adf_greedy.rs b/reductionml-core/src/reductions/cb_explore_adf_greedy.rs
index 9b079fd..4705579 100644
--- a/reductionml-core/src/reductions/cb_explore_adf_greedy.rs
+++ b/reductionml-core/src/reductions/cb_explore_adf_greedy.rs
@@ -1,4 +1,5 @@
 use crate::error::Result;
+use crate::explore::check_epsilon;
 use crate::global_config::GlobalConfig;
 
 use crate::reduction::{
@@ -69,6 +70,7 @@ impl ReductionFactory for CBExploreAdfGreedyReductionFactory {
             .as_any()
             .downcast_ref::<CBExploreAdfGreedyConfig>()
             .unwrap();
+        check_epsilon("epsilon", config.epsilon)?;
         let cb_adf_config = crate::reduction_factory::parse_config(&config.cb_adf)?;
         let cb_adf: ReductionWrapper =
             create_reduction(cb_adf_config.as_ref(), global_config, num_models_above)?;
diff --git a/reductionml-core/src/reductions/cb_explore_adf_softmax.rs b/reductionml-core/src/reductions/cb_explore_adf_softmax.rs
index 84d5365..705ecc8 100644
--- a/reductionml-core/src/reductions/cb_explore_adf_softmax.rs
+++ b/reductionml-core/src/reductions/cb_explore_adf_softmax.rs
@@ -8,7 +8,7 @@ use crate::reduction_factory::{
     create_reduction, JsonReductionConfig, PascalCaseString, ReductionConfig, ReductionFactory,
 };
 
-use crate::explore::enforce_min_prob;
+use crate::explore::{check_epsilon, enforce_min_prob};
 use crate::{impl_default_factory_functions, types::*, ModelIndex};
 use schemars::schema::RootSchema;
 use schemars::{schema_for, JsonSchema};
@@ -78,6 +78,7 @@ impl ReductionFactory for CBExploreAdfSoftmaxReductionFactory {
             .as_any()
             .downcast_ref::<CBExploreAdfSoftmaxConfig>()
             .unwrap();
+        check_epsilon("uniformEpsilon", config.uniform_epsilon)?;
         let cb_adf_config = crate::reduction_factory::parse_config(&config.cb_adf)?;
         let cb_adf: ReductionWrapper =
             create_reduction(cb_adf_config.as_ref(), global_config, num_models_above)?;
diff --git a/reductionml-core/src/reductions/cb_explore_adf_squarecb.rs b/reductionml-core/src/reductions/cb_explore_adf_squarecb.rs
index c86a086..43ce712 100644
--- a/reductionml-core/src/reductions/cb_explore_adf_squarecb.rs
+++ b/reductionml-core/src/reductions/cb_explore_adf_squarecb.rs
@@ -16,7 +16,7 @@ use serde::{Deserialize, Serialize};
 use serde_default::DefaultFromSerde;
 use serde_json::json;
 
-use crate::explore::enforce_min_prob;
+use crate::explore::{check_epsilon, enforce_min_prob};
 
 use super::{CBAdfConfig, CBType};
 
@@ -87,6 +87,7 @@ impl ReductionFactory for CBExploreAdfSquareCBReductionFactory {
             .as_any()
             .downcast_ref::<CBExploreAdfSquareCBConfig>()
             .unwrap();
+        check_epsilon("uniformEpsilon", config.uniform_epsilon)?;
         let cb_adf_config = crate::reduction_factory::parse_config(&config.cb_adf)?;
         // Try checking for MTR
         if let Some(cfg) = cb_adf_config.as_any().downcast_ref::<CBAdfConfig>() {
-- 
2.43.0


From fe5654738a6bf2978870f075a9c7c81f2f2f6b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:30 +0000
Subject: [PATCH 17/37] fix: training reports errors instead of panicking or
 waiting forever

---
 reductionml-cli/src/train.rs | 74 ++++++++++++++++++++++--------------
 1 file changed, 46 insertions(+), 28 deletions(-)

diff --git a/reductionml-cli/src/train.rs b/reductionml-cli/src/train.rs
index 8107083..b72debb 100644
--- a/reductionml-cli/src/train.rs
+++ b/reductionml-cli/src/train.rs
@@ -5,6 +5,7 @@ use std::{
     cell::UnsafeCell,
     fs::File,
     io::{self, stdout, Write},
+    panic::{catch_unwind, AssertUnwindSafe},
     str::FromStr,
     sync::{atomic::Ordering, Arc},
 };
@@ -288,11 +289,12 @@ impl Command for TrainCommand {
         };
 
         let mut metrics = vec![reductionml_core::metrics::get_metric("example_number").unwrap()];
-        if args.metrics.is_some() {
-            args.metrics.as_ref().unwrap().iter().for_each(|name| {
-                metrics.push(reductionml_core::metrics::get_metric(name).unwrap())
-            });
-        };
+        for name in args.metrics.iter().flatten() {
+            metrics.push(
+                reductionml_core::metrics::get_metric(name)
+                    .with_context(|| format!("Unknown metric: {}", name))?,
+            );
+        }
 
         let mut manager = TrainResultManager::new(
             args.progress,
@@ -307,8 +309,8 @@ impl Command for TrainCommand {
         match num_parse_threads {
             0 => {
                 let mut buffer = String::new();
-                while let Some(chunk) = parser.get_next_chunk(&mut input_file, buffer).unwrap() {
-                    let (features, label) = parser.parse_chunk(&chunk).unwrap();
+                while let Some(chunk) = parser.get_next_chunk(&mut input_file, buffer)? {
+                    let (features, label) = parser.parse_chunk(&chunk)?;
                     buffer = chunk;
                     process_example(
                         label,
@@ -319,7 +321,7 @@ impl Command for TrainCommand {
                         &mut manager,
                         quiet,
                         &pool,
-                    );
+                    )?;
                 }
             }
             n => {
@@ -327,22 +329,26 @@ impl Command for TrainCommand {
                 let (parse_sender, parse_receiver) = flume::bounded(args.queue_size);
                 let (learn_sender, learn_receiver) = flume::bounded(args.queue_size);
                 std::thread::scope(|s| -> Result<()> {
+                    // Owned by this scope so that leaving it early because of an error stops the
+                    // input thread, which would otherwise wait for space in the queue forever.
+                    let learn_receiver = learn_receiver;
+
                     // Input thread
-                    s.spawn(|| {
-                        loop {
-                            if let Some(chunk) = parser
-                                .get_next_chunk(&mut input_file, string_pool.get_object())
-                                .unwrap()
+                    let input_thread = s.spawn(|| -> Result<()> {
+                        // Owned by this thread, when it ends the other threads will too.
+                        let (parse_sender, learn_sender) = (parse_sender, learn_sender);
+                        while let Some(chunk) =
+                            parser.get_next_chunk(&mut input_file, string_pool.get_object())?
+                        {
+                            let res = Arc::new(ParseResult::new(chunk));
+                            if parse_sender.send(res.clone()).is_err()
+                                || learn_sender.send(res).is_err()
                             {
-                                let res = Arc::new(ParseResult::new(chunk));
-                                parse_sender.send(res.clone()).unwrap();
-                                learn_sender.send(res).unwrap();
-                            } else {
+                                // Training stopped early.
                                 break;
                             }
                         }
-                        std::mem::drop(parse_sender);
-                        std::mem::drop(learn_sender);
+                        Ok(())
                     });
 
                     for _ in 0..n {
@@ -350,7 +356,15 @@ impl Command for TrainCommand {
                             match parse_receiver.recv() {
                                 Ok(res) => {
                                     let input = res.get_input();
-                                    let parsed = parser.parse_chunk(&input);
+                                    // The result must be set in any case since it is waited for.
+                                    let parsed = catch_unwind(AssertUnwindSafe(|| {
+                                        parser.parse_chunk(&input)
+                                    }))
+                                    .unwrap_or_else(|_| {
+                                        Err(reductionml_core::error::Error::ParserError(
+                                            "The parser panicked".to_owned(),
+                                        ))
+                                    });
                                     string_pool.return_object(input);
                                     res.set_result(parsed.map_err(|e| anyhow::anyhow!(e)));
                                 }
@@ -363,7 +377,7 @@ impl Command for TrainCommand {
                         let res = learn_receiver.recv();
                         match res {
                             Ok(result) => {
-                                let (features, label) = result.await_result().unwrap();
+                                let (features, label) = result.await_result()?;
                                 process_example(
                                     label,
                                     &mut workspace,
@@ -373,12 +387,14 @@ impl Command for TrainCommand {
                                     &mut manager,
                                     quiet,
                                     &pool,
-                                );
+                                )?;
                             }
                             Err(_) => break,
                         }
                     }
-                    Ok(())
+                    input_thread
+                        .join()
+                        .map_err(|_| anyhow::anyhow!("Reading the data file failed"))?
                 })?;
             }
         }
@@ -389,8 +405,9 @@ impl Command for TrainCommand {
         }
 
         if let Some(file) = &args.output_model {
-            let data = workspace.serialize_model().unwrap();
-            std::fs::write(file, data).unwrap();
+            let data = workspace.serialize_model()?;
+            std::fs::write(file, data)
+                .with_context(|| format!("Failed to write output model file: {}", file))?;
         }
 
         Ok(())
@@ -409,12 +426,12 @@ fn process_example(
     pool: &std::sync::Arc<
         object_pool::Pool<reductionml_core::sparse_namespaced_features::SparseFeatures>,
     >,
-) {
-    let label = label.unwrap();
+) -> Result<()> {
+    let label = label.context("Examples must have a label for training")?;
     if !quiet || predictions_file.is_some() {
         let prediction = workspace.predict_then_learn(&mut features, &label);
         if let Some(file) = predictions_file.as_mut() {
-            writeln!(file, "{}", serde_json::to_string(&prediction).unwrap()).unwrap();
+            writeln!(file, "{}", serde_json::to_string(&prediction)?)?;
         }
 
         for metric in metrics.iter_mut() {
@@ -432,4 +449,5 @@ fn process_example(
 
     // Put feature objects back into the pool for reuse.
     features.clear_and_return_object(pool.as_ref());
+    Ok(())
 }
-- 
2.43.0


From 5d26281b3629004848cf8e8046bc6628733ecf19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:31 +0000
Subject: [PATCH 18/37] fix: training on a data file without examples does not
 panic

---
 reductionml-cli/src/train.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/reductionml-cli/src/train.rs b/reductionml-cli/src/train.rs
index b72debb..2950750 100644
--- a/reductionml-cli/src/train.rs
+++ b/reductionml-cli/src/train.rs
@@ -399,7 +399,8 @@ impl Command for TrainCommand {
             }
         }
 
-        if !quiet {
+        // Metrics have no value when there was no example.
+        if !quiet && manager.iteration > 0 {
             manager.add_results(metrics.iter().map(|x| x.get_value()).collect());
             manager.render_table_to_stdout();
         }
-- 
2.43.0


From fff1e933ec9dd8c2c2fc40cbb0ca3d1a07cd4e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:42 +0000
Subject: [PATCH 19/37] fix: export-model and import-model report errors
 instead of panicking

---
 reductionml-cli/src/export_model.rs |  9 +++++----
 reductionml-cli/src/import_model.rs | 14 ++++++++------
 2 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/reductionml-cli/src/export_model.rs b/reductionml-cli/src/export_model.rs
index eb146e4..1a3d856 100644
--- a/reductionml-cli/src/export_model.rs
+++ b/reductionml-cli/src/export_model.rs
@@ -4,7 +4,7 @@ use reductionml_core::workspace::Workspace;
 
 use crate::command::Command;
 
-use anyhow::Result;
+use anyhow::{Context, Result};
 
 // TODO: add warning that weights are not printed in any nice way at the moment
 #[derive(Args)]
@@ -23,9 +23,10 @@ impl Command for ExportModelCommand {
             "{} Exporting a model to JSON is not a supported feature. Use at your own risk.",
             "Warning:".yellow()
         );
-        let input_model_data = std::fs::read(&args.input_model).unwrap();
-        let workspace = Workspace::create_from_model(&input_model_data).unwrap();
-        let json = workspace.serialize_to_json().unwrap();
+        let input_model_data = std::fs::read(&args.input_model)
+            .with_context(|| format!("Failed to read model file: {}", args.input_model))?;
+        let workspace = Workspace::create_from_model(&input_model_data)?;
+        let json = workspace.serialize_to_json()?;
         println!("{}", serde_json::to_string_pretty(&json).unwrap());
         Ok(())
     }
diff --git a/reductionml-cli/src/import_model.rs b/reductionml-cli/src/import_model.rs
index 7f5a94a..ae0cb45 100644
--- a/reductionml-cli/src/import_model.rs
+++ b/reductionml-cli/src/import_model.rs
@@ -4,7 +4,7 @@ use reductionml_core::workspace::Workspace;
 
 use crate::command::Command;
 
-use anyhow::Result;
+use anyhow::{Context, Result};
 
 // TODO: add warning that weights are not printed in any nice way at the moment
 #[derive(Args)]
@@ -25,11 +25,13 @@ impl Command for ImportModelCommand {
             "Warning:".yellow()
         );
 
-        let input_data = std::fs::read(&args.input_file).unwrap();
-        let json = serde_json::from_slice(&input_data).unwrap();
-        let workspace = Workspace::deserialize_from_json(&json).unwrap();
-        let data = workspace.serialize_model().unwrap();
-        std::fs::write(&args.output_model, data).unwrap();
+        let input_data = std::fs::read(&args.input_file)
+            .with_context(|| format!("Failed to read file: {}", args.input_file))?;
+        let json = serde_json::from_slice(&input_data)?;
+        let workspace = Workspace::deserialize_from_json(&json)?;
+        let data = workspace.serialize_model()?;
+        std::fs::write(&args.output_model, data)
+            .with_context(|| format!("Failed to write model file: {}", args.output_model))?;
 
         Ok(())
     }
-- 
2.43.0


From 00ae18f9c33ccf36aa9ed284e4f046f05805d0a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:03 +0000
Subject: [PATCH 20/37] fix: a model that has only seen examples of weight 0
 can be exported to JSON and imported

The running average was infinite, which JSON writes as null.
---
 reductionml-core/src/reductions/coin.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/reductionml-core/src/reductions/coin.rs b/reductionml-core/src/reductions/coin.rs
index 99d0b65..b386e5e 100644
--- a/reductionml-core/src/reductions/coin.rs
+++ b/reductionml-core/src/reductions/coin.rs
@@ -339,8 +339,9 @@ impl CoinRegressor {
         // todo select correct one
         self.model_states[0].normalized_sum_norm_x += normalized_squared_norm_x * weight;
         self.model_states[0].total_weight += weight;
-        self.average_squared_norm_x =
-            (self.model_states[0].normalized_sum_norm_x + 1e-6) / self.model_states[0].total_weight;
+        self.average_squared_norm_x = (self.model_states[0].normalized_sum_norm_x + 1e-6)
+                // Without this it is infinite as long as every weight was 0, which JSON cannot hold
+                / self.model_states[0].total_weight.max(f32::MIN_POSITIVE);
 
         let partial_prediction = prediction / self.average_squared_norm_x;
 
-- 
2.43.0


From 803dcadf40648898192316c747e16d7cdfef635c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:03 +0000
Subject: [PATCH 21/37] fix: tiny feature values do not turn the regressor's
 weights into NaN

Products of tiny values underflow in the denominator of the coin betting weight.
---
 reductionml-core/src/reductions/coin.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/reductionml-core/src/reductions/coin.rs b/reductionml-core/src/reductions/coin.rs
index b386e5e..339f8af 100644
--- a/reductionml-core/src/reductions/coin.rs
+++ b/reductionml-core/src/reductions/coin.rs
@@ -316,6 +316,8 @@ impl CoinRegressor {
             } else {
                 0.0
             };
+            // The denominator underflows for tiny feature values
+            let w_xt = if w_xt.is_finite() { w_xt } else { 0.0 };
 
             prediction += w_xt * feat_value;
             if w_mx > 0.0 {
@@ -391,6 +393,10 @@ impl CoinRegressor {
             } else {
                 state[W_XT] = 0.0;
             }
+            // The denominator underflows for tiny feature values
+            if !state[W_XT].is_finite() {
+                state[W_XT] = 0.0;
+            }
 
             state[W_ZT] += -gradient;
             state[W_G2] += gradient.abs();
-- 
2.43.0


From 115f35b113f91307dd26445ebf3b73f1bc02ffe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:03 +0000
Subject: [PATCH 22/37] fix: predictions that cannot be written are reported as
 an error

---
 reductionml-cli/src/train.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/reductionml-cli/src/train.rs b/reductionml-cli/src/train.rs
index 2950750..68f7f05 100644
--- a/reductionml-cli/src/train.rs
+++ b/reductionml-cli/src/train.rs
@@ -399,6 +399,11 @@ impl Command for TrainCommand {
             }
         }
 
+        // Dropping the writer would ignore the error.
+        if let Some(file) = predictions_file.as_mut() {
+            file.flush().context("Failed to write predictions file")?;
+        }
+
         // Metrics have no value when there was no example.
         if !quiet && manager.iteration > 0 {
             manager.add_results(metrics.iter().map(|x| x.get_value()).collect());
-- 
2.43.0


From b49d54fec5bdf0e106b420721f6885e840df2521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:47 +0000
Subject: [PATCH 23/37] fix: overflowing predictions are limited to a large
 number instead of infinite

SquareCB panicked and softmax gave NaN on the difference of two infinite scores, and JSON
predictions cannot hold them.
---
 reductionml-core/src/reductions/coin.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/reductionml-core/src/reductions/coin.rs b/reductionml-core/src/reductions/coin.rs
index 339f8af..da3adbc 100644
--- a/reductionml-core/src/reductions/coin.rs
+++ b/reductionml-core/src/reductions/coin.rs
@@ -207,6 +207,8 @@ impl ReductionImpl for CoinRegressor {
         if prediction.is_nan() {
             prediction = 0.0;
         }
+        // Exploration takes the difference of two of these, which must be finite as well
+        prediction = prediction.clamp(f32::MIN / 2.0, f32::MAX / 2.0);
 
         let scalar_pred = ScalarPrediction {
             prediction: self
-- 
2.43.0


From 90ad4186284ff61fea273ee5785c444798cdc6aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:34 +0000
Subject: [PATCH 24/37] fix: a truncated model is an error even where the
 decoder panics

---
 reductionml-core/src/workspace.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/reductionml-core/src/workspace.rs b/reductionml-core/src/workspace.rs
index c16bd9b..a3f3231 100644
--- a/reductionml-core/src/workspace.rs
+++ b/reductionml-core/src/workspace.rs
@@ -142,10 +142,18 @@ impl Workspace {
 
     // TODO move to bincode or msgpack
     pub fn create_from_model(json: &[u8]) -> Result<Workspace> {
-        let r = flexbuffers::Reader::get_root(json)
-            .map_err(|e| Error::InvalidArgument(format!("Failed to read model: {e}")))?;
-        Workspace::deserialize(r)
-            .map_err(|e| Error::InvalidArgument(format!("Failed to read model: {e}")))
+        // flexbuffers panics on some truncated buffers instead of returning an error
+        std::panic::catch_unwind(|| {
+            let r = flexbuffers::Reader::get_root(json)
+                .map_err(|e| Error::InvalidArgument(format!("Failed to read model: {e}")))?;
+            Workspace::deserialize(r)
+                .map_err(|e| Error::InvalidArgument(format!("Failed to read model: {e}")))
+        })
+        .unwrap_or_else(|_| {
+            Err(Error::InvalidArgument(
+                "Failed to read model: not a valid flexbuffer".to_owned(),
+            ))
+        })
     }
 
     // TODO move to bincode or msgpack
-- 
2.43.0


From 1add18f38fdef33ba426fc23c945e9ca7de597b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:07 +0000
Subject: [PATCH 25/37] fix: the published latest schema follows the generated
 one

---
 schemas/config/latest/schema.json | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/schemas/config/latest/schema.json b/schemas/config/latest/schema.json
index 4bcaf15..103bb3d 100644
--- a/schemas/config/latest/schema.json
+++ b/schemas/config/latest/schema.json
@@ -467,7 +467,8 @@
           "type": "number",
           "format": "float"
         }
-      }
+      },
+      "additionalProperties": false
     },
     "LossFunction": {
       "oneOf": [
@@ -520,7 +521,8 @@
       ]
     },
     "SquaredLoss": {
-      "type": "object"
+      "type": "object",
+      "additionalProperties": false
     },
     "any_reduction_config": {
       "oneOf": [
-- 
2.43.0


From eaaefc4132d595e6ee137f5ea82acac65b6a98fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:11 +0000
Subject: [PATCH 26/37] fix: the configuration schema requires the typename of
 a reduction like the loader does

---
 reductionml-core/src/config_schema.rs |  4 ++++
 schemas/config/latest/schema.json     | 24 ++++++++++++++++++++++++
 2 files changed, 28 insertions(+)

diff --git a/reductionml-core/src/config_schema.rs b/reductionml-core/src/config_schema.rs
index a235f5f..a35794c 100644
--- a/reductionml-core/src/config_schema.rs
+++ b/reductionml-core/src/config_schema.rs
@@ -56,6 +56,10 @@ impl ConfigSchema {
             .object()
             .properties
             .insert("typename".to_owned(), Schema::Object(typename_constant));
+        reduction_config_schema
+            .object()
+            .required
+            .insert("typename".to_owned());
 
         let reductions_inner_schema = reduction_factory.get_config_schema();
         reduction_config_schema.object().properties.insert(
diff --git a/schemas/config/latest/schema.json b/schemas/config/latest/schema.json
index 103bb3d..912649b 100644
--- a/schemas/config/latest/schema.json
+++ b/schemas/config/latest/schema.json
@@ -20,6 +20,9 @@
   "additionalProperties": false,
   "definitions": {
     "Binary": {
+      "required": [
+        "typename"
+      ],
       "properties": {
         "config": {
           "title": "BinaryReductionConfig",
@@ -62,6 +65,9 @@
       ]
     },
     "CbAdf": {
+      "required": [
+        "typename"
+      ],
       "properties": {
         "config": {
           "title": "CBAdfConfig",
@@ -105,6 +111,9 @@
       "additionalProperties": false
     },
     "CbExploreAdfGreedy": {
+      "required": [
+        "typename"
+      ],
       "properties": {
         "config": {
           "title": "CBExploreAdfGreedyConfig",
@@ -151,6 +160,9 @@
       "additionalProperties": false
     },
     "CbExploreAdfSoftmax": {
+      "required": [
+        "typename"
+      ],
       "properties": {
         "config": {
           "title": "CBExploreAdfSoftmaxConfig",
@@ -202,6 +214,9 @@
       "additionalProperties": false
     },
     "CbExploreAdfSquareCb": {
+      "required": [
+        "typename"
+      ],
       "properties": {
         "config": {
           "title": "CBExploreAdfSquareCBConfig",
@@ -258,6 +273,9 @@
       "additionalProperties": false
     },
     "Coin": {
+      "required": [
+        "typename"
+      ],
       "properties": {
         "config": {
           "title": "CoinRegressorConfig",
@@ -311,6 +329,9 @@
       "additionalProperties": false
     },
     "Debug": {
+      "required": [
+        "typename"
+      ],
       "properties": {
         "config": {
           "title": "DebugConfig",
@@ -359,6 +380,9 @@
       "additionalProperties": false
     },
     "ElementwiseInteraction": {
+      "required": [
+        "typename"
+      ],
       "properties": {
         "config": {
           "title": "ElementwiseInteractionConfig",
-- 
2.43.0


From 6610e1d9219dcf4ea0134f0d5df35fe58d92ad99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:13 +0000
Subject: [PATCH 27/37] fix: the configuration schema accepts a null config
 like the loader does

---
 reductionml-core/src/config_schema.rs |  7 +++--
 schemas/config/latest/schema.json     | 40 +++++++++++++++++++++------
 2 files changed, 37 insertions(+), 10 deletions(-)

diff --git a/reductionml-core/src/config_schema.rs b/reductionml-core/src/config_schema.rs
index a35794c..446875e 100644
--- a/reductionml-core/src/config_schema.rs
+++ b/reductionml-core/src/config_schema.rs
@@ -1,6 +1,6 @@
 use schemars::{
     gen::SchemaGenerator,
-    schema::{RootSchema, Schema, SchemaObject},
+    schema::{InstanceType, RootSchema, Schema, SchemaObject},
     schema_for,
 };
 
@@ -61,7 +61,10 @@ impl ConfigSchema {
             .required
             .insert("typename".to_owned());
 
-        let reductions_inner_schema = reduction_factory.get_config_schema();
+        let mut reductions_inner_schema = reduction_factory.get_config_schema();
+        // A config of null is accepted and the same as an omitted one.
+        reductions_inner_schema.schema.instance_type =
+            Some(vec![InstanceType::Object, InstanceType::Null].into());
         reduction_config_schema.object().properties.insert(
             "config".to_owned(),
             Schema::Object(reductions_inner_schema.schema),
diff --git a/schemas/config/latest/schema.json b/schemas/config/latest/schema.json
index 912649b..446169d 100644
--- a/schemas/config/latest/schema.json
+++ b/schemas/config/latest/schema.json
@@ -26,7 +26,10 @@
       "properties": {
         "config": {
           "title": "BinaryReductionConfig",
-          "type": "object",
+          "type": [
+            "object",
+            "null"
+          ],
           "properties": {
             "regressor": {
               "default": {
@@ -71,7 +74,10 @@
       "properties": {
         "config": {
           "title": "CBAdfConfig",
-          "type": "object",
+          "type": [
+            "object",
+            "null"
+          ],
           "properties": {
             "cbType": {
               "default": "mtr",
@@ -117,7 +123,10 @@
       "properties": {
         "config": {
           "title": "CBExploreAdfGreedyConfig",
-          "type": "object",
+          "type": [
+            "object",
+            "null"
+          ],
           "properties": {
             "cbAdf": {
               "default": {
@@ -166,7 +175,10 @@
       "properties": {
         "config": {
           "title": "CBExploreAdfSoftmaxConfig",
-          "type": "object",
+          "type": [
+            "object",
+            "null"
+          ],
           "properties": {
             "cbAdf": {
               "default": {
@@ -220,7 +232,10 @@
       "properties": {
         "config": {
           "title": "CBExploreAdfSquareCBConfig",
-          "type": "object",
+          "type": [
+            "object",
+            "null"
+          ],
           "properties": {
             "cbAdf": {
               "default": {
@@ -279,7 +294,10 @@
       "properties": {
         "config": {
           "title": "CoinRegressorConfig",
-          "type": "object",
+          "type": [
+            "object",
+            "null"
+          ],
           "properties": {
             "alpha": {
               "default": 4.0,
@@ -335,7 +353,10 @@
       "properties": {
         "config": {
           "title": "DebugConfig",
-          "type": "object",
+          "type": [
+            "object",
+            "null"
+          ],
           "properties": {
             "features": {
               "default": false,
@@ -386,7 +407,10 @@
       "properties": {
         "config": {
           "title": "ElementwiseInteractionConfig",
-          "type": "object",
+          "type": [
+            "object",
+            "null"
+          ],
           "properties": {
             "keepOriginalFeatures": {
               "description": "Default is false.",
-- 
2.43.0


From d94dc7f792009cdfeedb2538eb250aa7f3b01ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:03 +0000
Subject: [PATCH 28/37] fix: numbers of text examples are parsed without the
 out-of-bounds pointers of fast-float

---
 reductionml-core/src/parsers/vw_text_parser.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/reductionml-core/src/parsers/vw_text_parser.rs b/reductionml-core/src/parsers/vw_text_parser.rs
index eb3322a..5b19483 100644
--- a/reductionml-core/src/parsers/vw_text_parser.rs
+++ b/reductionml-core/src/parsers/vw_text_parser.rs
@@ -143,7 +143,8 @@ struct TextParseResult<'a> {
 }
 
 fn parse_label_number(token: &str) -> Result<f32> {
-    fast_float::parse(token)
+    token
+        .parse()
         .map_err(|err| Error::ParserError(format!("Failed to parse label '{}': {}", token, err)))
 }
 
@@ -211,7 +212,7 @@ fn parse_feature<'a>(feature: &'a str, offset_counter: &mut u32) -> (ParsedFeatu
     let first_char_is_colon = feature.starts_with(':');
     if first_char_is_colon {
         // Anonymous feature
-        let value = fast_float::parse(&feature[1..]);
+        let value = feature[1..].parse();
         if let Ok(value) = value {
             let offset_to_use = *offset_counter;
             *offset_counter += 1;
@@ -236,7 +237,7 @@ fn parse_feature<'a>(feature: &'a str, offset_counter: &mut u32) -> (ParsedFeatu
         let name = tokens.next().unwrap();
         match tokens.next() {
             Some(value) => {
-                if let Ok(value) = fast_float::parse(value) {
+                if let Ok(value) = value.parse() {
                     (ParsedFeature::Simple { name }, value)
                 } else {
                     (
@@ -296,7 +297,7 @@ fn parse_namespace_info_token(namespace_segment: &str) -> Result<(&str, f32)> {
         .next()
         .ok_or(Error::ParserError("Expected namespace name".to_owned()))?;
     let value = match tokens.next() {
-        Some(value) => fast_float::parse(value).map_err(|err| {
+        Some(value) => value.parse().map_err(|err| {
             Error::ParserError(format!("Failed to parse namespace value: {}", err))
         })?,
         None => 1.0,
-- 
2.43.0


From 50befd89bcce2096a6aa84d23d96b767da130a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:31 +0000
Subject: [PATCH 29/37] fix: the Python package raises exceptions for rejected
 configurations, models and examples instead of panicking

---
 reductionml-python/src/parsers.rs   |  4 ++--
 reductionml-python/src/workspace.rs | 34 +++++++++++++++--------------
 2 files changed, 20 insertions(+), 18 deletions(-)

diff --git a/reductionml-python/src/parsers.rs b/reductionml-python/src/parsers.rs
index a5ca223..681bb51 100644
--- a/reductionml-python/src/parsers.rs
+++ b/reductionml-python/src/parsers.rs
@@ -146,8 +146,8 @@ impl WrappedParserTextAndJson {
             JsonInputKinds::StringInput(x) => x.into(),
             JsonInputKinds::DictInput(x) => {
                 // TODO: avoid the trip to string here.
-                let input: serde_json::Value = depythonize(x).unwrap();
-                serde_json::to_string(&input).unwrap().into()
+                let input: serde_json::Value = depythonize(x)?;
+                input.to_string().into()
             }
         };
 
diff --git a/reductionml-python/src/workspace.rs b/reductionml-python/src/workspace.rs
index 7889f9d..343e3a3 100644
--- a/reductionml-python/src/workspace.rs
+++ b/reductionml-python/src/workspace.rs
@@ -14,7 +14,7 @@ use crate::{
     labels::{WrappedLabel, WrappedLabelType},
     parsers::{create_parser, FormatType, WrappedParser},
     predictions::{WrappedPrediction, WrappedPredictionType},
-    WrappedFeaturesType,
+    WrappedError, WrappedFeaturesType,
 };
 
 #[pyclass]
@@ -125,35 +125,37 @@ pub(crate) struct WrappedWorkspace(pub(crate) reductionml_core::workspace::Works
 #[pymethods]
 impl WrappedWorkspace {
     #[staticmethod]
-    pub(crate) fn create_from_config(config: &PyDict) -> Self {
-        let config: Configuration = depythonize(config).unwrap();
-        let workspace = reductionml_core::workspace::Workspace::new(config).unwrap();
-        Self(workspace)
+    pub(crate) fn create_from_config(config: &PyDict) -> PyResult<Self> {
+        let config: Configuration = depythonize(config)?;
+        let workspace =
+            reductionml_core::workspace::Workspace::new(config).map_err(WrappedError::from)?;
+        Ok(Self(workspace))
     }
 
     #[staticmethod]
-    pub(crate) fn create_from_model(data: Vec<u8>) -> Self {
-        let workspace = reductionml_core::workspace::Workspace::create_from_model(&data).unwrap();
-        Self(workspace)
+    pub(crate) fn create_from_model(data: Vec<u8>) -> PyResult<Self> {
+        let workspace = reductionml_core::workspace::Workspace::create_from_model(&data)
+            .map_err(WrappedError::from)?;
+        Ok(Self(workspace))
     }
 
     #[staticmethod]
-    pub(crate) fn create_from_json_model(model_json: &PyDict) -> Self {
-        let data = depythonize(model_json).unwrap();
-        let workspace =
-            reductionml_core::workspace::Workspace::deserialize_from_json(&data).unwrap();
-        Self(workspace)
+    pub(crate) fn create_from_json_model(model_json: &PyDict) -> PyResult<Self> {
+        let data = depythonize(model_json)?;
+        let workspace = reductionml_core::workspace::Workspace::deserialize_from_json(&data)
+            .map_err(WrappedError::from)?;
+        Ok(Self(workspace))
     }
 
     pub(crate) fn serialize(&self) -> PyResult<Vec<u8>> {
-        let data = self.0.serialize_model().unwrap();
+        let data = self.0.serialize_model().map_err(WrappedError::from)?;
         Ok(data)
     }
 
     pub(crate) fn serialize_to_json(&self) -> PyResult<PyObject> {
-        let data = self.0.serialize_to_json().unwrap();
+        let data = self.0.serialize_to_json().map_err(WrappedError::from)?;
         Python::with_gil(|py| {
-            let data = pythonize(py, &data).unwrap();
+            let data = pythonize(py, &data)?;
             Ok(data.into_py(py))
         })
     }
-- 
2.43.0


From a1dd0542845dad1e6307d142b3bb5a5573c40039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:42 +0000
Subject: [PATCH 30/37] fix: reading some truncated models did not end

---
 reductionml-core/src/workspace.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/reductionml-core/src/workspace.rs b/reductionml-core/src/workspace.rs
index a3f3231..2f579b3 100644
--- a/reductionml-core/src/workspace.rs
+++ b/reductionml-core/src/workspace.rs
@@ -123,6 +123,23 @@ fn rewrite_json_sparse_to_ndarray(value: &mut serde_json::Value) -> Result<()> {
     Ok(())
 }
 
+// Flexbuffers trusts the lengths which it finds. Every value takes at least one byte, so when there
+// seem to be more values than bytes the buffer is broken, and reading it may take forever.
+fn check_lengths(value: &flexbuffers::Reader<&[u8]>, available: &mut usize) -> Result<()> {
+    if !value.flexbuffer_type().is_vector() {
+        return Ok(());
+    }
+    *available = available.checked_sub(value.length()).ok_or_else(|| {
+        Error::InvalidArgument("Failed to read model: it is incomplete".to_owned())
+    })?;
+    if value.flexbuffer_type().is_heterogenous() {
+        for item in value.as_vector().iter() {
+            check_lengths(&item, available)?;
+        }
+    }
+    Ok(())
+}
+
 impl Workspace {
     pub fn new(config: Configuration) -> Result<Workspace> {
         config.global_config.validate()?;
@@ -146,6 +163,8 @@ impl Workspace {
         std::panic::catch_unwind(|| {
             let r = flexbuffers::Reader::get_root(json)
                 .map_err(|e| Error::InvalidArgument(format!("Failed to read model: {e}")))?;
+            let mut available = json.len();
+            check_lengths(&r, &mut available)?;
             Workspace::deserialize(r)
                 .map_err(|e| Error::InvalidArgument(format!("Failed to read model: {e}")))
         })
-- 
2.43.0


From 3ec2bfade9d002d66c5215b823d1241360feed1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:52 +0000
Subject: [PATCH 31/37] fix: mean squared error and estimated reward lost
 precision over long runs

The sums were kept in single precision, so that they stopped growing after some millions of examples.
---
 reductionml-core/src/metrics/ips.rs                | 8 ++++----
 reductionml-core/src/metrics/mean_squared_error.rs | 7 ++++---
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/reductionml-core/src/metrics/ips.rs b/reductionml-core/src/metrics/ips.rs
index 8e786b5..70575c3 100644
--- a/reductionml-core/src/metrics/ips.rs
+++ b/reductionml-core/src/metrics/ips.rs
@@ -4,7 +4,7 @@ use super::MetricValue;
 
 pub struct IpsMetric {
     pub examples_count: u64,
-    pub weighted_reward: f32,
+    pub weighted_reward: f64,
 }
 
 impl IpsMetric {
@@ -40,14 +40,14 @@ impl Metric for IpsMetric {
             .unwrap()
             .1;
 
-        let w = p_pred / p_log;
+        let w = f64::from(p_pred) / f64::from(p_log);
 
-        self.weighted_reward += (-1.0 * label.cost) * w;
+        self.weighted_reward += (-1.0 * f64::from(label.cost)) * w;
         self.examples_count += 1;
     }
 
     fn get_value(&self) -> MetricValue {
-        MetricValue::Float(self.weighted_reward / (self.examples_count as f32))
+        MetricValue::Float((self.weighted_reward / (self.examples_count as f64)) as f32)
     }
 
     fn get_name(&self) -> String {
diff --git a/reductionml-core/src/metrics/mean_squared_error.rs b/reductionml-core/src/metrics/mean_squared_error.rs
index 14b8610..8c91d6f 100644
--- a/reductionml-core/src/metrics/mean_squared_error.rs
+++ b/reductionml-core/src/metrics/mean_squared_error.rs
@@ -3,7 +3,7 @@ use crate::{metrics::Metric, utils::AsInner, Features, ScalarPrediction, SimpleL
 use super::MetricValue;
 
 pub struct MeanSquaredErrorMetric {
-    pub value: f32,
+    pub value: f64,
     pub count: u64,
 }
 
@@ -31,12 +31,13 @@ impl Metric for MeanSquaredErrorMetric {
     ) {
         let label: &SimpleLabel = label.as_inner().unwrap();
         let pred: &ScalarPrediction = prediction.as_inner().unwrap();
-        self.value += (label.value() - pred.prediction) * (label.value() - pred.prediction);
+        let error = f64::from(label.value()) - f64::from(pred.prediction);
+        self.value += error * error;
         self.count += 1;
     }
 
     fn get_value(&self) -> MetricValue {
-        MetricValue::Float(self.value / self.count as f32)
+        MetricValue::Float((self.value / self.count as f64) as f32)
     }
 
     fn get_name(&self) -> String {
-- 
2.43.0


From ba6c749440e5eeb1a67e6771e5345618da8b2dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:57 +0000
Subject: [PATCH 32/37] fix: parsed feature count panicked and example number
 wrapped beyond the range of i32

---
 reductionml-core/src/metrics/example_number.rs | 2 +-
 reductionml-core/src/metrics/metric.rs         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/reductionml-core/src/metrics/example_number.rs b/reductionml-core/src/metrics/example_number.rs
index 95adbec..3281e48 100644
--- a/reductionml-core/src/metrics/example_number.rs
+++ b/reductionml-core/src/metrics/example_number.rs
@@ -32,7 +32,7 @@ impl Metric for ExampleNumberMetric {
         if self.count == 0 {
             panic!("Cannot get value of ExampleNumberMetric with no points");
         }
-        MetricValue::Int(self.count as i32 - 1)
+        MetricValue::Int(self.count as i64 - 1)
     }
 
     fn get_name(&self) -> String {
diff --git a/reductionml-core/src/metrics/metric.rs b/reductionml-core/src/metrics/metric.rs
index 47a0c96..0c0375b 100644
--- a/reductionml-core/src/metrics/metric.rs
+++ b/reductionml-core/src/metrics/metric.rs
@@ -12,7 +12,7 @@ pub trait Metric {
 pub enum MetricValue {
     Bool(bool),
     Float(f32),
-    Int(i32),
+    Int(i64),
     String(String),
 }
 
-- 
2.43.0


From 73abf5d3a6350fffe71dc5a4db881547d22e38ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:22 +0000
Subject: [PATCH 33/37] fix: reused feature containers list, compare and give
 out namespaces like new ones

---
 .../src/sparse_namespaced_features.rs         | 37 +++++++++++++------
 1 file changed, 25 insertions(+), 12 deletions(-)

diff --git a/reductionml-core/src/sparse_namespaced_features.rs b/reductionml-core/src/sparse_namespaced_features.rs
index 4b92ddd..db335a5 100644
--- a/reductionml-core/src/sparse_namespaced_features.rs
+++ b/reductionml-core/src/sparse_namespaced_features.rs
@@ -19,19 +19,20 @@ pub struct NamespaceIterator<'a> {
     values: std::slice::Iter<'a, f32>,
 }
 
-// TODO this should be skipping inactive namespaces.
 impl<'a> Iterator for NamespacesIterator<'a> {
     type Item = (Namespace, NamespaceIterator<'a>);
     fn next(&mut self) -> Option<Self::Item> {
-        self.namespaces.next().map(|(namespace_feats, namespace)| {
-            (
-                *namespace_feats,
-                NamespaceIterator {
-                    indices: namespace.feature_indices.iter(),
-                    values: namespace.feature_values.iter(),
-                },
-            )
-        })
+        self.namespaces
+            .find(|(_, namespace)| namespace.is_active())
+            .map(|(namespace_feats, namespace)| {
+                (
+                    *namespace_feats,
+                    NamespaceIterator {
+                        indices: namespace.feature_indices.iter(),
+                        values: namespace.feature_values.iter(),
+                    },
+                )
+            })
     }
 }
 
@@ -199,11 +200,21 @@ impl Namespace {
     }
 }
 
-#[derive(PartialEq, Clone, Debug)]
+#[derive(Clone, Debug)]
 pub struct SparseFeatures {
     namespaces: std::collections::BTreeMap<Namespace, SparseFeaturesNamespace>,
 }
 
+// Namespaces without features, such as those left over from reuse, make no difference.
+impl PartialEq for SparseFeatures {
+    fn eq(&self, other: &Self) -> bool {
+        self.namespaces
+            .values()
+            .filter(|ns| ns.size() > 0)
+            .eq(other.namespaces.values().filter(|ns| ns.size() > 0))
+    }
+}
+
 impl Default for SparseFeatures {
     fn default() -> Self {
         Self::new()
@@ -358,7 +369,9 @@ impl SparseFeatures {
     }
 
     pub fn remove_namespace(&mut self, namespace: Namespace) -> Option<SparseFeaturesNamespace> {
-        self.namespaces.remove(&namespace)
+        self.namespaces
+            .remove(&namespace)
+            .filter(|namespace| namespace.is_active())
     }
 
     pub fn clear(&mut self) {
-- 
2.43.0


From dbba1cf72fd829cd3ba042bb06d21ac8c07d0bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:22 +0000
Subject: [PATCH 34/37] fix: a namespace put into a feature container is found
 again

---
 reductionml-core/src/sparse_namespaced_features.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/reductionml-core/src/sparse_namespaced_features.rs b/reductionml-core/src/sparse_namespaced_features.rs
index db335a5..c1cadd6 100644
--- a/reductionml-core/src/sparse_namespaced_features.rs
+++ b/reductionml-core/src/sparse_namespaced_features.rs
@@ -83,7 +83,8 @@ impl AbsDiffEq for SparseFeaturesNamespace {
                 .feature_values
                 .iter()
                 .zip(other.feature_values.iter())
-                .all(|(a, b)| a.abs_diff_eq(b, epsilon))
+                // Equal infinities have no difference to compare
+                .all(|(a, b)| a == b || a.abs_diff_eq(b, epsilon))
     }
 }
 
@@ -391,8 +392,9 @@ impl SparseFeatures {
     pub fn set_namespace(
         &mut self,
         namespace: Namespace,
-        namespace_features: SparseFeaturesNamespace,
+        mut namespace_features: SparseFeaturesNamespace,
     ) {
+        namespace_features.set_active(true);
         self.namespaces.insert(namespace, namespace_features);
     }
 
-- 
2.43.0


From 782deb0e7d9b37da69eb257da133fb85b5754083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:22 +0000
Subject: [PATCH 35/37] fix: reused feature containers do not collect every
 namespace ever seen

---
 reductionml-core/src/sparse_namespaced_features.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/reductionml-core/src/sparse_namespaced_features.rs b/reductionml-core/src/sparse_namespaced_features.rs
index c1cadd6..7ef845d 100644
--- a/reductionml-core/src/sparse_namespaced_features.rs
+++ b/reductionml-core/src/sparse_namespaced_features.rs
@@ -376,6 +376,9 @@ impl SparseFeatures {
     }
 
     pub fn clear(&mut self) {
+        // Only the namespaces used last are kept for reuse. Otherwise a reused object collects every
+        // namespace there ever was.
+        self.namespaces.retain(|_, namespace| namespace.is_active());
         for namespace in self.namespaces.values_mut() {
             namespace.clear();
             namespace.set_active(false);
-- 
2.43.0


From 3c1147e4ba9c5961bae0cd96a72cf69c0176d93f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:56:48 +0000
Subject: [PATCH 36/37] fix: nested elementwise interactions lost products of
 the same namespace name and did not put it back

---
 .../src/reductions/elementwise_interaction.rs | 48 +++++++++++++++----
 1 file changed, 39 insertions(+), 9 deletions(-)

diff --git a/reductionml-core/src/reductions/elementwise_interaction.rs b/reductionml-core/src/reductions/elementwise_interaction.rs
index 92f19f5..8c953ef 100644
--- a/reductionml-core/src/reductions/elementwise_interaction.rs
+++ b/reductionml-core/src/reductions/elementwise_interaction.rs
@@ -183,6 +183,36 @@ fn elementwise_multiply(
     (composite_ns, dest_iter)
 }
 
+/// Adds the products to the features. Returns the namespace of that name there was before, such as
+/// the products of another elementwise interaction, which is to be put back by [remove_products].
+fn add_products(
+    features: &mut SparseFeatures,
+    composite_ns: Namespace,
+    products: SparseFeaturesNamespace,
+) -> Option<SparseFeaturesNamespace> {
+    let existing = features.remove_namespace(composite_ns);
+    if let Some(mut combined) = existing.clone() {
+        for (index, value) in products.iter() {
+            combined.add_feature(index, value);
+        }
+        features.set_namespace(composite_ns, combined);
+    } else {
+        features.set_namespace(composite_ns, products);
+    }
+    existing
+}
+
+fn remove_products(
+    features: &mut SparseFeatures,
+    composite_ns: Namespace,
+    existing: Option<SparseFeaturesNamespace>,
+) {
+    features.remove_namespace(composite_ns);
+    if let Some(existing) = existing {
+        features.set_namespace(composite_ns, existing);
+    }
+}
+
 #[typetag::serde]
 impl ReductionImpl for ElementwiseInteraction {
     fn predict(
@@ -196,13 +226,13 @@ impl ReductionImpl for ElementwiseInteraction {
         let (composite_ns, dest_iter) =
             elementwise_multiply(self.num_bits, sparse_feats, &self.pair.0, &self.pair.1);
 
-        sparse_feats.set_namespace(composite_ns, dest_iter);
+        let existing = add_products(sparse_feats, composite_ns, dest_iter);
         if self.keep_original_features {
             let pred = self
                 .regressor
                 .predict(&mut sparse_feats.into(), depth_info, 0.into());
             let sparse_feats: &mut SparseFeatures = features.as_inner_mut().unwrap();
-            sparse_feats.remove_namespace(composite_ns);
+            remove_products(sparse_feats, composite_ns, existing);
             pred
         } else {
             let ns1 = sparse_feats.remove_namespace(self.pair.0);
@@ -211,7 +241,7 @@ impl ReductionImpl for ElementwiseInteraction {
                 .regressor
                 .predict(&mut sparse_feats.into(), depth_info, 0.into());
             let sparse_feats: &mut SparseFeatures = features.as_inner_mut().unwrap();
-            sparse_feats.remove_namespace(composite_ns);
+            remove_products(sparse_feats, composite_ns, existing);
             if let Some(ns1) = ns1 {
                 sparse_feats.set_namespace(self.pair.0, ns1);
             }
@@ -234,7 +264,7 @@ impl ReductionImpl for ElementwiseInteraction {
         let (composite_ns, dest_iter) =
             elementwise_multiply(self.num_bits, sparse_feats, &self.pair.0, &self.pair.1);
 
-        sparse_feats.set_namespace(composite_ns, dest_iter);
+        let existing = add_products(sparse_feats, composite_ns, dest_iter);
         if self.keep_original_features {
             let pred = self.regressor.predict_then_learn(
                 &mut sparse_feats.into(),
@@ -243,7 +273,7 @@ impl ReductionImpl for ElementwiseInteraction {
                 0.into(),
             );
             let sparse_feats: &mut SparseFeatures = features.as_inner_mut().unwrap();
-            sparse_feats.remove_namespace(composite_ns);
+            remove_products(sparse_feats, composite_ns, existing);
             pred
         } else {
             let ns1 = sparse_feats.remove_namespace(self.pair.0);
@@ -255,7 +285,7 @@ impl ReductionImpl for ElementwiseInteraction {
                 0.into(),
             );
             let sparse_feats: &mut SparseFeatures = features.as_inner_mut().unwrap();
-            sparse_feats.remove_namespace(composite_ns);
+            remove_products(sparse_feats, composite_ns, existing);
             if let Some(ns1) = ns1 {
                 sparse_feats.set_namespace(self.pair.0, ns1);
             }
@@ -278,19 +308,19 @@ impl ReductionImpl for ElementwiseInteraction {
         let (composite_ns, dest_iter) =
             elementwise_multiply(self.num_bits, sparse_feats, &self.pair.0, &self.pair.1);
 
-        sparse_feats.set_namespace(composite_ns, dest_iter);
+        let existing = add_products(sparse_feats, composite_ns, dest_iter);
         if self.keep_original_features {
             self.regressor
                 .learn(&mut sparse_feats.into(), label, depth_info, 0.into());
             let sparse_feats: &mut SparseFeatures = features.as_inner_mut().unwrap();
-            sparse_feats.remove_namespace(composite_ns);
+            remove_products(sparse_feats, composite_ns, existing);
         } else {
             let ns1 = sparse_feats.remove_namespace(self.pair.0);
             let ns2 = sparse_feats.remove_namespace(self.pair.1);
             self.regressor
                 .learn(&mut sparse_feats.into(), label, depth_info, 0.into());
             let sparse_feats: &mut SparseFeatures = features.as_inner_mut().unwrap();
-            sparse_feats.remove_namespace(composite_ns);
+            remove_products(sparse_feats, composite_ns, existing);
             if let Some(ns1) = ns1 {
                 sparse_feats.set_namespace(self.pair.0, ns1);
             }
-- 
2.43.0


From 7e5f3aa1e9400f37db43b61a0e6a819471764fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:06:31 +0000
Subject: [PATCH 37/37] fix: VW text names and values keep whitespace that is
 not ASCII

---
 reductionml-core/src/parsers/vw_text_parser.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/reductionml-core/src/parsers/vw_text_parser.rs b/reductionml-core/src/parsers/vw_text_parser.rs
index 5b19483..dd45f27 100644
--- a/reductionml-core/src/parsers/vw_text_parser.rs
+++ b/reductionml-core/src/parsers/vw_text_parser.rs
@@ -226,7 +226,7 @@ fn parse_feature<'a>(feature: &'a str, offset_counter: &mut u32) -> (ParsedFeatu
             return (
                 ParsedFeature::SimpleWithStringValue {
                     name: "",
-                    value: feature[1..].trim(),
+                    value: &feature[1..],
                 },
                 1.0,
             );
@@ -243,7 +243,7 @@ fn parse_feature<'a>(feature: &'a str, offset_counter: &mut u32) -> (ParsedFeatu
                     (
                         ParsedFeature::SimpleWithStringValue {
                             name,
-                            value: value.trim(),
+                            value,
                         },
                         1.0,
                     )
@@ -427,6 +427,11 @@ pub struct VwTextParser {
     pool: std::sync::Arc<Pool<SparseFeatures>>,
 }
 
+// Other whitespace does not separate tokens, it is part of the names.
+fn trim_ascii_end(line: &str) -> &str {
+    line.trim_end_matches(|c: char| c.is_ascii_whitespace())
+}
+
 fn read_multi_lines(
     input: &mut dyn std::io::BufRead,
     mut output_buffer: String,
@@ -441,7 +446,7 @@ fn read_multi_lines(
         if bytes_read == 0 && output_buffer.is_empty() {
             return Ok(None);
         }
-        output_buffer.truncate(output_buffer.trim_end().len());
+        output_buffer.truncate(trim_ascii_end(&output_buffer).len());
 
         // If we encounter an empty line, we are done. But if we are at
         // the start (no data yet) we should just skip the empty line.
@@ -465,7 +470,7 @@ fn read_single_line(
         if bytes_read == 0 {
             return Ok(None);
         }
-        output_buffer.truncate(output_buffer.trim_end().len());
+        output_buffer.truncate(trim_ascii_end(&output_buffer).len());
 
         // If we encounter an empty line, we are done. But if we are at
         // the start (no data yet) we should just skip the empty line.
-- 
2.43.0

