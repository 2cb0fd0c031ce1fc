From 3249069226681867d96b34f4ada10f8cadfe6266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:09 +0000
Subject: [PATCH 01/24] fix: map_iter, visibility_iter and instance_iter were
 not iterators

---
 src/dataset/nuscenes.rs                      | 2 +-
 src/dataset/nuscenes/iter_impl/map.rs        | 4 ++--
 src/dataset/nuscenes/iter_impl/visibility.rs | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/dataset/nuscenes.rs b/src/dataset/nuscenes.rs
index 1761c2d..f1234ca 100644
--- a/src/dataset/nuscenes.rs
+++ b/src/dataset/nuscenes.rs
@@ -661,7 +661,7 @@ impl NuScenes {
 
     pub fn instance_iter(
         &self,
-    ) -> Iter<'_, Instance, HashMapKeys<'_, LongToken, InstanceInternal>> {
+    ) -> Iter<'_, InstanceInternal, HashMapKeys<'_, LongToken, InstanceInternal>> {
         self.refer_iter(self.instance_map.keys())
     }
 
diff --git a/src/dataset/nuscenes/iter_impl/map.rs b/src/dataset/nuscenes/iter_impl/map.rs
index 6354e05..5376d16 100644
--- a/src/dataset/nuscenes/iter_impl/map.rs
+++ b/src/dataset/nuscenes/iter_impl/map.rs
@@ -13,13 +13,13 @@ impl<'a> WithDataset<'a, Map> {
 
 impl<'a, It> Iterator for Iter<'a, Map, It>
 where
-    It: Iterator<Item = ShortToken>,
+    It: Iterator<Item = &'a ShortToken>,
 {
     type Item = WithDataset<'a, Map>;
 
     fn next(&mut self) -> Option<Self::Item> {
         self.tokens_iter
             .next()
-            .map(|token| self.refer(&self.dataset.map_map[&token]))
+            .map(|token| self.refer(&self.dataset.map_map[token]))
     }
 }
diff --git a/src/dataset/nuscenes/iter_impl/visibility.rs b/src/dataset/nuscenes/iter_impl/visibility.rs
index 524e54a..0f8f197 100644
--- a/src/dataset/nuscenes/iter_impl/visibility.rs
+++ b/src/dataset/nuscenes/iter_impl/visibility.rs
@@ -2,13 +2,13 @@ use super::super::{iter::Iter, schema::Visibility, WithDataset};
 
 impl<'a, It> Iterator for Iter<'a, Visibility, It>
 where
-    It: Iterator<Item = String>,
+    It: Iterator<Item = &'a String>,
 {
     type Item = WithDataset<'a, Visibility>;
 
     fn next(&mut self) -> Option<Self::Item> {
         self.tokens_iter
             .next()
-            .map(|token| self.refer(&self.dataset.visibility_map[&token]))
+            .map(|token| self.refer(&self.dataset.visibility_map[token]))
     }
 }
-- 
2.43.0


From 1d809be5e3d947e1bf70c9dc88f0c62e82972992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:52 +0000
Subject: [PATCH 02/24] fix: refused datasets with a sample without annotations
 or sensor data

Such samples are valid; the missing groups are empty, not an internal bug.
---
 src/dataset/nuscenes.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dataset/nuscenes.rs b/src/dataset/nuscenes.rs
index f1234ca..418b928 100644
--- a/src/dataset/nuscenes.rs
+++ b/src/dataset/nuscenes.rs
@@ -534,10 +534,10 @@ impl NuScenes {
             .map(|(sample_token, sample)| {
                 let sample_data_tokens = sample_to_sample_data_groups
                     .remove(&sample_token)
-                    .ok_or(NuScenesError::InternalBug)?;
+                    .unwrap_or_default();
                 let annotation_tokens = sample_to_annotation_groups
                     .remove(&sample_token)
-                    .ok_or(NuScenesError::InternalBug)?;
+                    .unwrap_or_default();
                 let internal = SampleInternal::from(sample, annotation_tokens, sample_data_tokens);
                 Ok((sample_token, internal))
             })
-- 
2.43.0


From 228560b194034b96e253b3f82263c72085310796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:35 +0000
Subject: [PATCH 03/24] fix: timestamps were truncated through f64 and written
 in seconds

Reading multiplied by 1000 in f64, which cannot hold ns of today and lost up
to 1 us; writing stored seconds although reading expects us.
---
 src/dataset/nuscenes/schema.rs | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/dataset/nuscenes/schema.rs b/src/dataset/nuscenes/schema.rs
index 61d43fa..0ef9841 100644
--- a/src/dataset/nuscenes/schema.rs
+++ b/src/dataset/nuscenes/schema.rs
@@ -575,26 +575,30 @@ mod timestamp_serde {
     use chrono::NaiveDateTime;
     use serde::{de::Error as DeserializeError, Deserialize, Deserializer, Serializer};
 
+    /// A timestamp in us. Integers are kept apart since f64 cannot hold every ns.
+    #[derive(Deserialize)]
+    #[serde(untagged)]
+    enum Micros {
+        Integer(i64),
+        Float(f64),
+    }
+
     pub fn serialize<S>(value: &NaiveDateTime, serializer: S) -> Result<S::Ok, S::Error>
     where
         S: Serializer,
     {
-        let timestamp = value.timestamp_nanos_opt().unwrap() as f64 / 1_000_000_000.0;
-        serializer.serialize_f64(timestamp)
+        serializer.serialize_i64(value.timestamp_micros()) // in us
     }
 
     pub fn deserialize<'de, D>(deserializer: D) -> Result<NaiveDateTime, D::Error>
     where
         D: Deserializer<'de>,
     {
-        let timestamp_us = f64::deserialize(deserializer)?; // in us
-        let timestamp_ns = (timestamp_us * 1000.0) as u64; // in ns
-        let secs = timestamp_ns / 1_000_000_000;
-        let nsecs = timestamp_ns % 1_000_000_000;
-        let datetime = NaiveDateTime::from_timestamp_opt(secs as i64, nsecs as u32);
-        match datetime {
-            Some(value) => Ok(value),
-            None => Err(D::Error::custom("Could not load timestamp")),
-        }
+        let timestamp_us = match Micros::deserialize(deserializer)? {
+            Micros::Integer(value) => value,
+            Micros::Float(value) => value.round() as i64,
+        };
+        NaiveDateTime::from_timestamp_micros(timestamp_us)
+            .ok_or_else(|| D::Error::custom("Could not load timestamp"))
     }
 }
-- 
2.43.0


From 01897b63ac3ba84e96c0c24dd9bd95bb9971c6f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:02 +0000
Subject: [PATCH 04/24] fix: walking the logs of a map panicked when one is
 absent

Loading only warns about them, so the iterator has to skip them.
---
 src/dataset/nuscenes/iter_impl/log.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/dataset/nuscenes/iter_impl/log.rs b/src/dataset/nuscenes/iter_impl/log.rs
index 68479ca..471b633 100644
--- a/src/dataset/nuscenes/iter_impl/log.rs
+++ b/src/dataset/nuscenes/iter_impl/log.rs
@@ -22,8 +22,10 @@ where
     type Item = WithDataset<'a, Log>;
 
     fn next(&mut self) -> Option<Self::Item> {
+        // logs named by a map may be absent from the dataset
+        let log_map = &self.dataset.log_map;
         self.tokens_iter
-            .next()
-            .map(|token| self.refer(&self.dataset.log_map[token]))
+            .find_map(|token| log_map.get(token))
+            .map(|log| self.refer(log))
     }
 }
-- 
2.43.0


From c035333c6c1067a6594d760d12115cd19871ee5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:43 +0000
Subject: [PATCH 05/24] fix: order of frames and objects depended on hash seeds

Annotations and sensor data of a sample followed the iteration order of a
HashMap, and so did records with equal timestamps.
---
 src/dataset/nuscenes.rs        | 14 ++++++++++----
 src/dataset/nuscenes/schema.rs |  2 +-
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/dataset/nuscenes.rs b/src/dataset/nuscenes.rs
index 418b928..8ac957d 100644
--- a/src/dataset/nuscenes.rs
+++ b/src/dataset/nuscenes.rs
@@ -503,6 +503,9 @@ impl NuScenes {
                 )
             })
             .into_group_map();
+        sample_to_annotation_groups
+            .values_mut()
+            .for_each(|tokens| tokens.sort());
 
         // keep track of relations from samples to sample data
         let mut sample_to_sample_data_groups = sample_data_map
@@ -511,6 +514,9 @@ impl NuScenes {
                 (sample_data.sample_token.clone(), sample_data_token.clone())
             })
             .into_group_map();
+        sample_to_sample_data_groups
+            .values_mut()
+            .for_each(|tokens| tokens.sort());
 
         // convert some types for ease of usage
         let instance_internal_map = instance_map
@@ -549,7 +555,7 @@ impl NuScenes {
                 .iter()
                 .map(|(sample_token, sample)| (sample_token, sample.timestamp))
                 .collect::<Vec<_>>();
-            sorted_pairs.sort_by_cached_key(|(_, timestamp)| *timestamp);
+            sorted_pairs.sort_by_key(|(token, timestamp)| (*timestamp, *token));
 
             sorted_pairs
                 .into_iter()
@@ -563,7 +569,7 @@ impl NuScenes {
                 .iter()
                 .map(|(sample_token, sample)| (sample_token, sample.timestamp))
                 .collect::<Vec<_>>();
-            sorted_pairs.sort_by_cached_key(|(_, timestamp)| *timestamp);
+            sorted_pairs.sort_by_key(|(token, timestamp)| (*timestamp, *token));
 
             sorted_pairs
                 .into_iter()
@@ -577,7 +583,7 @@ impl NuScenes {
                 .iter()
                 .map(|(sample_token, sample)| (sample_token, sample.timestamp))
                 .collect::<Vec<_>>();
-            sorted_pairs.sort_by_cached_key(|(_, timestamp)| *timestamp);
+            sorted_pairs.sort_by_key(|(token, timestamp)| (*timestamp, *token));
 
             sorted_pairs
                 .into_iter()
@@ -607,7 +613,7 @@ impl NuScenes {
                     Ok((scene_token, timestamp))
                 })
                 .collect::<NuScenesResult<Vec<_>>>()?;
-            sorted_pairs.sort_by_cached_key(|(_, timestamp)| *timestamp);
+            sorted_pairs.sort_by_key(|(token, timestamp)| (*timestamp, *token));
 
             sorted_pairs
                 .into_iter()
diff --git a/src/dataset/nuscenes/schema.rs b/src/dataset/nuscenes/schema.rs
index 0ef9841..f9d02cf 100644
--- a/src/dataset/nuscenes/schema.rs
+++ b/src/dataset/nuscenes/schema.rs
@@ -12,7 +12,7 @@ pub const SHORT_TOKEN_LENGTH: usize = 16;
 
 pub type CameraIntrinsic = Option<[[f64; 3]; 3]>;
 
-#[derive(Debug, Clone, PartialEq, Eq, Hash)]
+#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
 pub struct LongToken([u8; LONG_TOKEN_LENGTH]);
 
 impl Display for LongToken {
-- 
2.43.0


From dba55e031eb0058e0ea9ac844bbf21633d0f2b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:19 +0000
Subject: [PATCH 06/24] fix: order of AP and APH in the report changed from
 call to call

They were kept in a HashMap.
---
 src/metrics/detection.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/metrics/detection.rs b/src/metrics/detection.rs
index f6600db..ba6921f 100644
--- a/src/metrics/detection.rs
+++ b/src/metrics/detection.rs
@@ -1,7 +1,7 @@
 use super::tp_metrics::{TPMetrics, TPMetricsAP, TPMetricsAPH};
 use crate::{label::Label, matching::MatchingMode, result::object::PerceptionResult};
 use std::{
-    collections::HashMap,
+    collections::{BTreeMap, HashMap},
     fmt::{Display, Formatter, Result as FormatResult},
 };
 
@@ -11,7 +11,7 @@ pub(crate) struct DetectionMetricsScore {
     pub(crate) target_labels: Vec<Label>,
     pub(crate) matching_mode: MatchingMode,
     pub(crate) thresholds: Vec<f64>,
-    pub(crate) scores: HashMap<String, Vec<f64>>,
+    pub(crate) scores: BTreeMap<String, Vec<f64>>,
 }
 
 impl DetectionMetricsScore {
@@ -29,7 +29,7 @@ impl DetectionMetricsScore {
         matching_mode: &MatchingMode,
         matching_thresholds: &Vec<f64>,
     ) -> Self {
-        let mut scores = HashMap::new();
+        let mut scores = BTreeMap::new();
         let num_targets = target_labels.len();
         let mut ap_list = vec![0.0; num_targets];
         let mut aph_list = vec![0.0; num_targets];
-- 
2.43.0


From 8c12c45869cddd396ed53bc61b51f57a07243adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:10 +0000
Subject: [PATCH 07/24] fix: matching paired objects several times and dropped
 unpaired detections

Each round took one ground truth for every detection without checking
whether it was already taken, and the rest kept the wrong detections.
---
 src/result/object.rs | 55 ++++++++++++++++++++------------------------
 1 file changed, 25 insertions(+), 30 deletions(-)

diff --git a/src/result/object.rs b/src/result/object.rs
index d679461..8c33f3e 100644
--- a/src/result/object.rs
+++ b/src/result/object.rs
@@ -252,46 +252,41 @@ pub fn get_perception_results(
         let mut took_indices = Vec::new();
         let num_estimated_objects = estimated_objects.len();
         for _ in 0..num_estimated_objects {
-            if score_table
-                .iter()
-                .all(|row| row.iter().all(|col| col.is_none()))
-            {
-                break;
-            }
-            for (est_idx, row_table) in score_table.iter_mut().enumerate() {
-                let (gt_idx, _) = row_table.iter().enumerate().fold(
-                    (usize::MAX, f64::MAX),
-                    |(a_idx, a), (b_idx, b)| match b {
-                        Some(b) => {
-                            if a < *b {
-                                (a_idx, a)
-                            } else {
-                                (b_idx, *b)
-                            }
+            // take the closest pair out of the remaining ones
+            let mut best = None;
+            let mut best_score = f64::INFINITY;
+            for (est_idx, row_table) in score_table.iter().enumerate() {
+                for (gt_idx, score) in row_table.iter().enumerate() {
+                    if let Some(score) = score {
+                        if *score < best_score {
+                            best = Some((est_idx, gt_idx));
+                            best_score = *score;
                         }
-                        None => (a_idx, a),
-                    },
-                );
-
-                if gt_idx == usize::MAX {
-                    continue;
+                    }
                 }
+            }
 
-                results.push(PerceptionResult {
-                    estimated_object: estimated_objects[est_idx].to_owned(),
-                    ground_truth_object: Some(ground_truth_objects[gt_idx].to_owned()),
-                });
+            let (est_idx, gt_idx) = match best {
+                Some(indices) => indices,
+                None => break,
+            };
 
-                row_table[gt_idx] = None;
-                took_indices.push(est_idx);
-            }
+            results.push(PerceptionResult {
+                estimated_object: estimated_objects[est_idx].to_owned(),
+                ground_truth_object: Some(ground_truth_objects[gt_idx].to_owned()),
+            });
+
+            // both objects must not be paired again
+            score_table[est_idx].iter_mut().for_each(|col| *col = None);
+            score_table.iter_mut().for_each(|row| row[gt_idx] = None);
+            took_indices.push(est_idx);
         }
 
         if took_indices.len() < num_estimated_objects {
             let index_list = (0..num_estimated_objects).collect::<Vec<usize>>();
             let mut fp_estimated_objects = Vec::new();
             index_list.iter().for_each(|idx| {
-                if took_indices.contains(idx) {
+                if !took_indices.contains(idx) {
                     fp_estimated_objects.push(estimated_objects[*idx].to_owned());
                 }
             });
-- 
2.43.0


From 0c67a6d9dbf6eaf6e8906edca22e077d1815aba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:36 +0000
Subject: [PATCH 08/24] fix: AP ignored confidences and the area below the
 first recall

Results are ranked by descending confidence, the precision envelope is taken
from the right and integrated down to recall 0; without any result but with
ground truths AP is 0 instead of a panic.
---
 src/metrics/detection.rs | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/metrics/detection.rs b/src/metrics/detection.rs
index ba6921f..020bd58 100644
--- a/src/metrics/detection.rs
+++ b/src/metrics/detection.rs
@@ -129,8 +129,10 @@ impl<'a> Ap<'a> {
         let (max_precision_list, max_recall_list) =
             self.interpolate_precision_recall(precision_list, recall_list);
 
-        if max_precision_list.is_empty() {
+        if self.results.is_empty() && *self.num_ground_truth == 0 {
             f64::NAN
+        } else if self.results.is_empty() {
+            0.0
         } else {
             let mut ap = 0.0;
             for i in 0..max_precision_list.len() - 1 {
@@ -149,17 +151,21 @@ impl<'a> Ap<'a> {
         precision_list: Vec<f64>,
         recall_list: Vec<f64>,
     ) -> (Vec<f64>, Vec<f64>) {
-        if self.results.is_empty() && *self.num_ground_truth == 0 {
+        if self.results.is_empty() {
             (Vec::new(), Vec::new())
         } else {
             let mut max_precision_list = vec![*precision_list.last().unwrap()];
             let mut max_recall_list = vec![*recall_list.last().unwrap()];
-            for i in 0..recall_list.len() - 1 {
+            // walk from the last result to the first one so that the maximum precision
+            // covers every recall up to the current one
+            for i in (0..recall_list.len() - 1).rev() {
                 if max_precision_list.last().unwrap() < &precision_list[i] {
                     max_precision_list.push(precision_list[i]);
                     max_recall_list.push(recall_list[i]);
                 }
             }
+            max_precision_list.push(*max_precision_list.last().unwrap());
+            max_recall_list.push(0.0);
             (max_precision_list, max_recall_list)
         }
     }
@@ -211,7 +217,15 @@ impl<'a> Ap<'a> {
             let mut tp_list = vec![0.0; num_results];
             let mut fp_list = vec![0.0; num_results];
 
-            self.results.iter().enumerate().for_each(|(i, result)| {
+            // in descending order of the confidence
+            let mut sorted_results = self.results.iter().collect::<Vec<_>>();
+            sorted_results.sort_by(|a, b| {
+                b.estimated_object
+                    .confidence
+                    .total_cmp(&a.estimated_object.confidence)
+            });
+
+            sorted_results.iter().enumerate().for_each(|(i, result)| {
                 if result.is_result_correct(matching_mode, threshold).unwrap() {
                     tp_list[i] = tp_metrics.get_value(result);
                 } else {
-- 
2.43.0


From 5effb2cd82ef50c300ba5338eb1b3e59aaeb5b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:57 +0000
Subject: [PATCH 09/24] fix: ground truths of a label listed twice were counted
 twice

---
 src/manager.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/manager.rs b/src/manager.rs
index 96ea69b..947f2c2 100644
--- a/src/manager.rs
+++ b/src/manager.rs
@@ -1,6 +1,7 @@
 use std::collections::HashMap;
 
 use chrono::NaiveDateTime;
+use itertools::Itertools;
 
 use crate::{
     config::PerceptionEvaluationConfig,
@@ -129,7 +130,8 @@ impl<'a> PerceptionEvaluationManager<'a> {
         self.frame_results.iter().for_each(|frame| {
             let mut result_map = hash_results(frame.results(), target_labels);
             let num_gt_map = hash_num_objects(&frame.frame_ground_truth().objects, target_labels);
-            target_labels.iter().for_each(|label| {
+            // labels can be listed several times, e.g. as names of the same label
+            target_labels.iter().unique().for_each(|label| {
                 if let Some(results) = scene_results.get_mut(label) {
                     if let Some(result) = result_map.get_mut(label) {
                         results.append(result)
-- 
2.43.0


From 7ae638229121072b668fc1fdef971fd6f54be2ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:43 +0000
Subject: [PATCH 10/24] fix: ground truths alike a found one were not reported
 as missed

A TP claims one ground truth only, and == compares neither size nor uuid.
---
 src/result/frame.rs | 40 +++++++++++++++++++++++-----------------
 1 file changed, 23 insertions(+), 17 deletions(-)

diff --git a/src/result/frame.rs b/src/result/frame.rs
index 2a9fa30..ecf8a33 100644
--- a/src/result/frame.rs
+++ b/src/result/frame.rs
@@ -121,31 +121,37 @@ fn extract_fn_objects(
     ground_truths: &[DynamicObject],
     tp_results: &[PerceptionResult],
 ) -> Vec<DynamicObject> {
+    // every TP stands for exactly one GT, even if others are alike
+    let mut claimed_objects = tp_results
+        .iter()
+        .filter_map(|tp| tp.ground_truth_object.as_ref())
+        .collect::<Vec<_>>();
     let mut fn_objects = Vec::new();
 
     ground_truths.iter().for_each(|gt| {
-        if is_fn_object(gt, tp_results) {
-            fn_objects.push(gt.clone());
+        match claimed_objects
+            .iter()
+            .position(|claimed| is_same_object(claimed, gt))
+        {
+            Some(index) => {
+                claimed_objects.swap_remove(index);
+            }
+            None => fn_objects.push(gt.clone()),
         }
     });
 
     fn_objects
 }
 
-/// Check whether the input ground truth is contained in the input list of TP results.
+/// Check whether two objects are the same one including the fields which `==` does not compare.
 ///
-/// * `ground_truth`: GT object.
-/// * `tp_results`  : List of TP results.
-fn is_fn_object(ground_truth: &DynamicObject, tp_results: &[PerceptionResult]) -> bool {
-    for tp in tp_results {
-        match &tp.ground_truth_object {
-            Some(gt) => {
-                if gt == ground_truth {
-                    return false;
-                }
-            }
-            None => (),
-        }
-    }
-    true
+/// * `a`   : Object.
+/// * `b`   : Object.
+fn is_same_object(a: &DynamicObject, b: &DynamicObject) -> bool {
+    a == b
+        && a.size == b.size
+        && a.velocity == b.velocity
+        && a.confidence == b.confidence
+        && a.pointcloud_num == b.pointcloud_num
+        && a.uuid == b.uuid
 }
-- 
2.43.0


From a9faa1624c02ee0f9472723c96ba66c9c1b5be7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:28 +0000
Subject: [PATCH 11/24] fix: rotating a point applied the inverse rotation

A row vector has to be multiplied by the transposed matrix.
---
 src/utils/math.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/math.rs b/src/utils/math.rs
index 303b72f..9856ffd 100644
--- a/src/utils/math.rs
+++ b/src/utils/math.rs
@@ -149,7 +149,7 @@ pub fn translate_inv(xyz1: &[f64; 3], xyz2: &[f64; 3]) -> [f64; 3] {
 /// ```
 pub fn rotate(xyz: &[f64; 3], q: &[f64; 4]) -> [f64; 3] {
     let rot = quaternion2rotation(q);
-    let position = PositionMatrix::new(xyz[0], xyz[1], xyz[2]) * rot;
+    let position = PositionMatrix::new(xyz[0], xyz[1], xyz[2]) * rot.transpose();
     let row = position.row(0);
     [row[0], row[1], row[2]]
 }
-- 
2.43.0


From 35108fb1fc74a609e7da691d5bede6beb2062b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:44 +0000
Subject: [PATCH 12/24] fix: rotating an orientation multiplied the quaternions
 element by element

---
 src/utils/math.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/utils/math.rs b/src/utils/math.rs
index 9856ffd..55a6bb7 100644
--- a/src/utils/math.rs
+++ b/src/utils/math.rs
@@ -192,11 +192,14 @@ pub fn rotate_inv(xyz: &[f64; 3], q: &[f64; 4]) -> [f64; 3] {
 /// assert_eq!(ret, [1.0, 0.0, 0.0, 0.0]);
 /// ```
 pub fn rotate_q(q1: &[f64; 4], q2: &[f64; 4]) -> [f64; 4] {
-    let mut ret = q1.to_owned();
-    for i in 0..4 {
-        ret[i] *= q2[i];
-    }
-    ret
+    let [w1, x1, y1, z1] = q1;
+    let [w2, x2, y2, z2] = q2;
+    [
+        w2 * w1 - x2 * x1 - y2 * y1 - z2 * z1,
+        w2 * x1 + x2 * w1 + y2 * z1 - z2 * y1,
+        w2 * y1 - x2 * z1 + y2 * w1 + z2 * x1,
+        w2 * z1 + x2 * y1 - y2 * x1 + z2 * w1,
+    ]
 }
 
 /// Inverse rotate `q1` with input `q2`.
-- 
2.43.0


From 4e92fcb0e9b5bb350d4a4dd2e74ed2270d0836da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:00 +0000
Subject: [PATCH 13/24] fix: footprint was rotated into the opposite direction

---
 src/object/object3d.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/object/object3d.rs b/src/object/object3d.rs
index 1f76a00..498eb0a 100644
--- a/src/object/object3d.rs
+++ b/src/object/object3d.rs
@@ -436,7 +436,7 @@ impl DynamicObject {
         center2corners
             .row_iter()
             .map(|corner| {
-                let mat = corner * rot + position;
+                let mat = corner * rot.transpose() + position;
                 [mat[(0, 0)], mat[(0, 1)], mat[(0, 2)]]
             })
             .collect()
-- 
2.43.0


From f98b80d1635c802355bc323adc629c41cf300b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:15 +0000
Subject: [PATCH 14/24] fix: headings beyond 90 degrees were folded into the
 front half plane

---
 src/utils/math.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils/math.rs b/src/utils/math.rs
index 55a6bb7..c8f3576 100644
--- a/src/utils/math.rs
+++ b/src/utils/math.rs
@@ -52,13 +52,13 @@ pub fn quaternion2rotation(q: &[f64; 4]) -> RotationMatrix<f64> {
 /// ```
 pub fn quaternion2euler(q: &[f64; 4]) -> [f64; 3] {
     let [q0, q1, q2, q3] = q;
-    let roll = (2.0 * (q0 * q1 + q2 * q3) / (1.0 - 2.0 * (q1.powi(2) + q2.powi(2)))).atan();
+    let roll = (2.0 * (q0 * q1 + q2 * q3)).atan2(1.0 - 2.0 * (q1.powi(2) + q2.powi(2)));
     let pitch = -0.5 * PI
         + 2.0
             * ((1.0 + 2.0 * (q0 * q2 - q1 * q3)) / (1.0 - 2.0 * (q0 * q2 - q1 * q3)))
                 .sqrt()
                 .atan();
-    let yaw = (2.0 * (q0 * q3 + q1 * q2) / (1.0 - 2.0 * (q2.powi(2) + q3.powi(2)))).atan();
+    let yaw = (2.0 * (q0 * q3 + q1 * q2)).atan2(1.0 - 2.0 * (q2.powi(2) + q3.powi(2)));
     [roll, pitch, yaw]
 }
 
-- 
2.43.0


From 4de22b80f7a3b8ed28433a7f36984968305cf44f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:59 +0000
Subject: [PATCH 15/24] fix: a detection with an undefined corner panicked the
 plane distance

---
 src/matching.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/matching.rs b/src/matching.rs
index 5c2a90c..f405609 100644
--- a/src/matching.rs
+++ b/src/matching.rs
@@ -75,7 +75,7 @@ impl MatchingMethod for PlaneDistanceMatching {
         let sort_func = |p1: &[f64; 3], p2: &[f64; 3]| -> Ordering {
             let d1 = p1[0].hypot(p1[1]);
             let d2 = p2[0].hypot(p2[1]);
-            d1.partial_cmp(&d2).unwrap()
+            d1.total_cmp(&d2)
         };
 
         let mut est_footprint = estimated_object.footprint();
-- 
2.43.0


From 9201941fb809b508a244fbc85b14a244e16e1606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:30 +0000
Subject: [PATCH 16/24] fix: point clouds were transposed and refused depending
 on alignment

The buffer was taken as column-major although points are stored one after
another, and transmuting needs an aligned buffer, which Vec<u8> is not.
---
 src/dataset/nuscenes/iter_impl/sample_data.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/dataset/nuscenes/iter_impl/sample_data.rs b/src/dataset/nuscenes/iter_impl/sample_data.rs
index 7531258..4b581a3 100644
--- a/src/dataset/nuscenes/iter_impl/sample_data.rs
+++ b/src/dataset/nuscenes/iter_impl/sample_data.rs
@@ -6,11 +6,11 @@ use super::super::{
     {LoadedSampleData, PointCloudMatrix, WithDataset},
 };
 // use memmap::MmapOptions;
-use nalgebra::{Dyn, VecStorage, U5};
-use safe_transmute::guard::SingleManyGuard;
+use nalgebra::{Dyn, U5};
 use std::{
     fs::File,
     io::{prelude::*, BufReader, Result as IoResult},
+    mem::size_of,
 };
 
 impl<'a> WithDataset<'a, SampleData> {
@@ -42,16 +42,18 @@ impl<'a> WithDataset<'a, SampleData> {
                 match dirname {
                     "lidar" => {
                         let bytes = self.load_raw()?;
-                        let values = safe_transmute::transmute_many::<f32, SingleManyGuard>(&bytes)
-                            .map_err(|_| NuScenesError::CorruptedFile(path.clone()))?;
-                        if values.len() % 5 != 0 {
+                        if bytes.len() % (5 * size_of::<f32>()) != 0 {
                             return Err(NuScenesError::CorruptedFile(path));
                         }
+                        let values = bytes
+                            .chunks_exact(size_of::<f32>())
+                            .map(|b| f32::from_le_bytes([b[0], b[1], b[2], b[3]]))
+                            .collect::<Vec<_>>();
                         let n_rows = values.len() / 5;
 
-                        // TODO: this step takes one copy of the buffer. try to use more efficient impl.
-                        let storage = VecStorage::new(Dyn(n_rows), U5, Vec::from(values));
-                        let matrix = PointCloudMatrix::from_data(storage);
+                        // the points are stored one after another
+                        let matrix =
+                            PointCloudMatrix::from_row_slice_generic(Dyn(n_rows), U5, &values);
                         LoadedSampleData::PointCloud(matrix)
                     }
                     _ => {
-- 
2.43.0


From 33bedef0322132d214a5cf16b50b3fb328bc1178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:48 +0000
Subject: [PATCH 17/24] fix: point clouds stored below the name of their
 channel were refused

That is how nuscenes and tests/sample_data store them (data/LIDAR_TOP).
---
 src/dataset/nuscenes/iter_impl/sample_data.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/dataset/nuscenes/iter_impl/sample_data.rs b/src/dataset/nuscenes/iter_impl/sample_data.rs
index 4b581a3..29fe9f5 100644
--- a/src/dataset/nuscenes/iter_impl/sample_data.rs
+++ b/src/dataset/nuscenes/iter_impl/sample_data.rs
@@ -2,7 +2,7 @@ use super::super::{
     error::{NuScenesError, NuScenesResult},
     internal::SampleInternal,
     iter::Iter,
-    schema::{CalibratedSensor, EgoPose, FileFormat, LongToken, SampleData},
+    schema::{CalibratedSensor, EgoPose, FileFormat, LongToken, Modality, SampleData},
     {LoadedSampleData, PointCloudMatrix, WithDataset},
 };
 // use memmap::MmapOptions;
@@ -39,8 +39,10 @@ impl<'a> WithDataset<'a, SampleData> {
 
         let data = match self.inner.fileformat {
             FileFormat::Bin => {
+                let modality = &self.calibrated_sensor().sensor().inner.modality;
                 match dirname {
-                    "lidar" => {
+                    // nuscenes names the directories after the channel, e.g. LIDAR_TOP
+                    _ if dirname == "lidar" || *modality == Modality::Lidar => {
                         let bytes = self.load_raw()?;
                         if bytes.len() % (5 * size_of::<f32>()) != 0 {
                             return Err(NuScenesError::CorruptedFile(path));
-- 
2.43.0


From 732e095be868efc1018b9f99c2d83936856a3bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:39 +0000
Subject: [PATCH 18/24] fix: dataset of a scenario depended on hash seeds

With several entries the path was pieced together from all of them and the
version taken from whichever came last.
---
 src/config.rs        | 10 ++++------
 src/config/schema.rs |  4 ++--
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/config.rs b/src/config.rs
index 4e24f01..30fa13b 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -78,12 +78,10 @@ impl PerceptionEvaluationConfig {
         let datasets = scenario.evaluation.datasets;
 
         // TODO
-        let mut dataset_path = PathBuf::new();
-        let mut version = String::new();
-        for (key, value) in &datasets[0] {
-            dataset_path.set_file_name(key);
-            version = value.version.clone();
-        }
+        let (dataset_path, version) = match datasets[0].iter().next() {
+            Some((key, value)) => (PathBuf::from(key), value.version.clone()),
+            None => (PathBuf::new(), String::new()),
+        };
 
         let params = scenario.evaluation.config.params;
         let target_labels = params.target_labels.iter().map(|s| s as &str).collect_vec();
diff --git a/src/config/schema.rs b/src/config/schema.rs
index 0a05de1..b7998ac 100644
--- a/src/config/schema.rs
+++ b/src/config/schema.rs
@@ -1,4 +1,4 @@
-use std::{collections::HashMap, path::PathBuf};
+use std::{collections::BTreeMap, path::PathBuf};
 
 use serde::{Deserialize, Serialize};
 
@@ -27,7 +27,7 @@ pub(super) struct Evaluation {
     #[serde(rename = "UseCaseFormatVersion")]
     pub(super) version: String,
     #[serde(rename = "Datasets")]
-    pub(super) datasets: Vec<HashMap<String, Dataset>>,
+    pub(super) datasets: Vec<BTreeMap<String, Dataset>>,
     #[serde(rename = "Conditions")]
     pub(super) conditions: Conditions,
     #[serde(rename = "PerceptionEvaluationConfig")]
-- 
2.43.0


From 9544054167805502484617255efa1c1713b692ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:11 +0000
Subject: [PATCH 19/24] fix: configuring the logger a second time failed

The logger of a process can be installed only once; later sessions replace its
configuration.
---
 src/utils/logger.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/utils/logger.rs b/src/utils/logger.rs
index 5ffa2df..05d3251 100644
--- a/src/utils/logger.rs
+++ b/src/utils/logger.rs
@@ -3,12 +3,17 @@ use log4rs::{
     append::file::FileAppender,
     config::{Appender, Config, Root},
     encode::pattern::PatternEncoder,
+    Handle,
 };
 use std::error::Error;
 use std::path::Path;
+use std::sync::{Mutex, PoisonError};
 
 pub type LoggerResult<T> = std::result::Result<T, Box<dyn Error>>;
 
+/// Handle of the logger of this process, which can be installed only once.
+static HANDLE: Mutex<Option<Handle>> = Mutex::new(None);
+
 /// Configure logger instance.
 /// The log output will be saved in `log_dir/output.log`.
 ///
@@ -44,7 +49,11 @@ pub fn configure_logger(log_dir: &Path, level: Level) -> LoggerResult<()> {
         .appender(Appender::builder().build("logfile", Box::new(logfile)))
         .build(Root::builder().appender("logfile").build(level_filter))?;
 
-    log4rs::init_config(config)?;
+    let mut handle = HANDLE.lock().unwrap_or_else(PoisonError::into_inner);
+    match handle.as_ref() {
+        Some(handle) => handle.set_config(config),
+        None => *handle = Some(log4rs::init_config(config)?),
+    }
 
     Ok(())
 }
-- 
2.43.0


From 14e4fa42246570bfca4a4f6a9515b02cdac037b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:39 +0000
Subject: [PATCH 20/24] fix: asking for trace records gave info records only

---
 src/utils/logger.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/logger.rs b/src/utils/logger.rs
index 05d3251..3df5fad 100644
--- a/src/utils/logger.rs
+++ b/src/utils/logger.rs
@@ -38,11 +38,11 @@ pub fn configure_logger(log_dir: &Path, level: Level) -> LoggerResult<()> {
         .build(log_dir.join("output.log"))?;
 
     let level_filter: LevelFilter = match level {
+        Level::Trace => LevelFilter::Trace,
         Level::Debug => LevelFilter::Debug,
         Level::Info => LevelFilter::Info,
         Level::Warn => LevelFilter::Warn,
         Level::Error => LevelFilter::Error,
-        _ => LevelFilter::Info,
     };
 
     let config: Config = Config::builder()
-- 
2.43.0


From d6852dc41efccffa139a69763e244d30affdefe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:14 +0000
Subject: [PATCH 21/24] fix: a log file that cannot be created panicked the
 configuration

---
 src/config.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/config.rs b/src/config.rs
index 30fa13b..14f0b66 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -106,7 +106,8 @@ impl PerceptionEvaluationConfig {
         let log_dir = result_dir.join("log");
         let viz_dir = result_dir.join("visualize");
 
-        configure_logger(&log_dir, log::Level::Debug).unwrap();
+        configure_logger(&log_dir, log::Level::Debug)
+            .map_err(|err| IoError::other(err.to_string()))?;
 
         let config = Self {
             version,
-- 
2.43.0


From 7a35298c3b700c1b950394fe9876cb2dcc9acc46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:34 +0000
Subject: [PATCH 22/24] fix: an unknown task or frame id in a scenario panicked

---
 src/config/schema.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/config/schema.rs b/src/config/schema.rs
index b7998ac..730dc46 100644
--- a/src/config/schema.rs
+++ b/src/config/schema.rs
@@ -89,7 +89,7 @@ mod evaluation_task_serde {
     use std::str::FromStr;
 
     use crate::evaluation_task::EvaluationTask;
-    use serde::{Deserialize, Deserializer, Serializer};
+    use serde::{de::Error as DeserializeError, Deserialize, Deserializer, Serializer};
 
     pub fn serialize<S>(value: &EvaluationTask, serializer: S) -> Result<S::Ok, S::Error>
     where
@@ -104,15 +104,14 @@ mod evaluation_task_serde {
         D: Deserializer<'de>,
     {
         let task_str = String::deserialize(deserializer)?;
-        let task = EvaluationTask::from_str(&task_str).unwrap(); // TODO: update result type
-        Ok(task)
+        EvaluationTask::from_str(&task_str).map_err(D::Error::custom)
     }
 }
 
 mod frame_id_serde {
     use std::str::FromStr;
 
-    use serde::{Deserialize, Deserializer, Serializer};
+    use serde::{de::Error as DeserializeError, Deserialize, Deserializer, Serializer};
 
     use crate::frame_id::FrameID;
 
@@ -129,7 +128,6 @@ mod frame_id_serde {
         D: Deserializer<'de>,
     {
         let frame_id_str = String::deserialize(deserializer)?;
-        let frame_id = FrameID::from_str(&frame_id_str).unwrap(); // TODO
-        Ok(frame_id)
+        FrameID::from_str(&frame_id_str).map_err(D::Error::custom)
     }
 }
-- 
2.43.0


From 026db50208f9d24381959599e7f36ad698644857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:54 +0000
Subject: [PATCH 23/24] fix: a scenario without any dataset panicked or was
 accepted

---
 src/config.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/config.rs b/src/config.rs
index 14f0b66..d3dd023 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -78,10 +78,11 @@ impl PerceptionEvaluationConfig {
         let datasets = scenario.evaluation.datasets;
 
         // TODO
-        let (dataset_path, version) = match datasets[0].iter().next() {
-            Some((key, value)) => (PathBuf::from(key), value.version.clone()),
-            None => (PathBuf::new(), String::new()),
-        };
+        let (dataset_path, version) = datasets
+            .first()
+            .and_then(|dataset| dataset.iter().next())
+            .map(|(key, value)| (PathBuf::from(key), value.version.clone()))
+            .ok_or_else(|| ConfigError::KeyError("Datasets".to_string()))?;
 
         let params = scenario.evaluation.config.params;
         let target_labels = params.target_labels.iter().map(|s| s as &str).collect_vec();
-- 
2.43.0


From 69d77f63faa9ee9d4c2b915107a70e29acabd154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:01 +0000
Subject: [PATCH 24/24] fix: objects were duplicated when several lidar records
 share the sample's time

---
 src/dataset.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/dataset.rs b/src/dataset.rs
index d1ad518..ba7782e 100644
--- a/src/dataset.rs
+++ b/src/dataset.rs
@@ -113,6 +113,8 @@ fn sample_to_frame(
                 uuid: Some(nusc_box.instance.to_string()),
             });
         });
+        // every lidar record of the sample sees the same annotations
+        break;
     }
 
     let ret = FrameGroundTruth {
-- 
2.43.0

