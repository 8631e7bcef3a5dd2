From 961ca866b214b8781b234cd17d4acb7c6739a367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:53 +0000
Subject: [PATCH 01/25] fix: animated path is NaN exactly at its last keyframe

At the last (or only) keyframe the interpolation weight was 0 / 0.
---
 src/runtime/model/value.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/runtime/model/value.rs b/src/runtime/model/value.rs
index 10ca3cb..c8a4681 100644
--- a/src/runtime/model/value.rs
+++ b/src/runtime/model/value.rs
@@ -138,7 +138,12 @@ impl Time {
             i: EasingHandle { x: t0_ix, y: t0_iy },
         };
         let hold = t0.hold;
-        let t = (frame - t0.frame) / (t1.frame - t0.frame);
+        let t = if t1.frame == t0.frame {
+            // No span to interpolate over (the last keyframe): avoid 0 / 0
+            0.0
+        } else {
+            (frame - t0.frame) / (t1.frame - t0.frame)
+        };
         Some(([ix0, ix1], t.clamp(0.0, 1.0), easing, hold))
     }
 }
-- 
2.43.0


From 631f2d5dfb870347f1157571fcce7e843eb658f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:53 +0000
Subject: [PATCH 02/25] fix: animated paths ignore their keyframe easing

---
 src/runtime/model/animated.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/runtime/model/animated.rs b/src/runtime/model/animated.rs
index 94edfdb..fa6cb80 100644
--- a/src/runtime/model/animated.rs
+++ b/src/runtime/model/animated.rs
@@ -303,11 +303,15 @@ impl Spline {
     /// Evaluates the spline at the given frame and emits the elements
     /// to the specified path.
     pub fn evaluate(&self, frame: f64, path: &mut Vec<PathEl>) -> bool {
-        let Some(([ix0, ix1], t, _easing, hold)) = Time::frames_and_weight(&self.times, frame)
+        let Some(([ix0, ix1], t, easing, hold)) = Time::frames_and_weight(&self.times, frame)
         else {
             return false;
         };
-        let t = if hold { 0.0 } else { t };
+        let t = if hold {
+            0.0
+        } else {
+            0.0.tween(&1.0, t, &easing)
+        };
         let (Some(from), Some(to)) = (self.values.get(ix0), self.values.get(ix1)) else {
             return false;
         };
-- 
2.43.0


From 24087404150c2672518985e2b9b915446b664623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:53 +0000
Subject: [PATCH 03/25] fix: gradient stop offsets move during a hold keyframe

---
 src/runtime/model/animated.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/runtime/model/animated.rs b/src/runtime/model/animated.rs
index fa6cb80..bdb68be 100644
--- a/src/runtime/model/animated.rs
+++ b/src/runtime/model/animated.rs
@@ -485,6 +485,7 @@ impl ColorStops {
 
     fn evaluate_inner(&self, frame: f64) -> Option<fixed::ColorStops> {
         let ([ix0, ix1], t, easing, hold) = Time::frames_and_weight(&self.frames, frame)?;
+        let t = if hold { 0.0 } else { t };
 
         let v0 = self.values.get(ix0)?;
         let v1 = self.values.get(ix1)?;
@@ -493,7 +494,6 @@ impl ColorStops {
         for i in 0..self.count {
             let j = i * 5;
             let offset = v0.get(j)?.tween(v1.get(j)?, t, &easing);
-            let t = if hold { 0.0 } else { t };
             let r = v0.get(j + 1)?.tween(v1.get(j + 1)?, t, &easing);
             let g = v0.get(j + 2)?.tween(v1.get(j + 2)?, t, &easing);
             let b = v0.get(j + 3)?.tween(v1.get(j + 3)?, t, &easing);
-- 
2.43.0


From d076e9667c45843259fc5fb830800824964659b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:53 +0000
Subject: [PATCH 04/25] fix: omitted scale means 100%, not 1%

---
 src/import/converters.rs | 6 +++---
 src/import/defaults.rs   | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/import/converters.rs b/src/import/converters.rs
index ebd77e5..7d67b0e 100644
--- a/src/import/converters.rs
+++ b/src/import/converters.rs
@@ -2,7 +2,7 @@
 // SPDX-License-Identifier: Apache-2.0 OR MIT
 
 use super::builders::{setup_layer_base, setup_precomp_layer, setup_shape_layer};
-use super::defaults::{FLOAT_VALUE_ONE_HUNDRED, FLOAT_VALUE_ZERO, MULTIDIM_ONE, POSITION_ZERO};
+use super::defaults::{FLOAT_VALUE_ONE_HUNDRED, FLOAT_VALUE_ZERO, MULTIDIM_ONE_HUNDRED, POSITION_ZERO};
 use crate::import::builders::LayerSetupParams;
 use crate::runtime::model::Easing;
 use crate::runtime::model::animated::{self, Position};
@@ -225,7 +225,7 @@ pub fn conv_transform(
     let transform = animated::Transform {
         anchor: conv_pos_point(value.anchor_point.as_ref().unwrap_or(&POSITION_ZERO)),
         position,
-        scale: conv_vec2(value.scale.as_ref().unwrap_or(&MULTIDIM_ONE)),
+        scale: conv_vec2(value.scale.as_ref().unwrap_or(&MULTIDIM_ONE_HUNDRED)),
         rotation: conv_scalar(rotation_in),
         skew: conv_scalar(value.skew.as_ref().unwrap_or(&FLOAT_VALUE_ZERO)),
         skew_angle: conv_scalar(value.skew_axis.as_ref().unwrap_or(&FLOAT_VALUE_ZERO)),
@@ -262,7 +262,7 @@ pub fn conv_shape_transform(value: &schema::shapes::transform::TransformShape) -
                 .unwrap_or(&POSITION_ZERO),
         ),
         position: Position::Value(conv_pos_point(position_in)),
-        scale: conv_vec2(value.transform.scale.as_ref().unwrap_or(&MULTIDIM_ONE)),
+        scale: conv_vec2(value.transform.scale.as_ref().unwrap_or(&MULTIDIM_ONE_HUNDRED)),
         rotation: conv_scalar(rotation_in),
         skew: conv_scalar(value.transform.skew.as_ref().unwrap_or(&FLOAT_VALUE_ZERO)),
         skew_angle: conv_scalar(
diff --git a/src/import/defaults.rs b/src/import/defaults.rs
index 53ee1c5..cca8b7e 100644
--- a/src/import/defaults.rs
+++ b/src/import/defaults.rs
@@ -29,13 +29,13 @@ pub static FLOAT_VALUE_ONE_HUNDRED: LazyLock<FloatValue> = LazyLock::new(|| Floa
     },
 });
 
-pub static MULTIDIM_ONE: LazyLock<MultiDimensional> = LazyLock::new(|| MultiDimensional {
+pub static MULTIDIM_ONE_HUNDRED: LazyLock<MultiDimensional> = LazyLock::new(|| MultiDimensional {
     animated_property: AnimatedProperty {
         property_index: None,
         animated: Some(BoolInt::False),
         expression: None,
         slot_id: None,
-        value: AnimatedPropertyK::Static(vec![1.0, 1.0, 1.0]),
+        value: AnimatedPropertyK::Static(vec![100.0, 100.0, 100.0]),
     },
     length: None,
 });
-- 
2.43.0


From 582bb312fcf2f2601bd148a268f9c6bd38a0462c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:53 +0000
Subject: [PATCH 05/25] fix: omitted or split rotation panics on import

---
 src/import/converters.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/import/converters.rs b/src/import/converters.rs
index 7d67b0e..8897ca7 100644
--- a/src/import/converters.rs
+++ b/src/import/converters.rs
@@ -207,10 +207,12 @@ pub fn conv_transform(
     let rotation_in = match &value.rotation {
         Some(any_trans) => match any_trans {
             schema::helpers::transform::AnyTransformR::Rotation(float_value) => float_value,
-            // todo: need to actually handle split rotations
-            schema::helpers::transform::AnyTransformR::SplitRotation { .. } => todo!(),
+            // Only the z component is visible without 3D layers
+            schema::helpers::transform::AnyTransformR::SplitRotation { z_rotation, .. } => {
+                z_rotation
+            }
         },
-        None => todo!("split rotation"),
+        None => &FLOAT_VALUE_ZERO,
     };
 
     let position = match &value.position {
@@ -238,9 +240,9 @@ pub fn conv_shape_transform(value: &schema::shapes::transform::TransformShape) -
     let rotation_in = match &value.transform.rotation {
         Some(any_trans) => match any_trans {
             schema::helpers::transform::AnyTransformR::Rotation(float_value) => float_value,
-            // todo: need to actually handle split rotations
-            schema::helpers::transform::AnyTransformR::SplitRotation { .. } => {
-                todo!("split rotation")
+            // Only the z component is visible without 3D layers
+            schema::helpers::transform::AnyTransformR::SplitRotation { z_rotation, .. } => {
+                z_rotation
             }
         },
         None => &FLOAT_VALUE_ZERO,
-- 
2.43.0


From 77f91cda25d4874c33b7a530a740585962c12cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:53 +0000
Subject: [PATCH 06/25] fix: split position in a group transform panics on
 import

---
 src/import/converters.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/import/converters.rs b/src/import/converters.rs
index 8897ca7..7af2e20 100644
--- a/src/import/converters.rs
+++ b/src/import/converters.rs
@@ -247,11 +247,12 @@ pub fn conv_shape_transform(value: &schema::shapes::transform::TransformShape) -
         },
         None => &FLOAT_VALUE_ZERO,
     };
-    let position_in = match &value.transform.position {
-        schema::helpers::transform::AnyTransformP::Position(position) => position,
-        schema::helpers::transform::AnyTransformP::SplitPosition(_) => {
-            // todo: split vectors
-            todo!("split position");
+    let position = match &value.transform.position {
+        schema::helpers::transform::AnyTransformP::Position(position) => {
+            Position::Value(conv_pos_point(position))
+        }
+        schema::helpers::transform::AnyTransformP::SplitPosition(SplitVector { x, y, .. }) => {
+            Position::SplitValues((conv_scalar(x), conv_scalar(y)))
         }
     };
 
@@ -263,7 +264,7 @@ pub fn conv_shape_transform(value: &schema::shapes::transform::TransformShape) -
                 .as_ref()
                 .unwrap_or(&POSITION_ZERO),
         ),
-        position: Position::Value(conv_pos_point(position_in)),
+        position,
         scale: conv_vec2(value.transform.scale.as_ref().unwrap_or(&MULTIDIM_ONE_HUNDRED)),
         rotation: conv_scalar(rotation_in),
         skew: conv_scalar(value.transform.skew.as_ref().unwrap_or(&FLOAT_VALUE_ZERO)),
-- 
2.43.0


From 62c3ebcc012da6e8f8dc89d7a965697d0030f2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:53 +0000
Subject: [PATCH 07/25] fix: opacity of gradient fills and strokes is ignored

---
 src/import/converters.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/import/converters.rs b/src/import/converters.rs
index 7af2e20..71ab009 100644
--- a/src/import/converters.rs
+++ b/src/import/converters.rs
@@ -505,7 +505,7 @@ fn conv_draw(value: &schema::shapes::AnyShape) -> Option<runtime::model::Draw> {
             Some(Draw {
                 stroke: None,
                 brush,
-                opacity: Value::Fixed(100.0),
+                opacity: conv_scalar(&value.shape_style.opacity),
             })
         }
         AnyShape::GradientStroke(value) => {
@@ -553,7 +553,7 @@ fn conv_draw(value: &schema::shapes::AnyShape) -> Option<runtime::model::Draw> {
             Some(Draw {
                 stroke: Some(stroke.into_model()),
                 brush,
-                opacity: Value::Fixed(100.0),
+                opacity: conv_scalar(&value.shape_style.opacity),
             })
         }
         _ => None,
-- 
2.43.0


From bf3bcc59184b8afe8e08761c5f0ad219a2ceeebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:53 +0000
Subject: [PATCH 08/25] fix: image assets panic on import

---
 src/import/converters.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/import/converters.rs b/src/import/converters.rs
index 71ab009..1e29eee 100644
--- a/src/import/converters.rs
+++ b/src/import/converters.rs
@@ -99,9 +99,8 @@ pub fn conv_animation(source: schema::Animation) -> Composition {
                     let layers = process_layers(&precomp.composition.layers, &mut idmap);
                     target.assets.insert(precomp.asset.id.clone(), layers);
                 }
-                asset => {
-                    unimplemented!("asset {:?} is not yet implemented", asset)
-                }
+                // Image layers are not rendered yet, so their assets are unused
+                schema::assets::AnyAsset::Image(_) => {}
             }
         }
     }
-- 
2.43.0


From 40953c63c2f1db6d3b1dc239e3295e5b162e9bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:53 +0000
Subject: [PATCH 09/25] fix: blend modes add and hard mix panic on import

---
 src/import/converters.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/import/converters.rs b/src/import/converters.rs
index 1e29eee..edcec1c 100644
--- a/src/import/converters.rs
+++ b/src/import/converters.rs
@@ -19,7 +19,7 @@ use crate::schema::constants::gradient_type::GradientType;
 use crate::schema::helpers::int_boolean::BoolInt;
 use crate::{Composition, schema};
 use kurbo::{Cap, Join, Point, Size, Vec2};
-use peniko::{BlendMode, Color, Mix};
+use peniko::{BlendMode, Color, Compose, Mix};
 use std::collections::HashMap;
 
 fn process_layers(
@@ -804,8 +804,9 @@ pub fn conv_blend_mode(
         Saturation => BlendMode::from(Mix::Saturation),
         Color => BlendMode::from(Mix::Color),
         Luminosity => BlendMode::from(Mix::Luminosity),
-        Add => unimplemented!(),
-        HardMix => unimplemented!(),
+        Add => BlendMode::from(Compose::Plus),
+        // Not available in peniko
+        HardMix => return None,
     })
 }
 
-- 
2.43.0


From 0aab385f67423f46452d5dcc431c10dbcaccb7f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:53 +0000
Subject: [PATCH 10/25] fix: scalar keyframe with an empty value panics on
 import

---
 src/import/converters.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/import/converters.rs b/src/import/converters.rs
index edcec1c..4646429 100644
--- a/src/import/converters.rs
+++ b/src/import/converters.rs
@@ -819,7 +819,7 @@ pub fn conv_scalar(float_value: &schema::animated_properties::value::FloatValue)
             let mut values = vec![];
             for keyframe in keyframes {
                 let start_time = keyframe.base.time;
-                let data = keyframe.value[0];
+                let data = keyframe.value.first().copied().unwrap_or(0.0);
                 let hold = keyframe
                     .base
                     .hold
-- 
2.43.0


From 0095c43a0069f4e50947b1365dba7a89c6e9a2e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:53 +0000
Subject: [PATCH 11/25] fix: keyframe easing handles without exactly one value
 panic on import

---
 src/import/converters.rs | 62 ++++++++++++++++++++++++++++------------
 1 file changed, 44 insertions(+), 18 deletions(-)

diff --git a/src/import/converters.rs b/src/import/converters.rs
index 4646429..1c272f6 100644
--- a/src/import/converters.rs
+++ b/src/import/converters.rs
@@ -2,7 +2,9 @@
 // SPDX-License-Identifier: Apache-2.0 OR MIT
 
 use super::builders::{setup_layer_base, setup_precomp_layer, setup_shape_layer};
-use super::defaults::{FLOAT_VALUE_ONE_HUNDRED, FLOAT_VALUE_ZERO, MULTIDIM_ONE_HUNDRED, POSITION_ZERO};
+use super::defaults::{
+    FLOAT_VALUE_ONE_HUNDRED, FLOAT_VALUE_ZERO, MULTIDIM_ONE_HUNDRED, POSITION_ZERO,
+};
 use crate::import::builders::LayerSetupParams;
 use crate::runtime::model::Easing;
 use crate::runtime::model::animated::{self, Position};
@@ -264,7 +266,13 @@ pub fn conv_shape_transform(value: &schema::shapes::transform::TransformShape) -
                 .unwrap_or(&POSITION_ZERO),
         ),
         position,
-        scale: conv_vec2(value.transform.scale.as_ref().unwrap_or(&MULTIDIM_ONE_HUNDRED)),
+        scale: conv_vec2(
+            value
+                .transform
+                .scale
+                .as_ref()
+                .unwrap_or(&MULTIDIM_ONE_HUNDRED),
+        ),
         rotation: conv_scalar(rotation_in),
         skew: conv_scalar(value.transform.skew.as_ref().unwrap_or(&FLOAT_VALUE_ZERO)),
         skew_angle: conv_scalar(
@@ -359,26 +367,20 @@ pub fn conv_keyframes<'a, T: Tween>(
     })
 }
 
-fn conv_keyframe_handle(handle: &KeyframeBezierHandle) -> EasingHandle {
+fn conv_keyframe_handle(handle: &KeyframeBezierHandle) -> Option<EasingHandle> {
     let KeyframeBezierHandle {
         x_coordinate,
         y_coordinate,
     } = handle;
     let x = match x_coordinate {
-        KeyframeComponent::ArrayOfValues(arr) => {
-            assert!(arr.len() == 1, "{arr:?}");
-            arr[0]
-        }
+        KeyframeComponent::ArrayOfValues(arr) => *arr.first()?,
         KeyframeComponent::SingleValue(v) => *v,
     };
     let y = match y_coordinate {
-        KeyframeComponent::ArrayOfValues(arr) => {
-            assert!(arr.len() == 1);
-            arr[0]
-        }
+        KeyframeComponent::ArrayOfValues(arr) => *arr.first()?,
         KeyframeComponent::SingleValue(v) => *v,
     };
-    EasingHandle { x, y }
+    Some(EasingHandle { x, y })
 }
 
 fn conv_gradient_colors(
@@ -419,8 +421,16 @@ fn conv_gradient_colors(
                     .unwrap_or(false);
                 frames.push(Time {
                     frame: value.base.time,
-                    in_tangent: value.base.in_tangent.as_ref().map(conv_keyframe_handle),
-                    out_tangent: value.base.out_tangent.as_ref().map(conv_keyframe_handle),
+                    in_tangent: value
+                        .base
+                        .in_tangent
+                        .as_ref()
+                        .and_then(conv_keyframe_handle),
+                    out_tangent: value
+                        .base
+                        .out_tangent
+                        .as_ref()
+                        .and_then(conv_keyframe_handle),
                     hold,
                 });
 
@@ -717,8 +727,16 @@ pub fn conv_shape_geometry(
                 // Add frame time and easing
                 frames.push(Time {
                     frame: value.base.time,
-                    in_tangent: value.base.in_tangent.as_ref().map(conv_keyframe_handle),
-                    out_tangent: value.base.out_tangent.as_ref().map(conv_keyframe_handle),
+                    in_tangent: value
+                        .base
+                        .in_tangent
+                        .as_ref()
+                        .and_then(conv_keyframe_handle),
+                    out_tangent: value
+                        .base
+                        .out_tangent
+                        .as_ref()
+                        .and_then(conv_keyframe_handle),
                     hold,
                 });
                 // Get converted spline points for keyframe bezier at the start
@@ -828,8 +846,16 @@ pub fn conv_scalar(float_value: &schema::animated_properties::value::FloatValue)
                     .unwrap_or(false);
                 frames.push(crate::runtime::model::Time {
                     frame: start_time,
-                    in_tangent: keyframe.base.in_tangent.as_ref().map(conv_keyframe_handle),
-                    out_tangent: keyframe.base.out_tangent.as_ref().map(conv_keyframe_handle),
+                    in_tangent: keyframe
+                        .base
+                        .in_tangent
+                        .as_ref()
+                        .and_then(conv_keyframe_handle),
+                    out_tangent: keyframe
+                        .base
+                        .out_tangent
+                        .as_ref()
+                        .and_then(conv_keyframe_handle),
                     hold,
                 });
                 values.push(data);
-- 
2.43.0


From 009031579d650217d4920af4f7d443c3c37a3f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:37 +0000
Subject: [PATCH 12/25] fix: star with a huge point count exhausts memory

---
 src/runtime/model/animated.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/runtime/model/animated.rs b/src/runtime/model/animated.rs
index bdb68be..7fcf6ca 100644
--- a/src/runtime/model/animated.rs
+++ b/src/runtime/model/animated.rs
@@ -179,7 +179,9 @@ impl Star {
         use std::f64::consts::{FRAC_PI_2, TAU};
 
         let center = self.position.evaluate(frame);
-        let num_points = self.points.evaluate(frame).round() as usize;
+        // Keep absurd point counts from exhausting memory
+        const MAX_POINTS: f64 = 10_000.0;
+        let num_points = self.points.evaluate(frame).round().min(MAX_POINTS) as usize;
         if num_points == 0 {
             return;
         }
-- 
2.43.0


From 4e02c4656fd1f32a0ea85603fe482b5251b6756b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:38 +0000
Subject: [PATCH 13/25] fix: geometry removed by an empty trim comes back when
 merged

Geometry listed after the trim extends the last range, which started at 0.
---
 src/runtime/render.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/runtime/render.rs b/src/runtime/render.rs
index f9cbe43..46631c1 100644
--- a/src/runtime/render.rs
+++ b/src/runtime/render.rs
@@ -373,8 +373,10 @@ impl Batch {
 
     fn apply_trim(&mut self, trim: &fixed::Trim, geometry_start: usize) {
         let Some((first, second)) = trim.normalized() else {
+            // Stay at the end so that later geometry can still be merged
+            let end = self.elements.len();
             for geometry in &mut self.geometries[geometry_start..] {
-                geometry.elements = 0..0;
+                geometry.elements = end..end;
             }
             return;
         };
-- 
2.43.0


From 9786da9b7275a16a1cdb60637c9797f8fa822f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:39 +0000
Subject: [PATCH 14/25] fix: trim draws a line across the gap between subpaths

---
 src/runtime/render.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/runtime/render.rs b/src/runtime/render.rs
index 46631c1..b14e4c4 100644
--- a/src/runtime/render.rs
+++ b/src/runtime/render.rs
@@ -413,7 +413,7 @@ impl Batch {
                 let start_len = norm_start * total_length;
                 let end_len = norm_end * total_length;
                 let mut current_len = 0.0;
-                let mut need_move = true;
+                let mut pen: Option<Point> = None;
 
                 for seg in &segs {
                     let seg_len = seg.arclen(ACCURACY);
@@ -442,10 +442,10 @@ impl Batch {
 
                     if t_end > t_start + 1e-9 {
                         let sub = seg.subsegment(t_start..t_end);
-                        if need_move {
+                        if pen != Some(seg.start()) {
                             trimmed.move_to(sub.start());
-                            need_move = false;
                         }
+                        pen = Some(seg.end());
                         match sub {
                             PathSeg::Line(l) => trimmed.line_to(l.p1),
                             PathSeg::Quad(q) => trimmed.quad_to(q.p1, q.p2),
-- 
2.43.0


From 084081a948935ddb724c88eded7b08b17432f55f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:41 +0000
Subject: [PATCH 15/25] fix: style in a group misses geometry merged into the
 outer group

---
 src/runtime/render.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/runtime/render.rs b/src/runtime/render.rs
index b14e4c4..438bb67 100644
--- a/src/runtime/render.rs
+++ b/src/runtime/render.rs
@@ -201,7 +201,8 @@ impl Renderer {
                     );
                 }
                 Shape::Geometry(geometry) => {
-                    self.batch.push_geometry(geometry, transform, frame);
+                    self.batch
+                        .push_geometry(geometry, transform, geometry_start, frame);
                 }
                 Shape::Draw(draw) => {
                     self.batch.push_draw(draw, alpha, geometry_start, frame);
@@ -294,12 +295,20 @@ struct Batch {
 }
 
 impl Batch {
-    fn push_geometry(&mut self, geometry: &Geometry, transform: Affine, frame: f64) {
-        // Merge with the previous geometry if possible. There are two
+    fn push_geometry(
+        &mut self,
+        geometry: &Geometry,
+        transform: Affine,
+        geometry_start: usize,
+        frame: f64,
+    ) {
+        // Merge with the previous geometry if possible. There are three
         // conditions:
         // 1. The previous geometry has not yet been referenced by a draw
         // 2. The geometries have the same transform
-        if self.drawn_geometry < self.geometries.len()
+        // 3. The previous geometry belongs to the current group: the draws of
+        //    a group start at its own first geometry
+        if self.drawn_geometry.max(geometry_start) < self.geometries.len()
             && self.geometries.last().map(|last| last.transform) == Some(transform)
         {
             geometry.evaluate(frame, &mut self.elements);
-- 
2.43.0


From a1da850a99b49d0d25146c717c43d0dd17b60f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:42 +0000
Subject: [PATCH 16/25] fix: every repeater copy paints the geometry of all
 copies

---
 src/runtime/render.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/runtime/render.rs b/src/runtime/render.rs
index 438bb67..84eb08d 100644
--- a/src/runtime/render.rs
+++ b/src/runtime/render.rs
@@ -341,9 +341,9 @@ impl Batch {
             .extend(self.geometries.drain(geometry_start..));
         self.repeat_draws.extend(self.draws.drain(draw_start..));
         // Next, repeat the geometries and apply the offset transform
-        for geometry in self.repeat_geometries.iter() {
-            for i in 0..repeater.copies {
-                let transform = repeater.transform(i);
+        for i in 0..repeater.copies {
+            let transform = repeater.transform(i);
+            for geometry in self.repeat_geometries.iter() {
                 let mut geometry = geometry.clone();
                 geometry.transform *= transform;
                 self.geometries.push(geometry);
@@ -366,10 +366,10 @@ impl Batch {
             }
             for mut draw in self.repeat_draws.iter().cloned() {
                 draw.alpha *= alpha;
-                let count = draw.geometry.end - draw.geometry.start;
-                draw.geometry.start =
-                    geometry_start + (draw.geometry.start - geometry_start) * repeater.copies;
-                draw.geometry.end = draw.geometry.start + count * repeater.copies;
+                // Each copy of a draw covers the same copy of its geometry
+                let offset = i * self.repeat_geometries.len();
+                draw.geometry.start += offset;
+                draw.geometry.end += offset;
                 self.draws.push(draw);
             }
         }
-- 
2.43.0


From ecfffecc1d7c272c66d0d0efa8dcaa3af3b7ae52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:43 +0000
Subject: [PATCH 17/25] fix: repeater moves shapes of nested groups in their
 own space

---
 src/runtime/render.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/runtime/render.rs b/src/runtime/render.rs
index 84eb08d..0319676 100644
--- a/src/runtime/render.rs
+++ b/src/runtime/render.rs
@@ -210,7 +210,7 @@ impl Renderer {
                 Shape::Repeater(repeater) => {
                     let repeater = repeater.evaluate(frame);
                     self.batch
-                        .repeat(repeater.as_ref(), geometry_start, draw_start);
+                        .repeat(repeater.as_ref(), transform, geometry_start, draw_start);
                 }
                 Shape::Trim(trim) => {
                     let trim = trim.evaluate(frame);
@@ -334,7 +334,13 @@ impl Batch {
         self.drawn_geometry = self.geometries.len();
     }
 
-    fn repeat(&mut self, repeater: &fixed::Repeater, geometry_start: usize, draw_start: usize) {
+    fn repeat(
+        &mut self,
+        repeater: &fixed::Repeater,
+        scope: Affine,
+        geometry_start: usize,
+        draw_start: usize,
+    ) {
         // First move the relevant ranges of geometries and draws into side
         // buffers
         self.repeat_geometries
@@ -345,7 +351,12 @@ impl Batch {
             let transform = repeater.transform(i);
             for geometry in self.repeat_geometries.iter() {
                 let mut geometry = geometry.clone();
-                geometry.transform *= transform;
+                // Copies are placed in the space of the repeater's own group
+                geometry.transform = if geometry.transform == scope || scope.determinant() == 0.0 {
+                    geometry.transform * transform
+                } else {
+                    scope * transform * scope.inverse() * geometry.transform
+                };
                 self.geometries.push(geometry);
             }
         }
-- 
2.43.0


From 4043ea045355b70a732ec7d9c1967a33cf513260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:45 +0000
Subject: [PATCH 18/25] fix: layer groups of precomposed and matte layers
 report index 0

---
 src/runtime/render.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/runtime/render.rs b/src/runtime/render.rs
index 0319676..f07b4ca 100644
--- a/src/runtime/render.rs
+++ b/src/runtime/render.rs
@@ -116,7 +116,7 @@ impl Renderer {
                     animation,
                     layer_set,
                     mask,
-                    0,
+                    mask_index,
                     parent_transform,
                     alpha,
                     frame,
@@ -145,7 +145,7 @@ impl Renderer {
                 if let Some(asset_layers) = animation.assets.get(name) {
                     let frame = frame / layer.stretch;
                     let frame_delta = -layer.start_frame / layer.stretch;
-                    for asset_layer in asset_layers.iter().rev() {
+                    for (asset_layer_index, asset_layer) in asset_layers.iter().enumerate().rev() {
                         if asset_layer.is_mask {
                             continue;
                         }
@@ -153,7 +153,7 @@ impl Renderer {
                             animation,
                             asset_layers,
                             asset_layer,
-                            0,
+                            asset_layer_index,
                             transform,
                             alpha,
                             frame + frame_delta,
-- 
2.43.0


From b730e3bcbef7bf9e6d26b397509fa5ff247fdacb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:46 +0000
Subject: [PATCH 19/25] fix: mask outline left over from an abandoned render is
 reused

---
 src/runtime/render.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/runtime/render.rs b/src/runtime/render.rs
index f07b4ca..820adbb 100644
--- a/src/runtime/render.rs
+++ b/src/runtime/render.rs
@@ -65,6 +65,7 @@ impl Renderer {
         scene: &mut impl RenderSink,
     ) {
         self.batch.clear();
+        self.mask_elements.clear();
         scene.push_clip_layer(
             transform,
             &Rect::new(0.0, 0.0, animation.width as _, animation.height as _),
-- 
2.43.0


From 304b242b6325e308a70ec32aa8a8e999b9a01f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:17 +0000
Subject: [PATCH 20/25] fix: cyclic precompositions and mattes overflow the
 stack when rendered

---
 src/runtime/render.rs | 40 ++++++++++++++++++++++++++++++++++++++--
 1 file changed, 38 insertions(+), 2 deletions(-)

diff --git a/src/runtime/render.rs b/src/runtime/render.rs
index 820adbb..2647ef6 100644
--- a/src/runtime/render.rs
+++ b/src/runtime/render.rs
@@ -42,6 +42,29 @@ pub trait RenderSink {
     fn end_layer_group(&mut self) {}
 }
 
+/// Chain of layers being rendered, innermost first.
+///
+/// Neither precompositions nor mattes are checked for cycles at import time, so
+/// this prevents endless recursion.
+struct Ancestor<'a> {
+    layer: &'a Layer,
+    layer_set: &'a [Layer],
+    outer: Option<&'a Ancestor<'a>>,
+}
+
+impl Ancestor<'_> {
+    fn any(&self, f: impl Fn(&Ancestor<'_>) -> bool) -> bool {
+        let mut next = Some(self);
+        while let Some(ancestor) = next {
+            if f(ancestor) {
+                return true;
+            }
+            next = ancestor.outer;
+        }
+        false
+    }
+}
+
 /// Renders a composition into a scene.
 #[derive(Debug, Default)]
 pub struct Renderer {
@@ -82,6 +105,7 @@ impl Renderer {
                 transform,
                 alpha,
                 frame,
+                None,
                 scene,
             );
         }
@@ -98,12 +122,18 @@ impl Renderer {
         transform: Affine,
         alpha: f64,
         frame: f64,
+        outer: Option<&Ancestor<'_>>,
         scene: &mut impl RenderSink,
     ) {
         if !layer.frames.contains(&frame) {
             return;
         }
         scene.begin_layer_group(&layer.name, layer_index);
+        let ancestors = Ancestor {
+            layer,
+            layer_set,
+            outer,
+        };
         let parent_transform = transform;
         let transform = self.compute_transform(layer_set, layer, parent_transform, frame);
         let full_rect = Rect::new(0.0, 0.0, animation.width as f64, animation.height as f64);
@@ -112,7 +142,9 @@ impl Renderer {
             // it's currently supported in vello?) Extra layer to
             // isolate blending for the mask
             scene.push_layer(Mix::Normal, 1.0, parent_transform, &full_rect);
-            if let Some(mask) = layer_set.get(mask_index) {
+            if let Some(mask) = layer_set.get(mask_index)
+                && !ancestors.any(|a| std::ptr::eq(a.layer, mask))
+            {
                 self.render_layer(
                     animation,
                     layer_set,
@@ -121,6 +153,7 @@ impl Renderer {
                     parent_transform,
                     alpha,
                     frame,
+                    Some(&ancestors),
                     scene,
                 );
             }
@@ -143,7 +176,9 @@ impl Renderer {
                 //     .as_ref()
                 //     .map(|tm| tm.evaluate(frame))
                 //     .unwrap_or(frame);
-                if let Some(asset_layers) = animation.assets.get(name) {
+                if let Some(asset_layers) = animation.assets.get(name)
+                    && !ancestors.any(|a| std::ptr::eq(a.layer_set, asset_layers.as_slice()))
+                {
                     let frame = frame / layer.stretch;
                     let frame_delta = -layer.start_frame / layer.stretch;
                     for (asset_layer_index, asset_layer) in asset_layers.iter().enumerate().rev() {
@@ -158,6 +193,7 @@ impl Renderer {
                             transform,
                             alpha,
                             frame + frame_delta,
+                            Some(&ancestors),
                             scene,
                         );
                     }
-- 
2.43.0


From 1ab9694bb71fcc22a6b5ea44d8a94a102d0fc695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:49 +0000
Subject: [PATCH 21/25] fix: a lone gradient opacity stop is ignored

---
 src/import/converters.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/import/converters.rs b/src/import/converters.rs
index 1c272f6..74d4308 100644
--- a/src/import/converters.rs
+++ b/src/import/converters.rs
@@ -977,6 +977,10 @@ pub fn conv_stops(value: &[f64], count: usize) -> Vec<[f64; 5]> {
             }
 
             for stop in stops.iter_mut() {
+                // A lone alpha stop applies everywhere
+                if let [(_, alpha)] = alpha_stops[..] {
+                    stop[4] = stop[4].min(alpha);
+                }
                 let mut last: Option<(f64, f64)> = None;
                 for &(b, alpha_b) in alpha_stops.iter() {
                     if let Some((a, alpha_a)) = last.take() {
-- 
2.43.0


From 3632124e97e6c3199ab2463cead156350335ddc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:55 +0000
Subject: [PATCH 22/25] fix: opacity below zero panics when rendered

---
 src/runtime/render.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/runtime/render.rs b/src/runtime/render.rs
index 2647ef6..9d6403e 100644
--- a/src/runtime/render.rs
+++ b/src/runtime/render.rs
@@ -533,9 +533,15 @@ impl Batch {
     fn render(&self, scene: &mut impl RenderSink) {
         // Process all draws in reverse
         for draw in self.draws.iter().rev() {
+            // Easing can carry opacities out of range
+            let alpha = if draw.alpha > 0.0 {
+                draw.alpha.min(1.0)
+            } else {
+                0.0
+            };
             // Some nastiness to avoid cloning the brush if unnecessary
-            let modified_brush = if draw.alpha != 1.0 {
-                Some(draw.brush.clone().multiply_alpha(draw.alpha as _))
+            let modified_brush = if alpha != 1.0 {
+                Some(draw.brush.clone().multiply_alpha(alpha as _))
             } else {
                 None
             };
-- 
2.43.0


From 7fa3db54d77f4628cd742122ea93d72e2eef598c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:24 +0000
Subject: [PATCH 23/25] fix: huge ellipses and rounded rectangles exhaust
 memory when rendered

---
 src/runtime/model/mod.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/runtime/model/mod.rs b/src/runtime/model/mod.rs
index 0dba5ba..3c38097 100644
--- a/src/runtime/model/mod.rs
+++ b/src/runtime/model/mod.rs
@@ -144,10 +144,15 @@ impl Geometry {
                 path.extend_from_slice(value);
             }
             Self::Rect(value) => {
-                path.extend(value.evaluate(frame).path_elements(0.1));
+                let rect = value.evaluate(frame);
+                let tolerance = arc_tolerance(rect.radii().top_left);
+                path.extend(rect.path_elements(tolerance));
             }
             Self::Ellipse(value) => {
-                path.extend(value.evaluate(frame).path_elements(0.1));
+                let ellipse = value.evaluate(frame);
+                let radii = ellipse.radii();
+                let tolerance = arc_tolerance(radii.x.max(radii.y));
+                path.extend(ellipse.path_elements(tolerance));
             }
             Self::Spline(value) => {
                 value.evaluate(frame, path);
@@ -159,6 +164,12 @@ impl Geometry {
     }
 }
 
+/// Tolerance for approximating an arc of the given radius with curves. It is
+/// relative for very large arcs, which keeps the number of curves in bounds.
+fn arc_tolerance(radius: f64) -> f64 {
+    (radius * 1e-9).max(0.1)
+}
+
 #[derive(Clone, Debug)]
 pub struct Draw {
     /// Parameters for a stroked draw operation.
-- 
2.43.0


From 5923aeed2bcd67c0adfc4df30dd85c4c022b4677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:42 +0000
Subject: [PATCH 24/25] fix: trimming huge curves overflows in the length
 solver

---
 src/runtime/render.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/runtime/render.rs b/src/runtime/render.rs
index 9d6403e..9375977 100644
--- a/src/runtime/render.rs
+++ b/src/runtime/render.rs
@@ -454,8 +454,15 @@ impl Batch {
                 .iter()
                 .cloned()
                 .collect();
+            // Keep the accuracy within reach of the length solver
+            let size = path.control_box().size();
+            let accuracy = ACCURACY.max((size.width + size.height) * 1e-6);
             let segs: Vec<PathSeg> = path.segments().collect();
-            let total_length: f64 = segs.iter().map(|s| s.arclen(ACCURACY)).sum();
+            let total_length: f64 = if path.is_finite() && accuracy.is_finite() {
+                segs.iter().map(|s| s.arclen(accuracy)).sum()
+            } else {
+                0.0
+            };
 
             if total_length <= 0.0 || segs.is_empty() {
                 let pos = self.trim_elements.len();
@@ -473,7 +480,7 @@ impl Batch {
                 let mut pen: Option<Point> = None;
 
                 for seg in &segs {
-                    let seg_len = seg.arclen(ACCURACY);
+                    let seg_len = seg.arclen(accuracy);
                     let seg_end = current_len + seg_len;
 
                     if seg_end < start_len - 1e-9 {
@@ -485,13 +492,13 @@ impl Batch {
                     }
 
                     let t_start = if current_len < start_len {
-                        seg.inv_arclen(start_len - current_len, ACCURACY)
+                        seg.inv_arclen(start_len - current_len, accuracy)
                             .clamp(0.0, 1.0)
                     } else {
                         0.0
                     };
                     let t_end = if seg_end > end_len {
-                        seg.inv_arclen(end_len - current_len, ACCURACY)
+                        seg.inv_arclen(end_len - current_len, accuracy)
                             .clamp(0.0, 1.0)
                     } else {
                         1.0
-- 
2.43.0


From 94ab215ec093670fa195cae349c6af6948084668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:19 +0000
Subject: [PATCH 25/25] fix: animated gradient brushes ignored the opacity
 asked for

---
 src/runtime/model/animated.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/runtime/model/animated.rs b/src/runtime/model/animated.rs
index 7fcf6ca..2fe778e 100644
--- a/src/runtime/model/animated.rs
+++ b/src/runtime/model/animated.rs
@@ -535,7 +535,7 @@ impl Brush {
                 .evaluate_or(frame, peniko::Color::TRANSPARENT)
                 .multiply_alpha(alpha as f32)
                 .into(),
-            Self::Gradient(value) => value.evaluate(frame),
+            Self::Gradient(value) => value.evaluate(frame).multiply_alpha(alpha as f32),
         }
     }
 
-- 
2.43.0

