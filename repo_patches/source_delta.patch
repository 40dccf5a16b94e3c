From cf0a0a521c819f7f9bcafc643f1604ba9e224a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:20 +0000
Subject: [PATCH 01/33] fix: replace and overlay cover the last row and column
 and blend from the top image

---
 src/compose.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/compose.rs b/src/compose.rs
index ce70659..a523c04 100644
--- a/src/compose.rs
+++ b/src/compose.rs
@@ -215,8 +215,8 @@ where
     assert!(x < bottom.width());
     assert!(y < bottom.height());
 
-    let x_end = min(bottom.width() - 1, x + top.width());
-    let y_end = min(bottom.height() - 1, y + top.height());
+    let x_end = min(bottom.width(), x.saturating_add(top.width()));
+    let y_end = min(bottom.height(), y.saturating_add(top.height()));
 
     for y_bot in y..y_end {
         for x_bot in x..x_end {
@@ -262,13 +262,13 @@ where
     assert!(x < bottom.width());
     assert!(y < bottom.height());
 
-    let x_end = min(bottom.width() - 1, x + top.width());
-    let y_end = min(bottom.height() - 1, y + top.height());
+    let x_end = min(bottom.width(), x.saturating_add(top.width()));
+    let y_end = min(bottom.height(), y.saturating_add(top.height()));
 
     for y_bot in y..y_end {
         for x_bot in x..x_end {
             let mut bottom_pixel = *bottom.get_pixel(x_bot, y_bot);
-            let top_pixel = bottom.get_pixel(x_bot - x, y_bot - y);
+            let top_pixel = top.get_pixel(x_bot - x, y_bot - y);
 
             bottom_pixel.blend(top_pixel);
 
-- 
2.43.0


From 0046cc9f45f48d477691b5d02b8394a42243459c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:24 +0000
Subject: [PATCH 02/33] fix: warps treat NaN coordinates as outside, accept
 empty images; translate accepts extreme offsets

---
 src/geometric_transformations.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/geometric_transformations.rs b/src/geometric_transformations.rs
index 87ef25e..77dca68 100644
--- a/src/geometric_transformations.rs
+++ b/src/geometric_transformations.rs
@@ -471,9 +471,12 @@ where
     let (w, h) = (width as i32, height as i32);
     let num_channels = P::CHANNEL_COUNT as usize;
     let mut out = Image::new(width, height);
+    if width == 0 {
+        return out;
+    }
 
     for y in 0..height {
-        let y_in = cmp::max(0, cmp::min(y as i32 - ty, h - 1));
+        let y_in = cmp::max(0, cmp::min((y as i32).saturating_sub(ty), h - 1));
 
         if tx > 0 {
             let p_min = *image.get_pixel(0, y_in as u32);
@@ -643,6 +646,9 @@ where
     let width = out.width();
     let raw_out = out.as_mut();
     let pitch = P::CHANNEL_COUNT as usize * width as usize;
+    if pitch == 0 {
+        return;
+    }
 
     #[cfg(feature = "rayon")]
     let chunks = raw_out.par_chunks_mut(pitch);
@@ -771,7 +777,9 @@ where
     let mut col: [P; 4] = [default, default, default, default];
 
     let (width, height) = image.dimensions();
-    if left < 0f32 || right >= width as f32 || top < 0f32 || bottom >= height as f32 {
+    // the comparisons are false for NaN coordinates, which have no pre-image
+    let inside = left >= 0f32 && right < width as f32 && top >= 0f32 && bottom < height as f32;
+    if !inside {
         default
     } else {
         for row in top as u32..bottom as u32 {
@@ -832,7 +840,9 @@ where
 
     // default if out of bound
     let (width, height) = image.dimensions();
-    if left < 0f32 || right >= width as f32 || top < 0f32 || bottom >= height as f32 {
+    // the comparisons are false for NaN coordinates, which have no pre-image
+    let inside = left >= 0f32 && right < width as f32 && top >= 0f32 && bottom < height as f32;
+    if !inside {
         default
     } else {
         let (tl, tr, bl, br) = unsafe {
@@ -849,7 +859,8 @@ where
 
 #[inline(always)]
 fn interpolate_nearest<P: Pixel>(image: &Image<P>, x: f32, y: f32, default: P) -> P {
-    if x < -0.5 || y < -0.5 {
+    // NaN coordinates have no pre-image
+    if x.is_nan() || y.is_nan() || x < -0.5 || y < -0.5 {
         return default;
     }
 
-- 
2.43.0


From 1b29283b01848873de6315d47053ca0dbac02c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:03 +0000
Subject: [PATCH 03/33] fix: projections whose last matrix coefficient is zero

---
 src/geometric_transformations.rs | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/src/geometric_transformations.rs b/src/geometric_transformations.rs
index 77dca68..b4c4680 100644
--- a/src/geometric_transformations.rs
+++ b/src/geometric_transformations.rs
@@ -681,17 +681,10 @@ fn class_from_matrix(mx: [f32; 9]) -> TransformationClass {
 }
 
 fn normalize(mx: [f32; 9]) -> [f32; 9] {
-    [
-        mx[0] / mx[8],
-        mx[1] / mx[8],
-        mx[2] / mx[8],
-        mx[3] / mx[8],
-        mx[4] / mx[8],
-        mx[5] / mx[8],
-        mx[6] / mx[8],
-        mx[7] / mx[8],
-        1.0,
-    ]
+    // The last coefficient of an invertible matrix can be zero, in which case
+    // the matrix can't be scaled to make it one.
+    let scale = if mx[8] == 0.0 { 1.0 } else { mx[8] };
+    mx.map(|m| m / scale)
 }
 
 // TODO: write me in f64
-- 
2.43.0


From 3900b607ee84b0bcdcf404f86e063f0cc31816a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:36 +0000
Subject: [PATCH 04/33] fix: adaptive_threshold accepts any radius and delta

---
 src/contrast.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/contrast.rs b/src/contrast.rs
index c9024f1..73b7473 100644
--- a/src/contrast.rs
+++ b/src/contrast.rs
@@ -1,6 +1,6 @@
 //! Functions for manipulating the contrast of images.
 
-use std::cmp::{max, min};
+use std::cmp::min;
 
 use image::{GrayImage, Luma, Pixel};
 #[cfg(feature = "rayon")]
@@ -26,19 +26,19 @@ pub fn adaptive_threshold(image: &GrayImage, block_radius: u32, delta: i32) -> G
             let current_pixel = image.get_pixel(x, y);
             // Traverse all neighbors in (2 * block_radius + 1) x (2 * block_radius + 1)
             let (y_low, y_high) = (
-                max(0, y as i32 - (block_radius as i32)) as u32,
-                min(image.height() - 1, y + block_radius),
+                y.saturating_sub(block_radius),
+                min(image.height() - 1, y.saturating_add(block_radius)),
             );
             let (x_low, x_high) = (
-                max(0, x as i32 - (block_radius as i32)) as u32,
-                min(image.width() - 1, x + block_radius),
+                x.saturating_sub(block_radius),
+                min(image.width() - 1, x.saturating_add(block_radius)),
             );
 
             // Number of pixels in the block, adjusted for edge cases.
             let w = (y_high - y_low + 1) * (x_high - x_low + 1);
             let mean = sum_image_pixels(&integral, x_low, y_low, x_high, y_high)[0] / w;
 
-            if current_pixel[0] as i32 >= mean as i32 - delta {
+            if current_pixel[0] as i64 >= mean as i64 - delta as i64 {
                 out.put_pixel(x, y, Luma::white());
             }
         }
-- 
2.43.0


From 7ee661309f8f7628233e274e63c0175017c647b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:55 +0000
Subject: [PATCH 05/33] fix: dilation without foreground and erosion without
 background change nothing

---
 src/morphology.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/morphology.rs b/src/morphology.rs
index badb683..edf6fde 100644
--- a/src/morphology.rs
+++ b/src/morphology.rs
@@ -75,6 +75,10 @@ pub fn dilate(image: &GrayImage, norm: Norm, k: u8) -> GrayImage {
 }
 #[doc=generate_mut_doc_comment!("dilate")]
 pub fn dilate_mut(image: &mut GrayImage, norm: Norm, k: u8) {
+    if image.iter().all(|p| *p == 0) {
+        // there is no foreground pixel to be within distance k of
+        return;
+    }
     distance_transform_mut(image, norm);
     for p in image.iter_mut() {
         *p = if *p <= k { 255 } else { 0 };
@@ -166,9 +170,10 @@ pub fn erode(image: &GrayImage, norm: Norm, k: u8) -> GrayImage {
 }
 #[doc=generate_mut_doc_comment!("erode")]
 pub fn erode_mut(image: &mut GrayImage, norm: Norm, k: u8) {
+    let has_background = image.iter().any(|p| *p == 0);
     distance_transform_impl(image, norm, DistanceFrom::Background);
     for p in image.iter_mut() {
-        *p = if *p <= k { 0 } else { 255 };
+        *p = if has_background && *p <= k { 0 } else { 255 };
     }
 }
 
-- 
2.43.0


From da4fb465290c0f9425baf3cc00c6dd5db60369bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:50 +0000
Subject: [PATCH 06/33] fix: grayscale morphology accepts images of width zero

---
 src/morphology.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/morphology.rs b/src/morphology.rs
index edf6fde..01cccd4 100644
--- a/src/morphology.rs
+++ b/src/morphology.rs
@@ -547,6 +547,9 @@ fn mask_reduce<F: Fn(u8, u8) -> u8>(
     operator: F,
 ) -> GrayImage {
     let mut result = GrayImage::from_pixel(image.width(), image.height(), Luma([neutral]));
+    if image.is_empty() {
+        return result;
+    }
     for (y, line_group) in lines!(mask) {
         let y = i64::from(y);
         let line = line_group.collect::<Vec<_>>();
-- 
2.43.0


From cb58464fa0325a62e17610c870789dfd92d3a60a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:24 +0000
Subject: [PATCH 07/33] fix: connected_components labels images whose pixels
 are all isolated

---
 src/region_labelling.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/region_labelling.rs b/src/region_labelling.rs
index 3a8be91..1427f39 100644
--- a/src/region_labelling.rs
+++ b/src/region_labelling.rs
@@ -141,7 +141,8 @@ where
         return out;
     }
 
-    let mut forest = DisjointSetForest::new(image_size);
+    // Labels start at 1 and there can be as many as there are pixels
+    let mut forest = DisjointSetForest::new(image_size + 1);
     let mut adj_labels = [0u32; 4];
     let mut next_label = 1;
 
@@ -216,7 +217,7 @@ where
     }
 
     // Make components start at 1
-    let mut output_labels = vec![0u32; image_size];
+    let mut output_labels = vec![0u32; image_size + 1];
     let mut count = 1;
 
     unsafe {
-- 
2.43.0


From 7208b0f9c1f4e14e5de47f9e533c450b5491adbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:31 +0000
Subject: [PATCH 08/33] fix: local_maxima considers the last row; suppression
 accepts any radius

---
 src/suppress.rs | 35 ++++++++++++++++++-----------------
 1 file changed, 18 insertions(+), 17 deletions(-)

diff --git a/src/suppress.rs b/src/suppress.rs
index b7af9d6..4a87201 100644
--- a/src/suppress.rs
+++ b/src/suppress.rs
@@ -32,8 +32,8 @@ where
             let mut mi = image.get_pixel(x, y)[0];
 
             // These mins are necessary for when radius > min(width, height)
-            for cy in y..cmp::min(height, y + radius + 1) {
-                for cx in x..cmp::min(width, x + radius + 1) {
+            for cy in y..block_end(y, radius, height) {
+                for cx in x..block_end(x, radius, width) {
                     let ci = unsafe { image.unsafe_get_pixel(cx, cy)[0] };
                     if ci < mi {
                         continue;
@@ -48,13 +48,13 @@ where
 
             let x0 = best_x.saturating_sub(radius);
             let x1 = x;
-            let x2 = cmp::min(width, x + radius + 1);
-            let x3 = cmp::min(width, best_x + radius + 1);
+            let x2 = block_end(x, radius, width);
+            let x3 = block_end(best_x, radius, width);
 
             let y0 = best_y.saturating_sub(radius);
             let y1 = y;
-            let y2 = cmp::min(height, y + radius + 1);
-            let y3 = cmp::min(height, best_y + radius + 1);
+            let y2 = block_end(y, radius, height);
+            let y3 = block_end(best_y, radius, height);
 
             // Above initial r * r block
             let mut failed = contains_greater_value(image, best_x, best_y, mi, y0, y1, x0, x3);
@@ -74,6 +74,11 @@ where
     out
 }
 
+/// The exclusive end of a block reaching `radius` past `start`, limited to `end`.
+fn block_end(start: u32, radius: u32, end: u32) -> u32 {
+    cmp::min(end, start.saturating_add(radius).saturating_add(1))
+}
+
 /// Returns true if the given block contains a larger value than
 /// the input, or contains an equal value with lexicographically
 /// lesser coordinates.
@@ -115,11 +120,11 @@ where
     let mut ordered_ts = ts.to_vec();
     ordered_ts.sort_by_key(|&c| (c.y(), c.x()));
     let height = match ordered_ts.last() {
-        Some(t) => t.y(),
+        Some(t) => t.y() as usize + 1,
         None => 0,
     };
 
-    let mut ts_by_row = vec![vec![]; (height + 1) as usize];
+    let mut ts_by_row = vec![vec![]; height];
     for t in &ordered_ts {
         ts_by_row[t.y() as usize].push(t);
     }
@@ -131,18 +136,14 @@ where
         let cs = t.score();
 
         let mut is_max = true;
-        let row_lower = cy.saturating_sub(radius);
-        let row_upper = if cy + radius + 1 > height {
-            height
-        } else {
-            cy + radius + 1
-        };
+        let row_lower = cy.saturating_sub(radius) as usize;
+        let row_upper = cmp::min(height, cy as usize + radius as usize + 1);
         for y in row_lower..row_upper {
-            for c in &ts_by_row[y as usize] {
-                if c.x() + radius < cx {
+            for c in &ts_by_row[y] {
+                if c.x().saturating_add(radius) < cx {
                     continue;
                 }
-                if c.x() > cx + radius {
+                if c.x() > cx.saturating_add(radius) {
                     break;
                 }
                 if c.score() > cs {
-- 
2.43.0


From ea826087218b412b72975d580f785539b56e8d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:21 +0000
Subject: [PATCH 09/33] fix: find_contours treats everything outside of the
 image as background

---
 src/contours.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/contours.rs b/src/contours.rs
index dcdafb3..7154420 100644
--- a/src/contours.rs
+++ b/src/contours.rs
@@ -106,17 +106,19 @@ where
                 continue;
             }
 
+            let curr = Point::new(x, y);
+
+            // Everything outside of the image belongs to the background.
             if let Some((adj, border_type)) = if image_values[at(x, y)] == 1
-                && x > 0
-                && image_values[at(x - 1, y)] == 0
+                && (x == 0 || image_values[at(x - 1, y)] == 0)
             {
-                Some((Point::new(x - 1, y), BorderType::Outer))
+                Some((curr.to_i32() + Point::new(-1, 0), BorderType::Outer))
             } else if image_values[at(x, y)] > 0 && x + 1 < width && image_values[at(x + 1, y)] == 0
             {
                 if image_values[at(x, y)] > 1 {
                     parent_border_num = image_values[at(x, y)] as usize;
                 }
-                Some((Point::new(x + 1, y), BorderType::Hole))
+                Some((curr.to_i32() + Point::new(1, 0), BorderType::Hole))
             } else {
                 None
             } {
@@ -137,8 +139,7 @@ where
                 };
 
                 let mut contour_points = Vec::new();
-                let curr = Point::new(x, y);
-                rotate_to_value(&mut diffs, adj.to_i32() - curr.to_i32());
+                rotate_to_value(&mut diffs, adj - curr.to_i32());
 
                 if let Some(pos1) = diffs.iter().find_map(|diff| {
                     get_position_if_non_zero_pixel(&image_values, curr.to_i32() + *diff)
-- 
2.43.0


From 2171c683f994862a8ccbcfd484f539ce6ffa62a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:43 +0000
Subject: [PATCH 10/33] fix: canny accepts empty images and low thresholds of
 zero or below

---
 src/edges.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/edges.rs b/src/edges.rs
index 38ce3d9..c05815a 100644
--- a/src/edges.rs
+++ b/src/edges.rs
@@ -60,8 +60,8 @@ fn non_maximum_suppression(
 ) -> Image<Luma<f32>> {
     const RADIANS_TO_DEGREES: f32 = 180f32 / f32::consts::PI;
     let mut out = Image::from_pixel(g.width(), g.height(), Luma([0.0]));
-    for y in 1..g.height() - 1 {
-        for x in 1..g.width() - 1 {
+    for y in 1..g.height().saturating_sub(1) {
+        for x in 1..g.width().saturating_sub(1) {
             let x_gradient = gx[(x, y)][0] as f32;
             let y_gradient = gy[(x, y)][0] as f32;
             let mut angle = (y_gradient).atan2(x_gradient) * RADIANS_TO_DEGREES;
@@ -118,8 +118,8 @@ fn hysteresis(input: &Image<Luma<f32>>, low_thresh: f32, high_thresh: f32) -> Im
     let mut out = Image::from_pixel(input.width(), input.height(), min_brightness);
     // Stack. Possible optimization: Use previously allocated memory, i.e. gx.
     let mut edges = Vec::with_capacity(((input.width() * input.height()) / 2) as usize);
-    for y in 1..input.height() - 1 {
-        for x in 1..input.width() - 1 {
+    for y in 1..input.height().saturating_sub(1) {
+        for x in 1..input.width().saturating_sub(1) {
             let inp_pix = *input.get_pixel(x, y);
             let out_pix = *out.get_pixel(x, y);
             // If the edge strength is higher than high_thresh, mark it as an edge.
@@ -132,12 +132,15 @@ fn hysteresis(input: &Image<Luma<f32>>, low_thresh: f32, high_thresh: f32) -> Im
                         (nx + 1, ny),
                         (nx + 1, ny + 1),
                         (nx, ny + 1),
-                        (nx - 1, ny - 1),
-                        (nx - 1, ny),
-                        (nx - 1, ny + 1),
+                        (nx.wrapping_sub(1), ny.wrapping_sub(1)),
+                        (nx.wrapping_sub(1), ny),
+                        (nx.wrapping_sub(1), ny + 1),
                     ];
 
                     for neighbor_idx in &neighbor_indices {
+                        if !input.in_bounds(neighbor_idx.0, neighbor_idx.1) {
+                            continue;
+                        }
                         let in_neighbor = *input.get_pixel(neighbor_idx.0, neighbor_idx.1);
                         let out_neighbor = *out.get_pixel(neighbor_idx.0, neighbor_idx.1);
                         if in_neighbor[0] >= low_thresh && out_neighbor[0] == 0 {
-- 
2.43.0


From dff9d6e1c21892f8858889f0e7092ed41394a36a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:14 +0000
Subject: [PATCH 11/33] fix: corners_fast12 finds sections on either side of
 the pixels above and below

---
 src/corners.rs | 23 ++++++-----------------
 1 file changed, 6 insertions(+), 17 deletions(-)

diff --git a/src/corners.rs b/src/corners.rs
index 51f17be..ee3eb51 100644
--- a/src/corners.rs
+++ b/src/corners.rs
@@ -358,30 +358,19 @@ fn is_corner_fast12(image: &GrayImage, threshold: u8, x: u32, y: u32) -> bool {
 
     // See Note [FAST circle labels]
     // JUSTIFICATION - see comment at the start of this function
-    let (p0, p8) = unsafe {
+    let (p0, p4, p8, p12) = unsafe {
         (
             image.unsafe_get_pixel(x, y - 3)[0] as i16,
-            image.unsafe_get_pixel(x, y + 3)[0] as i16,
-        )
-    };
-
-    let mut above = p0 > high_thresh && p8 > high_thresh;
-    let mut below = p0 < low_thresh && p8 < low_thresh;
-
-    if !above && !below {
-        return false;
-    }
-
-    // JUSTIFICATION - see comment at the start of this function
-    let (p4, p12) = unsafe {
-        (
             image.unsafe_get_pixel(x + 3, y)[0] as i16,
+            image.unsafe_get_pixel(x, y + 3)[0] as i16,
             image.unsafe_get_pixel(x - 3, y)[0] as i16,
         )
     };
 
-    above = above && ((p4 > high_thresh) || (p12 > high_thresh));
-    below = below && ((p4 < low_thresh) || (p12 < low_thresh));
+    // Every section of length twelve contains three of these four pixels.
+    let compass = [p0, p4, p8, p12];
+    let above = compass.iter().filter(|p| **p > high_thresh).count() >= 3;
+    let below = compass.iter().filter(|p| **p < low_thresh).count() >= 3;
 
     if !above && !below {
         return false;
-- 
2.43.0


From b5767028dacaf88e650a1091906dec7218e3c8db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:28 +0000
Subject: [PATCH 12/33] fix: oriented_fast accepts small images and clips
 orientation patches at the image border

---
 src/corners.rs | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/corners.rs b/src/corners.rs
index ee3eb51..1808a40 100644
--- a/src/corners.rs
+++ b/src/corners.rs
@@ -124,7 +124,10 @@ fn intensity_centroid(image: &GrayImage, x: u32, y: u32, radius: u32) -> f32 {
     let y_max = u32::min(y + radius + 1, height);
     let x_max = u32::min(x + radius + 1, width);
 
-    let (mut x_count, mut y_count) = (-(radius as i32), (radius as i32));
+    // The offsets from the center of the first pixel of each row and column. The
+    // patch is smaller than usual if the center is close to the image border.
+    let (x_start, y_start) = (x_min as i32 - x as i32, y as i32 - y_min as i32);
+    let (mut x_count, mut y_count) = (x_start, y_start);
 
     for y in y_min..y_max {
         for x in x_min..x_max {
@@ -146,7 +149,7 @@ fn intensity_centroid(image: &GrayImage, x: u32, y: u32, radius: u32) -> f32 {
             x_centroid += x_count * (pixel as i32);
             x_count += 1;
         }
-        x_count = -(radius as i32);
+        x_count = x_start;
     }
 
     for x in x_min..x_max {
@@ -156,7 +159,7 @@ fn intensity_centroid(image: &GrayImage, x: u32, y: u32, radius: u32) -> f32 {
             y_centroid += y_count * (pixel as i32);
             y_count -= 1;
         }
-        y_count = radius as i32;
+        y_count = y_start;
     }
 
     // Important note: we flip the sign here because there are two coordinate
@@ -178,9 +181,12 @@ pub fn oriented_fast(
     seed: Option<u64>,
 ) -> Vec<OrientedFastCorner> {
     let (width, height) = image.dimensions();
-    let (min_x, max_x) = (edge_radius, width - edge_radius);
-    let (min_y, max_y) = (edge_radius, height - edge_radius);
+    let (min_x, max_x) = (edge_radius, width.saturating_sub(edge_radius));
+    let (min_y, max_y) = (edge_radius, height.saturating_sub(edge_radius));
     let mut corners = vec![];
+    if min_x >= max_x || min_y >= max_y {
+        return vec![];
+    }
 
     let local_threshold = if let Some(t) = threshold {
         t
@@ -205,14 +211,14 @@ pub fn oriented_fast(
             .collect();
         fast_scores.sort();
         let target_corner_fraction = (target_num_corners as f32) / ((width * height) as f32);
-        let fraction_idx = (NUM_SAMPLE_POINTS as f32 * (1. - target_corner_fraction)) as usize;
+        let fraction_idx = (sample_size as f32 * (1. - target_corner_fraction)) as usize;
 
-        fast_scores[fraction_idx]
+        fast_scores[fraction_idx.min(sample_size - 1)]
     };
 
     // Iterate over every pixel in the image and find potential corners.
-    for y in edge_radius..height - edge_radius {
-        for x in edge_radius..width - edge_radius {
+    for y in min_y..max_y {
+        for x in min_x..max_x {
             if is_corner_fast9(image, local_threshold, x, y) {
                 let score = fast_corner_score(image, local_threshold, x, y, Fast::Nine);
                 corners.push(Corner::new(x, y, score as f32));
-- 
2.43.0


From b282dfbaac3d73163067fd7c5da6b5229334ca79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:20 +0000
Subject: [PATCH 13/33] fix: approximate_polygon_dp keeps points of curves that
 return to their start

---
 src/geometry.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/geometry.rs b/src/geometry.rs
index c904efd..31a700f 100644
--- a/src/geometry.rs
+++ b/src/geometry.rs
@@ -35,9 +35,14 @@ where
     let mut dmax = 0.0;
     let mut index = 0;
     let end = curve.len() - 1;
-    let line = Line::from_points(curve[0].to_f64(), curve[end].to_f64());
+    let (first, last) = (curve[0].to_f64(), curve[end].to_f64());
+    let line = Line::from_points(first, last);
     for (i, point) in curve.iter().enumerate().skip(1) {
-        let d = line.distance_from_point(point.to_f64());
+        let d = if first == last {
+            distance(first, point.to_f64())
+        } else {
+            line.distance_from_point(point.to_f64())
+        };
         if d > dmax {
             index = i;
             dmax = d;
-- 
2.43.0


From 6b9836a162674574e2e4d260daa66ed5cf6189f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:20 +0000
Subject: [PATCH 14/33] fix: min_area_rect considers the edge from the last
 hull point to the first

---
 src/geometry.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/geometry.rs b/src/geometry.rs
index 31a700f..784f111 100644
--- a/src/geometry.rs
+++ b/src/geometry.rs
@@ -124,10 +124,10 @@ fn rotating_calipers<T>(points: &[Point<T>]) -> [Point<T>; 4]
 where
     T: NumCast + Copy,
 {
-    let mut edge_angles: Vec<f64> = points
-        .windows(2)
-        .map(|e| {
-            let edge = e[1].to_f64() - e[0].to_f64();
+    let mut edge_angles: Vec<f64> = (0..points.len())
+        .map(|i| {
+            let next = points[(i + 1) % points.len()];
+            let edge = next.to_f64() - points[i].to_f64();
             ((edge.y.atan2(edge.x) + PI) % (PI / 2.)).abs()
         })
         .collect();
-- 
2.43.0


From 4c17050855e944f67566fc9ff0610d8b07c9dee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:20 +0000
Subject: [PATCH 15/33] fix: convex_hull orders equal points consistently and
 does not overflow

---
 src/geometry.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/geometry.rs b/src/geometry.rs
index 784f111..d823d61 100644
--- a/src/geometry.rs
+++ b/src/geometry.rs
@@ -208,14 +208,12 @@ where
     }
     points.swap(0, start_point_pos);
     points.remove(0);
+    points.retain(|p| p.x != start_point.x || p.y != start_point.y);
     points.sort_by(
         |a, b| match orientation(start_point.to_i32(), a.to_i32(), b.to_i32()) {
             Orientation::Collinear => {
-                if distance(start_point, *a) < distance(start_point, *b) {
-                    Ordering::Less
-                } else {
-                    Ordering::Greater
-                }
+                let (da, db) = (distance(start_point, *a), distance(start_point, *b));
+                da.partial_cmp(&db).unwrap()
             }
             Orientation::Clockwise => Ordering::Greater,
             Orientation::CounterClockwise => Ordering::Less,
@@ -266,6 +264,8 @@ enum Orientation {
 
 /// Determines whether p -> q -> r is a left turn, a right turn, or the points are collinear.
 fn orientation(p: Point<i32>, q: Point<i32>, r: Point<i32>) -> Orientation {
+    // The products of the differences need not fit into 64 bits.
+    let [p, q, r] = [p, q, r].map(|p| Point::new(p.x as i128, p.y as i128));
     let val = (q.y - p.y) * (r.x - q.x) - (q.x - p.x) * (r.y - q.y);
     match val.cmp(&0) {
         Ordering::Equal => Orientation::Collinear,
-- 
2.43.0


From 86caa5a444ba1cbd558d527a1eb3812a93b7946f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:15 +0000
Subject: [PATCH 16/33] fix: Rect right, bottom and intersect do not overflow
 for rectangles reaching past i32::MAX

---
 src/rect.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/rect.rs b/src/rect.rs
index 4c64403..52a1531 100644
--- a/src/rect.rs
+++ b/src/rect.rs
@@ -62,14 +62,14 @@ impl Rect {
     ///
     /// See the [struct-level documentation](Rect) for examples.
     pub fn bottom(&self) -> i32 {
-        self.top + (self.height as i32) - 1
+        self.top.saturating_add_unsigned(self.height - 1)
     }
 
     /// Greatest x-coordinate reached by rect.
     ///
     /// See the [struct-level documentation](Rect) for examples.
     pub fn right(&self) -> i32 {
-        self.left + (self.width as i32) - 1
+        self.left.saturating_add_unsigned(self.width - 1)
     }
 
     /// Width of rect.
@@ -107,18 +107,20 @@ impl Rect {
     pub fn intersect(&self, other: Rect) -> Option<Rect> {
         let left = cmp::max(self.left, other.left);
         let top = cmp::max(self.top, other.top);
-        let right = cmp::min(self.right(), other.right());
-        let bottom = cmp::min(self.bottom(), other.bottom());
+        // The edges of a rectangle need not fit into an i32.
+        let end = |start: i32, length: u32| i64::from(start) + i64::from(length);
+        let right = cmp::min(end(self.left, self.width), end(other.left, other.width));
+        let bottom = cmp::min(end(self.top, self.height), end(other.top, other.height));
 
-        if right < left || bottom < top {
+        if right <= i64::from(left) || bottom <= i64::from(top) {
             return None;
         }
 
         Some(Rect {
             left,
             top,
-            width: (right - left) as u32 + 1,
-            height: (bottom - top) as u32 + 1,
+            width: (right - i64::from(left)) as u32,
+            height: (bottom - i64::from(top)) as u32,
         })
     }
 }
-- 
2.43.0


From 4daedb3bcbe0c914d7a9a1fd2907fccff5461987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:15 +0000
Subject: [PATCH 17/33] fix: draw_filled_rect on an image without pixels

---
 src/drawing/rect.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/drawing/rect.rs b/src/drawing/rect.rs
index ee2c99e..4f20d3e 100644
--- a/src/drawing/rect.rs
+++ b/src/drawing/rect.rs
@@ -52,6 +52,9 @@ pub fn draw_filled_rect_mut<C>(canvas: &mut C, rect: Rect, color: C::Pixel)
 where
     C: Canvas,
 {
+    if canvas.width() == 0 || canvas.height() == 0 {
+        return;
+    }
     let canvas_bounds = Rect::at(0, 0).of_size(canvas.width(), canvas.height());
     if let Some(intersection) = canvas_bounds.intersect(rect) {
         for dy in 0..intersection.height() {
-- 
2.43.0


From 535e618ed06e564e00e8b0131888b4cb83322e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:15 +0000
Subject: [PATCH 18/33] fix: draw_cross next to the largest coordinates does
 not overflow

---
 src/drawing/cross.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/drawing/cross.rs b/src/drawing/cross.rs
index bb3be8c..35844a7 100644
--- a/src/drawing/cross.rs
+++ b/src/drawing/cross.rs
@@ -28,13 +28,13 @@ where
                    0u8, 1u8, 0u8];
 
     for sy in -1..2 {
-        let iy = y + sy;
+        let iy = y.saturating_add(sy);
         if iy < 0 || iy >= height as i32 {
             continue;
         }
 
         for sx in -1..2 {
-            let ix = x + sx;
+            let ix = x.saturating_add(sx);
             if ix < 0 || ix >= width as i32 {
                 continue;
             }
-- 
2.43.0


From 743aa99d08cc8f7f4c43a22904f3f68b0d09bc6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:15 +0000
Subject: [PATCH 19/33] fix: BresenhamLineIter for lines ending at the largest
 coordinate

---
 src/drawing/line.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/drawing/line.rs b/src/drawing/line.rs
index 2e8f962..3b8c904 100644
--- a/src/drawing/line.rs
+++ b/src/drawing/line.rs
@@ -8,10 +8,11 @@ use std::mem::{swap, transmute};
 pub struct BresenhamLineIter {
     dx: f32,
     dy: f32,
-    x: i32,
+    // Wider than the coordinates, as it ends one past `end_x`.
+    x: i64,
     y: i32,
     error: f32,
-    end_x: i32,
+    end_x: i64,
     is_steep: bool,
     y_step: i32,
 }
@@ -39,10 +40,10 @@ impl BresenhamLineIter {
         BresenhamLineIter {
             dx,
             dy: (y1 - y0).abs(),
-            x: x0 as i32,
+            x: x0 as i32 as i64,
             y: y0 as i32,
             error: dx / 2f32,
-            end_x: x1 as i32,
+            end_x: x1 as i32 as i64,
             is_steep,
             y_step: if y0 < y1 { 1 } else { -1 },
         }
@@ -57,9 +58,9 @@ impl Iterator for BresenhamLineIter {
             None
         } else {
             let ret = if self.is_steep {
-                (self.y, self.x)
+                (self.y, self.x as i32)
             } else {
-                (self.x, self.y)
+                (self.x as i32, self.y)
             };
 
             self.x += 1;
-- 
2.43.0


From 88eb2b2dbbdd99b9d94cf2697b7abf659ac30d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:15 +0000
Subject: [PATCH 20/33] fix: antialiased lines with negative coordinates blend
 into the right pixels

---
 src/drawing/line.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/drawing/line.rs b/src/drawing/line.rs
index 3b8c904..97df158 100644
--- a/src/drawing/line.rs
+++ b/src/drawing/line.rs
@@ -285,8 +285,9 @@ fn plot_wu_line<I, T, B>(
     let mut fy = start.1 as f32;
 
     for x in start.0..(end.0 + 1) {
-        plotter.plot(x, fy as i32, color, 1.0 - fy.fract());
-        plotter.plot(x, fy as i32 + 1, color, fy.fract());
+        let y = fy.floor();
+        plotter.plot(x, y as i32, color, 1.0 - (fy - y));
+        plotter.plot(x, y as i32 + 1, color, fy - y);
         fy += gradient;
     }
 }
-- 
2.43.0


From d14edfb4210404abcde97d1b737b1ae07d23b867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:15 +0000
Subject: [PATCH 21/33] fix: ellipses with large radii or centres do not
 overflow, and flat ellipses are drawn in full

---
 src/drawing/conics.rs | 60 ++++++++++++++++++++++++-------------------
 1 file changed, 33 insertions(+), 27 deletions(-)

diff --git a/src/drawing/conics.rs b/src/drawing/conics.rs
index 9f4a9e0..ab6d6eb 100644
--- a/src/drawing/conics.rs
+++ b/src/drawing/conics.rs
@@ -47,10 +47,10 @@ pub fn draw_hollow_ellipse_mut<C>(
     }
 
     let draw_quad_pixels = |x0: i32, y0: i32, x: i32, y: i32| {
-        draw_if_in_bounds(canvas, x0 + x, y0 + y, color);
-        draw_if_in_bounds(canvas, x0 - x, y0 + y, color);
-        draw_if_in_bounds(canvas, x0 + x, y0 - y, color);
-        draw_if_in_bounds(canvas, x0 - x, y0 - y, color);
+        draw_if_in_bounds(canvas, x0.saturating_add(x), y0.saturating_add(y), color);
+        draw_if_in_bounds(canvas, x0.saturating_sub(x), y0.saturating_add(y), color);
+        draw_if_in_bounds(canvas, x0.saturating_add(x), y0.saturating_sub(y), color);
+        draw_if_in_bounds(canvas, x0.saturating_sub(x), y0.saturating_sub(y), color);
     };
 
     draw_ellipse(draw_quad_pixels, center, width_radius, height_radius);
@@ -101,14 +101,14 @@ pub fn draw_filled_ellipse_mut<C>(
     let draw_line_pairs = |x0: i32, y0: i32, x: i32, y: i32| {
         draw_line_segment_mut(
             canvas,
-            ((x0 - x) as f32, (y0 + y) as f32),
-            ((x0 + x) as f32, (y0 + y) as f32),
+            (x0.saturating_sub(x) as f32, y0.saturating_add(y) as f32),
+            (x0.saturating_add(x) as f32, y0.saturating_add(y) as f32),
             color,
         );
         draw_line_segment_mut(
             canvas,
-            ((x0 - x) as f32, (y0 - y) as f32),
-            ((x0 + x) as f32, (y0 - y) as f32),
+            (x0.saturating_sub(x) as f32, y0.saturating_sub(y) as f32),
+            (x0.saturating_add(x) as f32, y0.saturating_sub(y) as f32),
             color,
         );
     };
@@ -124,8 +124,8 @@ where
     F: FnMut(i32, i32, i32, i32),
 {
     let (x0, y0) = center;
-    let w2 = (width_radius * width_radius) as f32;
-    let h2 = (height_radius * height_radius) as f32;
+    let w2 = (width_radius as f32).powi(2);
+    let h2 = (height_radius as f32).powi(2);
     let mut x = 0;
     let mut y = height_radius;
     let mut px = 0.0;
@@ -150,7 +150,7 @@ where
     }
 
     // Left and right regions.
-    p = h2 * (x as f32 + 0.5).powi(2) + (w2 * (y - 1).pow(2) as f32) - w2 * h2;
+    p = h2 * (x as f32 + 0.5).powi(2) + (w2 * (y as f32 - 1.0).powi(2)) - w2 * h2;
     while y > 0 {
         y -= 1;
         py += -2.0 * w2;
@@ -164,6 +164,12 @@ where
 
         render_func(x0, y0, x, y);
     }
+
+    // The remaining pixels of ellipses so flat that the row of the centre is reached early.
+    while y == 0 && x < width_radius {
+        x += 1;
+        render_func(x0, y0, x, y);
+    }
 }
 
 /// Draws the outline of a circle on an image.
@@ -196,14 +202,14 @@ where
     let y0 = center.1;
 
     while x <= y {
-        draw_if_in_bounds(canvas, x0 + x, y0 + y, color);
-        draw_if_in_bounds(canvas, x0 + y, y0 + x, color);
-        draw_if_in_bounds(canvas, x0 - y, y0 + x, color);
-        draw_if_in_bounds(canvas, x0 - x, y0 + y, color);
-        draw_if_in_bounds(canvas, x0 - x, y0 - y, color);
-        draw_if_in_bounds(canvas, x0 - y, y0 - x, color);
-        draw_if_in_bounds(canvas, x0 + y, y0 - x, color);
-        draw_if_in_bounds(canvas, x0 + x, y0 - y, color);
+        draw_if_in_bounds(canvas, x0.saturating_add(x), y0.saturating_add(y), color);
+        draw_if_in_bounds(canvas, x0.saturating_add(y), y0.saturating_add(x), color);
+        draw_if_in_bounds(canvas, x0.saturating_sub(y), y0.saturating_add(x), color);
+        draw_if_in_bounds(canvas, x0.saturating_sub(x), y0.saturating_add(y), color);
+        draw_if_in_bounds(canvas, x0.saturating_sub(x), y0.saturating_sub(y), color);
+        draw_if_in_bounds(canvas, x0.saturating_sub(y), y0.saturating_sub(x), color);
+        draw_if_in_bounds(canvas, x0.saturating_add(y), y0.saturating_sub(x), color);
+        draw_if_in_bounds(canvas, x0.saturating_add(x), y0.saturating_sub(y), color);
 
         x += 1;
         if p < 0 {
@@ -247,26 +253,26 @@ where
     while x <= y {
         draw_line_segment_mut(
             canvas,
-            ((x0 - x) as f32, (y0 + y) as f32),
-            ((x0 + x) as f32, (y0 + y) as f32),
+            (x0.saturating_sub(x) as f32, y0.saturating_add(y) as f32),
+            (x0.saturating_add(x) as f32, y0.saturating_add(y) as f32),
             color,
         );
         draw_line_segment_mut(
             canvas,
-            ((x0 - y) as f32, (y0 + x) as f32),
-            ((x0 + y) as f32, (y0 + x) as f32),
+            (x0.saturating_sub(y) as f32, y0.saturating_add(x) as f32),
+            (x0.saturating_add(y) as f32, y0.saturating_add(x) as f32),
             color,
         );
         draw_line_segment_mut(
             canvas,
-            ((x0 - x) as f32, (y0 - y) as f32),
-            ((x0 + x) as f32, (y0 - y) as f32),
+            (x0.saturating_sub(x) as f32, y0.saturating_sub(y) as f32),
+            (x0.saturating_add(x) as f32, y0.saturating_sub(y) as f32),
             color,
         );
         draw_line_segment_mut(
             canvas,
-            ((x0 - y) as f32, (y0 - x) as f32),
-            ((x0 + y) as f32, (y0 - x) as f32),
+            (x0.saturating_sub(y) as f32, y0.saturating_sub(x) as f32),
+            (x0.saturating_add(y) as f32, y0.saturating_sub(x) as f32),
             color,
         );
 
-- 
2.43.0


From 37d6b6123560a6255410cfb21da89c250634f918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:15 +0000
Subject: [PATCH 22/33] fix: draw_polygon on an image without rows

---
 src/drawing/polygon.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/drawing/polygon.rs b/src/drawing/polygon.rs
index b3169f8..5a73856 100644
--- a/src/drawing/polygon.rs
+++ b/src/drawing/polygon.rs
@@ -143,7 +143,7 @@ where
     C: Canvas,
     L: Fn(&mut C, (f32, f32), (f32, f32), C::Pixel),
 {
-    if poly.is_empty() {
+    if poly.is_empty() || canvas.width() == 0 || canvas.height() == 0 {
         return;
     }
 
-- 
2.43.0


From ef77a893552450481fc82b05944530e19e8a12ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:15 +0000
Subject: [PATCH 23/33] fix: flood_fill with the colour of the region
 terminates

---
 src/drawing/fill.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/drawing/fill.rs b/src/drawing/fill.rs
index 74c05ab..c30e494 100644
--- a/src/drawing/fill.rs
+++ b/src/drawing/fill.rs
@@ -18,6 +18,9 @@ where
     P: Pixel + PartialEq,
 {
     let target = *image.get_pixel(x, y);
+    if target == fill_with {
+        return;
+    }
 
     let mut stack = Vec::new();
 
-- 
2.43.0


From add64b923ac44d454bd2abeb44e2bd9135ff619f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:15 +0000
Subject: [PATCH 24/33] fix: intersection_points for lines through a corner of
 the image

---
 src/hough.rs | 47 ++++++++++++++++++++---------------------------
 1 file changed, 20 insertions(+), 27 deletions(-)

diff --git a/src/hough.rs b/src/hough.rs
index 659a481..9aba627 100644
--- a/src/hough.rs
+++ b/src/hough.rs
@@ -163,37 +163,30 @@ pub fn intersection_points(
     let bottom_x = sin.mul_add(-h, r) / cos;
     let top_x = r / cos;
 
-    let mut start = None;
-
-    if right_y >= 0.0 && right_y <= h {
-        let right_intersect = (w, right_y);
-        start = Some(right_intersect);
-    }
-
-    if left_y >= 0.0 && left_y <= h {
-        let left_intersect = (0.0, left_y);
-        if let Some(s) = start {
-            return Some((s, left_intersect));
+    // A line through a corner of the image meets two sides in the same point,
+    // so take the intersection point furthest from the first one found. Rounding
+    // can move such a point just outside the image, so allow for this.
+    let tolerance = 1e-6 * (w + h);
+    let mut start: Option<(f32, f32)> = None;
+    let mut end: Option<(f32, f32)> = None;
+
+    for (x, y) in [(w, right_y), (0.0, left_y), (bottom_x, h), (top_x, 0.0)] {
+        if !(-tolerance..=w + tolerance).contains(&x) || !(-tolerance..=h + tolerance).contains(&y)
+        {
+            continue;
         }
-        start = Some(left_intersect);
-    }
-
-    if bottom_x >= 0.0 && bottom_x <= w {
-        let bottom_intersect = (bottom_x, h);
-        if let Some(s) = start {
-            return Some((s, bottom_intersect));
-        }
-        start = Some(bottom_intersect);
-    }
-
-    if top_x >= 0.0 && top_x <= w {
-        let top_intersect = (top_x, 0.0);
-        if let Some(s) = start {
-            return Some((s, top_intersect));
+        let point = (x.clamp(0.0, w), y.clamp(0.0, h));
+        let Some(s) = start else {
+            start = Some(point);
+            continue;
+        };
+        let distance = |p: (f32, f32)| (p.0 - s.0).abs() + (p.1 - s.1).abs();
+        if end.map_or(true, |e| distance(point) > distance(e)) {
+            end = Some(point);
         }
     }
 
-    None
+    Some((start?, end?))
 }
 
 #[cfg(test)]
-- 
2.43.0


From 09cb58a6a301ea9b097371518258a0518dd82071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:15 +0000
Subject: [PATCH 25/33] fix: find_vertical_seam traces back the least energy
 path

---
 src/seam_carving.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/seam_carving.rs b/src/seam_carving.rs
index 44d195c..95a45cd 100644
--- a/src/seam_carving.rs
+++ b/src/seam_carving.rs
@@ -93,9 +93,10 @@ where
 
     for y in (1..height).rev() {
         let above = gradients.get_pixel(last_x, y - 1)[0];
+        min_energy = above;
         if last_x > 0 {
             let left = gradients.get_pixel(last_x - 1, y - 1)[0];
-            if left < above {
+            if left < min_energy {
                 min_x = last_x - 1;
                 min_energy = left;
             }
-- 
2.43.0


From 5aaa641130556488ae0c93b6b447412ba52fed2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:15 +0000
Subject: [PATCH 26/33] fix: draw_vertical_seams maps every seam to the columns
 of the original image

---
 src/seam_carving.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/seam_carving.rs b/src/seam_carving.rs
index 95a45cd..15f639e 100644
--- a/src/seam_carving.rs
+++ b/src/seam_carving.rs
@@ -175,13 +175,15 @@ pub fn draw_vertical_seams(image: &GrayImage, seams: &[VerticalSeam]) -> Image<R
     for seam in seams {
         for (y, x) in (0..height).rev().zip(&seam.0) {
             let mut x_original = *x;
-            for o in &offsets[y as usize] {
-                if *o < *x {
-                    x_original += 1;
-                }
+            // The columns already removed from this row, in increasing order.
+            let removed: &mut Vec<u32> = &mut offsets[y as usize];
+            let mut position = 0;
+            while position < removed.len() && removed[position] <= x_original {
+                x_original += 1;
+                position += 1;
             }
             out.put_pixel(x_original, y, Rgb([255, 0, 0]));
-            offsets[y as usize].push(x_original);
+            removed.insert(position, x_original);
         }
     }
 
-- 
2.43.0


From c94105a270396418c754dbaace8110b1c4a34c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:15 +0000
Subject: [PATCH 27/33] fix: map_pixels2 refuses images of different
 dimensions, as documented

---
 src/map.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/map.rs b/src/map.rs
index 61f28b7..daace5a 100644
--- a/src/map.rs
+++ b/src/map.rs
@@ -351,9 +351,15 @@ where
     R: Pixel,
     F: Fn(P, Q) -> R,
 {
+    assert_eq!(
+        image1.dimensions(),
+        image2.dimensions(),
+        "the two images must have the same dimensions"
+    );
+
     Image::from_vec(
         image1.width(),
-        image2.height(),
+        image1.height(),
         image1
             .pixels()
             .zip(image2.pixels())
-- 
2.43.0


From 667798fc27b0ee333783a4007894d6b3dc397f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:18 +0000
Subject: [PATCH 28/33] fix: Haar features of frames with sides of 255 are
 enumerated without overflow

---
 src/haar.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/haar.rs b/src/haar.rs
index 8eb7cd3..89f3707 100644
--- a/src/haar.rs
+++ b/src/haar.rs
@@ -327,8 +327,8 @@ impl<T> Size<T> {
 
 // Returns the valid block sizes for a feature of shape `feature_shape` in a frame of size `frame_size`.
 fn block_sizes(feature_shape: Size<Blocks>, frame_size: Size<Pixels>) -> Vec<Size<Pixels>> {
-    (1..frame_size.width / feature_shape.width + 1)
-        .cartesian_product(1..frame_size.height / feature_shape.height + 1)
+    (1..=frame_size.width / feature_shape.width)
+        .cartesian_product(1..=frame_size.height / feature_shape.height)
         .map(|(w, h)| Size::new(w, h))
         .collect()
 }
-- 
2.43.0


From 7b955377117ab07f91e8bab70c39296e7278b841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:52 +0000
Subject: [PATCH 29/33] fix: HogSpec::from_options returns errors for zero
 options and blocks larger than the grid

---
 src/hog.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/hog.rs b/src/hog.rs
index 793ae09..2043cbb 100644
--- a/src/hog.rs
+++ b/src/hog.rs
@@ -86,6 +86,11 @@ impl HogSpec {
         height: usize,
         options: HogOptions,
     ) -> Result<(usize, usize), String> {
+        if options.orientations == 0 || options.cell_side == 0 || options.block_stride == 0 {
+            return Err(Self::invalid_options_message(&[
+                "orientations, cell side and block stride must be positive".to_owned(),
+            ]));
+        }
         let mut errors: Vec<String> = vec![];
         if width % options.cell_side != 0 {
             errors.push(format!(
@@ -112,6 +117,12 @@ impl HogSpec {
         cells_high: usize,
         options: HogOptions,
     ) -> Result<(usize, usize), String> {
+        if options.block_side > cells_wide || options.block_side > cells_high {
+            return Err(Self::invalid_options_message(&[format!(
+                "block side {} is greater than cells wide {} or cells high {}",
+                options.block_side, cells_wide, cells_high
+            )]));
+        }
         let mut errors: Vec<String> = vec![];
         if (cells_wide - options.block_side) % options.block_stride != 0 {
             errors.push(format!(
@@ -183,7 +194,7 @@ impl HogSpec {
 /// `block_side` long and blocks are staggered by `block_stride`. Assumes that
 /// options are compatible.
 fn num_blocks(num_cells: usize, block_side: usize, block_stride: usize) -> usize {
-    (num_cells + block_stride - block_side) / block_stride
+    (num_cells - block_side) / block_stride + 1
 }
 
 /// Computes the HoG descriptor of an image, or None if the provided
-- 
2.43.0


From 25134c5485b09ca0421382cc6408bc21d77a1c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:52 +0000
Subject: [PATCH 30/33] fix: render_hist_grid draws each star within its own
 cell

---
 src/hog.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hog.rs b/src/hog.rs
index 2043cbb..78765b8 100644
--- a/src/hog.rs
+++ b/src/hog.rs
@@ -392,7 +392,7 @@ pub fn render_hist_grid(star_side: u32, grid: &View3d<'_, f32>, signed: bool) ->
             let x_window = x as u32 * star_side;
             let mut window = out.sub_image(x_window, y_window, star_side, star_side);
             let hist = grid.inner_slice(x, y);
-            draw_star_mut(window.inner_mut(), hist, signed);
+            draw_star_mut(&mut *window, hist, signed);
         }
     }
 
-- 
2.43.0


From 542cdb41f389485fd1062173c79692c1f03dd8fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:52 +0000
Subject: [PATCH 31/33] fix: brief keeps the bit of the first test of every 128

---
 src/binary_descriptors/brief.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/binary_descriptors/brief.rs b/src/binary_descriptors/brief.rs
index 4283ce3..a74d134 100644
--- a/src/binary_descriptors/brief.rs
+++ b/src/binary_descriptors/brief.rs
@@ -179,10 +179,10 @@ pub(crate) fn brief_impl(
             };
 
             // if p0 < p1, then record true for this test; otherwise, record false
+            descriptor_chunk <<= 1;
             descriptor_chunk += (local_pixel_average(integral_image, p0.x, p0.y, 2)
                 < local_pixel_average(integral_image, p1.x, p1.y, 2))
                 as u128;
-            descriptor_chunk <<= 1;
         }
         // save the final chunk too
         descriptor.bits.push(descriptor_chunk);
-- 
2.43.0


From c3233fe587363bf6d13c96f3ef4c1ffa0c4cb389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:52 +0000
Subject: [PATCH 32/33] fix: brief refuses keypoints as near to the right and
 bottom edges as to the left and top

---
 src/binary_descriptors/brief.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/binary_descriptors/brief.rs b/src/binary_descriptors/brief.rs
index a74d134..a549d27 100644
--- a/src/binary_descriptors/brief.rs
+++ b/src/binary_descriptors/brief.rs
@@ -130,14 +130,15 @@ pub(crate) fn brief_impl(
     }
 
     let mut descriptors: Vec<BriefDescriptor> = Vec::with_capacity(keypoints.len());
-    let (width, height) = (integral_image.width(), integral_image.height());
+    // the integral image is one pixel wider and higher than the image itself
+    let (width, height) = (integral_image.width() - 1, integral_image.height() - 1);
 
     for keypoint in keypoints {
         // if the keypoint is too close to the edge, return an error
         if keypoint.x <= BRIEF_PATCH_RADIUS
-            || keypoint.x + BRIEF_PATCH_RADIUS >= width
+            || keypoint.x >= width.saturating_sub(BRIEF_PATCH_RADIUS + 1)
             || keypoint.y <= BRIEF_PATCH_RADIUS
-            || keypoint.y + BRIEF_PATCH_RADIUS >= height
+            || keypoint.y >= height.saturating_sub(BRIEF_PATCH_RADIUS + 1)
         {
             return Err(format!(
                 "Found keypoint within {} px of image edge: ({}, {})",
-- 
2.43.0


From e09cdefa26b03fd22e528a16676442c1fc7059fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:52 +0000
Subject: [PATCH 33/33] fix: draw_text accepts positions anywhere in i32

---
 src/drawing/text.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/drawing/text.rs b/src/drawing/text.rs
index 13319af..ed972fd 100644
--- a/src/drawing/text.rs
+++ b/src/drawing/text.rs
@@ -85,15 +85,15 @@ pub fn draw_text_mut<C>(
     C: Canvas,
     <C::Pixel as Pixel>::Subpixel: Into<f32> + Clamp<f32>,
 {
-    let image_width = canvas.width() as i32;
-    let image_height = canvas.height() as i32;
+    let image_width = canvas.width() as i64;
+    let image_height = canvas.height() as i64;
 
     layout_glyphs(scale, font, text, |g, bb| {
-        let x_shift = x + bb.min.x.round() as i32;
-        let y_shift = y + bb.min.y.round() as i32;
+        let x_shift = x as i64 + bb.min.x.round() as i64;
+        let y_shift = y as i64 + bb.min.y.round() as i64;
         g.draw(|gx, gy, gv| {
-            let image_x = gx as i32 + x_shift;
-            let image_y = gy as i32 + y_shift;
+            let image_x = gx as i64 + x_shift;
+            let image_y = gy as i64 + y_shift;
 
             if (0..image_width).contains(&image_x) && (0..image_height).contains(&image_y) {
                 let image_x = image_x as u32;
-- 
2.43.0

