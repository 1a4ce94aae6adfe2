From 550e57b4049d117de5432d2b014a591f0aaa4d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:44 +0000
Subject: [PATCH 1/6] fix: report each overlapping pair once from Intersections

An input that starts where an overlap with another input begins was
reported against both pieces of the latter: the one ending at that point,
and the one starting there.
---
 src/crossings.rs | 34 ++++++++++++++++++++++++----------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/src/crossings.rs b/src/crossings.rs
index 7ba6453..0a88e91 100644
--- a/src/crossings.rs
+++ b/src/crossings.rs
@@ -277,23 +277,37 @@ where
             let segments = self.inner.intersections_mut();
             (&segments[self.idx], &segments[self.jdx])
         };
-        // Ignore intersections that have already been processed
-        let should_compute = if self.is_overlap {
-            // For overlap, we only return intersection if at least
-            // one segment is the first, and both are at left
+        // Each pair must be reported exactly once, i.e. ignore
+        // intersections that have already been processed.
+        //
+        // An overlapping pair is reported where the overlap starts: both
+        // are at left, and at least one segment is the first.
+        let overlap_starts =
+            si.at_left && sj.at_left && (si.first_segment || sj.first_segment);
+        // Any other pair is reported at the only point it has in common:
+        // ignore all but one of the pieces that meet there.
+        let touches = (!si.at_left || si.first_segment) && (!sj.at_left || sj.first_segment);
+
+        if self.is_overlap {
             debug_assert_eq!(si.at_left, sj.at_left);
-            si.at_left && (si.first_segment || sj.first_segment)
-        } else {
-            (!si.at_left || si.first_segment) && (!sj.at_left || sj.first_segment)
-        };
-
-        if should_compute {
+        }
+        if overlap_starts || (touches && !self.is_overlap) {
             let si = si.crossable.clone();
             let sj = sj.crossable.clone();
 
             let int = line_intersection(si.line(), sj.line())
                 .expect("line_intersection returned `None` disagreeing with `CrossingsIter`");
 
+            // Overlapping segments may not be batched together.
+            let overlaps = self.is_overlap
+                || match int {
+                    LineIntersection::Collinear { intersection: l } => l.start != l.end,
+                    _ => false,
+                };
+
+            if overlaps && !overlap_starts || !overlaps && !touches {
+                return None;
+            }
             Some((si, sj, int))
         } else {
             None
-- 
2.43.0


From e9fb4c9dcdc01ddfecb2004e76c0171426ce7617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:10 +0000
Subject: [PATCH 2/6] fix: join boundary pieces of boolean operations only in
 the same direction

Where more than two boundaries meet at a point, a piece could be joined to
a chain that runs the other way: xor then panicked in debug builds and
returned overlapping polygons in release builds.
---
 src/bops/rings.rs | 35 +++++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/src/bops/rings.rs b/src/bops/rings.rs
index 74a3d63..cdd4ec3 100644
--- a/src/bops/rings.rs
+++ b/src/bops/rings.rs
@@ -8,7 +8,11 @@ use crate::{line_or_point::LineOrPoint, SweepPoint, utils::winding_inverse};
 #[derive(Debug, Clone)]
 pub struct Rings<T: GeoNum> {
     chains: Vec<Chain<T>>,
-    end_points: BTreeMap<SweepPoint<T>, Link>,
+    // Open ends of the chains, by end-point, and whether the
+    // boundary leaves from (as opposed to arrives at) the point.
+    // Several boundaries may meet at a point, and a piece must only
+    // be joined to an end that continues it in the same direction.
+    end_points: BTreeMap<(SweepPoint<T>, bool), Vec<Link>>,
 }
 
 impl<T: GeoNum> Default for Rings<T> {
@@ -95,9 +99,11 @@ impl<T: GeoFloat> Rings<T> {
         let left = geom.first();
         let right = geom.second();
 
+        // The boundary runs from left to right if ccw; otherwise right to left.
+        let from_left = winding == WindingOrder::CounterClockwise;
         let (le, re) = (
-            self.end_points.get(&left).copied(),
-            self.end_points.get(&right).copied(),
+            self.pop_end(left, !from_left),
+            self.pop_end(right, from_left),
         );
 
         match (le, re) {
@@ -105,15 +111,17 @@ impl<T: GeoFloat> Rings<T> {
                 // New chain.
                 let idx = self.chains.len();
                 self.chains.push(Chain::new(left, right, winding));
-                self.end_points.insert(
+                self.push_end(
                     left,
+                    from_left,
                     Link {
                         idx,
                         to_front: true,
                     },
                 );
-                self.end_points.insert(
+                self.push_end(
                     right,
+                    !from_left,
                     Link {
                         idx,
                         to_front: false,
@@ -124,30 +132,33 @@ impl<T: GeoFloat> Rings<T> {
             (None, Some(i)) => {
                 // right matched against of chains[i]
                 self.push_link(i, left, winding_inverse(winding));
-                self.end_points.remove(&right).unwrap();
-                self.end_points.insert(left, i);
+                self.push_end(left, from_left, i);
                 trace!("\tadded to {i:?}: {left:?}");
             }
             (Some(i), None) => {
                 // left matched against of chains[i]
                 self.push_link(i, right, winding);
-                self.end_points.remove(&left).unwrap();
-                self.end_points.insert(right, i);
+                self.push_end(right, !from_left, i);
                 trace!("\tadded to {i:?}: {right:?}");
-
             }
             (Some(i), Some(j)) => {
                 // Since both end points matched, we don't
                 // need to add to the end_points tree, nor
                 // push_link.  Only need to connect the two chains.
                 self.link_chains(i, j, winding);
-                self.end_points.remove(&left).unwrap();
-                self.end_points.remove(&right).unwrap();
                 trace!("\tconnected chains {i:?} and {j:?}");
             }
         }
     }
 
+    fn push_end(&mut self, pt: SweepPoint<T>, leaves: bool, link: Link) {
+        self.end_points.entry((pt, leaves)).or_default().push(link);
+    }
+
+    fn pop_end(&mut self, pt: SweepPoint<T>, leaves: bool) -> Option<Link> {
+        self.end_points.get_mut(&(pt, leaves)).and_then(Vec::pop)
+    }
+
     fn push_link(&mut self, l: Link, pt: SweepPoint<T>, winding: WindingOrder) {
         if l.to_front {
             self.chains[l.idx].push_front(pt);
-- 
2.43.0


From e948ef4e0ca5e4e205214df60c8ae9c31c9ea6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:45 +0000
Subject: [PATCH 3/6] fix: keep bottom below top when a scanned monotone
 polygon is interpolated

---
 src/monotone/mono_poly.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/monotone/mono_poly.rs b/src/monotone/mono_poly.rs
index 0643181..08f7be7 100644
--- a/src/monotone/mono_poly.rs
+++ b/src/monotone/mono_poly.rs
@@ -254,13 +254,16 @@ impl<'a, T: GeoFloat> Scanner<'a, T> {
                 (new_top, bot[self.bot_idx], Ordering::Less, self.curr.x)
             }
         };
+        // The chains may be so close that the rounding of interpolated
+        // values exchanges them: ensure `bot <= top`.
         if until < new_x {
+            let new_y = interpolate(bot[self.bot_idx], new_bot, until);
             Some((
                 None,
                 Trip {
                     x: until,
-                    top: interpolate(top[self.top_idx], new_top, until),
-                    bot: interpolate(bot[self.bot_idx], new_bot, until),
+                    top: interpolate(top[self.top_idx], new_top, until).max(new_y),
+                    bot: new_y,
                 },
             ))
         } else {
@@ -270,7 +273,7 @@ impl<'a, T: GeoFloat> Scanner<'a, T> {
                     Trip {
                         x: new_top.x,
                         top: new_top.y,
-                        bot: interpolate(bot[self.bot_idx], new_bot, new_top.x),
+                        bot: interpolate(bot[self.bot_idx], new_bot, new_top.x).min(new_top.y),
                     },
                 )),
                 Ordering::Equal => Some((
@@ -285,7 +288,7 @@ impl<'a, T: GeoFloat> Scanner<'a, T> {
                     Some(ord),
                     Trip {
                         x: new_bot.x,
-                        top: interpolate(top[self.top_idx], new_top, new_bot.x),
+                        top: interpolate(top[self.top_idx], new_top, new_bot.x).max(new_bot.y),
                         bot: new_bot.y,
                     },
                 )),
-- 
2.43.0


From eef71a4d0f1edde0f68148dfc04326d4ae215103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:41 +0000
Subject: [PATCH 4/6] fix: order a rounded intersection point after the first
 points of both lines

---
 src/line_or_point.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/line_or_point.rs b/src/line_or_point.rs
index c984ed9..2c71967 100644
--- a/src/line_or_point.rs
+++ b/src/line_or_point.rs
@@ -144,7 +144,7 @@ impl<T: Float> LineOrPoint<T> {
                 // `btree-slab` seems like a great starting point.
                 let (mut x, y) = pt.coord().x_y();
 
-                let c = self.first().coord();
+                let c = self.first().max(other.first()).coord();
 
                 if x == c.x && y < c.y {
                     x = x.next_after(T::infinity());
-- 
2.43.0


From 8e940989d3613d4ab101146ced254699433e93d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:41 +0000
Subject: [PATCH 5/6] fix: drop splay trees and their iterators without
 recursion

---
 src/splay/tree.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/splay/tree.rs b/src/splay/tree.rs
index 0901467..a55120c 100644
--- a/src/splay/tree.rs
+++ b/src/splay/tree.rs
@@ -34,7 +34,12 @@ where
     }
 
     pub fn clear(&mut self) {
-        self.root_mut().take();
+        // Taking the root alone would drop the nodes recursively, as
+        // deep as the tree is high. The iterator drops them in turn.
+        drop(IntoIter {
+            cur: self.root_mut().take(),
+            remaining: self.size,
+        });
         self.size = 0;
     }
 
@@ -390,6 +395,13 @@ impl<K, V> DoubleEndedIterator for IntoIter<K, V> {
 
 impl<K, V> ExactSizeIterator for IntoIter<K, V> {}
 
+impl<K, V> Drop for IntoIter<K, V> {
+    fn drop(&mut self) {
+        // Drop the remaining nodes without recursion.
+        self.for_each(drop);
+    }
+}
+
 /// Performs a top-down splay operation on a tree rooted at `node`. This will
 /// modify the pointer to contain the new root of the tree once the splay
 /// operation is done. When finished, if `key` is in the tree, it will be at the
-- 
2.43.0


From 70e8cd9f594dce2c8e9886f6c2721fa93a1d4db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:13 +0000
Subject: [PATCH 6/6] fix: size the sweep's storage by the lower bound of the
 size hint

---
 src/crossings.rs       | 7 +++----
 src/crossings/sweep.rs | 7 +++----
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/crossings.rs b/src/crossings.rs
index 0a88e91..134a7fa 100644
--- a/src/crossings.rs
+++ b/src/crossings.rs
@@ -168,10 +168,9 @@ where
 {
     fn from_iter<T: IntoIterator<Item = C>>(iter: T) -> Self {
         let iter = iter.into_iter();
-        let size = {
-            let (min_size, max_size) = iter.size_hint();
-            max_size.unwrap_or(min_size)
-        };
+        // The upper bound may be far off (or absent); only the lower bound is
+        // a sound basis for allocation.
+        let (size, _) = iter.size_hint();
         let sweep = Sweep::new(iter);
         let segments = Vec::with_capacity(4 * size);
         Self { sweep, segments }
diff --git a/src/crossings/sweep.rs b/src/crossings/sweep.rs
index 6878e98..044fce2 100644
--- a/src/crossings/sweep.rs
+++ b/src/crossings/sweep.rs
@@ -252,10 +252,9 @@ where
 {
     pub fn new<I: IntoIterator<Item = C>>(iter: I) -> Self {
         let iter = iter.into_iter();
-        let size = {
-            let (min_size, max_size) = iter.size_hint();
-            max_size.unwrap_or(min_size)
-        };
+        // The upper bound may be far off (or absent); only the lower bound is
+        // a sound basis for allocation.
+        let (size, _) = iter.size_hint();
 
         let mut sweep = Sweep {
             segments: Slab::with_capacity(16 * size).into(),
-- 
2.43.0

