From 8d021cc7c8aad3745d4688a462ceafcd6150fad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:53 +0000
Subject: [PATCH 01/11] fix: zip-back panics on sequences longer than a symbol
 can hold

---
 src/zip/back.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/zip/back.rs b/src/zip/back.rs
index 3b3150c..7b3e808 100644
--- a/src/zip/back.rs
+++ b/src/zip/back.rs
@@ -37,6 +37,10 @@ impl Symbol {
     const ENUM_CODE_EXPLICIT: u8 = 0;
     const ENUM_CODE_LOOKBACK: u8 = 1;
 
+    /// The longest byte sequence that a single symbol can represent.
+    /// The most significant bit of the length is taken by the enum code.
+    const MAX_LEN: usize = (Len::MAX >> 1) as usize;
+
     fn mask(msb: u8) -> Len {
         (msb as Len).rotate_right(1)
     }
@@ -148,7 +152,13 @@ impl<I: Iterator<Item = u8>> Encoder<I> {
     fn next_symbols(&mut self, channel: &mut Vec<Symbol>) {
         let mut curr_explicit: Vec<u8> = Vec::new();
 
-        fn push_explicit(curr_explicit: Vec<u8>, channel: &mut Vec<Symbol>) {
+        fn push_explicit(mut curr_explicit: Vec<u8>, channel: &mut Vec<Symbol>) {
+            // Split the sequences that are too long for a single symbol
+            while curr_explicit.len() > Symbol::MAX_LEN {
+                let rest = curr_explicit.split_off(Symbol::MAX_LEN);
+                channel.push(Symbol::Explicit(curr_explicit));
+                curr_explicit = rest;
+            }
             if !curr_explicit.is_empty() {
                 channel.push(Symbol::Explicit(curr_explicit));
             }
@@ -262,7 +272,8 @@ impl<I: Iterator<Item = u8>> Encoder<I> {
         let mut max_rep_len = 0;
         let mut max_rep_back = 0;
         for (lookback, subseq) in self.history.subseqs_starting(&prefix) {
-            let input_iter = self.rep_buf.iter().cloned();
+            // Longer repetitions can't be represented by a single symbol
+            let input_iter = self.rep_buf.iter().cloned().take(Symbol::MAX_LEN);
             let rep_len =
                 input_iter.zip(subseq)
                     .take_while(|(a, b)| a == b)
-- 
2.43.0


From c417e4996eb7dfca5b2eff1637d893bea5594252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:53 +0000
Subject: [PATCH 02/11] fix: fun_call slices its input at char counts instead
 of byte offsets

---
 src/prs.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/prs.rs b/src/prs.rs
index 4b17a53..e070476 100644
--- a/src/prs.rs
+++ b/src/prs.rs
@@ -27,8 +27,7 @@ pub fn fun_call(input: &str) -> Option<(&str, Vec<&str>)> {
     let mut paren_stack: u16 = 0;
     let mut last_pos: usize = 0;
 
-    for (new_pos, c) in input.chars()
-                                .enumerate()
+    for (new_pos, c) in input.char_indices()
                                 .filter(|(_, c)|
                                     *c == '(' || *c == ')' || *c == ',')
     {
-- 
2.43.0


From 4c16bba595a48db1e81c9eccd81fb231204d7323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:53 +0000
Subject: [PATCH 03/11] fix: fun_call overflows on deeply nested parentheses

---
 src/prs.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/prs.rs b/src/prs.rs
index e070476..41d51b6 100644
--- a/src/prs.rs
+++ b/src/prs.rs
@@ -24,7 +24,7 @@ pub fn matches_fully<'a>(input: &'a str, regex: &str) -> Option<&'a str> {
 pub fn fun_call(input: &str) -> Option<(&str, Vec<&str>)> {
     let mut fun_name = None;
     let mut params = Vec::new();
-    let mut paren_stack: u16 = 0;
+    let mut paren_stack: usize = 0;
     let mut last_pos: usize = 0;
 
     for (new_pos, c) in input.char_indices()
-- 
2.43.0


From 4371899652649a94906413bc0d81cf2fd66a3d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:53 +0000
Subject: [PATCH 04/11] fix: hilbert(rle()) panics instead of being refused

---
 src/codec/hilbertc.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/codec/hilbertc.rs b/src/codec/hilbertc.rs
index 4c59b78..e552e7a 100644
--- a/src/codec/hilbertc.rs
+++ b/src/codec/hilbertc.rs
@@ -368,10 +368,9 @@ impl FromStr for CompressionMethod {
 
                     let _ = prs::matches_fully(rle, "rle")
                                 .ok_or_else(|| ParseError::WrongName { expected: String::from("rle"), found: String::from(rle) })?;
-                    if rle_args.len() > 1 {
+                    if rle_args.len() != 1 {
                         return Err(ParseError::WrongNumberOfArguments { expected: 1, found: rle_args.len() });
                     }
-                    assert_ne!(rle_args.len(), 0);
 
                     f64::from_str(rle_args.first().unwrap())
                         .map_err(|e| format!("{:?}", e))?
-- 
2.43.0


From 1a74289ec1adffa03522bde5db612b481c12e9d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:53 +0000
Subject: [PATCH 05/11] fix: voronoi distances underflow

---
 src/codec/clusterc.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/codec/clusterc.rs b/src/codec/clusterc.rs
index 23aa5fd..c0d47f0 100644
--- a/src/codec/clusterc.rs
+++ b/src/codec/clusterc.rs
@@ -180,7 +180,7 @@ impl Codec for VoronoiCluster {
         for (x, y, px) in img.enumerate_pixels_mut() {
             // Find the closest centroid
             let closest_centroid = centroids.iter()
-                                        .min_by_key(|c| (c.x - x).pow(2) + (c.y - y).pow(2))
+                                        .min_by_key(|c| (c.x.abs_diff(x) as u128).pow(2) + (c.y.abs_diff(y) as u128).pow(2))
                                         .unwrap();
             *px = closest_centroid.color.clone();
         }
@@ -205,8 +205,8 @@ struct ColorPos {
 
 impl Distance for ColorPos {
     fn dist(&self, other: &Self) -> f64 {
-        let mut d = (self.x - other.x).pow(2) as f64;
-        d += (self.y - other.y).pow(2) as f64;
+        let mut d = (self.x.abs_diff(other.x) as u64).pow(2) as f64;
+        d += (self.y.abs_diff(other.y) as u64).pow(2) as f64;
         d += self.color.dist(&other.color).powi(2);
         (d as f64).sqrt()
     }
-- 
2.43.0


From 168d513c2dd7901a5f117579c5122f6b5cfc3a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:48 +0000
Subject: [PATCH 06/11] fix: decoders panic or return partial images on
 truncated streams

---
 src/codec/hilbertc.rs | 28 ++++++++++++++++++----------
 src/zip/back.rs       |  5 ++++-
 src/zip/dict.rs       |  2 +-
 3 files changed, 23 insertions(+), 12 deletions(-)

diff --git a/src/codec/hilbertc.rs b/src/codec/hilbertc.rs
index e552e7a..cd5851b 100644
--- a/src/codec/hilbertc.rs
+++ b/src/codec/hilbertc.rs
@@ -53,13 +53,13 @@ impl Codec for Hilbert {
     }
 
     fn decode<I: Iterator<Item = u8>>(&self, reader: &mut I) -> Option<super::Img> {
-        fn decode_any<I: Iterator<Item = Rgb<u8>>>(dimensions: (u32, u32), iter: I) -> Option<super::Img> {
+        fn decode_any<I: Iterator<Item = Rgb<u8>>>(dimensions: (u32, u32), mut iter: I) -> Option<super::Img> {
             let mut img_buffer = ImageBuffer::new(dimensions.0, dimensions.1);
 
-            hilbert::iter(dimensions.0 as usize, dimensions.1 as usize)
-                .zip(iter)
-                .for_each(|((x, y), color)|
-                    *img_buffer.get_pixel_mut(x as u32, y as u32) = color);
+            for (x, y) in hilbert::iter(dimensions.0 as usize, dimensions.1 as usize) {
+                // Fail if the stream doesn't contain all the pixels
+                *img_buffer.get_pixel_mut(x as u32, y as u32) = iter.next()?;
+            }
 
             Some(img_buffer.into())
         }
@@ -324,7 +324,14 @@ impl<I: Iterator<Item = u8>> Iterator for RleDecoder<I> {
         if self.count == 0 {
             self.count = RepCount::deserialize(&mut self.bytes)?;
             assert!(self.count > 0);
-            self.curr_color = <Rgb<u8>>::deserialize(&mut self.bytes).unwrap();
+            match <Rgb<u8>>::deserialize(&mut self.bytes) {
+                Some(color) => self.curr_color = color,
+                None => {
+                    // The stream ends in the middle of a run
+                    self.count = 0;
+                    return None;
+                }
+            }
         }
 
         self.count -= 1;
@@ -418,12 +425,13 @@ impl Codec for Delta {
 
         let hilbert = hilbert::iter(dimensions.0 as usize, dimensions.1 as usize);
 
-        let diff_stream = huf::decode_all(reader).unwrap();
-        let color_stream = FromDiff::new(diff_stream);
+        let diff_stream = huf::decode_all(reader)?;
+        let mut color_stream = FromDiff::new(diff_stream);
 
         // Follow the Hilbert traversal to reconstruct the image
-        for ((x, y), color) in hilbert.zip(color_stream) {
-            *img_buffer.get_pixel_mut(x as u32, y as u32) = color;
+        for (x, y) in hilbert {
+            // Fail if the stream doesn't contain all the pixels
+            *img_buffer.get_pixel_mut(x as u32, y as u32) = color_stream.next()?;
         }
 
         Some(img_buffer.into())
diff --git a/src/zip/back.rs b/src/zip/back.rs
index 7b3e808..def1415 100644
--- a/src/zip/back.rs
+++ b/src/zip/back.rs
@@ -98,7 +98,10 @@ impl Deserialize for Symbol {
         match enum_decider {
             Self::ENUM_CODE_EXPLICIT => {
                 let data: Vec<u8> = stream.take(len).collect();
-                assert!(data.len() == len);
+                if data.len() != len {
+                    // The stream ends in the middle of the symbol
+                    return None;
+                }
                 Some(Symbol::Explicit(data))
             }
             Self::ENUM_CODE_LOOKBACK => {
diff --git a/src/zip/dict.rs b/src/zip/dict.rs
index 5a184a6..732ba04 100644
--- a/src/zip/dict.rs
+++ b/src/zip/dict.rs
@@ -190,7 +190,7 @@ impl<I: Iterator<Item=u8>> Iterator for DictDecoder<I> {
             None => {
                 // Figure out the next sequence (if any)
                 let symbol1 = self.next_symbol()?;
-                let symbol2 = self.next_symbol().unwrap();
+                let symbol2 = self.next_symbol()?;
 
                 let seq1 = self.decode(symbol1);
                 let seq2 = self.decode(symbol2);
-- 
2.43.0


From e00e193aac54e965065a494da78fa250695e66da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:50 +0000
Subject: [PATCH 07/11] fix: huffman encoding panics when the output cannot be
 written

---
 src/huf.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/huf.rs b/src/huf.rs
index e02d083..5681b22 100644
--- a/src/huf.rs
+++ b/src/huf.rs
@@ -36,7 +36,7 @@ pub fn encode_all<I, T, W, F>(new_iter: F, writer: &mut W) -> io::Result<()>
     // 3. Write the payload
     let mut bit_writer = IoBitWriter::new(writer, BIT_ORDER);
     for symbol in new_iter() {
-        enc.encode(&symbol, &mut bit_writer).unwrap();
+        enc.encode(&symbol, &mut bit_writer)?;
     }
     bit_writer.pad_and_flush()?;
     Ok(())
@@ -135,15 +135,15 @@ impl<T: Hash + Eq + Clone> From<&Dec<T>> for Enc<T> {
 }
 
 impl<T: Hash + Eq> Enc<T> {
-    fn encode<W: bit::WriteBit>(&self, symbol: &T, writer: &mut W) -> Option<()> {
-        let code = self.codes.get(symbol)?;
+    fn encode<W: bit::WriteBit>(&self, symbol: &T, writer: &mut W) -> io::Result<()> {
+        let code = self.codes
+                        .get(symbol)
+                        .ok_or_else(|| io::Error::new(io::ErrorKind::InvalidInput, "Symbol without a code"))?;
         if code.len() == 0 {
-            return Some(());
+            return Ok(());
         }
 
         writer.write_arr(code)
-            .map_err(|e| eprintln!("{:?}", e))
-            .ok()
     }
 }
 
-- 
2.43.0


From 958b29cfb671229301e4936cc66af442085afd1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:12 +0000
Subject: [PATCH 08/11] fix: k-means panics when there are less points than
 clusters

---
 src/codec/clusterc.rs | 8 ++++++--
 src/kmeans.rs         | 2 ++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/codec/clusterc.rs b/src/codec/clusterc.rs
index c0d47f0..73ef075 100644
--- a/src/codec/clusterc.rs
+++ b/src/codec/clusterc.rs
@@ -158,8 +158,12 @@ impl Codec for VoronoiCluster {
         h.serialize(writer)?;
 
         // Write the centroids
-        self.0.serialize(writer)?;
-        for (centroid, _points) in clusters.into_iter() {
+        // Note: there can be less clusters than requested if the image is small
+        let centroids: Vec<_> = clusters.into_iter()
+                                    .map(|(centroid, _points)| centroid)
+                                    .collect();
+        centroids.len().serialize(writer)?;
+        for centroid in centroids.into_iter() {
             centroid.serialize(writer)?;
         }
         Ok(())
diff --git a/src/kmeans.rs b/src/kmeans.rs
index 10769ba..856de99 100644
--- a/src/kmeans.rs
+++ b/src/kmeans.rs
@@ -19,6 +19,8 @@ pub struct Clusters<T> {
 /*********************/
 
 pub fn cluster<T: Point>(points: Vec<T>, nclusters: usize) -> Clusters<T> {
+    // We can't make more clusters than we have points
+    let nclusters = min(nclusters, points.len());
     let mut clusters = init(points, nclusters);
     let mut changed_assignment = true;
 
-- 
2.43.0


From d47e4e5ec8c4fb2dd885f25e9803f264149b081b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:14 +0000
Subject: [PATCH 09/11] fix: cluster codecs accept zero clusters and panic
 later

---
 src/codec/clusterc.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/codec/clusterc.rs b/src/codec/clusterc.rs
index 73ef075..a5522bf 100644
--- a/src/codec/clusterc.rs
+++ b/src/codec/clusterc.rs
@@ -136,6 +136,10 @@ impl FromStr for ClusterColors {
         let ncolors = usize::from_str(digits_str.as_str())
                             .map_err(|e| format!("{:?}", e))?;
 
+        if ncolors == 0 {
+            return Err("The number of colors can't be 0".into());
+        }
+
         Ok(ClusterColors(ncolors))
     }
 }
@@ -296,6 +300,10 @@ impl FromStr for VoronoiCluster {
         let ncolors = usize::from_str(digits_str.as_str())
                             .map_err(|e| format!("{:?}", e))?;
 
+        if ncolors == 0 {
+            return Err("The number of clusters can't be 0".into());
+        }
+
         Ok(VoronoiCluster(ncolors))
     }
 }
-- 
2.43.0


From 138628b5b77d9cbf89b0d3558fcdbcd06980113f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:15 +0000
Subject: [PATCH 10/11] fix: cluster codecs match anywhere inside the argument

---
 src/codec/clusterc.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/codec/clusterc.rs b/src/codec/clusterc.rs
index a5522bf..26142b2 100644
--- a/src/codec/clusterc.rs
+++ b/src/codec/clusterc.rs
@@ -122,7 +122,7 @@ impl FromStr for ClusterColors {
          *   cluster-colors(x)
          * and all the in-between
          */
-        let regexp = Regex::new(r"c(?:luster)?-?col(?:ors)?\((\d+)\)").unwrap();
+        let regexp = Regex::new(r"^c(?:luster)?-?col(?:ors)?\((\d+)\)$").unwrap();
         let matches = regexp.captures(s)
                             .ok_or(String::from("Regex doesn't match"))?;
 
@@ -286,7 +286,7 @@ impl FromStr for VoronoiCluster {
         /* Allow:
          *   voronoi(x)
          */
-        let regexp = Regex::new(r"voronoi\((\d+)\)").unwrap();
+        let regexp = Regex::new(r"^voronoi\((\d+)\)$").unwrap();
         let matches = regexp.captures(s)
                             .ok_or(String::from("Regex doesn't match"))?;
 
-- 
2.43.0


From 3619b6704b862f9cd245ae9e7036689a0cee07e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:34 +0000
Subject: [PATCH 11/11] fix: k-means can end with empty clusters and panic

---
 src/kmeans.rs | 48 +++++++++++++++++++++++++++---------------------
 1 file changed, 27 insertions(+), 21 deletions(-)

diff --git a/src/kmeans.rs b/src/kmeans.rs
index 856de99..7571e96 100644
--- a/src/kmeans.rs
+++ b/src/kmeans.rs
@@ -1,6 +1,7 @@
 use std::cell::Cell;
 use std::cmp::{min, max};
 use crate::geom::Distance;
+use rand::Rng;
 use rand::seq::SliceRandom;
 
 pub trait Point: Sized + Distance {
@@ -111,34 +112,39 @@ fn init_centroids<T: Point>(assignment: &Assignment<T>) -> Vec<T> {
 
 fn compute_centroids<T: Point>(assignment: &Assignment<T>, centroids: &mut Vec<T>) {
     for points_in_cluster in assignment.iter() {
-        // FIXME need to cover the case when the cluster has no data
-        match T::mean(&points_in_cluster) {
-            Some(new_centroid) => {
-                centroids.push(new_centroid);
-            }
-            None => {
-                println!("########");
-                println!("Uncommon: empty cluster");
-                println!("########");
-                // No points were assigned to this cluster
-                // Pick a random point from another cluster
-                let mut victim = assignment.choose(&mut rand::thread_rng())
-                                            .unwrap();
-                while victim.len() == 0 {
-                    victim = assignment.choose(&mut rand::thread_rng())
-                                            .unwrap();
-                }
-                // Note: we don't actually remove the picked point from the victim cluster
-                // This will happen during the next assignment phase
-                let stolen = victim.choose(&mut rand::thread_rng())
+        let new_centroid = T::mean(&points_in_cluster)
+                            .unwrap();  // See fill_empty_clusters
+        centroids.push(new_centroid);
+    }
+}
+
+// Note: the next assignment phase can't be trusted to give points to these clusters,
+// it may not even consider their new centroids
+fn fill_empty_clusters<T>(assignment: &mut Assignment<T>) {
+    for i in 0..assignment.len() {
+        if assignment[i].len() == 0 {
+            println!("########");
+            println!("Uncommon: empty cluster");
+            println!("########");
+            // No points were assigned to this cluster
+            // Move a random point from another cluster, without emptying that one
+            // There are at least as many points as clusters, so it must exist
+            let mut victim = assignment.choose_mut(&mut rand::thread_rng())
+                                        .unwrap();
+            while victim.len() < 2 {
+                victim = assignment.choose_mut(&mut rand::thread_rng())
                                     .unwrap();
-                centroids.push(fake_clone(stolen));
             }
+            let stolen_idx = rand::thread_rng().gen_range(0, victim.len());
+            let stolen = victim.swap_remove(stolen_idx);
+            assignment[i].push(stolen);
         }
     }
 }
 
 fn update_centroids<T: Point>(clusters: &mut Clusters<T>) {
+    fill_empty_clusters(&mut clusters.assignment);
+
     // Note: Vec::clear() keeps the underlying allocated buffer, which is what we want
     clusters.centroids.clear();
     compute_centroids(&clusters.assignment, &mut clusters.centroids);
-- 
2.43.0

