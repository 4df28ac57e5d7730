From 30df3fbf4d764f42cd570fa2ac150f7dd5922f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:45 +0000
Subject: [PATCH 01/25] fix: compare the router's buffer-size instead of the
 number of directions

A router's first query on a graph with exactly two nodes panicked, because the
length of the array of both directions (2) was compared with the node-count.
---
 src/routing/dijkstra.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/routing/dijkstra.rs b/src/routing/dijkstra.rs
index acdb424..870de1d 100644
--- a/src/routing/dijkstra.rs
+++ b/src/routing/dijkstra.rs
@@ -72,7 +72,7 @@ impl Dijkstra {
         // fwd and bwd
         for &dir in &[Direction::FWD, Direction::BWD] {
             let dir = self.dir_idx(dir);
-            if self.costs.len() != new_len {
+            if self.costs[dir].len() != new_len {
                 self.costs[dir].resize(new_len, std::f64::INFINITY);
                 self.predecessors[dir].resize(new_len, None);
             }
-- 
2.43.0


From ff49399870adae380798e29d5ae1f9d031a216ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:45 +0000
Subject: [PATCH 02/25] fix: reset a router's touched nodes before resizing its
 buffers

Reusing a router for a smaller graph panicked.
---
 src/routing/dijkstra.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/routing/dijkstra.rs b/src/routing/dijkstra.rs
index 870de1d..292145d 100644
--- a/src/routing/dijkstra.rs
+++ b/src/routing/dijkstra.rs
@@ -72,16 +72,17 @@ impl Dijkstra {
         // fwd and bwd
         for &dir in &[Direction::FWD, Direction::BWD] {
             let dir = self.dir_idx(dir);
-            if self.costs[dir].len() != new_len {
-                self.costs[dir].resize(new_len, std::f64::INFINITY);
-                self.predecessors[dir].resize(new_len, None);
-            }
-
+            // reset before resizing, because touched indices belong to the previous query's graph
             for i in self.touched[dir].drain(..) {
                 self.costs[dir][i] = std::f64::INFINITY;
                 self.predecessors[dir][i] = None;
             }
 
+            if self.costs[dir].len() != new_len {
+                self.costs[dir].resize(new_len, std::f64::INFINITY);
+                self.predecessors[dir].resize(new_len, None);
+            }
+
             // assert!(self.costs[dir].iter().all(|&c| c == f64::INFINITY));
             // assert!(self.predecessors[dir].iter().all(|&p| p == None));
 
-- 
2.43.0


From d3c2ce9a737a13bc2e77312537ebdf4814f10ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:22 +0000
Subject: [PATCH 03/25] fix: give every node an upper bound in the
 offset-arrays

Only one bound was added after the last edge. Hence accessing the leaving (or
incoming) edges of the nodes with highest index panicked if they have none.
---
 src/network/graph/building.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/network/graph/building.rs b/src/network/graph/building.rs
index c6b81c8..c0a4ebd 100644
--- a/src/network/graph/building.rs
+++ b/src/network/graph/building.rs
@@ -759,7 +759,8 @@ impl GraphBuilder {
                 edge_idx += 1;
             }
             // last node needs an upper bound as well for `leaving_edges(...)`
-            graph.fwd_offsets.push(offset);
+            // -> and so do nodes of higher index, if they have no leaving edges
+            graph.fwd_offsets.resize(graph.node_ids.len() + 1, offset);
             progress_bar.set(offset);
             if progress_bar.has_progressed_significantly() {
                 progress_bar.remember_significant_progress();
@@ -873,7 +874,8 @@ impl GraphBuilder {
                 proto_edges.len(),
                 "Last offset-value should be as big as the number of proto-edges."
             );
-            graph.bwd_offsets.push(offset);
+            // -> and so do nodes of higher index, if they have no incoming edges
+            graph.bwd_offsets.resize(graph.node_ids.len() + 1, offset);
             progress_bar.set(graph.fwd_dsts.len());
             if progress_bar.has_progressed_significantly() {
                 progress_bar.remember_significant_progress();
-- 
2.43.0


From 53f44ce21ff8ccee55b825cc71dd01568071f11c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:22 +0000
Subject: [PATCH 04/25] fix: detect shortcut-cycles by nesting-depth when
 flattening a path

The length of the stack doesn't grow if a shortcut refers to itself via its
second edge, so flattening never terminated. On the other hand, valid paths
with repeated shortcuts have been rejected.
---
 src/routing/paths.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/routing/paths.rs b/src/routing/paths.rs
index 0eda0b8..bea3f87 100644
--- a/src/routing/paths.rs
+++ b/src/routing/paths.rs
@@ -100,19 +100,20 @@ impl Path {
         };
 
         // interpret old edges as stack, beginning with src
-        let mut old_edges = self.edges;
-        old_edges.reverse();
+        // Every edge remembers the number of shortcuts it has been unpacked from (nesting-depth).
+        let mut old_edges: Vec<_> = self.edges.into_iter().rev().map(|e| (e, 0)).collect();
 
         let fwd_edges = graph.fwd_edges();
-        while let Some(mut edge_idx) = old_edges.pop() {
+        while let Some((mut edge_idx, mut depth)) = old_edges.pop() {
             // if edge is shortcut
             // -> push on old-edges
             while let Some(sc_edges) = fwd_edges.sc_edges(edge_idx) {
-                old_edges.push(sc_edges[1]);
+                depth += 1;
+                old_edges.push((sc_edges[1], depth));
                 edge_idx = sc_edges[0];
 
-                // max path-length contains all edges in a graph
-                if old_edges.len() > fwd_edges.count() {
+                // without cycles, an edge can't be nested in more shortcuts than edges in a graph
+                if depth > fwd_edges.count() {
                     return Err("There is a cycle of shortcut-references in the graph.".into());
                 }
             }
-- 
2.43.0


From 2ac9f94a2fc36da904c7a1254f72a3fa83f97c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:38 +0000
Subject: [PATCH 05/25] fix: write the destination's coordinate for DstLat and
 DstLon

---
 src/io/writing/network/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/io/writing/network/mod.rs b/src/io/writing/network/mod.rs
index 8bb40f4..1c5fe8b 100644
--- a/src/io/writing/network/mod.rs
+++ b/src/io/writing/network/mod.rs
@@ -118,12 +118,12 @@ fn write_edges_to_file<W: Write>(
                                     write!(writer, "{}", dst_idx)?;
                                 }
                                 configs::parsing::edges::MetaInfo::DstLat => {
-                                    let dst_idx = bwd_edges.dst_idx(edge_idx);
+                                    let dst_idx = fwd_edges.dst_idx(edge_idx);
                                     let dst_lat = nodes.coord(dst_idx).lat;
                                     write!(writer, "{}", dst_lat)?;
                                 }
                                 configs::parsing::edges::MetaInfo::DstLon => {
-                                    let dst_idx = bwd_edges.dst_idx(edge_idx);
+                                    let dst_idx = fwd_edges.dst_idx(edge_idx);
                                     let dst_lon = nodes.coord(dst_idx).lon;
                                     write!(writer, "{}", dst_lon)?;
                                 }
-- 
2.43.0


From dbccf87d1ce6adc4564210c2e684957d4f7d3d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:38 +0000
Subject: [PATCH 06/25] fix: report unknown metric-ids of the
 generating-section as error

---
 src/network/graph/building.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/network/graph/building.rs b/src/network/graph/building.rs
index c0a4ebd..2d713bc 100644
--- a/src/network/graph/building.rs
+++ b/src/network/graph/building.rs
@@ -1212,7 +1212,7 @@ impl GraphBuilder {
                         // loop over all edges
                         // and add to their metrics
 
-                        let metric_idx = graph.cfg.edges.metrics.idx_of(&from.id);
+                        let metric_idx = graph.cfg.edges.metrics.try_idx_of(&from.id)?;
                         for edge_idx in 0..graph.metrics.len() {
                             // get old value
                             // and generate new value
@@ -1244,7 +1244,7 @@ impl GraphBuilder {
                         // loop over all edges
                         // and replace their existing metrics
 
-                        let metric_idx = graph.cfg.edges.metrics.idx_of(&from.id);
+                        let metric_idx = graph.cfg.edges.metrics.try_idx_of(&from.id)?;
                         for edge_idx in 0..graph.metrics.len() {
                             // get old value
                             // and generate new value
@@ -1286,8 +1286,8 @@ impl GraphBuilder {
                         // loop over all edges
                         // and replace their existing metrics
 
-                        let metric_idx_a = graph.cfg.edges.metrics.idx_of(&a.id);
-                        let metric_idx_b = graph.cfg.edges.metrics.idx_of(&b.id);
+                        let metric_idx_a = graph.cfg.edges.metrics.try_idx_of(&a.id)?;
+                        let metric_idx_b = graph.cfg.edges.metrics.try_idx_of(&b.id)?;
                         for edge_idx in 0..graph.metrics.len() {
                             // get old value
                             // and generate new value
@@ -1372,7 +1372,7 @@ impl GraphBuilder {
                                             continue;
                                         }
 
-                                        let metric_idx = graph.cfg.edges.metrics.idx_of(id);
+                                        let metric_idx = graph.cfg.edges.metrics.try_idx_of(id)?;
 
                                         let param = params[col_idx];
                                         if let Ok(raw_value) = param.parse::<f64>() {
-- 
2.43.0


From cb25a427b0c85fb290c9b152f42e2b0cba4f0087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:38 +0000
Subject: [PATCH 07/25] fix: report missing columns of a merged csv-file as
 error

---
 src/network/graph/building.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/network/graph/building.rs b/src/network/graph/building.rs
index 2d713bc..65c2f86 100644
--- a/src/network/graph/building.rs
+++ b/src/network/graph/building.rs
@@ -1340,7 +1340,10 @@ impl GraphBuilder {
                             for (col_idx, category) in edges_info.iter().enumerate() {
                                 match category {
                                     generating::edges::merge::Category::Id(id) => {
-                                        let param = params[col_idx];
+                                        let param = *params.get(col_idx).ok_or(format!(
+                                            "Column {} ({}) is missing in line '{}'.",
+                                            col_idx, id, line
+                                        ))?;
 
                                         if id == edge_id {
                                             let raw_edge_id =
@@ -1374,7 +1377,10 @@ impl GraphBuilder {
 
                                         let metric_idx = graph.cfg.edges.metrics.try_idx_of(id)?;
 
-                                        let param = params[col_idx];
+                                        let param = *params.get(col_idx).ok_or(format!(
+                                            "Column {} ({}) is missing in line '{}'.",
+                                            col_idx, id, line
+                                        ))?;
                                         if let Ok(raw_value) = param.parse::<f64>() {
                                             graph.metrics[*edge_idx][*metric_idx] = raw_value;
                                         } else {
-- 
2.43.0


From 99d3bd8e18b59fe9751002350cbeace6ea4b2f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:34 +0000
Subject: [PATCH 08/25] fix: report ids as duplicates if the generating-section
 adds them twice

---
 src/network/graph/building.rs | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/network/graph/building.rs b/src/network/graph/building.rs
index 65c2f86..d1e8247 100644
--- a/src/network/graph/building.rs
+++ b/src/network/graph/building.rs
@@ -936,10 +936,12 @@ impl GraphBuilder {
 
             // edges
 
-            // check duplicated id
-
             for category in generating_cfg.edges.categories.iter() {
+                // check duplicated id, including ids of previous categories in this loop
+
                 match category {
+                    // renaming to itself is fine
+                    generating::edges::Category::Convert { from, to } if from.id == to.id => (),
                     generating::edges::Category::Meta {
                         info: _,
                         id: new_id,
@@ -952,6 +954,14 @@ impl GraphBuilder {
                                 id: new_id,
                             },
                     }
+                    | generating::edges::Category::Convert {
+                        from: _,
+                        to:
+                            generating::edges::metrics::Category {
+                                unit: _,
+                                id: new_id,
+                            },
+                    }
                     | generating::edges::Category::Calc {
                         a: _,
                         b: _,
@@ -995,16 +1005,13 @@ impl GraphBuilder {
                         is_file_with_header: _,
                         edge_id: _,
                         edges_info: _,
-                    }
-                    | generating::edges::Category::Convert { from: _, to: _ } => {
-                        // do not check because it's in-place, so duplicates would be removed.
+                    } => {
+                        // do not check because no id is added
                     }
                 }
-            }
 
-            // add new data
+                // add new data
 
-            for category in generating_cfg.edges.categories.iter() {
                 match category {
                     generating::edges::Category::Meta { info, id: new_id } => {
                         match info {
-- 
2.43.0


From f05a51db462b851f99eee13da2b6b0a4a3ae2ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:00 +0000
Subject: [PATCH 09/25] fix: write an empty route-pairs-file for a graph
 without nodes

---
 src/io/writing/routing/random_or_all.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/io/writing/routing/random_or_all.rs b/src/io/writing/routing/random_or_all.rs
index 1d88b37..e875b80 100644
--- a/src/io/writing/routing/random_or_all.rs
+++ b/src/io/writing/routing/random_or_all.rs
@@ -11,7 +11,7 @@ use rand::{
     SeedableRng,
 };
 use std::{
-    cmp::min,
+    cmp::{max, min},
     collections::HashSet,
     fs::OpenOptions,
     io::{BufWriter, Write},
@@ -56,7 +56,8 @@ impl Writer {
             let mut processed_indices = HashSet::new();
 
             let mut rng = rand_pcg::Pcg32::seed_from_u64(self.seed);
-            let die = Uniform::from(0..nodes.count());
+            // The range must not be empty, even if there is no node to choose.
+            let die = Uniform::from(0..max(nodes.count(), 1));
 
             let mut dijkstra = Dijkstra::new();
 
-- 
2.43.0


From 5901911139f369e40d953d483684f2f604645d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:00 +0000
Subject: [PATCH 10/25] fix: report a routes-file having less routes than
 announced as error

---
 src/io/parsing/routing/routes.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/io/parsing/routing/routes.rs b/src/io/parsing/routing/routes.rs
index 315d435..42914d1 100644
--- a/src/io/parsing/routing/routes.rs
+++ b/src/io/parsing/routing/routes.rs
@@ -136,6 +136,14 @@ impl super::Parsing for Parser {
             ));
         }
 
+        if route_pairs.len() != self.route_lines.len() {
+            return Err(format!(
+                "The provided routes-file announces {} routes, but contains {}.",
+                self.route_lines.len(),
+                route_pairs.len()
+            ));
+        }
+
         Ok(route_pairs)
     }
 }
-- 
2.43.0


From 5cd6720bdb603616ea63af8c993bc464f5badc2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:15 +0000
Subject: [PATCH 11/25] fix: report unreadable input-files as error instead of
 panicking

---
 src/io/parsing/network/edges.rs     | 14 +++----
 src/io/parsing/network/graph/fmi.rs | 57 +++++++++++++++++------------
 src/io/parsing/network/graph/pbf.rs | 13 ++++---
 src/io/parsing/routing/routes.rs    | 26 +++++++------
 src/network/graph/building.rs       |  1 +
 5 files changed, 63 insertions(+), 48 deletions(-)

diff --git a/src/io/parsing/network/edges.rs b/src/io/parsing/network/edges.rs
index 594488f..db8e724 100644
--- a/src/io/parsing/network/edges.rs
+++ b/src/io/parsing/network/edges.rs
@@ -14,22 +14,22 @@ impl Parser {
     pub fn new_reader<P: AsRef<Path>>(
         path: &P,
         is_file_with_header: bool,
-    ) -> err::Result<impl Iterator<Item = String>> {
+    ) -> err::Result<impl Iterator<Item = std::io::Result<String>>> {
         let path = path.as_ref();
 
         io::network::edges::Parser::check_ext_support(&path)?;
         let file = OpenOptions::new()
             .read(true)
             .open(&path)
-            .expect(&format!("Couldn't open {}", path.display()));
-        let mut reader = BufReader::new(file)
-            .lines()
-            .map(Result::unwrap)
-            .filter(helpers::is_line_functional);
+            .map_err(|e| format!("Couldn't open {} ({})", path.display(), e))?;
+        let mut reader = BufReader::new(file).lines().filter(|line| match line {
+            Ok(line) => helpers::is_line_functional(line),
+            Err(_) => true,
+        });
 
         // consume header-line
         if is_file_with_header {
-            reader.next();
+            reader.next().transpose()?;
         }
 
         Ok(reader)
diff --git a/src/io/parsing/network/graph/fmi.rs b/src/io/parsing/network/graph/fmi.rs
index b8e70f0..272619b 100644
--- a/src/io/parsing/network/graph/fmi.rs
+++ b/src/io/parsing/network/graph/fmi.rs
@@ -43,12 +43,13 @@ impl super::Parsing for Parser {
         let file = OpenOptions::new()
             .read(true)
             .open(&cfg.map_file)
-            .expect(&format!("Couldn't open {}", cfg.map_file.display()));
-        for line in BufReader::new(file)
-            .lines()
-            .map(Result::unwrap)
-            .filter(helpers::is_line_functional)
-        {
+            .map_err(|e| format!("Couldn't open {} ({})", cfg.map_file.display(), e))?;
+        for line in BufReader::new(file).lines() {
+            let line = line?;
+            if !helpers::is_line_functional(&line) {
+                continue;
+            }
+
             // If there is a count, remember it.
             // The first occuring count let `is_taking_counts` getting true.
             // If all counts have been processed, `is_taking_counts` would change to false,
@@ -100,15 +101,19 @@ impl super::Parsing for Parser {
         let file = OpenOptions::new()
             .read(true)
             .open(&builder.cfg().map_file)
-            .expect(&format!(
-                "Couldn't open {}",
-                builder.cfg().map_file.display()
-            ));
-        for line in BufReader::new(file)
-            .lines()
-            .map(Result::unwrap)
-            .filter(helpers::is_line_functional)
-        {
+            .map_err(|e| {
+                format!(
+                    "Couldn't open {} ({})",
+                    builder.cfg().map_file.display(),
+                    e
+                )
+            })?;
+        for line in BufReader::new(file).lines() {
+            let line = line?;
+            if !helpers::is_line_functional(&line) {
+                continue;
+            }
+
             // check if line contains edge
             if !self.edge_lines.contains(&line_number) {
                 line_number += 1;
@@ -131,15 +136,19 @@ impl super::Parsing for Parser {
         let file = OpenOptions::new()
             .read(true)
             .open(&builder.cfg().map_file)
-            .expect(&format!(
-                "Couldn't open {}",
-                builder.cfg().map_file.display()
-            ));
-        for line in BufReader::new(file)
-            .lines()
-            .map(Result::unwrap)
-            .filter(helpers::is_line_functional)
-        {
+            .map_err(|e| {
+                format!(
+                    "Couldn't open {} ({})",
+                    builder.cfg().map_file.display(),
+                    e
+                )
+            })?;
+        for line in BufReader::new(file).lines() {
+            let line = line?;
+            if !helpers::is_line_functional(&line) {
+                continue;
+            }
+
             // check if line contains edge
             if !self.node_lines.contains(&line_number) {
                 line_number += 1;
diff --git a/src/io/parsing/network/graph/pbf.rs b/src/io/parsing/network/graph/pbf.rs
index bf2f5e5..c7eec6a 100644
--- a/src/io/parsing/network/graph/pbf.rs
+++ b/src/io/parsing/network/graph/pbf.rs
@@ -73,10 +73,13 @@ impl super::Parsing for Parser {
         let file = OpenOptions::new()
             .read(true)
             .open(&builder.cfg().map_file)
-            .expect(&format!(
-                "Couldn't open {}",
-                builder.cfg().map_file.display()
-            ));
+            .map_err(|e| {
+                format!(
+                    "Couldn't open {} ({})",
+                    builder.cfg().map_file.display(),
+                    e
+                )
+            })?;
 
         for mut way in OsmPbfReader::new(file)
             .par_iter()
@@ -178,7 +181,7 @@ impl super::Parsing for Parser {
         let file = OpenOptions::new()
             .read(true)
             .open(&cfg.map_file)
-            .expect(&format!("Couldn't open {}", cfg.map_file.display()));
+            .map_err(|e| format!("Couldn't open {} ({})", cfg.map_file.display(), e))?;
         for node in OsmPbfReader::new(file)
             .par_iter()
             .filter_map(Result::ok)
diff --git a/src/io/parsing/routing/routes.rs b/src/io/parsing/routing/routes.rs
index 42914d1..fec64e4 100644
--- a/src/io/parsing/routing/routes.rs
+++ b/src/io/parsing/routing/routes.rs
@@ -34,12 +34,13 @@ impl super::Parsing for Parser {
         let file = OpenOptions::new()
             .read(true)
             .open(route_pairs_file)
-            .expect(&format!("Couldn't open {}", route_pairs_file.display()));
-        for line in BufReader::new(file)
-            .lines()
-            .map(Result::unwrap)
-            .filter(helpers::is_line_functional)
-        {
+            .map_err(|e| format!("Couldn't open {} ({})", route_pairs_file.display(), e))?;
+        for line in BufReader::new(file).lines() {
+            let line = line?;
+            if !helpers::is_line_functional(&line) {
+                continue;
+            }
+
             // If there is a count, remember it.
             // The first occuring count let `is_taking_counts` getting true.
             // If all counts have been processed, `is_taking_counts` would change to false,
@@ -87,12 +88,13 @@ impl super::Parsing for Parser {
         let file = OpenOptions::new()
             .read(true)
             .open(route_pairs_file)
-            .expect(&format!("Couldn't open {}", route_pairs_file.display()));
-        for line in BufReader::new(file)
-            .lines()
-            .map(Result::unwrap)
-            .filter(helpers::is_line_functional)
-        {
+            .map_err(|e| format!("Couldn't open {} ({})", route_pairs_file.display(), e))?;
+        for line in BufReader::new(file).lines() {
+            let line = line.map_err(|e| e.to_string())?;
+            if !helpers::is_line_functional(&line) {
+                continue;
+            }
+
             // check if line contains route
             if !self.route_lines.contains(&line_number) {
                 line_number += 1;
diff --git a/src/network/graph/building.rs b/src/network/graph/building.rs
index d1e8247..6a6545f 100644
--- a/src/network/graph/building.rs
+++ b/src/network/graph/building.rs
@@ -1339,6 +1339,7 @@ impl GraphBuilder {
                         // parse edge-id and metric
 
                         for line in reader {
+                            let line = line?;
                             let params: Vec<&str> = line.split_whitespace().collect();
 
                             // get edge-idx
-- 
2.43.0


From ad22bcbca4f398220d0e1fce000cf668b6fcfe70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:15 +0000
Subject: [PATCH 12/25] fix: report malformed edge-ids and coordinates of
 fmi-files as error

---
 src/io/parsing/network/graph/fmi.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/io/parsing/network/graph/fmi.rs b/src/io/parsing/network/graph/fmi.rs
index 272619b..b503e1a 100644
--- a/src/io/parsing/network/graph/fmi.rs
+++ b/src/io/parsing/network/graph/fmi.rs
@@ -199,7 +199,7 @@ impl ProtoShortcut {
                         edge_id = param.parse::<usize>().ok();
 
                         // multi-ch-constructor uses ids like "ch123" for shortcuts
-                        if edge_id.is_none() && &param[0..2] == "ch" {
+                        if edge_id.is_none() && param.starts_with("ch") {
                             edge_id = param[2..].parse::<usize>().ok();
                         }
 
@@ -368,7 +368,7 @@ impl ProtoNode {
                             Err(_) => {
                                 return Err(format!(
                                     "Parsing lat '{:?}' from fmi-file, which is not f64.",
-                                    params[2]
+                                    param
                                 ))
                             }
                         };
@@ -379,7 +379,7 @@ impl ProtoNode {
                             Err(_) => {
                                 return Err(format!(
                                     "Parsing lon '{:?}' from fmi-file, which is not f64.",
-                                    params[3]
+                                    param
                                 ))
                             }
                         };
-- 
2.43.0


From f8ba3285fa6cbdf2edebe9f7a4b5a604fe90c74f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:15 +0000
Subject: [PATCH 13/25] fix: report too large counts of input-files as error

---
 src/io/parsing/network/graph/fmi.rs | 10 +++++++---
 src/io/parsing/routing/routes.rs    |  8 +++++---
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/io/parsing/network/graph/fmi.rs b/src/io/parsing/network/graph/fmi.rs
index b503e1a..95258f2 100644
--- a/src/io/parsing/network/graph/fmi.rs
+++ b/src/io/parsing/network/graph/fmi.rs
@@ -82,13 +82,17 @@ impl super::Parsing for Parser {
         let node_count = counts.pop().expect("Expect counts.len() >= 2.");
 
         // nodes
-        let start = line_number;
-        let end = start + node_count;
+        let start: usize = line_number;
+        let end = start
+            .checked_add(node_count)
+            .ok_or("The node-count of the fmi-map-file is too large.")?;
         self.node_lines = start..end;
 
         // edges
         let start = end;
-        let end = start + edge_count;
+        let end = start
+            .checked_add(edge_count)
+            .ok_or("The edge-count of the fmi-map-file is too large.")?;
         self.edge_lines = start..end;
 
         info!("FINISHED");
diff --git a/src/io/parsing/routing/routes.rs b/src/io/parsing/routing/routes.rs
index fec64e4..92eb0ef 100644
--- a/src/io/parsing/routing/routes.rs
+++ b/src/io/parsing/routing/routes.rs
@@ -67,8 +67,10 @@ impl super::Parsing for Parser {
         // Current state: Last line-number is first route-line.
         let routes_count = counts.pop().expect("Expect counts.len() >= 1");
 
-        let start = line_number;
-        let end = start + routes_count;
+        let start: usize = line_number;
+        let end = start
+            .checked_add(routes_count)
+            .ok_or("The routes-count of the routes-file is too large.")?;
         self.route_lines = start..end;
 
         Ok(())
@@ -78,7 +80,7 @@ impl super::Parsing for Parser {
         &self,
         cfg: &configs::routing::Config,
     ) -> Result<Vec<(RoutePair<i64>, usize)>, String> {
-        let mut route_pairs = Vec::with_capacity(self.route_lines.len());
+        let mut route_pairs = Vec::new();
         let route_pairs_file = cfg
             .route_pairs_file
             .as_ref()
-- 
2.43.0


From 6d53271be99020e3b068b5f9bc9269221ee24951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:15 +0000
Subject: [PATCH 14/25] fix: report non-finite metrics as error

---
 src/network/graph/building.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/network/graph/building.rs b/src/network/graph/building.rs
index 6a6545f..60f17fd 100644
--- a/src/network/graph/building.rs
+++ b/src/network/graph/building.rs
@@ -662,6 +662,9 @@ impl GraphBuilder {
                         "A metric is smaller than accuracy allows it.",
                     ));
                 }
+                if !metric.is_finite() {
+                    return Err(err::Msg::from("A metric is not finite."));
+                }
             }
         }
 
-- 
2.43.0


From 027286d1f6d66d7f1ee58fb05187a6b7ed10b20f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:16 +0000
Subject: [PATCH 15/25] fix: report dangling shortcut-indices as error

---
 src/network/graph/building.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/network/graph/building.rs b/src/network/graph/building.rs
index 60f17fd..6bb3aae 100644
--- a/src/network/graph/building.rs
+++ b/src/network/graph/building.rs
@@ -490,8 +490,13 @@ impl GraphBuilder {
             for edge in proto_edges.iter() {
                 if let Some(sc_idx) = edge.sc_edges {
                     let shortcuts = &mut self.proto_shortcuts[sc_idx];
-                    shortcuts[0] = EdgeIdx(new_indices[*shortcuts[0]]);
-                    shortcuts[1] = EdgeIdx(new_indices[*shortcuts[1]]);
+                    for shortcut in shortcuts.iter_mut() {
+                        **shortcut = *new_indices.get(**shortcut).ok_or(format!(
+                            "A shortcut refers to edge-idx {}, but there are only {} edges.",
+                            **shortcut,
+                            new_indices.len()
+                        ))?;
+                    }
                 }
             }
         }
-- 
2.43.0


From 9c376b0687ab38b09ecc64ff6f7d84a78e560aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:11 +0000
Subject: [PATCH 16/25] fix: report a fmi-map-file having less nodes or edges
 than announced as error

---
 src/io/parsing/network/graph/fmi.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/io/parsing/network/graph/fmi.rs b/src/io/parsing/network/graph/fmi.rs
index 95258f2..521d586 100644
--- a/src/io/parsing/network/graph/fmi.rs
+++ b/src/io/parsing/network/graph/fmi.rs
@@ -129,6 +129,9 @@ impl super::Parsing for Parser {
             let proto_edge = ProtoShortcut::try_from_str(&line, &builder.cfg().edges.categories)?;
             builder.insert(proto_edge)?;
         }
+        if line_number < self.edge_lines.end {
+            return Err("The fmi-map-file has less edges than announced.".into());
+        }
         info!("FINISHED");
 
         Ok(())
@@ -164,6 +167,9 @@ impl super::Parsing for Parser {
             let proto_node = ProtoNode::from_str(&line, &builder.cfg().nodes)?;
             builder.insert(proto_node);
         }
+        if line_number < self.node_lines.end {
+            return Err("The fmi-map-file has less nodes than announced.".into());
+        }
         info!("FINISHED");
 
         Ok(())
-- 
2.43.0


From f73b4d81f4a387ce08d55a7a8b53c4248548d2b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:44 +0000
Subject: [PATCH 17/25] fix: don't overflow for the largest number of
 metric-updates

---
 src/configs/balancing.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/configs/balancing.rs b/src/configs/balancing.rs
index 8e6a944..a502aa3 100644
--- a/src/configs/balancing.rs
+++ b/src/configs/balancing.rs
@@ -101,7 +101,7 @@ impl From<ProtoConfig> for Config {
             iter_i_cfg: proto_cfg.iter_i_cfg,
             multi_ch_constructor: proto_cfg.multi_ch_constructor,
             // +1 because analysing last graph needs one iteration as well
-            num_iter: proto_cfg.num_metric_updates + 1,
+            num_iter: proto_cfg.num_metric_updates.saturating_add(1),
             monitoring: MonitoringConfig::from(proto_cfg.monitoring),
             optimization: Optimization::from(proto_cfg.optimization),
             num_threads: proto_cfg
-- 
2.43.0


From d40549e6720b8bb063e09a8cd1fa785f50ca517a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:42 +0000
Subject: [PATCH 18/25] fix: report errors when flushing written files

BufWriter ignores errors while being dropped, hence a full disk led to
incomplete files although success has been reported.
---
 src/io/writing/network/edges.rs         | 6 ++++++
 src/io/writing/network/graph/fmi.rs     | 3 +++
 src/io/writing/routing/random_or_all.rs | 3 +++
 src/io/writing/smarts.rs                | 3 +++
 4 files changed, 15 insertions(+)

diff --git a/src/io/writing/network/edges.rs b/src/io/writing/network/edges.rs
index 2aaf532..ef8734e 100644
--- a/src/io/writing/network/edges.rs
+++ b/src/io/writing/network/edges.rs
@@ -55,6 +55,9 @@ impl Writer {
 
         write_edges_to_file(&mut writer, graph, writing_cfg)?;
 
+        // errors are ignored if flushing happens while dropping
+        writer.flush()?;
+
         info!("FINISHED");
         Ok(())
     }
@@ -119,6 +122,9 @@ impl Writer {
             writeln!(writer, "{} {}", fwd_edges.id(edge_idx), values[*edge_idx])?;
         }
 
+        // errors are ignored if flushing happens while dropping
+        writer.flush()?;
+
         Ok(())
     }
 }
diff --git a/src/io/writing/network/graph/fmi.rs b/src/io/writing/network/graph/fmi.rs
index 224594f..af67a18 100644
--- a/src/io/writing/network/graph/fmi.rs
+++ b/src/io/writing/network/graph/fmi.rs
@@ -205,6 +205,9 @@ impl Writer {
             &writing::network::edges::Config::from(writing_cfg.clone()),
         )?;
 
+        // errors are ignored if flushing happens while dropping
+        writer.flush()?;
+
         info!("FINISHED");
         Ok(())
     }
diff --git a/src/io/writing/routing/random_or_all.rs b/src/io/writing/routing/random_or_all.rs
index e875b80..8f5256b 100644
--- a/src/io/writing/routing/random_or_all.rs
+++ b/src/io/writing/routing/random_or_all.rs
@@ -155,6 +155,9 @@ impl Writer {
             writeln!(writer, "{} {} {}", src_id, dst_id, 1)?;
         }
 
+        // errors are ignored if flushing happens while dropping
+        writer.flush()?;
+
         Ok(())
     }
 }
diff --git a/src/io/writing/smarts.rs b/src/io/writing/smarts.rs
index a96ee52..66451be 100644
--- a/src/io/writing/smarts.rs
+++ b/src/io/writing/smarts.rs
@@ -68,6 +68,9 @@ impl Writer {
 
         writeln!(writer, "</data>")?;
 
+        // errors are ignored if flushing happens while dropping
+        writer.flush()?;
+
         Ok(())
     }
 }
-- 
2.43.0


From 9107a0d5304dd6186f4e9621ef55b5cdb7ade3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:52 +0000
Subject: [PATCH 19/25] fix: exploration doesn't return a route twice

Facets on the far side of the hull find paths, that have been found in earlier rounds. Only the current round has been checked for known paths, so such a path has been returned again.
---
 src/routing/explorating.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/routing/explorating.rs b/src/routing/explorating.rs
index 06eb0a6..333a5de 100644
--- a/src/routing/explorating.rs
+++ b/src/routing/explorating.rs
@@ -309,7 +309,8 @@ impl ConvexHullExplorator {
                         // is smaller.
 
                         let is_path_new = Approx(new_alpha_cost) < Approx(any_alpha_cost)
-                            && !new_found_paths.contains(&new_path);
+                            && !new_found_paths.contains(&new_path)
+                            && !self.found_paths.values().any(|path| path == &new_path);
                         if is_path_new {
                             trace!("Push {}", new_path);
                             new_found_paths.push(new_path);
-- 
2.43.0


From 9ff180880602391f5456067bd5efd30b6bb0985f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:26 +0000
Subject: [PATCH 20/25] fix: exploration finds routes when metrics are ignored

The linear system sets weights of ignored metrics to zero, but solving it could return tiny negative values due to rounding. Dijkstra finds nothing for negative weights, so the respective facet hasn't been explored and routes have been missed.
---
 src/routing/explorating.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/routing/explorating.rs b/src/routing/explorating.rs
index 333a5de..ccc9ccd 100644
--- a/src/routing/explorating.rs
+++ b/src/routing/explorating.rs
@@ -275,6 +275,18 @@ impl ConvexHullExplorator {
                         } else {
                             continue;
                         };
+                    // Rounding could lead to tiny negative values for ignored metrics, for which
+                    // Dijkstra doesn't find any path.
+                    for (alpha, &is_considered) in query
+                        .routing_cfg
+                        .alphas
+                        .iter_mut()
+                        .zip(query.is_metric_considered.iter())
+                    {
+                        if !is_considered {
+                            *alpha = 0.0;
+                        }
+                    }
                     trace!("alphas = {:?}", query.routing_cfg.alphas);
                     for (i, vertex) in cell.vertices().iter().enumerate() {
                         // for i in 0..candidate.len() {
-- 
2.43.0


From 7cbda271f3e1e06ecdd59e6941134b75fc8a12a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:45 +0000
Subject: [PATCH 21/25] fix: route-pairs with count 0 don't break the worker

Subtracting 1 from the count underflows, which let the worker panic (or repeat the route endlessly without overflow-checks).
---
 src/bin/osmgraphing/balancing/multithreading.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/bin/osmgraphing/balancing/multithreading.rs b/src/bin/osmgraphing/balancing/multithreading.rs
index d6e42bd..9160f5b 100644
--- a/src/bin/osmgraphing/balancing/multithreading.rs
+++ b/src/bin/osmgraphing/balancing/multithreading.rs
@@ -464,10 +464,9 @@ impl Worker {
             if let Some(best_path) = best_path {
                 num_of_found_paths.push(1);
 
-                for _ in 0..(route_count - 1) {
+                for _ in 0..route_count {
                     chosen_paths.push(best_path.clone());
                 }
-                chosen_paths.push(best_path);
             } else {
                 warn!("Didn't find any path when executing Dijkstra.")
             }
-- 
2.43.0


From c31500c1aae9ef23bca8ef85e3cce6523d685a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:45 +0000
Subject: [PATCH 22/25] fix: evaluating fails if a worker panics

Workers, that panic (e.g. due to an unknown node-id in the route-pairs), have never been joined. Their routes have been missing in the workloads, while the tool has reported success.
---
 src/bin/osmgraphing/balancing/multithreading.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/bin/osmgraphing/balancing/multithreading.rs b/src/bin/osmgraphing/balancing/multithreading.rs
index 9160f5b..6ede7ae 100644
--- a/src/bin/osmgraphing/balancing/multithreading.rs
+++ b/src/bin/osmgraphing/balancing/multithreading.rs
@@ -150,6 +150,10 @@ impl Master {
                 }
             } else {
                 // disconnected when all workers are dropped
+                // -> remaining sockets belong to workers, that have panicked
+                for worker_socket in self.worker_sockets.iter_mut().filter_map(Option::take) {
+                    worker_socket.drop_and_join()?;
+                }
                 break;
             }
         }
-- 
2.43.0


From 6c0395472d7678dddb51e03581a245f82a532aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:45 +0000
Subject: [PATCH 23/25] fix: writing route-pairs works with the explorator

Route-pairs are searched with Dijkstra, which panics if the explorator is set as routing-algorithm.
---
 src/io/writing/routing/random_or_all.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/io/writing/routing/random_or_all.rs b/src/io/writing/routing/random_or_all.rs
index 8f5256b..ff34a8a 100644
--- a/src/io/writing/routing/random_or_all.rs
+++ b/src/io/writing/routing/random_or_all.rs
@@ -1,3 +1,5 @@
+#[cfg(feature = "gpl")]
+use crate::configs::routing::RoutingAlgo;
 use crate::{
     configs,
     helpers::err,
@@ -60,6 +62,15 @@ impl Writer {
             let die = Uniform::from(0..max(nodes.count(), 1));
 
             let mut dijkstra = Dijkstra::new();
+            // The explorator would find the same route-pairs as its underlying algorithm.
+            #[cfg(feature = "gpl")]
+            let routing_cfg = &{
+                let mut routing_cfg = routing_cfg.clone();
+                if let RoutingAlgo::Explorator { algo } = routing_cfg.routing_algo {
+                    routing_cfg.routing_algo = RoutingAlgo::from(algo);
+                }
+                routing_cfg
+            };
 
             if num_possible_routes <= self.max_count {
                 warn!(
-- 
2.43.0


From fba49bf02b9de3cf81887d000543fd43f813bb67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:37 +0000
Subject: [PATCH 24/25] fix: balancing and evaluating need at least one thread

---
 src/bin/osmgraphing/balancing/multithreading.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/bin/osmgraphing/balancing/multithreading.rs b/src/bin/osmgraphing/balancing/multithreading.rs
index 6ede7ae..2eacff0 100644
--- a/src/bin/osmgraphing/balancing/multithreading.rs
+++ b/src/bin/osmgraphing/balancing/multithreading.rs
@@ -203,6 +203,12 @@ impl Master {
         arc_graph: &Arc<Graph>,
         arc_routing_cfg: &Arc<configs::routing::Config>,
     ) -> err::Result<Master> {
+        if count == 0 {
+            return Err(err::Msg::from(
+                "At least one thread is needed, because nothing is worked off otherwise.",
+            ));
+        }
+
         info!("Using routing-algo: {:?}", arc_routing_cfg.routing_algo);
         let mut worker_sockets = Vec::with_capacity(count);
 
-- 
2.43.0


From 0ae7e23542d714d4af56d7d9c2e0e6070142b98c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:22 +0000
Subject: [PATCH 25/25] fix: report unreadable blocks of osm.pbf-files as error

---
 src/io/parsing/network/graph/pbf.rs | 34 +++++++++++++++--------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/src/io/parsing/network/graph/pbf.rs b/src/io/parsing/network/graph/pbf.rs
index c7eec6a..34df184 100644
--- a/src/io/parsing/network/graph/pbf.rs
+++ b/src/io/parsing/network/graph/pbf.rs
@@ -81,14 +81,15 @@ impl super::Parsing for Parser {
                 )
             })?;
 
-        for mut way in OsmPbfReader::new(file)
-            .par_iter()
-            .filter_map(Result::ok)
-            .filter_map(|obj| match obj {
-                OsmObj::Way(way) => Some(way),
-                _ => None,
-            })
-        {
+        for obj in OsmPbfReader::new(file).par_iter() {
+            let obj = obj.map_err(|e| {
+                format!("Couldn't read {} ({})", builder.cfg().map_file.display(), e)
+            })?;
+            let mut way = match obj {
+                OsmObj::Way(way) => way,
+                _ => continue,
+            };
+
             if way.nodes.len() < 2 {
                 continue;
             }
@@ -182,14 +183,15 @@ impl super::Parsing for Parser {
             .read(true)
             .open(&cfg.map_file)
             .map_err(|e| format!("Couldn't open {} ({})", cfg.map_file.display(), e))?;
-        for node in OsmPbfReader::new(file)
-            .par_iter()
-            .filter_map(Result::ok)
-            .filter_map(|obj| match obj {
-                OsmObj::Node(node) => Some(node),
-                _ => None,
-            })
-        {
+        for obj in OsmPbfReader::new(file).par_iter() {
+            let obj = obj.map_err(|e| {
+                format!("Couldn't read {} ({})", builder.cfg().map_file.display(), e)
+            })?;
+            let node = match obj {
+                OsmObj::Node(node) => node,
+                _ => continue,
+            };
+
             // add node to graph if it's part of an edge
             builder.insert(ProtoNode {
                 id: node.id.0,
-- 
2.43.0

