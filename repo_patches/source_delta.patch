From 386f3de3daa4f96db8107ab13b733e9320e0bdaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:23 +0000
Subject: [PATCH 01/19] fix: edge_count is wrong for graphs with self-loops

A self-loop is stored once in the edge map and not twice, so that halving
the number of stored edges loses self-loops.
---
 core/src/directed_graph.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/core/src/directed_graph.rs b/core/src/directed_graph.rs
index 767923e..43bd8c9 100644
--- a/core/src/directed_graph.rs
+++ b/core/src/directed_graph.rs
@@ -33,11 +33,12 @@ impl DirectedGraph {
 
     pub fn edge_count(&self) -> usize {
         let mut total_count: usize = 0;
-        for (_, edges) in &self.edge_map {
-            total_count += edges.len();
+        for (vertex_id, edges) in &self.edge_map {
+            // Each edge is saved under both its vertices (only once for a self-loop)
+            // => an edge is counted only where it is saved under its source
+            total_count += edges.iter().filter(|e| e.0 == *vertex_id).count();
         }
-        // Each edge is saved twice => the count should be a multiple of 2, and divided by 2
-        total_count / 2
+        total_count
     }
 
     pub fn contains_vertex(&self, vertex_id: VertexId) -> bool {
-- 
2.43.0


From 8f0bc5d9f462c7c20144464c19001901136327c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:32 +0000
Subject: [PATCH 02/19] fix: reading a graph file panics on out-of-range ids
 and on invalid UTF-8

Such lines are now reported as errors with their line number.
---
 core/src/format/gcmd.rs  | 20 ++++++++++----------
 core/src/format/tgf.rs   | 10 +++++-----
 core/src/format/utils.rs | 10 +++++++++-
 3 files changed, 24 insertions(+), 16 deletions(-)

diff --git a/core/src/format/gcmd.rs b/core/src/format/gcmd.rs
index fd77c0a..15474d2 100644
--- a/core/src/format/gcmd.rs
+++ b/core/src/format/gcmd.rs
@@ -49,19 +49,19 @@ fn parse_line(line: &str) -> Result<GraphCommand, String> {
     }
 
     if let Some(cap) = ADD_EDGE_RE.captures_iter(line).next() {
-        let v1 = &cap[1].parse::<u64>().unwrap();
-        let v2 = &cap[2].parse::<u64>().unwrap();
-        Ok(AddEdge(VertexId(*v1), VertexId(*v2)))
+        let v1 = utils::parse_vertex_id(&cap[1])?;
+        let v2 = utils::parse_vertex_id(&cap[2])?;
+        Ok(AddEdge(v1, v2))
     } else if let Some(cap) = ADD_VERTEX_RE.captures_iter(line).next() {
-        let v1 = &cap[1].parse::<u64>().unwrap();
-        Ok(AddVertex(VertexId(*v1)))
+        let v1 = utils::parse_vertex_id(&cap[1])?;
+        Ok(AddVertex(v1))
     } else if let Some(cap) = REMOVE_EDGE_RE.captures_iter(line).next() {
-        let v1 = &cap[1].parse::<u64>().unwrap();
-        let v2 = &cap[2].parse::<u64>().unwrap();
-        Ok(RemoveEdge(VertexId(*v1), VertexId(*v2)))
+        let v1 = utils::parse_vertex_id(&cap[1])?;
+        let v2 = utils::parse_vertex_id(&cap[2])?;
+        Ok(RemoveEdge(v1, v2))
     } else if let Some(cap) = REMOVE_VERTEX_RE.captures_iter(line).next() {
-        let v1 = &cap[1].parse::<u64>().unwrap();
-        Ok(RemoveVertex(VertexId(*v1)))
+        let v1 = utils::parse_vertex_id(&cap[1])?;
+        Ok(RemoveVertex(v1))
     } else {
         Err(format!["Couldn't parse '{}'", line])
     }
diff --git a/core/src/format/tgf.rs b/core/src/format/tgf.rs
index 6b7ea0a..1e74f1e 100644
--- a/core/src/format/tgf.rs
+++ b/core/src/format/tgf.rs
@@ -33,12 +33,12 @@ fn parse_line(line: &str) -> Result<GraphCommand, String> {
     }
 
     if let Some(cap) = EDGE_RE.captures_iter(line).next() {
-        let v1 = &cap[1].parse::<u64>().unwrap();
-        let v2 = &cap[2].parse::<u64>().unwrap();
-        Ok(AddEdge(VertexId(*v1), VertexId(*v2)))
+        let v1 = utils::parse_vertex_id(&cap[1])?;
+        let v2 = utils::parse_vertex_id(&cap[2])?;
+        Ok(AddEdge(v1, v2))
     } else if let Some(cap) = VERTEX_RE.captures_iter(line).next() {
-        let v1 = &cap[1].parse::<u64>().unwrap();
-        Ok(AddVertex(VertexId(*v1)))
+        let v1 = utils::parse_vertex_id(&cap[1])?;
+        Ok(AddVertex(v1))
     } else {
         Err(format!["Couldn't parse '{}'", line])
     }
diff --git a/core/src/format/utils.rs b/core/src/format/utils.rs
index 5c89f31..3de641e 100644
--- a/core/src/format/utils.rs
+++ b/core/src/format/utils.rs
@@ -1,6 +1,7 @@
 //! Module providing helper to read/write to graph files
 
 use crate::directed_graph::DirectedGraph;
+use crate::graph::VertexId;
 use crate::graph_command::GraphCommand;
 use std::fs::File;
 use std::io::{BufRead, BufReader};
@@ -39,7 +40,7 @@ where
     let reader = BufReader::new(file);
     let mut result: Vec<GraphCommand> = vec![];
     for (index, line) in reader.lines().enumerate() {
-        let line = line.unwrap(); // Ignore errors.
+        let line = line.map_err(|err| format!["Error at line {}: {}", index + 1, err])?;
         if !line.is_empty() && !is_comment(&line) {
             match parse_line(&line) {
                 Ok(command) => result.push(command),
@@ -49,3 +50,10 @@ where
     }
     Ok(result)
 }
+
+/// Parses the id of a vertex
+pub fn parse_vertex_id(id: &str) -> Result<VertexId, String> {
+    id.parse::<u64>()
+        .map(VertexId)
+        .map_err(|err| format!["Invalid vertex id '{}': {}", id, err])
+}
-- 
2.43.0


From dde332abba049792eeee788d70902fb605e2d6a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:13 +0000
Subject: [PATCH 03/19] fix: saving or appending commands can lose data without
 an error and tear the file

The buffered writer was dropped without a flush, which discards write errors;
the file was truncated before its new content was written, and long appends
were written in several pieces; commands appended after an unterminated last
line were glued to it.
---
 core/src/format/gcmd.rs  | 18 +++++++++------
 core/src/format/utils.rs | 49 ++++++++++++++++++++++++++++++++++++++--
 2 files changed, 58 insertions(+), 9 deletions(-)

diff --git a/core/src/format/gcmd.rs b/core/src/format/gcmd.rs
index 15474d2..d0be62d 100644
--- a/core/src/format/gcmd.rs
+++ b/core/src/format/gcmd.rs
@@ -23,7 +23,7 @@ use crate::graph_command::GraphCommand::RemoveVertex;
 use lazy_static::*;
 use regex::Regex;
 use std::fs::{File, OpenOptions};
-use std::io::{BufWriter, Write};
+use std::io::{Read, Write};
 
 ///
 /// Reading a Command file
@@ -77,8 +77,7 @@ fn is_comment(line: &str) -> bool {
 
 /// Saves a DirectedGraph into a gcmd file
 pub fn save(graph: &DirectedGraph, filename: &str) -> std::io::Result<()> {
-    let file = File::create(filename)?;
-    let mut buffered = BufWriter::new(file);
+    let mut buffered: Vec<u8> = vec![];
     for vertex in graph.vertices() {
         let VertexId(vertex_id) = vertex;
         writeln![buffered, "AddVertex {}", vertex_id]?;
@@ -87,19 +86,24 @@ pub fn save(graph: &DirectedGraph, filename: &str) -> std::io::Result<()> {
         let Edge(VertexId(src), VertexId(dest)) = edge;
         writeln![buffered, "AddEdge {} {}", src, dest]?;
     }
-    Ok(())
+    utils::replace_file(filename, &buffered)
 }
 
 /// Updates an existing file with a list of GraphCommand
 /// New commands will be appended at the end of the file
 pub fn add_commands(filename: &str, commands: Vec<GraphCommand>) -> std::io::Result<()> {
-    let file = OpenOptions::new().write(true).append(true).open(filename)?;
-    let mut buffered = BufWriter::new(file);
+    let mut file = OpenOptions::new().read(true).append(true).open(filename)?;
+    let mut buffered: Vec<u8> = vec![];
+    file.read_to_end(&mut buffered)?;
+    // The last line might not be terminated: the first command needs its own line
+    if buffered.last().map_or(false, |last| *last != b'\n') {
+        buffered.push(b'\n');
+    }
     for command in commands {
         let line = command_into_line(command);
         writeln![buffered, "{}", line]?;
     }
-    Ok(())
+    utils::replace_file(filename, &buffered)
 }
 
 fn command_into_line(command: GraphCommand) -> String {
diff --git a/core/src/format/utils.rs b/core/src/format/utils.rs
index 3de641e..6e7eb80 100644
--- a/core/src/format/utils.rs
+++ b/core/src/format/utils.rs
@@ -3,8 +3,9 @@
 use crate::directed_graph::DirectedGraph;
 use crate::graph::VertexId;
 use crate::graph_command::GraphCommand;
-use std::fs::File;
-use std::io::{BufRead, BufReader};
+use std::fs::{self, File, OpenOptions};
+use std::io::{self, BufRead, BufReader, Write};
+use std::path::{Path, PathBuf};
 
 ///
 /// Reading Graph files
@@ -57,3 +58,47 @@ pub fn parse_vertex_id(id: &str) -> Result<VertexId, String> {
         .map(VertexId)
         .map_err(|err| format!["Invalid vertex id '{}': {}", id, err])
 }
+
+///
+/// Writing Graph files
+///
+
+/// Replaces the content of a file (created if needed) all at once
+/// The new content is written beside the file before being moved into place, so that whatever
+/// fails (or is killed) in-between leaves the previous content untouched
+pub fn replace_file(filename: &str, content: &[u8]) -> io::Result<()> {
+    let path = fs::canonicalize(filename).unwrap_or_else(|_| PathBuf::from(filename));
+    let mut permissions = None;
+    if let Ok(metadata) = fs::metadata(&path) {
+        // An existing file that can't be written to should not be replaced
+        let mut file = OpenOptions::new().write(true).open(&path)?;
+        if !metadata.is_file() {
+            return file.write_all(content); // Pipe, device ...
+        }
+        permissions = Some(metadata.permissions());
+    }
+    let (tmp_path, mut tmp_file) = create_sibling(&path)?;
+    let res = tmp_file
+        .write_all(content)
+        .and_then(|_| permissions.map_or(Ok(()), |perm| tmp_file.set_permissions(perm)))
+        .and_then(|_| tmp_file.sync_all())
+        .and_then(|_| fs::rename(&tmp_path, &path));
+    if res.is_err() {
+        let _ = fs::remove_file(&tmp_path);
+    }
+    res
+}
+
+// Creates a new temporary file in the same directory as the given file
+fn create_sibling(path: &Path) -> io::Result<(PathBuf, File)> {
+    let name = path.file_name().unwrap_or_default().to_string_lossy();
+    let mut attempt = 0;
+    loop {
+        let tmp_name = format![".{}.{}.{}.tmp", name, std::process::id(), attempt];
+        let tmp_path = path.with_file_name(tmp_name);
+        match OpenOptions::new().write(true).create_new(true).open(&tmp_path) {
+            Err(ref err) if err.kind() == io::ErrorKind::AlreadyExists => attempt += 1,
+            res => return res.map(|file| (tmp_path, file)),
+        }
+    }
+}
-- 
2.43.0


From 1f60eb25884dce2fa1e22a9cb5772d402b8a21ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:13 +0000
Subject: [PATCH 04/19] fix: saving a TGF file reports success when its last
 writes failed

Dropping a buffered writer discards the errors of its final flush.
---
 core/src/format/tgf.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/format/tgf.rs b/core/src/format/tgf.rs
index 1e74f1e..8d0f198 100644
--- a/core/src/format/tgf.rs
+++ b/core/src/format/tgf.rs
@@ -64,7 +64,7 @@ pub fn save(graph: &DirectedGraph, filename: String) -> std::io::Result<()> {
         let Edge(VertexId(src), VertexId(dest)) = edge;
         writeln!(buffered, "{} {}", src, dest)?;
     }
-    Ok(())
+    buffered.flush()
 }
 
 #[cfg(test)]
-- 
2.43.0


From 31681d518afac227b7f7471f00fe971076fad357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:41 +0000
Subject: [PATCH 05/19] fix: best-first search keeps the first path found to a
 vertex and not the best one

Vertices were marked as visited when pushed, so that a cheaper path found
later was dropped and shortest paths were not the shortest.
---
 core/src/iter/iter_best.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/core/src/iter/iter_best.rs b/core/src/iter/iter_best.rs
index 3f40749..11fd1d4 100644
--- a/core/src/iter/iter_best.rs
+++ b/core/src/iter/iter_best.rs
@@ -25,16 +25,24 @@ where
 {
     type Item = ScoredPath;
     fn next(&mut self) -> Option<Self::Item> {
-        match self.queue.pop() {
+        // A vertex can be reached by several paths before being visited: only the best one counts
+        let mut best = self.queue.pop();
+        while let Some(true) = best
+            .as_ref()
+            .map(|p| self.visited.contains(p.path.last().unwrap()))
+        {
+            best = self.queue.pop();
+        }
+        match best {
             None => None,
             Some(weighted_path) => {
                 let vid = weighted_path.path.last().unwrap();
+                self.visited.insert(*vid);
                 self.graph
                     .outbound_edges(*vid)
                     .map(|Edge(_, v)| v)
                     .for_each(|v| {
                         if !self.visited.contains(v) {
-                            self.visited.insert(*v);
                             let new_path = weighted_path.path.append(*v);
                             let new_scored_path = ScoredPath {
                                 path: weighted_path.path.append(*v),
@@ -62,7 +70,6 @@ where
     let score = scorefn(&graph, &path);
     let mut iter = empty_best_iter(graph, scorefn);
     iter.queue.push(ScoredPath { path, score });
-    iter.visited.insert(start_vertex);
     iter
 }
 
-- 
2.43.0


From 4e660f4cc5410d0d62598390f85fcfbfdebd123e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:41 +0000
Subject: [PATCH 06/19] fix: depth-first traversal is not in depth-first order

Vertices were marked as visited when pushed: a vertex known from an ancestor
was not visited below the descendant that leads to it first.
---
 core/src/iter/iter_depth.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/core/src/iter/iter_depth.rs b/core/src/iter/iter_depth.rs
index f847faa..7348ee3 100644
--- a/core/src/iter/iter_depth.rs
+++ b/core/src/iter/iter_depth.rs
@@ -21,15 +21,20 @@ impl<'a> Iterator for DepthFirstIter<'a> {
     // children are pushed in reverse order in the stack
     // First child to be considered by the DFS will be the last one
     fn next(&mut self) -> Option<VertexId> {
-        match self.stack.pop() {
+        // A vertex can be in the stack several times: it is visited the first time it is popped
+        let mut top = self.stack.pop();
+        while let Some(true) = top.map(|vid| self.visited.contains(&vid)) {
+            top = self.stack.pop();
+        }
+        match top {
             None => None,
             Some(vid) => {
+                self.visited.insert(vid);
                 self.graph
                     .outbound_edges(vid)
                     .map(|Edge(_, v)| v)
                     .for_each(|v| {
                         if !self.visited.contains(v) {
-                            self.visited.insert(*v);
                             self.stack.push(*v)
                         }
                     });
@@ -51,7 +56,6 @@ pub fn dfs_iter(graph: &DirectedGraph) -> DepthFirstIter {
 pub fn dfs_iter_from(graph: &DirectedGraph, start_vertex: VertexId) -> DepthFirstIter {
     let mut dfs_iter = empty_dfs_iter(graph);
     dfs_iter.stack.push(start_vertex);
-    dfs_iter.visited.insert(start_vertex);
     dfs_iter
 }
 
-- 
2.43.0


From 0a4aabff25430cee4dde0378e5cd92543bb8eb20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:24 +0000
Subject: [PATCH 07/19] fix: DAG shortest paths panic when a later vertex is
 not reachable from the start

---
 core/src/algorithm/shortest_path.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/core/src/algorithm/shortest_path.rs b/core/src/algorithm/shortest_path.rs
index 5c37b25..861b016 100644
--- a/core/src/algorithm/shortest_path.rs
+++ b/core/src/algorithm/shortest_path.rs
@@ -36,10 +36,11 @@ where
         .skip_while(|v| **v != start)
         .for_each(|v| {
             graph.outbound_edges(*v).for_each(|edge| {
-                // FIXME is it necessarily true here ...
-                let ScoredPath { path, score } = scores
-                    .get(v)
-                    .expect("The current score of the processed vertex should be in the map");
+                let ScoredPath { path, score } = match scores.get(v) {
+                    Some(scored_path) => scored_path,
+                    // A vertex after start in the topological order is not always reachable from it
+                    None => return,
+                };
                 let Edge(_, w) = edge;
                 let new_score = score + scorefn(&edge);
                 if let Some(current_score) = scores.get(w).map(|x| x.score) {
-- 
2.43.0


From 0ca03058aea1410a9d24a6733c31b4a4342bedb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:30 +0000
Subject: [PATCH 08/19] fix: max flow follows backward edges to the wrong
 vertex and can explode

Backward edges led back to the current vertex, so that flow was never
rerouted and the result not maximal; saturated edges were explored and paths
enumerated exponentially.
---
 core/src/algorithm/max_flow.rs | 36 ++++++++++++++++++++--------------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/core/src/algorithm/max_flow.rs b/core/src/algorithm/max_flow.rs
index 009f4b9..6aea109 100644
--- a/core/src/algorithm/max_flow.rs
+++ b/core/src/algorithm/max_flow.rs
@@ -2,7 +2,7 @@ use crate::directed_graph::DirectedGraph;
 use crate::graph::Edge;
 use crate::graph::VertexId;
 use crate::iter::iter_datastructure::{Queue, SearchQueue};
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 
 type Flow = u64;
 type Capacity = u64;
@@ -43,10 +43,6 @@ impl AugmentingPath {
         AugmentingPath { path: cloned }
     }
 
-    fn contains_vertex(&self, vid: VertexId) -> bool {
-        self.path.iter().find(|(v, _)| vid == *v).is_some()
-    }
-
     fn last(&self) -> Option<&(VertexId, Direction)> {
         self.path.last()
     }
@@ -158,6 +154,8 @@ fn edge_residual_capacity(
 
 struct AugmentingPathIter<'a> {
     queue: Queue<AugmentingPath>,
+    // Vertices already reached by a path having some residual capacity
+    visited: HashSet<VertexId>,
     graph: &'a DirectedGraph,
     // FIXME: This map needs to be updated externally to the iterator during iteration
     // This breaks borrowing rules
@@ -174,8 +172,11 @@ impl<'a> AugmentingPathIter<'a> {
     ) -> AugmentingPathIter<'a> {
         let mut queue: Queue<AugmentingPath> = Queue::<Queue<AugmentingPath>>::new();
         queue.push(AugmentingPath::new(start));
+        let mut visited = HashSet::new();
+        visited.insert(start);
         AugmentingPathIter {
             queue,
+            visited,
             graph,
             current_flow,
             target,
@@ -190,26 +191,31 @@ impl<'a> Iterator for AugmentingPathIter<'a> {
 
         // Looping until we have a complete path to the target
         while let Some(path) = self.queue.pop() {
-            let (vid, _) = path
+            let (vid, _) = *path
                 .last()
                 .expect("We shouldn't never have any empty path in the queue !");
 
             let foward_edges = self
                 .graph
-                .outbound_edges(*vid)
-                // .filter(|e| !is_full(e))
-                .map(|Edge(_, v)| (v, Forward));
+                .outbound_edges(vid)
+                .map(|Edge(_, v)| (*v, Forward));
+            // A backward edge is followed from its destination to its source
             let backward_edges = self
                 .graph
-                .inbound_edges(*vid)
-                .map(|Edge(_, v)| (v, Backward));
+                .inbound_edges(vid)
+                .map(|Edge(v, _)| (*v, Backward));
             // forward + backward edges
-            (foward_edges.chain(backward_edges))
-                .filter(|(v, _)| !path.contains_vertex(**v)) // avoiding cycles here
-                .for_each(|(v, dir)| self.queue.push(path.append(*v, dir)));
+            for (v, dir) in foward_edges.chain(backward_edges) {
+                // Only edges with some residual capacity can be part of an augmenting path
+                if edge_residual_capacity(&Edge(vid, v), &dir, self.current_flow) > 0
+                    && self.visited.insert(v)
+                {
+                    self.queue.push(path.append(v, dir));
+                }
+            }
 
             // Path has reach the target vertex
-            if *vid == self.target {
+            if vid == self.target {
                 // If the residual capacity is positive => we return the path, as we can augment the flow along the path
                 // else we continue looking for other paths
                 let residual_cap = residual_capacity(&path, self.current_flow);
-- 
2.43.0


From cab37d709fb51c4276d0b69fdf4037e56bfd4482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:30 +0000
Subject: [PATCH 09/19] fix: validation rejects constraints that do not mention
 cycles

---
 core/src/constraint/checker.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/src/constraint/checker.rs b/core/src/constraint/checker.rs
index 299ea74..f3490a4 100644
--- a/core/src/constraint/checker.rs
+++ b/core/src/constraint/checker.rs
@@ -98,12 +98,12 @@ fn check_cycle_inclusion_exclusion(constraints: &Vec<Constraint>) -> Result<(),
     let contains_no_cycle = negated_constraints(constraints)
         .find(|c| **c == ContainsCycle)
         .is_some();
-    if contains_cycle != contains_no_cycle {
-        ok()
-    } else {
+    if contains_cycle && contains_no_cycle {
         fail(format![
             "Incompatible set of constraints about cycle inclusion and exclusion."
         ])
+    } else {
+        ok()
     }
 }
 
-- 
2.43.0


From 968c39a3d3b468ca0d3d220609c4f3924753e7fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:30 +0000
Subject: [PATCH 10/19] fix: --max-score imposes a minimum score

---
 command/src/arg_utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/command/src/arg_utils.rs b/command/src/arg_utils.rs
index 5d72cca..be3f976 100644
--- a/command/src/arg_utils.rs
+++ b/command/src/arg_utils.rs
@@ -103,7 +103,7 @@ pub fn build_constraint_min_score(score: i64) -> Constraint {
 }
 
 pub fn build_constraint_max_score(score: i64) -> Constraint {
-    MinScore(score)
+    MaxScore(score)
 }
 
 pub fn build_constraint_exact_score(score: i64) -> Vec<Constraint> {
-- 
2.43.0


From 7b21d3c59e9ad6eed01a8b6725942b083517ecbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:56 +0000
Subject: [PATCH 11/19] fix: cycles are missed at random when no vertex is
 without inbound edges

The search started from a single arbitrary vertex, from which not all the
cycles can be reached.
---
 core/src/iter/iter_cycle.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/core/src/iter/iter_cycle.rs b/core/src/iter/iter_cycle.rs
index a2d7208..48a0f28 100644
--- a/core/src/iter/iter_cycle.rs
+++ b/core/src/iter/iter_cycle.rs
@@ -1,6 +1,7 @@
 //! Cycle iterator
 use crate::directed_graph::DirectedGraph;
 use crate::graph::{Edge, VertexId};
+use crate::iter::iter_breadth::bfs_iter_from;
 use crate::iter::iter_datastructure::{SearchQueue, Stack};
 use crate::path::Path;
 
@@ -136,9 +137,16 @@ fn find_starting_edges(graph: &DirectedGraph) -> Vec<&VertexId> {
         .filter(|vid| graph.inbound_edges(**vid).count() == 0)
         .collect::<Vec<&VertexId>>();
 
-    // If no vertex with no inbound edges can be found, we need to randomly add a vertex
+    // If no vertex with no inbound edges can be found, we need to add vertices until all of them
+    // can be reached (a single vertex might not lead to all the cycles)
     if res.is_empty() {
-        graph.head_option().iter().for_each(|x| res.push(x));
+        let mut reached: HashSet<VertexId> = HashSet::new();
+        for vid in graph.vertices() {
+            if !reached.contains(vid) {
+                reached.extend(bfs_iter_from(graph, *vid));
+                res.push(vid);
+            }
+        }
     }
     res
 }
-- 
2.43.0


From 6edfbd71b45ed7da7a6c5d8b8510d69ce65812eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:29 +0000
Subject: [PATCH 12/19] fix: the edge closing a cycle is ignored by the edge
 constraints of gc-cycle

Cycle::as_path didn't include the first vertex at the end as documented.
---
 command/src/bin/gc-cycle.rs | 13 ++++++++++---
 core/src/iter/iter_cycle.rs |  4 +++-
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/command/src/bin/gc-cycle.rs b/command/src/bin/gc-cycle.rs
index f22fa24..095af64 100644
--- a/command/src/bin/gc-cycle.rs
+++ b/command/src/bin/gc-cycle.rs
@@ -325,10 +325,17 @@ fn check<F>(graph: &DirectedGraph, cycle: &Cycle, constraints: &Vec<Constraint>,
 where
     F: Fn(&DirectedGraph, &path::Path) -> i64,
 {
+    // The first vertex should be counted only once in the length and the score
+    let vertices = path::Path::from(&cycle.iter().cloned().collect());
+    let score = scorefn(graph, &vertices);
+    let open = path::ScoredPath { path: vertices, score };
+    // ... but the edge from the last to the first vertex is part of the cycle
     let path = cycle.as_path();
-    let score = scorefn(graph, &path);
-    let scored_path = path::ScoredPath { path, score };
-    constraints.iter().all(|c| c.check_complete(&scored_path))
+    let closed = path::ScoredPath { path, score };
+    constraints.iter().all(|c| match c {
+        Constraint::MinLength(_) | Constraint::MaxLength(_) => c.check_complete(&open),
+        _ => c.check_complete(&closed),
+    })
 }
 
 // Formatter
diff --git a/core/src/iter/iter_cycle.rs b/core/src/iter/iter_cycle.rs
index 48a0f28..e19ce54 100644
--- a/core/src/iter/iter_cycle.rs
+++ b/core/src/iter/iter_cycle.rs
@@ -34,7 +34,9 @@ impl Cycle {
     /// Converts a cycle into a path
     /// Path will include first and last element that are identical
     pub fn as_path(&self) -> Path {
-        Path::from(&self.vertices)
+        let mut vertices = self.vertices.clone();
+        vertices.extend(self.vertices.first());
+        Path::from(&vertices)
     }
 
     /// length of the cycle
-- 
2.43.0


From ec88fe4581b80dbd13152342fd6ce6879ec66464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:29 +0000
Subject: [PATCH 13/19] fix: the vertex and edge lists of gc-cycle accept a
 single value only

---
 command/src/bin/gc-cycle.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/command/src/bin/gc-cycle.rs b/command/src/bin/gc-cycle.rs
index 095af64..f4188a0 100644
--- a/command/src/bin/gc-cycle.rs
+++ b/command/src/bin/gc-cycle.rs
@@ -140,6 +140,7 @@ fn main() {
                 .long("include-all")
                 .help("Return all the cycles from the graph that are including all the provided vertices")
                 .required(false)
+                .min_values(1)
                 .takes_value(true),
         )
         .arg(
@@ -147,6 +148,7 @@ fn main() {
                 .long("exclude-all")
                 .help("Return all the cycles from the graph that not including any of the provided vertices")
                 .required(false)
+                .min_values(1)
                 .takes_value(true),
         )
         .arg(
@@ -154,6 +156,7 @@ fn main() {
                 .long("include-all-edges")
                 .help("Return all the cycles from the graph that are including all the provided edges")
                 .required(false)
+                .min_values(2)
                 .takes_value(true),
         )
         .arg(
@@ -161,6 +164,7 @@ fn main() {
                 .long("exclude-all-edges")
                 .help("Return all the cycles from the graph that not including any of the provided edges")
                 .required(false)
+                .min_values(2)
                 .takes_value(true),
         )
         .get_matches();
-- 
2.43.0


From 11bd53856a648b2a9b4b5705c9ae4e93567e63f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:16 +0000
Subject: [PATCH 14/19] fix: invalid constraint values, take-n and edge-count
 are silently ignored

The command answered as if the option had not been given.
---
 command/src/bin/gc-csp.rs    | 18 +++++++++---------
 command/src/bin/gc-cycle.rs  | 22 +++++++++++-----------
 command/src/bin/gc-random.rs |  2 +-
 3 files changed, 21 insertions(+), 21 deletions(-)

diff --git a/command/src/bin/gc-csp.rs b/command/src/bin/gc-csp.rs
index 72d0f79..f898df9 100644
--- a/command/src/bin/gc-csp.rs
+++ b/command/src/bin/gc-csp.rs
@@ -148,17 +148,17 @@ fn main() {
 
     let include = args
         .values_of("include")
-        .and_then(|ids| arg_utils::parse_vertex_id_list(ids.collect()))
+        .map(|ids| arg_utils::parse_vertex_id_list(ids.collect()).expect("Invalid vertex id"))
         .map(arg_utils::build_constraint_include);
 
     let exclude = args
         .values_of("exclude")
-        .and_then(|ids| arg_utils::parse_vertex_id_list(ids.collect()))
+        .map(|ids| arg_utils::parse_vertex_id_list(ids.collect()).expect("Invalid vertex id"))
         .map(arg_utils::build_constraint_exclude);
 
     let ordered = args
         .values_of("ordered")
-        .and_then(|ids| arg_utils::parse_vertex_id_list(ids.collect()))
+        .map(|ids| arg_utils::parse_vertex_id_list(ids.collect()).expect("Invalid vertex id"))
         .map(arg_utils::build_constraint_ordered);
 
     let include_cycle = arg_utils::option_of(args.is_present("include-cycle"),
@@ -169,32 +169,32 @@ fn main() {
 
     let min_length = args
         .value_of("min-length")
-        .and_then(|x| x.parse::<usize>().ok())
+        .map(|x| x.parse::<usize>().expect("Invalid length"))
         .map(arg_utils::build_constraint_min_length);
 
     let max_length = args
         .value_of("max-length")
-        .and_then(|x| x.parse::<usize>().ok())
+        .map(|x| x.parse::<usize>().expect("Invalid length"))
         .map(arg_utils::build_constraint_max_length);
 
     let exact_length = args
         .value_of("exact-length")
-        .and_then(|x| x.parse::<usize>().ok())
+        .map(|x| x.parse::<usize>().expect("Invalid length"))
         .map(arg_utils::build_constraint_exact_length);
 
     let min_score = args
         .value_of("min-score")
-        .and_then(|x| x.parse::<i64>().ok())
+        .map(|x| x.parse::<i64>().expect("Invalid score"))
         .map(arg_utils::build_constraint_min_score);
 
     let max_score = args
         .value_of("max-score")
-        .and_then(|x| x.parse::<i64>().ok())
+        .map(|x| x.parse::<i64>().expect("Invalid score"))
         .map(arg_utils::build_constraint_max_score);
 
     let exact_score = args
         .value_of("exact-score")
-        .and_then(|x| x.parse::<i64>().ok())
+        .map(|x| x.parse::<i64>().expect("Invalid score"))
         .map(arg_utils::build_constraint_exact_score);
 
 
diff --git a/command/src/bin/gc-cycle.rs b/command/src/bin/gc-cycle.rs
index f4188a0..ecce28f 100644
--- a/command/src/bin/gc-cycle.rs
+++ b/command/src/bin/gc-cycle.rs
@@ -183,49 +183,49 @@ fn main() {
         Some(1)
     } else {
         args.value_of("take-n")
-            .and_then(|x| x.parse::<usize>().ok())
+            .map(|x| x.parse::<usize>().expect("Invalid number of cycles"))
     };
     let take_all = args.is_present("all");
     // Constraints
     let include_all = args
         .values_of("include-all")
-        .and_then(|ids| arg_utils::parse_vertex_id_list(ids.collect()))
+        .map(|ids| arg_utils::parse_vertex_id_list(ids.collect()).expect("Invalid vertex id"))
         .map(arg_utils::build_constraint_include);
     let exclude_all = args
         .values_of("exclude-all")
-        .and_then(|ids| arg_utils::parse_vertex_id_list(ids.collect()))
+        .map(|ids| arg_utils::parse_vertex_id_list(ids.collect()).expect("Invalid vertex id"))
         .map(arg_utils::build_constraint_exclude);
     let include_all_edges = args
         .values_of("include-all-edges")
-        .and_then(|ids| arg_utils::parse_edge_list(ids.collect()))
+        .map(|ids| arg_utils::parse_edge_list(ids.collect()).expect("Invalid list of edges"))
         .map(arg_utils::build_constraint_include_edges);
     let exclude_all_edges = args
         .values_of("exclude-all-edges")
-        .and_then(|ids| arg_utils::parse_edge_list(ids.collect()))
+        .map(|ids| arg_utils::parse_edge_list(ids.collect()).expect("Invalid list of edges"))
         .map(arg_utils::build_constraint_exclude_edges);
     let min_length = args
         .value_of("min-length")
-        .and_then(|x| x.parse::<usize>().ok())
+        .map(|x| x.parse::<usize>().expect("Invalid length"))
         .map(arg_utils::build_constraint_min_length);
     let max_length = args
         .value_of("max-length")
-        .and_then(|x| x.parse::<usize>().ok())
+        .map(|x| x.parse::<usize>().expect("Invalid length"))
         .map(arg_utils::build_constraint_max_length);
     let exact_length = args
         .value_of("exact-length")
-        .and_then(|x| x.parse::<usize>().ok())
+        .map(|x| x.parse::<usize>().expect("Invalid length"))
         .map(arg_utils::build_constraint_exact_length);
     let min_score = args
         .value_of("min-score")
-        .and_then(|x| x.parse::<i64>().ok())
+        .map(|x| x.parse::<i64>().expect("Invalid score"))
         .map(arg_utils::build_constraint_min_score);
     let max_score = args
         .value_of("max-score")
-        .and_then(|x| x.parse::<i64>().ok())
+        .map(|x| x.parse::<i64>().expect("Invalid score"))
         .map(arg_utils::build_constraint_max_score);
     let exact_score = args
         .value_of("exact-score")
-        .and_then(|x| x.parse::<i64>().ok())
+        .map(|x| x.parse::<i64>().expect("Invalid score"))
         .map(arg_utils::build_constraint_exact_score);
 
     let constraints = build_all_constraints(
diff --git a/command/src/bin/gc-random.rs b/command/src/bin/gc-random.rs
index 74dc781..0fce742 100644
--- a/command/src/bin/gc-random.rs
+++ b/command/src/bin/gc-random.rs
@@ -71,7 +71,7 @@ fn main() {
         .and_then(|x| x.parse::<usize>().ok())
         .unwrap();
     let edge_count =  args.value_of("edge-count")
-        .and_then(|x| x.parse::<usize>().ok())
+        .map(|x| x.parse::<usize>().expect("Invalid edge count"))
         .unwrap_or(vertex_count * 3);
 
 
-- 
2.43.0


From d88f2a073673517b51d0bd6d80dcc905b3ae3ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:40 +0000
Subject: [PATCH 15/19] fix: gc-random does not terminate or creates vertices
 out of range

The other end of the edges was any 64-bit id, the last vertex was never used,
and the loop never ended when the requested number of edges didn't fit.
---
 command/src/bin/gc-random.rs | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/command/src/bin/gc-random.rs b/command/src/bin/gc-random.rs
index 0fce742..2d90143 100644
--- a/command/src/bin/gc-random.rs
+++ b/command/src/bin/gc-random.rs
@@ -72,7 +72,7 @@ fn main() {
         .unwrap();
     let edge_count =  args.value_of("edge-count")
         .map(|x| x.parse::<usize>().expect("Invalid edge count"))
-        .unwrap_or(vertex_count * 3);
+        .unwrap_or(vertex_count.saturating_mul(3));
 
 
     let maybe_graph = creates_random_dag(vertex_count, edge_count);
@@ -113,20 +113,29 @@ fn main() {
 // A layer can only have vertices connected to a lower layer
 // This prevents cycle to happen
 fn creates_random_dag(vertex_count: usize, edge_count: usize) -> Option<DirectedGraph> {
-    use rand::Rng;
     let mut rng = rand::thread_rng();
     let layer = 10;
-    let layer_size = (vertex_count / layer) as u64;
+    let layer_size = vertex_count / layer;
     let mut graph = DirectedGraph::new();
-    while graph.edge_count() < edge_count {
-        for vid in 1..vertex_count {
-            let this = vid as u64;
-            let other = rng.gen::<u64>();
-            let (src, dst) = (this.min(other), this.max(other));
-            if dst-src > layer_size {
-                graph.add_edge(Edge(VertexId(src), VertexId(dst)));
-            }
+    for vid in 1..=vertex_count {
+        graph.add_vertex(VertexId(vid as u64));
+    }
+    // An edge src -> dst is possible if dst - src > layer_size
+    let src_count = vertex_count.saturating_sub(layer_size + 1);
+    let max_edge_count = src_count * (src_count + 1) / 2;
+    // Picking some of the possible edges, numbered by source then by destination
+    let mut picked =
+        rand::seq::index::sample(&mut rng, max_edge_count, edge_count.min(max_edge_count)).into_vec();
+    picked.sort();
+    let mut src = 1;
+    let mut first = 0; // number of the first edge of src
+    for number in picked {
+        while number - first >= vertex_count - layer_size - src {
+            first += vertex_count - layer_size - src;
+            src += 1;
         }
+        let dst = src + layer_size + 1 + (number - first);
+        graph.add_edge(Edge(VertexId(src as u64), VertexId(dst as u64)));
     }
 
     Some(graph)
-- 
2.43.0


From b1d9103be5824cd02924558e23289f034b58f28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:43 +0000
Subject: [PATCH 16/19] fix: several commands can own the lock of a graph at
 the same time

---
 command/src/graph_utils.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/command/src/graph_utils.rs b/command/src/graph_utils.rs
index 28e40d6..bf5498f 100644
--- a/command/src/graph_utils.rs
+++ b/command/src/graph_utils.rs
@@ -26,7 +26,12 @@ pub fn init(root_dir: &str) -> io::Result<()> {
 /// Creates a lock file indicating a command is already getting process
 /// Any command execution be put on hold / fail straight away if the lock file exists
 pub fn lock(root_dir: &str) -> io::Result<()> {
-    touch(lock_path(root_dir).as_ref())
+    // The creation has to fail if the file is already there (lock owned by another command)
+    fs::OpenOptions::new()
+        .create_new(true)
+        .write(true)
+        .open(lock_path(root_dir).as_ref())
+        .map(|_| ())
 }
 
 /// Removes the lock file to indicate
-- 
2.43.0


From 8b8e72924f598a0eda743e44b8fb04e610de2841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:46 +0000
Subject: [PATCH 17/19] fix: gc-build drops the changes made by other commands
 while it runs

The graph was loaded and saved back without owning the lock.
---
 command/src/bin/gc-build.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/command/src/bin/gc-build.rs b/command/src/bin/gc-build.rs
index ba884ec..5653383 100644
--- a/command/src/bin/gc-build.rs
+++ b/command/src/bin/gc-build.rs
@@ -1,6 +1,7 @@
 use clap::{App, Arg};
 use gc_command::graph_utils;
 use gc_command::version;
+use std::io;
 
 fn main() {
     let args = App::new("gc-build")
@@ -31,14 +32,18 @@ fn main() {
     let path = args.value_of("path").unwrap();
     let verbose = args.is_present("verbose");
 
-    let graph = graph_utils::load_graph(path).expect("Couldn't load graph");
+    // The graph must not change between being loaded and being saved
+    let graph = graph_utils::with_lock(path, || {
+        let graph = graph_utils::load_graph(path)
+            .map_err(|err| io::Error::new(io::ErrorKind::Other, err))?;
+        graph_utils::save_graph_as_commands(path, &graph)?;
+        Ok(graph)
+    })
+    .expect("Couldn't build graph. It might not exist, or is currently locked (check 'lock' file)");
     if verbose {
         println!("Vertices: {}", graph.vertex_count());
         println!("Edges: {}", graph.edge_count());
     }
 
-    graph_utils::save_graph_as_commands(path, &graph)
-        .expect("Couldn't save graph. Data maybe lost !");
-
     println!("Done.")
 }
-- 
2.43.0


From 3377d6eb958da7a7bf9bea25637e465d7ef063b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:08 +0000
Subject: [PATCH 18/19] fix: gc-add and gc-delete ignore errors and apply a
 part of invalid arguments

The result of the edits was discarded, so that a failure (no graph, lock owned
by another command, write error) was reported as a success; the options were
applied one by one, each with its own lock, before the next one was parsed.
---
 command/src/bin/gc-add.rs    | 26 +++++++++++++++++++-------
 command/src/bin/gc-delete.rs | 18 +++++++++++++++---
 command/src/graph_utils.rs   |  4 ++--
 3 files changed, 36 insertions(+), 12 deletions(-)

diff --git a/command/src/bin/gc-add.rs b/command/src/bin/gc-add.rs
index 87940d6..8b01200 100644
--- a/command/src/bin/gc-add.rs
+++ b/command/src/bin/gc-add.rs
@@ -3,6 +3,9 @@ use gc_command::arg_utils;
 use gc_command::graph_utils;
 use gc_command::version;
 use gc_core::graph::VertexId;
+use gc_core::graph_command::GraphCommand;
+use gc_core::graph_command::GraphCommand::AddEdge;
+use gc_core::graph_command::GraphCommand::AddVertex;
 
 fn main() {
     let args = App::new("gc-add")
@@ -87,10 +90,12 @@ fn main() {
     let path = args.value_of("path").unwrap();
     let reverse_edges = args.is_present("reverse");
 
+    // Nothing is applied until all the arguments are known to be valid
+    let mut commands: Vec<GraphCommand> = vec![];
+
     args.values_of("vertex")
         .map(|vids| vids.map(|v| v.parse::<u64>().expect("Invalid vertex id")))
-        .map(|vids| vids.map(|vid| VertexId(vid)).collect())
-        .map(|vids| graph_utils::add_vertices(path, vids));
+        .map(|vids| commands.extend(vids.map(|vid| AddVertex(VertexId(vid)))));
 
     args.values_of("edge")
         .map(|vids| vids.map(|v| v.parse::<u64>().expect("Invalid vertex id")))
@@ -100,13 +105,13 @@ fn main() {
                 .expect("Invalid number of vertices. Must be an even number")
         })
         .map(|vids| reverse_if_needed(reverse_edges, vids))
-        .map(|vids| graph_utils::add_edges(path, vids));
+        .map(|vids| commands.extend(vids.iter().map(|(src, dest)| AddEdge(*src, *dest))));
 
     args.values_of("chain")
         .map(|vids| vids.map(|v| v.parse::<u64>().expect("Invalid vertex id")))
         .map(|vids| chain_from_vertices(vids.map(|vid| VertexId(vid)).collect()))
         .map(|vids| reverse_if_needed(reverse_edges, vids))
-        .map(|vids| graph_utils::add_edges(path, vids));
+        .map(|vids| commands.extend(vids.iter().map(|(src, dest)| AddEdge(*src, *dest))));
 
     args.values_of("cycle")
         .map(|vids| vids.map(|v| v.parse::<u64>().expect("Invalid vertex id")))
@@ -114,18 +119,25 @@ fn main() {
             cycle_from_vertices(vids.map(|vid| VertexId(vid)).collect()).expect("Invalid cycle")
         })
         .map(|vids| reverse_if_needed(reverse_edges, vids))
-        .map(|vids| graph_utils::add_edges(path, vids));
+        .map(|vids| commands.extend(vids.iter().map(|(src, dest)| AddEdge(*src, *dest))));
 
     args.values_of("star")
         .map(|vids| vids.map(|v| v.parse::<u64>().expect("Invalid vertex id")))
         .map(|vids| star_from_vertices(vids.map(|vid| VertexId(vid)).collect()))
         .map(|vids| reverse_if_needed(reverse_edges, vids))
-        .map(|vids| graph_utils::add_edges(path, vids));
+        .map(|vids| commands.extend(vids.iter().map(|(src, dest)| AddEdge(*src, *dest))));
 
     args.values_of("clique")
         .map(|vids| vids.map(|v| v.parse::<u64>().expect("Invalid vertex id")))
         .map(|vids| clique_from_vertices(vids.map(|vid| VertexId(vid)).collect()))
-        .map(|vids| graph_utils::add_edges(path, vids));
+        .map(|vids| commands.extend(vids.iter().map(|(src, dest)| AddEdge(*src, *dest))));
+
+    if !commands.is_empty() {
+        graph_utils::apply_graph_commands(path, commands).expect(&format![
+            "A problem occured. Graph at '{}' might not exist, or is currently locked (check 'lock' file)",
+            path
+        ]);
+    }
 }
 
 fn chain_from_vertices(vertices: Vec<VertexId>) -> Vec<(VertexId, VertexId)> {
diff --git a/command/src/bin/gc-delete.rs b/command/src/bin/gc-delete.rs
index 905a639..e4ac421 100644
--- a/command/src/bin/gc-delete.rs
+++ b/command/src/bin/gc-delete.rs
@@ -3,6 +3,9 @@ use gc_command::arg_utils;
 use gc_command::graph_utils;
 use gc_command::version;
 use gc_core::graph::VertexId;
+use gc_core::graph_command::GraphCommand;
+use gc_core::graph_command::GraphCommand::RemoveEdge;
+use gc_core::graph_command::GraphCommand::RemoveVertex;
 
 fn main() {
     let args = App::new("gc-delete")
@@ -41,14 +44,23 @@ fn main() {
 
     let path = args.value_of("path").unwrap();
 
+    // Nothing is applied until all the arguments are known to be valid
+    let mut commands: Vec<GraphCommand> = vec![];
+
     args.values_of("vertex")
         .map(|vids| vids.map(|v| v.parse::<u64>().expect("Invalid vertex id")))
-        .map(|vids| vids.map(|vid| VertexId(vid)).collect())
-        .map(|vids| graph_utils::remove_vertices(path, vids));
+        .map(|vids| commands.extend(vids.map(|vid| RemoveVertex(VertexId(vid)))));
 
     args.values_of("edge")
         .map(|vids| vids.map(|v| v.parse::<u64>().expect("Invalid vertex id")))
         .map(|vids| vids.map(|vid| VertexId(vid)).collect())
         .map(|vids| arg_utils::as_vertex_tuple(vids).expect("Invalid number of vertices. Must be an even number"))
-        .map(|vids| graph_utils::remove_edges(path, vids));
+        .map(|vids| commands.extend(vids.iter().map(|(src, dest)| RemoveEdge(*src, *dest))));
+
+    if !commands.is_empty() {
+        graph_utils::apply_graph_commands(path, commands).expect(&format![
+            "A problem occured. Graph at '{}' might not exist, or is currently locked (check 'lock' file)",
+            path
+        ]);
+    }
 }
diff --git a/command/src/graph_utils.rs b/command/src/graph_utils.rs
index bf5498f..540390a 100644
--- a/command/src/graph_utils.rs
+++ b/command/src/graph_utils.rs
@@ -164,8 +164,8 @@ fn command_path(root_dir: &str) -> Box<path::Path> {
         .into_boxed_path()
 }
 
-// Applies a GraphCommand on the file, making sure the lock is acquired and released
-fn apply_graph_commands(root_dir: &str, commands: Vec<GraphCommand>) -> std::io::Result<()> {
+/// Applies a list of GraphCommand on the file, making sure the lock is acquired and released
+pub fn apply_graph_commands(root_dir: &str, commands: Vec<GraphCommand>) -> std::io::Result<()> {
     with_lock(root_dir, || {
         let path = command_path(root_dir);
         gcmd::add_commands(path.as_ref().to_str().unwrap(), commands)
-- 
2.43.0


From 6a3b2209cfe5e766eb560a8f54365445ff1c546a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:52:20 +0000
Subject: [PATCH 19/19] fix: gc-random replaces the graph in one step while
 holding the lock

The graph was cleaned under the lock, then initialised and saved without it:
an edit that succeeded in between was lost, and a failure or kill half way
left no graph at all.
---
 command/src/bin/gc-random.rs | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/command/src/bin/gc-random.rs b/command/src/bin/gc-random.rs
index 2d90143..ddc03d4 100644
--- a/command/src/bin/gc-random.rs
+++ b/command/src/bin/gc-random.rs
@@ -89,19 +89,13 @@ fn main() {
             }
         }
 
-        // Cleaning current graph first
-        graph_utils::clean(path).expect(&format![
+        // Replacing the current graph in one step, so that no other command can get in between
+        graph_utils::with_lock(path, || {
+            graph_utils::save_graph_as_commands(path, &random_graph)
+        }).expect(&format![
             "A problem occured. Path '{}' might not exist, or the graph is currently lock (check 'lock' file)",
             &path
         ]);
-        graph_utils::init(path).expect(&format![
-            "A problem occured. Unable to create a new graph at '{}' (check directory structure and 'lock' file)",
-            &path
-        ]);
-        graph_utils::save_graph_as_commands(path, &random_graph).expect(&format![
-            "A problem occured. Unable to save graph at '{}' (check directory structure and 'lock' file)",
-            &path
-        ]);
     } else {
         println!("Couldn't generate graph.")
     }
-- 
2.43.0

