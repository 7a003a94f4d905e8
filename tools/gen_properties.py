#!/usr/bin/env python3
"""Single source of the property texts; rewrites /verif/properties.jsonl."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [],
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=hook)))

p("C01", "The graph is exactly the set model of its edit history",
  "After any sequence of vertex and edge additions and removals (duplicates, self-loops, removals of absent items and re-additions included) the graph holds exactly the vertices and edges a set model of that sequence predicts: adding an edge adds its missing endpoints, removing a vertex removes every edge touching it, and nothing else changes. All views of the graph agree with that model at every step: membership tests, vertex count, edge count, vertex listing, edge listing (each edge once), outgoing and incoming edges and degrees. Undoing a command (the reverse of an addition that changed the graph, or of an edge removal) restores the previous vertex and edge sets, apart from endpoints an edge addition created; undoing the removal of a vertex brings the vertex back, without its edges.",
  ["histories", "inputs"], "every finite sequence of add/remove commands over every choice of 64-bit vertex ids, observed after every step",
  "The unit tests run about fifteen fixed sequences of a few calls on ids below 1000 and look at one view each; they never compare all views after each step and use no self-loop.",
  ["core/src/directed_graph.rs", "core/src/graph_command.rs", "core/src/graph.rs"],
  [("each edge indexed under both endpoints", "core/src/directed_graph.rs add_edge/remove_edge"), ("vertex removal cascades to edges", "core/src/directed_graph.rs remove_vertex"), ("command application and reversal", "core/src/graph_command.rs apply_to/revert")],
  ["DirectedGraph public API after every command"],
  [dict(name="edge map", meaning="vertex -> edges touching it", where="core/src/directed_graph.rs")])

p("C02", "Saved graphs read back as the same graph in both file formats",
  "Writing any graph to a command file or to a TGF file and reading the file back yields the same vertex set and edge set, and the command list exported from a graph rebuilds it. Appending any list of commands to a readable command file makes the file read as the old commands followed by the new ones, in order, however the old file was laid out (comments, empty lines, no newline at the end). Saving over an existing file leaves nothing of the old content.",
  ["inputs", "histories"], "every graph (size, shape, 64-bit ids), every command list and every valid prior file",
  "No test writes or reads a file; only single-line parsing and formatting of six-digit ids is tested.",
  ["core/src/format/gcmd.rs", "core/src/format/tgf.rs", "core/src/format/utils.rs", "core/src/graph_command.rs"],
  [("save / append / read", "core/src/format/gcmd.rs"), ("save / read", "core/src/format/tgf.rs"), ("graph to commands", "core/src/graph_command.rs as_commands")],
  ["files written and graphs/commands read back through the public format API"])

p("C03", "Reading a graph file is total and follows the format exactly",
  "For any file content, reading a command file or a TGF file either returns exactly the commands its lines spell out, in order, ignoring only empty lines and comment lines (first visible character #), or returns an error that gives the number of the first invalid line. It never panics and never drops, invents or alters a command; ids outside the 64-bit range and bytes that are not valid text are errors.",
  ["inputs"], "every byte string as file content, for both formats",
  "The tests parse ten hand-written well-formed lines and two malformed ones; no number overflow, no invalid UTF-8, no multi-line file, no line numbers.",
  ["core/src/format/gcmd.rs", "core/src/format/tgf.rs", "core/src/format/utils.rs"],
  [("line grammar", "core/src/format/gcmd.rs parse_line, core/src/format/tgf.rs parse_line"), ("line loop with error position", "core/src/format/utils.rs read_as_commands")],
  ["Result of the public read and read_as_commands functions on generated files"])

p("C04", "Traversals visit exactly the reachable vertices once, in order",
  "From any start vertex, the breadth-first, depth-first and best-first traversals each produce every vertex reachable from it exactly once and no other vertex. Breadth-first output has non-decreasing hop distance from the start; depth-first output is a genuine depth-first order (whenever a vertex is produced, its predecessor in the search is the most recently produced vertex that still had an unvisited successor). Best-first output always takes the lowest-scored known candidate next, and each path it gives is a real path from the start ending at the produced vertex, with the score of that path.",
  ["inputs"], "every graph, start vertex and scoring function",
  "Each traversal is tested on one 8-vertex graph and one 5-cycle.",
  ["core/src/iter/iter_breadth.rs", "core/src/iter/iter_depth.rs", "core/src/iter/iter_best.rs", "core/src/iter/iter_datastructure.rs"],
  [("visited set + queue/stack/priority queue", "core/src/iter/*.rs next()")],
  ["items yielded by the public iterators"])

p("C05", "Simple-path and Hamiltonian-path enumeration is exact",
  "From any start vertex, the breadth-first and depth-first path enumerations produce every simple path (no repeated vertex) starting there exactly once and nothing else, breadth-first in non-decreasing length and both with every path after its own prefix. The Hamiltonian-path enumeration produces exactly the simple paths that visit every vertex of the graph, each once, and the yes/no Hamiltonian answers agree with it (an empty graph counts as Hamiltonian).",
  ["inputs"], "every graph and start vertex",
  "Tested on one small graph per iterator and four small Hamiltonian examples where only the number of paths is checked.",
  ["core/src/iter/iter_breadth.rs", "core/src/iter/iter_depth.rs", "core/src/algorithm/hamiltonian.rs"],
  [("path extension avoiding vertices already on the path", "core/src/iter/iter_breadth.rs, iter_depth.rs"), ("length filter", "core/src/algorithm/hamiltonian.rs")],
  ["items yielded by the public iterators and predicates"])

p("C06", "A topological order is returned iff the graph is acyclic, and is right",
  "For every graph, the topological sort returns an order if and only if the graph has no directed cycle (a self-loop is a cycle); the order lists every vertex exactly once, with the source of each edge before its target. The acyclicity test, the DAG marker and the command-line tool give the same answer.",
  ["inputs"], "every graph, including self-loops, isolated vertices, disconnected parts, empty graph",
  "Tested on three fixed DAGs and three cyclic graphs, none with a self-loop or an isolated vertex.",
  ["core/src/algorithm/topo_sort.rs", "command/src/bin/gc-topo-sort.rs", "core/src/directed_graph.rs"],
  [("Kahn's algorithm with removed-edge set", "core/src/algorithm/topo_sort.rs topological_sort")],
  ["returned order; gc-topo-sort output"])

p("C07", "Cycle enumeration reports each elementary cycle once, and only real ones",
  "Every reported cycle is an elementary cycle of the graph (its consecutive vertices and its last-to-first pair are edges, no vertex repeats; a self-loop is a cycle of length one), starts at its smallest vertex, and is reported once. Every cycle reachable from a vertex without incoming edges is reported, and when the graph has no such vertex every cycle of the graph is reported. First, count, take-n, take-all, girth, shortest, longest and Hamiltonian-cycle answers agree with that enumeration.",
  ["inputs"], "every graph (the documented restriction for cycles not reachable from a source vertex of a graph that has sources is kept out)",
  "Three small graphs are tested; girth, shortest, longest and Hamiltonian have no test at all; results that depend on hash order are not exercised.",
  ["core/src/iter/iter_cycle.rs", "core/src/algorithm/cycle.rs"],
  [("DFS over paths until the last vertex repeats; canonical rotation; returned set", "core/src/iter/iter_cycle.rs"), ("derived queries", "core/src/algorithm/cycle.rs")],
  ["items of the public cycle iterator and results of the cycle queries"])

p("C08", "Unconstrained shortest path is optimal",
  "For every graph with non-negative edge weights, start and end vertex, the shortest-path search returns a path iff the end is reachable from the start; the path is a real path between them, its reported cost is its own cost, and no other path is cheaper. This holds with no heuristic and with any consistent heuristic. The command-line tool reports a path with the minimum number of edges, or that the end is not reachable.",
  ["inputs"], "every graph, non-negative weighting, consistent heuristic and pair of vertices",
  "One weighted example and one unreachable example on a single 8-vertex graph.",
  ["core/src/search/a_star.rs", "core/src/iter/iter_best.rs", "command/src/bin/gc-short-path.rs"],
  [("best-first iteration on cost + heuristic", "core/src/search/a_star.rs shortest_path"), ("visited bookkeeping", "core/src/iter/iter_best.rs")],
  ["returned scored path; gc-short-path output"])

p("C09", "Constrained shortest path is a cheapest path meeting all constraints",
  "For every graph with positive edge weights, start, end and list of constraints, when some path (vertices may repeat) from start to end satisfies all the constraints, the search returns one of minimal cost, with its true cost; it never returns a path that breaks a constraint or uses a missing edge. The path enumeration behind it produces real paths from the start, each once, with its own cost and in non-decreasing cost. When no path satisfies them and the search space is finite (acyclic graph, cycles excluded, or length or score bounded above), it says so after a bounded search. The command-line options for include, exclude, ordered, cycle, length and score constraints each impose exactly the constraint they document.",
  ["inputs", "configurations"], "every graph, positive weighting, vertex pair and combination of constraints (library trees and command-line options)",
  "The two tests of the constrained search are assert!(true); no test runs the command-line tools.",
  ["core/src/search/a_star.rs", "core/src/iter/iter_best_constraint.rs", "core/src/constraint/constraint.rs", "command/src/bin/gc-csp.rs", "command/src/arg_utils.rs"],
  [("best-first search over partial paths with pruning", "core/src/iter/iter_best_constraint.rs"), ("final check of all constraints", "core/src/search/a_star.rs constrained_shortest_path"), ("option to constraint mapping", "command/src/bin/gc-csp.rs, command/src/arg_utils.rs")],
  ["returned scored path; number of partial paths scored; gc-csp output"])

p("C10", "Constraints mean what they say and never prune a viable partial path",
  "On a complete path each constraint holds exactly when its plain meaning does (vertex or edge on the path, listed vertices appearing only in the listed order, a repeated vertex, number of vertices and score within inclusive bounds), and and/or/xor/not combine these as Boolean operators at any nesting. The partial-path test accepts every prefix of a path that satisfies the constraint, for scores that do not decrease along the path. It rejects a partial path that already exceeds a length or score maximum, holds an excluded vertex or edge, repeats a vertex when cycles are excluded, or breaks the listed order.",
  ["inputs"], "every constraint tree and every path with every non-decreasing score sequence",
  "About forty assertions on fixed two-to-thirteen-vertex paths, nesting depth at most one.",
  ["core/src/constraint/constraint.rs", "core/src/path.rs"],
  [("check_complete / check_partial", "core/src/constraint/constraint.rs")],
  ["results of the two public checks"])

p("C11", "Constraint validation rejects exactly the contradictory sets it lists",
  "The validation of a list of constraints fails if and only if the list requires and excludes the same vertex (a required edge requires its endpoints), requires and excludes the same edge, requires and excludes cycles, gives more than one minimum or more than one maximum for length or for score, or gives a minimum above the maximum. In particular lists without any cycle constraint, or with just one, are accepted, and the outcome does not depend on the order of the list.",
  ["inputs"], "every list of constraints (at most one ordering constraint; nested and/or/xor are ignored as documented)",
  "The public function itself has no test, only some of its helpers, one example each.",
  ["core/src/constraint/checker.rs"],
  [("pairwise compatibility checks", "core/src/constraint/checker.rs validate")],
  ["result of validate"])

p("C12", "Single-source shortest and longest path tables are exact",
  "For every graph, integer weighting (negative weights allowed) and start vertex, Bellman-Ford returns nothing exactly when a negative cycle is reachable from the start. Otherwise it, the queue-based variant and, on acyclic graphs, the DAG shortest and longest path algorithms return an entry for exactly the vertices reachable from the start, each with the optimal score and a real path from the start to that vertex having that score. The single-target forms agree with the tables.",
  ["inputs"], "every graph, start vertex and integer weighting within a range whose sums fit 64 bits",
  "One 8-vertex DAG whose start reaches every vertex; no cycles, no unreachable vertex, no negative cycle.",
  ["core/src/algorithm/shortest_path.rs", "core/src/algorithm/longest_path.rs", "core/src/algorithm/topo_sort.rs"],
  [("relaxation in topological order", "shortest_path.rs dag_shortest_paths"), ("|V|-1 rounds + negative cycle pass", "shortest_path.rs bellman_ford"), ("queue relaxation", "shortest_path.rs spfa"), ("negation", "longest_path.rs")],
  ["returned tables; number of weight queries"])

p("C13", "Max flow is feasible and maximal",
  "For every graph, capacity function and two distinct vertices, the computed flow gives every edge of the graph an amount between zero and its capacity, conserves flow at every vertex other than source and sink, and has a net outflow from the source equal to the reported value. That value equals the capacity of a minimum cut separating the two vertices.",
  ["inputs"], "every graph, non-negative integer capacities whose sums fit 64 bits, source different from sink",
  "Three fixed networks, none of which needs flow to be rerouted.",
  ["core/src/algorithm/max_flow.rs"],
  [("augmenting paths with forward and backward edges", "core/src/algorithm/max_flow.rs")],
  ["returned value and per-edge flow map"])

p("C14", "The edit commands keep the stored graph equal to the edit history",
  "After any sequence of successful init, add, delete, build and clean commands on a directory, every reading command sees exactly the graph that the sequence describes: chain, cycle, star, clique, edge and vertex options add exactly their documented edges and vertices (reversed when asked), delete removes exactly what it names, init never alters an existing graph, and build only compacts (it replaces the stored history by additions of the vertices and edges that are there). The statistics command reports the true vertex count, edge count and smallest and largest id. An edit command that exits successfully has stored its change; one that could not store it exits with a failure. An edit of one directory never changes the graph of another (above, below or beside it). The library calls behind these commands (initialise, clean, add and remove vertices and edges, save, load) change the stored graph in the same way.",
  ["histories", "inputs", "configurations"], "every sequence of command invocations and arguments, run one at a time",
  "The command crate has no tests at all.",
  ["command/src/graph_utils.rs", "command/src/arg_utils.rs", "command/src/bin/gc-add.rs", "command/src/bin/gc-delete.rs", "command/src/bin/gc-init.rs", "command/src/bin/gc-build.rs", "command/src/bin/gc-desc.rs", "core/src/format/gcmd.rs"],
  [("append-only command log under .graph", "command/src/graph_utils.rs apply_graph_commands"), ("pattern expansion", "command/src/bin/gc-add.rs"), ("compaction", "command/src/bin/gc-build.rs")],
  ["exit status and output of the real binaries, stored command file after each command"])

p("C15", "Concurrent edit commands are atomic: all-or-nothing and never lost",
  "When any number of add, delete, build, random and clean commands run at the same time on one graph, the stored graph afterwards is the result of running, one after another in some order compatible with real time, exactly those that exited successfully; a command that reported failure had no effect. A reading command that runs meanwhile succeeds and sees the graph as it is between two of these commands (it fails only where a clean left no graph). An init that runs at the same time as add, delete, build and random commands creates an empty graph where there is none and otherwise leaves the graph as it is. While a command holds the graph's lock no other edit command succeeds, and the lock is released when the command ends, whether its work succeeded or failed.",
  ["schedules", "histories"], "every interleaving of concurrent commands, of any size of change",
  "No test runs a command, let alone two at once.",
  ["command/src/graph_utils.rs", "command/src/bin/gc-build.rs", "command/src/bin/gc-add.rs", "command/src/bin/gc-delete.rs", "command/src/bin/gc-random.rs", "command/src/bin/gc-clean.rs", "command/src/bin/gc-init.rs", "core/src/format/gcmd.rs"],
  [("lock file", "command/src/graph_utils.rs lock/unlock/with_lock"), ("append under the lock", "command/src/graph_utils.rs apply_graph_commands")],
  ["call and return of every process, exit status, final stored graph, lock file"])

p("C16", "A failed or killed edit leaves the graph as before or as after",
  "If an add, delete, build or random command is killed at any point, or any of its file operations fails or is cut short (disk full, write error), the stored graph afterwards reads back as either the graph before the command or the graph after it, never a mixture and never unreadable; a clean likewise leaves the whole graph or none. A command whose write failed does not report success; library saves and appends likewise report an error instead of success when the data could not be written.",
  ["crash_points", "fault_sequences"], "every file-system call of every edit command as kill or failure point, for small and large changes",
  "No test writes a file; no fault is ever injected.",
  ["core/src/format/gcmd.rs", "core/src/format/tgf.rs", "command/src/graph_utils.rs", "command/src/bin/gc-build.rs"],
  [("append in add_commands", "core/src/format/gcmd.rs"), ("whole-file save", "core/src/format/gcmd.rs save")],
  ["stored graph and exit status after each injected fault"])

p("C17", "Cycle queries on the command line honour every action and constraint",
  "The cycle command prints exactly the cycles of the enumeration that satisfy every given constraint: include or exclude vertices, include or exclude edges (the closing edge from the last to the first vertex counts), and inclusive minimum, maximum and exact length and score, the score of a cycle being its length. Count, first, take-n, shortest and longest are the corresponding selections from that list, and girth and Hamiltonian describe the whole graph, with their documented no-result answers.",
  ["inputs", "configurations"], "every graph and every combination of one action with constraints",
  "The command crate has no tests.",
  ["command/src/bin/gc-cycle.rs", "command/src/arg_utils.rs", "core/src/iter/iter_cycle.rs", "core/src/constraint/constraint.rs"],
  [("constraint filter over the cycle iterator", "command/src/bin/gc-cycle.rs check"), ("option parsing", "command/src/bin/gc-cycle.rs, command/src/arg_utils.rs")],
  ["gc-cycle output and exit status"])

p("C18", "Random graphs have the requested shape",
  "The random-graph command always terminates and replaces the stored graph by an acyclic graph with exactly the requested number of vertices, numbered from 1, and with the requested number of edges when that many fit in such a layered acyclic graph (as many as fit otherwise). Runs differ: the edges are not a fixed function of the arguments.",
  ["inputs", "configurations"], "every vertex count and edge count and every random outcome",
  "The command crate has no tests.",
  ["command/src/bin/gc-random.rs"],
  [("random layered DAG", "command/src/bin/gc-random.rs creates_random_dag")],
  ["stored graph after gc-random"])

p("C19", "Destructive commands act only when confirmed, and only on the graph",
  "Clean and random change nothing unless forced or answered yes (y or yes); any other answer, including none, leaves the stored graph byte for byte unchanged. When they do act they touch only the graph's own storage: every other file and directory under and around the given path is untouched, and after a clean the directory holds no graph until it is initialised again.",
  ["inputs", "configurations"], "every answer on standard input, flag combination and directory content",
  "The command crate has no tests.",
  ["command/src/bin/gc-clean.rs", "command/src/bin/gc-random.rs", "command/src/arg_utils.rs", "command/src/graph_utils.rs"],
  [("confirmation prompt", "command/src/arg_utils.rs confirmation_yes_no"), ("removal of the graph directory", "command/src/graph_utils.rs clean")],
  ["directory tree snapshot before and after the command"])

p("C20", "Attribute mappings return the last value written",
  "For any sequence of attribute commands or direct updates on a vertex or edge mapping, looking up a key gives the value of the last addition not followed by a removal of that key, or nothing (or the given default) otherwise; removal reports whether a value was there. Commands of the other kind (edge commands on a vertex mapping and vice versa) change nothing and report so; an edge and its reverse are different keys.",
  ["histories", "inputs"], "every sequence of attribute commands over every key",
  "The attribute module has no test.",
  ["core/src/attribute/mapping.rs", "core/src/attribute/attribute_command.rs"],
  [("map insert/remove", "core/src/attribute/mapping.rs"), ("command dispatch", "core/src/attribute/attribute_command.rs")],
  ["lookups through both closures and returned flags after every step"])

p("C21", "Search containers keep their order discipline and lose nothing",
  "For any interleaving of pushes and pops, the stack pops the most recent element, the queue the oldest, the min-priority queue a smallest and the max-priority queue a largest of the elements present. Every pushed element is popped exactly once, and a pop returns nothing exactly when the container is empty.",
  ["histories"], "every sequence of push and pop operations and every element ordering",
  "Each container is tested on one four-element push-all-pop-all sequence.",
  ["core/src/iter/iter_datastructure.rs"],
  [("linked list and binary heap wrappers", "core/src/iter/iter_datastructure.rs")],
  ["values returned by push/pop histories"])

p("C22", "Malformed arguments are refused and change nothing",
  "A command given a value it cannot use (an id or bound that is not a number in range, an odd number of ids where pairs are needed, a missing required option, no value for an option without a default, more values than an option takes, two actions at once) exits with a failure, leaves the stored graph unchanged and never answers as if the value had not been given. Reading commands on a directory without a graph, or with an unreadable one, fail instead of answering.",
  ["inputs", "configurations"], "every malformed argument of every command",
  "The command crate has no tests.",
  ["command/src/arg_utils.rs", "command/src/bin/gc-add.rs", "command/src/bin/gc-delete.rs", "command/src/bin/gc-csp.rs", "command/src/bin/gc-cycle.rs", "command/src/bin/gc-short-path.rs", "command/src/bin/gc-random.rs", "command/src/graph_utils.rs"],
  [("argument parsing", "command/src/arg_utils.rs and each binary's main")],
  ["exit status, output and stored file of the real binaries"])

p("C23", "Queries never modify anything",
  "The statistics, topological sort, shortest path, constrained path and cycle commands leave the directory they read exactly as it was: same files, same bytes, no new file. They see the same graph however its history is laid out in the file, and asking twice gives equally valid answers.",
  ["inputs", "histories"], "every query command with any arguments on any stored graph",
  "The command crate has no tests.",
  ["command/src/bin/gc-desc.rs", "command/src/bin/gc-topo-sort.rs", "command/src/bin/gc-short-path.rs", "command/src/bin/gc-csp.rs", "command/src/bin/gc-cycle.rs", "command/src/graph_utils.rs"],
  [("read-only load", "command/src/graph_utils.rs load_graph")],
  ["directory snapshots around each query; file-system calls that open for writing"])

p("C24", "Paths and cycles behave as values",
  "For any vertex sequence, a path reports its size, ends, vertices, consecutive edges and whether a vertex repeats exactly as the sequence does, and appending gives a new path with one more vertex without changing the original. A cycle can be built exactly from two or more distinct vertices; its canonical form is the rotation starting at its smallest vertex, all rotations of a cycle have the same canonical form, only canonical ones say they are, and as a path it is closed by its first vertex. Reversing an edge swaps its ends, and scored paths compare by their score alone.",
  ["inputs"], "every sequence of vertex ids",
  "Three canonical examples and three lengths are tested; Path has no test of its own.",
  ["core/src/path.rs", "core/src/iter/iter_cycle.rs", "core/src/graph.rs"],
  [("vector of vertices", "core/src/path.rs"), ("rotation", "core/src/iter/iter_cycle.rs canonical")],
  ["results of the public methods"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), "properties")
