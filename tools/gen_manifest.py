#!/usr/bin/env python3
"""Rewrites /verif/MANIFEST.json."""
import json, os
T = {
 "C01": ("online monitor: all graph views compared with a set model after every step of generated histories",
   "All histories over a small command alphabet up to a bound are enumerated, larger ones are sampled (self-loops, boundary ids, hubs). Trusts the harness's set model."),
 "C02": ("write/read-back monitor over both file formats with a set model, and an append monitor over generated file layouts",
   "Sampled graphs, command lists and file layouts, including files of several thousand lines. Trusts the model and the independent line grammar."),
 "C03": ("parser monitor: result on generated and mutated byte strings compared with an independent grammar; panic detection",
   "Structured, mutated and random byte strings and exhaustive short lines over an alphabet. Inputs on which the documented format leaves a choice open are judged only for totality."),
 "C04": ("online checker of the traversal trace specification (visited set, frontier, order) on the real iterators",
   "All labelled graphs of up to 3 vertices, all loop-free ones with 4, and sampled larger shapes; every start vertex. Trusts the harness's reachability."),
 "C05": ("offline checker: enumerated paths compared with a reference enumeration, prefix and length order checked online",
   "All small graphs, sampled larger ones up to a bound on the number of paths."),
 "C06": ("certifying monitor: every returned order is checked, every refusal compared with an independent cycle test; library and gc-topo-sort",
   "All small graphs, sampled shapes up to some hundred vertices, and process runs of gc-topo-sort."),
 "C07": ("certifying monitor of reported cycles (elementary, canonical, unique) and comparison with a reference enumeration",
   "All small graphs, sampled larger ones; each several times because hash order changes the search."),
 "C08": ("certifying monitor: returned path re-walked and its cost compared with an independent Dijkstra; library and gc-short-path",
   "All small graphs with sampled weights, sampled larger graphs, consistent heuristics; process runs of gc-short-path."),
 "C09": ("certifying monitor: returned path checked against all constraints and its cost against a brute-force / product-automaton optimum; library and gc-csp",
   "Sampled queries with an independent optimum. Unsatisfiable queries on finite search spaces must be answered; CPU, memory and time are watched."),
 "C10": ("monitor of constraint verdicts on complete and partial paths against Boolean semantics",
   "All short paths over a small alphabet with all base constraints, and sampled nested constraints with every prefix of every path."),
 "C11": ("monitor of validation verdicts against the listed rules, all orders of the list",
   "All lists of up to 3 constraints over a pool and sampled longer ones, with permutations."),
 "C12": ("certifying monitor: tables compared with an independent i128 Bellman-Ford / DAG computation, every path re-walked",
   "All small graphs with sampled weights (negative included), sampled larger graphs, every start vertex."),
 "C13": ("certifying monitor of flows: capacity, conservation, value, and an independent minimum cut",
   "All small graphs with sampled capacities and sampled larger networks; running time and memory are watched."),
 "C14": ("process monitor: histories of real gc-* commands, stored graph compared with a set model after each",
   "Sampled histories, every option on its own for several sizes, large patterns, library edit calls, several spellings of the directory, injected store failures. Trusts the set model of the documented options."),
 "C15": ("offline linearizability checker over recorded histories of concurrent processes with injected delays; lock monitors",
   "Sampled rounds of 3 to 10 processes; the file events of each round are recorded by a preloaded library and the distinct interleavings seen are counted. Kernel file operations are trusted."),
 "C16": ("fault injection at every observed file operation (kill, error, short write, full disk) with a before-or-after oracle",
   "Every file operation of each scenario times eight fault modes, size limits enforced by the kernel, and histories of faulted edits. Unsynced data loss at power failure is not simulated."),
 "C17": ("process monitor: output of gc-cycle compared with a reference enumeration filtered by the constraints",
   "Every option with several values on sampled graphs, sampled combinations of options, near-complete graphs, long rings and flowers with long value lists."),
 "C18": ("process monitor: shape of the stored random graph after gc-random, termination watched, runs compared",
   "All small vertex and edge counts, sampled larger ones, and counts that do not fit."),
 "C19": ("process monitor: directory snapshots around gc-clean and gc-random under all kinds of answers",
   "Answers y/yes/no/empty/end of input and many near misses; surroundings with look-alike files. Capital-letter answers are left open."),
 "C20": ("online monitor: attribute mappings compared with map models after every step",
   "Sampled histories on vertex and edge mappings, every key looked up after each step."),
 "C21": ("online monitor: search containers compared with sequence and multiset models",
   "All short push/pop sequences and sampled long ones; elements tracked by identity."),
 "C22": ("process monitor: exit status and directory snapshot for malformed arguments and unusable graphs",
   "A table of malformed values for every option of every command, mixed with valid options. Values whose validity is a matter of taste are left out."),
 "C23": ("process monitor: directory snapshots around every reading command, answers certified under several layouts",
   "Sampled graphs and layouts; all reading commands with several argument sets."),
 "C24": ("monitor of path and cycle values against the plain vertex sequence",
   "All short sequences over a small alphabet and sampled longer ones."),
}
checks = []
for i, (t, n) in sorted(T.items()):
    checks.append(dict(property=i, quick_cmd="./check.sh %s quick" % i, thorough_cmd="./check.sh %s thorough" % i,
        evidence_file="evidence/%s.json" % i, technique="runtime monitoring: " + t,
        level="fault_enumeration" if i == "C16" else "exploration", level_note=n))
m = dict(version=1, setup_cmd="./build.sh", checks=checks, not_applicable=[],
    notes="No hooks in /repo: everything is observed through public interfaces, processes and a preloaded library. "
          "check.sh rebuilds from /repo's working tree (by content) into /verif/build.")
open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "MANIFEST.json"), "w").write(json.dumps(m, indent=1) + "\n")
