//! C08 unconstrained shortest path, C12 single-source tables, C13 maximum flow
use crate::cli::*;
use crate::ctx::{Case, Ctx};
use crate::gen;
use crate::model::*;
use crate::oracle::*;
use crate::util::*;
use gc_core::algorithm::{longest_path, max_flow, shortest_path, topo_sort};
use gc_core::directed_graph::DirectedGraph;
use gc_core::graph::{Edge, VertexId};
use gc_core::path::{Path, ScoredPath};
use gc_core::search::a_star;
use std::collections::{BTreeMap, HashMap};

fn weights(r: &mut Rng, m: &MG, kind: usize) -> W {
    m.edges.iter().map(|e| (*e, gen::weight(r, kind))).collect()
}

fn wshow(w: &W) -> String {
    let mut v: Vec<_> = w.iter().collect();
    v.sort();
    v.iter().take(200).map(|((a, b), x)| format!("{}->{}:{}", a, b, x)).collect::<Vec<_>>().join(" ")
}

fn pv(p: &Path) -> Vec<u64> {
    p.vertices.iter().map(|v| v.0).collect()
}

fn cost_of(w: &W, p: &Path) -> i64 {
    p.vertices.windows(2).map(|x| w.get(&(x[0].0, x[1].0)).cloned().unwrap_or(1 << 50)).sum()
}

/// a real path between s and e with its own cost
fn real_path(c: &Case, m: &MG, w: &W, s: u64, e: u64, sp: &ScoredPath, who: &str) {
    let p = pv(&sp.path);
    c.check(p.first() == Some(&s) && p.last() == Some(&e), || format!("{}: {:?} does not lead from {} to {}", who, p, s, e));
    let k = walk_cost(m, w, &p);
    c.check(k.is_some(), || format!("{}: {:?} uses a missing edge", who, p));
    c.check(k == Some(sp.score as i128), || format!("{}: score {} reported for {:?}, which costs {:?}", who, sp.score, p, k));
}

fn astar(c: &mut Case, m: &MG, g: &DirectedGraph, w: &W, s: u64, e: u64, heur: usize) {
    let mut r = c.rng.clone();
    let best = distances(m, w, s).expect("non-negative").get(&e).cloned();
    // distances to e, for consistent heuristics
    let rev = MG { verts: m.verts.clone(), edges: m.edges.iter().map(|x| (x.1, x.0)).collect() };
    let rw: W = w.iter().map(|(k, v)| ((k.1, k.0), *v)).collect();
    let to: BTreeMap<u64, i128> = if m.verts.contains(&e) { distances(&rev, &rw, e).unwrap() } else { BTreeMap::new() };
    let big = to.values().max().cloned().unwrap_or(0) + 1000;
    let cap = r.range(0, big as i64) as i128;
    let h: HashMap<u64, i64> = m
        .verts
        .iter()
        .map(|v| {
            let d = to.get(v).cloned().unwrap_or(big);
            let x = match heur {
                0 => 0,
                1 => d,
                2 => d / 2,
                3 => d.min(cap),
                _ => d * 3 / 4,
            };
            (*v, x as i64)
        })
        .collect();
    let got = c.guard("shortest_path", || {
        a_star::shortest_path(
            g,
            |_: &DirectedGraph, p: &Path| cost_of(w, p),
            |_: &DirectedGraph, p: &Path| p.last().and_then(|v| h.get(&v.0).cloned()).unwrap_or(0),
            VertexId(s),
            VertexId(e),
        )
    });
    match got {
        None => c.check(best.is_none(), || {
            format!("no path from {} to {} found (heuristic {}), one of cost {} exists", s, e, heur, best.unwrap())
        }),
        Some(sp) => {
            c.check(best.is_some(), || format!("a path {:?} from {} to the unreachable {}", pv(&sp.path), s, e));
            real_path(c, m, w, s, e, &sp, "shortest_path");
            c.check(sp.score as i128 == best.unwrap(), || {
                format!("path {:?} of cost {} (heuristic {}), but the cheapest costs {}", pv(&sp.path), sp.score, heur, best.unwrap())
            });
            c.count("paths checked", 1);
            if sp.path.size() > 2 {
                c.count("paths with intermediate vertices", 1);
            }
        }
    }
    if best.is_none() {
        c.count("unreachable ends", 1);
    }
    c.count(if heur == 0 { "searches without heuristic" } else { "searches with heuristic" }, 1);
}

pub fn c08(ctx: &'static Ctx) {
    ctx.rule(
        "A case counts as distinct and non-trivial when its pair (weighted graph with at least one edge, start vertex) has \
         not been seen. Answers are compared with Bellman-Ford distances over 128-bit integers of an independent model.",
    );
    ctx.require(&[
        "paths with intermediate vertices",
        "unreachable ends",
        "searches with heuristic",
        "searches without heuristic",
        "cli runs",
    ]);
    let run = |c: &mut Case, m: &MG, kind: usize, cli: bool, pairs: usize| {
        let mut r = c.rng.clone();
        if m.n() == 0 {
            return;
        }
        let w = weights(&mut r, m, kind);
        c.desc(format!("{}\nweights: {}", m.show(), wshow(&w)));
        let g = c.guard("building the graph", || m.build(&mut r));
        let l = m.vlist();
        let s = *r.pick(&l);
        if pairs >= l.len() {
            for e in &l {
                astar(c, m, &g, &w, s, *e, 0);
                let h = r.us(1, 4);
                astar(c, m, &g, &w, s, *e, h);
            }
        } else {
            for _ in 0..pairs {
                let e = *r.pick(&l);
                let h = r.us(0, 4);
                astar(c, m, &g, &w, s, e, h);
            }
        }
        // an end that is no vertex
        let mut x = r.u64();
        while m.verts.contains(&x) {
            x = r.u64();
        }
        astar(c, m, &g, &w, s, x, 0);
        if cli {
            let d = Dir::new(c);
            let noise = r.chance(1, 2);
            d.put(lines_of(&m.history(&mut r, noise)).as_bytes());
            for _ in 0..4 {
                let s = *r.pick(&l);
                let e = if r.chance(1, 12) { x } else { *r.pick(&l) };
                let (a, b) = if r.chance(1, 2) { ("-s", "-e") } else { ("--start", "--end") };
                let o = go(c, prog(c.ctx, "gc-short-path").at(&d.root).args(&[a, &s.to_string(), b, &e.to_string()]));
                cert_short(c, &o, m, s, e);
                c.count("cli runs", 1);
            }
        }
        if !m.edges.is_empty() {
            let mut h = mix(m.hash(), s);
            let mut v: Vec<_> = w.iter().collect();
            v.sort();
            for (_, x) in v {
                h = mix(h, *x as u64);
            }
            c.distinct(h);
        }
        c.max("vertices", m.n() as u64);
        c.sample(|| format!("{} from {}", m.show(), s));
    };
    ctx.set_exhaustive_note("all digraphs up to 3 vertices, loop-free with 4 (random weights)");
    ctx.par("all-small", gen::small_count(), |c| {
        let mut r = c.rng.clone();
        let m = gen::small(&mut r, c.idx);
        let k = r.below(5);
        run(c, &m, k, c.idx % 60 == 0, 9);
    });
    ctx.par("shapes", ctx.scale(6000, 120000), |c| {
        let mut r = c.rng.clone();
        let n = gen::size(&mut r, 60);
        let m = gen::graph(&mut r, n);
        let k = r.below(5);
        run(c, &m, k, c.idx % 15 == 0, 10);
    });
    ctx.par("late-shortcut", ctx.scale(1500, 30000), |c| {
        // the direct edge is expensive, longer detours are cheaper
        let mut r = c.rng.clone();
        let n = r.us(4, 14);
        let mut m = MG::new();
        let l = gen::labels(&mut r, n);
        let mut w = W::new();
        for i in 0..n {
            for j in i + 1..n {
                if j == i + 1 || r.chance(1, 2) {
                    m.add_e(l[i], l[j]);
                    let gap = (j - i) as i64;
                    w.insert((l[i], l[j]), gap * gap * r.range(1, 3) + r.range(0, 2));
                }
            }
        }
        c.desc(format!("{}\nweights: {}", m.show(), wshow(&w)));
        let g = c.guard("building the graph", || m.build(&mut r));
        for e in &l {
            let h = r.us(0, 4);
            astar(c, &m, &g, &w, l[0], *e, h);
        }
        c.distinct(mix(m.hash(), w.values().fold(0u64, |a, b| a.wrapping_add(*b as u64))));
    });
    ctx.par("large", ctx.scale(60, 600), |c| {
        let mut r = c.rng.clone();
        let n = r.us(150, 400);
        let m = gen::graph(&mut r, n);
        let k = r.below(5);
        run(c, &m, k, c.idx % 5 == 0, 3);
    });
    ctx.par("deep", ctx.scale(60, 1500), |c| {
        // lanes side by side with links between them: many long paths of different costs
        let mut r = c.rng.clone();
        let (lanes, len) = (r.us(2, 4), *r.pick(&[40usize, 70, 110, 140]));
        let l = gen::labels(&mut r, lanes * len);
        let mut m = MG::new();
        let mut w = W::new();
        for i in 0..len - 1 {
            for a in 0..lanes {
                for b in 0..lanes {
                    if a == b || r.chance(1, 5) {
                        let e = (l[i * lanes + a], l[(i + 1) * lanes + b]);
                        m.add_e(e.0, e.1);
                        let top = if r.chance(1, 3) { 90 } else { 9 };
                        w.insert(e, r.range(1, top));
                    }
                }
            }
            if r.chance(1, 12) && i > 6 {
                // a way back, and a way ahead
                let e = (l[i * lanes], l[r.below(i) * lanes]);
                m.add_e(e.0, e.1);
                w.insert(e, r.range(0, 9));
            }
            if r.chance(1, 12) && i + 6 < len {
                let e = (l[i * lanes], l[r.us(i + 2, len - 1) * lanes]);
                m.add_e(e.0, e.1);
                w.insert(e, r.range(10, 400));
            }
        }
        c.desc(format!("{}\nweights: {}", m.show(), wshow(&w)));
        let g = c.guard("building the graph", || m.build(&mut r));
        for h in 0..5 {
            let t = l[(len - 1 - r.below(3)) * lanes + r.below(lanes)];
            astar(c, &m, &g, &w, l[r.below(lanes)], t, h);
        }
        c.max("vertices", m.n() as u64);
        c.distinct(mix(m.hash(), w.values().fold(0u64, |a, b| a.wrapping_add(*b as u64))));
    });
    ctx.par("very-deep", ctx.scale(6, 100), |c| {
        // paths of well over a thousand vertices, and searches that visit many thousands of vertices
        let mut r = c.rng.clone();
        let wide = c.idx % 2 == 1;
        let n = if wide { r.us(6000, 12000) } else { r.us(1100, 2000) };
        let l = gen::labels(&mut r, n);
        let mut m = MG::new();
        let mut w = W::new();
        let mut depth = vec![0i64; n];
        for i in 1..n {
            let a = if wide { r.below(i).max(r.below(i)) } else { i - 1 };
            let x = r.range(1, 9);
            m.add_e(l[a], l[i]);
            w.insert((l[a], l[i]), x);
            depth[i] = depth[a] + x;
            if !wide && i > 20 && r.chance(1, 20) {
                // a way ahead that does not pay
                let b = i - r.us(2, 20);
                m.add_e(l[b], l[i]);
                w.insert((l[b], l[i]), depth[i] - depth[b] + r.range(0, 3));
            }
        }
        let far = (0..n).max_by_key(|i| depth[*i]).unwrap();
        c.desc(format!("{}\nweights: {}", m.show(), wshow(&w)));
        let g = c.guard("building the graph", || m.build(&mut r));
        astar(c, &m, &g, &w, l[0], l[far], 0);
        astar(c, &m, &g, &w, l[0], l[far], 2);
        if c.idx % 4 < 2 {
            let d = Dir::new(c);
            d.put(lines_of(&m.history(&mut r, false)).as_bytes());
            let o = go(c, prog(c.ctx, "gc-short-path").at(&d.root).args(&["-s", &l[0].to_string(), "-e", &l[far].to_string()]));
            cert_short(c, &o, &m, l[0], l[far]);
            c.count("cli runs", 1);
        }
        c.distinct(mix(m.hash(), w.values().fold(0u64, |a, b| a.wrapping_add(*b as u64))));
        c.max("vertices", n as u64);
    });
    ctx.par("big", ctx.scale(60, 3000), |c| {
        let mut r = c.rng.clone();
        let (m, s, t) = gen::big(&mut r, 520);
        let k = r.below(5);
        let w = weights(&mut r, &m, k);
        c.desc(format!("{}\nweights: {}", m.show(), wshow(&w)));
        let g = c.guard("building the graph", || m.build(&mut r));
        for h in 0..3 {
            astar(c, &m, &g, &w, s, t, h);
        }
        let l = m.vlist();
        let x = *r.pick(&l);
        astar(c, &m, &g, &w, x, t, 0);
        if c.idx % 4 == 0 {
            let d = Dir::new(c);
            d.put(lines_of(&m.history(&mut r, false)).as_bytes());
            let o = go(c, prog(c.ctx, "gc-short-path").at(&d.root).args(&["-s", &s.to_string(), "-e", &t.to_string()]));
            cert_short(c, &o, &m, s, t);
            c.count("cli runs", 1);
        }
        c.distinct(mix(m.hash(), w.values().fold(0u64, |a, b| a.wrapping_add(*b as u64))));
        c.max("vertices", m.n() as u64);
    });
}

// ---------- C12 ----------

fn table(c: &mut Case, m: &MG, w: &W, s: u64, got: &HashMap<VertexId, ScoredPath>, want: &BTreeMap<u64, i128>, who: &str) {
    for (v, sp) in got {
        c.check(want.contains_key(&v.0), || format!("{}: an entry for the unreachable {}", who, v.0));
        real_path(c, m, w, s, v.0, sp, who);
        c.check(want[&v.0] == sp.score as i128, || {
            format!("{}: {} for vertex {}, optimum {}", who, sp.score, v.0, want[&v.0])
        });
        if sp.path.size() > 2 {
            c.count("entries over several edges", 1);
        }
    }
    if let Some(v) = want.keys().find(|v| !got.contains_key(&VertexId(**v))) {
        c.fail(&format!("{}: no entry for the reachable vertex {}", who, v));
    }
    c.count("table entries", got.len() as u64);
}

fn tables(c: &mut Case, m: &MG, w: &W) {
    tables_from(c, m, w, None)
}

fn tables_from(c: &mut Case, m: &MG, w: &W, first: Option<u64>) {
    let mut r = c.rng.clone();
    let l = m.vlist();
    let mut starts: Vec<u64> = if l.len() <= 5 { l.clone() } else { (0..3).map(|_| *r.pick(&l)).collect() };
    if let (Some(s), Some(x)) = (first, starts.first_mut()) {
        *x = s;
    }
    tables_of(c, m, w, starts)
}

fn tables_one(c: &mut Case, m: &MG, w: &W, s: u64) {
    tables_of(c, m, w, vec![s])
}

fn tables_of(c: &mut Case, m: &MG, w: &W, starts: Vec<u64>) {
    let mut r = c.rng.clone();
    if m.n() == 0 {
        return;
    }
    c.desc(format!("{}\nweights: {}", m.show(), wshow(w)));
    let g = c.guard("building the graph", || m.build(&mut r));
    let l = m.vlist();
    let ac = m.acyclic();
    let f = |e: &Edge| w[&((e.0).0, (e.1).0)];
    for s in starts {
        let want = distances(m, w, s);
        let vs = VertexId(s);
        let bf = c.guard("bellman_ford", || shortest_path::bellman_ford(&g, f, vs));
        match (&bf, &want) {
            (None, None) => c.count("negative cycles", 1),
            (Some(_), None) => c.fail(&format!("bellman_ford from {} misses a reachable negative cycle", s)),
            (None, Some(_)) => c.fail(&format!("bellman_ford from {} reports a negative cycle, none is reachable", s)),
            (Some(t), Some(want)) => {
                table(c, m, w, s, t, want, "bellman_ford");
                let t = c.guard("spfa", || shortest_path::spfa(&g, f, vs));
                table(c, m, w, s, &t, want, "spfa");
            }
        }
        if ac {
            let want = want.unwrap();
            let far = longest(m, w, s);
            let dag = || topo_sort::try_dag(&g).unwrap_or_else(|| c.fail("try_dag refuses an acyclic graph"));
            let t = c.guard("dag_shortest_paths", || shortest_path::dag_shortest_paths(dag(), f, vs));
            let t2 = c.guard("dag_longest_paths", || longest_path::dag_longest_paths(dag(), f, vs));
            for _ in 0..3 {
                let e = if r.chance(1, 8) { r.u64() } else { *r.pick(&l) };
                let a = c.guard("dag_shortest_path", || shortest_path::dag_shortest_path(dag(), f, vs, VertexId(e)));
                c.check(a.as_ref().map(|x| x.score as i128) == want.get(&e).cloned(), || {
                    format!("dag_shortest_path({}, {}) = {:?}, expected {:?}", s, e, a, want.get(&e))
                });
                if let Some(sp) = &a {
                    real_path(c, m, w, s, e, sp, "dag_shortest_path");
                }
                let a = c.guard("dag_longest_path", || longest_path::dag_longest_path(dag(), f, vs, VertexId(e)));
                c.check(a.as_ref().map(|x| x.score as i128) == far.get(&e).cloned(), || {
                    format!("dag_longest_path({}, {}) = {:?}, expected {:?}", s, e, a, far.get(&e))
                });
                if let Some(sp) = &a {
                    real_path(c, m, w, s, e, sp, "dag_longest_path");
                }
            }
            table(c, m, w, s, &t, &want, "dag_shortest_paths");
            table(c, m, w, s, &t2, &far, "dag_longest_paths");
            c.count("dag tables", 1);
            if want.len() < m.n() {
                c.count("dag tables with unreachable vertices", 1);
            }
        }
        if w.values().any(|x| *x < 0) && bf.is_some() {
            c.count("tables with negative weights", 1);
        }
    }
    let mut h = m.hash();
    let mut v: Vec<_> = w.iter().collect();
    v.sort();
    for (_, x) in v {
        h = mix(h, *x as u64);
    }
    if !m.edges.is_empty() {
        c.distinct(h);
    }
    c.max("vertices", m.n() as u64);
    c.sample(|| format!("{} weights {}", m.show(), wshow(w)));
}

/// weights without negative cycle, many of them negative: differences of a potential
fn potential(r: &mut Rng, m: &MG) -> W {
    let p: HashMap<u64, i64> = m.verts.iter().map(|v| (*v, r.range(-50, 50))).collect();
    m.edges.iter().map(|e| (*e, if e.0 == e.1 { r.range(0, 3) } else { r.range(0, 6) + p[&e.1] - p[&e.0] })).collect()
}

pub fn c12(ctx: &'static Ctx) {
    ctx.rule(
        "A case counts as distinct and non-trivial when its weighted graph (at least one edge) has not been seen. Every \
         entry of every table is compared with distances over 128-bit integers of an independent model, and its path is \
         walked on the model.",
    );
    ctx.assume("the queue-based variant is only asked where no negative cycle is reachable: its documentation excludes the other case");
    ctx.require(&[
        "entries over several edges",
        "negative cycles",
        "dag tables",
        "tables that take many passes",
        "dag tables with unreachable vertices",
        "tables with negative weights",
    ]);
    ctx.set_exhaustive_note("all digraphs up to 3 vertices, loop-free with 4 (random weights)");
    ctx.par("all-small", gen::small_count() * ctx.scale(2, 10), |c| {
        let mut r = c.rng.clone();
        let m = gen::small(&mut r, c.idx % gen::small_count());
        let k = r.below(8);
        let w = if r.chance(1, 3) { potential(&mut r, &m) } else { weights(&mut r, &m, k) };
        tables(c, &m, &w);
    });
    ctx.par("shapes", ctx.scale(6000, 100000), |c| {
        let mut r = c.rng.clone();
        let n = gen::size(&mut r, 50);
        let m = gen::graph(&mut r, n);
        let k = r.below(8);
        let w = if r.chance(1, 2) { potential(&mut r, &m) } else { weights(&mut r, &m, k) };
        tables(c, &m, &w);
    });
    ctx.par("dags", ctx.scale(4000, 80000), |c| {
        let mut r = c.rng.clone();
        let n = gen::size(&mut r, 50);
        let mut m = gen::graph(&mut r, n);
        let mut ord = m.vlist();
        r.shuffle(&mut ord);
        let pos: HashMap<u64, usize> = ord.iter().enumerate().map(|(i, v)| (*v, i)).collect();
        m.edges = m.edges.iter().filter(|e| pos[&e.0] < pos[&e.1]).cloned().collect();
        let k = r.below(8);
        let w = weights(&mut r, &m, k);
        tables(c, &m, &w);
    });
    ctx.par("one-negative-cycle", ctx.scale(3000, 50000), |c| {
        // exactly one cycle is negative or zero, reachable or not, through long chains
        let mut r = c.rng.clone();
        let n = r.us(3, 14);
        let tail = r.us(0, n - 2);
        let mut e: Vec<(usize, usize)> = (1..n).map(|i| (i - 1, i)).collect();
        e.push((n - 1, tail));
        for _ in 0..r.us(0, 4) {
            let (a, b) = (r.below(n), r.below(n));
            if a < b {
                e.push((a, b));
            }
        }
        e.sort();
        e.dedup();
        let m = gen::relabel(&mut r, n, &e);
        let mut w = potential(&mut r, &m);
        // lower one edge so that the cycle total becomes small, zero or negative
        let all = cycles(&m, 100_000).unwrap_or_default();
        if let Some(k) = all.iter().next() {
            let tot: i64 = (0..k.len()).map(|i| w[&(k[i], k[(i + 1) % k.len()])]).sum();
            let i = r.below(k.len());
            let x = w.get_mut(&(k[i], k[(i + 1) % k.len()])).unwrap();
            *x -= tot + r.range(-1, 1);
        }
        tables(c, &m, &w);
    });
    ctx.par("large", ctx.scale(40, 400), |c| {
        let mut r = c.rng.clone();
        let n = r.us(80, 250);
        let m = gen::graph(&mut r, n);
        let w = potential(&mut r, &m);
        tables(c, &m, &w);
    });
    ctx.par("many-passes", ctx.scale(3, 60), |c| {
        // more hops are always cheaper, so that an entry is improved again and again
        let mut r = c.rng.clone();
        let n = r.us(60, 200);
        let lb = gen::labels(&mut r, n);
        let mut m = MG::new();
        let mut w = W::new();
        let unit = *r.pick(&[1, 2, 1000]);
        let k = if r.chance(1, 2) { 0 } else { n as i64 };
        for i in 0..n {
            for j in i + 1..n {
                m.add_e(lb[i], lb[j]);
                w.insert((lb[i], lb[j]), (j - i) as i64 * k - unit);
            }
        }
        if r.chance(1, 3) {
            // and a way back that is just not negative
            m.add_e(lb[n - 1], lb[0]);
            let back = (n as i64 - 1) * (unit - k);
            w.insert((lb[n - 1], lb[0]), back);
        }
        tables_one(c, &m, &w, lb[0]);
        c.count("tables that take many passes", 1);
    });
    ctx.par("big", ctx.scale(20, 800), |c| {
        let mut r = c.rng.clone();
        let (mut m, s, _) = gen::big(&mut r, 300);
        if r.chance(1, 2) {
            m.edges = m.edges.iter().filter(|e| e.0 < e.1).cloned().collect();
        }
        let w = potential(&mut r, &m);
        tables_from(c, &m, &w, Some(s));
    });
}

// ---------- C13 ----------

fn flow(c: &mut Case, m: &MG, cap: &HashMap<(u64, u64), u64>, s: u64, t: u64) {
    let mut r = c.rng.clone();
    let mut v: Vec<_> = cap.iter().collect();
    v.sort();
    c.desc(format!(
        "{}\nfrom {} to {}\ncapacities: {}",
        m.show(),
        s,
        t,
        v.iter().take(300).map(|((a, b), x)| format!("{}->{}:{}", a, b, x)).collect::<Vec<_>>().join(" ")
    ));
    let g = c.guard("building the graph", || m.build(&mut r));
    let (value, fl) = c.guard("max_flow", || {
        max_flow::max_flow(&g, |e: &Edge| cap[&((e.0).0, (e.1).0)], VertexId(s), VertexId(t))
    });
    c.check(fl.len() == m.edges.len(), || format!("{} edges in the flow, {} in the graph", fl.len(), m.edges.len()));
    let mut net: HashMap<u64, i128> = HashMap::new();
    let mut used = 0;
    for (e, (f, k)) in &fl {
        let key = ((e.0).0, (e.1).0);
        c.check(m.edges.contains(&key), || format!("flow on the missing edge {}->{}", key.0, key.1));
        c.check(*k == cap[&key], || format!("edge {:?}: capacity {} reported, it is {}", key, k, cap[&key]));
        c.check(f <= k, || format!("edge {:?}: flow {} above the capacity {}", key, f, k));
        *net.entry(key.0).or_insert(0) += *f as i128;
        *net.entry(key.1).or_insert(0) -= *f as i128;
        if *f > 0 {
            used += 1;
        }
    }
    for (x, d) in &net {
        if *x != s && *x != t {
            c.check(*d == 0, || format!("vertex {} does not conserve flow: surplus {}", x, d));
        }
    }
    let out = net.get(&s).cloned().unwrap_or(0);
    c.check(out == value as i128, || format!("value {} reported, net outflow of the source is {}", value, out));
    let cut = min_cut(m, cap, s, t);
    c.check(value as u128 == cut, || format!("value {}, a minimum cut has capacity {}", value, cut));
    c.count("flows", 1);
    if value > 0 {
        c.count("positive flows", 1);
    }
    if used > 3 {
        c.count("flows over more than 3 edges", 1);
    }
    c.max("flow value", value);
    if value >= 1 << 62 {
        c.count("flows of extreme value", 1);
    }
    c.max("vertices", m.n() as u64);
    if !m.edges.is_empty() {
        let mut h = mix(mix(m.hash(), s), t);
        for (_, x) in v {
            h = mix(h, *x);
        }
        c.distinct(h);
    }
    c.sample(|| format!("{} from {} to {}: {}", m.show(), s, t, value));
}

fn caps(r: &mut Rng, m: &MG) -> HashMap<(u64, u64), u64> {
    let k = r.below(6);
    m.edges
        .iter()
        .map(|e| {
            let x = match k {
                0 => 1,
                1 => r.range(0, 3),
                2 => r.range(1, 10),
                3 => r.range(0, 1000),
                4 => *r.pick(&[0, 1, 1 << 33, (1 << 40) + 3, 5]),
                _ => *r.pick(&[0, 0, 1, 2, 7]),
            };
            (*e, x as u64)
        })
        .collect()
}

pub fn c13(ctx: &'static Ctx) {
    ctx.rule(
        "A case counts as distinct and non-trivial when its tuple (graph with at least one edge, capacities, source, sink) \
         has not been seen. The flow is checked edge by edge and vertex by vertex, and its value against the capacity of a \
         minimum cut computed by an independent algorithm.",
    );
    ctx.require(&["positive flows", "flows over more than 3 edges", "flows through a cancelling network", "flows of extreme value"]);
    let pick2 = |r: &mut Rng, m: &MG| -> Option<(u64, u64)> {
        let l = m.vlist();
        if l.len() < 2 {
            return None;
        }
        let a = r.below(l.len());
        let b = (a + 1 + r.below(l.len() - 1)) % l.len();
        Some((l[a], l[b]))
    };
    ctx.set_exhaustive_note("all digraphs up to 3 vertices, loop-free with 4 (random capacities)");
    ctx.par("all-small", gen::small_count(), |c| {
        let mut r = c.rng.clone();
        let m = gen::small(&mut r, c.idx);
        for _ in 0..3 {
            if let Some((s, t)) = pick2(&mut r, &m) {
                let k = caps(&mut r, &m);
                flow(c, &m, &k, s, t);
            }
        }
    });
    ctx.par("shapes", ctx.scale(5000, 80000), |c| {
        let mut r = c.rng.clone();
        let n = gen::size(&mut r, 24);
        let m = gen::graph(&mut r, n);
        if let Some((s, t)) = pick2(&mut r, &m) {
            let k = caps(&mut r, &m);
            flow(c, &m, &k, s, t);
        }
    });
    ctx.par("layered", ctx.scale(5000, 80000), |c| {
        let mut r = c.rng.clone();
        let layers = r.us(1, 4);
        let width = r.us(1, 4);
        let n = layers * width + 2;
        let id = |l: usize, i: usize| 2 + l * width + i;
        let mut e = vec![];
        for i in 0..width {
            e.push((0, id(0, i)));
            e.push((id(layers - 1, i), 1));
        }
        for l in 1..layers {
            for i in 0..width {
                for j in 0..width {
                    if r.chance(1, 2) {
                        e.push((id(l - 1, i), id(l, j)));
                    }
                    if r.chance(1, 8) {
                        e.push((id(l, j), id(l - 1, i)));
                    }
                }
            }
        }
        for _ in 0..r.us(0, 4) {
            e.push((r.below(n), r.below(n)));
        }
        e.sort();
        e.dedup();
        let lb = gen::labels(&mut r, n);
        let mut m = MG::new();
        for v in &lb {
            m.add_v(*v);
        }
        for (a, b) in &e {
            m.add_e(lb[*a], lb[*b]);
        }
        let k = caps(&mut r, &m);
        flow(c, &m, &k, lb[0], lb[1]);
    });
    ctx.par("cancelling", ctx.scale(3000, 50000), |c| {
        // short first path blocks the optimum: flow has to be pushed back
        let mut r = c.rng.clone();
        let k = r.us(1, 4);
        // s -> a1..ak ; ai -> bi (the tempting edge) ; bi -> t ; detours make the greedy choice wrong
        let n = 2 + 4 * k;
        let mut e = vec![];
        for i in 0..k {
            let (a, b, x, y) = (2 + 4 * i, 3 + 4 * i, 4 + 4 * i, 5 + 4 * i);
            e.extend_from_slice(&[(0, a), (a, b), (b, 1), (a, x), (x, 1), (0, y), (y, b)]);
            if r.chance(1, 2) {
                // longer detours, so that the breadth-first search takes the middle edge first
                e.retain(|z| *z != (a, x) && *z != (y, b));
                e.push((a, x));
                e.push((y, b));
                if i + 1 < k {
                    e.push((x, 2 + 4 * (i + 1)));
                }
            }
        }
        e.sort();
        e.dedup();
        let lb = gen::labels(&mut r, n);
        let mut m = MG::new();
        for (a, b) in &e {
            m.add_e(lb[*a], lb[*b]);
        }
        let cp = if r.chance(1, 2) { m.edges.iter().map(|e| (*e, 1)).collect() } else { caps(&mut r, &m) };
        flow(c, &m, &cp, lb[0], lb[1]);
        c.count("flows through a cancelling network", 1);
    });
    ctx.par("extreme", ctx.scale(600, 10000), |c| {
        // capacities up to the largest number, as long as the value fits
        let mut r = c.rng.clone();
        let n = r.us(2, 9);
        let mut m = gen::graph(&mut r, n);
        let (s, t) = match pick2(&mut r, &m) {
            Some(x) => x,
            None => return,
        };
        if m.reach(s).get(&t).is_none() {
            m.add_e(s, t);
        }
        let top = *r.pick(&[u64::MAX, 1 << 63, (1 << 63) - 1, 1 << 62]);
        let mut k: HashMap<(u64, u64), u64> = m
            .edges
            .iter()
            .map(|e| {
                let x = match r.below(6) {
                    0 => top,
                    1 => top - 1,
                    2 => top / 2,
                    3 => u64::MAX,
                    4 => r.u64(),
                    _ => r.u64() >> 32,
                };
                (*e, x)
            })
            .collect();
        while min_cut(&m, &k, s, t) > u64::MAX as u128 {
            k.values_mut().for_each(|x| *x -= *x / 3);
        }
        flow(c, &m, &k, s, t);
    });
    ctx.par("larger", ctx.scale(60, 800), |c| {
        let mut r = c.rng.clone();
        let n = r.us(25, 60);
        let m = gen::graph(&mut r, n);
        if let Some((s, t)) = pick2(&mut r, &m) {
            let k = caps(&mut r, &m);
            flow(c, &m, &k, s, t);
        }
    });
    ctx.par("many-rounds", ctx.scale(8, 60), |c| {
        // after Zadeh: unit edges between two sides are filled, emptied and filled again through ever longer
        // ways in and out, so that far more augmentations are needed than the network has edges
        let mut r = c.rng.clone();
        let k = r.us(4, 7);
        let phases = r.us(8, 14);
        let side = |b: bool, i: usize| if b { k + i } else { i };
        let way_in = |d: usize| 2 * k + d; // way_in(0) is the source
        let out_base = 2 * k + 2 * phases;
        let depth = 2 * phases;
        let way_out = |d: usize| out_base + d; // way_out(0) is the sink
        let n = out_base + depth + 1;
        let huge = 1u64 << 40;
        let mut e: Vec<(usize, usize, u64)> = vec![];
        for i in 0..k {
            for j in 0..k {
                e.push((side(false, i), side(true, j), 1));
            }
        }
        for p in 0..phases {
            e.push((way_in(2 * p), way_in(2 * p + 1), huge));
            if p > 0 {
                e.push((way_in(2 * p - 1), way_in(2 * p), huge));
            }
            let forward = p % 2 == 0;
            for i in 0..k {
                e.push((way_in(2 * p), side(!forward, i), k as u64));
                e.push((side(forward, i), way_out(2 * p + 1), k as u64));
            }
        }
        for d in 1..=depth {
            e.push((way_out(d), way_out(d - 1), huge));
        }
        let lb = gen::labels(&mut r, n);
        let mut m = MG::new();
        let mut cap = HashMap::new();
        r.shuffle(&mut e);
        for (a, b, x) in &e {
            m.add_e(lb[*a], lb[*b]);
            cap.insert((lb[*a], lb[*b]), *x);
        }
        flow(c, &m, &cap, lb[way_in(0)], lb[way_out(0)]);
        c.count("flows that need many augmentations", 1);
    });
    ctx.par("big", ctx.scale(20, 1000), |c| {
        let mut r = c.rng.clone();
        let (m, s, t) = gen::big(&mut r, 130);
        if s != t {
            let k = caps(&mut r, &m);
            flow(c, &m, &k, s, t);
        }
    });
}
