//! C04 traversals, C05 simple paths, C06 topological order
use crate::cli::*;
use crate::ctx::{Case, Ctx};
use crate::gen;
use crate::model::*;
use crate::oracle::*;
use crate::util::*;
use gc_core::algorithm::{hamiltonian, topo_sort};
use gc_core::directed_graph::DirectedGraph;
use gc_core::graph::VertexId;
use gc_core::iter::{iter_best, iter_breadth, iter_depth};
use gc_core::path::Path;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};

/// takes at most `max`+1 items (an iterator that goes on for ever is cut there)
/// all that the iterator produces, also when it is asked again after its end
pub fn limited<I: Iterator>(mut it: I, max: usize) -> Vec<I::Item> {
    let mut out = vec![];
    let mut ends = 0;
    while ends < 3 && out.len() <= max {
        match it.next() {
            Some(x) => out.push(x),
            None => ends += 1,
        }
    }
    out
}

fn cover(c: &Case, got: &[u64], reach: &BTreeMap<u64, usize>, who: &str) {
    let mut seen = HashSet::new();
    for v in got {
        c.check(reach.contains_key(v), || format!("{}: {} is not reachable", who, v));
        c.check(seen.insert(*v), || format!("{}: {} twice in {:?}", who, v, &got[..got.len().min(80)]));
    }
    c.check(got.len() == reach.len(), || {
        let miss: Vec<_> = reach.keys().filter(|v| !seen.contains(*v)).take(5).collect();
        format!("{}: {} of {} reachable vertices; missing {:?}", who, got.len(), reach.len(), miss)
    });
}

fn bfs(c: &mut Case, m: &MG, g: &DirectedGraph, s: u64, from_head: bool) {
    let reach = m.reach(s);
    let got: Vec<u64> = c.guard("bfs", || {
        if from_head {
            limited(iter_breadth::bfs_iter(g), m.n()).iter().map(|v| v.0).collect()
        } else {
            limited(iter_breadth::bfs_iter_from(g, VertexId(s)), m.n()).iter().map(|v| v.0).collect()
        }
    });
    c.check(got.first() == Some(&s), || format!("bfs from {} starts with {:?}", s, got.first()));
    cover(c, &got, &reach, "breadth-first");
    for w in got.windows(2) {
        c.check(reach[&w[0]] <= reach[&w[1]], || {
            format!("breadth-first from {}: {} (distance {}) before {} (distance {})", s, w[0], reach[&w[0]], w[1], reach[&w[1]])
        });
    }
    c.count("bfs vertices", got.len() as u64);
}

fn dfs(c: &mut Case, m: &MG, g: &DirectedGraph, s: u64, from_head: bool) {
    let reach = m.reach(s);
    let adj = m.adj();
    let got: Vec<u64> = c.guard("dfs", || {
        if from_head {
            limited(iter_depth::dfs_iter(g), m.n()).iter().map(|v| v.0).collect()
        } else {
            limited(iter_depth::dfs_iter_from(g, VertexId(s)), m.n()).iter().map(|v| v.0).collect()
        }
    });
    c.check(got.first() == Some(&s), || format!("dfs from {} starts with {:?}", s, got.first()));
    cover(c, &got, &reach, "depth-first");
    let mut seen: HashSet<u64> = HashSet::new();
    let mut stack: Vec<u64> = vec![];
    for v in &got {
        while let Some(t) = stack.last() {
            if adj[t].iter().all(|x| seen.contains(x)) {
                stack.pop();
            } else {
                break;
            }
        }
        if let Some(t) = stack.last() {
            c.check(m.edges.contains(&(*t, *v)), || {
                format!("depth-first from {}: {} follows, but {} still had an unvisited successor; order {:?}", s, v, t, &got[..got.len().min(80)])
            });
        }
        seen.insert(*v);
        stack.push(*v);
    }
    c.count("dfs vertices", got.len() as u64);
}

fn best(c: &mut Case, m: &MG, g: &DirectedGraph, s: u64, r: &mut Rng) {
    let reach = m.reach(s);
    let adj = m.adj();
    let kind = r.below(10);
    let salt = r.u64();
    let mut w: HashMap<(u64, u64), i64> = HashMap::new();
    for e in &m.edges {
        w.insert(*e, gen::weight(r, kind));
    }
    // kind 8: a score that is an arbitrary function of the whole path
    let score = |p: &[u64]| -> i64 {
        if kind == 9 {
            // the ends of the score range
            let h = p.iter().fold(salt, |h, x| mix(h, *x));
            [i64::MIN, i64::MAX, i64::MIN + 1, i64::MAX - 1, 0, 1 << 40][(h % 6) as usize]
        } else if kind == 8 {
            let h = p.iter().fold(salt, |h, x| mix(h, *x));
            (h % 41) as i64 - 20
        } else {
            p.windows(2).map(|x| w.get(&(x[0], x[1])).cloned().unwrap_or(0)).sum::<i64>()
        }
    };
    let sf = |_: &DirectedGraph, p: &Path| -> i64 {
        let v: Vec<u64> = p.vertices.iter().map(|x| x.0).collect();
        score(&v)
    };
    c.add_desc(&format!("best-first from {}, score kind {} salt {}, weights {:?}", s, kind, salt, w));
    let got = c.guard("best-first", || limited(iter_best::best_iter_from(g, sf, VertexId(s)), m.n()));
    let ends: Vec<u64> = got.iter().filter_map(|sp| sp.path.last().map(|v| v.0)).collect();
    c.check(ends.len() == got.len(), || "an empty path".into());
    cover(c, &ends, &reach, "best-first");
    let mut done: HashMap<u64, Vec<u64>> = HashMap::new();
    let mut frontier: HashMap<u64, i64> = HashMap::new();
    frontier.insert(s, score(&[s]));
    for sp in &got {
        let p: Vec<u64> = sp.path.vertices.iter().map(|v| v.0).collect();
        let v = *p.last().unwrap();
        c.check(p[0] == s, || format!("path {:?} does not start at {}", p, s));
        for x in p.windows(2) {
            c.check(m.edges.contains(&(x[0], x[1])), || format!("path {:?} uses the missing edge {}->{}", p, x[0], x[1]));
        }
        c.check(sp.score == score(&p), || format!("score {} given for {:?}, which scores {}", sp.score, p, score(&p)));
        let low = *frontier.values().min().unwrap();
        c.check(sp.score == low, || {
            format!("best-first takes {:?} with score {}, but a known candidate scores {}", p, sp.score, low)
        });
        frontier.remove(&v);
        done.insert(v, p.clone());
        for x in &adj[&v] {
            if !done.contains_key(x) {
                let mut q = p.clone();
                q.push(*x);
                let sc = score(&q);
                let e = frontier.entry(*x).or_insert(sc);
                *e = (*e).min(sc);
            }
        }
    }
    c.count("best-first paths", got.len() as u64);
}

pub fn c04(ctx: &'static Ctx) {
    ctx.rule(
        "all graphs with up to 3 vertices (self-loops included) and all loop-free ones with 4, and graphs of many \
         shapes and sizes, traversed from every or several starts; order judged step by step by an online \
         checker; distinct = distinct graphs by content",
    );
    ctx.require(&["bfs vertices", "dfs vertices", "best-first paths", "graphs with an unreachable part"]);
    let run = |c: &mut Case, m: &MG, first: Option<u64>, starts: usize| {
        let mut r = c.rng.clone();
        let mut rb = Rng::new(r.u64(), 1, 2);
        let g = m.build(&mut r);
        let mut vs = m.vlist();
        r.shuffle(&mut vs);
        if let Some(s) = first {
            vs.retain(|v| *v != s);
            vs.insert(0, s);
        }
        for s in vs.iter().take(starts) {
            c.desc(format!("{}\nstart {}", m.show(), s));
            if m.reach(*s).len() < m.n() {
                c.count("graphs with an unreachable part", 1);
            }
            bfs(c, m, &g, *s, false);
            dfs(c, m, &g, *s, false);
            best(c, m, &g, *s, &mut rb);
        }
        c.desc(format!("{}\nstart: the graph's own choice", m.show()));
        match g.head_option() {
            None => {
                c.check(iter_breadth::bfs_iter(&g).next().is_none(), || "bfs of an empty graph".into());
                c.check(iter_depth::dfs_iter(&g).next().is_none(), || "dfs of an empty graph".into());
            }
            Some(_) => {
                let b0 = iter_breadth::bfs_iter(&g).next().map(|v| v.0);
                let d0 = iter_depth::dfs_iter(&g).next().map(|v| v.0);
                for x in [b0, d0].iter() {
                    c.check(x.map(|v| m.verts.contains(&v)).unwrap_or(false), || format!("traversal starts at {:?}", x));
                }
                bfs(c, m, &g, b0.unwrap(), true);
                dfs(c, m, &g, d0.unwrap(), true);
            }
        }
        c.distinct(m.hash());
        c.max("vertices", m.n() as u64);
        c.sample(|| m.show());
    };
    ctx.set_exhaustive_note("all digraphs up to 3 vertices, loop-free with 4");
    ctx.par("all-small", gen::small_count(), |c| {
        let mut r = c.rng.clone();
        let m = gen::small(&mut r, c.idx);
        run(c, &m, None, 4);
    });
    ctx.par("shapes", ctx.scale(5000, 80000), |c| {
        let mut r = c.rng.clone();
        let n = gen::size(&mut r, 130).max(1);
        let m = gen::graph(&mut r, n);
        run(c, &m, None, if n < 12 { 12 } else { 3 });
    });
    ctx.par("large", ctx.scale(24, 300), |c| {
        let mut r = c.rng.clone();
        let n = r.us(300, 1200);
        let m = gen::graph(&mut r, n);
        run(c, &m, None, 1);
    });
    ctx.par("big", ctx.scale(40, 2000), |c| {
        let mut r = c.rng.clone();
        let (m, s, _) = gen::big(&mut r, 1100);
        run(c, &m, Some(s), 2);
    });
    ctx.par("huge", ctx.scale(8, 80), |c| {
        let mut r = c.rng.clone();
        let n = *r.pick(&[2049usize, 3000, 4097, 5000]);
        let mut e: Vec<(usize, usize)> = match c.idx % 4 {
            0 => (1..n).map(|i| (i - 1, i)).collect(),
            1 => (1..n).map(|i| (0, i)).collect(),
            2 => (1..n).map(|i| (r.below(i), i)).collect(),
            _ => (0..n).map(|i| (i, (i + 1) % n)).collect(),
        };
        if r.chance(1, 2) {
            e.extend(gen::random_edges(&mut r, n, n));
        }
        let m = gen::relabel(&mut r, n, &e);
        run(c, &m, None, 1);
    });
    // far beyond what a call stack of the usual size holds
    ctx.par("very-deep", ctx.scale(2, 40), |c| {
        let mut r = c.rng.clone();
        let m = deep(&mut r, c.idx);
        let g = m.build(&mut r);
        let vs = m.vlist();
        let s = *r.pick(&vs);
        let entered: HashSet<u64> = m.edges.iter().map(|e| e.1).collect();
        let top = *vs.iter().find(|v| !entered.contains(*v)).unwrap_or(&s);
        c.desc(format!("{} vertices\nstart {}", m.n(), top));
        bfs(c, &m, &g, top, false);
        dfs(c, &m, &g, top, false);
        c.distinct(m.hash());
        c.max("vertices", m.n() as u64);
    });
}

/// tens of thousands of vertices: chain, ring, random tree, chain with branches
fn deep(r: &mut Rng, k: u64) -> MG {
    let n = r.us(35_000, 50_000);
    let e: Vec<(usize, usize)> = match k % 4 {
        0 => (1..n).map(|i| (i - 1, i)).collect(),
        1 => (0..n).map(|i| (i, (i + 1) % n)).collect(),
        2 => (1..n).map(|i| (r.below(i), i)).collect(),
        _ => (1..n).map(|i| (if i % 5 == 0 { i - 1 - r.below(3).min(i - 1) } else { i - 1 }, i)).collect(),
    };
    gen::relabel(r, n, &e)
}

pub fn c05(ctx: &'static Ctx) {
    ctx.rule(
        "all small graphs and graphs of many shapes with a bounded number of simple paths; the enumerations from \
         every start compared with a brute-force enumeration; distinct = distinct graphs by content",
    );
    ctx.require(&["paths enumerated", "hamiltonian paths", "graphs without hamiltonian path", "graphs with hamiltonian path"]);
    let run = |c: &mut Case, m: &MG, limit: usize, starts: usize| {
        let mut r = c.rng.clone();
        let g = m.build(&mut r);
        let mut vs = m.vlist();
        r.shuffle(&mut vs);
        let mut nontrivial = false;
        for s in vs.iter().take(starts) {
            let all = match simple_paths(m, *s, limit) {
                Some(a) => a,
                None => {
                    c.count("skipped: too many simple paths", 1);
                    continue;
                }
            };
            nontrivial = true;
            let want: HashSet<Vec<u64>> = all.iter().cloned().collect();
            for depth in [false, true].iter() {
                let who = if *depth { "depth-first paths" } else { "breadth-first paths" };
                c.desc(format!("{}\nstart {}, {}", m.show(), s, who));
                let got: Vec<Vec<u64>> = c.guard(who, || {
                    let conv = |p: Path| -> Vec<u64> { p.vertices.iter().map(|v| v.0).collect() };
                    if *depth {
                        limited(iter_depth::dfs_iter_path_from(&g, VertexId(*s)), want.len()).into_iter().map(conv).collect()
                    } else {
                        limited(iter_breadth::bfs_path_iter_from(&g, VertexId(*s)), want.len()).into_iter().map(conv).collect()
                    }
                });
                let mut seen: HashSet<&Vec<u64>> = HashSet::new();
                let mut last = 0;
                for p in &got {
                    c.check(want.contains(p), || format!("{}: {:?} is not a simple path from {}", who, p, s));
                    c.check(seen.insert(p), || format!("{}: {:?} twice", who, p));
                    if p.len() > 1 {
                        c.check(seen.contains(&p[..p.len() - 1].to_vec()), || {
                            format!("{}: {:?} before its prefix", who, p)
                        });
                    }
                    if !depth {
                        c.check(p.len() >= last, || format!("{}: {:?} after a longer path", who, p));
                        last = p.len();
                    }
                }
                c.check(got.len() == want.len(), || {
                    let miss = want.iter().find(|p| !seen.contains(p));
                    format!("{}: {} of {} simple paths, missing e.g. {:?}", who, got.len(), want.len(), miss)
                });
                c.count("paths enumerated", got.len() as u64);
            }
        }
        // Hamiltonian paths
        c.desc(format!("{}\nhamiltonian paths", m.show()));
        if simple_path_total(m, limit).is_some() {
            let want: BTreeSet<Vec<u64>> = m
                .verts
                .iter()
                .flat_map(|v| simple_paths(m, *v, limit).unwrap())
                .filter(|p| p.len() == m.n())
                .collect();
            let got: Vec<Vec<u64>> = c.guard("iter_hamiltonian_paths", || {
                hamiltonian::iter_hamiltonian_paths(&g)
                    .take(want.len() + 1)
                    .map(|p| p.vertices.iter().map(|v| v.0).collect())
                    .collect()
            });
            let set = as_set(&got);
            c.check(set == want && got.len() == want.len(), || {
                format!(
                    "hamiltonian paths: {} given ({} distinct), {} exist; unexpected {:?}, missing {:?}",
                    got.len(),
                    set.len(),
                    want.len(),
                    set.difference(&want).next(),
                    want.difference(&set).next()
                )
            });
            let first = c.guard("first_path", || hamiltonian::first_path(&g));
            match &first {
                None => c.check(want.is_empty(), || "first_path finds none".into()),
                Some(p) => {
                    let v: Vec<u64> = p.vertices.iter().map(|x| x.0).collect();
                    c.check(want.contains(&v), || format!("first_path gives {:?}", v))
                }
            }
            let is = c.guard("is_hamiltonian", || hamiltonian::is_hamiltonian(&g));
            c.check(is == (m.n() == 0 || !want.is_empty()), || format!("is_hamiltonian = {}", is));
            c.count("hamiltonian paths", want.len() as u64);
            c.count(if want.is_empty() { "graphs without hamiltonian path" } else { "graphs with hamiltonian path" }, 1);
            // the test of a given path
            let mut probes: Vec<Vec<u64>> = want.iter().take(3).cloned().collect();
            if let Some(v) = m.verts.iter().next() {
                probes.push(vec![*v]);
                let mut p: Vec<u64> = simple_paths(m, *v, limit).unwrap().pop().unwrap();
                probes.push(p.clone());
                // a walk that repeats a vertex, of the same number of vertices as the graph
                while p.len() < m.n() {
                    let o = m.out(*p.last().unwrap());
                    if o.is_empty() {
                        break;
                    }
                    p.push(*r.pick(&o));
                }
                probes.push(p);
            }
            for p in probes {
                let d: HashSet<&u64> = p.iter().collect();
                let exp = d.len() == p.len() && p.len() == m.n();
                let got = c.guard("is_path_hamiltonian", || hamiltonian::is_path_hamiltonian(&Path::from(&vids(&p)), &g));
                c.check(got == exp, || format!("is_path_hamiltonian({:?}) = {}", p, got));
            }
        }
        if nontrivial || m.n() == 0 {
            c.distinct(m.hash());
        }
        c.max("vertices", m.n() as u64);
        c.sample(|| m.show());
    };
    ctx.set_exhaustive_note("all digraphs up to 3 vertices, loop-free with 4");
    ctx.par("all-small", gen::small_count(), |c| {
        let mut r = c.rng.clone();
        let m = gen::small(&mut r, c.idx);
        run(c, &m, 1000, 4);
    });
    ctx.par("shapes", ctx.scale(3000, 50000), |c| {
        let mut r = c.rng.clone();
        let n = match r.below(6) {
            0..=3 => r.us(2, 8),
            _ => gen::size(&mut r, 70).max(1),
        };
        let m = gen::graph(&mut r, n);
        run(c, &m, 4000, if n <= 8 { 8 } else { 2 });
    });
    ctx.par("long", ctx.scale(30, 300), |c| {
        // long chains, large stars and trees
        let mut r = c.rng.clone();
        let n = r.us(100, 400);
        let e: Vec<(usize, usize)> = match r.below(4) {
            0 => (1..n).map(|i| (i - 1, i)).collect(),
            1 => (0..n).map(|i| (i, (i + 1) % n)).collect(),
            2 => (1..n).map(|i| (0, i)).collect(),
            _ => (1..n).map(|i| (i / 2, i)).collect(),
        };
        let m = gen::relabel(&mut r, n, &e);
        run(c, &m, 3000, 2);
    });
    ctx.par("dense", ctx.scale(12, 100), |c| {
        let mut r = c.rng.clone();
        let n = if c.idx % 4 == 0 { 8 } else { r.us(6, 7) };
        let mut e = vec![];
        for a in 0..n {
            for b in 0..n {
                if r.chance(9, 10) {
                    e.push((a, b));
                }
            }
        }
        let m = gen::relabel(&mut r, n, &e);
        run(c, &m, 150000, 1);
    });
}

pub fn c06(ctx: &'static Ctx) {
    ctx.rule(
        "all small graphs and graphs of many shapes, acyclic and cyclic (cycles hidden behind long acyclic parts, \
         self-loops, several components), sorted by the library and by gc-topo-sort; the order is certified edge by \
         edge; distinct = distinct graphs by content",
    );
    ctx.require(&["orders", "refusals", "cli runs"]);
    let run = |c: &mut Case, m: &MG, cli: bool| {
        let mut r = c.rng.clone();
        c.desc(m.show());
        let g = m.build(&mut r);
        let o = c.guard("topological_sort", || topo_sort::topological_sort(&g));
        let v: Option<Vec<u64>> = o.map(|x| x.iter().map(|y| y.0).collect());
        cert_order(c, v.as_deref(), m, "topological_sort");
        let ac = m.acyclic();
        let isd = c.guard("is_dag", || topo_sort::is_dag(&g));
        c.check(isd == ac, || format!("is_dag = {}", isd));
        let t = c.guard("try_dag", || topo_sort::try_dag(&g).map(|d| of_real(d.as_graph())));
        c.check(t.is_some() == ac, || format!("try_dag gives {}", t.is_some()));
        if let Some(t) = t {
            c.check(t == *m, || "the DAG marker shows another graph".into());
        }
        c.count(if ac { "orders" } else { "refusals" }, 1);
        if cli {
            let d = Dir::new(c);
            let noise = r.chance(1, 2);
            d.put(lines_of(&m.history(&mut r, noise)).as_bytes());
            let o = go(c, prog(c.ctx, "gc-topo-sort").at(&d.root));
            cert_topo(c, &o, m);
            c.count("cli runs", 1);
        }
        c.distinct(m.hash());
        c.max("vertices", m.n() as u64);
        c.sample(|| m.show());
    };
    ctx.set_exhaustive_note("all digraphs up to 3 vertices, loop-free with 4");
    ctx.par("all-small", gen::small_count(), |c| {
        let mut r = c.rng.clone();
        let m = gen::small(&mut r, c.idx);
        run(c, &m, c.idx % 40 == 0);
    });
    ctx.par("shapes", ctx.scale(6000, 100000), |c| {
        let mut r = c.rng.clone();
        let n = gen::size(&mut r, 130);
        let mut m = gen::graph(&mut r, n);
        if r.chance(1, 2) {
            // break all cycles, maybe add one back
            let l = m.vlist();
            let mut ord = l.clone();
            r.shuffle(&mut ord);
            let pos: HashMap<u64, usize> = ord.iter().enumerate().map(|(i, v)| (*v, i)).collect();
            m.edges = m.edges.iter().filter(|e| pos[&e.0] < pos[&e.1]).cloned().collect();
            if !m.edges.is_empty() && r.chance(1, 3) {
                let e = *m.edges.iter().nth(r.below(m.edges.len())).unwrap();
                m.edges.insert((e.1, e.0));
            }
        }
        run(c, &m, c.idx % 20 == 0);
    });
    ctx.par("large", ctx.scale(30, 400), |c| {
        let mut r = c.rng.clone();
        let n = r.us(300, 2000);
        let mut m = gen::graph(&mut r, n);
        if r.chance(2, 3) {
            m.edges = m.edges.iter().filter(|e| e.0 < e.1).cloned().collect();
        }
        run(c, &m, c.idx % 5 == 0);
    });
    ctx.par("big", ctx.scale(40, 2000), |c| {
        let mut r = c.rng.clone();
        let (mut m, _, _) = gen::big(&mut r, 1100);
        if r.chance(3, 4) {
            let l = m.vlist();
            let mut ord = l.clone();
            if r.chance(1, 2) {
                r.shuffle(&mut ord);
            }
            let pos: HashMap<u64, usize> = ord.iter().enumerate().map(|(i, v)| (*v, i)).collect();
            m.edges = m.edges.iter().filter(|e| pos[&e.0] < pos[&e.1]).cloned().collect();
            if !m.edges.is_empty() && r.chance(1, 4) {
                let e = *m.edges.iter().nth(r.below(m.edges.len())).unwrap();
                m.edges.insert((e.1, e.0));
            }
        }
        run(c, &m, c.idx % 5 == 0);
    });
    ctx.par("small-cycle", ctx.scale(12, 300), |c| {
        // a large acyclic part and one cycle of a few edges, at an end or in the middle
        let mut r = c.rng.clone();
        let n = r.us(1000, 4000);
        let mut e: Vec<(usize, usize)> = vec![];
        for i in 1..n {
            for _ in 0..r.us(1, 2) {
                e.push((i - 1 - r.below(i.min(30)), i));
            }
        }
        let at = match c.idx % 3 {
            0 => n - 1,
            1 => r.below(n),
            _ => 0,
        };
        match r.below(3) {
            0 => e.push((at, at)),
            1 => e.extend_from_slice(&[(at, n), (n, at)]),
            _ => e.extend_from_slice(&[(at, n), (n, n + 1), (n + 1, n)]),
        }
        e.sort();
        e.dedup();
        let m = gen::relabel(&mut r, n + 2, &e);
        run(c, &m, c.idx % 4 == 0);
    });
    ctx.par("very-deep", ctx.scale(2, 40), |c| {
        let mut r = c.rng.clone();
        let m = deep(&mut r, c.idx);
        run(c, &m, true);
    });
}
