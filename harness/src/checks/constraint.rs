//! C09 constrained shortest path, C10 meaning of constraints, C11 validation
use crate::cli::*;
use crate::cons::*;
use crate::ctx::{Case, Ctx};
use crate::gen;
use crate::model::*;
use crate::oracle::*;
use crate::util::*;
use gc_core::constraint::checker;
use gc_core::constraint::constraint::Constraint;
use gc_core::directed_graph::DirectedGraph;
use gc_core::graph::VertexId;
use gc_core::path::{Path, ScoredPath};
use gc_core::search::a_star;
use std::cell::Cell;
use std::collections::BTreeSet;

const WALKS: u64 = 60_000;

/// How many partial paths the search may have to look at; None: more than we want to run, or the
/// space of partial paths is not finite and nothing satisfies the constraints
fn effort(m: &MG, w: &W, s: u64, ks: &[K], best: Option<i128>) -> Option<u64> {
    let mut b = u64::MAX;
    if let Some(x) = best {
        b = b.min(count_walks(m, w, s, x, usize::MAX, WALKS));
    } else {
        if m.acyclic() {
            b = b.min(count_walks(m, w, s, i128::MAX / 2, usize::MAX, WALKS));
        }
        for k in ks {
            match k {
                K::MaxL(n) if *n < 800 => b = b.min(count_walks(m, w, s, i128::MAX / 2, (*n).max(1), WALKS)),
                K::MaxS(x) if *x < 2000 => b = b.min(count_walks(m, w, s, *x as i128, usize::MAX, WALKS)),
                K::Not(x) if **x == K::Cyc => {
                    if let Some(p) = simple_paths(m, s, WALKS as usize) {
                        b = b.min(p.len() as u64)
                    }
                }
                _ => {}
            }
        }
    }
    if b > WALKS {
        None
    } else {
        Some(b)
    }
}

fn solve(c: &mut Case, m: &MG, w: &W, s: u64, t: u64, ks: &[K]) -> bool {
    let mut r = c.rng.clone();
    c.desc(format!("{}\nweights {:?}\nfrom {} to {} constraints {:?}", m.show(), {
        let mut v: Vec<_> = w.iter().collect();
        v.sort();
        v
    }, s, t, ks));
    let best = cheapest(m, w, s, t, ks);
    let walks = match effort(m, w, s, ks, best) {
        Some(x) => x,
        None => {
            c.count("cases skipped: unbounded or too large a search", 1);
            return false;
        }
    };
    let maxdeg = m.verts.iter().map(|v| m.out(*v).len()).max().unwrap_or(0) as u64;
    let budget = 6 * walks * (maxdeg + 1) + 1000;
    let calls = Cell::new(0u64);
    let g = c.guard("building the graph", || m.build(&mut r));
    let real: Vec<Constraint> = ks.iter().map(|k| k.real()).collect();
    let got = c.guard("constrained_shortest_path", || {
        a_star::constrained_shortest_path(
            &g,
            |_: &DirectedGraph, p: &Path| {
                calls.set(calls.get() + 1);
                if calls.get() > budget {
                    c.fail(&format!(
                        "the search looked at more than {} partial paths; only {} can matter",
                        budget, walks
                    ));
                }
                p.vertices.windows(2).map(|x| w.get(&(x[0].0, x[1].0)).cloned().unwrap_or(1 << 50)).sum()
            },
            a_star::zero_heuristic,
            VertexId(s),
            VertexId(t),
            real,
        )
    });
    match got {
        None => {
            c.check(best.is_none(), || format!("no path found, but one of cost {} satisfies the constraints", best.unwrap()));
            c.count("unsatisfiable cases", 1);
        }
        Some(sp) => {
            let p: Vec<u64> = sp.path.vertices.iter().map(|v| v.0).collect();
            c.check(p.first() == Some(&s) && p.last() == Some(&t), || format!("{:?} does not lead from {} to {}", p, s, t));
            let k = walk_cost(m, w, &p);
            c.check(k.is_some(), || format!("{:?} uses a missing edge", p));
            c.check(k == Some(sp.score as i128), || format!("score {} reported for {:?}, which costs {:?}", sp.score, p, k));
            for x in ks {
                c.check(x.holds(&p, sp.score as i128), || format!("{:?} (score {}) breaks the constraint {:?}", p, sp.score, x));
            }
            c.check(best == Some(sp.score as i128), || format!("{:?} of cost {}, but the cheapest costs {:?}", p, sp.score, best));
            let plain = cheapest(m, w, s, t, &[]);
            if plain != best {
                c.count("cases where the constraints change the cost", 1);
            }
            let d: BTreeSet<&u64> = p.iter().collect();
            if d.len() < p.len() {
                c.count("solutions that repeat a vertex", 1);
            }
            c.count("solutions checked", 1);
        }
    }
    c.count("partial paths scored", calls.get());
    let mut h = mix(mix(m.hash(), s), t);
    h = mix(h, fnv(format!("{:?}", ks).as_bytes()));
    if !ks.is_empty() && !m.edges.is_empty() {
        c.distinct(h);
    }
    c.sample(|| format!("{} from {} to {} with {:?}", m.show(), s, t, ks));
    true
}

/// constraints for which a solution often exists: read off a random walk
fn inspired(r: &mut Rng, m: &MG, w: &W, s: u64) -> (u64, Vec<K>) {
    let mut p = vec![s];
    let mut cost = 0;
    for _ in 0..r.us(0, 7) {
        let o = m.out(*p.last().unwrap());
        if o.is_empty() {
            break;
        }
        let v = *r.pick(&o);
        cost += w[&(*p.last().unwrap(), v)];
        p.push(v);
    }
    let t = *p.last().unwrap();
    let mut ks = vec![];
    let vs = m.vlist();
    for _ in 0..r.us(1, 3) {
        let k = match r.below(11) {
            0 => K::V(*r.pick(&p)),
            1 => {
                if p.len() > 1 {
                    let i = r.below(p.len() - 1);
                    K::E(p[i], p[i + 1])
                } else {
                    K::V(s)
                }
            }
            2 => {
                let mut l = vec![];
                for v in &p {
                    if !l.contains(v) && r.chance(1, 2) {
                        l.push(*v);
                    }
                }
                K::Ord(l)
            }
            3 => K::Cyc,
            4 => not(K::Cyc),
            5 => K::MinL(p.len()),
            6 => K::MaxL(p.len() + r.below(2)),
            7 => K::MinS(cost - r.range(0, 1)),
            8 => K::MaxS(cost + r.range(0, 1)),
            9 => {
                let o: Vec<u64> = vs.iter().filter(|v| !p.contains(v)).cloned().collect();
                if o.is_empty() {
                    K::MinL(p.len())
                } else {
                    not(K::V(*r.pick(&o)))
                }
            }
            _ => {
                let es: Vec<(u64, u64)> = m.edges.iter().cloned().collect();
                let x = tree(r, &vs, &es, 2);
                if r.chance(1, 2) {
                    K::Or(Box::new(K::V(t)), Box::new(x))
                } else {
                    x
                }
            }
        };
        ks.push(k);
    }
    (t, ks)
}

struct Opt {
    args: Vec<String>,
    ks: Vec<K>,
}

fn opt(name: &str, vals: &[u64], ks: Vec<K>) -> Opt {
    let mut args = vec![format!("--{}", name)];
    for v in vals {
        args.push(v.to_string());
    }
    Opt { args, ks }
}

/// no generator uses these ids
const ABSENT: [u64; 3] = [3_000_000_000_017, 17_446_744_073_709_551_557, 3_000_000_000_019];

fn option(r: &mut Rng, p: &[u64], vs: &[u64], which: usize) -> Opt {
    let n = p.len() as u64;
    let some = |r: &mut Rng, from: &[u64]| {
        let mut l: Vec<u64> = from.to_vec();
        l.sort();
        l.dedup();
        r.shuffle(&mut l);
        l.truncate(r.us(1, 3));
        l
    };
    let near = |r: &mut Rng, x: u64| if r.chance(2, 3) { x } else { (x as i64 + r.range(-1, 1)).max(0) as u64 };
    match which {
        0 => {
            let mut l = if r.chance(3, 4) { some(r, p) } else { some(r, vs) };
            if r.chance(1, 12) {
                // no path contains a vertex that is not there
                l.push(*r.pick(&ABSENT));
                r.shuffle(&mut l);
            }
            let ks = l.iter().map(|v| K::V(*v)).collect();
            opt("include", &l, ks)
        }
        1 => {
            let o: Vec<u64> = vs.iter().filter(|v| !p.contains(v)).cloned().collect();
            let mut l = if o.is_empty() || r.chance(1, 4) { some(r, vs) } else { some(r, &o) };
            if r.chance(1, 12) {
                l.push(*r.pick(&ABSENT));
                r.shuffle(&mut l);
            }
            let ks = l.iter().map(|v| not(K::V(*v))).collect();
            opt("exclude", &l, ks)
        }
        2 => {
            let mut l = vec![];
            for v in p {
                if !l.contains(v) && l.len() < 4 {
                    l.push(*v);
                }
            }
            for v in vs {
                if l.len() < 2 && !l.contains(v) {
                    l.push(*v);
                }
            }
            if r.chance(1, 3) {
                l.reverse();
            }
            if l.len() < 2 {
                return opt("include", &l, l.iter().map(|v| K::V(*v)).collect());
            }
            opt("ordered", &l, vec![K::Ord(l.clone())])
        }
        3 => opt("include-cycle", &[], vec![K::Cyc]),
        4 => opt("no-cycle", &[], vec![not(K::Cyc)]),
        5 => {
            let x = near(r, n);
            opt("min-length", &[x], vec![K::MinL(x as usize)])
        }
        6 => {
            let x = near(r, n);
            opt("max-length", &[x], vec![K::MaxL(x as usize)])
        }
        7 => {
            let x = near(r, n);
            opt("exact-length", &[x], vec![K::MinL(x as usize), K::MaxL(x as usize)])
        }
        8 => {
            let x = near(r, n - 1);
            opt("min-score", &[x], vec![K::MinS(x as i64)])
        }
        9 => {
            let x = near(r, n - 1);
            opt("max-score", &[x], vec![K::MaxS(x as i64)])
        }
        _ => {
            let x = near(r, n - 1);
            opt("exact-score", &[x], vec![K::MinS(x as i64), K::MaxS(x as i64)])
        }
    }
}

/// one run of gc-csp; false when the case would not be a bounded search
pub fn csp_run(c: &mut Case, d: &Dir, m: &MG, s: u64, t: u64, args: &[String], ks: &[K]) -> bool {
    let w = unit(m);
    let best = cheapest(m, &w, s, t, ks);
    if effort(m, &w, s, ks, best).is_none() {
        c.count("cases skipped: unbounded or too large a search", 1);
        return false;
    }
    let o = go(
        c,
        prog(c.ctx, "gc-csp").at(&d.root).args(&["-s", &s.to_string(), "-e", &t.to_string()]).args(args),
    );
    cert_csp(c, &o, m, s, t, ks, best);
    c.count("cli runs", 1);
    if best.is_none() {
        c.count("cli runs without solution", 1);
    } else if best != cheapest(m, &w, s, t, &[]) {
        c.count("cli runs where the options change the cost", 1);
    }
    true
}

fn random_walk(r: &mut Rng, m: &MG, s: u64, max: usize) -> Vec<u64> {
    let mut p = vec![s];
    for _ in 0..r.us(0, max) {
        let o = m.out(*p.last().unwrap());
        if o.is_empty() {
            break;
        }
        p.push(*r.pick(&o));
    }
    p
}

/// a gc-csp query with its plain meaning
pub fn csp_query(r: &mut Rng, m: &MG, which: Option<usize>) -> (u64, u64, Vec<String>, Vec<K>) {
    let vs = m.vlist();
    let s = *r.pick(&vs);
    let p = random_walk(r, m, s, 6);
    let t = *p.last().unwrap();
    let mut args = vec![];
    let mut ks = vec![];
    let mut used = BTreeSet::new();
    let k = if which.is_some() { 1 } else { r.us(0, 3) };
    for _ in 0..k {
        let x = which.unwrap_or_else(|| r.below(11));
        if !used.insert(x) {
            continue;
        }
        let o = option(r, &p, &vs, x);
        // the same option must not be given twice (option 2 may fall back to 0)
        if args.contains(&o.args[0]) {
            continue;
        }
        args.extend(o.args);
        ks.extend(o.ks);
    }
    (s, t, args, ks)
}

pub fn c09(ctx: &'static Ctx) {
    ctx.rule(
        "A case counts as distinct and non-trivial when its tuple (graph with edges, start, end, non-empty constraint list) \
         has not been seen. The answer is compared with a Dijkstra search over (vertex, everything the constraints can see \
         of the walk), which does not use the code under test; a counter in the cost function bounds the search.",
    );
    ctx.assume("unsatisfiable constraints are only asked where the space of partial paths is finite, as the property says");
    ctx.require(&[
        "cases where the constraints change the cost",
        "solutions that repeat a vertex",
        "enumerated paths",
        "long lists",
        "cli runs with long paths",
        "cli runs with long lists",
        "cli runs where one of two options matters",
        "cli runs where one of three options matters",
        "unsatisfiable cases",
        "cli runs",
        "cli runs without solution",
        "cli runs where the options change the cost",
    ]);
    ctx.set_exhaustive_note("all digraphs up to 3 vertices, loop-free with 4 (random weights and constraints)");
    ctx.par("all-small", gen::small_count() * ctx.scale(1, 4), |c| {
        let mut r = c.rng.clone();
        let m = gen::small(&mut r, c.idx % gen::small_count());
        if m.n() == 0 {
            return;
        }
        let w: W = m.edges.iter().map(|e| (*e, r.range(1, 3))).collect();
        let vs = m.vlist();
        for _ in 0..3 {
            let s = *r.pick(&vs);
            let (t, ks) = inspired(&mut r, &m, &w, s);
            let t = if r.chance(1, 4) { *r.pick(&vs) } else { t };
            solve(c, &m, &w, s, t, &ks);
        }
    });
    ctx.par("shapes", ctx.scale(6000, 120000), |c| {
        let mut r = c.rng.clone();
        let n = r.us(1, 12);
        let m = gen::graph(&mut r, n);
        let w: W = m.edges.iter().map(|e| (*e, r.range(1, 5))).collect();
        let vs = m.vlist();
        let s = *r.pick(&vs);
        let (t, ks) = if r.chance(3, 4) {
            inspired(&mut r, &m, &w, s)
        } else {
            let es: Vec<(u64, u64)> = m.edges.iter().cloned().collect();
            let mut ks: Vec<K> = (0..r.us(0, 3)).map(|_| tree(&mut r, &vs, &es, 3)).collect();
            if r.chance(1, 2) {
                ks.push(K::MaxL(r.us(1, 7)));
            }
            (*r.pick(&vs), ks)
        };
        solve(c, &m, &w, s, t, &ks);
    });
    // the enumeration behind the search
    ctx.par("enumeration", ctx.scale(1500, 20000), |c| {
        let mut r = c.rng.clone();
        let n = r.us(1, 7);
        let m = gen::graph(&mut r, n);
        let w: W = m.edges.iter().map(|e| (*e, r.range(1, 5))).collect();
        let s = *r.pick(&m.vlist());
        let (_, ks) = inspired(&mut r, &m, &w, s);
        c.desc(format!("{}\nweights {:?}\nfrom {} constraints {:?}", m.show(), w, s, ks));
        let g = c.guard("building the graph", || m.build(&mut r));
        let real: Vec<Constraint> = ks.iter().map(|k| k.real()).collect();
        let items: Vec<ScoredPath> = c.guard("constrained_best_iter_from", || {
            gc_core::iter::iter_best_constraint::constrained_best_iter_from(
                &g,
                |_: &DirectedGraph, p: &Path| p.vertices.windows(2).map(|x| w.get(&(x[0].0, x[1].0)).cloned().unwrap_or(1 << 50)).sum(),
                real,
                VertexId(s),
            )
            .take(300)
            .collect()
        });
        c.check(items.first().map(|x| x.path.vertices.clone()) == Some(vec![VertexId(s)]), || "does not begin with the start".into());
        let mut seen = BTreeSet::new();
        let mut prev = i64::MIN;
        for x in &items {
            let p: Vec<u64> = x.path.vertices.iter().map(|v| v.0).collect();
            c.check(p.first() == Some(&s), || format!("{:?} does not begin at {}", p, s));
            let k = walk_cost(&m, &w, &p);
            c.check(k == Some(x.score as i128), || format!("score {} for {:?}, which costs {:?}", x.score, p, k));
            c.check(x.score >= prev, || format!("{:?} of cost {} comes after a path of cost {}", p, x.score, prev));
            prev = x.score;
            c.check(seen.insert(p.clone()), || format!("{:?} twice", p));
            c.count("enumerated paths", 1);
        }
        c.distinct(mix(mix(m.hash(), s), fnv(format!("enum {:?} {:?}", ks, items.len()).as_bytes())));
    });
    ctx.par("refused", ctx.scale(1500, 20000), |c| {
        // no solution, finite space
        let mut r = c.rng.clone();
        let n = r.us(2, 6);
        let m = gen::graph(&mut r, n);
        let w: W = m.edges.iter().map(|e| (*e, r.range(1, 3))).collect();
        let vs = m.vlist();
        let s = *r.pick(&vs);
        let t = *r.pick(&vs);
        let mut ks = vec![match r.below(3) {
            0 => K::MaxL(r.us(0, 5)),
            1 => K::MaxS(r.range(0, 6)),
            _ => not(K::Cyc),
        }];
        let (_, more) = inspired(&mut r, &m, &w, s);
        ks.extend(more);
        r.shuffle(&mut ks);
        solve(c, &m, &w, s, t, &ks);
    });
    // long lists: all but a few entries hold for every path
    ctx.par("long-lists", ctx.scale(700, 12000), |c| {
        let mut r = c.rng.clone();
        let n = r.us(2, 9);
        let m = gen::graph(&mut r, n);
        let w: W = m.edges.iter().map(|e| (*e, r.range(1, 5))).collect();
        let vs = m.vlist();
        let s = *r.pick(&vs);
        let (t, mut ks) = inspired(&mut r, &m, &w, s);
        let matter = ks.len();
        let absent = |r: &mut Rng| loop {
            let x = r.u64();
            if !m.verts.contains(&x) {
                return x;
            }
        };
        for i in 0..r.us(8, 40) {
            let a = absent(&mut r);
            ks.push(match r.below(6) {
                0 | 1 => not(K::V(a)),
                2 => not(K::E(a, *r.pick(&vs))),
                3 => K::Or(Box::new(K::V(s)), Box::new(K::V(a))),
                4 => K::V(if i % 2 == 0 { s } else { t }),
                _ => not(K::And(Box::new(K::V(s)), Box::new(K::V(a)))),
            });
        }
        match r.below(3) {
            0 => ks.rotate_left(matter),
            1 => r.shuffle(&mut ks),
            _ => {}
        }
        if solve(c, &m, &w, s, t, &ks) {
            c.count("long lists", 1);
            c.max("constraints", ks.len() as u64);
        }
    });
    // long paths: round and round on a few vertices
    ctx.par("cli-long-paths", ctx.scale(80, 800), |c| {
        let mut r = c.rng.clone();
        let k = r.us(1, 5);
        let tail = r.us(0, 2);
        let mut e: Vec<(usize, usize)> = (0..k).map(|i| (i, (i + 1) % k)).collect();
        for i in 0..tail {
            e.push((if i == 0 { r.below(k) } else { k + i - 1 }, k + i));
        }
        let lb = gen::labels(&mut r, k + tail);
        let mut m = MG::new();
        for (a, b) in &e {
            m.add_e(lb[*a], lb[*b]);
        }
        let s = lb[r.below(k)];
        let len = *r.pick(&[127, 128, 129, 200, 254, 255, 256, 257, 258, 300, 511, 512, 513, 600]) + r.below(3);
        let mut p = vec![s];
        while p.len() < len {
            let o = m.out(*p.last().unwrap());
            match o.iter().find(|x| lb[..k].contains(x)) {
                Some(v) if p.len() + tail < len || r.chance(4, 5) => p.push(*v),
                _ => match o.first() {
                    Some(v) => p.push(*v),
                    None => break,
                },
            }
        }
        let t = *p.last().unwrap();
        // at times a length no path has
        let n = p.len() as u64 + if r.chance(1, 2) { r.below(k) as u64 } else { 0 };
        let n = if r.chance(1, 4) { 8 + n % 50 } else { n };
        let parts: Vec<Opt> = match r.below(8) {
            0 | 6 | 7 => vec![opt("exact-length", &[n], vec![K::MinL(n as usize), K::MaxL(n as usize)])],
            1 => vec![opt("min-length", &[n], vec![K::MinL(n as usize)])],
            2 => vec![
                opt("min-length", &[n], vec![K::MinL(n as usize)]),
                opt("max-length", &[n + k as u64], vec![K::MaxL(n as usize + k)]),
            ],
            3 => vec![opt("exact-score", &[n - 1], vec![K::MinS(n as i64 - 1), K::MaxS(n as i64 - 1)])],
            4 => vec![opt("min-score", &[n - 1], vec![K::MinS(n as i64 - 1)])],
            _ => vec![
                opt("max-score", &[n], vec![K::MaxS(n as i64)]),
                opt("min-length", &[n - 1], vec![K::MinL(n as usize - 1)]),
            ],
        };
        let args: Vec<String> = parts.iter().flat_map(|o| o.args.clone()).collect();
        let ks: Vec<K> = parts.iter().flat_map(|o| o.ks.clone()).collect();
        c.desc(m.show());
        let d = Dir::new(c);
        d.put(lines_of(&m.history(&mut r, true)).as_bytes());
        if csp_run(c, &d, &m, s, t, &args, &ks) {
            c.count("cli runs with long paths", 1);
            if args[0] == "--exact-length" && cheapest(&m, &unit(&m), s, t, &ks).is_none() && cheapest(&m, &unit(&m), s, t, &ks[..1]).is_some() {
                c.count("cli runs with an exact length between attainable ones", 1);
            }
            c.distinct(mix(m.hash(), fnv(args.join(" ").as_bytes())));
        }
    });
    // options with long lists of values, the one that matters anywhere in them
    ctx.par("cli-long-lists", ctx.scale(120, 1500), |c| {
        let mut r = c.rng.clone();
        let len = r.us(12, 44);
        // a chain of places; at some of them there are two ways, or a way around
        let mut at: Vec<Vec<usize>> = vec![];
        let mut n = 0;
        let mut forks = 0;
        for i in 0..len {
            let two = forks < 6 && i > 0 && i + 1 < len && r.chance(1, 4);
            forks += two as usize;
            at.push((0..1 + two as usize).map(|x| n + x).collect());
            n += 1 + two as usize;
        }
        let mut e = vec![];
        for i in 0..len - 1 {
            for a in &at[i] {
                for b in &at[i + 1] {
                    e.push((*a, *b));
                }
            }
        }
        for _ in 0..r.us(0, 2) {
            let i = r.below(len - 3);
            e.push((at[i][0], at[r.us(i + 2, len - 1)][0]));
        }
        let lb = gen::labels(&mut r, n);
        let mut m = MG::new();
        for (a, b) in &e {
            m.add_e(lb[*a], lb[*b]);
        }
        let p: Vec<u64> = at.iter().map(|x| lb[*r.pick(x)]).collect();
        let mut l: Vec<u64>;
        let o = match c.idx % 3 {
            0 => {
                l = p.clone();
                for _ in 0..r.below(4) {
                    let k = r.below(l.len());
                    l.remove(k);
                }
                r.shuffle(&mut l);
                let ks = l.iter().map(|v| K::V(*v)).collect();
                opt("include", &l, ks)
            }
            1 => {
                l = lb.iter().filter(|v| !p.contains(v)).cloned().collect();
                if r.chance(1, 8) {
                    l.push(*r.pick(&p));
                }
                for _ in 0..r.us(10, 40) {
                    let x = r.u64();
                    if !m.verts.contains(&x) {
                        l.push(x);
                    }
                }
                if r.chance(1, 2) {
                    r.shuffle(&mut l);
                } else {
                    l.reverse();
                }
                let ks = l.iter().map(|v| not(K::V(*v))).collect();
                opt("exclude", &l, ks)
            }
            _ => {
                l = p.clone();
                for x in &at {
                    // the other one of two, in its place or misplaced
                    if x.len() == 2 {
                        let other = lb[if p.contains(&lb[x[0]]) { x[1] } else { x[0] }];
                        let i = if r.chance(1, 2) { 0 } else { r.below(l.len()) };
                        l.insert(i, other);
                    }
                }
                if r.chance(1, 4) {
                    let (a, b) = (r.below(l.len()), r.below(l.len()));
                    l.swap(a, b);
                }
                opt("ordered", &l, vec![K::Ord(l.clone())])
            }
        };
        c.desc(m.show());
        let d = Dir::new(c);
        d.put(lines_of(&m.history(&mut r, true)).as_bytes());
        if csp_run(c, &d, &m, p[0], *p.last().unwrap(), &o.args, &o.ks) {
            c.count("cli runs with long lists", 1);
            c.max("values of one option", o.args.len() as u64 - 1);
            c.distinct(mix(m.hash(), fnv(o.args.join(" ").as_bytes())));
        }
    });
    // every pair and triple of options, on queries where leaving out the first of them would change the answer
    let mut sets: Vec<Vec<usize>> = vec![];
    for a in 0..11 {
        for b in a + 1..11 {
            sets.push(vec![a, b]);
            sets.push(vec![b, a]);
            for d in b + 1..11 {
                sets.push(vec![a, b, d]);
                sets.push(vec![b, a, d]);
                sets.push(vec![d, a, b]);
            }
        }
    }
    ctx.par("cli-tight", sets.len() as u64 * if ctx.thorough { 10 } else { 1 }, |c| {
        let mut r = c.rng.clone();
        let which = &sets[c.idx as usize % sets.len()];
        for _ in 0..600 {
            let n = r.us(3, 6);
            let m = if r.chance(1, 4) {
                gen::graph(&mut r, n)
            } else {
                // a chain with shortcuts and ways back: each of them costs something
                let mut e: Vec<(usize, usize)> = (1..n).map(|i| (i - 1, i)).collect();
                for _ in 0..r.us(2, 6) {
                    let a = r.below(n);
                    e.push((a, if r.chance(1, 2) { r.below(n) } else { (a + 2).min(n - 1) }));
                }
                e.sort();
                e.dedup();
                gen::relabel(&mut r, n, &e)
            };
            let w = unit(&m);
            let vs = m.vlist();
            let s = *r.pick(&vs);
            let p = random_walk(&mut r, &m, s, 8);
            let t = *p.last().unwrap();
            let best = |o: &[&Opt]| {
                let ks: Vec<K> = o.iter().flat_map(|x| x.ks.clone()).collect();
                cheapest(&m, &w, s, t, &ks)
            };
            let o: Vec<Opt> = which.iter().map(|x| option(&mut r, &p, &vs, *x)).collect();
            if o.iter().any(|x| o.iter().filter(|y| y.args[0] == x.args[0]).count() > 1) {
                continue;
            }
            let refs: Vec<&Opt> = o.iter().collect();
            let b = best(&refs);
            if best(&refs[1..]) == b {
                continue;
            }
            let mut o = o;
            r.shuffle(&mut o);
            let args: Vec<String> = o.iter().flat_map(|o| o.args.clone()).collect();
            let ks: Vec<K> = o.iter().flat_map(|o| o.ks.clone()).collect();
            c.desc(m.show());
            let d = Dir::new(c);
            d.put(lines_of(&m.history(&mut r, true)).as_bytes());
            if csp_run(c, &d, &m, s, t, &args, &ks) {
                c.count(
                    if o.len() == 2 {
                        "cli runs where one of two options matters"
                    } else {
                        "cli runs where one of three options matters"
                    },
                    1,
                );
                c.distinct(mix(m.hash(), fnv(args.join(" ").as_bytes())));
                return;
            }
        }
        c.count("pairs and triples of options for which no query was found", 1);
    });
    ctx.par("cli-each-option", 11 * ctx.scale(25, 250), |c| {
        let mut r = c.rng.clone();
        let n = r.us(2, 7);
        let m = gen::graph(&mut r, n);
        let (s, t, args, ks) = csp_query(&mut r, &m, Some((c.idx % 11) as usize));
        c.desc(m.show());
        let d = Dir::new(c);
        d.put(lines_of(&m.history(&mut r, true)).as_bytes());
        if csp_run(c, &d, &m, s, t, &args, &ks) {
            c.count(&format!("cli {}", args[0]), 1);
            c.distinct(mix(m.hash(), fnv(args.join(" ").as_bytes())));
        }
    });
    ctx.par("cli-mixed", ctx.scale(400, 4000), |c| {
        let mut r = c.rng.clone();
        let n = r.us(1, 8);
        let m = gen::graph(&mut r, n);
        c.desc(m.show());
        let d = Dir::new(c);
        d.put(lines_of(&m.history(&mut r, true)).as_bytes());
        let (s, t, args, ks) = csp_query(&mut r, &m, None);
        let t = if r.chance(1, 6) { *r.pick(&m.vlist()) } else { t };
        if csp_run(c, &d, &m, s, t, &args, &ks) {
            c.distinct(mix(m.hash(), fnv(args.join(" ").as_bytes())));
        }
    });
}

// ---------- C10 ----------

fn sp(p: &[u64], score: i64) -> ScoredPath {
    ScoredPath { path: Path { vertices: vids(p) }, score }
}

/// one constraint on one path with its scores at each length
fn meaning(c: &mut Case, k: &K, real: &Constraint, p: &[u64], scores: &[i64], log: bool) {
    if log {
        c.desc(format!("constraint {:?}\npath {:?}\nscores of its prefixes {:?}", k, p, scores));
    }
    let full = scores[p.len() - 1];
    let want = k.holds(p, full as i128);
    let got = c.guard("check_complete", || real.check_complete(&sp(p, full)));
    c.check(got == want, || format!("check_complete of {:?} on {:?} (score {}) = {}, plain meaning {}", k, p, full, got, want));
    for i in 1..=p.len() {
        let pre = &p[..i];
        let dead = k.dead(pre, scores[i - 1] as i128);
        if !want && !dead {
            continue;
        }
        let got = c.guard("check_partial", || real.check_partial(&sp(pre, scores[i - 1])));
        if want {
            c.check(got, || {
                format!("check_partial of {:?} refuses {:?} (score {}), which leads to {:?} (score {}) satisfying it", k, pre, scores[i - 1], p, full)
            });
            c.count("viable prefixes", 1);
        }
        if dead {
            c.check(!got, || format!("check_partial of {:?} accepts {:?} (score {})", k, pre, scores[i - 1]));
            c.count("definite failures", 1);
        }
    }
    c.count(if want { "complete paths accepted" } else { "complete paths refused" }, 1);
}

fn seq(mut i: u64, base: u64) -> Vec<u64> {
    // sequences of length 1.. over 1..=base
    let mut len = 1;
    let mut cnt = base;
    while i >= cnt {
        i -= cnt;
        len += 1;
        cnt *= base;
    }
    let mut v = vec![];
    for _ in 0..len {
        v.push(1 + i % base);
        i /= base;
    }
    v
}

fn atoms() -> Vec<K> {
    vec![
        K::V(1),
        K::V(2),
        K::V(9),
        K::E(1, 2),
        K::E(2, 1),
        K::E(1, 1),
        K::E(3, 9),
        K::Ord(vec![]),
        K::Ord(vec![1]),
        K::Ord(vec![1, 2]),
        K::Ord(vec![3, 1, 2]),
        K::Ord(vec![2, 9, 3]),
        K::Cyc,
        K::MinL(0),
        K::MinL(3),
        K::MinL(4),
        K::MaxL(0),
        K::MaxL(2),
        K::MaxL(3),
        K::MaxL(usize::MAX),
        K::MinS(0),
        K::MinS(2),
        K::MinS(i64::MIN),
        K::MaxS(1),
        K::MaxS(3),
        K::MaxS(-1),
        K::MaxS(i64::MAX),
        K::MinS(i64::MAX),
    ]
}

pub fn c10(ctx: &'static Ctx) {
    ctx.rule(
        "A case counts as distinct and non-trivial when its constraint has not been seen. Each constraint is evaluated on \
         many complete paths and on every prefix of them, against a direct evaluation of its plain meaning.",
    );
    ctx.require(&["viable prefixes", "definite failures", "complete paths accepted", "complete paths refused"]);
    let at = atoms();
    let na = at.len() as u64;
    ctx.set_exhaustive_note("all atoms, their negations and all pairs under and/or/xor on all sequences of up to 5 of 3 vertices");
    let paths: u64 = 3 + 9 + 27 + 81 + 243;
    ctx.par("all-short", na * 2 + na * na * 3, |c| {
        let i = c.idx;
        let k = if i < na {
            at[i as usize].clone()
        } else if i < 2 * na {
            not(at[(i - na) as usize].clone())
        } else {
            let j = i - 2 * na;
            let a = Box::new(at[(j / 3 % na) as usize].clone());
            let b = Box::new(at[(j / 3 / na) as usize].clone());
            match j % 3 {
                0 => K::And(a, b),
                1 => K::Or(a, b),
                _ => K::Xor(a, b),
            }
        };
        let mut r = c.rng.clone();
        let real = k.real();
        c.desc(format!("constraint {:?}", k));
        for p in 0..paths {
            let p = seq(p, 3);
            let sc: Vec<i64> = match r.below(3) {
                0 => (0..p.len() as i64).collect(),
                1 => vec![r.range(-1, 4); p.len()],
                _ => {
                    let mut x = r.range(-2, 1);
                    p.iter()
                        .map(|_| {
                            x += r.range(0, 2);
                            x
                        })
                        .collect()
                }
            };
            meaning(c, &k, &real, &p, &sc, false);
        }
        c.distinct(fnv(format!("{:?}", k).as_bytes()));
    });
    ctx.par("trees", ctx.scale(20000, 300000), |c| {
        let mut r = c.rng.clone();
        let n = r.us(1, 7);
        let vs = gen::labels(&mut r, n);
        let es: Vec<(u64, u64)> = (0..6).map(|_| (*r.pick(&vs), *r.pick(&vs))).collect();
        let depth = r.us(0, 5);
        let k = tree(&mut r, &vs, &es, depth);
        let real = k.real();
        for _ in 0..12 {
            let len = if r.chance(1, 10) { r.us(10, 40) } else { r.us(1, 9) };
            let mut p: Vec<u64> = vec![];
            while p.len() < len {
                if r.chance(1, 3) && !p.is_empty() {
                    // follow one of the edges the tree may talk about
                    let l = *p.last().unwrap();
                    let o: Vec<u64> = es.iter().filter(|e| e.0 == l).map(|e| e.1).collect();
                    if !o.is_empty() {
                        p.push(*r.pick(&o));
                        continue;
                    }
                }
                p.push(*r.pick(&vs));
            }
            let kind = r.below(4);
            let mut x = if kind == 3 { *r.pick(&[i64::MIN / 4, -5, 1 << 40]) } else { 0 };
            let sc: Vec<i64> = p
                .iter()
                .enumerate()
                .map(|(i, _)| {
                    if i > 0 {
                        x += match kind {
                            0 => 1,
                            1 => r.range(0, 3),
                            _ => r.range(0, 1),
                        };
                    }
                    x
                })
                .collect();
            meaning(c, &k, &real, &p, &sc, true);
        }
        c.distinct(fnv(format!("{:?}", k).as_bytes()));
        c.sample(|| format!("{:?}", k));
    });
    // long paths, long lists
    ctx.par("long", ctx.scale(1200, 20000), |c| {
        let mut r = c.rng.clone();
        let n = if c.idx % 30 == 0 {
            *r.pick(&[520usize, 700, 1030])
        } else {
            *r.pick(&[20usize, 31, 33, 40, 63, 65, 100, 127, 129, 200, 255, 257, 300])
        };
        let vs = gen::labels(&mut r, n);
        let mut p = vs.clone();
        if r.chance(1, 3) {
            // one vertex again, far away or at once
            let (a, b) = (r.below(n), r.below(n));
            p[a] = p[b];
        }
        let k = match r.below(7) {
            0 => {
                let i = if r.chance(1, 2) { n - 2 } else { r.below(n - 1) };
                K::E(p[i], if r.chance(3, 4) { p[i + 1] } else { p[r.below(n)] })
            }
            1 => K::V(if r.chance(2, 3) { p[n - 1 - r.below(3)] } else { vs[r.below(n)] }),
            2 => K::Cyc,
            3 => r.pick(&[K::MinL(n), K::MinL(n + 1), K::MinL(n - 1)]).clone(),
            4 => r.pick(&[K::MaxL(n), K::MaxL(n + 1), K::MaxL(n - 1)]).clone(),
            _ => {
                let mut l = vs.clone();
                if r.chance(1, 2) {
                    let step = r.us(1, 3);
                    l = l.into_iter().step_by(step).collect();
                }
                if r.chance(1, 2) {
                    let i = if r.chance(1, 2) { l.len() - 2 } else { r.below(l.len() - 1) };
                    l.swap(i, i + 1);
                }
                K::Ord(l)
            }
        };
        let k = if r.chance(1, 3) { not(k) } else { k };
        let sc: Vec<i64> = (0..n as i64).collect();
        c.desc(format!("constraint {:?}\npath {:?}", k, p));
        meaning(c, &k, &k.real(), &p, &sc, false);
        c.max("vertices of a path", n as u64);
        c.count("long paths", 1);
        c.distinct(fnv(format!("{:?}{:?}", k, p).as_bytes()));
    });
}

// ---------- C11 ----------

fn contradictory(ks: &[K]) -> bool {
    let mut inv = BTreeSet::new();
    let mut exv = BTreeSet::new();
    let mut ine = BTreeSet::new();
    let mut exe = BTreeSet::new();
    let (mut cy, mut nc) = (false, false);
    let (mut minl, mut maxl, mut mins, mut maxs) = (vec![], vec![], vec![], vec![]);
    for k in ks {
        match k {
            K::V(v) => {
                inv.insert(*v);
            }
            K::E(a, b) => {
                ine.insert((*a, *b));
                inv.insert(*a);
                inv.insert(*b);
            }
            K::Cyc => cy = true,
            K::MinL(n) => minl.push(*n as i128),
            K::MaxL(n) => maxl.push(*n as i128),
            K::MinS(n) => mins.push(*n as i128),
            K::MaxS(n) => maxs.push(*n as i128),
            K::Not(x) => match &**x {
                K::V(v) => {
                    exv.insert(*v);
                }
                K::E(a, b) => {
                    exe.insert((*a, *b));
                }
                K::Cyc => nc = true,
                _ => {}
            },
            _ => {}
        }
    }
    let above = |a: &Vec<i128>, b: &Vec<i128>| a.len() == 1 && b.len() == 1 && a[0] > b[0];
    inv.intersection(&exv).next().is_some()
        || ine.intersection(&exe).next().is_some()
        || (cy && nc)
        || minl.len() > 1
        || maxl.len() > 1
        || mins.len() > 1
        || maxs.len() > 1
        || above(&minl, &maxl)
        || above(&mins, &maxs)
}

fn validate(c: &mut Case, ks: &[K]) {
    c.desc(format!("constraints {:?}", ks));
    let want = contradictory(ks);
    let real: Vec<Constraint> = ks.iter().map(|k| k.real()).collect();
    let got = c.guard("validate", || checker::validate(&real));
    c.check(got.is_err() == want, || {
        format!("validate gives {:?}, the list is {}", got, if want { "contradictory" } else { "fine" })
    });
    c.count(if want { "lists refused" } else { "lists accepted" }, 1);
    let (a, b) = (ks.iter().any(|k| *k == K::Cyc), ks.iter().any(|k| *k == not(K::Cyc)));
    if !a && !b && !want {
        c.count("lists accepted without cycle constraint", 1);
    }
}

pub fn c11(ctx: &'static Ctx) {
    ctx.rule(
        "A case counts as distinct and non-trivial when its constraint list (at least one entry) has not been seen; every \
         list is validated in several orders and compared with a direct reading of the listed contradictions.",
    );
    ctx.assume("validation looks at the entries of the list themselves, not inside and/or/xor, as its documentation says");
    ctx.require(&[
        "lists refused",
        "lists accepted",
        "lists accepted without cycle constraint",
        "long lists accepted",
        "long lists with a single contradiction",
    ]);
    let entries = || -> Vec<K> {
        vec![
            K::V(1),
            K::V(2),
            not(K::V(1)),
            not(K::V(2)),
            K::E(1, 2),
            K::E(2, 1),
            not(K::E(1, 2)),
            not(K::E(2, 1)),
            K::Cyc,
            not(K::Cyc),
            K::MinL(2),
            K::MinL(3),
            K::MaxL(2),
            K::MaxL(3),
            K::MinS(-1),
            K::MinS(3),
            K::MaxS(-1),
            K::MaxS(3),
            K::Ord(vec![1, 2]),
            not(K::MinL(3)),
            not(K::MaxL(2)),
            not(K::MinS(3)),
            not(K::MaxS(-1)),
            K::Or(Box::new(K::V(1)), Box::new(K::V(2))),
            K::Xor(Box::new(not(K::V(1))), Box::new(K::MinL(9))),
            K::Or(Box::new(K::Cyc), Box::new(not(K::Cyc))),
        ]
    };
    let en = entries();
    let n = en.len() as u64;
    ctx.set_exhaustive_note("all lists of up to 3 of 26 representative entries");
    ctx.par("all-short", 1 + n + n * n + n * n * n, |c| {
        let mut i = c.idx;
        let mut ks = vec![];
        let mut len = 0;
        let mut cnt = 1;
        while i >= cnt {
            i -= cnt;
            cnt *= n;
            len += 1;
        }
        for _ in 0..len {
            ks.push(en[(i % n) as usize].clone());
            i /= n;
        }
        validate(c, &ks);
        if !ks.is_empty() {
            c.distinct(fnv(format!("{:?}", ks).as_bytes()));
        }
    });
    ctx.par("lists", ctx.scale(40000, 500000), |c| {
        let mut r = c.rng.clone();
        let nv = r.us(3, 9);
        let vs = gen::labels(&mut r, nv);
        let mut ks = vec![];
        let len = r.us(0, 9);
        let vals: [i64; 6] = [0, 1, 5, 1 << 33, i64::MAX, i64::MIN];
        while ks.len() < len {
            let (a, b) = (*r.pick(&vs), *r.pick(&vs));
            ks.push(match r.below(15) {
                0 | 1 => K::V(a),
                2 => not(K::V(a)),
                3 | 4 => K::E(a, b),
                5 => not(K::E(a, b)),
                6 => K::Cyc,
                7 => not(K::Cyc),
                8 => K::MinL(*r.pick(&[0, 1, 5, 6, usize::MAX, 1 << 33])),
                9 => K::MaxL(*r.pick(&[0, 1, 5, 6, usize::MAX, 1 << 33])),
                10 => K::MinS(*r.pick(&vals)),
                11 => K::MaxS(*r.pick(&vals)),
                12 => K::Or(Box::new(K::V(a)), Box::new(K::E(a, b))),
                13 => K::Xor(Box::new(not(K::V(a))), Box::new(not(K::E(a, b)))),
                _ => not(K::MinL(r.us(0, 5))),
            });
        }
        // keep single bounds frequent
        for f in [
            |k: &K| matches!(k, K::MinL(_)),
            |k: &K| matches!(k, K::MaxL(_)),
            |k: &K| matches!(k, K::MinS(_)),
            |k: &K| matches!(k, K::MaxS(_)),
        ]
        .iter()
        {
            if r.chance(4, 5) {
                let mut seen = false;
                ks.retain(|k| {
                    let is = f(k);
                    let keep = !is || !seen;
                    seen |= is;
                    keep
                });
            }
        }
        for _ in 0..3 {
            validate(c, &ks);
            r.shuffle(&mut ks);
        }
        if !ks.is_empty() {
            c.distinct(fnv(format!("{:?}", ks).as_bytes()));
        }
        c.sample(|| format!("{:?}", ks));
    });
    // long lists, free of contradictions but for at most one pair
    ctx.par("long-lists", ctx.scale(6000, 80000), |c| {
        let mut r = c.rng.clone();
        let vs = gen::labels(&mut r, 40);
        let (inn, out) = vs.split_at(20);
        let len = r.us(8, 45);
        let mut ks: Vec<K> = vec![];
        let free: BTreeSet<(u64, u64)> = (0..12).map(|_| (*r.pick(inn), *r.pick(inn))).collect();
        let free: Vec<(u64, u64)> = free.into_iter().collect();
        while ks.len() < len {
            ks.push(match r.below(8) {
                0 | 1 => K::V(*r.pick(inn)),
                2 | 3 => not(K::V(*r.pick(out))),
                4 => {
                    let e = (*r.pick(inn), *r.pick(inn));
                    if free.contains(&e) {
                        continue;
                    }
                    K::E(e.0, e.1)
                }
                5 => {
                    let e = *r.pick(&free);
                    not(K::E(e.0, e.1))
                }
                6 => not(K::E(*r.pick(out), *r.pick(&vs))),
                _ => K::Or(Box::new(K::V(*r.pick(&vs))), Box::new(K::Cyc)),
            });
        }
        let cy = if r.chance(1, 2) { K::Cyc } else { not(K::Cyc) };
        let b = r.range(1, 100);
        let mut extra = vec![cy.clone(), K::MinL(b as usize), K::MaxL(b as usize + r.below(3)), K::MinS(b), K::MaxS(b + r.range(0, 2))];
        extra.retain(|_| r.chance(1, 2));
        ks.extend(extra);
        r.shuffle(&mut ks);
        if contradictory(&ks) {
            c.ctx.harness_error("the list was meant to be free of contradictions");
        }
        validate(c, &ks);
        c.count("long lists accepted", 1);
        // one contradiction, its two sides anywhere
        let v = *r.pick(inn);
        let x = *r.pick(out);
        let e = free[0];
        let pair = match r.below(9) {
            0 => [K::V(v), not(K::V(v))],
            1 => [K::E(v, x), not(K::V(x))],
            2 => [K::E(x, v), not(K::V(x))],
            3 => [K::E(e.0, e.1), not(K::E(e.0, e.1))],
            4 => [K::Cyc, not(K::Cyc)],
            5 => {
                ks.retain(|k| !matches!(k, K::MinL(_) | K::MaxL(_)));
                [K::MinL(b as usize + 1), K::MaxL(b as usize)]
            }
            6 => {
                ks.retain(|k| !matches!(k, K::MinS(_) | K::MaxS(_)));
                [K::MinS(b), K::MaxS(b - 1)]
            }
            7 => {
                ks.retain(|k| !matches!(k, K::MinL(_) | K::MaxL(_)));
                let y = K::MaxL(r.us(0, 9));
                [y, K::MaxL(3)]
            }
            _ => {
                ks.retain(|k| !matches!(k, K::MinS(_) | K::MaxS(_)));
                [K::MinS(r.range(-3, 3)), K::MinS(0)]
            }
        };
        for k in pair.iter() {
            let mid = r.below(ks.len() + 1);
            let at = *r.pick(&[0, mid, ks.len()]);
            ks.insert(at, k.clone());
        }
        if !contradictory(&ks) {
            c.ctx.harness_error("the list was meant to be contradictory");
        }
        validate(c, &ks);
        c.count("long lists with a single contradiction", 1);
        c.distinct(fnv(format!("{:?}", ks).as_bytes()));
    });
}
