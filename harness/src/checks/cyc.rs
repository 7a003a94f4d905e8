//! C07 cycle enumeration (library), C17 cycle queries (command line)
use crate::cli::*;
use crate::ctx::{Case, Ctx};
use crate::gen;
use crate::model::*;
use crate::oracle::*;
use crate::util::*;
use gc_core::algorithm::cycle;
use gc_core::iter::iter_cycle::{cycle_iter, Cycle};
use std::collections::BTreeSet;

fn vl(c: &Cycle) -> Vec<u64> {
    c.iter().map(|v| v.0).collect()
}

/// a list of cycles: all real, canonical, none twice
fn genuine(c: &Case, got: &[Vec<u64>], m: &MG, who: &str) {
    let mut seen = BTreeSet::new();
    for k in got {
        c.check(is_cycle(m, k), || format!("{}: {:?} is not an elementary cycle of the graph", who, k));
        c.check(k.iter().min() == k.first(), || format!("{}: {:?} does not start at its smallest vertex", who, k));
        c.check(seen.insert(k.clone()), || format!("{}: {:?} reported twice", who, k));
    }
}

fn library(c: &mut Case, m: &MG) {
    match cycles(m, 400_000) {
        Some(a) => library_of(c, m, a),
        None => c.count("cases too large for the oracle", 1),
    }
}

/// `all`: the elementary cycles of the graph
fn library_of(c: &mut Case, m: &MG, all: BTreeSet<Vec<u64>>) {
    let mut r = c.rng.clone();
    c.desc(m.show());
    let must = must_report(m, &all);
    let g = c.guard("building the graph", || m.build(&mut r));
    let limit = all.len();
    let e: Vec<Vec<u64>> = c.guard("cycle_iter", || crate::checks::walk::limited(cycle_iter(&g), limit).iter().map(vl).collect());
    genuine(c, &e, m, "cycle_iter");
    let es: BTreeSet<Vec<u64>> = e.iter().cloned().collect();
    if let Some(x) = must.iter().find(|x| !es.contains(*x)) {
        c.fail(&format!("cycle_iter: the cycle {:?} is missing (reported {} of {})", x, es.len(), must.len()));
    }
    // the selections, on the same graph object
    let first = c.guard("first", || cycle::first(&g).map(|x| vl(&x)));
    c.check(first.is_some() == !e.is_empty(), || format!("first = {:?}, {} cycles", first, e.len()));
    if let Some(f) = &first {
        c.check(es.contains(f), || format!("first = {:?} is not in the enumeration", f));
    }
    let n = c.guard("count", || cycle::count(&g));
    c.check(n == e.len(), || format!("count = {}, the enumeration has {}", n, e.len()));
    for k in [0, 1, 2, r.us(0, e.len() + 2), e.len(), e.len() + 1, usize::MAX].iter() {
        let t: Vec<Vec<u64>> = c.guard("take", || cycle::take(&g, *k).iter().map(vl).collect());
        c.check(t.len() == e.len().min(*k), || format!("take({}) gives {} of {} cycles", k, t.len(), e.len()));
        genuine(c, &t, m, "take");
        c.check(t.iter().all(|x| es.contains(x)), || format!("take({}) differs from the enumeration", k));
    }
    let ta: BTreeSet<Vec<u64>> = c.guard("take_all", || cycle::take_all(&g).iter().map(vl).collect());
    c.check(ta == es, || "take_all differs from the enumeration".into());
    let lo = e.iter().map(|x| x.len()).min();
    let hi = e.iter().map(|x| x.len()).max();
    let gi = c.guard("girth", || cycle::girth(&g));
    c.check(gi == lo, || format!("girth = {:?}, expected {:?}", gi, lo));
    let sh = c.guard("shortest", || cycle::shortest(&g).map(|x| vl(&x)));
    c.check(sh.as_ref().map(|x| x.len()) == lo && sh.iter().all(|x| es.contains(x)), || {
        format!("shortest = {:?}, the shortest has length {:?}", sh, lo)
    });
    let ln = c.guard("longest", || cycle::longest(&g).map(|x| vl(&x)));
    c.check(ln.as_ref().map(|x| x.len()) == hi && ln.iter().all(|x| es.contains(x)), || {
        format!("longest = {:?}, the longest has length {:?}", ln, hi)
    });
    let ha = c.guard("hamiltonian", || cycle::hamiltonian(&g).map(|x| vl(&x)));
    let exists = m.n() > 0 && hi == Some(m.n());
    c.check(ha.is_some() == exists, || format!("hamiltonian = {:?}, but such a cycle exists: {}", ha, exists));
    if let Some(h) = &ha {
        c.check(h.len() == m.n() && es.contains(h), || format!("hamiltonian = {:?}", h));
        c.count("hamiltonian cycles", 1);
    }
    c.count("cycles reported", e.len() as u64);
    c.count("cycles required", must.len() as u64);
    if must.len() < all.len() {
        c.count("graphs with cycles that need not be reported", 1);
    }
    if all.is_empty() {
        c.count("acyclic graphs", 1);
    }
    if !m.indeg().values().any(|d| *d == 0) && m.n() > 1 {
        c.count("graphs without a source", 1);
    }
    c.max("cycles in a graph", e.len() as u64);
    if !all.is_empty() {
        c.distinct(m.hash());
    }
    c.sample(|| format!("{} -> {:?}", m.show(), e));
}

/// several strongly connected parts, joined or not
fn parts(r: &mut Rng) -> MG {
    let k = r.us(2, 3);
    let mut n = 0;
    let mut e = vec![];
    let mut reps = vec![];
    for _ in 0..k {
        let s = r.us(1, 4);
        reps.push(n + r.below(s));
        for i in 0..s {
            if s > 1 || r.chance(1, 2) {
                e.push((n + i, n + (i + 1) % s));
            }
        }
        if s > 2 && r.chance(1, 2) {
            e.push((n + r.below(s), n + r.below(s)));
        }
        n += s;
    }
    for i in 1..reps.len() {
        if r.chance(1, 2) {
            e.push((reps[r.below(i)], reps[i]));
        }
    }
    if r.chance(1, 3) {
        // a source
        e.push((n, reps[r.below(reps.len())]));
        n += 1;
    }
    e.sort();
    e.dedup();
    gen::relabel(r, n, &e)
}

pub fn c07(ctx: &'static Ctx) {
    ctx.rule(
        "A case counts as distinct and non-trivial when its graph (vertex set and edge set) has not been seen and has at \
         least one elementary cycle. The oracle enumerates all elementary cycles by a bounded search rooted at each \
         cycle's smallest vertex, independent of the code under test.",
    );
    ctx.assume("cycles that no source vertex reaches may be left out when the graph has a source (documented limitation of the enumeration)");
    ctx.require(&[
        "cycles reported",
        "hamiltonian cycles",
        "acyclic graphs",
        "graphs without a source",
        "graphs with one cycle that stands out",
        "graphs with rare hamiltonian cycles",
        "long chains with edges back",
    ]);
    ctx.set_exhaustive_note("all digraphs up to 3 vertices, loop-free with 4");
    ctx.par("all-small", gen::small_count(), |c| {
        let mut r = c.rng.clone();
        let m = gen::small(&mut r, c.idx);
        library(c, &m);
    });
    ctx.par("shapes", ctx.scale(6000, 120000), |c| {
        let mut r = c.rng.clone();
        let n = if r.chance(3, 4) { r.us(1, 9) } else { gen::size(&mut r, 60) };
        let m = gen::graph(&mut r, n);
        if simple_path_total(&m, 20_000).is_none() {
            c.count("cases skipped: too many paths", 1);
            return;
        }
        library(c, &m);
    });
    ctx.par("parts", ctx.scale(5000, 80000), |c| {
        let mut r = c.rng.clone();
        let m = parts(&mut r);
        if simple_path_total(&m, 20_000).is_none() {
            return;
        }
        library(c, &m);
    });
    ctx.par("rings", ctx.scale(200, 3000), |c| {
        // few but long cycles
        let mut r = c.rng.clone();
        let n = if c.idx % 10 == 0 { r.us(200, 700) } else { r.us(20, 120) };
        let mut e: Vec<(usize, usize)> = (0..n).map(|i| (i, (i + 1) % n)).collect();
        for _ in 0..r.us(0, 3) {
            e.push((r.below(n), r.below(n)));
        }
        if r.chance(1, 2) {
            e.push((n, 0));
        }
        let m = gen::relabel(&mut r, n + 1, &e);
        if simple_path_total(&m, 20_000).is_some() {
            library(c, &m);
        }
    });
    ctx.par("long-chains", ctx.scale(30, 400), |c| {
        // a long chain with edges back: hundreds of cycles of all lengths, far from the start
        let mut r = c.rng.clone();
        let n = r.us(100, 600);
        // n: the only way in, so that every search takes the chain from its beginning
        let mut e: Vec<(usize, usize)> = (1..n).map(|i| (i - 1, i)).collect();
        e.push((n, 0));
        let every = r.us(1, 4);
        let short = r.chance(1, 3);
        for i in 0..n {
            if r.chance(1, every as u32) {
                e.push((i, if short { i - i.min(r.below(5)) } else { r.below(i + 1) }));
            }
        }
        if r.chance(1, 2) {
            e.push((n - 1, 0));
        }
        e.sort();
        e.dedup();
        let l = gen::labels(&mut r, n + 1);
        let mut m = MG::new();
        e.iter().for_each(|(a, b)| {
            m.add_e(l[*a], l[*b]);
        });
        // every edge back closes one cycle: the stretch of the chain it spans
        let all = e
            .iter()
            .filter(|(a, b)| a >= b && *a < n)
            .map(|(a, b)| {
                let mut k: Vec<u64> = l[*b..=*a].to_vec();
                let p = (0..k.len()).min_by_key(|i| k[*i]).unwrap();
                k.rotate_left(p);
                k
            })
            .collect();
        library_of(c, &m, all);
        c.count("long chains with edges back", 1);
    });
    ctx.par("flowers", ctx.scale(20, 200), |c| {
        // many cycles of one length, one that stands out
        let mut r = c.rng.clone();
        let m = flower(&mut r, 1500);
        library(c, &m);
        c.count("graphs with one cycle that stands out", 1);
    });
    ctx.par("rare-hamiltonian", ctx.scale(4, 64), |c| {
        // thousands of cycles, of which a handful visit every vertex
        let mut r = c.rng.clone();
        let core = 8;
        let mut e = gen::nth(core, false, u64::MAX);
        let mut n = core;
        for i in 0..3 + (c.idx % 2) as usize {
            // a vertex that can only be visited between two given ones
            e.push((2 * i, n));
            e.push((n, 2 * i + 1));
            n += 1;
        }
        let m = gen::relabel(&mut r, n, &e);
        library(c, &m);
        c.count("graphs with rare hamiltonian cycles", 1);
    });
}

/// petals of the same length around one vertex, and one longer or shorter petal; a way in makes the enumeration start there
fn flower(r: &mut Rng, max: usize) -> MG {
    let k = *r.pick(&[33, 70, 130, 300, max / 2, max]);
    let long = r.chance(1, 2);
    let at = r.below(k.min(max));
    MG::of(&flower_of(r, k.min(max), long, at))
}

/// k cycles through one vertex, one of them longer or shorter than the rest; edges in order
fn flower_of(r: &mut Rng, k: usize, long: bool, at: usize) -> Vec<Cmd> {
    let base = if long { 2 } else { 3 };
    let odd = if long { r.us(3, 12) } else { r.us(1, 2) };
    let mut e = vec![(0, 1)];
    let mut n = 2;
    for i in 0..k {
        let l = if i == at { odd } else { base };
        let mut prev = 1;
        for _ in 1..l {
            e.push((prev, n));
            prev = n;
            n += 1;
        }
        e.push((prev, 1));
    }
    let l = gen::labels(r, n);
    e.iter().map(|(a, b)| Cmd::AE(l[*a], l[*b])).collect()
}

// ---------- C17 ----------

struct Q {
    args: Vec<String>,
    inc: Vec<u64>,
    exc: Vec<u64>,
    ince: Vec<(u64, u64)>,
    exce: Vec<(u64, u64)>,
    lo: i128,
    hi: i128,
}

fn edges_of(k: &[u64]) -> BTreeSet<(u64, u64)> {
    (0..k.len()).map(|i| (k[i], k[(i + 1) % k.len()])).collect()
}

impl Q {
    fn none() -> Q {
        Q { args: vec![], inc: vec![], exc: vec![], ince: vec![], exce: vec![], lo: i128::MIN, hi: i128::MAX }
    }
    fn holds(&self, k: &[u64]) -> bool {
        let e = edges_of(k);
        let n = k.len() as i128;
        self.inc.iter().all(|v| k.contains(v))
            && self.exc.iter().all(|v| !k.contains(v))
            && self.ince.iter().all(|x| e.contains(x))
            && self.exce.iter().all(|x| !e.contains(x))
            && n >= self.lo
            && n <= self.hi
    }
    fn bound(&mut self, name: &str, v: i128) {
        self.args.push(format!("--{}", name));
        self.args.push(v.to_string());
        if name.starts_with("min") || name.starts_with("exact") {
            self.lo = self.lo.max(v);
        }
        if name.starts_with("max") || name.starts_with("exact") {
            self.hi = self.hi.min(v);
        }
    }
    fn vlist(&mut self, name: &str, l: &[u64]) {
        self.args.push(format!("--{}", name));
        for v in l {
            self.args.push(v.to_string());
        }
        if name.starts_with("inc") {
            self.inc = l.to_vec()
        } else {
            self.exc = l.to_vec()
        }
    }
    fn elist(&mut self, name: &str, l: &[(u64, u64)]) {
        self.args.push(format!("--{}", name));
        for v in l {
            self.args.push(v.0.to_string());
            self.args.push(v.1.to_string());
        }
        if name.starts_with("inc") {
            self.ince = l.to_vec()
        } else {
            self.exce = l.to_vec()
        }
    }
}

const BOUNDS: [&str; 6] = ["min-length", "max-length", "exact-length", "min-score", "max-score", "exact-score"];

/// how many values to give to an option: mostly few, at times all there are
fn count(r: &mut Rng, few: usize) -> usize {
    if r.chance(1, 4) {
        40
    } else {
        r.us(1, few)
    }
}

/// one option, biased to values that separate the cycles at hand and hold for the target
fn part(r: &mut Rng, m: &MG, target: &[u64], real: bool, k: usize) -> Option<Q> {
    let mut q = Q::none();
    let vs = m.vlist();
    let es: Vec<(u64, u64)> = m.edges.iter().cloned().collect();
    match k {
        0 => {
            let mut l = if r.chance(4, 5) && !target.is_empty() { target.to_vec() } else { vs.clone() };
            r.shuffle(&mut l);
            l.truncate(count(r, 3));
            if r.chance(1, 10) {
                // no cycle contains a vertex that is not there
                l.push(3_000_000 + r.below(9) as u64);
                r.shuffle(&mut l);
            }
            if l.is_empty() {
                return None;
            }
            q.vlist("include-all", &l);
        }
        1 => {
            let mut l: Vec<u64> = vs.iter().filter(|v| !target.contains(v) || r.chance(1, 4)).cloned().collect();
            r.shuffle(&mut l);
            l.truncate(count(r, 2));
            if r.chance(1, 6) {
                // vertices that are not in the graph have no say
                let k = r.us(1, 20);
                let mut w: Vec<u64> = (0..k as u64).map(|i| 3_000_000 + i).collect();
                w.append(&mut l);
                l = w;
            }
            if l.is_empty() {
                return None;
            }
            q.vlist("exclude-all", &l);
        }
        2 => {
            let mut l: Vec<(u64, u64)> = if r.chance(4, 5) && real {
                let mut l: Vec<_> = edges_of(target).into_iter().collect();
                if r.chance(1, 2) {
                    // the closing edge first
                    l = vec![(*target.last().unwrap(), target[0])];
                }
                l
            } else {
                es
            };
            r.shuffle(&mut l);
            l.truncate(count(r, 2));
            if r.chance(1, 10) && !vs.is_empty() {
                // nor an edge that is not there
                let (a, b) = (*r.pick(&vs), *r.pick(&vs));
                l.push(match r.below(3) {
                    0 => (a, 3_000_001),
                    1 => (3_000_001, b),
                    _ => (a, b),
                });
                r.shuffle(&mut l);
            }
            if l.is_empty() {
                return None;
            }
            q.elist("include-all-edges", &l);
        }
        3 => {
            let mut l: Vec<(u64, u64)> = if r.chance(1, 2) && real {
                vec![(*target.last().unwrap(), target[0])]
            } else {
                let te = edges_of(target);
                es.into_iter().filter(|e| !te.contains(e) || r.chance(1, 4)).collect()
            };
            r.shuffle(&mut l);
            l.truncate(count(r, 2));
            if l.is_empty() {
                return None;
            }
            q.elist("exclude-all-edges", &l);
        }
        k => {
            let v = if real { target.len() } else { r.us(0, 4) } as i128;
            let v = if r.chance(2, 3) { v } else { (v + r.range(-1, 1) as i128).max(0) };
            q.bound(BOUNDS[k - 4], v);
        }
    }
    Some(q)
}

fn merge(parts: &[Q]) -> Q {
    let mut q = Q::none();
    for p in parts {
        q.args.extend(p.args.iter().cloned());
        q.inc.extend(&p.inc);
        q.exc.extend(&p.exc);
        q.ince.extend(&p.ince);
        q.exce.extend(&p.exce);
        q.lo = q.lo.max(p.lo);
        q.hi = q.hi.min(p.hi);
    }
    q
}

fn query_parts(r: &mut Rng, m: &MG, all: &BTreeSet<Vec<u64>>, max: usize) -> Vec<Q> {
    let list: Vec<&Vec<u64>> = all.iter().collect();
    let target: Vec<u64> = if list.is_empty() { m.vlist() } else { (*r.pick(&list)).clone() };
    let mut used = BTreeSet::new();
    let mut parts = vec![];
    for _ in 0..r.us(0, max) {
        let k = r.below(10);
        if used.insert(k) {
            parts.extend(part(r, m, &target, !list.is_empty(), k));
        }
    }
    parts
}

fn query(r: &mut Rng, m: &MG, all: &BTreeSet<Vec<u64>>) -> Q {
    let p = query_parts(r, m, all, 2);
    merge(&p)
}

/// several options, none of which could be left out without changing the answer
fn tight_query(r: &mut Rng, m: &MG, all: &BTreeSet<Vec<u64>>) -> (Q, usize) {
    let sel = |p: &[Q]| {
        let q = merge(p);
        all.iter().filter(|k| q.holds(k)).count()
    };
    let mut best: (Vec<Q>, usize) = (vec![], 0);
    for _ in 0..25 {
        let mut p = query_parts(r, m, all, 9);
        let mut i = 0;
        while i < p.len() {
            let n = sel(&p);
            let x = p.remove(i);
            if sel(&p) != n {
                p.insert(i, x);
                i += 1;
            }
        }
        if p.len() > best.1 || (p.len() == best.1 && r.chance(1, 3)) {
            let n = p.len();
            best = (p, n);
        }
    }
    r.shuffle(&mut best.0);
    (merge(&best.0), best.1)
}

fn ask(c: &mut Case, d: &Dir, m: &MG, all: &BTreeSet<Vec<u64>>, must: &BTreeSet<Vec<u64>>, q: &Q, act: usize) {
    let hi: BTreeSet<&Vec<u64>> = all.iter().filter(|k| q.holds(k)).collect();
    let lo: BTreeSet<&Vec<u64>> = must.iter().filter(|k| q.holds(k)).collect();
    let mut r = c.rng.clone();
    let n = *r.pick(&[0, 1, 2, 3, lo.len(), hi.len() + 1]);
    let a: Vec<String> = match act {
        0 => vec!["--all".into()],
        1 => vec!["--count".into()],
        2 => vec!["--head".into()],
        3 => vec!["--take-n".into(), n.to_string()],
        4 => vec!["--shortest".into()],
        5 => vec!["--longest".into()],
        6 => vec!["--girth".into()],
        _ => vec!["--hamiltonian".into()],
    };
    let a: Vec<String> = if r.chance(1, 2) {
        a.iter()
            .map(|x| match x.as_str() {
                "--all" => "-a".into(),
                "--count" => "-c".into(),
                "--head" => "-h".into(),
                "--take-n" => "-n".into(),
                "--shortest" => "-s".into(),
                "--longest" => "-L".into(),
                x => x.to_string(),
            })
            .collect()
    } else {
        a
    };
    // girth and hamiltonian describe the whole graph, or refuse the constraints
    let with = if act >= 6 && c.idx % 2 == 0 { &[][..] } else { &q.args[..] };
    let run = if r.chance(1, 2) {
        prog(c.ctx, "gc-cycle").at(&d.root).args(&a).args(with)
    } else {
        prog(c.ctx, "gc-cycle").args(with).args(&a).at(&d.root)
    };
    let o = go(c, run);
    if act >= 6 && !with.is_empty() {
        c.count("whole-graph questions with constraints", 1);
        if !o.ok() {
            return;
        }
    }
    c.check(o.ok(), || format!("gc-cycle failed\n{}", o.brief()));
    let out = o.out.trim();
    let member = |k: &Vec<u64>| {
        c.check(is_cycle(m, k) && canon(k) == *k, || format!("{:?} is not a cycle of the graph in canonical form", k));
        c.check(q.holds(k), || format!("{:?} breaks the constraints {:?}", k, q.args));
    };
    match act {
        0 | 2 | 3 => {
            let max = match act {
                0 => usize::MAX,
                2 => 1,
                _ => n,
            };
            for l in out.lines() {
                c.check(l.trim().starts_with('['), || format!("unexpected output line {:?}", l));
            }
            let got = cycle_lines(&o.out);
            let set = as_set(&got);
            c.check(set.len() == got.len(), || "a cycle is printed twice".into());
            for k in &got {
                member(k);
            }
            c.check(got.len() <= max, || format!("{} cycles printed, {} asked for", got.len(), max));
            c.check(got.len() >= lo.len().min(max), || {
                format!("{} cycles printed, {} satisfy the constraints {:?}", got.len(), lo.len(), q.args)
            });
            if act == 0 {
                if let Some(k) = lo.iter().find(|k| !set.contains(**k)) {
                    c.fail(&format!("the cycle {:?} satisfies the constraints {:?} but is not printed", k, q.args));
                }
            }
            c.count("cycles printed", got.len() as u64);
        }
        1 => {
            let v = nums(out);
            c.check(out.starts_with("count:") && v.len() == 1, || format!("no count\n{}", o.brief()));
            let v = v[0] as usize;
            c.check(v >= lo.len() && v <= hi.len(), || {
                format!("count {} printed, {} cycles satisfy the constraints {:?}", v, lo.len(), q.args)
            });
        }
        4 | 5 => {
            let label = if act == 4 { "shortest cycle:" } else { "longest cycle:" };
            c.check(out.starts_with(label), || format!("no answer\n{}", o.brief()));
            match cycle_of(out) {
                None => {
                    c.check(out.contains("N/A"), || format!("no answer\n{}", o.brief()));
                    c.check(lo.is_empty(), || format!("N/A, but {:?} satisfies the constraints", lo.iter().next()));
                    c.count("N/A answers", 1);
                }
                Some(k) => {
                    member(&k);
                    let lens = lo.iter().map(|x| x.len());
                    let best = if act == 4 { lens.min() } else { lens.max() };
                    if let Some(b) = best {
                        c.check(if act == 4 { k.len() <= b } else { k.len() >= b }, || {
                            format!("{:?} printed as {}, but one of length {} satisfies {:?}", k, label, b, q.args)
                        });
                    }
                }
            }
        }
        6 => {
            c.check(out.starts_with("girth:"), || format!("no answer\n{}", o.brief()));
            let b = must.iter().map(|x| x.len()).min();
            if out.contains("Infinity") {
                c.check(b.is_none(), || format!("girth Infinity, but there is a cycle of length {}", b.unwrap()));
                c.count("Infinity answers", 1);
            } else {
                let v = nums(out);
                c.check(v.len() == 1 && all.iter().any(|k| k.len() as u64 == v[0]), || format!("girth {:?}", v));
                c.check(b.map(|b| v[0] <= b as u64).unwrap_or(true), || format!("girth {:?}, expected {:?}", v, b));
            }
        }
        _ => {
            c.check(out.starts_with("hamiltonian:"), || format!("no answer\n{}", o.brief()));
            match cycle_of(out) {
                None => {
                    c.check(out.contains("N/A"), || format!("no answer\n{}", o.brief()));
                    c.check(!must.iter().any(|k| k.len() == m.n()), || "hamiltonian: N/A, but there is one".into());
                }
                Some(k) => {
                    c.check(is_cycle(m, &k) && k.len() == m.n() && canon(&k) == k, || {
                        format!("hamiltonian: {:?} is not a Hamiltonian cycle", k)
                    });
                    c.count("hamiltonian cycles", 1);
                }
            }
        }
    }
    if act < 6 && !q.args.is_empty() {
        c.count("constrained queries", 1);
        if !hi.is_empty() && hi.len() < all.len() {
            c.count("constraints that separate cycles", 1);
        }
    }
}

fn cli_graph(r: &mut Rng) -> MG {
    match r.below(4) {
        0 => parts(r),
        1 => {
            let n = r.us(3, 5);
            let e = gen::nth(n, false, r.u64() | r.u64());
            gen::relabel(r, n, &e)
        }
        2 => {
            // rings sharing a vertex, with a tail into them
            let mut e = vec![(0, 1)];
            let mut n = 2;
            for _ in 0..r.us(1, 3) {
                let l = r.us(1, 4);
                let mut prev = 1;
                for _ in 1..l {
                    e.push((prev, n));
                    prev = n;
                    n += 1;
                }
                e.push((prev, 1));
            }
            e.sort();
            e.dedup();
            gen::relabel(r, n, &e)
        }
        _ => {
            let n = r.us(1, 7);
            gen::graph(r, n)
        }
    }
}

pub fn c17(ctx: &'static Ctx) {
    ctx.rule(
        "A case counts as distinct and non-trivial when its pair (graph with at least one elementary cycle, query) has not \
         been seen. The answer of the real gc-cycle binary is compared with the cycles of a brute-force enumeration that \
         satisfy a plain evaluation of the options.",
    );
    ctx.assume("cycles that no source vertex reaches may be left out when the graph has a source (documented limitation of the enumeration)");
    ctx.require(&[
        "constrained queries",
        "graphs with many cycles or long ones",
        "whole-graph questions with constraints",
        "queries where each of three or more options matters",
        "constraints that separate cycles",
        "cycles printed",
        "hamiltonian cycles",
        "Infinity answers",
        "N/A answers",
    ]);
    let case = |c: &mut Case, m: &MG, tight: bool, bounded: bool| {
        c.desc(m.show());
        let all = match cycles(m, 200_000) {
            Some(a) => a,
            None => return,
        };
        if !bounded && simple_path_total(m, 20_000).is_none() {
            c.count("cases skipped: too many paths", 1);
            return;
        }
        let must = must_report(m, &all);
        let d = Dir::new(c);
        let mut r = c.rng.clone();
        let noise = r.chance(1, 2);
        d.put(lines_of(&m.history(&mut r, noise)).as_bytes());
        let q = if tight {
            let (q, n) = tight_query(&mut r, m, &all);
            if n >= 2 {
                c.count("queries where each of two or more options matters", 1);
            }
            if n >= 3 {
                c.count("queries where each of three or more options matters", 1);
            }
            c.max("options that all matter", n as u64);
            q
        } else {
            query(&mut r, m, &all)
        };
        let acts: Vec<usize> = if c.idx % 3 == 0 || bounded { (0..8).collect() } else { vec![0, r.us(1, 7)] };
        for a in acts {
            ask(c, &d, m, &all, &must, &q, a);
        }
        if !all.is_empty() {
            c.distinct(mix(m.hash(), fnv(q.args.join(" ").as_bytes())));
        }
        c.sample(|| format!("{} ? {:?}", m.show(), q.args));
    };
    // every option on its own, at every interesting value, on a graph whose cycles differ in length
    let base = {
        let mut m = MG::new();
        for (a, b) in [(1, 2), (2, 1), (2, 3), (3, 1), (3, 4), (4, 1), (5, 5), (4, 5), (5, 6), (6, 2), (2, 5)].iter() {
            m.add_e(*a, *b);
        }
        m
    };
    let ref_cycles = cycles(&base, 100_000).unwrap();
    let mut list: Vec<Q> = vec![Q::none()];
    for b in BOUNDS.iter() {
        for v in 0..8 {
            let mut q = Q::none();
            q.bound(b, v);
            list.push(q);
        }
        let mut q = Q::none();
        q.bound(b, 1_000_000);
        list.push(q);
    }
    for a in base.vlist() {
        for name in ["include-all", "exclude-all"].iter() {
            let mut q = Q::none();
            q.vlist(name, &[a]);
            list.push(q);
            for b in base.vlist() {
                if a < b {
                    let mut q = Q::none();
                    q.vlist(name, &[a, b]);
                    list.push(q);
                }
            }
        }
    }
    let (v0, none) = (base.vlist()[0], 3_000_001);
    for l in [vec![none], vec![v0, none], vec![none, v0]] {
        for name in ["include-all", "exclude-all"].iter() {
            let mut q = Q::none();
            q.vlist(name, &l);
            list.push(q);
        }
    }
    for l in [vec![(v0, none)], vec![(none, v0)], vec![(none, none)], vec![(v0, v0)]] {
        for name in ["include-all-edges", "exclude-all-edges"].iter() {
            let mut q = Q::none();
            q.elist(name, &l);
            list.push(q);
        }
    }
    let es: Vec<(u64, u64)> = base.edges.iter().cloned().collect();
    for (i, e) in es.iter().enumerate() {
        for name in ["include-all-edges", "exclude-all-edges"].iter() {
            let mut q = Q::none();
            q.elist(name, &[*e]);
            list.push(q);
            let mut q = Q::none();
            q.elist(name, &[*e, es[(i + 3) % es.len()]]);
            list.push(q);
            let mut q = Q::none();
            q.elist(name, &[(e.1, e.0)]);
            list.push(q);
        }
    }
    let must = must_report(&base, &ref_cycles);
    ctx.set_exhaustive_note("every constraint option on its own over a reference graph");
    ctx.par("each-option", list.len() as u64, |c| {
        let q = &list[c.idx as usize];
        c.desc(base.show());
        let d = Dir::new(c);
        let mut r = c.rng.clone();
        d.put(lines_of(&base.history(&mut r, true)).as_bytes());
        for a in 0..6 {
            ask(c, &d, &base, &ref_cycles, &must, q, a);
        }
        c.distinct(fnv(q.args.join(" ").as_bytes()));
    });
    ctx.par("random", ctx.scale(1500, 15000), |c| {
        let mut r = c.rng.clone();
        let m = cli_graph(&mut r);
        case(c, &m, false, false);
    });
    // many cycles, and long lists of values
    ctx.par("many", ctx.scale(120, 1500), |c| {
        let mut r = c.rng.clone();
        let m = match r.below(3) {
            0 => {
                // nearly complete
                let n = r.us(5, 6);
                let mut e = gen::nth(n, false, u64::MAX);
                for _ in 0..r.us(0, 3) {
                    let k = r.below(e.len());
                    e.remove(k);
                }
                gen::relabel(&mut r, n, &e)
            }
            1 => {
                // a long ring with chords forwards, so that all cycles are long
                let n = r.us(10, 24);
                let mut e: Vec<(usize, usize)> = (0..n).map(|i| (i, (i + 1) % n)).collect();
                for _ in 0..r.us(1, 5) {
                    let a = r.below(n - 2);
                    e.push((a, r.us(a + 2, n - 1)));
                }
                e.sort();
                e.dedup();
                gen::relabel(&mut r, n, &e)
            }
            _ => {
                // flower: many short cycles through one vertex
                let n = r.us(40, 130);
                let e: Vec<(usize, usize)> = (1..n).flat_map(|i| vec![(0, i), (i, 0)]).collect();
                gen::relabel(&mut r, n, &e)
            }
        };
        case(c, &m, false, false);
        c.count("graphs with many cycles or long ones", 1);
    });
    // long cycles that differ a little, options with long lists and large bounds
    ctx.par("long-options", ctx.scale(150, 2000), |c| {
        let mut r = c.rng.clone();
        let n = r.us(9, 45);
        let mut e: Vec<(usize, usize)> = (0..n).map(|i| (i, (i + 1) % n)).collect();
        for _ in 0..r.us(2, 6) {
            let a = r.below(n - 2);
            e.push((a, (a + r.us(2, 3)).min(n - 1)));
        }
        e.sort();
        e.dedup();
        let m = gen::relabel(&mut r, n, &e);
        c.desc(m.show());
        let all = match cycles(&m, 5_000) {
            Some(a) => a,
            None => return,
        };
        let must = must_report(&m, &all);
        let list: Vec<Vec<u64>> = all.iter().cloned().collect();
        let t = r.pick(&list).clone();
        let mut q = Q::none();
        match c.idx % 6 {
            0 => {
                let mut l = t.clone();
                for _ in 0..r.below(3) {
                    let k = r.below(l.len());
                    l.remove(k);
                }
                r.shuffle(&mut l);
                q.vlist("include-all", &l);
            }
            1 => {
                let mut l: Vec<u64> = m.vlist().into_iter().filter(|v| !t.contains(v)).collect();
                for i in 0..r.us(5, 40) {
                    l.push(3_000_000 + i as u64);
                }
                r.shuffle(&mut l);
                q.vlist("exclude-all", &l);
            }
            2 => {
                let mut l: Vec<(u64, u64)> = edges_of(&t).into_iter().collect();
                for _ in 0..r.below(3) {
                    let k = r.below(l.len());
                    l.remove(k);
                }
                r.shuffle(&mut l);
                q.elist("include-all-edges", &l);
            }
            3 => {
                let te = edges_of(&t);
                let mut l: Vec<(u64, u64)> = m.edges.iter().filter(|x| !te.contains(x)).cloned().collect();
                for i in 0..r.us(5, 30) {
                    l.push((3_000_000 + i as u64, t[0]));
                }
                r.shuffle(&mut l);
                q.elist("exclude-all-edges", &l);
            }
            k => {
                let v = t.len() as i128 + r.range(-1, 1) as i128;
                q.bound(BOUNDS[(k as usize - 4) * 3 + r.below(3)], v);
            }
        }
        let d = Dir::new(c);
        d.put(lines_of(&m.history(&mut r, true)).as_bytes());
        for a in [0, 1, r.us(2, 7)] {
            ask(c, &d, &m, &all, &must, &q, a);
        }
        c.count("queries with long lists or large bounds", 1);
        c.distinct(mix(m.hash(), fnv(q.args.join(" ").as_bytes())));
    });
    // several options at once, each of which matters
    ctx.par("tight", ctx.scale(800, 8000), |c| {
        let mut r = c.rng.clone();
        let n = r.us(4, 6);
        let mut e = gen::nth(n, r.chance(1, 3), u64::MAX);
        let drop = e.len() * r.us(1, 5) / 10;
        for _ in 0..drop {
            let k = r.below(e.len());
            e.remove(k);
        }
        let m = gen::relabel(&mut r, n, &e);
        case(c, &m, true, false);
    });
    // one cycle that stands out among many
    ctx.par("flowers", ctx.scale(24, 144), |c| {
        let mut r = c.rng.clone();
        let k = [40, 140, 300, 700, 1300, 2600][c.idx as usize / 4 % 6];
        let h = flower_of(&mut r, k, c.idx % 2 == 0, if c.idx % 4 < 2 { k - 1 } else { 0 });
        let m = MG::of(&h);
        c.desc(m.show());
        let all = match cycles(&m, 200_000) {
            Some(a) => a,
            None => return,
        };
        let must = must_report(&m, &all);
        let d = Dir::new(c);
        d.put(lines_of(&h).as_bytes());
        let none = Q::none();
        for a in 0..8 {
            ask(c, &d, &m, &all, &must, &none, a);
        }
        c.distinct(m.hash());
    });
    ctx.par("flowers-options", ctx.scale(16, 150), |c| {
        let mut r = c.rng.clone();
        let m = flower(&mut r, 1500);
        case(c, &m, false, true);
    });
    ctx.par("no-cycle", ctx.scale(60, 600), |c| {
        let mut r = c.rng.clone();
        let n = r.us(0, 6);
        let mut m = gen::graph(&mut r, n);
        m.edges = m.edges.iter().filter(|e| e.0 < e.1).cloned().collect();
        case(c, &m, false, false);
    });
}
