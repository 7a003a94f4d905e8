//! Reference computations on the set model
use crate::model::MG;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet, VecDeque};

/// All simple paths from s, or None when there are more than `limit`
pub fn simple_paths(m: &MG, s: u64, limit: usize) -> Option<Vec<Vec<u64>>> {
    let adj = m.adj();
    let mut out: Vec<Vec<u64>> = vec![];
    // explicit stack: (path, next child index)
    let mut path = vec![s];
    let mut on: HashSet<u64> = HashSet::new();
    on.insert(s);
    let mut idx = vec![0usize];
    out.push(path.clone());
    while let Some(i) = idx.last_mut() {
        let u = *path.last().unwrap();
        let ch = match adj.get(&u) {
            Some(c) => c,
            None => return Some(out),
        };
        if *i < ch.len() {
            let v = ch[*i];
            *i += 1;
            if on.insert(v) {
                path.push(v);
                if out.len() >= limit {
                    return None;
                }
                out.push(path.clone());
                idx.push(0);
            }
        } else {
            idx.pop();
            on.remove(&path.pop().unwrap());
        }
    }
    Some(out)
}

/// number of simple paths from all vertices together, up to `limit`
pub fn simple_path_total(m: &MG, limit: usize) -> Option<usize> {
    let mut t = 0;
    for v in &m.verts {
        t += simple_paths(m, *v, limit)?.len();
        if t > limit {
            return None;
        }
    }
    Some(t)
}

/// All elementary cycles, each starting at its smallest vertex; None above `limit` search steps
pub fn cycles(m: &MG, limit: usize) -> Option<BTreeSet<Vec<u64>>> {
    let adj = m.adj();
    let mut out = BTreeSet::new();
    let mut steps = 0;
    for s in &m.verts {
        let mut path = vec![*s];
        let mut on: HashSet<u64> = HashSet::new();
        on.insert(*s);
        let mut idx = vec![0usize];
        while let Some(i) = idx.last_mut() {
            steps += 1;
            if steps > limit {
                return None;
            }
            let u = *path.last().unwrap();
            let ch = &adj[&u];
            if *i < ch.len() {
                let v = ch[*i];
                *i += 1;
                if v == *s {
                    out.insert(path.clone());
                } else if v > *s && on.insert(v) {
                    path.push(v);
                    idx.push(0);
                }
            } else {
                idx.pop();
                on.remove(&path.pop().unwrap());
            }
        }
    }
    Some(out)
}

pub fn is_cycle(m: &MG, c: &[u64]) -> bool {
    if c.is_empty() {
        return false;
    }
    let set: BTreeSet<&u64> = c.iter().collect();
    set.len() == c.len() && (0..c.len()).all(|i| m.edges.contains(&(c[i], c[(i + 1) % c.len()])))
}

/// the cycles the enumeration has to report: those reachable from a vertex without incoming edge,
/// or all of them if there is no such vertex
pub fn must_report(m: &MG, all: &BTreeSet<Vec<u64>>) -> BTreeSet<Vec<u64>> {
    let src: Vec<u64> = m.indeg().iter().filter(|x| *x.1 == 0).map(|x| *x.0).collect();
    if src.is_empty() {
        return all.clone();
    }
    let mut r: BTreeSet<u64> = BTreeSet::new();
    for s in src {
        if !r.contains(&s) {
            r.extend(m.reach(s).keys());
        }
    }
    all.iter().filter(|c| r.contains(&c[0])).cloned().collect()
}

pub type W = HashMap<(u64, u64), i64>;

/// Shortest distances by Bellman-Ford over wide integers; None: negative cycle reachable from s
pub fn distances(m: &MG, w: &W, s: u64) -> Option<BTreeMap<u64, i128>> {
    let mut d: BTreeMap<u64, i128> = BTreeMap::new();
    d.insert(s, 0);
    for round in 0..=m.n() {
        let mut changed = false;
        for (a, b) in &m.edges {
            if let Some(da) = d.get(a) {
                let nd = da + w[&(*a, *b)] as i128;
                if d.get(b).map(|x| nd < *x).unwrap_or(true) {
                    d.insert(*b, nd);
                    changed = true;
                }
            }
        }
        if !changed {
            return Some(d);
        }
        if round == m.n() {
            return None;
        }
    }
    Some(d)
}

/// Longest distances in a DAG
pub fn longest(m: &MG, w: &W, s: u64) -> BTreeMap<u64, i128> {
    let neg: W = w.iter().map(|(k, v)| (*k, -*v)).collect();
    distances(m, &neg, s).expect("acyclic").into_iter().map(|(k, v)| (k, -v)).collect()
}

/// cost of a walk, None if it uses a missing edge
pub fn walk_cost(m: &MG, w: &W, p: &[u64]) -> Option<i128> {
    let mut t = 0i128;
    if p.is_empty() || !m.verts.contains(&p[0]) {
        return None;
    }
    for x in p.windows(2) {
        if !m.edges.contains(&(x[0], x[1])) {
            return None;
        }
        t += w[&(x[0], x[1])] as i128;
    }
    Some(t)
}

/// Capacity of a minimum cut between s and t, certified by a flow of the same value
pub fn min_cut(m: &MG, cap: &HashMap<(u64, u64), u64>, s: u64, t: u64) -> u128 {
    let mut res: HashMap<u64, BTreeMap<u64, u128>> = HashMap::new();
    for v in &m.verts {
        res.insert(*v, BTreeMap::new());
    }
    for (a, b) in &m.edges {
        if a != b {
            *res.get_mut(a).unwrap().entry(*b).or_insert(0) += cap[&(*a, *b)] as u128;
            res.get_mut(b).unwrap().entry(*a).or_insert(0);
        }
    }
    let mut flow = 0u128;
    loop {
        let mut par: HashMap<u64, u64> = HashMap::new();
        let mut q = VecDeque::new();
        q.push_back(s);
        par.insert(s, s);
        while let Some(u) = q.pop_front() {
            for (v, c) in &res[&u] {
                if *c > 0 && !par.contains_key(v) {
                    par.insert(*v, u);
                    q.push_back(*v);
                }
            }
        }
        if !par.contains_key(&t) {
            // par = source side of a minimum cut
            let cut: u128 = m
                .edges
                .iter()
                .filter(|(a, b)| par.contains_key(a) && !par.contains_key(b))
                .map(|e| cap[e] as u128)
                .sum();
            assert_eq!(cut, flow, "oracle: cut and flow differ");
            return cut;
        }
        let mut b = u128::MAX;
        let mut v = t;
        while v != s {
            let u = par[&v];
            b = b.min(res[&u][&v]);
            v = u;
        }
        v = t;
        while v != s {
            let u = par[&v];
            *res.get_mut(&u).unwrap().get_mut(&v).unwrap() -= b;
            *res.get_mut(&v).unwrap().get_mut(&u).unwrap() += b;
            v = u;
        }
        flow += b;
    }
}

/// number of walks from s with cost <= maxcost (positive weights) and at most maxlen vertices,
/// saturating at `limit`
pub fn count_walks(m: &MG, w: &W, s: u64, maxcost: i128, maxlen: usize, limit: u64) -> u64 {
    let adj = m.adj();
    let mut cur: HashMap<(u64, i128), u64> = HashMap::new();
    cur.insert((s, 0), 1);
    let mut total = 1u64;
    let mut len = 1;
    while !cur.is_empty() && len < maxlen {
        let mut nx: HashMap<(u64, i128), u64> = HashMap::new();
        for ((v, c), k) in &cur {
            for x in adj.get(v).map(|a| a.as_slice()).unwrap_or(&[]) {
                let nc = c + w[&(*v, *x)] as i128;
                if nc <= maxcost {
                    let e = nx.entry((*x, nc)).or_insert(0);
                    *e = e.saturating_add(*k);
                }
            }
        }
        for k in nx.values() {
            total = total.saturating_add(*k);
        }
        if total > limit {
            return limit + 1;
        }
        cur = nx;
        len += 1;
    }
    total
}
