//! Plain meaning of path constraints, and cheapest constrained paths by a product construction
use crate::model::*;
use crate::oracle::W;
use crate::util::*;
use gc_core::constraint::constraint::Constraint;
use std::collections::{BTreeSet, BinaryHeap, HashMap, HashSet};

#[derive(Clone, Debug, PartialEq)]
pub enum K {
    V(u64),
    E(u64, u64),
    Ord(Vec<u64>),
    Cyc,
    MinL(usize),
    MaxL(usize),
    MinS(i64),
    MaxS(i64),
    Or(Box<K>, Box<K>),
    Xor(Box<K>, Box<K>),
    And(Box<K>, Box<K>),
    Not(Box<K>),
}

pub fn not(k: K) -> K {
    K::Not(Box::new(k))
}

impl K {
    pub fn real(&self) -> Constraint {
        use gc_core::graph::VertexId;
        let b = |k: &Box<K>| Box::new(k.real());
        match self {
            K::V(v) => Constraint::ContainsVertex(VertexId(*v)),
            K::E(x, y) => Constraint::ContainsEdge(ed(*x, *y)),
            K::Ord(l) => Constraint::OrderedVertices(vids(l)),
            K::Cyc => Constraint::ContainsCycle,
            K::MinL(n) => Constraint::MinLength(*n),
            K::MaxL(n) => Constraint::MaxLength(*n),
            K::MinS(n) => Constraint::MinScore(*n),
            K::MaxS(n) => Constraint::MaxScore(*n),
            K::Or(x, y) => Constraint::Or(b(x), b(y)),
            K::Xor(x, y) => Constraint::Xor(b(x), b(y)),
            K::And(x, y) => Constraint::And(b(x), b(y)),
            K::Not(x) => Constraint::Not(b(x)),
        }
    }
    /// truth on a complete path
    pub fn holds(&self, p: &[u64], score: i128) -> bool {
        match self {
            K::V(v) => p.contains(v),
            K::E(x, y) => p.windows(2).any(|w| w[0] == *x && w[1] == *y),
            K::Ord(l) => {
                let pos: Vec<usize> = p.iter().filter_map(|v| l.iter().position(|x| x == v)).collect();
                pos.windows(2).all(|w| w[0] <= w[1])
            }
            K::Cyc => {
                let s: HashSet<&u64> = p.iter().collect();
                s.len() < p.len()
            }
            K::MinL(n) => p.len() >= *n,
            K::MaxL(n) => p.len() <= *n,
            K::MinS(n) => score >= *n as i128,
            K::MaxS(n) => score <= *n as i128,
            K::Or(x, y) => x.holds(p, score) | y.holds(p, score),
            K::Xor(x, y) => x.holds(p, score) != y.holds(p, score),
            K::And(x, y) => x.holds(p, score) & y.holds(p, score),
            K::Not(x) => !x.holds(p, score),
        }
    }
    /// partial paths that have to be rejected: definite failures the documentation lists
    pub fn dead(&self, p: &[u64], score: i128) -> bool {
        match self {
            K::MaxL(_) | K::MaxS(_) | K::Ord(_) => !self.holds(p, score),
            K::Not(x) => match **x {
                K::V(_) | K::E(_, _) | K::Cyc => x.holds(p, score),
                _ => false,
            },
            K::And(x, y) => x.dead(p, score) || y.dead(p, score),
            _ => false,
        }
    }
    fn collect<'a>(&'a self, out: &mut Vec<&'a K>) {
        match self {
            K::Or(x, y) | K::Xor(x, y) | K::And(x, y) => {
                x.collect(out);
                y.collect(out);
            }
            K::Not(x) => x.collect(out),
            k => out.push(k),
        }
    }
}

/// random constraint tree over the given vertices and edges
pub fn tree(r: &mut Rng, vs: &[u64], es: &[(u64, u64)], depth: usize) -> K {
    if depth > 0 && r.chance(1, 2) {
        let a = Box::new(tree(r, vs, es, depth - 1));
        return match r.below(5) {
            0 => K::Or(a, Box::new(tree(r, vs, es, depth - 1))),
            1 => K::Xor(a, Box::new(tree(r, vs, es, depth - 1))),
            2 => K::And(a, Box::new(tree(r, vs, es, depth - 1))),
            _ => K::Not(a),
        };
    }
    leaf(r, vs, es)
}

pub fn leaf(r: &mut Rng, vs: &[u64], es: &[(u64, u64)]) -> K {
    match r.below(10) {
        0 | 1 => K::V(*r.pick(vs)),
        2 | 3 => {
            if !es.is_empty() && r.chance(4, 5) {
                let e = *r.pick(es);
                K::E(e.0, e.1)
            } else {
                K::E(*r.pick(vs), *r.pick(vs))
            }
        }
        4 => {
            let mut l = vs.to_vec();
            r.shuffle(&mut l);
            l.truncate(r.us(0, 4));
            l.dedup();
            let mut s = BTreeSet::new();
            l.retain(|x| s.insert(*x));
            K::Ord(l)
        }
        5 => K::Cyc,
        6 => K::MinL(r.us(0, 6)),
        7 => K::MaxL(r.us(0, 7)),
        8 => K::MinS(r.range(-1, 8)),
        _ => K::MaxS(r.range(-1, 12)),
    }
}

/// Cheapest walk from s to t satisfying all constraints (positive weights): its cost, or None.
/// Dijkstra over (vertex, everything the constraints can see of the walk).
pub fn cheapest(m: &MG, w: &W, s: u64, t: u64, ks: &[K]) -> Option<i128> {
    let mut leaves = vec![];
    for k in ks {
        k.collect(&mut leaves);
    }
    let lcap = leaves
        .iter()
        .filter_map(|k| match k {
            K::MinL(n) | K::MaxL(n) => Some((*n).min(1000) + 1),
            _ => None,
        })
        .max()
        .unwrap_or(0);
    let scap = leaves
        .iter()
        .filter_map(|k| match k {
            K::MinS(n) | K::MaxS(n) => Some(*n as i128 + 1),
            _ => None,
        })
        .max()
        .unwrap_or(0)
        .max(0);
    let vl: Vec<u64> = m.vlist();
    let vidx: HashMap<u64, usize> = vl.iter().enumerate().map(|(i, v)| (*v, i)).collect();
    assert!(vl.len() <= 120);
    let track_all = leaves.iter().any(|k| **k == K::Cyc);
    let mut vmask_of = 0u128;
    for k in &leaves {
        if let K::V(v) = k {
            if let Some(i) = vidx.get(v) {
                vmask_of |= 1 << i;
            }
        }
    }
    if track_all {
        vmask_of = u128::MAX;
    }
    let elist: Vec<(u64, u64)> = {
        let s: BTreeSet<(u64, u64)> = leaves
            .iter()
            .filter_map(|k| if let K::E(a, b) = k { Some((*a, *b)) } else { None })
            .collect();
        s.into_iter().collect()
    };
    let ords: Vec<&Vec<u64>> =
        leaves.iter().filter_map(|k| if let K::Ord(l) = k { Some(l) } else { None }).collect();
    #[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
    struct S {
        v: u64,
        mask: u128,
        emask: u128,
        cyc: bool,
        len: usize,
        score: i128,
        ord: Vec<i16>, // -1 broken, else index reached
    }
    let step = |st: Option<&S>, v: u64, wt: i128| -> S {
        let i = vidx.get(&v).cloned();
        let bit = i.map(|i| 1u128 << i).unwrap_or(0);
        let mut n = match st {
            None => S { v, mask: 0, emask: 0, cyc: false, len: 0, score: 0, ord: vec![0; ords.len()] },
            Some(x) => {
                let mut y = x.clone();
                for (j, e) in elist.iter().enumerate() {
                    if *e == (x.v, v) {
                        y.emask |= 1 << j;
                    }
                }
                y
            }
        };
        n.v = v;
        if track_all && n.mask & bit != 0 {
            n.cyc = true;
        }
        n.mask |= bit & vmask_of;
        n.len = (n.len + 1).min(lcap);
        n.score = (n.score + wt).min(scap);
        for (j, l) in ords.iter().enumerate() {
            if n.ord[j] >= 0 {
                if let Some(p) = l.iter().position(|x| *x == v) {
                    n.ord[j] = if (p as i16) < n.ord[j] { -1 } else { p as i16 };
                }
            }
        }
        n
    };
    fn eval(
        k: &K,
        st: (u128, u128, bool, usize, i128, &[i16]),
        vidx: &HashMap<u64, usize>,
        elist: &[(u64, u64)],
        ords: &[&Vec<u64>],
    ) -> bool {
        let e = |k: &K| eval(k, st, vidx, elist, ords);
        match k {
            K::V(v) => vidx.get(v).map(|i| st.0 >> i & 1 == 1).unwrap_or(false),
            K::E(a, b) => elist.iter().position(|x| x == &(*a, *b)).map(|j| st.1 >> j & 1 == 1).unwrap(),
            K::Ord(l) => {
                let j = ords.iter().position(|x| **x == *l).unwrap();
                st.5[j] >= 0
            }
            K::Cyc => st.2,
            K::MinL(n) => st.3 >= (*n).min(1001),
            K::MaxL(n) => st.3 <= *n,
            K::MinS(n) => st.4 >= *n as i128,
            K::MaxS(n) => st.4 <= *n as i128,
            K::Or(x, y) => e(x) || e(y),
            K::Xor(x, y) => e(x) != e(y),
            K::And(x, y) => e(x) && e(y),
            K::Not(x) => !e(x),
        }
    }
    if !m.verts.contains(&s) {
        return None;
    }
    let adj = m.adj();
    let mut best: HashMap<S, i128> = HashMap::new();
    let mut heap = BinaryHeap::new();
    let s0 = step(None, s, 0);
    best.insert(s0.clone(), 0);
    heap.push((std::cmp::Reverse(0i128), s0));
    while let Some((std::cmp::Reverse(d), st)) = heap.pop() {
        if best.get(&st).map(|b| *b < d).unwrap_or(false) {
            continue;
        }
        if st.v == t
            && ks.iter().all(|k| {
                eval(k, (st.mask, st.emask, st.cyc, st.len, st.score, &st.ord), &vidx, &elist, &ords)
            })
        {
            return Some(d);
        }
        assert!(best.len() < 3_000_000, "oracle: product too large");
        for v in &adj[&st.v] {
            let wt = w[&(st.v, *v)] as i128;
            let n = step(Some(&st), *v, wt);
            let nd = d + wt;
            if best.get(&n).map(|b| nd < *b).unwrap_or(true) {
                best.insert(n.clone(), nd);
                heap.push((std::cmp::Reverse(nd), n));
            }
        }
    }
    None
}
