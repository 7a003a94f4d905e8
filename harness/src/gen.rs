//! Workload generators: graph shapes, vertex labels, weights
use crate::model::MG;
use crate::util::*;

pub const BOUNDARY: [u64; 22] = [
    0,
    1,
    9,
    10,
    99,
    100,
    127,
    128,
    255,
    256,
    65535,
    65536,
    (1 << 31) - 1,
    1 << 31,
    u32::MAX as u64,
    1 << 32,
    (1 << 53) + 1,
    i64::MAX as u64,
    1 << 63,
    (1 << 63) + 1,
    u64::MAX - 1,
    u64::MAX,
];

/// n distinct vertex ids
pub fn labels(r: &mut Rng, n: usize) -> Vec<u64> {
    let mut out: Vec<u64> = match r.below(8) {
        0 | 1 => (1..=n as u64).collect(),
        2 => (0..n as u64).collect(),
        3 => (1..=n as u64).rev().collect(),
        4 => {
            let base = *r.pick(&BOUNDARY);
            (0..n as u64).map(|i| base.wrapping_add(i).wrapping_sub(n as u64 / 2)).collect()
        }
        5 => {
            let sh = r.below(60) as u32;
            (0..n).map(|_| r.u64() >> sh).collect()
        }
        6 => (0..n).map(|_| *r.pick(&BOUNDARY)).collect(),
        _ => {
            let step = 1 + r.u64() % 1000;
            (0..n as u64).map(|i| i * step).collect()
        }
    };
    // distinct
    let mut seen = std::collections::HashSet::new();
    for x in out.iter_mut() {
        let mut k = 0;
        while !seen.insert(*x) {
            k += 1;
            *x = if k < 50 { *r.pick(&BOUNDARY) } else { r.u64() };
        }
    }
    if r.chance(1, 2) {
        r.shuffle(&mut out);
    }
    out
}

pub fn relabel(r: &mut Rng, n: usize, edges: &[(usize, usize)]) -> MG {
    let l = labels(r, n);
    let mut m = MG::new();
    for v in &l {
        m.add_v(*v);
    }
    for (a, b) in edges {
        m.add_e(l[*a], l[*b]);
    }
    m
}

/// edge list of one of many shapes over 0..n
pub fn shape(r: &mut Rng, n: usize) -> Vec<(usize, usize)> {
    let mut e: Vec<(usize, usize)> = vec![];
    if n == 0 {
        return e;
    }
    let k = r.below(16);
    match k {
        0 => {}
        1 => {
            for i in 1..n {
                e.push((i - 1, i));
            }
        }
        2 => {
            for i in 0..n {
                e.push((i, (i + 1) % n));
            }
        }
        3 => {
            for i in 1..n {
                e.push((0, i));
            }
            if r.chance(1, 2) {
                e = e.iter().map(|x| (x.1, x.0)).collect();
            }
        }
        4 => {
            if n <= 12 {
                for i in 0..n {
                    for j in 0..n {
                        if i != j || k == 99 {
                            e.push((i, j));
                        }
                    }
                }
            } else {
                e = random_edges(r, n, 3 * n);
            }
        }
        5 | 6 => {
            // DAG
            let cnt = density(r, n);
            for (a, b) in random_edges(r, n, cnt) {
                if a != b {
                    e.push((a.min(b), a.max(b)));
                }
            }
        }
        7 => {
            // layered, several equal-length routes
            let w = 1 + r.below(4);
            for i in 0..n {
                for j in 0..w {
                    let t = (i / w + 1) * w + j;
                    if t < n && r.chance(3, 4) {
                        e.push((i, t));
                    }
                }
            }
        }
        8 => {
            // tree
            for i in 1..n {
                let p = r.below(i);
                e.push((p, i));
            }
        }
        9 => {
            // functional graph
            for i in 0..n {
                e.push((i, r.below(n)));
            }
        }
        10 => {
            // two components
            let h = n / 2;
            let c1 = density(r, h.max(1));
            let c2 = density(r, (n - h).max(1));
            if h > 0 {
                for (a, b) in random_edges(r, h, c1) {
                    e.push((a, b));
                }
            }
            for (a, b) in random_edges(r, n - h, c2) {
                e.push((a + h, b + h));
            }
        }
        11 => {
            // antiparallel pairs
            let cnt = density(r, n);
            for (a, b) in random_edges(r, n, cnt / 2 + 1) {
                e.push((a, b));
                e.push((b, a));
            }
        }
        12 => {
            // a tail leading into cycles sharing vertices
            for i in 1..n {
                e.push((i - 1, i));
            }
            for _ in 0..1 + r.below(4) {
                let a = r.below(n);
                let b = r.below(n);
                e.push((a.max(b), a.min(b)));
            }
        }
        13 => {
            // ladder of diamonds
            let mut i = 0;
            while i + 3 < n {
                e.push((i, i + 1));
                e.push((i, i + 2));
                e.push((i + 1, i + 3));
                e.push((i + 2, i + 3));
                i += 3;
            }
        }
        _ => {
            let cnt = density(r, n);
            e = random_edges(r, n, cnt);
        }
    }
    // decorations
    if r.chance(1, 4) {
        for _ in 0..1 + r.below(2) {
            let v = r.below(n);
            e.push((v, v));
        }
    }
    if r.chance(1, 5) {
        let (a, b) = (r.below(n), r.below(n));
        e.push((a, b));
    }
    e.sort();
    e.dedup();
    e
}

fn density(r: &mut Rng, n: usize) -> usize {
    match r.below(5) {
        0 => n / 2,
        1 => n,
        2 => 2 * n,
        3 => 3 * n,
        _ => (n * n / 2).min(6 * n),
    }
}

pub fn random_edges(r: &mut Rng, n: usize, k: usize) -> Vec<(usize, usize)> {
    let mut e = vec![];
    if n == 0 {
        return e;
    }
    for _ in 0..k {
        e.push((r.below(n), r.below(n)));
    }
    e
}

pub fn graph(r: &mut Rng, n: usize) -> MG {
    let e = shape(r, n);
    relabel(r, n, &e)
}

/// sizes biased to small ones, with power-of-two and decimal thresholds
pub fn size(r: &mut Rng, max: usize) -> usize {
    const T: [usize; 22] = [
        0, 1, 2, 3, 7, 8, 9, 10, 11, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 128,
    ];
    let x = match r.below(6) {
        0 | 1 | 2 => r.us(1, 9),
        3 => r.us(5, 20),
        4 => *r.pick(&T),
        _ => r.us(10, 60),
    };
    x.min(max)
}

/// the i-th digraph over n vertices (bits = adjacency matrix, with or without diagonal)
pub fn nth(n: usize, loops: bool, bits: u64) -> Vec<(usize, usize)> {
    let mut e = vec![];
    let mut k = 0;
    for a in 0..n {
        for b in 0..n {
            if a == b && !loops {
                continue;
            }
            if bits >> k & 1 == 1 {
                e.push((a, b));
            }
            k += 1;
        }
    }
    e
}

/// All digraphs with up to 3 vertices (self-loops included) and all loop-free ones with 4
pub fn small_count() -> u64 {
    1 + 2 + 16 + 512 + 4096
}
pub fn small(r: &mut Rng, i: u64) -> MG {
    let (n, e) = if i < 1 {
        (0, vec![])
    } else if i < 3 {
        (1, nth(1, true, i - 1))
    } else if i < 19 {
        (2, nth(2, true, i - 3))
    } else if i < 531 {
        (3, nth(3, true, i - 19))
    } else {
        (4, nth(4, false, i - 531))
    };
    if r.chance(1, 2) {
        let mut m = MG::new();
        for v in 0..n {
            m.add_v(v as u64 + 1);
        }
        for (a, b) in e {
            m.add_e(a as u64 + 1, b as u64 + 1);
        }
        m
    } else {
        relabel(r, n, &e)
    }
}

/// edge weights
pub fn weight(r: &mut Rng, kind: usize) -> i64 {
    match kind {
        0 => 1,
        1 => r.range(1, 4),
        2 => r.range(0, 5),
        3 => r.range(1, 1000),
        4 => *r.pick(&[0, 1, 1 << 31, 1 << 32, (1 << 40) + 1, 7]),
        5 => r.range(-6, 10),
        6 => r.range(-1000, 1000),
        _ => *r.pick(&[-(1 << 40), 1 << 40, 0, 1, -1, 1 << 33, -(1 << 33)]),
    }
}

/// Large structured graphs (hubs, deep and wide, dense), with a vertex that reaches most of it and one far away
pub fn big(r: &mut Rng, max: usize) -> (MG, u64, u64) {
    const T: [usize; 12] = [51, 65, 101, 129, 201, 257, 300, 513, 700, 1001, 1025, 1100];
    let n = (*r.pick(&T)).min(max).max(8);
    let mut e: Vec<(usize, usize)> = vec![];
    let mut last = n - 1;
    match r.below(10) {
        0 => (1..n).for_each(|i| e.push((0, i))),
        1 => {
            // everything between two hubs
            (1..n - 1).for_each(|i| {
                e.push((0, i));
                e.push((i, n - 1));
            });
        }
        2 => (1..n).for_each(|i| e.push((i - 1, i))),
        3 => (0..n).for_each(|i| e.push((i, (i + 1) % n))),
        4 => {
            // hub of hubs
            let k = 2 + r.below(12);
            for i in 1..n {
                e.push((if i <= k { 0 } else { 1 + i % k }, i));
            }
        }
        5 => {
            // three layers
            let h = (n - 2) / 2;
            for i in 1..=h {
                e.push((0, i));
                for _ in 0..3 {
                    e.push((i, h + 1 + r.below(h)));
                }
            }
            (h + 1..n - 1).for_each(|i| e.push((i, n - 1)));
        }
        6 => {
            // dense
            let d = n.min(90);
            last = d - 1;
            for a in 0..d {
                for b in 0..d {
                    if r.chance(1, 2) {
                        e.push((a, b));
                    }
                }
            }
            (d..n).for_each(|i| e.push((i, r.below(d))));
        }
        7 => {
            // a long chain that ends in a hub
            let h = n / 2;
            (1..h).for_each(|i| e.push((i - 1, i)));
            (h..n).for_each(|i| e.push((h - 1, i)));
        }
        8 => {
            // a chain with shortcuts and way back
            (1..n).for_each(|i| e.push((i - 1, i)));
            for _ in 0..n / 3 {
                let (a, b) = (r.below(n), r.below(n));
                e.push((a, b));
            }
        }
        _ => {
            let k = 3 + r.below(4);
            (1..n).for_each(|i| e.push((r.below(i), i)));
            e.extend(random_edges(r, n, k * n));
        }
    }
    e.sort();
    e.dedup();
    let l = labels(r, n);
    let mut m = MG::new();
    for v in &l {
        m.add_v(*v);
    }
    for (a, b) in &e {
        m.add_e(l[*a], l[*b]);
    }
    (m, l[0], l[last])
}
