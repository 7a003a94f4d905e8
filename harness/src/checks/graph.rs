//! C01: the graph is the set model of its edit history
use crate::ctx::{Case, Ctx};
use crate::gen;
use crate::model::*;
use crate::util::*;
use gc_core::directed_graph::DirectedGraph;
use gc_core::graph::VertexId;
use gc_core::graph_command::GraphCommand;

fn apply(g: &mut DirectedGraph, c: &Cmd, how: u64) {
    if how & 1 == 0 {
        c.real().apply_to(g);
        return;
    }
    match *c {
        Cmd::AV(v) => {
            g.add_vertex(VertexId(v));
        }
        Cmd::RV(v) => {
            g.remove_vertex(VertexId(v));
        }
        Cmd::AE(a, b) => {
            g.add_edge(ed(a, b));
        }
        Cmd::RE(a, b) => {
            g.remove_edge(ed(a, b));
        }
    }
}

fn ops(vs: &[u64]) -> Vec<Cmd> {
    let mut o = vec![];
    for a in vs {
        o.push(Cmd::AV(*a));
        o.push(Cmd::RV(*a));
        for b in vs {
            o.push(Cmd::AE(*a, *b));
            o.push(Cmd::RE(*a, *b));
        }
    }
    o
}

fn effective(m: &MG, c: &Cmd) -> bool {
    match *c {
        Cmd::AV(v) => !m.verts.contains(&v),
        Cmd::RV(v) => m.verts.contains(&v),
        Cmd::AE(a, b) => !m.edges.contains(&(a, b)),
        Cmd::RE(a, b) => m.edges.contains(&(a, b)),
    }
}

/// undo of an addition that changed the graph, or of an edge removal
fn undo_check(c: &mut Case, h: &[Cmd], m: &MG, last: &Cmd) {
    if !effective(m, last) {
        return;
    }
    let mut g = build_of(h);
    last.real().apply_to(&mut g);
    GraphCommand::revert(last.real()).apply_to(&mut g);
    let mut want = m.clone();
    if let Cmd::AE(a, b) = last {
        want.add_v(*a);
        want.add_v(*b);
    }
    if let Cmd::RV(_) = last {
        // the vertex comes back, without its edges
        want.apply(last);
        if let Cmd::RV(v) = last {
            want.add_v(*v);
        }
        c.count("undone removals of vertices", 1);
    }
    c.count("undo steps checked", 1);
    compare(c, &g, &want, &[], &format!("after {:?} and its undo", last));
}

fn exhaustive(ctx: &'static Ctx, fam: &str, vs: &'static [u64], len: u32) {
    let o = ops(vs);
    let k = o.len() as u64;
    // one case per prefix of length 2, all continuations inside
    ctx.par(fam, k * k, |c| {
        let pre = [o[(c.idx / k) as usize], o[(c.idx % k) as usize]];
        let rest = len - 2;
        let total = k.pow(rest);
        for t in 0..total {
            let mut h = pre.to_vec();
            let mut x = t;
            for _ in 0..rest {
                h.push(o[(x % k) as usize]);
                x /= k;
            }
            let mut g = DirectedGraph::new();
            let mut m = MG::new();
            for (i, op) in h.iter().enumerate() {
                apply(&mut g, op, t.wrapping_add(i as u64));
                m.apply(op);
            }
            let bad = of_real(&g) != m
                || g.vertex_count() != m.n()
                || g.edge_count() != m.edges.len()
                || vs.iter().any(|a| {
                    vs.iter().any(|b| g.contains_edge(ed(*a, *b)) != m.edges.contains(&(*a, *b)))
                        || g.contains_vertex(VertexId(*a)) != m.verts.contains(a)
                        || g.outbound_edges(VertexId(*a)).count() != m.out(*a).len()
                        || g.inbound_edges(VertexId(*a)).count()
                            != m.edges.iter().filter(|e| e.1 == *a).count()
                });
            if bad || t % 97 == 0 {
                c.desc(format!("history {:?}", h));
                compare(c, &g, &m, &[], "at the end of the history");
                for a in vs {
                    for b in vs {
                        compare_pair(c, &g, &m, *a, *b, "at the end of the history");
                    }
                }
            }
            c.distinct(m.hash());
        }
        c.count("histories", total);
    });
}

pub fn c01(ctx: &'static Ctx) {
    ctx.rule(
        "random, hostile and stress edit histories over many id ranges and shapes, plus all histories \
         of a fixed length over two or three vertices; after every step (or at the end) every view of \
         the graph is compared with a set model; distinct = distinct graphs reached, by content",
    );
    ctx.require(&["histories", "steps", "undo steps checked", "steps removing a vertex with edges", "self-loop steps", "histories applied as lists"]);
    ctx.assume("return values of add/remove are not part of the property");
    exhaustive(ctx, "all-2v", &[1, 2], if ctx.thorough { 6 } else { 5 });
    exhaustive(ctx, "all-3v", &[3, 1, 2], if ctx.thorough { 4 } else { 3 });

    ctx.par("random", ctx.scale(6000, 120000), |c| {
        let mut r = c.rng.clone();
        let n = gen::size(&mut r, 40).max(1);
        let vs = gen::labels(&mut r, n);
        let steps = match r.below(4) {
            0 => r.us(1, 12),
            1 | 2 => r.us(10, 80),
            _ => r.us(80, 300),
        };
        // removal-heavy, addition-heavy, balanced
        let bias = r.below(3);
        let mut g = DirectedGraph::new();
        let mut m = MG::new();
        let mut h: Vec<Cmd> = vec![];
        let hot = r.us(1, n.min(3));
        for i in 0..steps {
            let pv = |r: &mut Rng| {
                if r.chance(1, 2) {
                    vs[r.below(hot)]
                } else {
                    vs[r.below(n)]
                }
            };
            let a = pv(&mut r);
            let b = if r.chance(1, 8) { a } else { pv(&mut r) };
            let add = match bias {
                0 => r.chance(3, 4),
                1 => r.chance(1, 2),
                _ => r.chance(2, 3),
            };
            let op = if add {
                if r.chance(1, 4) {
                    Cmd::AV(a)
                } else {
                    Cmd::AE(a, b)
                }
            } else if r.chance(1, 3) {
                Cmd::RV(a)
            } else if r.chance(2, 3) && !m.edges.is_empty() {
                // an existing edge
                let k = r.below(m.edges.len());
                let e = *m.edges.iter().nth(k).unwrap();
                Cmd::RE(e.0, e.1)
            } else {
                Cmd::RE(a, b)
            };
            if i % 16 == 0 {
                c.desc(format!("history so far {:?}, next {:?}", h, op));
            }
            if let Cmd::RV(v) = op {
                if m.edges.iter().any(|e| e.0 == v || e.1 == v) {
                    c.count("steps removing a vertex with edges", 1);
                }
            }
            if a == b {
                c.count("self-loop steps", 1);
            }
            if r.chance(1, 40) {
                let (mm, hh) = (m.clone(), h.clone());
                undo_check(c, &hh, &mm, &op);
            }
            let how = r.u64();
            {
                let gm = &mut g;
                c.guard("an edit", || apply(gm, &op, how));
            }
            m.apply(&op);
            h.push(op);
            let when = format!("after step {} {:?} of {:?}", i + 1, op, if h.len() < 40 { &h[..] } else { &h[h.len() - 40..] });
            compare_pair(c, &g, &m, a, b, &when);
            if n <= 12 || i % 7 == 0 || i + 1 == steps {
                compare(c, &g, &m, &[a, b], &when);
            }
            c.distinct(m.hash());
        }
        // the same history through the list interface, at once and in pieces
        let mut g2 = DirectedGraph::new();
        let cut = if r.chance(1, 2) { h.len() } else { r.us(1, h.len()) };
        {
            let gm = &mut g2;
            c.desc(format!("apply_commands of {:?} in pieces of {}", h, cut));
            for piece in h.chunks(cut) {
                c.guard("apply_commands", || GraphCommand::apply_commands(piece.iter().map(|x| x.real()).collect(), gm));
            }
        }
        compare(c, &g2, &m, &[], "after apply_commands of the whole history");
        c.count("histories applied as lists", 1);
        c.count("steps", steps as u64);
        c.sample(|| format!("{:?}", &h[..h.len().min(15)]));
    });

    // hubs and sizes beyond small-array thresholds
    ctx.par("stress", ctx.scale(60, 600), |c| {
        let mut r = c.rng.clone();
        let n = *r.pick(&[63usize, 64, 65, 127, 128, 129, 255, 256, 257, 513, 1025, 1500, 4100]);
        let vs = gen::labels(&mut r, n);
        c.desc(format!("hub with {} spokes, hub id {}", n - 1, vs[0]));
        let mut g = DirectedGraph::new();
        let mut m = MG::new();
        let mut h = vec![];
        for i in 1..n {
            h.push(if r.chance(1, 2) { Cmd::AE(vs[0], vs[i]) } else { Cmd::AE(vs[i], vs[0]) });
            if r.chance(1, 10) {
                h.push(Cmd::AE(vs[i], vs[i]));
            }
            if r.chance(1, 6) {
                h.push(Cmd::AE(vs[i], vs[r.below(n)]));
            }
        }
        r.shuffle(&mut h);
        // edges added again, early and late ones
        for i in 0..24 {
            let k = if i % 2 == 0 { r.below(h.len()) } else { r.below(h.len().min(12)) };
            let again = h[k];
            h.push(again);
        }
        // the hub goes with all its edges and comes back bare
        let hub_removal = r.below(3);
        if hub_removal > 0 {
            h.push(Cmd::RV(vs[0]));
            h.push(Cmd::AV(vs[0]));
            if hub_removal > 1 {
                for i in 1..n {
                    h.push(if r.chance(1, 2) { Cmd::AE(vs[0], vs[i]) } else { Cmd::AE(vs[i], vs[0]) });
                }
            }
            c.count("hubs removed", 1);
        }
        let removals = r.us(1, n);
        for _ in 0..removals {
            let i = r.below(n);
            h.push(match r.below(3) {
                0 => Cmd::RE(vs[0], vs[i]),
                1 => Cmd::RE(vs[i], vs[0]),
                _ => {
                    if i == 0 && r.chance(9, 10) {
                        Cmd::AV(vs[0])
                    } else {
                        Cmd::RV(vs[i])
                    }
                }
            });
        }
        let every = h.len() / 6 + 1;
        for (i, op) in h.iter().enumerate() {
            let how = r.u64();
            let gm = &mut g;
            c.guard("an edit", || apply(gm, op, how));
            m.apply(op);
            if i % every == 0 || i + 1 == h.len() || *op == Cmd::RV(vs[0]) || *op == Cmd::AV(vs[0]) {
                compare(c, &g, &m, &[vs[0]], &format!("after step {} of {}", i + 1, h.len()));
            }
        }
        // all at once through the list interface
        let mut g2 = DirectedGraph::new();
        GraphCommand::apply_commands(h.iter().map(|x| x.real()).collect(), &mut g2);
        compare(c, &g2, &m, &[], "after apply_commands of the whole history");
        c.count("steps", h.len() as u64);
        c.max("vertices", m.n() as u64);
        c.distinct(m.hash());
    });
    // more edges than 16 bits count
    ctx.par("dense", ctx.scale(2, 12), |c| {
        let mut r = c.rng.clone();
        let n = 258 + c.idx as usize % 12;
        let vs = gen::labels(&mut r, n);
        c.desc(format!("complete graph with self-loops of {} vertices {:?}", n, vs));
        let mut h = vec![];
        for a in &vs {
            for b in &vs {
                h.push(Cmd::AE(*a, *b));
            }
        }
        r.shuffle(&mut h);
        let mut g = DirectedGraph::new();
        {
            let gm = &mut g;
            c.guard("apply_commands", || GraphCommand::apply_commands(h.iter().map(|x| x.real()).collect(), gm));
        }
        let mut m = MG::of(&h);
        compare(c, &g, &m, &[vs[0]], "with all edges");
        for _ in 0..6 {
            let op = match r.below(3) {
                0 => Cmd::RV(*r.pick(&vs)),
                1 => Cmd::RE(*r.pick(&vs), *r.pick(&vs)),
                _ => Cmd::AE(*r.pick(&vs), *r.pick(&vs)),
            };
            let gm = &mut g;
            c.guard("an edit", || apply(gm, &op, 0));
            m.apply(&op);
        }
        compare(c, &g, &m, &[vs[0]], "after some removals");
        c.max("edges", m.edges.len() as u64);
        c.distinct(m.hash());
    });
}
