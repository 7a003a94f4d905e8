//! Set model of a directed graph, written independently of the code under test
use crate::ctx::Case;
use crate::util::*;
use gc_core::directed_graph::DirectedGraph;
use gc_core::graph::{Edge, VertexId};
use gc_core::graph_command::GraphCommand;
use std::collections::{BTreeMap, BTreeSet, HashMap, VecDeque};

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Cmd {
    AV(u64),
    RV(u64),
    AE(u64, u64),
    RE(u64, u64),
}

impl Cmd {
    pub fn real(&self) -> GraphCommand {
        match *self {
            Cmd::AV(v) => GraphCommand::AddVertex(VertexId(v)),
            Cmd::RV(v) => GraphCommand::RemoveVertex(VertexId(v)),
            Cmd::AE(a, b) => GraphCommand::AddEdge(VertexId(a), VertexId(b)),
            Cmd::RE(a, b) => GraphCommand::RemoveEdge(VertexId(a), VertexId(b)),
        }
    }
    pub fn from_real(c: &GraphCommand) -> Cmd {
        match *c {
            GraphCommand::AddVertex(v) => Cmd::AV(v.0),
            GraphCommand::RemoveVertex(v) => Cmd::RV(v.0),
            GraphCommand::AddEdge(a, b) => Cmd::AE(a.0, b.0),
            GraphCommand::RemoveEdge(a, b) => Cmd::RE(a.0, b.0),
        }
    }
    pub fn line(&self) -> String {
        match *self {
            Cmd::AV(v) => format!("AddVertex {}", v),
            Cmd::RV(v) => format!("RemoveVertex {}", v),
            Cmd::AE(a, b) => format!("AddEdge {} {}", a, b),
            Cmd::RE(a, b) => format!("RemoveEdge {} {}", a, b),
        }
    }
}

#[derive(Clone, Default, PartialEq, Eq, Debug, Hash)]
pub struct MG {
    pub verts: BTreeSet<u64>,
    pub edges: BTreeSet<(u64, u64)>,
}

impl MG {
    pub fn new() -> MG {
        MG::default()
    }
    pub fn add_v(&mut self, v: u64) {
        self.verts.insert(v);
    }
    pub fn add_e(&mut self, a: u64, b: u64) {
        self.verts.insert(a);
        self.verts.insert(b);
        self.edges.insert((a, b));
    }
    pub fn rem_v(&mut self, v: u64) {
        if self.verts.remove(&v) {
            let dead: Vec<(u64, u64)> =
                self.edges.iter().filter(|e| e.0 == v || e.1 == v).cloned().collect();
            for e in dead {
                self.edges.remove(&e);
            }
        }
    }
    pub fn rem_e(&mut self, a: u64, b: u64) {
        self.edges.remove(&(a, b));
    }
    pub fn apply(&mut self, c: &Cmd) {
        match *c {
            Cmd::AV(v) => self.add_v(v),
            Cmd::RV(v) => self.rem_v(v),
            Cmd::AE(a, b) => self.add_e(a, b),
            Cmd::RE(a, b) => self.rem_e(a, b),
        }
    }
    pub fn of(cmds: &[Cmd]) -> MG {
        let mut m = MG::new();
        for c in cmds {
            m.apply(c);
        }
        m
    }
    pub fn from_edges(e: &[(u64, u64)]) -> MG {
        let mut m = MG::new();
        for (a, b) in e {
            m.add_e(*a, *b);
        }
        m
    }
    pub fn n(&self) -> usize {
        self.verts.len()
    }
    pub fn vlist(&self) -> Vec<u64> {
        self.verts.iter().cloned().collect()
    }
    pub fn hash(&self) -> u64 {
        let mut h = 17;
        for v in &self.verts {
            h = mix(h, *v);
        }
        h = mix(h, 0xedce);
        for (a, b) in &self.edges {
            h = mix(mix(h, *a), *b);
        }
        h
    }
    pub fn out(&self, v: u64) -> Vec<u64> {
        self.edges.range((v, 0)..=(v, u64::MAX)).map(|e| e.1).collect()
    }
    pub fn adj(&self) -> HashMap<u64, Vec<u64>> {
        let mut m: HashMap<u64, Vec<u64>> = self.verts.iter().map(|v| (*v, vec![])).collect();
        for (a, b) in &self.edges {
            m.get_mut(a).unwrap().push(*b);
        }
        m
    }
    pub fn indeg(&self) -> BTreeMap<u64, usize> {
        let mut m: BTreeMap<u64, usize> = self.verts.iter().map(|v| (*v, 0)).collect();
        for (_, b) in &self.edges {
            *m.get_mut(b).unwrap() += 1;
        }
        m
    }
    /// hop distances from s (s itself: 0)
    pub fn reach(&self, s: u64) -> BTreeMap<u64, usize> {
        let adj = self.adj();
        let mut d = BTreeMap::new();
        if !self.verts.contains(&s) {
            return d;
        }
        d.insert(s, 0);
        let mut q = VecDeque::new();
        q.push_back(s);
        while let Some(u) = q.pop_front() {
            let du = d[&u];
            for v in &adj[&u] {
                if !d.contains_key(v) {
                    d.insert(*v, du + 1);
                    q.push_back(*v);
                }
            }
        }
        d
    }
    /// acyclicity by repeatedly removing vertices without incoming edge
    pub fn acyclic(&self) -> bool {
        let adj = self.adj();
        let mut ind = self.indeg();
        let mut q: Vec<u64> = ind.iter().filter(|x| *x.1 == 0).map(|x| *x.0).collect();
        let mut seen = 0;
        while let Some(u) = q.pop() {
            seen += 1;
            for v in &adj[&u] {
                let e = ind.get_mut(v).unwrap();
                *e -= 1;
                if *e == 0 {
                    q.push(*v);
                }
            }
        }
        seen == self.n()
    }
    pub fn show(&self) -> String {
        let mut s = String::from("graph: vertices");
        for v in self.verts.iter().take(400) {
            s.push_str(&format!(" {}", v));
        }
        s.push_str("; edges");
        for (a, b) in self.edges.iter().take(1500) {
            s.push_str(&format!(" {}->{}", a, b));
        }
        if self.verts.len() > 400 || self.edges.len() > 1500 {
            s.push_str(&format!(" ... ({} vertices, {} edges)", self.verts.len(), self.edges.len()));
        }
        s
    }
    /// A command list that builds this graph: shuffled, with repetitions and undone detours
    pub fn history(&self, r: &mut Rng, noise: bool) -> Vec<Cmd> {
        let mut items: Vec<Cmd> = vec![];
        let touched: BTreeSet<u64> = self.edges.iter().flat_map(|e| vec![e.0, e.1]).collect();
        for v in &self.verts {
            if !touched.contains(v) || r.chance(1, 3) {
                items.push(Cmd::AV(*v));
            }
        }
        for (a, b) in &self.edges {
            items.push(Cmd::AE(*a, *b));
        }
        r.shuffle(&mut items);
        if !noise || items.is_empty() {
            return items;
        }
        let vl = self.vlist();
        let mut out = vec![];
        let k = items.len();
        let mut detours = 0;
        for (i, it) in items.into_iter().enumerate() {
            out.push(it);
            if detours < 12 && r.chance(1, 4) {
                detours += 1;
                match r.below(5) {
                    0 => out.push(it), // repeated
                    1 => {
                        // an edge that is not wanted, added and removed
                        let (a, b) = (*r.pick(&vl), *r.pick(&vl));
                        if !self.edges.contains(&(a, b)) {
                            out.push(Cmd::AE(a, b));
                            out.push(Cmd::RE(a, b));
                        }
                    }
                    2 => {
                        // a vertex that is not wanted
                        let mut x = r.u64() >> r.below(60);
                        while self.verts.contains(&x) {
                            x = x.wrapping_add(1);
                        }
                        out.push(Cmd::AE(x, *r.pick(&vl)));
                        if r.chance(1, 2) {
                            out.push(Cmd::AE(*r.pick(&vl), x));
                        }
                        out.push(Cmd::RV(x));
                    }
                    3 => {
                        // a wanted edge removed, and added again
                        if let Cmd::AE(a, b) = it {
                            out.push(Cmd::RE(a, b));
                            out.push(Cmd::AE(a, b));
                        }
                    }
                    _ => {
                        // removal of things that are not there
                        let (a, b) = (*r.pick(&vl), *r.pick(&vl));
                        if !self.edges.contains(&(a, b)) {
                            out.push(Cmd::RE(a, b));
                        }
                        if k < 40 && i == 0 {
                            out.insert(0, Cmd::RV(a));
                        }
                    }
                }
            }
        }
        // make sure that the detours were neutral
        let m = MG::of(&out);
        for v in &self.verts {
            if !m.verts.contains(v) {
                out.push(Cmd::AV(*v));
            }
        }
        for e in &self.edges {
            if !m.edges.contains(e) {
                out.push(Cmd::AE(e.0, e.1));
            }
        }
        for v in &m.verts {
            if !self.verts.contains(v) {
                out.push(Cmd::RV(*v));
            }
        }
        out
    }
    /// The graph of the code under test, built through a shuffled history
    pub fn build(&self, r: &mut Rng) -> DirectedGraph {
        let noise = r.chance(1, 2);
        let h = self.history(r, noise);
        build_of(&h)
    }
}

pub fn build_of(h: &[Cmd]) -> DirectedGraph {
    let mut g = DirectedGraph::new();
    for c in h {
        c.real().apply_to(&mut g);
    }
    g
}

/// vertex and edge sets of a real graph through its listings
pub fn of_real(g: &DirectedGraph) -> MG {
    MG {
        verts: g.vertices().map(|v| v.0).collect(),
        edges: g.edges().map(|e| ((e.0).0, (e.1).0)).collect(),
    }
}

pub fn vids(v: &[u64]) -> Vec<VertexId> {
    v.iter().map(|x| VertexId(*x)).collect()
}
pub fn ed(a: u64, b: u64) -> Edge {
    Edge(VertexId(a), VertexId(b))
}

fn diff<T: Ord + Clone + std::fmt::Debug>(got: &[T], want: &BTreeSet<T>) -> Option<String> {
    let mut seen = BTreeSet::new();
    for g in got {
        if !want.contains(g) {
            return Some(format!("unexpected {:?}", g));
        }
        if !seen.insert(g.clone()) {
            return Some(format!("{:?} listed twice", g));
        }
    }
    want.iter().find(|w| !seen.contains(*w)).map(|w| format!("missing {:?}", w))
}

/// All views of the real graph against the model
pub fn compare(c: &Case, g: &DirectedGraph, m: &MG, extra: &[u64], when: &str) {
    let vs: Vec<u64> = g.vertices().map(|v| v.0).collect();
    if let Some(d) = diff(&vs, &m.verts) {
        c.fail(&format!("vertex listing {}: {}", when, d));
    }
    let es: Vec<(u64, u64)> = g.edges().map(|e| ((e.0).0, (e.1).0)).collect();
    if let Some(d) = diff(&es, &m.edges) {
        c.fail(&format!("edge listing {}: {}", when, d));
    }
    c.check(g.vertex_count() == m.n(), || {
        format!("vertex_count {} = {}, expected {}", when, g.vertex_count(), m.n())
    });
    c.check(g.edge_count() == m.edges.len(), || {
        format!("edge_count {} = {}, expected {}", when, g.edge_count(), m.edges.len())
    });
    c.check(g.is_empty() == m.verts.is_empty(), || format!("is_empty {}", when));
    match g.head_option() {
        None => c.check(m.verts.is_empty(), || format!("head_option {} is None", when)),
        Some(h) => c.check(m.verts.contains(&h.0), || format!("head_option {} is {:?}", when, h)),
    }
    let mut outs: BTreeMap<u64, BTreeSet<(u64, u64)>> = BTreeMap::new();
    let mut ins: BTreeMap<u64, BTreeSet<(u64, u64)>> = BTreeMap::new();
    for e in &m.edges {
        outs.entry(e.0).or_default().insert(*e);
        ins.entry(e.1).or_default().insert(*e);
    }
    let empty = BTreeSet::new();
    for v in m.verts.iter().chain(extra.iter()) {
        let id = VertexId(*v);
        c.check(g.contains_vertex(id) == m.verts.contains(v), || {
            format!("contains_vertex({}) {} = {}", v, when, g.contains_vertex(id))
        });
        let o: Vec<(u64, u64)> = g.outbound_edges(id).map(|e| ((e.0).0, (e.1).0)).collect();
        if let Some(d) = diff(&o, outs.get(v).unwrap_or(&empty)) {
            c.fail(&format!("outbound_edges({}) {}: {}", v, when, d));
        }
        let i: Vec<(u64, u64)> = g.inbound_edges(id).map(|e| ((e.0).0, (e.1).0)).collect();
        if let Some(d) = diff(&i, ins.get(v).unwrap_or(&empty)) {
            c.fail(&format!("inbound_edges({}) {}: {}", v, when, d));
        }
        c.check(g.degree_out(id) == o.len(), || format!("degree_out({}) {} = {}", v, when, g.degree_out(id)));
        c.check(g.degree_in(id) == i.len(), || format!("degree_in({}) {} = {}", v, when, g.degree_in(id)));
    }
}

/// membership of one pair, both ways
pub fn compare_pair(c: &Case, g: &DirectedGraph, m: &MG, a: u64, b: u64, when: &str) {
    for (x, y) in [(a, b), (b, a), (a, a), (b, b)].iter() {
        let r = g.contains_edge(ed(*x, *y));
        c.check(r == m.edges.contains(&(*x, *y)), || {
            format!("contains_edge({}->{}) {} = {}", x, y, when, r)
        });
    }
    for x in [a, b].iter() {
        let r = g.contains_vertex(VertexId(*x));
        c.check(r == m.verts.contains(x), || format!("contains_vertex({}) {} = {}", x, when, r));
        let out = m.edges.range((*x, 0)..=(*x, u64::MAX)).count();
        c.check(g.degree_out(VertexId(*x)) == out, || {
            format!("degree_out({}) {} = {}, expected {}", x, when, g.degree_out(VertexId(*x)), out)
        });
    }
}
