//! C20 attribute mappings, C21 search containers, C24 paths and cycles as values
use crate::ctx::Ctx;
use crate::gen;
use crate::model::*;
use crate::util::*;
use gc_core::attribute::attribute_command::AttributeCommand;
use gc_core::attribute::mapping::*;
use gc_core::graph::{Edge, VertexId};
use gc_core::iter::iter_cycle::Cycle;
use gc_core::iter::iter_datastructure::*;
use gc_core::path::{Path, ScoredPath};
use std::collections::{BTreeMap, VecDeque};

pub fn c20(ctx: &'static Ctx) {
    ctx.rule(
        "random sequences of attribute commands (single and in lists), direct updates and commands of \
         the wrong kind on vertex and edge mappings, every lookup compared with a map after each step; \
         distinct = distinct mapping contents reached",
    );
    ctx.require(&["lookups", "foreign commands", "foreign commands in lists", "removals of present keys", "removals of absent keys", "steps", "lookups in large mappings"]);
    ctx.par("history", ctx.scale(3000, 60000), |c| {
        let mut r = c.rng.clone();
        let n = gen::size(&mut r, 70).max(2);
        let vs = gen::labels(&mut r, n);
        let mut vm: VertexAttrMapping<i64> =
            if r.chance(1, 2) { no_vertex_mapping() } else { VertexAttrMapping::<i64>::new("w") };
        let mut em: EdgeAttrMapping<String> = no_edge_mapping();
        let mut vmod: BTreeMap<u64, i64> = BTreeMap::new();
        let mut emod: BTreeMap<(u64, u64), String> = BTreeMap::new();
        let steps = r.us(1, 120);
        let mut log = vec![];
        let mut hs = 7u64;
        for i in 0..steps {
            let (a, b) = (*r.pick(&vs), *r.pick(&vs));
            let val = r.range(-5, 1000) + i as i64;
            let sv = format!("v{}", val);
            let k = r.below(12);
            log.push((k, a, b, val));
            c.desc(format!("steps (kind, a, b, value): {:?}", log));
            let (vmr, emr) = (&mut vm, &mut em);
            let present_v = vmod.contains_key(&a);
            let present_e = emod.contains_key(&(a, b));
            match k {
                0 | 1 => {
                    c.guard("apply_vertex_command_to", || {
                        AttributeCommand::<i64>::apply_vertex_command_to(
                            AttributeCommand::AddVertexAttr(VertexId(a), val),
                            vmr,
                        )
                    });
                    vmod.insert(a, val);
                }
                2 => {
                    let got = c.guard("apply_vertex_command_to", || {
                        AttributeCommand::<i64>::apply_vertex_command_to(
                            AttributeCommand::RemoveVertexAttr(VertexId(a)),
                            vmr,
                        )
                    });
                    c.check(got == present_v, || format!("removal of vertex {} reported {}", a, got));
                    vmod.remove(&a);
                }
                3 => {
                    c.guard("add", || vmr.add(VertexId(a), val));
                    vmod.insert(a, val);
                }
                4 => {
                    let got = c.guard("remove", || vmr.remove(&VertexId(a)));
                    c.check(got == present_v, || format!("removal of vertex {} reported {}", a, got));
                    vmod.remove(&a);
                }
                5 | 6 => {
                    let s2 = sv.clone();
                    c.guard("apply_edge_command_to", || {
                        AttributeCommand::<String>::apply_edge_command_to(
                            AttributeCommand::AddEdgeAttr(VertexId(a), VertexId(b), s2),
                            emr,
                        )
                    });
                    emod.insert((a, b), sv);
                }
                7 => {
                    let got = c.guard("apply_edge_command_to", || {
                        AttributeCommand::<String>::apply_edge_command_to(
                            AttributeCommand::RemoveEdgeAttr(VertexId(a), VertexId(b)),
                            emr,
                        )
                    });
                    c.check(got == present_e, || format!("removal of edge {}->{} reported {}", a, b, got));
                    emod.remove(&(a, b));
                }
                8 => {
                    let got = c.guard("remove", || emr.remove(&ed(a, b)));
                    c.check(got == present_e, || format!("removal of edge {}->{} reported {}", a, b, got));
                    emod.remove(&(a, b));
                }
                9 => {
                    // the other kind
                    let x = if r.chance(1, 2) {
                        c.guard("foreign", || {
                            AttributeCommand::<i64>::apply_vertex_command_to(
                                AttributeCommand::AddEdgeAttr(VertexId(a), VertexId(a), val),
                                vmr,
                            )
                        })
                    } else {
                        c.guard("foreign", || {
                            AttributeCommand::<i64>::apply_vertex_command_to(
                                AttributeCommand::RemoveEdgeAttr(VertexId(a), VertexId(b)),
                                vmr,
                            )
                        })
                    };
                    let y = if r.chance(1, 2) {
                        c.guard("foreign", || {
                            AttributeCommand::<String>::apply_edge_command_to(
                                AttributeCommand::AddVertexAttr(VertexId(a), "x".to_string()),
                                emr,
                            )
                        })
                    } else {
                        c.guard("foreign", || {
                            AttributeCommand::<String>::apply_edge_command_to(
                                AttributeCommand::RemoveVertexAttr(VertexId(a)),
                                emr,
                            )
                        })
                    };
                    c.check(!x && !y, || "a command of the other kind reported an effect".to_string());
                    c.count("foreign commands", 2);
                }
                10 => {
                    // a list, in order
                    let mut l = vec![];
                    let len = if r.chance(1, 10) { r.us(20, 80) } else { r.us(0, 8) };
                    for _ in 0..len {
                        let x = *r.pick(&vs);
                        let v2 = r.range(0, 99);
                        match r.below(6) {
                            0 => {
                                l.push(AttributeCommand::RemoveVertexAttr(VertexId(x)));
                                vmod.remove(&x);
                            }
                            1 => {
                                let y = if r.chance(1, 3) { x } else { *r.pick(&vs) };
                                l.push(AttributeCommand::RemoveEdgeAttr(VertexId(x), VertexId(y)));
                                c.count("foreign commands in lists", 1);
                            }
                            2 => {
                                let y = if r.chance(1, 3) { x } else { *r.pick(&vs) };
                                l.push(AttributeCommand::AddEdgeAttr(VertexId(x), VertexId(y), v2));
                                c.count("foreign commands in lists", 1);
                            }
                            _ => {
                                l.push(AttributeCommand::AddVertexAttr(VertexId(x), v2));
                                vmod.insert(x, v2);
                            }
                        }
                    }
                    c.guard("apply_vertex_commands_to", || {
                        AttributeCommand::<i64>::apply_vertex_commands_to(l, vmr)
                    });
                }
                _ => {
                    let mut l = vec![];
                    let len = if r.chance(1, 10) { r.us(20, 80) } else { r.us(0, 8) };
                    for _ in 0..len {
                        let x = *r.pick(&vs);
                        let y = if r.chance(1, 6) { x } else { *r.pick(&vs) };
                        let v2 = format!("l{}", r.below(50));
                        match r.below(6) {
                            0 => {
                                l.push(AttributeCommand::RemoveEdgeAttr(VertexId(x), VertexId(y)));
                                emod.remove(&(x, y));
                            }
                            1 => {
                                l.push(AttributeCommand::RemoveVertexAttr(VertexId(x)));
                                c.count("foreign commands in lists", 1);
                            }
                            2 => {
                                l.push(AttributeCommand::AddVertexAttr(VertexId(x), v2));
                                c.count("foreign commands in lists", 1);
                            }
                            _ => {
                                l.push(AttributeCommand::AddEdgeAttr(VertexId(x), VertexId(y), v2.clone()));
                                emod.insert((x, y), v2);
                            }
                        }
                    }
                    c.guard("apply_edge_commands_to", || {
                        AttributeCommand::<String>::apply_edge_commands_to(l, emr)
                    });
                }
            }
            match k {
                2 | 4 => c.count(if present_v { "removals of present keys" } else { "removals of absent keys" }, 1),
                7 | 8 => c.count(if present_e { "removals of present keys" } else { "removals of absent keys" }, 1),
                _ => {}
            }
            // lookups: everything touched, plus reverse edges
            let d = -77i64;
            let ds = "none".to_string();
            let mut probe: Vec<u64> = vec![a, b];
            if i + 1 == steps || n < 12 {
                probe = vs.clone();
            }
            for v in &probe {
                let got = vm.as_closure()(&VertexId(*v)).cloned();
                c.check(got == vmod.get(v).cloned(), || {
                    format!("lookup of vertex {} gives {:?}, expected {:?}", v, got, vmod.get(v))
                });
                let gd = *vm.as_closure_with_defaults(&d)(&VertexId(*v));
                c.check(gd == *vmod.get(v).unwrap_or(&d), || format!("lookup with default of {} gives {}", v, gd));
                for w in &[a, b] {
                    for (x, y) in &[(*v, *w), (*w, *v)] {
                        let e = Edge(VertexId(*x), VertexId(*y));
                        let got = em.as_closure()(&e).cloned();
                        c.check(got == emod.get(&(*x, *y)).cloned(), || {
                            format!("lookup of {}->{} gives {:?}, expected {:?}", x, y, got, emod.get(&(*x, *y)))
                        });
                        let gd = em.as_closure_with_defaults(&ds)(&e).clone();
                        c.check(&gd == emod.get(&(*x, *y)).unwrap_or(&ds), || {
                            format!("lookup with default of {}->{} gives {}", x, y, gd)
                        });
                        c.count("lookups", 1);
                    }
                }
            }
            for (k, v) in &vmod {
                hs = mix(mix(hs, *k), *v as u64);
            }
            hs = mix(hs, emod.len() as u64);
            c.distinct(hs);
        }
        c.count("steps", steps as u64);
        c.sample(|| format!("{:?}", &log[..log.len().min(10)]));
    });
    // many keys
    ctx.par("large", ctx.scale(20, 300), |c| {
        let mut r = c.rng.clone();
        let n = *r.pick(&[300usize, 1000, 1025, 4097, 5000, 10000, 20000]);
        let vs = gen::labels(&mut r, n);
        c.desc(format!("{} keys, case {}", n, c.idx));
        let mut vm: VertexAttrMapping<i64> = no_vertex_mapping();
        let mut em: EdgeAttrMapping<i64> = no_edge_mapping();
        let mut vmod: BTreeMap<u64, i64> = BTreeMap::new();
        let mut emod: BTreeMap<(u64, u64), i64> = BTreeMap::new();
        let pairs: Vec<(u64, u64)> = (0..n).map(|i| (vs[i], vs[(i * 7 + 1) % n])).collect();
        for round in 0..r.us(1, 3) as i64 {
            let (mut vl, mut el) = (vec![], vec![]);
            for i in 0..n {
                let (v, e) = (vs[i], pairs[i]);
                let val = round * 100000 + i as i64;
                if r.chance(1, 20) {
                    vl.push(AttributeCommand::AddEdgeAttr(VertexId(e.0), VertexId(e.1), val));
                    el.push(AttributeCommand::AddVertexAttr(VertexId(v), val));
                }
                if round == 0 || r.chance(1, 2) {
                    vl.push(AttributeCommand::AddVertexAttr(VertexId(v), val));
                    vmod.insert(v, val);
                    el.push(AttributeCommand::AddEdgeAttr(VertexId(e.0), VertexId(e.1), val));
                    emod.insert(e, val);
                } else if r.chance(1, 2) {
                    vl.push(AttributeCommand::RemoveVertexAttr(VertexId(v)));
                    vmod.remove(&v);
                    el.push(AttributeCommand::RemoveEdgeAttr(VertexId(e.0), VertexId(e.1)));
                    emod.remove(&e);
                }
            }
            let (vmr, emr) = (&mut vm, &mut em);
            c.guard("apply_vertex_commands_to", || AttributeCommand::<i64>::apply_vertex_commands_to(vl, vmr));
            c.guard("apply_edge_commands_to", || AttributeCommand::<i64>::apply_edge_commands_to(el, emr));
            for i in 0..n {
                let got = vm.as_closure()(&VertexId(vs[i])).cloned();
                c.check(got == vmod.get(&vs[i]).cloned(), || format!("lookup of vertex {} gives {:?}, expected {:?}", vs[i], got, vmod.get(&vs[i])));
                for (x, y) in &[pairs[i], (pairs[i].1, pairs[i].0)] {
                    let got = em.as_closure()(&ed(*x, *y)).cloned();
                    c.check(got == emod.get(&(*x, *y)).cloned(), || format!("lookup of {}->{} gives {:?}, expected {:?}", x, y, got, emod.get(&(*x, *y))));
                }
            }
            c.count("lookups", 3 * n as u64);
            c.count("lookups in large mappings", 3 * n as u64);
            c.distinct(mix(c.idx, vmod.len() as u64 * 4 + round as u64));
        }
        // all but a few taken away again, one by one
        let keep = r.us(0, 9);
        let left: Vec<usize> = (0..keep).map(|_| r.below(n)).collect();
        let (vkeep, ekeep): (Vec<u64>, Vec<(u64, u64)>) = (left.iter().map(|i| vs[*i]).collect(), left.iter().map(|i| pairs[*i]).collect());
        for i in 0..n {
            if !vkeep.contains(&vs[i]) {
                let had = c.guard("remove", || vm.remove(&VertexId(vs[i])));
                c.check(had == vmod.remove(&vs[i]).is_some(), || format!("removal of vertex {} reports {}", vs[i], had));
            }
            if !ekeep.contains(&pairs[i]) {
                let had = c.guard("remove", || em.remove(&ed(pairs[i].0, pairs[i].1)));
                c.check(had == emod.remove(&pairs[i]).is_some(), || format!("removal of {:?} reports {}", pairs[i], had));
            }
        }
        for i in 0..n {
            let got = vm.as_closure()(&VertexId(vs[i])).cloned();
            c.check(got == vmod.get(&vs[i]).cloned(), || format!("after the removals vertex {} gives {:?}, expected {:?}", vs[i], got, vmod.get(&vs[i])));
            let (x, y) = pairs[i];
            let got = em.as_closure()(&ed(x, y)).cloned();
            c.check(got == emod.get(&(x, y)).cloned(), || format!("after the removals {}->{} gives {:?}, expected {:?}", x, y, got, emod.get(&(x, y))));
        }
        c.count("lookups in large mappings", 2 * n as u64);
    });
}

#[derive(Clone, Debug, PartialEq, Eq)]
struct Item {
    prio: i64,
    id: u64,
}
impl PartialOrd for Item {
    fn partial_cmp(&self, o: &Item) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Item {
    fn cmp(&self, o: &Item) -> std::cmp::Ordering {
        self.prio.cmp(&o.prio)
    }
}

trait Kind {
    fn name(&self) -> &'static str;
    fn push(&mut self, i: Item);
    fn pop(&mut self) -> Option<Item>;
    fn dup(&self) -> Box<dyn Kind>;
}
macro_rules! kind {
    ($t:ident, $n:expr) => {
        impl Kind for $t<Item> {
            fn name(&self) -> &'static str {
                $n
            }
            fn push(&mut self, i: Item) {
                SearchQueue::push(self, i)
            }
            fn pop(&mut self) -> Option<Item> {
                SearchQueue::pop(self)
            }
            fn dup(&self) -> Box<dyn Kind> {
                Box::new(self.clone())
            }
        }
    };
}
kind!(Stack, "stack");
kind!(Queue, "queue");
kind!(MinPriorityQueue, "min");
kind!(MaxPriorityQueue, "max");

fn fresh(k: usize) -> Box<dyn Kind> {
    match k {
        0 => Box::new(Stack::<Item>::new::<Item>()),
        1 => Box::new(Queue::<Item>::new::<Item>()),
        2 => Box::new(MinPriorityQueue::<Item>::new::<Item>()),
        _ => Box::new(MaxPriorityQueue::<Item>::new::<Item>()),
    }
}

pub fn c21(ctx: &'static Ctx) {
    ctx.rule(
        "random push/pop interleavings on all four containers (few and many distinct priorities, bursts, \
         draining, clones used side by side); each pop judged against the multiset of present elements; \
         distinct = distinct pop sequences",
    );
    ctx.require(&["pops", "pops of empty containers", "pushes", "clones", "bulk fills", "fills with equal elements"]);
    ctx.par("interleaving", ctx.scale(8000, 160000), |c| {
        let mut r = c.rng.clone();
        let k = (c.idx % 4) as usize;
        let mut q = fresh(k);
        let mut present: VecDeque<Item> = VecDeque::new();
        let n = match r.below(5) {
            0 => r.us(1, 8),
            1 | 2 => r.us(8, 60),
            3 => *r.pick(&[63usize, 64, 65, 128, 129, 256, 300]),
            _ => r.us(60, 900),
        };
        let span = *r.pick(&[1i64, 2, 3, 10, 1000, i64::MAX]);
        let mut id = 0;
        let mut log = vec![];
        let mut hs = k as u64;
        let mut step = 0;
        let phase_up = r.us(1, 4) as u32;
        while step < n || !present.is_empty() {
            step += 1;
            let drain = step >= n;
            if !drain && r.chance(phase_up, 5) {
                let prio = match r.below(12) {
                    0 => i64::MIN,
                    1 => i64::MAX,
                    _ => r.range(-(span / 2), span / 2),
                };
                let it = Item { prio, id };
                id += 1;
                log.push(format!("push({},#{})", it.prio, it.id));
                c.guard("push", || q.push(it.clone()));
                present.push_back(it);
                c.count("pushes", 1);
            } else {
                log.push("pop".into());
                let got = c.guard("pop", || q.pop());
                c.count("pops", 1);
                let bad = |why: &str| {
                    let from = log.len().saturating_sub(200);
                    c.desc(format!("{}: ... {}", q.name(), log[from..].join(" ")));
                    c.fail(&format!("{}: popped {:?}: {}", q.name(), got, why))
                };
                match &got {
                    None => {
                        if !present.is_empty() {
                            bad(&format!("{} elements are present", present.len()));
                        }
                        c.count("pops of empty containers", 1);
                    }
                    Some(x) => {
                        let pos = match present.iter().position(|p| p.id == x.id && p.prio == x.prio) {
                            Some(p) => p,
                            None => bad("not an element that is present"),
                        };
                        let ok = match k {
                            0 => pos + 1 == present.len(),
                            1 => pos == 0,
                            2 => present.iter().all(|p| p.prio >= x.prio),
                            _ => present.iter().all(|p| p.prio <= x.prio),
                        };
                        if !ok {
                            bad("not the right one");
                        }
                        present.remove(pos);
                        hs = mix(hs, x.id);
                    }
                }
            }
            if r.chance(1, 60) {
                // a clone is independent
                let mut d = q.dup();
                let mut left = present.len();
                while d.pop().is_some() {
                    if left == 0 {
                        c.fail("a clone holds more elements than the original");
                    }
                    left -= 1;
                }
                c.check(left == 0, || "a clone lost elements".to_string());
                c.count("clones", 1);
            }
        }
        let end = c.guard("pop", || q.pop());
        c.check(end.is_none(), || format!("{}: {:?} popped after everything was popped", q.name(), end));
        c.count("pops of empty containers", 1);
        c.distinct(hs);
        c.sample(|| log[..log.len().min(12)].join(" "));
    });
    // many elements at once
    ctx.par("bulk", ctx.scale(24, 400), |c| {
        let mut r = c.rng.clone();
        let k = (c.idx % 4) as usize;
        let mut q = fresh(k);
        let n = *r.pick(&[1000usize, 1024, 2049, 4097, 5000, 10001, 20000]);
        let span = *r.pick(&[1i64, 10, 5000, i64::MAX]);
        let mut present: BTreeMap<(i64, u64), ()> = BTreeMap::new();
        let mut order: VecDeque<Item> = VecDeque::new();
        let mut id = 0;
        let rounds = r.us(1, 3);
        c.desc(format!("{}: {} rounds of about {} pushes, priorities within {}", q.name(), rounds, n, span));
        for round in 0..=rounds {
            let pushes = if round == rounds { 0 } else { n - r.us(0, 3) };
            for _ in 0..pushes {
                let it = Item { prio: r.range(-(span / 2), span / 2), id };
                id += 1;
                c.guard("push", || q.push(it.clone()));
                present.insert((it.prio, it.id), ());
                order.push_back(it);
            }
            c.count("pushes", pushes as u64);
            let keep = if round == rounds { 0 } else { r.us(0, present.len()) };
            while present.len() > keep {
                let got = c.guard("pop", || q.pop());
                let want = match k {
                    0 => order.pop_back(),
                    1 => order.pop_front(),
                    _ => None,
                };
                let x = match got {
                    None => c.fail(&format!("{}: nothing popped with {} elements present", q.name(), present.len())),
                    Some(x) => x,
                };
                let best = match k {
                    2 => present.keys().next().map(|y| y.0),
                    3 => present.keys().next_back().map(|y| y.0),
                    _ => None,
                };
                c.check(present.remove(&(x.prio, x.id)).is_some(), || format!("{}: popped {:?}, which is not present", q.name(), x));
                match k {
                    0 | 1 => c.check(want.as_ref() == Some(&x), || format!("{}: popped {:?} instead of {:?}", q.name(), x, want)),
                    _ => c.check(best == Some(x.prio), || format!("{}: popped {:?}, the best is {:?}", q.name(), x, best)),
                }
                c.count("pops", 1);
            }
        }
        let end = c.guard("pop", || q.pop());
        c.check(end.is_none(), || format!("{}: {:?} popped after everything was popped", q.name(), end));
        c.count("pops of empty containers", 1);
        c.count("bulk fills", 1);
        c.distinct(mix(c.idx, id));
    });
    // elements that are equal to each other are all kept
    ctx.par("equal-elements", ctx.scale(60, 1500), |c| {
        let mut r = c.rng.clone();
        let n = *r.pick(&[20usize, 100, 700, 1500, 5000]);
        let span = r.us(1, 4);
        let k = c.idx % 4;
        let mut st = Stack::<u32>::new::<u32>();
        let mut qu = Queue::<u32>::new::<u32>();
        let mut mi = MinPriorityQueue::<u32>::new::<u32>();
        let mut ma = MaxPriorityQueue::<u32>::new::<u32>();
        let name = ["stack", "queue", "min", "max"][k as usize];
        c.desc(format!("{}: about {} pushes of {} different values", name, n, span));
        let mut list: VecDeque<u32> = VecDeque::new();
        let mut count = vec![0usize; span];
        let mut left = n;
        while left > 0 || !list.is_empty() {
            if left > 0 && r.chance(if list.len() > n / 2 { 2 } else { 4 }, 5) {
                let x = r.below(span) as u32;
                c.guard("push", || match k {
                    0 => st.push(x),
                    1 => qu.push(x),
                    2 => mi.push(x),
                    _ => ma.push(x),
                });
                list.push_back(x);
                count[x as usize] += 1;
                left -= 1;
                c.count("pushes", 1);
            } else {
                let got = c.guard("pop", || match k {
                    0 => st.pop(),
                    1 => qu.pop(),
                    2 => mi.pop(),
                    _ => ma.pop(),
                });
                let want = match k {
                    0 => list.back().cloned(),
                    1 => list.front().cloned(),
                    2 => count.iter().position(|x| *x > 0).map(|x| x as u32),
                    _ => count.iter().rposition(|x| *x > 0).map(|x| x as u32),
                };
                c.check(got == want, || format!("{}: popped {:?} instead of {:?} with {} elements present", name, got, want, list.len()));
                c.count("pops", 1);
                if let Some(x) = got {
                    count[x as usize] -= 1;
                    if k == 1 {
                        list.pop_front();
                    } else {
                        list.pop_back();
                    }
                } else {
                    c.count("pops of empty containers", 1);
                }
            }
        }
        let end = match k {
            0 => st.pop(),
            1 => qu.pop(),
            2 => mi.pop(),
            _ => ma.pop(),
        };
        c.check(end.is_none(), || format!("{}: {:?} popped after everything was popped", name, end));
        c.count("fills with equal elements", 1);
        c.distinct(mix(c.idx, fnv(name.as_bytes())));
    });
    // scored paths, as the searches use them
    ctx.par("scored-paths", ctx.scale(500, 5000), |c| {
        let mut r = c.rng.clone();
        let mut q = MinPriorityQueue::<ScoredPath>::new::<ScoredPath>();
        let mut present: Vec<ScoredPath> = vec![];
        for i in 0..r.us(1, 80) {
            if r.chance(2, 3) {
                let sp = ScoredPath { path: Path::from(&vids(&[i as u64])), score: r.range(-3, 9) };
                c.guard("push", || q.push(sp.clone()));
                present.push(sp);
                c.count("pushes", 1);
            } else {
                let got = c.guard("pop", || q.pop());
                c.count("pops", 1);
                match got {
                    None => c.check(present.is_empty(), || "nothing popped".into()),
                    Some(x) => {
                        let m = present.iter().map(|p| p.score).min();
                        c.check(Some(x.score) == m, || format!("popped {:?}, smallest is {:?}", x, m));
                        let p = present.iter().position(|y| y.path == x.path && y.score == x.score);
                        c.check(p.is_some(), || format!("{:?} was not present", x));
                        present.remove(p.unwrap());
                    }
                }
            }
        }
        c.distinct(mix(c.idx, present.len() as u64));
    });
}

pub fn c24(ctx: &'static Ctx) {
    ctx.rule(
        "vertex sequences (all over three ids up to length 5, random ones with repeats up to several hundred) \
         as paths and cycles; every accessor compared with the sequence; distinct = distinct sequences",
    );
    ctx.require(&["paths", "cycles accepted", "cycles refused", "rotations", "paths with a repeat", "edges reversed"]);
    let one = |c: &mut crate::ctx::Case, v: &[u64]| {
        c.desc(format!("sequence {:?}", v));
        c.distinct(v.iter().fold(v.len() as u64, |h, x| mix(h, *x)));
        c.count("paths", 1);
        let p = if v.is_empty() && c.idx % 2 == 0 { Path::empty() } else { Path::from(&vids(v)) };
        let set: std::collections::BTreeSet<u64> = v.iter().cloned().collect();
        let rep = set.len() < v.len();
        if rep {
            c.count("paths with a repeat", 1);
        }
        let got: Vec<u64> = p.to_vertex_list().map(|x| x.0).collect();
        c.check(got == v, || format!("to_vertex_list gives {:?}", got));
        c.check(p.size() == v.len(), || format!("size {}", p.size()));
        c.check(p.is_empty() == v.is_empty(), || "is_empty".into());
        c.check(p.first().map(|x| x.0) == v.first().cloned(), || format!("first {:?}", p.first()));
        c.check(p.last().map(|x| x.0) == v.last().cloned(), || format!("last {:?}", p.last()));
        let es: Vec<(u64, u64)> = p.to_edge_list().map(|e| ((e.0).0, (e.1).0)).collect();
        let want: Vec<(u64, u64)> = v.windows(2).map(|w| (w[0], w[1])).collect();
        c.check(es == want, || format!("edges {:?}", es));
        c.check(p.contains_cycle() == rep, || format!("contains_cycle {}", p.contains_cycle()));
        let mut probe: Vec<u64> = set.iter().cloned().collect();
        probe.truncate(12);
        probe.push(1);
        probe.push(u64::MAX);
        if let Some(x) = v.last() {
            probe.push(*x);
        }
        for a in &probe {
            let g = p.contains_vertex(&VertexId(*a));
            c.check(g == set.contains(a), || format!("contains_vertex({}) = {}", a, g));
            for b in &probe {
                let g = p.contains_edge(&ed(*a, *b));
                c.check(g == want.contains(&(*a, *b)), || format!("contains_edge({}->{}) = {}", a, b, g));
            }
        }
        for x in probe.iter().take(4) {
            let q = p.append(VertexId(*x));
            let mut w = v.to_vec();
            w.push(*x);
            let gq: Vec<u64> = q.to_vertex_list().map(|y| y.0).collect();
            c.check(gq == w, || format!("append({}) gives {:?}", x, gq));
            let gp: Vec<u64> = p.to_vertex_list().map(|y| y.0).collect();
            c.check(gp == v, || format!("append({}) changed the original to {:?}", x, gp));
        }
        // cycles
        for cy in [Cycle::from_vertices(&vids(v)), Cycle::from_path(&p)].iter() {
            let can = v.len() >= 2 && !rep;
            c.check(cy.is_some() == can, || format!("cycle from {:?}: {:?}", v, cy));
            let cy = match cy {
                None => {
                    c.count("cycles refused", 1);
                    continue;
                }
                Some(x) => x,
            };
            c.count("cycles accepted", 1);
            let lst = |x: &Cycle| -> Vec<u64> { x.iter().map(|y| y.0).collect() };
            c.check(lst(cy) == v && cy.len() == v.len(), || format!("cycle lists {:?}", lst(cy)));
            let canon = crate::cli::canon(v);
            let k = c.guard("canonical", || cy.canonical());
            c.check(lst(&k) == canon, || format!("canonical {:?}, expected {:?}", lst(&k), canon));
            c.check(k.is_canonical(), || "the canonical form does not say it is canonical".into());
            c.check(cy.is_canonical() == (canon == v), || format!("is_canonical {}", cy.is_canonical()));
            let step = (v.len() / 12).max(1);
            for t in (0..v.len()).step_by(step) {
                let mut w = v.to_vec();
                w.rotate_left(t);
                let rc = Cycle::from_vertices(&vids(&w)).unwrap();
                c.check(rc.canonical() == k, || format!("rotation {:?} has canonical form {:?}", w, lst(&rc.canonical())));
                c.check(rc.is_canonical() == (w == canon), || format!("is_canonical of {:?}", w));
                c.count("rotations", 1);
            }
            let ap: Vec<u64> = cy.as_path().to_vertex_list().map(|y| y.0).collect();
            let mut w = v.to_vec();
            w.push(v[0]);
            c.check(ap == w, || format!("as_path gives {:?}, expected {:?}", ap, w));
        }
    };
    // exhaustive short sequences
    ctx.par("all-short", 364, |c| {
        // lengths 0..=5 over {2,1,3}
        let mut i = c.idx;
        let mut len = 0;
        let mut block = 1;
        while i >= block {
            i -= block;
            len += 1;
            block *= 3;
        }
        let mut v = vec![];
        for _ in 0..len {
            v.push([2, 1, 3][(i % 3) as usize]);
            i /= 3;
        }
        one(c, &v);
    });
    ctx.par("random", ctx.scale(4000, 80000), |c| {
        let mut r = c.rng.clone();
        let n = match r.below(4) {
            0 | 1 => r.us(0, 9),
            2 => r.us(5, 40),
            _ if r.chance(1, 40) => *r.pick(&[500usize, 1000, 1024, 1025, 2000, 4097, 6000]),
            _ => *r.pick(&[63usize, 64, 65, 128, 200, 256, 300]),
        };
        let mut v = gen::labels(&mut r, n);
        match r.below(4) {
            0 if n > 0 => {
                let a = *r.pick(&v);
                let k = r.below(n);
                v[k] = a;
            }
            1 if n > 1 => v[n - 1] = v[0],
            2 if n > 2 => v[n - 1] = v[n - 2],
            _ => {}
        }
        one(c, &v);
        c.sample(|| format!("{:?}", &v[..v.len().min(10)]));
    });
    ctx.par("edges", ctx.scale(200, 2000), |c| {
        let mut r = c.rng.clone();
        let l = gen::labels(&mut r, 2);
        let (a, b) = (l[0], *r.pick(&l));
        let e = ed(a, b);
        c.desc(format!("edge {} {}", a, b));
        c.check(e.reverse() == ed(b, a), || format!("the reverse of {:?} is {:?}", e, e.reverse()));
        c.check(e.reverse().reverse() == e, || "reversing twice does not give the edge back".into());
        c.check(Edge::from((VertexId(a), VertexId(b))) == e, || "an edge built from a pair differs".into());
        c.check((e == e.reverse()) == (a == b), || "an edge and its reverse are confused".into());
        c.count("edges reversed", 1);
        c.distinct(mix(a, b));
    });
    // order of scored paths
    ctx.par("scores", 64, |c| {
        let s = [i64::MIN, -1, 0, 1, 2, i64::MAX, 5, 5];
        let (a, b) = (s[(c.idx / 8) as usize], s[(c.idx % 8) as usize]);
        let x = ScoredPath { path: Path::from(&vids(&[9, 1])), score: a };
        let y = ScoredPath { path: Path::from(&vids(&[1])), score: b };
        c.check(x.cmp(&y) == a.cmp(&b) && x.partial_cmp(&y) == Some(a.cmp(&b)), || {
            format!("scored paths with scores {} and {} compare as {:?}", a, b, x.cmp(&y))
        });
        c.distinct(mix(c.idx, 99));
    });
}
