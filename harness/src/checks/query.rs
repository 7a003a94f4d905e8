//! C23 queries never modify anything
use crate::checks::constraint::{csp_query, csp_run};
use crate::checks::edit::aimed;
use crate::checks::format::layout;
use crate::cli::*;
use crate::ctx::Ctx;
use crate::gen;
use crate::model::*;
use crate::oracle::*;
use crate::util::*;
use std::collections::BTreeMap;

fn clutter(r: &mut Rng, d: &Dir) {
    let names = ["data.txt", "commands", "graph", ".graph.bak", "notes.md", "lock.old", "tmp"];
    for n in names.iter() {
        if r.chance(1, 3) {
            let _ = std::fs::write(d.root.join(n), format!("AddVertex {}\n", r.below(100)));
        }
    }
    if r.chance(1, 3) {
        let _ = std::fs::write(d.root.join(".graph").join("attributes"), "x");
    }
    if r.chance(1, 3) {
        let sub = d.root.join("sub").join(".graph");
        let _ = std::fs::create_dir_all(&sub);
        let _ = std::fs::write(sub.join("commands"), "AddVertex 4711\n");
    }
    if r.chance(1, 3) {
        let up = d.base.join(".graph");
        let _ = std::fs::create_dir_all(&up);
        let _ = std::fs::write(up.join("commands"), "AddEdge 4711 4712\n");
    }
}

pub fn c23(ctx: &'static Ctx) {
    ctx.rule(
        "A case counts as distinct and non-trivial when its pair (graph with at least one vertex, file layout) has not been \
         seen. Around every query the whole directory tree is recorded (names, kinds, modes, bytes) and compared, and the \
         answer is certified against the model.",
    );
    ctx.require(&["queries", "layouts", "cli runs", "trees compared", "queries on long histories", "queries on large graphs", "queries among leftovers"]);
    ctx.par("queries", ctx.scale(400, 5000), |c| {
        let mut r = c.rng.clone();
        let n = if r.chance(1, 12) { 0 } else { r.us(1, 9) };
        let m = gen::graph(&mut r, n);
        c.desc(m.show());
        let all = match (cycles(&m, 100_000), simple_path_total(&m, 10_000)) {
            (Some(a), Some(_)) => a,
            _ => return,
        };
        let must = must_report(&m, &all);
        let vs = m.vlist();
        for lay in 0..2 {
            let d = Dir::new(c);
            let noise = lay == 1 || r.chance(1, 2);
            let h = m.history(&mut r, noise);
            let bytes = layout(&mut r, &h);
            d.put(&bytes);
            clutter(&mut r, &d);
            c.add_desc(&format!("layout: {:?}", String::from_utf8_lossy(&bytes)));
            c.count("layouts", 1);
            c.distinct(mix(m.hash(), fnv(&bytes)));
            let before = snapshot(&d.base);
            let same = |c: &mut crate::ctx::Case, b: &BTreeMap<String, String>, who: &str| {
                if let Some(x) = snap_diff(b, &snapshot(&d.base)) {
                    c.fail(&format!("{} modified the directory: {}", who, x));
                }
                c.count("trees compared", 1);
                c.count("queries", 1);
            };
            let times = if r.chance(1, 3) { 2 } else { 1 };
            for _ in 0..times {
                let x = aimed(c, &mut r, &d, "gc-desc");
                let o = go(c, x);
                cert_desc(c, &o, &m);
                same(c, &before, "gc-desc");
                let x = aimed(c, &mut r, &d, "gc-topo-sort");
                let o = go(c, x);
                cert_topo(c, &o, &m);
                same(c, &before, "gc-topo-sort");
                if !vs.is_empty() {
                    let (s, e) = (*r.pick(&vs), *r.pick(&vs));
                    let x = aimed(c, &mut r, &d, "gc-short-path").args(&["-s", &s.to_string(), "-e", &e.to_string()]);
                    let o = go(c, x);
                    cert_short(c, &o, &m, s, e);
                    same(c, &before, "gc-short-path");
                    let (s, t, args, ks) = csp_query(&mut r, &m, None);
                    if csp_run(c, &d, &m, s, t, &args, &ks) {
                        same(c, &before, "gc-csp");
                    }
                }
                let x = aimed(c, &mut r, &d, "gc-cycle").arg("--all");
                let o = go(c, x);
                c.check(o.ok(), || format!("gc-cycle failed\n{}", o.brief()));
                let got = cycle_lines(&o.out);
                let set = as_set(&got);
                c.check(set.len() == got.len() && got.iter().all(|k| all.contains(k)), || {
                    format!("gc-cycle --all prints {:?}, the cycles are {:?}", got, all)
                });
                if let Some(k) = must.iter().find(|k| !set.contains(*k)) {
                    c.fail(&format!("gc-cycle --all does not print {:?}", k));
                }
                same(c, &before, "gc-cycle");
                let act = *r.pick(&["--count", "--girth", "--hamiltonian", "--head", "--shortest", "--longest"]);
                let x = aimed(c, &mut r, &d, "gc-cycle").arg(act);
                let o = go(c, x);
                c.check(o.ok(), || format!("gc-cycle failed\n{}", o.brief()));
                same(c, &before, "gc-cycle");
            }
        }
        c.sample(|| m.show());
    });
    // what killed or running commands leave around: nothing of it is the query's to tidy up
    ctx.par("leftovers", ctx.scale(60, 800), |c| {
        let mut r = c.rng.clone();
        let k = r.us(2, 7);
        let m = gen::graph(&mut r, k);
        c.desc(m.show());
        let d = Dir::new(c);
        let h = m.history(&mut r, true);
        d.put(lines_of(&h).as_bytes());
        let store = d.root.join(".graph");
        for f in [
            ".commands.1.0.tmp", ".commands.4711.0.tmp", ".commands.tmp", "commands.tmp", "commands.1.tmp", "commands~", "commands.bak", "commands.old", "commands.new",
            "commands.lock", "lock", "tmp", "cache", "index", "commands.swp", ".commands.swp", "commands.1", "journal", "commands.log",
        ]
        .iter()
        {
            if r.chance(2, 3) {
                let _ = std::fs::write(store.join(f), *r.pick(&["", "AddVertex 99\n", "AddEd"]));
            }
        }
        let locked = c.idx % 3 != 0;
        if locked {
            let _ = std::fs::write(d.root.join("lock"), "");
        }
        if c.idx % 2 == 0 {
            // all of it old
            let t = std::time::SystemTime::now() - std::time::Duration::from_secs(3 * 86_400);
            let mut all: Vec<_> = std::fs::read_dir(&store).map(|l| l.flatten().map(|e| e.path()).collect()).unwrap_or_default();
            all.push(d.root.join("lock"));
            for p in all {
                if let Ok(f) = std::fs::OpenOptions::new().write(true).open(&p) {
                    let _ = f.set_modified(t);
                }
            }
        }
        let before = snapshot(&d.base);
        let vs = m.vlist();
        let (s, e) = (r.pick(&vs).to_string(), r.pick(&vs).to_string());
        for (prog, args) in [
            ("gc-desc", vec![]),
            ("gc-topo-sort", vec![]),
            ("gc-short-path", vec!["-s", &s, "-e", &e]),
            ("gc-csp", vec!["-s", &s, "-e", &e, "--max-length", "4"]),
            ("gc-cycle", vec!["--count"]),
        ]
        .iter()
        {
            let x = aimed(c, &mut r, &d, prog).args(args);
            let o = go(c, x);
            // whether queries work while the lock is held is a matter of C15
            if !locked {
                c.check(o.ok(), || format!("{} failed\n{}", prog, o.brief()));
                if *prog == "gc-desc" {
                    cert_desc(c, &o, &m);
                }
            }
            if let Some(x) = snap_diff(&before, &snapshot(&d.base)) {
                c.fail(&format!("{} modified the directory: {}", prog, x));
            }
            c.count("queries", 1);
            c.count("trees compared", 1);
        }
        c.count("queries among leftovers", 1);
        c.distinct(mix(m.hash(), mix(c.idx, 31)));
    });
    // long histories of small graphs
    ctx.par("bloated", ctx.scale(24, 240), |c| {
        let mut r = c.rng.clone();
        let n = r.us(0, 6);
        let m = gen::graph(&mut r, n);
        let all = cycles(&m, 100_000).unwrap_or_default();
        if simple_path_total(&m, 3_000).is_none() {
            return;
        }
        let mut h = vec![];
        let lines = *r.pick(&[300, 1200, 5000, 12_000]);
        let base = 1 << 40;
        while h.len() < lines {
            let (a, b) = (base + r.below(50) as u64, base + r.below(50) as u64);
            h.push(match r.below(4) {
                0 => Cmd::AV(a),
                1 => Cmd::AE(a, b),
                2 => Cmd::RE(a, b),
                _ => Cmd::RV(a),
            });
        }
        for v in 0..50 {
            h.push(Cmd::RV(base + v));
        }
        h.extend(m.history(&mut r, true));
        let d = Dir::new(c);
        let bytes = layout(&mut r, &h);
        d.put(&bytes);
        c.desc(format!("{} stored in {} lines, {} bytes", m.show(), h.len(), bytes.len()));
        let before = snapshot(&d.base);
        let same = |c: &mut crate::ctx::Case, who: &str| {
            if let Some(x) = snap_diff(&before, &snapshot(&d.base)) {
                c.fail(&format!("{} modified the directory: {}", who, x));
            }
            c.count("trees compared", 1);
            c.count("queries on long histories", 1);
        };
        let o = go(c, prog(c.ctx, "gc-desc").at(&d.root));
        cert_desc(c, &o, &m);
        same(c, "gc-desc");
        let o = go(c, prog(c.ctx, "gc-topo-sort").at(&d.root));
        cert_topo(c, &o, &m);
        same(c, "gc-topo-sort");
        let o = go(c, prog(c.ctx, "gc-cycle").at(&d.root).arg("--count"));
        c.check(o.ok(), || format!("gc-cycle failed\n{}", o.brief()));
        c.check(nums(&o.out).first().map(|x| *x as usize <= all.len()).unwrap_or(false), || format!("gc-cycle --count\n{}", o.brief()));
        same(c, "gc-cycle");
        let vs = m.vlist();
        if !vs.is_empty() {
            let (s, e) = (*r.pick(&vs), *r.pick(&vs));
            let o = go(c, prog(c.ctx, "gc-short-path").at(&d.root).args(&["-s", &s.to_string(), "-e", &e.to_string()]));
            cert_short(c, &o, &m, s, e);
            same(c, "gc-short-path");
            let (s, t, args, ks) = csp_query(&mut r, &m, None);
            if csp_run(c, &d, &m, s, t, &args, &ks) {
                same(c, "gc-csp");
            }
        }
        c.max("bytes of a history", bytes.len() as u64);
        c.distinct(mix(m.hash(), fnv(&bytes)));
    });
    // large graphs
    ctx.par("large-graphs", ctx.scale(12, 150), |c| {
        let mut r = c.rng.clone();
        let n = *r.pick(&[120usize, 210, 300, 520, 1100, 2100]);
        let l = gen::labels(&mut r, n);
        let mut m = MG::new();
        let back = c.idx % 2 == 1;
        // the search for cycles follows every path: it is asked where there are few
        let few = c.idx % 3 == 0;
        for i in 1..n {
            m.add_e(l[i - 1], l[i]);
            if !few && r.chance(1, 3) {
                let (a, b) = (r.below(i), i);
                m.add_e(l[a], l[b]);
            }
        }
        if back {
            let k = r.us(1, 4);
            m.add_e(l[k], l[0]);
        }
        let d = Dir::new(c);
        let h = m.history(&mut r, true);
        let bytes = layout(&mut r, &h);
        d.put(&bytes);
        clutter(&mut r, &d);
        c.desc(format!("{} vertices, {} edges, {} bytes", m.n(), m.edges.len(), bytes.len()));
        let before = snapshot(&d.base);
        let same = |c: &mut crate::ctx::Case, who: &str| {
            if let Some(x) = snap_diff(&before, &snapshot(&d.base)) {
                c.fail(&format!("{} modified the directory: {}", who, x));
            }
            c.count("trees compared", 1);
            c.count("queries on large graphs", 1);
        };
        let o = go(c, prog(c.ctx, "gc-desc").at(&d.root));
        cert_desc(c, &o, &m);
        same(c, "gc-desc");
        let o = go(c, prog(c.ctx, "gc-topo-sort").at(&d.root));
        cert_topo(c, &o, &m);
        same(c, "gc-topo-sort");
        let (s, e) = (l[r.below(n / 2)], l[r.us(n / 2, n - 1)]);
        let o = go(c, prog(c.ctx, "gc-short-path").at(&d.root).args(&["-s", &s.to_string(), "-e", &e.to_string()]));
        cert_short(c, &o, &m, s, e);
        same(c, "gc-short-path");
        if n <= 300 {
            // from and to the same vertex: the search is over at once
            let o = go(c, prog(c.ctx, "gc-csp").at(&d.root).args(&["-s", &s.to_string(), "-e", &s.to_string()]));
            c.check(o.ok(), || format!("gc-csp failed\n{}", o.brief()));
            same(c, "gc-csp");
        }
        if few {
            let o = go(c, prog(c.ctx, "gc-cycle").at(&d.root).arg("--head"));
            c.check(o.ok(), || format!("gc-cycle failed\n{}", o.brief()));
            let got = cycle_lines(&o.out);
            c.check(got.iter().all(|k| k.iter().zip(k.iter().cycle().skip(1)).all(|(a, b)| m.edges.contains(&(*a, *b)))), || {
                format!("gc-cycle --head prints no cycle of the graph\n{}", o.brief())
            });
            c.check(got.is_empty() != back, || format!("gc-cycle --head on a graph with{} a cycle\n{}", if back { "" } else { "out" }, o.brief()));
            same(c, "gc-cycle");
        }
        c.distinct(mix(m.hash(), fnv(&bytes)));
    });
    // queries that fail modify nothing either
    ctx.par("failing-queries", ctx.scale(80, 800), |c| {
        let mut r = c.rng.clone();
        let d = Dir::new(c);
        match r.below(7) {
            0 | 1 => {}
            2 => {
                let _ = std::fs::create_dir_all(d.root.join(".graph"));
            }
            3 => {
                let _ = std::fs::create_dir_all(d.root.join(".graph"));
                let _ = std::fs::write(d.root.join("lock"), "");
            }
            4 => d.put(b"AddVertex 1\nbroken\n"),
            5 => d.put(b""),
            _ => d.put(b"AddEdge 1 2\n"),
        }
        clutter(&mut r, &d);
        let before = snapshot(&d.base);
        let calls: [(&str, &[&str]); 17] = [
            ("gc-short-path", &["-s", "1", "-e", "2"]),
            ("gc-csp", &["-s", "1", "-e", "2"]),
            ("gc-csp", &["-s", "1", "-e", "2", "--max-length", "4"]),
            ("gc-csp", &["-s", "2", "-e", "1", "--no-cycle"]),
            ("gc-cycle", &["--count"]),
            ("gc-cycle", &["--girth"]),
            ("gc-cycle", &["--take-n", "3"]),
            ("gc-topo-sort", &["--nope"]),
            ("gc-desc", &["--nope"]),
            ("gc-desc", &[]),
            ("gc-topo-sort", &[]),
            ("gc-short-path", &["-s", "1"]),
            ("gc-short-path", &["-s", "1", "-e", "x"]),
            ("gc-csp", &["-s", "1", "-e", "2", "--max-length", "x"]),
            ("gc-cycle", &["--take-n", "x"]),
            ("gc-cycle", &["--all"]),
            ("gc-cycle", &["--help"]),
        ];
        for (p, a) in calls.iter() {
            let x = aimed(c, &mut r, &d, p).args(a);
            go(c, x);
            if let Some(x) = snap_diff(&before, &snapshot(&d.base)) {
                c.fail(&format!("{} modified the directory: {}", p, x));
            }
            c.count("trees compared", 1);
        }
        c.distinct(c.idx);
    });
}
