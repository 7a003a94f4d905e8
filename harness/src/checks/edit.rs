//! C14 edit commands against a model, C22 malformed arguments
use crate::cli::*;
use crate::ctx::{Case, Ctx};
use crate::gen;
use crate::model::*;
use crate::util::*;
use std::collections::BTreeSet;
use std::os::unix::fs::PermissionsExt;

/// arguments of one gc-add / gc-delete call with the commands they stand for
#[derive(Clone, Debug)]
pub struct Edit {
    pub prog: &'static str,
    pub args: Vec<String>,
    pub cmds: Vec<Cmd>,
}

fn strs(v: &[u64]) -> Vec<String> {
    v.iter().map(|x| x.to_string()).collect()
}

fn flag(r: &mut Rng, long: &str, short: &str) -> String {
    if r.chance(1, 2) {
        format!("--{}", long)
    } else {
        format!("-{}", short)
    }
}

pub fn some_distinct(r: &mut Rng, pool: &[u64], k: usize) -> Vec<u64> {
    let mut s = BTreeSet::new();
    let mut out = vec![];
    for _ in 0..k * 4 {
        if out.len() == k {
            break;
        }
        let v = *r.pick(pool);
        if s.insert(v) {
            out.push(v);
        }
    }
    out
}

pub fn add_edit(r: &mut Rng, pool: &[u64], big: bool) -> Edit {
    let mut args = vec![];
    let mut cmds = vec![];
    let mut edges: Vec<(u64, u64)> = vec![];
    let mut kinds: Vec<usize> = (0..6).collect();
    r.shuffle(&mut kinds);
    let cnt = if r.chance(2, 3) { 1 } else { r.us(1, 4) };
    let rev = r.chance(1, 4);
    let long = if big { 40 } else { 5 };
    for k in kinds.into_iter().take(cnt) {
        match k {
            0 => {
                let n = r.us(1, 4);
                let l: Vec<u64> = (0..n).map(|_| *r.pick(pool)).collect();
                if n > 1 && r.chance(1, 3) {
                    for v in &l {
                        args.push(flag(r, "vertex", "v"));
                        args.push(v.to_string());
                    }
                } else {
                    args.push(flag(r, "vertex", "v"));
                    args.extend(strs(&l));
                }
                cmds.extend(l.iter().map(|v| Cmd::AV(*v)));
            }
            1 => {
                let n = r.us(1, if big { 60 } else { 4 });
                args.push(flag(r, "edge", "e"));
                for _ in 0..n {
                    let (a, b) = (*r.pick(pool), *r.pick(pool));
                    args.extend(strs(&[a, b]));
                    edges.push((a, b));
                }
            }
            2 => {
                let n = r.us(2, long);
                let l: Vec<u64> = (0..n).map(|_| *r.pick(pool)).collect();
                args.push(flag(r, "chain", "c"));
                args.extend(strs(&l));
                for w in l.windows(2) {
                    edges.push((w[0], w[1]));
                }
            }
            3 => {
                let n = r.us(2, long);
                let l = some_distinct(r, pool, n);
                if l.len() < 2 {
                    continue;
                }
                args.push(flag(r, "cycle", "O"));
                args.extend(strs(&l));
                for i in 0..l.len() {
                    edges.push((l[i], l[(i + 1) % l.len()]));
                }
            }
            4 => {
                let n = r.us(2, long);
                let l = some_distinct(r, pool, n);
                if l.len() < 2 {
                    continue;
                }
                args.push(flag(r, "star", "X"));
                args.extend(strs(&l));
                for v in &l[1..] {
                    edges.push((l[0], *v));
                }
            }
            _ => {
                let n = r.us(2, if big { 30 } else { 5 });
                let l = some_distinct(r, pool, n);
                if l.len() < 2 {
                    continue;
                }
                args.push(flag(r, "clique", "C"));
                args.extend(strs(&l));
                for a in &l {
                    for b in &l {
                        if a != b {
                            cmds.push(Cmd::AE(*a, *b));
                        }
                    }
                }
            }
        }
    }
    if rev {
        let f = flag(r, "reverse", "r");
        if r.chance(1, 2) {
            args.insert(0, f);
        } else {
            args.push(f);
        }
        edges = edges.iter().map(|e| (e.1, e.0)).collect();
    }
    cmds.extend(edges.iter().map(|e| Cmd::AE(e.0, e.1)));
    if cmds.is_empty() {
        // nothing to add is not an edit: it may succeed without touching anything
        let v = *r.pick(pool);
        args.extend(vec!["--vertex".to_string(), v.to_string()]);
        cmds.push(Cmd::AV(v));
    }
    Edit { prog: "gc-add", args, cmds }
}

pub fn del_edit(r: &mut Rng, m: &MG, pool: &[u64]) -> Edit {
    let mut args = vec![];
    let mut cmds = vec![];
    let es: Vec<(u64, u64)> = m.edges.iter().cloned().collect();
    let both = r.chance(1, 4);
    let vfirst = r.chance(1, 2);
    let mut parts = vec![];
    if both || r.chance(1, 2) {
        parts.push(0);
    }
    if both || parts.is_empty() {
        parts.push(1);
    }
    if !vfirst {
        parts.reverse();
    }
    for p in parts {
        if p == 0 {
            let n = r.us(1, 3);
            args.push(flag(r, "vertex", "v"));
            for _ in 0..n {
                let v = *r.pick(pool);
                args.push(v.to_string());
                cmds.push(Cmd::RV(v));
            }
        } else {
            args.push(flag(r, "edge", "e"));
            for _ in 0..r.us(1, 4) {
                let (a, b) = if !es.is_empty() && r.chance(3, 4) { *r.pick(&es) } else { (*r.pick(pool), *r.pick(pool)) };
                args.extend(strs(&[a, b]));
                cmds.push(Cmd::RE(a, b));
            }
        }
    }
    Edit { prog: "gc-delete", args, cmds }
}

pub fn pool(r: &mut Rng, n: usize) -> Vec<u64> {
    let mut l = gen::labels(r, n);
    if r.chance(1, 3) {
        l[0] = *r.pick(&gen::BOUNDARY);
    }
    l
}

/// the program aimed at the directory in one of the ways a user can
pub fn aimed(c: &Case, r: &mut Rng, d: &Dir, name: &str) -> Run {
    aim(c.ctx, r.below(SPELLINGS + 2), d, name)
}

pub const SPELLINGS: usize = 10;

/// the k-th way to name the directory (which must be a plain child of d.base)
pub fn aim(ctx: &'static Ctx, k: usize, d: &Dir, name: &str) -> Run {
    let rel = d.root.file_name().unwrap().to_str().unwrap().to_string();
    let p = |s: String| prog(ctx, name).args(&["-p", &s]);
    match k {
        0 => prog(ctx, name).cwd(&d.root),
        1 => prog(ctx, name).cwd(&d.base).args(&["--path", &rel]),
        2 => p(format!("{}/", d.s())),
        3 => p(format!("{}/.", d.s())),
        4 => p(format!("{}/../{}", d.s(), rel)),
        5 => prog(ctx, name).cwd(&d.root).args(&["--path", "."]),
        6 => prog(ctx, name).cwd(&d.root).args(&["-p", &format!("../{}", rel)]),
        7 => prog(ctx, name).cwd(&d.base).args(&["--path", &format!("./{}/", rel)]),
        8 if d.base.join("ln").exists() && rel == "g" => p(format!("{}/ln", d.base.display())),
        9 if d.base.join(BLANKS).exists() && rel == "g" => prog(ctx, name).cwd(&d.base).args(&["-p", BLANKS]),
        _ => prog(ctx, name).at(&d.root),
    }
}

fn same(c: &Case, d: &Dir, m: &MG, when: &str) {
    match load(c, d) {
        Err(e) => c.fail(&format!("{}: the stored graph cannot be read: {}", when, e)),
        Ok(g) => c.check(g == *m, || {
            let f = |a: &MG, b: &MG| {
                let v: Vec<_> = a.verts.difference(&b.verts).take(4).collect();
                let e: Vec<_> = a.edges.difference(&b.edges).take(4).collect();
                format!("vertices {:?} edges {:?}", v, e)
            };
            format!("{}: the stored graph differs from the history; missing {}; surplus {}", when, f(m, &g), f(&g, m))
        }),
    }
}

/// after a build the stored history only lists the vertices and edges that are there, each at most once
fn compact(c: &Case, d: &Dir, m: &MG) {
    let b = std::fs::read(d.cmdfile()).unwrap_or_default();
    match crate::fmtspec::parse_strict(&b, crate::fmtspec::gcmd) {
        Ok(cs) => {
            c.check(cs.len() <= m.n() + m.edges.len(), || {
                format!("gc-build left a history of {} commands for {} vertices and {} edges", cs.len(), m.n(), m.edges.len())
            });
            c.check(cs.iter().all(|x| matches!(x, Cmd::AV(_) | Cmd::AE(_, _))), || "gc-build left removals in the history".into());
        }
        Err(l) => c.fail(&format!("gc-build wrote a malformed line {}", l)),
    }
}

pub fn c14(ctx: &'static Ctx) {
    ctx.rule(
        "A case counts as distinct and non-trivial when its sequence of commands (at least two that changed the model) has \
         not been seen. After every command of a history the stored graph is read back and compared with a set model; \
         reading commands are certified against the model along the way.",
    );
    ctx.require(&["edits", "desc answers", "builds", "cleans", "inits on an existing graph", "edits without a graph", "failed stores", "reversed", "large patterns",
        "long histories", "library edits", "combined options", "loops on listed vertices", "edits without a graph of their own"]);
    ctx.par("histories", ctx.scale(700, 8000), |c| {
        let mut r = c.rng.clone();
        let mut d = Dir::new(c);
        if r.chance(1, 4) {
            // unusual directory names
            let n = *r.pick(&["a b", "ünï", "-x", "a'b", "g.graph", "sub/deep/er"]);
            d.root = d.base.join(n);
            let _ = std::fs::create_dir_all(&d.root);
        }
        let np = r.us(2, 9);
        let pool = pool(&mut r, np);
        let mut m: Option<MG> = None;
        let mut sig = 0u64;
        let mut changes = 0;
        let steps = if c.idx % 70 == 0 { r.us(40, 70) } else { r.us(3, 14) };
        c.desc(String::new());
        for i in 0..steps {
            let k = if i == 0 { r.pick(&[0, 0, 0, 0, 0, 0, 0, 0, 1, 3]).clone() } else { r.below(24) };
            let plain = d.root.file_name().unwrap().to_str().map(|x| !x.starts_with('-')).unwrap_or(false) && d.root.parent() == Some(&d.base);
            let run = |c: &Case, r: &mut Rng, name: &str| {
                if plain {
                    aimed(c, r, &d, name)
                } else if r.chance(1, 2) {
                    prog(c.ctx, name).cwd(&d.root)
                } else {
                    prog(c.ctx, name).at(&d.root)
                }
            };
            let before = m.clone();
            match k {
                0 => {
                    let x = run(c, &mut r, "gc-init");
                    let o = go(c, x);
                    c.check(o.ok(), || format!("gc-init failed\n{}", o.brief()));
                    if m.is_some() {
                        c.count("inits on an existing graph", 1);
                    } else {
                        m = Some(MG::new());
                    }
                }
                1 => {
                    let x = run(c, &mut r, "gc-build");
                    let o = go(c, x);
                    if m.is_some() {
                        c.check(o.ok(), || format!("gc-build failed\n{}", o.brief()));
                        c.count("builds", 1);
                        compact(c, &d, m.as_ref().unwrap());
                    } else {
                        c.check(!o.ok(), || "gc-build succeeds without a graph".into());
                    }
                }
                2 if r.chance(1, 2) => {
                    let f = flag(&mut r, "force", "f");
                    let x = run(c, &mut r, "gc-clean").arg(&f);
                    let o = go(c, x);
                    if m.is_some() {
                        c.check(o.ok(), || format!("gc-clean failed\n{}", o.brief()));
                        c.count("cleans", 1);
                    }
                    m = None;
                }
                _ => {
                    let e = match &m {
                        Some(g) if r.chance(1, 3) => del_edit(&mut r, g, &pool),
                        _ => {
                            let big = r.chance(1, 25);
                            add_edit(&mut r, &pool, big)
                        }
                    };
                    if e.args.iter().any(|a| a == "-r" || a == "--reverse") {
                        c.count("reversed", 1);
                    }
                    let x = run(c, &mut r, e.prog);
                    // the path option first or last
                    let o = go(c, x.args(&e.args));
                    match &mut m {
                        Some(g) => {
                            c.check(o.ok(), || format!("{} failed\n{}", e.prog, o.brief()));
                            for x in &e.cmds {
                                g.apply(x);
                            }
                            c.count("edits", 1);
                        }
                        None => {
                            c.count("edits without a graph", 1);
                            if o.ok() && !e.cmds.is_empty() {
                                // then the change must have been stored
                                let g = MG::of(&e.cmds);
                                same(c, &d, &g, "after a successful edit on a directory without graph");
                                m = Some(g);
                            }
                        }
                    }
                    sig = mix(sig, fnv(format!("{:?}", e.args).as_bytes()));
                }
            }
            sig = mix(sig, k as u64);
            match &m {
                Some(g) => {
                    same(c, &d, g, "after the last command");
                    if before.as_ref() != Some(g) {
                        changes += 1;
                    }
                    if r.chance(1, 3) || i + 1 == steps {
                        let x = run(c, &mut r, "gc-desc");
                        let o = go(c, x);
                        cert_desc(c, &o, g);
                        c.count("desc answers", 1);
                    }
                    if r.chance(1, 8) {
                        let x = run(c, &mut r, "gc-topo-sort");
                        let o = go(c, x);
                        cert_topo(c, &o, g);
                    }
                    if r.chance(1, 8) && g.n() > 0 {
                        let l = g.vlist();
                        let (s, e) = (*r.pick(&l), *r.pick(&l));
                        let x = run(c, &mut r, "gc-short-path").args(&["-s", &s.to_string(), "-e", &e.to_string()]);
                        let o = go(c, x);
                        cert_short(c, &o, g, s, e);
                    }
                }
                None => {
                    let x = load(c, &d);
                    c.check(x.is_err(), || "a graph can be read although none was initialised".into());
                    let x = run(c, &mut r, "gc-desc");
                    let o = go(c, x);
                    c.check(!o.ok(), || "gc-desc answers without a graph".into());
                }
            }
        }
        c.max("steps", steps as u64);
        if changes >= 2 {
            c.distinct(sig);
        }
        c.sample(|| format!("{} steps, final {}", steps, m.map(|x| x.show()).unwrap_or_default()));
    });
    // each option on its own with fixed values, compared edge by edge
    ctx.par("each-option", 7 * 2 * 6, |c| {
        let mut r = c.rng.clone();
        let k = c.idx % 7;
        let rev = (c.idx / 7) % 2 == 1;
        let n = 2 + (c.idx / 14) as usize;
        let base = r.us(0, 1000) as u64;
        let l: Vec<u64> = (0..n as u64).map(|i| base + (i * 7) % (n as u64 * 7 + 1)).collect();
        let mut e: Vec<(u64, u64)> = vec![];
        let mut m = MG::new();
        let mut args = vec![];
        match k {
            0 => {
                args.push("--vertex".to_string());
                args.extend(strs(&l));
                for v in &l {
                    m.add_v(*v);
                }
            }
            1 => {
                args.push("--edge".to_string());
                for w in l.windows(2) {
                    args.extend(strs(w));
                    e.push((w[0], w[1]));
                }
            }
            2 => {
                args.push("--chain".to_string());
                args.extend(strs(&l));
                for w in l.windows(2) {
                    e.push((w[0], w[1]));
                }
            }
            3 => {
                args.push("--cycle".to_string());
                args.extend(strs(&l));
                for i in 0..n {
                    e.push((l[i], l[(i + 1) % n]));
                }
            }
            4 => {
                args.push("--star".to_string());
                args.extend(strs(&l));
                for v in &l[1..] {
                    e.push((l[0], *v));
                }
            }
            5 => {
                args.push("--clique".to_string());
                args.extend(strs(&l));
                for a in &l {
                    for b in &l {
                        if a != b {
                            e.push((*a, *b));
                        }
                    }
                }
            }
            _ => {
                args.push("--edge".to_string());
                args.extend(strs(&[l[0], l[0]]));
                e.push((l[0], l[0]));
            }
        }
        if rev {
            args.push("--reverse".to_string());
            c.count("reversed", 1);
        }
        for (a, b) in e {
            if rev {
                m.add_e(b, a)
            } else {
                m.add_e(a, b)
            }
        }
        let d = Dir::new(c);
        let o = go(c, prog(c.ctx, "gc-init").at(&d.root));
        c.check(o.ok(), || "gc-init failed".into());
        let o = go(c, prog(c.ctx, "gc-add").at(&d.root).args(&args));
        c.check(o.ok(), || format!("gc-add failed\n{}", o.brief()));
        same(c, &d, &m, "after gc-add");
        let o = go(c, prog(c.ctx, "gc-desc").at(&d.root));
        cert_desc(c, &o, &m);
        c.distinct(fnv(args.join(" ").as_bytes()));
    });
    // several options in one call, every id used once: nothing that is lost stays hidden
    ctx.par("combined", ctx.scale(300, 4000), |c| {
        let mut r = c.rng.clone();
        let d = Dir::new(c);
        let mut m = MG::new();
        m.add_e(u64::MAX, 5_000_000_000_000);
        d.put(lines_of(&m.history(&mut r, true)).as_bytes());
        let mut free: Vec<u64> = (0..200u64).map(|i| 1_000 + i * 37).collect();
        r.shuffle(&mut free);
        for _ in 0..r.us(1, 3) {
            let mut kinds: Vec<usize> = (0..6).collect();
            r.shuffle(&mut kinds);
            let mut parts: Vec<Vec<String>> = vec![];
            let mut edges = vec![];
            let rev = r.chance(1, 3);
            for k in kinds.into_iter().take(r.us(2, 6)) {
                let n = r.us(2, 6);
                let at = free.len() - if k == 1 { 2 * (n / 2) } else { n };
                let l = free.split_off(at);
                let mut a = vec![];
                match k {
                    0 => {
                        let every = r.us(1, n);
                        let f = flag(&mut r, "vertex", "v");
                        for (i, v) in l.iter().enumerate() {
                            if i % every == 0 {
                                a.push(f.clone());
                            }
                            a.push(v.to_string());
                            m.add_v(*v);
                        }
                    }
                    1 => {
                        a.push(flag(&mut r, "edge", "e"));
                        a.extend(strs(&l));
                        l.chunks(2).for_each(|w| edges.push((w[0], w[1])));
                    }
                    2 => {
                        a.push(flag(&mut r, "chain", "c"));
                        a.extend(strs(&l));
                        l.windows(2).for_each(|w| edges.push((w[0], w[1])));
                    }
                    3 => {
                        a.push(flag(&mut r, "cycle", "O"));
                        a.extend(strs(&l));
                        (0..n).for_each(|i| edges.push((l[i], l[(i + 1) % n])));
                    }
                    4 => {
                        a.push(flag(&mut r, "star", "X"));
                        a.extend(strs(&l));
                        l[1..].iter().for_each(|v| edges.push((l[0], *v)));
                    }
                    _ => {
                        a.push(flag(&mut r, "clique", "C"));
                        a.extend(strs(&l));
                        for x in &l {
                            l.iter().filter(|y| *y != x).for_each(|y| m.add_e(*x, *y));
                        }
                    }
                }
                parts.push(a);
            }
            if r.chance(1, 5) {
                // loops on the very vertices that are listed before or after them
                let n = r.us(1, 45);
                let l: Vec<u64> = (0..n as u64).map(|i| 20_000 + i * 3).collect();
                parts = vec![vec![flag(&mut r, "vertex", "v")], vec![flag(&mut r, "edge", "e")]];
                m = match load(c, &d) {
                    Ok(g) => g,
                    Err(e) => c.fail(&format!("unreadable: {}", e)),
                };
                edges.clear();
                for v in &l {
                    parts[0].push(v.to_string());
                    m.add_v(*v);
                }
                for v in l.iter().rev() {
                    parts[1].extend(strs(&[*v, *v]));
                    edges.push((*v, *v));
                }
                c.count("loops on listed vertices", 1);
            }
            if rev {
                parts.push(vec![flag(&mut r, "reverse", "r")]);
                c.count("reversed", 1);
            }
            r.shuffle(&mut parts);
            for (a, b) in edges {
                if rev {
                    m.add_e(b, a)
                } else {
                    m.add_e(a, b)
                }
            }
            let args: Vec<String> = parts.concat();
            let x = aimed(c, &mut r, &d, "gc-add").args(&args);
            let o = go(c, x);
            c.check(o.ok(), || format!("gc-add failed\n{}", o.brief()));
            same(c, &d, &m, "after gc-add with several options");
            c.count("combined options", 1);
            c.distinct(fnv(args.join(" ").as_bytes()));
            // and delete some of it
            let mut vs = m.vlist();
            r.shuffle(&mut vs);
            vs.truncate(r.us(1, 5));
            let mut es: Vec<(u64, u64)> = m.edges.iter().filter(|e| !vs.contains(&e.0) && !vs.contains(&e.1)).cloned().collect();
            r.shuffle(&mut es);
            es.truncate(r.us(1, 5));
            let mut parts: Vec<Vec<String>> = vec![];
            let (f, every) = (flag(&mut r, "vertex", "v"), r.us(1, 5));
            let mut a = vec![];
            for (i, v) in vs.iter().enumerate() {
                if i % every == 0 {
                    a.push(f.clone());
                }
                a.push(v.to_string());
            }
            parts.push(a);
            if !es.is_empty() {
                let mut a = vec![flag(&mut r, "edge", "e")];
                es.iter().for_each(|e| a.extend(strs(&[e.0, e.1])));
                parts.push(a);
            }
            r.shuffle(&mut parts);
            let args: Vec<String> = parts.concat();
            let x = aimed(c, &mut r, &d, "gc-delete").args(&args);
            let o = go(c, x);
            c.check(o.ok(), || format!("gc-delete failed\n{}", o.brief()));
            vs.iter().for_each(|v| m.apply(&Cmd::RV(*v)));
            es.iter().for_each(|e| m.apply(&Cmd::RE(e.0, e.1)));
            same(c, &d, &m, "after gc-delete with several options");
        }
    });
    // the library calls behind the commands
    ctx.par("library", ctx.scale(400, 5000), |c| {
        use gc_command::graph_utils as gu;
        use gc_core::graph::VertexId;
        let mut r = c.rng.clone();
        let d = Dir::new(c);
        let root = match r.below(4) {
            0 => format!("{}/", d.s()),
            1 => format!("{}/../g/.", d.s()),
            2 => format!("{}/ln", d.base.display()),
            _ => d.s().to_string(),
        };
        let np = r.us(2, 9);
        let pool = pool(&mut r, np);
        let mut m: Option<MG> = None;
        let mut sig = 0;
        for step in 0..r.us(4, 25) {
            let k = if step == 0 { 0 } else { r.below(16) };
            let vs: Vec<u64> = (0..r.us(0, 4)).map(|_| *r.pick(&pool)).collect();
            let es: Vec<(u64, u64)> = (0..r.us(0, 5)).map(|_| (*r.pick(&pool), *r.pick(&pool))).collect();
            let v1 = *r.pick(&pool);
            let e1 = (*r.pick(&pool), *r.pick(&pool));
            let rv: Vec<VertexId> = vs.iter().map(|v| VertexId(*v)).collect();
            let re: Vec<(VertexId, VertexId)> = es.iter().map(|e| (VertexId(e.0), VertexId(e.1))).collect();
            let (name, cmds): (&str, Vec<Cmd>) = match k {
                0 => ("init", vec![]),
                1 if r.chance(1, 3) => ("clean", vec![]),
                2 => ("rebuild", vec![]),
                3 | 4 => ("add_vertex", vec![Cmd::AV(v1)]),
                5 => ("add_vertices", vs.iter().map(|v| Cmd::AV(*v)).collect()),
                6 | 7 => ("add_edge", vec![Cmd::AE(e1.0, e1.1)]),
                8 => ("remove_vertex", vec![Cmd::RV(v1)]),
                9 => ("remove_vertices", vs.iter().map(|v| Cmd::RV(*v)).collect()),
                10 | 11 => ("remove_edges", es.iter().map(|e| Cmd::RE(e.0, e.1)).collect()),
                _ => ("add_edges", es.iter().map(|e| Cmd::AE(e.0, e.1)).collect()),
            };
            c.add_desc(&format!("{} {:?}", name, cmds));
            sig = mix(sig, fnv(format!("{} {:?}", name, cmds).as_bytes()));
            let rt = root.clone();
            let had = m.is_some();
            let res = c.guard(name, || match name {
                "init" => gu::init(&rt),
                "clean" => gu::clean(&rt),
                "rebuild" => match gu::load_graph(&rt) {
                    Ok(g) => gu::save_graph_as_commands(&rt, &g),
                    Err(e) => Err(std::io::Error::new(std::io::ErrorKind::Other, e)),
                },
                "add_vertex" => gu::add_vertex(&rt, VertexId(v1)),
                "add_vertices" => gu::add_vertices(&rt, rv.clone()),
                "add_edge" => gu::add_edge(&rt, VertexId(e1.0), VertexId(e1.1)),
                "remove_vertex" => gu::remove_vertex(&rt, VertexId(v1)),
                "remove_vertices" => gu::remove_vertices(&rt, rv.clone()),
                "remove_edges" => gu::remove_edges(&rt, re.clone()),
                _ => gu::add_edges(&rt, re.clone()),
            });
            c.check(!gu::is_locked(&root), || format!("{} ended but the graph is locked", name));
            match name {
                "init" => {
                    c.check(res.is_ok(), || format!("init failed: {:?}", res));
                    if m.is_none() {
                        m = Some(MG::new());
                    }
                }
                "clean" => {
                    c.check(res.is_ok() || !had, || format!("clean failed: {:?}", res));
                    m = None;
                }
                _ => match &mut m {
                    Some(g) => {
                        c.check(res.is_ok(), || format!("{} failed: {:?}", name, res));
                        cmds.iter().for_each(|x| g.apply(x));
                        c.count("library edits", 1);
                    }
                    None => {
                        if res.is_ok() && !cmds.is_empty() {
                            m = Some(MG::of(&cmds));
                        } else if res.is_ok() {
                            // nothing to store: whether there is a graph now is left open
                            m = load(c, &d).ok();
                            c.check(m.as_ref().map(|g| *g == MG::new()).unwrap_or(true), || "vertices out of nothing".into());
                        }
                    }
                },
            }
            match &m {
                Some(g) => same(c, &d, g, name),
                None => c.check(load(c, &d).is_err(), || "a graph can be read although there is none".into()),
            }
        }
        c.distinct(sig);
    });
    // patterns over many vertices
    ctx.par("large-patterns", ctx.scale(60, 600), |c| {
        let mut r = c.rng.clone();
        let k = c.idx % 6;
        let rev = r.chance(1, 3);
        let huge = c.idx / 6 % 5 == 4;
        let n = match (k == 5, huge) {
            (true, false) => *r.pick(&[8usize, 11, 13, 16, 17, 20, 26, 33]),
            (true, true) => *r.pick(&[66usize, 105, 150]),
            (false, false) => *r.pick(&[12usize, 17, 33, 65, 100, 129, 257, 400]),
            (false, true) => *r.pick(&[1030usize, 2100, 4100]),
        };
        let l = gen::labels(&mut r, n);
        let mut args: Vec<String> = vec![];
        let mut m = MG::new();
        let mut e: Vec<(u64, u64)> = vec![];
        let opts = [("vertex", "v"), ("edge", "e"), ("chain", "c"), ("cycle", "O"), ("star", "X"), ("clique", "C")][k as usize];
        args.push(flag(&mut r, opts.0, opts.1));
        match k {
            0 => l.iter().for_each(|v| m.add_v(*v)),
            1 => {
                for _ in 0..n {
                    e.push((*r.pick(&l), *r.pick(&l)));
                }
            }
            2 => e.extend(l.windows(2).map(|w| (w[0], w[1]))),
            3 => e.extend((0..n).map(|i| (l[i], l[(i + 1) % n]))),
            4 => e.extend(l[1..].iter().map(|v| (l[0], *v))),
            _ => {
                for a in &l {
                    e.extend(l.iter().filter(|b| *b != a).map(|b| (*a, *b)));
                }
            }
        }
        if k == 1 {
            for (a, b) in &e {
                args.extend(strs(&[*a, *b]));
            }
        } else {
            args.extend(strs(&l));
        }
        if rev {
            args.push(flag(&mut r, "reverse", "r"));
            e = e.iter().map(|x| (x.1, x.0)).collect();
        }
        for (a, b) in &e {
            m.add_e(*a, *b);
        }
        let d = Dir::new(c);
        d.put(b"");
        let o = go(c, prog(c.ctx, "gc-add").at(&d.root).args(&args));
        c.check(o.ok(), || format!("gc-add failed\n{}", o.brief()));
        same(c, &d, &m, "after gc-add");
        // and taken away again, in part
        let mut a = vec![];
        let mut dv: Vec<u64> = m.vlist();
        dv.retain(|_| r.chance(1, 3));
        dv.truncate(if huge { 2000 } else { 200 });
        let mut de: Vec<(u64, u64)> = m.edges.iter().cloned().collect();
        de.retain(|_| r.chance(1, 3));
        de.truncate(if huge { 2000 } else { 200 });
        if !dv.is_empty() && (de.is_empty() || r.chance(1, 2)) {
            a.push("--vertex".to_string());
            a.extend(strs(&dv));
            dv.iter().for_each(|v| m.apply(&Cmd::RV(*v)));
        } else if !de.is_empty() {
            a.push("--edge".to_string());
            for x in &de {
                a.extend(strs(&[x.0, x.1]));
                m.apply(&Cmd::RE(x.0, x.1));
            }
        }
        if !a.is_empty() {
            let o = go(c, prog(c.ctx, "gc-delete").at(&d.root).args(&a));
            c.check(o.ok(), || format!("gc-delete failed\n{}", o.brief()));
            same(c, &d, &m, "after gc-delete");
        }
        if r.chance(1, 2) {
            let o = go(c, prog(c.ctx, "gc-build").at(&d.root));
            c.check(o.ok(), || format!("gc-build failed\n{}", o.brief()));
            same(c, &d, &m, "after gc-build");
        }
        let o = go(c, prog(c.ctx, "gc-desc").at(&d.root));
        cert_desc(c, &o, &m);
        c.count("large patterns", 1);
        c.max("ids in one option", args.len() as u64);
        c.distinct(fnv(args.join(" ").as_bytes()));
    });
    // a graph with a long history behind it
    ctx.par("long-history", ctx.scale(12, 150), |c| {
        let mut r = c.rng.clone();
        let n = *r.pick(&[20usize, 150, 1000, 3000]);
        let l = gen::labels(&mut r, n);
        let lines = *r.pick(&[4100usize, 8200, 10_001, 10_050, 16_400, 20_500, 33_000, 66_000]);
        let mut m = MG::new();
        let mut h = vec![];
        for i in 0..lines {
            let (a, b) = (*r.pick(&l), *r.pick(&l));
            let x = match r.below(10) {
                0 | 1 => Cmd::AV(a),
                2 => Cmd::RE(a, b),
                3 if n < 1000 || i % 50 == 0 => Cmd::RV(a),
                _ => Cmd::AE(a, b),
            };
            m.apply(&x);
            h.push(x);
        }
        c.desc(format!("{} commands over {} ids, case {}", lines, n, c.idx));
        let d = Dir::new(c);
        d.put(lines_of(&h).as_bytes());
        same(c, &d, &m, "a long history");
        for k in 0..r.us(1, 3) {
            let e = if r.chance(2, 3) { add_edit(&mut r, &l, false) } else { del_edit(&mut r, &m, &l) };
            e.cmds.iter().for_each(|x| m.apply(x));
            let o = go(c, prog(c.ctx, e.prog).at(&d.root).args(&e.args));
            c.check(o.ok(), || format!("{} failed\n{}", e.prog, o.brief()));
            same(c, &d, &m, "after an edit of a long history");
            if k == 0 || r.chance(1, 2) {
                let o = go(c, prog(c.ctx, "gc-build").at(&d.root));
                c.check(o.ok(), || format!("gc-build failed\n{}", o.brief()));
                same(c, &d, &m, "after gc-build of a long history");
            }
            let o = go(c, prog(c.ctx, "gc-desc").at(&d.root));
            cert_desc(c, &o, &m);
        }
        c.count("long histories", 1);
        c.max("lines of a stored history", lines as u64);
        c.distinct(mix(m.hash(), lines as u64));
    });
    // counts beyond 16 bits
    ctx.par("statistics", ctx.scale(5, 30), |c| {
        let mut r = c.rng.clone();
        let base = *r.pick(&[0u64, 1, 1 << 31, u64::MAX - 200_000]);
        let mut h = vec![];
        let n = r.us(65_537, 72_000) as u64;
        for i in 0..n {
            h.push(match c.idx % 3 {
                0 => Cmd::AE(base + i / 280, base + i % 280),
                1 => Cmd::AV(base + i),
                _ => Cmd::AE(base + i, base + (i * 7) % 65_600),
            });
        }
        let m = MG::of(&h);
        c.desc(format!("{} vertices from {}, {} edges", m.n(), base, m.edges.len()));
        let d = Dir::new(c);
        d.put(lines_of(&h).as_bytes());
        let o = go(c, prog(c.ctx, "gc-desc").at(&d.root));
        cert_desc(c, &o, &m);
        c.count("statistics of huge graphs", 1);
        c.distinct(m.hash());
    });
    // init on an existing graph, whatever lies around it
    ctx.par("init", ctx.scale(150, 1500), |c| {
        let mut r = c.rng.clone();
        let d = Dir::new(c);
        let n = r.us(1, 12);
        let m = gen::graph(&mut r, n);
        let mut bytes = lines_of(&m.history(&mut r, true)).into_bytes();
        if r.chance(1, 3) {
            bytes.pop();
        }
        if r.chance(1, 3) {
            bytes.extend_from_slice(b"\n\n# the end\n");
        }
        d.put(&bytes);
        let g = d.root.join(".graph");
        let mut around = vec![];
        for f in ["lock", "lock.bak", ".graph/lock", ".graph/commands.tmp", ".graph/.commands.tmp", ".graph/attributes", "commands"].iter() {
            if r.chance(1, 3) {
                let _ = std::fs::write(d.root.join(f), "AddVertex 4711\n");
                around.push(f.to_string());
            }
        }
        match r.below(6) {
            0 => {
                let _ = std::fs::set_permissions(d.cmdfile(), std::fs::Permissions::from_mode(0o444));
                around.push("read-only commands".into());
            }
            1 => {
                // the storage is somewhere else
                let e = d.base.join("elsewhere");
                let _ = std::fs::rename(&g, &e);
                let _ = std::os::unix::fs::symlink(&e, &g);
                around.push(".graph is a link".into());
            }
            2 => {
                let e = d.base.join("commands-elsewhere");
                let _ = std::fs::rename(d.cmdfile(), &e);
                let _ = std::os::unix::fs::symlink(&e, d.cmdfile());
                around.push("commands is a link".into());
            }
            _ => {}
        }
        c.add_desc(&format!("graph stored as {:?}; around it {:?}", String::from_utf8_lossy(&bytes), around));
        for _ in 0..r.us(1, 2) {
            let x = aimed(c, &mut r, &d, "gc-init");
            go(c, x);
            same(c, &d, &m, "after gc-init on an existing graph");
            c.count("inits on an existing graph", 1);
            if r.chance(1, 2) {
                let _ = c.guard("graph_utils::init", || gc_command::graph_utils::init(d.s()));
                same(c, &d, &m, "after init on an existing graph");
            }
        }
        if !around.iter().any(|x| x == "lock" || x.contains("link") || x.contains("read-only")) {
            // leftovers of other programs do not get in the way of an edit
            let e = add_edit(&mut r, &m.vlist(), false);
            let mut after = m.clone();
            e.cmds.iter().for_each(|x| after.apply(x));
            let o = go(c, prog(c.ctx, e.prog).at(&d.root).args(&e.args));
            c.check(o.ok(), || format!("{} failed\n{}", e.prog, o.brief()));
            same(c, &d, &after, "after an edit with other files around");
        }
        c.distinct(mix(m.hash(), fnv(format!("init {:?}", around).as_bytes())));
    });
    // the store cannot be written: no success may be reported unless the change is there
    // other graphs above, below and beside
    ctx.par("neighbours", ctx.scale(160, 1500), |c| {
        let mut r = c.rng.clone();
        let d = Dir::new(c);
        let n = r.us(1, 6);
        let pool = pool(&mut r, n);
        let (up, side, down) = (d.root.clone(), d.root.join("sub").join("side"), d.root.join("sub").join("here").join("down"));
        let here = d.root.join("sub").join("here");
        let mid = d.root.join("sub");
        let mut others = vec![];
        for p in [&up, &side, &down, &mid].iter() {
            let _ = std::fs::create_dir_all(p);
            if r.chance(2, 3) {
                let g = gen::graph(&mut r, n);
                let _ = std::fs::create_dir_all(p.join(".graph"));
                if std::fs::write(p.join(".graph").join("commands"), lines_of(&g.history(&mut r, true))).is_err() {
                    c.ctx.harness_error("cannot write a scratch graph");
                }
                others.push(p.join(".graph"));
            }
        }
        let own = r.chance(1, 3);
        let mut m = gen::graph(&mut r, n);
        let f = here.join(".graph").join("commands");
        if own {
            let _ = std::fs::create_dir_all(here.join(".graph"));
            if std::fs::write(&f, lines_of(&m.history(&mut r, true))).is_err() {
                c.ctx.harness_error("cannot write a scratch graph");
            }
        } else {
            m = MG::new();
        }
        let before: Vec<_> = others.iter().map(|p| snapshot(p)).collect();
        let mut exists = own;
        for _ in 0..r.us(1, 4) {
            let e = match r.below(8) {
                0 => Edit { prog: "gc-init", args: vec![], cmds: vec![] },
                1 => Edit { prog: "gc-build", args: vec![], cmds: vec![] },
                2 | 3 => del_edit(&mut r, &m, &pool),
                _ => add_edit(&mut r, &pool, false),
            };
            let mut x = prog(c.ctx, e.prog).args(&e.args);
            x = if r.chance(1, 2) { x.cwd(&here) } else { x.at(&here) };
            let o = go(c, x);
            c.add_desc(&format!("in {} ({}): {} {:?}", here.display(), if exists { "a graph" } else { "no graph" }, e.prog, e.args));
            for (p, b) in others.iter().zip(&before) {
                c.check(snapshot(p) == *b, || format!("{} in {} changed the graph in {}\n{}", e.prog, here.display(), p.display(), o.brief()));
            }
            if e.prog == "gc-init" {
                c.check(o.ok(), || format!("gc-init failed below another graph\n{}", o.brief()));
            } else if !exists {
                c.count("edits without a graph of their own", 1);
            }
            if exists || e.prog == "gc-init" {
                c.check(o.ok(), || format!("{} failed\n{}", e.prog, o.brief()));
            }
            if o.ok() {
                e.cmds.iter().for_each(|x| m.apply(x));
                exists = true;
                let root = here.to_str().unwrap().to_string();
                let got = c.guard("graph_utils::load_graph", move || gc_command::graph_utils::load_graph(&root).map(|g| of_real(&g)));
                c.check(got.as_ref() == Ok(&m), || {
                    format!("{} reported success, but the graph in {} is {:?} instead of {}", e.prog, here.display(), got.as_ref().map(|g| g.show()), m.show())
                });
            } else {
                c.check(!f.exists() || exists, || format!("{} reported failure and left a graph", e.prog));
            }
        }
        c.distinct(mix(m.hash(), mix(others.len() as u64, c.idx)));
    });
    ctx.par("unwritable", ctx.scale(120, 1000), |c| {
        let mut r = c.rng.clone();
        let d = Dir::new(c);
        let n = r.us(1, 8);
        let m = gen::graph(&mut r, n);
        d.put(lines_of(&m.history(&mut r, true)).as_bytes());
        let l = m.vlist();
        let e = match r.below(3) {
            0 => del_edit(&mut r, &m, &l),
            1 => Edit { prog: "gc-build", args: vec![], cmds: vec![] },
            _ => add_edit(&mut r, &l, false),
        };
        let mut after = m.clone();
        for x in &e.cmds {
            after.apply(x);
        }
        let g = d.root.join(".graph");
        let how = r.below(5);
        let chmod = |p: &std::path::Path, mode: u32| {
            let _ = std::fs::set_permissions(p, std::fs::Permissions::from_mode(mode));
        };
        let mut limit = None;
        match how {
            0 => chmod(&d.cmdfile(), 0o444),
            1 => {
                chmod(&d.cmdfile(), 0o444);
                chmod(&g, 0o555);
            }
            2 => chmod(&d.root, 0o555),
            3 => {
                chmod(&g, 0o555);
                chmod(&d.root, 0o555);
                chmod(&d.cmdfile(), 0o444);
            }
            _ => limit = Some(r.below(40) as u64),
        }
        c.add_desc(&format!("storage made unwritable in way {} (limit {:?})", how, limit));
        let mut run = prog(c.ctx, e.prog).at(&d.root).args(&e.args);
        if let Some(n) = limit {
            run = run.fsize(n);
        }
        let o = go(c, run);
        chmod(&d.root, 0o755);
        chmod(&g, 0o755);
        if o.ok() {
            same(c, &d, &after, "the command reported success, and afterwards");
        } else {
            same(c, &d, &m, "the command reported failure, and afterwards");
            c.count("failed stores", 1);
        }
        c.distinct(mix(m.hash(), mix(how as u64, fnv(format!("{:?}", e.args).as_bytes()))));
    });
}

// ---------- C22 ----------

const BAD: [&str; 23] = [
    "abc", "1x", "x1", "", "1.5", "18446744073709551616", "99999999999999999999999999", "0x10", "1e3", "\u{0661}\u{0662}", "1,2", "1_000", "-1",
    "2,", "2;", "(2)", "1-2", "#2", "2u64", "NaN", "\u{ff12}", "1 2", "1:2",
];

pub fn c22(ctx: &'static Ctx) {
    ctx.rule(
        "A case counts as distinct and non-trivial when its command line has not been seen. Each malformed call must exit \
         with a failure and leave the stored graph as it was.",
    );
    ctx.require(&["malformed calls", "reads without a usable graph", "reads next to other graphs", "valid and invalid options mixed"]);
    let base = || {
        let mut m = MG::new();
        for (a, b) in [(1, 2), (2, 3), (3, 1), (3, 4), (4, 5), (5, 6), (2, 5)].iter() {
            m.add_e(*a, *b);
        }
        m
    };
    let refuse = |c: &mut Case, name: &str, args: &[String], why: &str| {
        let mut r = c.rng.clone();
        let m = base();
        let d = Dir::new(c);
        d.put(lines_of(&m.history(&mut r, false)).as_bytes());
        let before = std::fs::read(d.cmdfile()).unwrap();
        let o = go(c, prog(c.ctx, name).at(&d.root).args(args));
        c.check(!o.ok(), || format!("{}: accepted ({})\n{}", name, why, o.brief()));
        let after = std::fs::read(d.cmdfile()).unwrap_or_default();
        if before != after {
            match load(c, &d) {
                Ok(g) if g == m => {}
                x => c.fail(&format!("{}: refused ({}) but the stored graph changed: {:?}", name, why, x.map(|g| g.show()))),
            }
        }
        c.count("malformed calls", 1);
        c.distinct(fnv(format!("{} {:?}", name, args).as_bytes()));
        c.sample(|| format!("{} {:?}", name, args));
    };
    // a bad value at every place of every option
    let mut list: Vec<(&'static str, Vec<String>, String)> = vec![];
    let s = |v: &[&str]| -> Vec<String> { v.iter().map(|x| x.to_string()).collect() };
    for bad in BAD.iter() {
        for (opt, n) in
            [("--vertex", 1), ("--vertex", 3), ("--edge", 2), ("--edge", 4), ("--chain", 2), ("--chain", 4), ("--cycle", 3), ("--star", 3), ("--clique", 3)]
                .iter()
        {
            for pos in 0..*n {
                let mut a = vec![opt.to_string()];
                for i in 0..*n {
                    a.push(if i == pos { bad.to_string() } else { (10 + i).to_string() });
                }
                list.push(("gc-add", a.clone(), format!("bad id {:?}", bad)));
                if *opt == "--vertex" || *opt == "--edge" {
                    list.push(("gc-delete", a, format!("bad id {:?}", bad)));
                }
            }
        }
        for (a, b) in [(*bad, "2"), ("1", *bad)].iter() {
            list.push(("gc-short-path", s(&["-s", a, "-e", b]), format!("bad id {:?}", bad)));
            list.push(("gc-csp", s(&["-s", a, "-e", b]), format!("bad id {:?}", bad)));
        }
        let st = ["-s", "1", "-e", "5"];
        let with = |x: &[&str]| {
            let mut v = s(&st);
            v.extend(s(x));
            v
        };
        for o in ["--include", "--exclude", "--ordered"].iter() {
            if *o != "--ordered" {
                list.push(("gc-csp", with(&[o, bad]), format!("bad id {:?}", bad)));
            }
            list.push(("gc-csp", with(&[o, "2", bad]), format!("bad id {:?}", bad)));
            list.push(("gc-csp", with(&[o, bad, "2"]), format!("bad id {:?}", bad)));
        }
        for o in ["--min-length", "--max-length", "--exact-length"].iter() {
            list.push(("gc-csp", with(&[o, bad]), format!("bad length {:?}", bad)));
            for act in ["--all", "--count", "--shortest", "--girth"].iter() {
                list.push(("gc-cycle", s(&[act, o, bad]), format!("bad length {:?}", bad)));
            }
        }
        if *bad != "-1" {
            for o in ["--min-score", "--max-score", "--exact-score"].iter() {
                list.push(("gc-csp", with(&[o, bad]), format!("bad score {:?}", bad)));
                for act in ["--all", "--count", "--longest"].iter() {
                    list.push(("gc-cycle", s(&[act, o, bad]), format!("bad score {:?}", bad)));
                }
            }
        }
        for o in ["--include-all", "--exclude-all"].iter() {
            list.push(("gc-cycle", s(&["--all", o, bad]), format!("bad id {:?}", bad)));
            list.push(("gc-cycle", s(&["--count", o, "2", bad]), format!("bad id {:?}", bad)));
        }
        for o in ["--include-all-edges", "--exclude-all-edges"].iter() {
            list.push(("gc-cycle", s(&["--all", o, "1", bad]), format!("bad id {:?}", bad)));
            list.push(("gc-cycle", s(&["--count", o, bad, "2"]), format!("bad id {:?}", bad)));
            list.push(("gc-cycle", s(&["--count", o, "1", "2", "2", bad]), format!("bad id {:?}", bad)));
        }
        list.push(("gc-cycle", s(&["--take-n", bad]), format!("bad count {:?}", bad)));
        list.push(("gc-cycle", s(&["-n", bad]), format!("bad count {:?}", bad)));
        list.push(("gc-random", s(&["-f", "-v", bad]), format!("bad count {:?}", bad)));
        list.push(("gc-random", s(&["-f", "-v", "10", "-e", bad]), format!("bad count {:?}", bad)));
        list.push(("gc-random", s(&["--force", "--edge-count", bad, "--vertex-count", "8"]), format!("bad count {:?}", bad)));
    }
    for x in ["9223372036854775808", "-9223372036854775809"].iter() {
        for o in ["--min-score", "--max-score", "--exact-score"].iter() {
            let v = format!("{}={}", o, x);
            list.push(("gc-csp", s(&["-s", "1", "-e", "5", &v]), "score out of range".into()));
            list.push(("gc-cycle", s(&["--all", &v]), "score out of range".into()));
        }
    }
    // the same, attached to the option
    for bad in ["-1", "-2", "-9223372036854775808", "18446744073709551616", "x", "1 2"].iter() {
        let at = |o: &str| format!("{}={}", o, bad);
        for o in ["--vertex", "--edge", "--chain", "--cycle", "--star", "--clique"].iter() {
            list.push(("gc-add", s(&[&at(o), "3"]), format!("bad id {:?}", bad)));
            list.push(("gc-add", s(&[&at(o), "3", "4", "5"]), format!("bad id {:?}", bad)));
        }
        list.push(("gc-add", s(&[&at("--vertex")]), format!("bad id {:?}", bad)));
        list.push(("gc-delete", s(&[&at("--vertex")]), format!("bad id {:?}", bad)));
        list.push(("gc-delete", s(&[&at("--edge"), "3"]), format!("bad id {:?}", bad)));
        for p in ["gc-short-path", "gc-csp"].iter() {
            list.push((p, s(&[&at("--start"), "-e", "2"]), format!("bad id {:?}", bad)));
            list.push((p, s(&["-s", "1", &at("--end")]), format!("bad id {:?}", bad)));
        }
        for o in ["--include", "--exclude", "--ordered", "--min-length", "--max-length", "--exact-length"].iter() {
            let mut a = s(&["-s", "1", "-e", "5", &at(o)]);
            if *o == "--ordered" {
                a.push("2".into());
            }
            list.push(("gc-csp", a, format!("bad value {:?}", bad)));
        }
        for o in ["--include-all", "--exclude-all", "--min-length", "--max-length", "--exact-length"].iter() {
            list.push(("gc-cycle", s(&["--all", &at(o)]), format!("bad value {:?}", bad)));
            list.push(("gc-cycle", s(&[&at(o), "--count"]), format!("bad value {:?}", bad)));
        }
        for o in ["--include-all-edges", "--exclude-all-edges"].iter() {
            list.push(("gc-cycle", s(&["--all", &at(o), "2"]), format!("bad value {:?}", bad)));
        }
        list.push(("gc-cycle", s(&[&at("--take-n")]), format!("bad count {:?}", bad)));
        list.push(("gc-random", s(&["-f", &at("--vertex-count")]), format!("bad count {:?}", bad)));
        list.push(("gc-random", s(&["-f", "-v", "9", &at("--edge-count")]), format!("bad count {:?}", bad)));
    }
    // pairs
    for n in [1, 3, 5, 7, 9, 11, 15, 17, 33, 65, 101].iter() {
        for shape in 0..4 {
        if shape > 0 && (*n == 1 || (n / 2 + shape) % 2 == 0) {
            continue;
        }
        let ids: Vec<String> = (1..=*n)
            .map(|x: usize| match shape {
                0 => x.to_string(),
                1 if x == *n => "1".to_string(),
                1 => x.to_string(),
                2 => "2".to_string(),
                _ => (x % 3 + 1).to_string(),
            })
            .collect();
        for (p, o) in [("gc-add", "--edge"), ("gc-add", "-e"), ("gc-delete", "--edge"), ("gc-delete", "-e")].iter() {
            let mut a = s(&[o]);
            a.extend(ids.clone());
            list.push((p, a, "odd number of ids".into()));
        }
        for o in ["--include-all-edges", "--exclude-all-edges"].iter() {
            for act in ["--all", "--count", "--head", "--longest"].iter() {
                let mut a = s(&[act, o]);
                a.extend(ids.clone());
                list.push(("gc-cycle", a, "odd number of ids".into()));
            }
        }
        }
    }
    // too few values, missing options
    for o in ["--chain", "--cycle", "--star", "--clique", "--edge"].iter() {
        list.push(("gc-add", s(&[o, "1"]), "too few ids".into()));
    }
    for o in ["--vertex", "--edge", "--chain", "--cycle", "--star", "--clique", "-p"].iter() {
        list.push(("gc-add", s(&[o]), "no value".into()));
    }
    for o in ["--vertex", "--edge"].iter() {
        list.push(("gc-delete", s(&[o]), "no value".into()));
    }
    for p in ["gc-short-path", "gc-csp"].iter() {
        list.push((p, s(&["-s", "1"]), "no end".into()));
        list.push((p, s(&["-e", "1"]), "no start".into()));
        list.push((p, s(&[]), "no start, no end".into()));
        list.push((p, s(&["-s", "-e", "1"]), "no start value".into()));
        list.push((p, s(&["-s", "1", "-e"]), "no end value".into()));
    }
    list.push(("gc-cycle", s(&[]), "no action".into()));
    list.push(("gc-cycle", s(&["--min-length", "2"]), "no action".into()));
    list.push(("gc-cycle", s(&["--take-n"]), "no value".into()));
    list.push(("gc-cycle", s(&["--all", "--min-length"]), "no value".into()));
    list.push(("gc-csp", s(&["-s", "1", "-e", "3", "--ordered", "1"]), "an order of one vertex".into()));
    for o in ["--include", "--exclude", "--ordered", "--min-length", "--max-length", "--exact-length", "--min-score", "--max-score", "--exact-score"].iter() {
        list.push(("gc-csp", s(&["-s", "1", "-e", "3", o]), "no value".into()));
        list.push(("gc-csp", s(&[o, "-s", "1", "-e", "3"]), "no value".into()));
    }
    for o in [
        "--include-all", "--exclude-all", "--include-all-edges", "--exclude-all-edges", "--min-length", "--max-length", "--exact-length", "--min-score", "--max-score",
        "--exact-score",
    ]
    .iter()
    {
        list.push(("gc-cycle", s(&["--count", o]), "no value".into()));
        list.push(("gc-cycle", s(&[o, "--count"]), "no value".into()));
    }
    // (an option that has a default takes it when no value follows)
    for o in ["--edge-count", "-e"].iter() {
        list.push(("gc-random", s(&["-f", o]), "no value".into()));
        list.push(("gc-random", s(&[o, "-f"]), "no value".into()));
    }
    // more values than the option takes, in one go or by giving it twice
    for (a, b) in [("2", "3"), ("3", "2"), ("2", "2")].iter() {
        for p in ["gc-short-path", "gc-csp"].iter() {
            list.push((p, s(&["-s", a, b, "-e", "3"]), "two starts".into()));
            list.push((p, s(&["-s", a, "-s", b, "-e", "3"]), "two starts".into()));
            list.push((p, s(&["--start", "1", "--end", a, b]), "two ends".into()));
            list.push((p, s(&["-e", a, "-s", "1", "--end", b]), "two ends".into()));
        }
        for o in ["--min-length", "--max-length", "--exact-length", "--min-score", "--max-score", "--exact-score"].iter() {
            list.push(("gc-csp", s(&["-s", "1", "-e", "3", o, a, b]), "two bounds".into()));
            list.push(("gc-csp", s(&["-s", "1", o, a, "-e", "3", o, b]), "two bounds".into()));
            list.push(("gc-cycle", s(&["--count", o, a, b]), "two bounds".into()));
            list.push(("gc-cycle", s(&[o, a, "--all", o, b]), "two bounds".into()));
        }
        list.push(("gc-cycle", s(&["--take-n", a, b]), "two counts".into()));
        list.push(("gc-cycle", s(&["--take-n", a, "-n", b]), "two counts".into()));
        for o in ["-v", "-e"].iter() {
            list.push(("gc-random", s(&["-f", o, a, b]), "two counts".into()));
            list.push(("gc-random", s(&[o, a, "-f", o, b]), "two counts".into()));
        }
    }
    // two actions
    let acts: [&[&str]; 8] =
        [&["--girth"], &["--hamiltonian"], &["--count"], &["--head"], &["--take-n", "2"], &["--all"], &["--shortest"], &["--longest"]];
    for (i, x) in acts.iter().enumerate() {
        for y in acts[i + 1..].iter() {
            let mut a = s(x);
            a.extend(s(y));
            list.push(("gc-cycle", a, "two actions".into()));
        }
    }
    for p in BINS.iter() {
        list.push((p, s(&["--no-such-option"]), "unknown option".into()));
        let mut a = s(match *p {
            "gc-short-path" | "gc-csp" => &["-s", "1", "-e", "3"][..],
            "gc-cycle" => &["--count"],
            "gc-random" | "gc-clean" => &["--force"],
            "gc-add" | "gc-delete" => &["-e", "1", "2"],
            _ => &[],
        });
        a.push("--no-such-option".into());
        list.push((p, a.clone(), "unknown option".into()));
        if !matches!(*p, "gc-short-path" | "gc-csp" | "gc-add" | "gc-delete") {
            a.pop();
            a.push("7".into());
            list.push((p, a, "a value that belongs to no option".into()));
        }
    }
    // a valid option next to an invalid one: nothing of it may be stored
    let mut mixed: Vec<(&'static str, Vec<String>, String)> = vec![];
    let good: [&[&str]; 6] = [
        &["--vertex", "77"],
        &["--edge", "77", "78"],
        &["--chain", "77", "78", "79"],
        &["--cycle", "77", "78"],
        &["--star", "77", "78"],
        &["--clique", "77", "78"],
    ];
    let wrong: [&[&str]; 8] = [
        &["--vertex", "zz"],
        &["--edge", "5", "zz"],
        &["--edge", "5", "6", "7"],
        &["--chain", "5", "zz"],
        &["--cycle", "5", "6", "18446744073709551616"],
        &["--star", "zz", "5"],
        &["--clique", "5", "zz"],
        &["--clique", "5", "18446744073709551616"],
    ];
    for g in good.iter() {
        for w in wrong.iter() {
            if g[0] != w[0] {
                let mut a = s(g);
                a.extend(s(w));
                mixed.push(("gc-add", a, "valid and invalid".into()));
                let mut a = s(w);
                a.extend(s(g));
                mixed.push(("gc-add", a, "valid and invalid".into()));
            }
        }
    }
    for (g, w) in [
        (&["--vertex", "1"][..], &["--edge", "2", "zz"][..]),
        (&["--vertex", "1"][..], &["--edge", "2", "3", "4"][..]),
        (&["--edge", "1", "2"][..], &["--vertex", "zz"][..]),
        (&["--edge", "1", "2"][..], &["--vertex", "3", "18446744073709551616"][..]),
    ]
    .iter()
    {
        for sw in 0..2 {
            let (x, y) = if sw == 0 { (g, w) } else { (w, g) };
            let mut a = s(x);
            a.extend(s(y));
            mixed.push(("gc-delete", a, "valid and invalid".into()));
        }
    }
    ctx.set_exhaustive_note("every option of every command with each kind of bad value in each place");
    ctx.par("bad-values", list.len() as u64, |c| {
        let (p, a, w) = &list[c.idx as usize];
        refuse(c, p, a, w);
    });
    ctx.par("mixed", mixed.len() as u64, |c| {
        let (p, a, w) = &mixed[c.idx as usize];
        refuse(c, p, a, w);
        c.count("valid and invalid options mixed", 1);
    });
    // random bad tokens in random places of random calls
    ctx.par("random", ctx.scale(500, 6000), |c| {
        let mut r = c.rng.clone();
        let m = base();
        let l = m.vlist();
        let e = if r.chance(2, 3) { add_edit(&mut r, &l, false) } else { del_edit(&mut r, &m, &l) };
        let vals: Vec<usize> = (0..e.args.len()).filter(|i| e.args[*i].parse::<u64>().is_ok()).collect();
        if vals.is_empty() {
            return;
        }
        let mut a = e.args.clone();
        let i = *r.pick(&vals);
        a[i] = match r.below(5) {
            0 => r.pick(&BAD[..12]).to_string(),
            1 => format!("{}{}", a[i], r.pick(&["a", ".", "é", "%", "\u{200b}", "L", "-"])),
            2 => format!("{}{}", r.pick(&["a", ".", "é", "%", "#", "_"]), a[i]),
            3 => format!("{}{}", u64::MAX, r.below(10)),
            _ => (0..r.us(1, 6)).map(|_| char::from(r.range(58, 126) as u8)).collect(),
        };
        refuse(c, e.prog, &a, "bad id");
    });
    // reading commands without a usable graph
    let reads: Vec<(&'static str, Vec<String>)> = vec![
        ("gc-desc", s(&[])),
        ("gc-topo-sort", s(&[])),
        ("gc-short-path", s(&["-s", "1", "-e", "1"])),
        ("gc-short-path", s(&["-s", "1", "-e", "2"])),
        ("gc-csp", s(&["-s", "1", "-e", "2", "--max-length", "3"])),
        ("gc-cycle", s(&["--all"])),
        ("gc-cycle", s(&["--girth"])),
        ("gc-cycle", s(&["--count"])),
        ("gc-build", s(&[])),
    ];
    let corrupt: [&[u8]; 12] = [
        b"AddVertex 1\nnonsense\nAddVertex 2\n",
        b"AddEdge 1\n",
        b"AddVertex 1 2\n",
        b"AddVertex 1\nAddEdge 1 2\nRemoveEdge 1\n",
        b"AddVertex -1\n",
        b"AddVertex 18446744073709551616\n",
        b"AddVertex 1\nAddVertex \xff\xfe\n",
        b"\x00\x01\x02",
        b"addvertex 1\n",
        b"AddEdge 1 2 3\n",
        b"AddVertex 1\nAddVert",
        b"AddEdge 1 2\n1 2\n",
    ];
    ctx.par("unreadable", reads.len() as u64 * 8, |c| {
        let (p, a) = &reads[c.idx as usize % reads.len()];
        let how = c.idx as usize / reads.len();
        let d = Dir::new(c);
        d.put(b"AddEdge 1 2\nAddEdge 2 1\n");
        let g = d.root.join(".graph");
        let chmod = |p: &std::path::Path, mode: u32| {
            let _ = std::fs::set_permissions(p, std::fs::Permissions::from_mode(mode));
        };
        let text = match how {
            0 => {
                chmod(&d.cmdfile(), 0o000);
                "no permission to read the file"
            }
            1 => {
                chmod(&d.cmdfile(), 0o200);
                "write permission only"
            }
            2 => {
                chmod(&g, 0o000);
                "no permission on the directory"
            }
            3 => {
                let _ = std::fs::remove_file(d.cmdfile());
                let _ = std::fs::create_dir(d.cmdfile());
                "commands is a directory"
            }
            4 => {
                let _ = std::fs::remove_dir_all(&g);
                let _ = std::fs::write(&g, "AddVertex 1\n");
                ".graph is a file"
            }
            5 => {
                let _ = std::fs::remove_file(d.cmdfile());
                let _ = std::os::unix::fs::symlink(d.root.join("nowhere"), d.cmdfile());
                "commands is a dangling link"
            }
            6 => {
                let _ = std::fs::remove_file(d.cmdfile());
                let _ = std::os::unix::fs::symlink("commands", d.cmdfile());
                "commands is a link to itself"
            }
            _ => {
                let _ = std::fs::rename(d.cmdfile(), g.join("Commands"));
                "another name"
            }
        };
        c.add_desc(text);
        let o = go(c, prog(c.ctx, p).at(&d.root).args(a));
        chmod(&g, 0o755);
        c.check(!o.ok(), || format!("{} answers without a readable graph ({})\n{}", p, text, o.brief()));
        c.count("reads without a usable graph", 1);
        c.distinct(fnv(format!("{} {:?} unreadable {}", p, a, how).as_bytes()));
    });
    ctx.par("no-graph", reads.len() as u64 * (3 + corrupt.len() as u64), |c| {
        let (p, a) = &reads[c.idx as usize % reads.len()];
        let how = c.idx as usize / reads.len();
        let d = Dir::new(c);
        match how {
            0 => {}
            1 => {
                let _ = std::fs::remove_dir_all(&d.root);
            }
            2 => {
                let _ = std::fs::create_dir_all(d.root.join(".graph"));
            }
            _ => d.put(corrupt[how - 3]),
        }
        // graphs next to, above and below it are not an answer
        let near = c.idx % 2 == 0 || how < 3;
        if near {
            let mut places = vec![d.base.clone(), d.base.join("sibling")];
            if how != 1 {
                places.push(d.root.join("child"));
            }
            for x in places {
                let _ = std::fs::create_dir_all(x.join(".graph"));
                let _ = std::fs::write(x.join(".graph").join("commands"), "AddEdge 1 2\nAddEdge 2 1\n");
            }
            c.count("reads next to other graphs", 1);
        }
        c.add_desc(&format!("storage state {} {:?}", how, if how >= 3 { String::from_utf8_lossy(corrupt[how - 3]).to_string() } else { String::new() }));
        let before = snapshot(&d.base);
        let o = go(c, prog(c.ctx, p).at(&d.root).args(a));
        c.check(!o.ok(), || format!("{} answers without a readable graph\n{}", p, o.brief()));
        if how >= 3 {
            let after = snapshot(&d.base);
            if let Some(x) = snap_diff(&before, &after) {
                if *p != "gc-build" || x.contains("commands") {
                    c.fail(&format!("{} changed something: {}", p, x));
                }
            }
        }
        c.count("reads without a usable graph", 1);
        c.distinct(fnv(format!("{} {:?} {}", p, a, how).as_bytes()));
    });
}
