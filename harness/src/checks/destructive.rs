//! C18 random graphs, C19 confirmation and containment of destructive commands
use crate::checks::edit::aimed;
use crate::cli::*;
use crate::ctx::{Case, Ctx};
use crate::gen;
use crate::model::*;
use crate::util::*;
use std::collections::BTreeMap;
use std::os::unix::fs::PermissionsExt;

fn capacity(n: usize) -> usize {
    // pairs further apart than one layer (a tenth of the vertices)
    let k = n.saturating_sub(1).saturating_sub(n / 10);
    k * (k + 1) / 2
}

fn shaped(c: &mut Case, d: &Dir, n: usize, target: usize) -> MG {
    let g = match load(c, d) {
        Ok(g) => g,
        Err(e) => c.fail(&format!("the generated graph cannot be read: {}", e)),
    };
    c.check(g.verts.len() == n && g.verts.iter().next().map(|v| *v == 1).unwrap_or(true) && g.verts.iter().last().map(|v| *v == n as u64).unwrap_or(true), || {
        format!(
            "{} vertices asked for; got {} vertices, smallest {:?}, largest {:?}",
            n,
            g.verts.len(),
            g.verts.iter().next(),
            g.verts.iter().last()
        )
    });
    c.check(g.acyclic(), || "the generated graph has a cycle".into());
    let want = target.min(capacity(n));
    c.check(g.edges.len() == want, || format!("{} edges asked for, {} expected, got {}", target, want, g.edges.len()));
    g
}

fn random(c: &mut Case, d: &Dir, r: &mut Rng, n: usize, e: Option<usize>) {
    let mut a: Vec<String> = vec![];
    let f = r.chance(1, 2);
    a.push(if f { "-f" } else { "--force" }.into());
    if n != 100 || r.chance(1, 2) {
        a.push(if r.chance(1, 2) { "-v" } else { "--vertex-count" }.into());
        a.push(n.to_string());
    }
    if let Some(e) = e {
        a.push(if r.chance(1, 2) { "-e" } else { "--edge-count" }.into());
        a.push(e.to_string());
    }
    if r.chance(1, 3) {
        a.rotate_left(1);
        if !a[0].starts_with('-') {
            a.rotate_right(1);
        }
    }
    let x = aimed(c, r, d, "gc-random").args(&a);
    let o = go(c, x);
    c.check(o.ok(), || format!("gc-random failed\n{}", o.brief()));
}

pub fn c18(ctx: &'static Ctx) {
    ctx.rule(
        "A case counts as distinct and non-trivial when its pair (vertex count, edge count) has not been seen. The graph \
         written by the real binary is read back and its vertex set, acyclicity and edge count are checked; termination is \
         bounded by CPU time.",
    );
    ctx.require(&["graphs generated", "targets above what fits", "default edge counts", "repeated runs compared", "exact fits"]);
    ctx.set_exhaustive_note("vertex counts 0 to 12 with every edge count up to just above what fits");
    let mut small: Vec<(usize, usize)> = vec![];
    for n in 0..=12 {
        for e in 0..=capacity(n) + 2 {
            small.push((n, e));
        }
    }
    let one = |c: &mut Case, n: usize, e: Option<usize>| {
        let mut r = c.rng.clone();
        let d = Dir::new(c);
        let k = r.below(5);
        let old = gen::graph(&mut r, k);
        d.put(lines_of(&old.history(&mut r, true)).as_bytes());
        random(c, &d, &mut r, n, e);
        let target = e.unwrap_or(3 * n);
        let g = shaped(c, &d, n, target);
        let o = go(c, prog(c.ctx, "gc-desc").at(&d.root));
        cert_desc(c, &o, &g);
        if c.idx % 4 == 0 {
            let o = go(c, prog(c.ctx, "gc-topo-sort").at(&d.root));
            cert_topo(c, &o, &g);
        }
        if e.is_none() {
            c.count("default edge counts", 1);
        }
        if target > capacity(n) {
            c.count("targets above what fits", 1);
        }
        if target == capacity(n) {
            c.count("exact fits", 1);
        }
        c.count("graphs generated", 1);
        c.max("edges", g.edges.len() as u64);
        c.distinct(mix(n as u64, e.map(|x| x as u64).unwrap_or(u64::MAX)));
        c.sample(|| format!("n {} e {:?} -> {} vertices {} edges", n, e, g.verts.len(), g.edges.len()));
    };
    ctx.par("small", small.len() as u64, |c| {
        let (n, e) = small[c.idx as usize];
        one(c, n, Some(e));
    });
    ctx.par("sizes", ctx.scale(250, 3000), |c| {
        let mut r = c.rng.clone();
        let n = if r.chance(1, 4) { *r.pick(&[0, 1, 2, 3, 9, 10, 11, 19, 20, 21, 99, 100, 101]) } else { r.us(1, 120) };
        let cap = capacity(n);
        let e = match r.below(6) {
            0 => None,
            1 => Some(cap),
            2 => Some(cap + 1 + r.below(1000)),
            3 => Some(cap.saturating_sub(r.below(3))),
            _ => Some(r.below(cap + 1)),
        };
        one(c, n, e);
    });
    ctx.par("larger", ctx.scale(6, 40), |c| {
        let mut r = c.rng.clone();
        let n = r.us(300, 1000);
        let e = if r.chance(1, 2) { None } else { Some(r.us(0, 5000)) };
        one(c, n, e);
    });
    let huge: [(usize, Option<usize>); 9] = [
        // 65536 vertices may be the source of an edge
        (72_818, Some(60_000)),
        (72_818, None),
        (600, Some(145_000)),
        (600, Some(usize::MAX)),
        (12_000, None),
        (3000, Some(66_000)),
        (70_000, Some(10)),
        (200_000, Some(40)),
        (100_000, None),
    ];
    ctx.par("huge", huge.len() as u64 * if ctx.thorough { 4 } else { 1 }, |c| {
        let (n, e) = huge[c.idx as usize % huge.len()];
        one(c, n, e);
    });
    ctx.par("differ", ctx.scale(30, 300), |c| {
        let mut r = c.rng.clone();
        let (n, e) = match c.idx % 6 {
            4 => {
                // a few edges less than fit
                let n = r.us(30, 90);
                (n, capacity(n) - r.us(5, 9))
            }
            5 => *r.pick(&[(300usize, 900usize), (1500, 20_000), (5000, 40), (12_000, 36_000), (30_000, 100), (66_000, 60), (120_000, 50)]),
            _ => (r.us(20, 60), r.us(20, 60)),
        };
        let mut seen = vec![];
        let mut d = Dir::new(c);
        d.put(b"");
        for _ in 0..3 {
            // in a new directory, or over the last graph
            if c.idx % 2 == 0 {
                d = Dir::new(c);
                d.put(b"");
            }
            let o = go(c, prog(c.ctx, "gc-random").at(&d.root).args(&["-f", "-v", &n.to_string(), "-e", &e.to_string()]));
            c.check(o.ok(), || format!("gc-random failed\n{}", o.brief()));
            seen.push(shaped(c, &d, n, e));
        }
        c.check(seen[0] != seen[1] || seen[1] != seen[2], || "three runs with the same arguments gave the same edges".into());
        c.count("repeated runs compared", 1);
        c.distinct(mix(n as u64, mix(e as u64, 99)));
    });
}

// ---------- C19 ----------

/// files and directories that do not belong to the graph at d.root
fn decoys(r: &mut Rng, d: &Dir) {
    let w = |p: &std::path::Path, s: &str| {
        let _ = std::fs::create_dir_all(p.parent().unwrap());
        let _ = std::fs::write(p, s);
    };
    w(&d.root.join("data.txt"), "keep me");
    w(&d.root.join("commands"), "AddVertex 5\n");
    w(&d.root.join("graph").join("commands"), "AddVertex 6\n");
    w(&d.root.join(".graph2").join("commands"), "AddVertex 7\n");
    w(&d.root.join(".graph.bak"), "x");
    w(&d.root.join("lock.bak"), "x");
    w(&d.root.join("child").join(".graph").join("commands"), "AddEdge 1 2\n");
    w(&d.base.join(".graph").join("commands"), "AddEdge 3 4\n");
    w(&d.base.join("sibling").join(".graph").join("commands"), "AddEdge 8 9\n");
    w(&d.base.join("sibling").join("file"), "z");
    // names that look like something of the program's own
    for f in [
        "lock.d/x", "lock2", ".lock", "locks/lock", "commands.tmp", "graph.tmp", ".tmp", "x.tmp", "commands.lock", "commands.bak", ".commands.1.0.tmp",
        ".commands.tmp", ".graph~", ".graph.old/commands", ".graph-old/commands", "Graph/commands", ".GRAPH/commands", ".gitignore", ".config/x",
        "desc", "random.txt", "child/lock", "child/commands", "child/.graph.tmp/commands", "child/deep/.graph/lock", ".graphs", ".gra/commands",
    ]
    .iter()
    {
        if r.chance(2, 3) {
            w(&d.root.join(f), f);
        }
    }
    for f in ["lock", "commands", "x.tmp", ".graph.bak", ".graph.tmp/commands", "sibling/lock", "g.tmp", "g.bak/commands", "g2/.graph/commands", "g.graph"].iter() {
        if r.chance(2, 3) {
            w(&d.base.join(f), f);
        }
    }
    let _ = std::fs::create_dir_all(d.root.join("empty"));
    let _ = std::os::unix::fs::symlink(d.base.join("sibling"), d.root.join("link"));
    if r.chance(1, 2) {
        // a link inside the storage to something outside
        let _ = std::os::unix::fs::symlink(d.base.join("sibling"), d.root.join(".graph").join("out"));
        let _ = std::os::unix::fs::symlink(d.root.join("data.txt"), d.root.join(".graph").join("outfile"));
    }
    if r.chance(1, 2) {
        w(&d.root.join(".graph").join("attributes").join("x"), "y");
    }
}

fn outside(s: &BTreeMap<String, String>) -> BTreeMap<String, String> {
    s.iter().filter(|(k, _)| *k != "g/.graph" && !k.starts_with("g/.graph/")).map(|(k, v)| (k.clone(), v.clone())).collect()
}

/// answer, and what it means: Some(true) act, Some(false) do nothing, None either
const ANSWERS: [(&[u8], Option<bool>); 57] = [
    (b"y\n", Some(true)),
    (b"yes\n", Some(true)),
    (b"y", Some(true)),
    (b"yes", Some(true)),
    (b"yes\nno\n", Some(true)),
    (b" yes \n", None),
    (b"y \n", None),
    (b"yes\r\n", None),
    (b"", Some(false)),
    (b"\n", Some(false)),
    (b"\nyes\n", Some(false)),
    (b"no\n", Some(false)),
    (b"n\n", Some(false)),
    (b"no\nyes\n", Some(false)),
    (b"n\ny\n", Some(false)),
    (b"nay\n", Some(false)),
    (b"yess\n", Some(false)),
    (b"ye\n", Some(false)),
    (b"yy\n", Some(false)),
    (b"yes please\n", Some(false)),
    (b"not yes\n", Some(false)),
    (b"maybe\n", Some(false)),
    (b"yes!\n", Some(false)),
    (b"yesno\n", Some(false)),
    (b"1\n", Some(false)),
    (b"true\n", Some(false)),
    (b"y n\n", Some(false)),
    (b"\xff\xfe\n", Some(false)),
    (b"y\xff\n", Some(false)),
    (b"\xd1\x83\n", Some(false)),
    (b"\0\n", Some(false)),
    (b"yes.\n", Some(false)),
    (b"y.\n", Some(false)),
    (b"yes,\n", Some(false)),
    (b"y;\n", Some(false)),
    (b"\"yes\"\n", Some(false)),
    (b"'y'\n", Some(false)),
    (b"yes/no\n", Some(false)),
    (b"y/n\n", Some(false)),
    (b"[y]\n", Some(false)),
    (b"-y\n", Some(false)),
    (b"--yes\n", Some(false)),
    (b"#yes\n", Some(false)),
    (b"yes yes\n", Some(false)),
    (b"yes\tno\n", Some(false)),
    (b"oui\n", Some(false)),
    (b"yeah\n", Some(false)),
    (b"yup\n", Some(false)),
    (b"y?\n", Some(false)),
    (b"yes :)\n", Some(false)),
    (b"(yes)\n", Some(false)),
    (b"0\n", Some(false)),
    (b"on\n", Some(false)),
    (b"ok\n", Some(false)),
    (b"sure\n", Some(false)),
    (b"force\n", Some(false)),
    (b"f\n", Some(false)),
];

fn destructive(c: &mut Case, random: bool, force: bool, ans: usize) {
    let mut r = c.rng.clone();
    let d = Dir::new(c);
    let n = r.us(1, 7);
    let m = gen::graph(&mut r, n);
    d.put(lines_of(&m.history(&mut r, true)).as_bytes());
    if r.chance(1, 4) {
        // nothing but the graph, in a directory with a mode of its own
        let _ = std::fs::set_permissions(&d.root, std::fs::Permissions::from_mode(*r.pick(&[0o700, 0o775, 0o711, 0o1777, 0o2755])));
        c.count("directories holding only the graph", 1);
    } else {
        decoys(&mut r, &d);
    }
    let before = snapshot(&d.base);
    let (bytes, meaning) = ANSWERS[ans];
    let mut a: Vec<String> = vec![];
    let nv = *r.pick(&[8u64, 8, 0, 1, 2, 30]);
    if random {
        a.push("-v".into());
        a.push(nv.to_string());
        if r.chance(1, 2) {
            a.push("-e".into());
            a.push(r.pick(&["0", "1", "6", "1000"]).to_string());
        }
    } else if r.chance(1, 3) {
        a.push(if r.chance(1, 2) { "-s" } else { "--silent" }.into());
    }
    if force {
        let f = if r.chance(1, 2) { "-f" } else { "--force" };
        a.insert(0, f.into());
    }
    let name = if random { "gc-random" } else { "gc-clean" };
    let x = aimed(c, &mut r, &d, name).args(&a).stdin(bytes);
    let o = go(c, x);
    let after = snapshot(&d.base);
    let act = if force { Some(true) } else { meaning };
    let same = snap_diff(&before, &after);
    let acted = match act {
        Some(x) => x,
        None => same.is_some(),
    };
    if !acted {
        if let Some(x) = same {
            c.fail(&format!("{} was not confirmed (answer {:?}) but {}", name, String::from_utf8_lossy(bytes), x));
        }
        c.count("unconfirmed calls", 1);
    } else {
        c.check(o.ok(), || format!("{} failed\n{}", name, o.brief()));
        if let Some(x) = snap_diff(&outside(&before), &outside(&after)) {
            c.fail(&format!("{} touched something outside the graph's storage: {}", name, x));
        }
        c.count(if force { "forced calls" } else { "confirmed calls" }, 1);
        if random {
            let g = match load(c, &d) {
                Ok(g) => g,
                Err(e) => c.fail(&format!("after gc-random the graph cannot be read: {}", e)),
            };
            c.check(g.verts.len() as u64 == nv && (nv == 0 || g.verts.iter().last() == Some(&nv)), || {
                "gc-random was confirmed but did not replace the graph".into()
            });
        } else {
            c.check(!after.contains_key("g/.graph/commands"), || "gc-clean was confirmed but the graph is still there".into());
            let l = load(c, &d);
            c.check(l.is_err(), || "after gc-clean a graph can still be read".into());
            let o = go(c, prog(c.ctx, "gc-desc").at(&d.root));
            c.check(!o.ok(), || "after gc-clean gc-desc still answers".into());
            let o = go(c, prog(c.ctx, "gc-init").at(&d.root));
            c.check(o.ok(), || format!("gc-init after gc-clean failed\n{}", o.brief()));
            match load(c, &d) {
                Ok(g) => c.check(g == MG::new(), || "after gc-clean and gc-init the graph is not empty".into()),
                Err(e) => c.fail(&format!("after gc-clean and gc-init: {}", e)),
            }
            if let Some(x) = snap_diff(&outside(&before), &outside(&snapshot(&d.base))) {
                c.fail(&format!("gc-init touched something else: {}", x));
            }
        }
    }
    c.distinct(mix(mix(random as u64, force as u64), mix(ans as u64, m.hash())));
    c.sample(|| format!("{} force {} answer {:?}", name, force, String::from_utf8_lossy(bytes)));
}

pub fn c19(ctx: &'static Ctx) {
    ctx.rule(
        "A case counts as distinct and non-trivial when its tuple (command, force, answer, graph) has not been seen. The \
         whole tree around the graph, with neighbouring graphs, files and links planted, is recorded before and after.",
    );
    ctx.require(&["unconfirmed calls", "forced calls", "confirmed calls", "calls without a graph", "directories holding only the graph"]);
    ctx.set_exhaustive_note("every listed answer for both commands, forced and not");
    let n = ANSWERS.len() as u64;
    ctx.par("answers", n * 2 * ctx.scale(2, 10), |c| {
        let i = c.idx % (2 * n);
        destructive(c, i % 2 == 1, false, (i / 2) as usize);
    });
    ctx.par("forced", ctx.scale(60, 600), |c| {
        let mut r = c.rng.clone();
        let a = r.below(ANSWERS.len());
        destructive(c, c.idx % 2 == 1, true, a);
    });
    ctx.par("random-answers", ctx.scale(150, 2000), |c| {
        // anything but y and yes
        let mut r = c.rng.clone();
        let mut b: Vec<u8> = (0..r.us(1, 6)).map(|_| *r.pick(&[b'y', b'e', b's', b'n', b'o', b'Y', b'-', b'1', b'.', b'!', b',', b'\'', b'?', b'/', b'\t', b'|'])).collect();
        if &b == b"y" || &b == b"yes" {
            b.push(b'n');
        }
        // capital letters and blanks around the answer are left open
        let plain = String::from_utf8_lossy(&b).trim().to_ascii_lowercase();
        if plain == "y" || plain == "yes" {
            return;
        }
        b.push(b'\n');
        let d = Dir::new(c);
        let m = gen::graph(&mut r, 4);
        d.put(lines_of(&m.history(&mut r, true)).as_bytes());
        decoys(&mut r, &d);
        let before = snapshot(&d.base);
        let name = if c.idx % 2 == 0 { "gc-clean" } else { "gc-random" };
        let x = aimed(c, &mut r, &d, name).stdin(&b);
        let x = if name == "gc-random" { x.args(&["-v", "5"]) } else { x };
        go(c, x);
        if let Some(x) = snap_diff(&before, &snapshot(&d.base)) {
            c.fail(&format!("{} acted on the answer {:?}: {}", name, String::from_utf8_lossy(&b), x));
        }
        c.count("unconfirmed calls", 1);
        c.distinct(fnv(&b));
    });
    // nothing to destroy at the given path: graphs around it stay as they are
    ctx.par("no-graph-here", ctx.scale(60, 400), |c| {
        let mut r = c.rng.clone();
        let d = Dir::new(c);
        decoys(&mut r, &d);
        let how = r.below(4);
        let st = d.root.join(".graph");
        match how {
            0 | 1 => {
                let _ = std::fs::remove_dir_all(&st);
            }
            2 => {
                let _ = std::fs::remove_dir_all(&st);
                let _ = std::fs::create_dir_all(&st);
            }
            _ => {
                let _ = std::fs::remove_file(d.cmdfile());
            }
        }
        let before = snapshot(&d.base);
        let name = if c.idx % 2 == 0 { "gc-clean" } else { "gc-random" };
        let forced = r.chance(1, 2);
        let yes = forced || r.chance(2, 3);
        let mut x = aimed(c, &mut r, &d, name).stdin(if yes { b"yes\n" } else { b"no\n" });
        if forced {
            x = x.arg("-f");
        }
        if name == "gc-random" {
            x = x.args(&["-v", "9"]);
        }
        go(c, x);
        let after = snapshot(&d.base);
        if let Some(x) = if yes { snap_diff(&outside(&before), &outside(&after)) } else { snap_diff(&before, &after) } {
            c.fail(&format!("{} on a directory without a graph (confirmed: {}): {}", name, yes, x));
        }
        if name == "gc-clean" {
            c.check(load(c, &d).is_err(), || "after gc-clean a graph can be read".into());
        }
        c.count("calls without a graph", 1);
        c.distinct(mix(mix(how as u64, forced as u64), mix(yes as u64, fnv(format!("{} {}", name, before.len()).as_bytes()))));
    });
}
