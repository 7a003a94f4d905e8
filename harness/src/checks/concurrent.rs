//! C15 concurrent edit commands: offline linearizability check of recorded histories, lock discipline
use crate::checks::edit::*;
use crate::cli::*;
use crate::ctx::{Case, Ctx};
use crate::gen;
use crate::model::*;
use crate::util::*;
use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::time::Duration;

#[derive(Clone, Debug)]
enum Kind {
    /// commands that take effect
    Write(Vec<Cmd>),
    /// the graph is replaced by this one
    Set(MG),
    /// the graph is removed
    Clean,
    /// an empty graph is created if there is none
    Init,
    /// (vertices, edges) printed
    Read(usize, usize),
    /// a read that found no graph
    NoRead,
}

#[derive(Clone, Debug)]
struct Op {
    kind: Kind,
    t0: u64,
    t1: u64,
    text: String,
}

/// Is there an order of the operations, compatible with real time, that explains all reads and the
/// final state? (None: there is no graph)
fn linearizable(ops: &[Op], init: &Option<MG>, last: &Option<MG>) -> bool {
    type St = Option<MG>;
    fn rec(ops: &[Op], done: u64, st: &St, last: &St, seen: &mut HashSet<(u64, u64)>) -> bool {
        if done == (1u64 << ops.len()) - 1 {
            return st == last;
        }
        if !seen.insert((done, st.as_ref().map(|g| g.hash()).unwrap_or(1))) {
            return false;
        }
        // an operation may come next if no other pending one ended before it began
        let first_end = (0..ops.len()).filter(|i| done >> i & 1 == 0).map(|i| ops[i].t1).min().unwrap();
        for i in 0..ops.len() {
            if done >> i & 1 == 1 || ops[i].t0 > first_end {
                continue;
            }
            let next: Option<St> = match (&ops[i].kind, st) {
                (Kind::Read(v, e), Some(g)) if g.n() == *v && g.edges.len() == *e => Some(st.clone()),
                (Kind::NoRead, None) => Some(None),
                (Kind::Clean, Some(_)) => Some(None),
                (Kind::Init, None) => Some(Some(MG::new())),
                (Kind::Init, Some(_)) => Some(st.clone()),
                (Kind::Set(x), Some(_)) => Some(Some(x.clone())),
                (Kind::Write(cs), Some(g)) => {
                    let mut s = g.clone();
                    for x in cs {
                        s.apply(x);
                    }
                    Some(Some(s))
                }
                _ => None,
            };
            if let Some(s) = next {
                if rec(ops, done | 1 << i, &s, last, seen) {
                    return true;
                }
            }
        }
        false
    }
    rec(ops, 0, init, last, &mut HashSet::new())
}

fn desc_counts(o: &Out) -> Option<(usize, usize)> {
    let f = |label: &str| {
        o.out.lines().find(|l| l.to_lowercase().starts_with(label)).and_then(|l| nums(l).first().map(|x| *x as usize))
    };
    Some((f("vertices")?, f("edges")?))
}

/// order of the file events of the processes of one round (who did what after whom)
fn signature(log: &str) -> (u64, u64, bool) {
    let mut ev: Vec<(u64, u64, String)> = vec![];
    for l in log.lines() {
        let p: Vec<&str> = l.split(' ').collect();
        if p.len() >= 5 {
            if let (Ok(t), Ok(pid)) = (p[0].parse(), p[1].parse()) {
                let name = p[4].rsplit('/').next().unwrap_or("");
                let name: String = name.chars().filter(|x| !x.is_ascii_digit()).collect();
                ev.push((t, pid, format!("{} {}", p[3], name)));
            }
        }
    }
    ev.sort();
    let mut ids = BTreeMap::new();
    let mut h = 7;
    let mut switches = 0;
    let mut prev = 0;
    let mut runs: BTreeMap<u64, u64> = BTreeMap::new();
    for (_, pid, what) in &ev {
        let n = ids.len() as u64;
        let k = *ids.entry(*pid).or_insert(n);
        h = mix(h, mix(k, fnv(what.as_bytes())));
        if prev != *pid {
            switches += 1;
            *runs.entry(*pid).or_insert(0) += 1;
        }
        prev = *pid;
    }
    let _ = switches;
    (h, ev.len() as u64, runs.values().any(|x| *x > 1))
}

fn one_round(c: &mut Case, r: &mut Rng, d: &Dir, start: &Option<MG>, pool: &[u64], round: u64, inits: usize) -> Option<MG> {
    let known = start.clone().unwrap_or_else(MG::new);
    let writers = r.us(3, 7);
    let readers = r.us(0, 3);
    let retries = r.us(0, 4);
    let dmax = *r.pick(&[0u64, 100, 400, 1500]);
    let log = d.base.join(format!("log{}", round));
    let mut plans: Vec<(String, Vec<String>, Option<Kind>)> = vec![];
    // an init takes no lock: what it does while a clean runs is left open
    let cleaned = inits == 0 && r.chance(1, 6);
    let missing = start.is_none();
    let replaced = r.chance(1, 3);
    for _ in 0..writers {
        let e = match r.below(10) {
            0..=5 => {
                let big = r.chance(1, 12);
                add_edit(r, pool, big)
            }
            6..=7 => del_edit(r, &known, pool),
            _ => {
                let mut args = vec![];
                if r.chance(1, 3) {
                    args.push("--verbose".to_string());
                }
                Edit { prog: "gc-build", args, cmds: vec![] }
            }
        };
        plans.push((e.prog.to_string(), e.args, Some(Kind::Write(e.cmds))));
    }
    if replaced {
        // no edges: the outcome does not depend on chance
        let n = r.us(0, 30) as u64;
        let args: Vec<String> = ["--force", "-v", &n.to_string(), "-e", "0"].iter().map(|x| x.to_string()).collect();
        let mut g = MG::new();
        for v in 1..=n {
            g.add_v(v);
        }
        plans.push(("gc-random".into(), args, Some(Kind::Set(g))));
    }
    if cleaned {
        plans.push(("gc-clean".into(), vec!["--force".into()], Some(Kind::Clean)));
    }
    for _ in 0..inits {
        plans.push(("gc-init".into(), vec![], Some(Kind::Init)));
    }
    for _ in 0..readers {
        plans.push(("gc-desc".into(), vec![], None));
    }
    let seeds: Vec<u64> = plans.iter().map(|_| r.u64() >> 8).collect();
    // the same directory under different names in one round out of two
    let mixed = r.chance(1, 2);
    let ways: Vec<usize> = plans.iter().map(|_| if mixed { r.below(SPELLINGS + 1) } else { SPELLINGS }).collect();
    if mixed {
        c.count("rounds with several names of the directory", 1);
    }
    // one command is far slower than the others: whole commands of the others fit between two of its steps
    let slow = if inits > 0 && r.chance(1, 2) {
        plans.iter().position(|p| p.0 == "gc-init")
    } else if r.chance(1, 3) {
        Some(r.below(plans.len()))
    } else {
        None
    };
    if slow.is_some() {
        c.count("rounds with one slow command", 1);
    }
    let ctx = c.ctx;
    let shim = ctx.shim.to_str().unwrap().to_string();
    let barrier = std::sync::Barrier::new(plans.len());
    let mut results: Vec<Vec<(Out, String)>> = vec![];
    std::thread::scope(|sc| {
        let mut hs = vec![];
        for (i, p) in plans.iter().enumerate() {
            let (barrier, shim, log, seeds, ways) = (&barrier, &shim, &log, &seeds, &ways);
            hs.push(sc.spawn(move || {
                let mut outs = vec![];
                barrier.wait();
                for k in 0..=retries {
                    let mut x = aim(ctx, ways[i], d, &p.0)
                        .args(&p.1)
                        .env("LD_PRELOAD", shim)
                        .env("VSHIM_DIR", d.base.to_str().unwrap())
                        .env("VSHIM_LOG", log.to_str().unwrap());
                    let dmax = if slow == Some(i) { 25_000 } else { dmax };
                    if dmax > 0 {
                        x = x.env("VSHIM_DELAY", &(seeds[i] + k as u64).to_string()).env("VSHIM_DELAY_US", &dmax.to_string());
                    }
                    let text = format!("{} {} [name {}]", p.0, p.1.join(" "), ways[i]);
                    let o = x.run();
                    let ok = o.ok();
                    outs.push((o, text));
                    if ok && p.2.is_some() {
                        break;
                    }
                }
                outs
            }));
        }
        for h in hs {
            match h.join() {
                Ok(x) => results.push(x),
                Err(_) => ctx.harness_error("round thread"),
            }
        }
    });
    let mut ops = vec![];
    let mut all = vec![];
    for (p, outs) in plans.iter().zip(results) {
        for (o, text) in outs {
            all.push((o.t0, o.t1, text.clone(), o.code));
            c.count("processes run", 1);
            if o.hung {
                c.fail(&format!("'{}' did not finish within 150 s while others were running (hang)", text));
            }
            if let Some(s) = o.signal {
                if s == 9 {
                    ctx.harness_error("a program was killed from outside");
                }
                c.fail(&format!("'{}' died of signal {}", text, s));
            }
            match &p.2 {
                None => {
                    if (cleaned || missing) && !o.ok() {
                        ops.push(Op { kind: Kind::NoRead, t0: o.t0, t1: o.t1, text });
                        continue;
                    }
                    c.check(o.ok(), || {
                        format!("a reading command failed while edits were running: the stored file was not readable\n{}", o.brief())
                    });
                    match desc_counts(&o) {
                        Some((v, e)) => ops.push(Op { kind: Kind::Read(v, e), t0: o.t0, t1: o.t1, text }),
                        None => c.fail(&format!("gc-desc gave no counts\n{}", o.brief())),
                    }
                    c.count("concurrent reads", 1);
                }
                Some(kind) => {
                    if o.ok() {
                        match kind {
                            Kind::Set(_) => c.count("concurrent replacements that succeeded", 1),
                            Kind::Clean => c.count("concurrent cleans that succeeded", 1),
                            Kind::Init => c.count("concurrent inits that succeeded", 1),
                            _ => {}
                        }
                        ops.push(Op { kind: kind.clone(), t0: o.t0, t1: o.t1, text });
                        c.count("concurrent edits that succeeded", 1);
                    } else {
                        c.count("concurrent edits that reported failure", 1);
                    }
                }
            }
        }
    }
    all.sort();
    let mut text = format!("round {} from {}\n", round, start.as_ref().map(|g| g.show()).unwrap_or("no graph".into()));
    let z = all.first().map(|x| x.0).unwrap_or(0);
    for (a, b, t, code) in &all {
        text.push_str(&format!("  {:>8} us .. {:>8} us  exit {:?}  {}\n", (a - z) / 1000, (b - z) / 1000, code, t));
    }
    c.add_desc(&text);
    let end = match load(c, d) {
        Ok(g) => Some(g),
        Err(_) if (cleaned || missing) && !d.cmdfile().exists() => None,
        Err(e) => c.fail(&format!("the stored file is unreadable after concurrent edits: {}", e)),
    };
    // overlap actually seen
    let ov = (0..ops.len()).any(|i| (0..i).any(|j| ops[i].t0 < ops[j].t1 && ops[j].t0 < ops[i].t1));
    if ov {
        c.count("rounds with overlapping successful operations", 1);
    }
    while ops.len() > 40 {
        // keep the search small: drop reads
        match ops.iter().position(|o| matches!(o.kind, Kind::Read(..) | Kind::NoRead)) {
            Some(i) => {
                ops.remove(i);
            }
            None => break,
        }
    }
    c.check(linearizable(&ops, start, &end), || {
        let okl: Vec<&String> = ops.iter().map(|o| &o.text).collect();
        format!(
            "no order of the successful operations compatible with real time explains the stored graph (and what was read): \
             a successful edit was lost or torn, or a failed one took effect\nsuccessful: {:?}\nafterwards: {}",
            okl,
            end.as_ref().map(|g| g.show()).unwrap_or("no graph".into())
        )
    });
    let root = d.s().to_string();
    c.check(!gc_command::graph_utils::is_locked(&root), || "the lock is still held after all commands ended".into());
    let (h, n, inter) = signature(&std::fs::read_to_string(&log).unwrap_or_default());
    c.count("file events observed", n);
    if inter {
        c.count("rounds with interleaved file events", 1);
        c.distinct(h);
    }
    let _ = std::fs::remove_file(&log);
    c.sample(|| text.clone());
    end
}

pub fn c15(ctx: &'static Ctx) {
    ctx.rule(
        "A round counts as distinct and non-trivial when the file events of its processes, recorded by the preloaded monitor, \
         really interleaved (some process was interrupted by another) and the order of events (process, operation, file) was \
         not seen before. Each round's history (start, end, exit status of every process; graph before and after; what \
         readers printed) is checked for linearizability.",
    );
    ctx.require(&[
        "concurrent edits that succeeded",
        "concurrent reads",
        "concurrent replacements that succeeded",
        "concurrent cleans that succeeded",
        "concurrent inits that succeeded",
        "rounds with several names of the directory",
        "rounds with one slow command",
        "held-lock attempts",
        "held-lock attempts with a failing file operation",
        "lock released after failure",
        "lock released after success",
        "with_lock blocks run",
        "library calls from threads that succeeded",
    ]);
    ctx.shown(&["concurrent edits that reported failure", "rounds with interleaved file events", "library calls from threads that failed"]);
    ctx.assume("the kernel's file operations on the scratch file system are atomic as POSIX says");
    ctx.par_n("rounds", ctx.scale(130, 2200), 4, |c| {
        let mut r = c.rng.clone();
        let d = Dir::new(c);
        let n = r.us(2, 8);
        let pool = pool(&mut r, n);
        let nn = r.us(0, 6).min(pool.len());
        let mut m = MG::new();
        for _ in 0..nn {
            m.add_e(*r.pick(&pool), *r.pick(&pool));
        }
        let mut h = m.history(&mut r, true);
        if r.chance(1, 4) {
            // a big file widens the windows
            for i in 0..3000u64 {
                h.push(Cmd::AE(1_000_000 + i % 300, 1_000_000 + (i * 7) % 300));
            }
            m = MG::of(&h);
        }
        d.put(lines_of(&h).as_bytes());
        for round in 0..3 {
            m = match one_round(c, &mut r, &d, &Some(m), &pool, round, 0) {
                Some(g) => g,
                None => {
                    d.put(b"");
                    MG::new()
                }
            };
        }
    });
    // a graph is being created (or is there already) while others are at work
    ctx.par_n("inits", ctx.scale(70, 900), 4, |c| {
        let mut r = c.rng.clone();
        let d = Dir::new(c);
        let n = r.us(2, 8);
        let pool = pool(&mut r, n);
        let mut st = None;
        if r.chance(1, 3) {
            let m = gen::graph(&mut r, n);
            d.put(lines_of(&m.history(&mut r, true)).as_bytes());
            st = Some(m);
        }
        for round in 0..3 {
            let k = r.us(1, 2);
            st = one_round(c, &mut r, &d, &st, &pool, round, k);
            c.check(st.is_some(), || "no graph although one was created and none removed".into());
        }
    });
    // the lock is held by somebody else: no edit may succeed meanwhile
    ctx.par("held-lock", ctx.scale(216, 864), |c| {
        let mut r = c.rng.clone();
        let d = Dir::new(c);
        let n = r.us(2, 6);
        let pool = pool(&mut r, n);
        let m = gen::graph(&mut r, n);
        let h = m.history(&mut r, true);
        d.put(lines_of(&h).as_bytes());
        let root = d.s().to_string();
        let e = match c.idx % 6 {
            5 => Edit { prog: "gc-random", args: vec!["-f".into(), "-v".into(), "12".into(), "-e".into(), "0".into()], cmds: vec![] },
            0 | 1 => add_edit(&mut r, &pool, false),
            2 => del_edit(&mut r, &m, &pool),
            3 => Edit { prog: "gc-build", args: vec![], cmds: vec![] },
            _ => Edit { prog: "gc-clean", args: vec!["--force".into()], cmds: vec![] },
        };
        let hold = match (c.idx / 6) % 4 {
            0 | 1 => root.clone(),
            2 => format!("{}/", root),
            _ => format!("{}/.", root),
        };
        let way = (c.idx / 24) as usize % (SPELLINGS + 1);
        c.desc(format!("lock held as {}, then {} {:?} [name {}]", hold, e.prog, e.args, way));
        let tree = snapshot(&d.base);
        let l = gc_command::graph_utils::lock(&hold);
        if (c.idx / 3) % 2 == 1 {
            // held for a long time already
            let old = std::time::SystemTime::now() - Duration::from_secs([90, 4000, 90_000, 40_000_000][c.idx as usize / 6 % 4]);
            for p in snapshot(&d.base).keys().filter(|p| !tree.contains_key(*p)) {
                if let Ok(f) = std::fs::File::open(d.base.join(p)) {
                    if f.set_times(std::fs::FileTimes::new().set_modified(old).set_accessed(old)).is_ok() {
                        c.count("locks held for long", 1);
                    }
                }
            }
        }
        c.check(l.is_ok(), || format!("a free lock cannot be taken: {:?}", l));
        for s in [&root, &hold].iter() {
            c.check(gc_command::graph_utils::is_locked(s), || "is_locked says no while the lock is held".into());
            let again = gc_command::graph_utils::lock(s);
            c.check(again.is_err(), || "a held lock can be taken again".into());
        }
        let before = std::fs::read(d.cmdfile()).ok();
        let mut x = aim(c.ctx, way, &d, e.prog).args(&e.args);
        // the attempt to take the lock may also fail for another reason than the lock being there
        if (c.idx / 6) % 3 == 1 {
            let mode = *r.pick(&["eacces", "eintr", "eio", "enospc", "exdev"]);
            x = x
                .env("LD_PRELOAD", c.ctx.shim.to_str().unwrap())
                .env("VSHIM_DIR", d.base.to_str().unwrap())
                .env("VSHIM_AT", "1")
                .env("VSHIM_MODE", mode);
            c.add_desc(&format!("its first file operation fails: {}", mode));
            c.count("held-lock attempts with a failing file operation", 1);
        }
        let done = AtomicBool::new(false);
        let o = std::thread::scope(|sc| {
            let t = sc.spawn(|| {
                let o = x.run();
                done.store(true, Ordering::SeqCst);
                o
            });
            for _ in 0..40 {
                if done.load(Ordering::SeqCst) {
                    break;
                }
                std::thread::sleep(Duration::from_millis(10));
            }
            let early = done.load(Ordering::SeqCst);
            let now = std::fs::read(d.cmdfile()).ok();
            c.check(now == before, || format!("{} changed the graph while another command held the lock", e.prog));
            if early {
                c.check(gc_command::graph_utils::is_locked(&root), || {
                    format!("{} gave up the lock that another command holds", e.prog)
                });
            }
            let u = gc_command::graph_utils::unlock(&hold);
            c.check(u.is_ok(), || format!("the holder cannot release its lock any more: {:?}", u));
            let o = t.join().unwrap_or_else(|_| c.ctx.harness_error("thread"));
            c.check(!(early && o.ok()), || format!("{} succeeded while another command held the lock\n{}", e.prog, o.brief()));
            o
        });
        c.count("held-lock attempts", 1);
        c.count("processes run", 1);
        let after = load(c, &d);
        let mut want = m.clone();
        if o.ok() {
            for x in &e.cmds {
                want.apply(x);
            }
        }
        if o.ok() && e.prog == "gc-random" {
            want = MG::new();
            for v in 1..=12 {
                want.add_v(v);
            }
        }
        if !(o.ok() && e.prog == "gc-clean") {
            c.check(after.as_ref() == Ok(&want), || {
                format!("{} (exit {:?}) left {:?} instead of {}", e.prog, o.code, after.as_ref().map(|g| g.show()), want.show())
            });
        }
        c.check(!gc_command::graph_utils::is_locked(&root), || "locked although nobody runs".into());
        c.distinct(mix(c.idx, 0x10c));
    });
    // the lock is released whatever the outcome
    ctx.par("release", ctx.scale(80, 400), |c| {
        let mut r = c.rng.clone();
        let d = Dir::new(c);
        let n = r.us(2, 6);
        let pool = pool(&mut r, n);
        let m = gen::graph(&mut r, n);
        let e = match c.idx % 5 {
            0 | 1 => add_edit(&mut r, &pool, false),
            2 => del_edit(&mut r, &m, &pool),
            3 => Edit { prog: "gc-random", args: vec!["--force".into()], cmds: vec![] },
            _ => Edit { prog: "gc-build", args: vec![], cmds: vec![] },
        };
        let how = (c.idx / 5) % 4;
        match how {
            0 => d.put(lines_of(&m.history(&mut r, true)).as_bytes()),
            1 => {} // no graph at all
            2 => {
                // a directory where the command file should be
                let _ = std::fs::create_dir_all(d.cmdfile());
            }
            _ => {
                use std::os::unix::fs::PermissionsExt;
                d.put(lines_of(&m.history(&mut r, true)).as_bytes());
                let _ = std::fs::set_permissions(d.cmdfile(), std::fs::Permissions::from_mode(0o000));
                let _ = std::fs::set_permissions(d.root.join(".graph"), std::fs::Permissions::from_mode(0o500));
            }
        }
        c.desc(format!("setup {}", how));
        let o = go(c, prog(c.ctx, e.prog).at(&d.root).args(&e.args));
        c.check(!gc_command::graph_utils::is_locked(d.s()), || {
            format!("{} ended (exit {:?}) but the graph is still locked", e.prog, o.code)
        });
        c.count(if o.ok() { "lock released after success" } else { "lock released after failure" }, 1);
        {
            use std::os::unix::fs::PermissionsExt;
            let _ = std::fs::set_permissions(d.root.join(".graph"), std::fs::Permissions::from_mode(0o700));
        }
        // and the next command is not blocked
        let _ = std::fs::remove_dir_all(d.root.join(".graph"));
        d.put(b"");
        let o = go(c, prog(c.ctx, "gc-add").at(&d.root).args(&["-v", "3"]));
        c.check(o.ok(), || format!("the next edit fails\n{}", o.brief()));
    });
    // the library calls behind the commands, from several threads of one process
    ctx.par_n("threads", ctx.scale(40, 500), 3, |c| {
        use gc_command::graph_utils as gu;
        use gc_core::graph::VertexId;
        let mut r = c.rng.clone();
        let d = Dir::new(c);
        let n = r.us(2, 7);
        let pool = pool(&mut r, n);
        let mut start = gen::graph(&mut r, n);
        let mut h = start.history(&mut r, true);
        if r.chance(1, 3) {
            for k in 0..2000u64 {
                h.push(Cmd::AE(5_000_000 + k % 150, 5_000_000 + (k * 13) % 150));
            }
            start = MG::of(&h);
        }
        d.put(lines_of(&h).as_bytes());
        for round in 0..4 {
            let threads = r.us(2, 5);
            // per thread a list of calls: (name, commands)
            let plans: Vec<Vec<(usize, Vec<Cmd>)>> = (0..threads)
                .map(|_| {
                    (0..r.us(2, 4))
                        .map(|_| {
                            let k = r.below(8);
                            let cnt = r.us(1, 5);
                            let v: Vec<u64> = (0..cnt).map(|_| *r.pick(&pool)).collect();
                            let w: Vec<u64> = (0..cnt).map(|_| *r.pick(&pool)).collect();
                            let cs = match k {
                                0 => vec![Cmd::AV(v[0])],
                                1 => v.iter().map(|x| Cmd::AV(*x)).collect(),
                                2 => vec![Cmd::AE(v[0], w[0])],
                                3 => v.iter().zip(&w).map(|(a, b)| Cmd::AE(*a, *b)).collect(),
                                4 => vec![Cmd::RV(v[0])],
                                5 => v.iter().map(|x| Cmd::RV(*x)).collect(),
                                6 => v.iter().zip(&w).map(|(a, b)| Cmd::RE(*a, *b)).collect(),
                                _ => vec![],
                            };
                            (k, cs)
                        })
                        .collect()
                })
                .collect();
            c.add_desc(&format!("round {} from {}: {:?}", round, start.show(), plans));
            let barrier = std::sync::Barrier::new(threads);
            let z = std::time::Instant::now();
            let root = d.s();
            let (mut ops, mut failed) = (vec![], 0u64);
            let mut panicked = false;
            std::thread::scope(|sc| {
                let mut hs = vec![];
                for p in &plans {
                    let barrier = &barrier;
                    hs.push(sc.spawn(move || {
                        let mut out = vec![];
                        barrier.wait();
                        for (k, cs) in p {
                            // several attempts: the lock may be taken
                            for _ in 0..40 {
                                let t0 = z.elapsed().as_nanos() as u64;
                                let vs = || cs.iter().map(|x| if let Cmd::AV(v) | Cmd::RV(v) = x { VertexId(*v) } else { VertexId(0) }).collect::<Vec<_>>();
                                let es = || {
                                    cs.iter()
                                        .map(|x| if let Cmd::AE(a, b) | Cmd::RE(a, b) = x { (VertexId(*a), VertexId(*b)) } else { (VertexId(0), VertexId(0)) })
                                        .collect::<Vec<_>>()
                                };
                                let ok = match k {
                                    0 => gu::add_vertex(root, vs()[0]).is_ok(),
                                    1 => gu::add_vertices(root, vs()).is_ok(),
                                    2 => gu::add_edge(root, es()[0].0, es()[0].1).is_ok(),
                                    3 => gu::add_edges(root, es()).is_ok(),
                                    4 => gu::remove_vertex(root, vs()[0]).is_ok(),
                                    5 => gu::remove_vertices(root, vs()).is_ok(),
                                    6 => gu::remove_edges(root, es()).is_ok(),
                                    _ => {
                                        let g = gu::load_graph(root);
                                        let t1 = z.elapsed().as_nanos() as u64;
                                        out.push((Some(g.map(|g| of_real(&g))), *k, cs.clone(), t0, t1, true));
                                        break;
                                    }
                                };
                                let t1 = z.elapsed().as_nanos() as u64;
                                out.push((None, *k, cs.clone(), t0, t1, ok));
                                if ok {
                                    break;
                                }
                                std::thread::sleep(Duration::from_micros(50));
                            }
                        }
                        out
                    }));
                }
                for h in hs {
                    match h.join() {
                        Ok(x) => {
                            for (g, k, cs, t0, t1, ok) in x {
                                let text = format!("call {} {:?}", k, cs);
                                match g {
                                    Some(Ok(g)) => ops.push(Op { kind: Kind::Read(g.n(), g.edges.len()), t0, t1, text }),
                                    Some(Err(e)) => c.fail(&format!("a load while edits were running failed: {}", e)),
                                    None if ok => ops.push(Op { kind: Kind::Write(cs), t0, t1, text }),
                                    None => failed += 1,
                                }
                            }
                        }
                        Err(_) => panicked = true,
                    }
                }
            });
            c.check(!panicked, || "a library call panicked while others were running".into());
            let end = match load(c, &d) {
                Ok(g) => g,
                Err(e) => c.fail(&format!("unreadable after concurrent library calls: {}", e)),
            };
            c.count("library calls from threads that succeeded", ops.len() as u64);
            c.count("library calls from threads that failed", failed);
            c.check(linearizable(&ops, &Some(start.clone()), &Some(end.clone())), || {
                format!("no order of the successful library calls explains the stored graph {}\n{:?}", end.show(), ops)
            });
            c.check(!gu::is_locked(root), || "still locked after all calls ended".into());
            let mut o: Vec<(u64, u64)> = ops.iter().map(|o| (o.t1, fnv(o.text.as_bytes()))).collect();
            o.sort();
            c.distinct(o.iter().fold(end.hash(), |h, x| mix(h, x.1)));
            start = end;
        }
    });
    // the library's lock block: mutual exclusion between threads, release and result passing
    ctx.par_n("with-lock", ctx.scale(20, 150), 2, |c| {
        let mut r = c.rng.clone();
        let d = Dir::new(c);
        d.put(b"");
        let inside = AtomicU64::new(0);
        let ran = AtomicU64::new(0);
        let clash = AtomicBool::new(false);
        let wrong = AtomicBool::new(false);
        let seeds: Vec<u64> = (0..6).map(|_| r.u64()).collect();
        let root = d.s();
        c.desc("6 threads x 30 with_lock blocks".into());
        std::thread::scope(|sc| {
            for s in &seeds {
                let (inside, ran, clash, wrong) = (&inside, &ran, &clash, &wrong);
                sc.spawn(move || {
                    let mut r = Rng::new(*s, 1, 1);
                    for _ in 0..30 {
                        let fail = r.chance(1, 3);
                        let us = r.us(0, 300) as u64;
                        let mut executed = false;
                        let res = gc_command::graph_utils::with_lock(root, || {
                            executed = true;
                            if inside.fetch_add(1, Ordering::SeqCst) != 0 {
                                clash.store(true, Ordering::SeqCst);
                            }
                            std::thread::sleep(Duration::from_micros(us));
                            inside.fetch_sub(1, Ordering::SeqCst);
                            if fail {
                                Err(std::io::Error::new(std::io::ErrorKind::Other, "block failed"))
                            } else {
                                Ok(us)
                            }
                        });
                        if executed {
                            ran.fetch_add(1, Ordering::SeqCst);
                            match res {
                                Ok(v) if !fail && v == us => {}
                                Err(_) if fail => {}
                                _ => wrong.store(true, Ordering::SeqCst),
                            }
                        } else if res.is_ok() {
                            wrong.store(true, Ordering::SeqCst);
                        }
                        std::thread::sleep(Duration::from_micros(r.us(0, 200) as u64));
                    }
                });
            }
        });
        c.check(!clash.load(Ordering::SeqCst), || "two with_lock blocks of one graph ran at the same time".into());
        c.check(!wrong.load(Ordering::SeqCst), || "with_lock did not pass on the result of its block (or claimed success without running it)".into());
        c.check(!gc_command::graph_utils::is_locked(root), || "still locked after all blocks ended".into());
        let n = ran.load(Ordering::SeqCst);
        c.check(n > 0, || "with_lock never ran a block".into());
        c.count("with_lock blocks run", n);
        c.distinct(mix(n, c.idx));
    });
}
