//! C16 edits under injected faults: kill at every file operation, failing and short operations, full disk
use crate::checks::edit::*;
use crate::checks::format::layout;
use crate::cli::*;
use crate::ctx::{Case, Ctx};
use crate::model::*;
use crate::util::*;
use std::path::{Path, PathBuf};

const MODES: [&str; 8] =
    ["kill_before", "kill_after", "eio", "enospc", "eintr", "short_enospc", "short_kill", "short_ok"];

const LARGE_MODES: [&str; 5] = ["kill_before", "kill_after", "enospc", "short_enospc", "short_kill"];

#[derive(Clone, Debug)]
enum What {
    Cli(Edit),
    Random(u64, u64),
    Clean,
    Lib(&'static str),
}

struct Scen {
    what: What,
    content: Vec<u8>,
    before: MG,
    after: MG,
    /// for library calls: the commands to save or append
    src: Vec<Cmd>,
}

fn acceptable_random(g: &MG, n: u64, e: u64) -> bool {
    g.verts.iter().cloned().eq(1..=n) && g.edges.len() as u64 == e && g.acyclic()
}

fn run_of(c: &Case, d: &Dir, s: &Scen, lib_target: &Path) -> Run {
    match &s.what {
        What::Cli(e) => prog(c.ctx, e.prog).at(&d.root).args(&e.args),
        What::Random(n, e) => {
            prog(c.ctx, "gc-random").at(&d.root).args(&["--force", "-v", &n.to_string(), "-e", &e.to_string()])
        }
        What::Clean => prog(c.ctx, "gc-clean").at(&d.root).args(&["--force"]),
        What::Lib(op) => {
            let me = std::env::current_exe().unwrap_or_else(|_| c.ctx.harness_error("current_exe"));
            let src = d.base.join("source");
            if !src.exists() {
                std::fs::write(&src, lines_of(&s.src)).expect("source");
            }
            exe(me, "monitor").args(&["libop", op, src.to_str().unwrap(), lib_target.to_str().unwrap()])
        }
    }
}

fn scenario(r: &mut Rng, i: u64) -> Scen {
    let np = r.us(3, 8);
    let mut p = pool(r, np);
    if i % 3 == 0 {
        // many ids: appended and saved data exceed every usual buffer size
        for k in 0..40 {
            p.push(10_000_000_000 + k);
        }
    }
    let mut m = MG::new();
    for _ in 0..r.us(0, 12) {
        m.add_e(*r.pick(&p), *r.pick(&p));
    }
    let mut h = m.history(r, true);
    if i % 4 == 1 {
        for k in 0..2500u64 {
            h.push(Cmd::AE(5_000_000 + k % 200, 5_000_000 + (k * 13) % 200));
        }
    }
    let before = MG::of(&h);
    let content = if i % 2 == 0 { lines_of(&h).into_bytes() } else { layout(r, &h) };
    let mut src = vec![];
    let what = match i % 10 {
        9 => What::Clean,
        0 => What::Cli(add_edit(r, &p, true)),
        1 | 2 => What::Cli(add_edit(r, &p, false)),
        3 => {
            // a clique of 40: far more than one buffer
            let l = some_distinct(r, &p, 40);
            let mut args = vec!["--clique".to_string()];
            args.extend(l.iter().map(|x| x.to_string()));
            let mut cmds = vec![];
            for a in &l {
                for b in &l {
                    if a != b {
                        cmds.push(Cmd::AE(*a, *b));
                    }
                }
            }
            What::Cli(Edit { prog: "gc-add", args, cmds })
        }
        4 if i % 2 == 0 => {
            // removal of many vertices
            let l = before.vlist();
            let mut l: Vec<u64> = l.iter().cloned().take(200).collect();
            l.extend((0..60).map(|k| 77_000_000 + k));
            let mut args = vec!["--vertex".to_string()];
            args.extend(l.iter().map(|x| x.to_string()));
            What::Cli(Edit { prog: "gc-delete", args, cmds: l.iter().map(|v| Cmd::RV(*v)).collect() })
        }
        4 => What::Cli(del_edit(r, &before, &p)),
        5 | 6 => What::Cli(Edit { prog: "gc-build", args: vec![], cmds: vec![] }),
        7 => What::Random(r.us(5, 40) as u64, r.us(1, 4) as u64),
        _ => {
            let n = *r.pick(&[1usize, 3, 900]);
            for _ in 0..n {
                let (a, b) = (*r.pick(&p), r.u64());
                src.push(if r.chance(1, 4) { Cmd::AV(a) } else { Cmd::AE(a, b) });
            }
            What::Lib(*r.pick(&["save", "append", "tgf"]))
        }
    };
    let mut after = before.clone();
    match &what {
        What::Cli(e) => {
            for x in &e.cmds {
                after.apply(x);
            }
        }
        What::Lib("append") => {
            for x in &src {
                after.apply(x);
            }
        }
        What::Lib(_) => after = MG::of(&src),
        _ => {}
    }
    Scen { what, content, before, after, src }
}

fn fresh(d: &Dir, s: &Scen) {
    let _ = std::fs::remove_dir_all(&d.root);
    let _ = std::fs::create_dir_all(&d.root);
    d.put(&s.content);
}

/// reads the result of the scenario's operation
fn state(c: &Case, d: &Dir, s: &Scen, target: &Path) -> Result<MG, String> {
    match &s.what {
        What::Lib(op) => {
            let f = std::fs::File::open(target).map_err(|e| e.to_string())?;
            let op = *op;
            c.guard("read", move || match op {
                "tgf" => gc_core::format::tgf::read(f).map(|g| of_real(&g)),
                _ => gc_core::format::gcmd::read(f).map(|g| of_real(&g)),
            })
        }
        _ => load(c, d),
    }
}

/// judges one execution
fn judge(c: &mut Case, d: &Dir, s: &Scen, target: &Path, o: &Out, how: &str) -> Option<MG> {
    let ok = o.ok();
    let got = state(c, d, s, target);
    if let What::Clean = s.what {
        let gone = !d.cmdfile().exists();
        c.check(gone || (!ok && got.as_ref() == Ok(&s.before)), || {
            format!("{}: gc-clean (exit {:?}) left {:?}: neither the whole graph nor none", how, o.code, got.as_ref().map(|g| g.show()))
        });
        c.count(if gone { "cleaned" } else { "clean without effect" }, 1);
        return None;
    }
    let is_after = |g: &MG| match &s.what {
        What::Random(n, e) => acceptable_random(g, *n, *e),
        _ => *g == s.after,
    };
    // the target of a library call is not a stored graph: only its report is judged
    let lib = matches!(s.what, What::Lib(_));
    if ok {
        match &got {
            Ok(g) if is_after(g) => {}
            Ok(g) => c.fail(&format!(
                "{}: success was reported, but the stored graph is not the graph after the edit: {} instead of {}",
                how,
                g.show(),
                s.after.show()
            )),
            Err(e) => c.fail(&format!("{}: success was reported, but the stored graph is unreadable: {}", how, e)),
        }
        c.count("reported success", 1);
        return got.ok();
    }
    c.count(if o.signal.is_some() { "killed" } else { "reported failure" }, 1);
    if lib {
        return None;
    }
    match got {
        Ok(g) => {
            if g == s.before {
                c.count("read back as before", 1);
            } else if is_after(&g) {
                c.count("read back as after", 1);
            } else {
                c.fail(&format!(
                    "{}: the stored graph is neither the one before nor the one after the edit\nread: {}\nbefore: {}\nafter: {}",
                    how,
                    g.show(),
                    s.before.show(),
                    s.after.show()
                ));
            }
            Some(g)
        }
        Err(e) => c.fail(&format!("{}: the stored graph is unreadable afterwards: {}", how, e)),
    }
}

fn finish_run(c: &Case, o: &Out, text: &str, kill: bool) {
    if o.hung {
        c.fail(&format!("hang: {}", text));
    }
    match o.signal {
        Some(9) if kill => {}
        Some(9) => c.ctx.harness_error("a program was killed from outside"),
        Some(24) => c.fail(&format!("used more than 20 s of CPU time: {}", text)),
        _ => {}
    }
}

/// the graph must remain usable: another edit works on top of what is there
fn usable(c: &mut Case, d: &Dir, g: &MG, how: &str) {
    if gc_command::graph_utils::is_locked(d.s()) {
        let _ = gc_command::graph_utils::unlock(d.s());
    }
    let v = 424_242_424_242u64;
    let o = prog(c.ctx, "gc-add").at(&d.root).args(&["-e", &v.to_string(), "7"]).run();
    c.check(o.ok(), || format!("{}: the next edit fails although the lock is free\n{}", how, o.brief()));
    let mut m = g.clone();
    m.add_e(v, 7);
    let x = load(c, d);
    c.check(x.as_ref() == Ok(&m), || format!("{}: the next edit gave {:?}", how, x.as_ref().map(|g| g.show())));
    c.count("follow-up edits", 1);
}

fn events(log: &Path) -> u64 {
    std::fs::read_to_string(log).unwrap_or_default().lines().filter_map(|l| l.split(' ').nth(2)?.parse::<u64>().ok()).max().unwrap_or(0)
}

fn shimmed(c: &Case, d: &Dir, x: Run, log: &Path, dir: &Path) -> Run {
    let _ = d;
    x.env("LD_PRELOAD", c.ctx.shim.to_str().unwrap())
        .env("VSHIM_DIR", dir.to_str().unwrap())
        .env("VSHIM_LOG", log.to_str().unwrap())
        .env("VSHIM_RAND", &c.idx.to_string())
        .env("VSHIM_PID", SAME_PID)
}

/// as in containers, where each command sees itself as the same process
const SAME_PID: &str = "7";

/// a short edit by a process with the same process id as the killed one, which may have left files behind
fn again(c: &mut Case, d: &Dir, g: MG, how: &str) -> MG {
    if gc_command::graph_utils::is_locked(d.s()) {
        let _ = gc_command::graph_utils::unlock(d.s());
    }
    let x = prog(c.ctx, "gc-delete").at(&d.root).args(&["-v", "424242424242"]);
    let o = x.env("LD_PRELOAD", c.ctx.shim.to_str().unwrap()).env("VSHIM_PID", SAME_PID).run();
    let mut m = g.clone();
    if o.ok() {
        m.apply(&Cmd::RV(424242424242));
    }
    let x = load(c, d);
    c.check(x.as_ref() == Ok(&m), || {
        format!("{}: the next edit, by a process of the same id, (exit {:?}) left {:?}", how, o.code, x.as_ref().map(|g| g.show()))
    });
    c.count("follow-up edits with the same process id", 1);
    m
}

/// edits of stored graphs of several hundred kilobytes
fn large(r: &mut Rng, i: u64) -> Scen {
    let mut h = vec![];
    for k in 0..*r.pick(&[9_000u64, 14_000, 40_000]) {
        h.push(Cmd::AE(5_000_000_000 + k % 200, 6_000_000_000 + k / 200));
    }
    let before = MG::of(&h);
    let what = match i % 5 {
        0 => What::Cli(Edit { prog: "gc-build", args: vec![], cmds: vec![] }),
        1 => What::Random(30_000, 20),
        2 => What::Cli(Edit {
            prog: "gc-delete",
            args: vec!["-v".into(), "5000000000".into(), "5000000001".into()],
            cmds: vec![Cmd::RV(5_000_000_000), Cmd::RV(5_000_000_001)],
        }),
        3 => What::Cli(Edit { prog: "gc-add", args: vec!["-e".into(), "1".into(), "2".into()], cmds: vec![Cmd::AE(1, 2)] }),
        _ => What::Clean,
    };
    let mut after = before.clone();
    if let What::Cli(e) = &what {
        for x in &e.cmds {
            after.apply(x);
        }
    }
    Scen { what, content: lines_of(&h).into_bytes(), before, after, src: vec![] }
}

/// additions after which the file has a whole number of blocks, or to a file that has
fn blocks(r: &mut Rng, i: u64) -> Scen {
    let size = *r.pick(&[512usize, 1024, 4096, 8192, 16_384, 65_536, 131_072]);
    let h = [Cmd::AE(7, 8), Cmd::AV(9), Cmd::RV(9), Cmd::AE(8, 9)];
    let mut content = lines_of(&h).into_bytes();
    let cmds = vec![Cmd::AE(1, 2), Cmd::AV(3)];
    let more = lines_of(&cmds).len();
    let goal = if i % 3 == 0 { size } else { size - more };
    while goal - content.len() > 120 {
        content.extend_from_slice(b"# a comment that takes up some room\n");
    }
    let left = goal - content.len();
    content.push(b'#');
    content.extend(std::iter::repeat(b'-').take(left - 2));
    content.push(b'\n');
    let before = MG::of(&h);
    let mut after = before.clone();
    for x in &cmds {
        after.apply(x);
    }
    let args = ["-e", "1", "2", "-v", "3"].iter().map(|x| x.to_string()).collect();
    Scen { what: What::Cli(Edit { prog: "gc-add", args, cmds }), content, before, after, src: vec![] }
}

/// every file operation of one edit as the place of every fault
fn each_operation(c: &mut Case, s: &Scen, full: bool) {
    let mut r = c.rng.clone();
    let d = Dir::new(c);
    let log = d.base.join("log");
    let target: PathBuf = match &s.what {
        What::Lib(_) => d.cmdfile(),
        _ => d.cmdfile(),
    };
    // a run without faults: how many operations are there?
    fresh(&d, s);
    let x = run_of(c, &d, s, &target);
    let text = x.text.clone();
    c.desc(format!("old file ({} bytes): {}", s.content.len(), String::from_utf8_lossy(&s.content[..s.content.len().min(400)])));
    c.add_desc(&format!("$ {}", text));
    let o = shimmed(c, &d, x, &log, &d.root).run();
    finish_run(c, &o, &text, false);
    c.check(o.ok(), || format!("fails without any fault\n{}", o.brief()));
    judge(c, &d, s, &target, &o, "no fault");
    let n = events(&log);
    c.count("file operations observed without faults", n);
    c.check(n > 0 || s.after == s.before, || "no file operation observed although the graph changed".into());
    let ks: Vec<u64> = if n <= 30 {
        (1..=n).collect()
    } else {
        let mut v: Vec<u64> = (1..=8).chain(n - 7..=n).collect();
        for _ in 0..14 {
            v.push(r.us(9, n as usize - 8) as u64);
        }
        v.sort_unstable();
        v.dedup();
        v
    };
    for k in ks {
        for mode in if full { &MODES[..] } else { &LARGE_MODES[..] } {
            fresh(&d, s);
            let _ = std::fs::remove_file(&log);
            let x = run_of(c, &d, s, &target);
            let x = shimmed(c, &d, x, &log, &d.root).env("VSHIM_AT", &k.to_string()).env("VSHIM_MODE", mode);
            let o = x.run();
            c.count("processes run", 1);
            let how = format!("{} at file operation {}", mode, k);
            finish_run(c, &o, &format!("{} ({})", text, how), mode.contains("kill"));
            let l = std::fs::read_to_string(&log).unwrap_or_default();
            let hit = match *mode {
                "kill_before" => l.contains("KILL-BEFORE"),
                "kill_after" => l.contains("KILL-AFTER"),
                "eio" => l.contains(" EIO "),
                "enospc" => l.contains(" ENOSPC "),
                "eintr" => l.contains(" EINTR "),
                "short_kill" => l.contains("SHORT-KILL"),
                _ => l.contains("-short "),
            };
            let op = l.lines().rev().nth(0).unwrap_or("").split(' ').nth(3).unwrap_or("").to_string();
            if hit {
                c.count("faults applied", 1);
                c.count(&format!("mode {}", mode), 1);
                c.distinct(mix(mix(c.idx, k), fnv(mode.as_bytes())));
                if matches!(s.what, What::Lib(_)) {
                    c.count("library calls under fault", 1);
                }
            }
            let _ = op;
            let st = judge(c, &d, s, &target, &o, &how);
            if let (Some(g), true) = (st, !matches!(s.what, What::Lib(_))) {
                if hit {
                    let g = if mode.contains("kill") { again(c, &d, g, &how) } else { g };
                    usable(c, &d, &g, &how);
                }
            }
        }
    }
    if !full {
        return;
    }
    // a second fault after the first one: what a program does instead must be safe as well
    let firsts: [&str; 5] = ["eio", "exdev", "eacces", "enospc", "short_enospc"];
    let turn = (c.idx / 10) as usize;
    for k in 1..=n.min(24) {
        for f in 0..2 {
            let m1 = firsts[(turn + k as usize + f * 2) % firsts.len()];
            let once = |c: &Case, at2: u64, m2: &str| {
                fresh(&d, s);
                let _ = std::fs::remove_file(&log);
                let x = run_of(c, &d, s, &target);
                let mut x = shimmed(c, &d, x, &log, &d.root).env("VSHIM_AT", &k.to_string()).env("VSHIM_MODE", m1);
                if at2 > 0 {
                    x = x.env("VSHIM_AT2", &at2.to_string()).env("VSHIM_MODE2", m2);
                }
                x.run()
            };
            let o = once(c, 0, "");
            let n1 = events(&log);
            c.count("processes run", 1);
            finish_run(c, &o, &format!("{} ({} at file operation {})", text, m1, k), false);
            judge(c, &d, s, &target, &o, &format!("{} at file operation {}", m1, k));
            for k2 in (k + 1..=n1).take(10) {
                let m2 = ["kill_after", "kill_after", "short_kill", "eio"][(k2 as usize + f + turn) % 4];
                let o = once(c, k2, m2);
                let how = format!("{} at file operation {}, then {} at file operation {}", m1, k, m2, k2);
                finish_run(c, &o, &format!("{} ({})", text, how), m2.contains("kill"));
                judge(c, &d, s, &target, &o, &how);
                c.count("processes run", 1);
                c.count("double faults", 1);
                c.distinct(mix(mix(c.idx, k), mix(k2, fnv(format!("{} {}", m1, m2).as_bytes()))));
            }
        }
    }
    // reading fails or is cut short
    fresh(&d, s);
    let _ = std::fs::remove_file(&log);
    let x = run_of(c, &d, s, &target);
    let o = shimmed(c, &d, x, &log, &d.root).env("VSHIM_READS", "1").run();
    judge(c, &d, s, &target, &o, "no fault");
    let rs: Vec<u64> = std::fs::read_to_string(&log)
        .unwrap_or_default()
        .lines()
        .filter_map(|l| {
            let p: Vec<&str> = l.split(' ').collect();
            if p.len() > 3 && (p[3] == "read" || p[3] == "open-read") {
                p[2].parse().ok()
            } else {
                None
            }
        })
        .take(24)
        .collect();
    for k in rs {
        for mode in ["eio", "eacces", "eintr", "short_ok", "kill_after"] {
            fresh(&d, s);
            let _ = std::fs::remove_file(&log);
            let x = run_of(c, &d, s, &target);
            let x = shimmed(c, &d, x, &log, &d.root).env("VSHIM_READS", "1");
            let o = x.env("VSHIM_AT", &k.to_string()).env("VSHIM_MODE", mode).run();
            let how = format!("{} at file operation {} (reads included)", mode, k);
            finish_run(c, &o, &format!("{} ({})", text, how), mode.contains("kill"));
            judge(c, &d, s, &target, &o, &how);
            c.count("processes run", 1);
            c.count("faults while reading", 1);
            c.distinct(mix(mix(c.idx, k), fnv(format!("read {}", mode).as_bytes())));
        }
    }
    // no file may grow beyond a limit (the kernel itself refuses the write)
    let sz = s.content.len() as u64;
    for lim in [0, 1, sz / 2, sz, sz + 1, sz + 7, sz + 40, sz + 300, sz + 9000] {
        fresh(&d, s);
        let x = run_of(c, &d, s, &target).fsize(lim);
        let o = x.run();
        c.count("size-limited runs", 1);
        let how = format!("file size limit {}", lim);
        finish_run(c, &o, &format!("{} ({})", text, how), false);
        let st = judge(c, &d, s, &target, &o, &how);
        if let (Some(g), true) = (st, !matches!(s.what, What::Lib(_))) {
            usable(c, &d, &g, &how);
        }
    }
    c.sample(|| format!("{}: {} file operations x {} modes", text.chars().take(120).collect::<String>(), n, MODES.len()));
}

pub fn c16(ctx: &'static Ctx) {
    *ctx.level.lock().unwrap() = "fault_enumeration".into();
    ctx.rule(
        "A faulted execution counts as distinct and non-trivial when its (operation, number of the faulted file operation, \
         fault mode, layout of the old file) has not been seen and the monitor's log shows that the fault was applied.",
    );
    ctx.require(&[
        "killed",
        "reported failure",
        "reported success",
        "read back as before",
        "read back as after",
        "follow-up edits",
        "follow-up edits with the same process id",
        "faults applied",
        "double faults",
        "faults while reading",
        "size-limited runs",
        "library calls under fault",
        "cleaned",
        "clean without effect",
        "large files under fault",
        "files of whole blocks under fault",
    ]);
    ctx.assume("faults are injected at the boundary between the program and libc; loss of power (unsynced pages) is not simulated");
    let layouts = ctx.scale(5, 30);
    ctx.par("each-operation", 10 * layouts, |c| {
        let mut r = c.rng.clone();
        let s = scenario(&mut r, c.idx);
        each_operation(c, &s, true);
    });
    ctx.par("large-files", ctx.scale(5, 20), |c| {
        let mut r = c.rng.clone();
        let s = large(&mut r, c.idx);
        each_operation(c, &s, false);
        c.count("large files under fault", 1);
    });
    ctx.par("whole-blocks", ctx.scale(14, 60), |c| {
        let mut r = c.rng.clone();
        let s = blocks(&mut r, c.idx);
        each_operation(c, &s, false);
        c.count("files of whole blocks under fault", 1);
    });
    // histories of edits, each possibly faulted, on one directory
    ctx.par("fault-histories", ctx.scale(60, 1500), |c| {
        let mut r = c.rng.clone();
        let d = Dir::new(c);
        let np = r.us(3, 9);
        let p = pool(&mut r, np);
        d.put(b"");
        let mut m = MG::new();
        let log = d.base.join("log");
        let mut sig = 0;
        for step in 0..r.us(4, 12) {
            let e = match r.below(6) {
                0 => del_edit(&mut r, &m, &p),
                1 => Edit { prog: "gc-build", args: vec![], cmds: vec![] },
                x => add_edit(&mut r, &p, x == 2),
            };
            let mut after = m.clone();
            for x in &e.cmds {
                after.apply(x);
            }
            let s = Scen { what: What::Cli(e.clone()), content: vec![], before: m.clone(), after, src: vec![] };
            let k = r.us(1, 12) as u64;
            let mode = *r.pick(&MODES);
            let _ = std::fs::remove_file(&log);
            let x = run_of(c, &d, &s, &d.cmdfile());
            c.add_desc(&format!("$ {}   [{} at {}]", x.text, mode, k));
            let text = x.text.clone();
            let x = shimmed(c, &d, x, &log, &d.root).env("VSHIM_AT", &k.to_string()).env("VSHIM_MODE", mode);
            let o = x.run();
            c.count("processes run", 1);
            finish_run(c, &o, &text, mode.contains("kill"));
            let how = format!("step {}: {} at file operation {}", step, mode, k);
            let t = d.cmdfile();
            match judge(c, &d, &s, &t, &o, &how) {
                Some(g) => m = g,
                None => c.ctx.harness_error("no state"),
            }
            if gc_command::graph_utils::is_locked(d.s()) {
                let _ = gc_command::graph_utils::unlock(d.s());
            }
            sig = mix(sig, mix(k, fnv(format!("{}{:?}", mode, e.args).as_bytes())));
        }
        usable(c, &d, &m, "end of history");
        c.distinct(sig);
    });
}
