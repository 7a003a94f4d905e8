//! Runs the real gc-* binaries in scratch directories and judges their answers
use crate::cons::*;
use crate::ctx::{Case, Ctx};
use crate::model::*;
use crate::oracle::*;
use std::collections::{BTreeMap, BTreeSet};
use std::io::{Read, Write};
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

pub const BINS: [&str; 11] = [
    "gc-add",
    "gc-build",
    "gc-clean",
    "gc-csp",
    "gc-cycle",
    "gc-delete",
    "gc-desc",
    "gc-init",
    "gc-random",
    "gc-short-path",
    "gc-topo-sort",
];

#[repr(C)]
struct Rlimit {
    cur: u64,
    max: u64,
}
extern "C" {
    fn setrlimit(r: i32, l: *const Rlimit) -> i32;
    fn signal(s: i32, h: usize) -> usize;
    fn prctl(op: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
}
const RLIMIT_CPU: i32 = 0;
const RLIMIT_FSIZE: i32 = 1;
const RLIMIT_CORE: i32 = 4;
const RLIMIT_AS: i32 = 9;
pub const CPU_LIMIT: u64 = 20;
/// longest run of a program so far, in milliseconds of wall-clock time
pub static SLOWEST: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);

#[derive(Clone, Debug)]
pub struct Out {
    pub code: Option<i32>,
    pub signal: Option<i32>,
    pub out: String,
    pub err: String,
    pub hung: bool,
    pub t0: u64,
    pub t1: u64,
}
impl Out {
    pub fn ok(&self) -> bool {
        self.code == Some(0)
    }
    pub fn brief(&self) -> String {
        let cut = |s: &str| {
            let t: String = s.chars().take(600).collect();
            t
        };
        format!(
            "exit {:?} signal {:?}\nstdout: {}\nstderr: {}",
            self.code,
            self.signal,
            cut(&self.out),
            cut(&self.err)
        )
    }
}

pub struct Run {
    cmd: Command,
    stdin: Vec<u8>,
    fsize: Option<u64>,
    pub text: String,
}

pub fn prog(ctx: &Ctx, bin: &str) -> Run {
    exe(ctx.bins.join(bin), bin)
}

pub fn exe(p: PathBuf, name: &str) -> Run {
    let mut cmd = Command::new(p);
    cmd.env_clear();
    cmd.env("RUST_BACKTRACE", "0").env("PATH", "/usr/bin:/bin").env("LC_ALL", "C");
    cmd.stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped());
    Run { cmd, stdin: vec![], fsize: None, text: name.to_string() }
}

pub fn now_ns() -> u64 {
    use std::sync::OnceLock;
    static T: OnceLock<Instant> = OnceLock::new();
    T.get_or_init(Instant::now).elapsed().as_nanos() as u64
}

impl Run {
    pub fn args<S: AsRef<str>>(mut self, a: &[S]) -> Run {
        for x in a {
            self.cmd.arg(x.as_ref());
            self.text.push(' ');
            let s = x.as_ref();
            if s.is_empty() || s.contains(|c: char| c.is_whitespace() || c == '\'') {
                self.text.push_str(&format!("{:?}", s));
            } else {
                self.text.push_str(s);
            }
        }
        self
    }
    pub fn arg(self, a: &str) -> Run {
        self.args(&[a])
    }
    pub fn at(self, dir: &Path) -> Run {
        let d = dir.to_str().unwrap().to_string();
        self.args(&["-p", &d])
    }
    pub fn cwd(mut self, d: &Path) -> Run {
        self.cmd.current_dir(d);
        self.text.push_str(&format!("   [cwd {}]", d.display()));
        self
    }
    pub fn env(mut self, k: &str, v: &str) -> Run {
        self.cmd.env(k, v);
        self.text = format!("{}={} {}", k, v, self.text);
        self
    }
    pub fn stdin(mut self, b: &[u8]) -> Run {
        self.stdin = b.to_vec();
        self.text.push_str(&format!("   [stdin {:?}]", String::from_utf8_lossy(b)));
        self
    }
    /// no file may grow beyond n bytes (writes past it fail with EFBIG)
    pub fn fsize(mut self, n: u64) -> Run {
        self.fsize = Some(n);
        self.text.push_str(&format!("   [file size limit {}]", n));
        self
    }
    pub fn run(mut self) -> Out {
        let fsize = self.fsize;
        unsafe {
            self.cmd.pre_exec(move || {
                setrlimit(RLIMIT_CPU, &Rlimit { cur: CPU_LIMIT, max: CPU_LIMIT + 10 });
                setrlimit(RLIMIT_CORE, &Rlimit { cur: 0, max: 0 });
                setrlimit(RLIMIT_AS, &Rlimit { cur: 3 << 30, max: 3 << 30 });
                if let Some(n) = fsize {
                    signal(25, 1); // SIGXFSZ ignored: the write reports EFBIG instead
                    setrlimit(RLIMIT_FSIZE, &Rlimit { cur: n, max: n });
                }
                prctl(1, 9, 0, 0, 0); // die with the monitor
                Ok(())
            });
        }
        let t0 = now_ns();
        let mut ch = None;
        for _ in 0..50 {
            match self.cmd.spawn() {
                Ok(c) => {
                    ch = Some(c);
                    break;
                }
                Err(_) => std::thread::sleep(Duration::from_millis(50)),
            }
        }
        let mut ch = match ch {
            Some(c) => c,
            None => crate::ctx::global().harness_error("cannot start a program"),
        };
        if let Some(mut i) = ch.stdin.take() {
            let _ = i.write_all(&self.stdin);
        }
        let mut so = ch.stdout.take().unwrap();
        let mut se = ch.stderr.take().unwrap();
        let reader = std::thread::spawn(move || {
            let mut b = vec![];
            let _ = se.by_ref().take(1 << 20).read_to_end(&mut b);
            // keep draining so that the program is not blocked
            let mut sink = [0u8; 65536];
            while let Ok(n) = se.read(&mut sink) {
                if n == 0 {
                    break;
                }
            }
            b
        });
        let (tx, rx) = std::sync::mpsc::channel::<()>();
        let pid = ch.id() as i32;
        let dog = std::thread::spawn(move || {
            // wall-clock guard; CPU-bound programs are ended by RLIMIT_CPU first
            match rx.recv_timeout(Duration::from_secs(150)) {
                Err(std::sync::mpsc::RecvTimeoutError::Timeout) => {
                    extern "C" {
                        fn kill(p: i32, s: i32) -> i32;
                    }
                    unsafe { kill(pid, 9) };
                    true
                }
                _ => false,
            }
        });
        let mut ob = vec![];
        let _ = so.by_ref().take(64 << 20).read_to_end(&mut ob);
        drop(so);
        let st = ch.wait();
        let t1 = now_ns();
        drop(tx);
        let hung = dog.join().unwrap_or(false);
        let eb = reader.join().unwrap_or_default();
        let st = match st {
            Ok(s) => s,
            Err(_) => crate::ctx::global().harness_error("wait failed"),
        };
        SLOWEST.fetch_max((t1 - t0) / 1_000_000, std::sync::atomic::Ordering::SeqCst);
        Out {
            code: st.code(),
            signal: st.signal(),
            out: String::from_utf8_lossy(&ob).to_string(),
            err: String::from_utf8_lossy(&eb).to_string(),
            hung,
            t0,
            t1,
        }
    }
}

/// Runs a program as part of a case: logged in the replay text; running out of CPU time or of wall
/// time, and dying of a signal, are violations of bounded progress
pub fn go(c: &mut Case, r: Run) -> Out {
    c.add_desc(&format!("$ {}", r.text));
    c.count("processes run", 1);
    let o = r.run();
    let first: String = o.out.chars().take(200).collect();
    c.add_desc(&format!("  -> exit {:?} signal {:?} {}", o.code, o.signal, first.replace('\n', " | ")));
    if o.hung {
        c.fail("the command did not finish within 150 s of wall time and used little CPU (hang)");
    }
    if let Some(s) = o.signal {
        if s == 9 {
            c.ctx.harness_error("a program was killed from outside (out of memory?)");
        }
        if s == 24 {
            c.fail("the command used more than 20 s of CPU time (non-termination)");
        }
        if s == 6 || s == 11 || s == 7 {
            c.fail(&format!("the command died of signal {}\n{}", s, o.brief()));
        }
    }
    o
}

// ---------- scratch directories ----------

/// a directory name with blanks at both ends
pub const BLANKS: &str = " g ü ";

pub struct Dir {
    pub base: PathBuf,
    pub root: PathBuf,
}
impl Dir {
    pub fn new(c: &Case) -> Dir {
        let base = c.ctx.scratch.join(format!("{}-{}-{}", c.fam, c.idx, c.rep));
        let _ = std::fs::remove_dir_all(&base);
        let root = base.join("g");
        if std::fs::create_dir_all(&root).is_err() {
            c.ctx.harness_error("scratch directory");
        }
        // another name of the same directory
        let _ = std::os::unix::fs::symlink(&root, base.join("ln"));
        let _ = std::os::unix::fs::symlink(&root, base.join(BLANKS));
        Dir { base, root }
    }
    pub fn cmdfile(&self) -> PathBuf {
        self.root.join(".graph").join("commands")
    }
    /// writes a command file directly
    pub fn put(&self, content: &[u8]) {
        let _ = std::fs::create_dir_all(self.root.join(".graph"));
        std::fs::write(self.cmdfile(), content).expect("put");
    }
    pub fn s(&self) -> &str {
        self.root.to_str().unwrap()
    }
}
impl Drop for Dir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.base);
    }
}

pub fn lines_of(h: &[Cmd]) -> String {
    let mut s = String::new();
    for c in h {
        s.push_str(&c.line());
        s.push('\n');
    }
    s
}

/// Everything under a directory: path -> kind, mode, bytes
pub fn snapshot(p: &Path) -> BTreeMap<String, String> {
    use std::os::unix::fs::MetadataExt;
    let mut m = BTreeMap::new();
    fn rec(base: &Path, p: &Path, m: &mut BTreeMap<String, String>) {
        let md = match std::fs::symlink_metadata(p) {
            Ok(x) => x,
            Err(_) => return,
        };
        let name = p.strip_prefix(base).unwrap().to_string_lossy().to_string();
        let kind = if md.file_type().is_symlink() {
            format!("link {:?}", std::fs::read_link(p).ok())
        } else if md.is_dir() {
            "dir".to_string()
        } else {
            let b = std::fs::read(p).unwrap_or_default();
            format!("file {} bytes {:016x}", b.len(), crate::util::fnv(&b))
        };
        m.insert(name, format!("{} mode {:o}", kind, md.mode()));
        if md.is_dir() {
            if let Ok(rd) = std::fs::read_dir(p) {
                for e in rd.flatten() {
                    rec(base, &e.path(), m);
                }
            }
        }
    }
    rec(p, p, &mut m);
    m
}

pub fn snap_diff(a: &BTreeMap<String, String>, b: &BTreeMap<String, String>) -> Option<String> {
    for (k, v) in a {
        match b.get(k) {
            None => return Some(format!("'{}' disappeared", k)),
            Some(w) if w != v => return Some(format!("'{}' changed: {} -> {}", k, v, w)),
            _ => {}
        }
    }
    b.keys().find(|k| !a.contains_key(*k)).map(|k| format!("'{}' appeared", k))
}

/// The stored graph as the library reads it
pub fn load(c: &Case, d: &Dir) -> Result<MG, String> {
    let root = d.s().to_string();
    c.guard("graph_utils::load_graph", move || {
        gc_command::graph_utils::load_graph(&root).map(|g| of_real(&g))
    })
}

// ---------- certifiers of printed answers ----------

pub fn nums(s: &str) -> Vec<u64> {
    s.split(|ch: char| !ch.is_ascii_digit()).filter(|x| !x.is_empty()).filter_map(|x| x.parse().ok()).collect()
}

fn field(out: &str, label: &str) -> Option<String> {
    out.lines()
        .find(|l| l.to_lowercase().starts_with(&label.to_lowercase()))
        .map(|l| l[label.len()..].trim_start_matches(':').trim().to_string())
}

pub fn cert_desc(c: &Case, o: &Out, m: &MG) {
    c.check(o.ok(), || format!("gc-desc failed\n{}", o.brief()));
    let want = [
        ("Vertices", m.n().to_string()),
        ("Edges", m.edges.len().to_string()),
        ("Min vertex id", m.verts.iter().next().map(|x| x.to_string()).unwrap_or("-".into())),
        ("Max vertex id", m.verts.iter().last().map(|x| x.to_string()).unwrap_or("-".into())),
    ];
    for (k, v) in want.iter() {
        let got = field(&o.out, k);
        c.check(got.as_deref() == Some(v), || {
            format!("gc-desc reports {} = {:?}, expected {}\n{}", k, got, v, o.brief())
        });
    }
}

pub fn cert_order(c: &Case, order: Option<&[u64]>, m: &MG, who: &str) {
    let ac = m.acyclic();
    match order {
        None => c.check(!ac, || format!("{}: no order for an acyclic graph", who)),
        Some(v) => {
            c.check(ac, || format!("{}: an order {:?} for a graph with a cycle", who, &v[..v.len().min(60)]));
            let mut pos = std::collections::HashMap::new();
            for (i, x) in v.iter().enumerate() {
                c.check(m.verts.contains(x), || format!("{}: {} is not a vertex", who, x));
                c.check(pos.insert(*x, i).is_none(), || format!("{}: {} twice", who, x));
            }
            c.check(v.len() == m.n(), || format!("{}: {} of {} vertices", who, v.len(), m.n()));
            for (a, b) in &m.edges {
                c.check(pos[a] < pos[b], || format!("{}: edge {}->{} goes backwards in {:?}", who, a, b, v));
            }
        }
    }
}

pub fn cert_topo(c: &Case, o: &Out, m: &MG) {
    c.check(o.ok(), || format!("gc-topo-sort failed\n{}", o.brief()));
    if o.out.to_lowercase().contains("not a dag") {
        cert_order(c, None, m, "gc-topo-sort");
    } else {
        c.check(o.out.to_lowercase().contains("topological order"), || {
            format!("gc-topo-sort gave no answer\n{}", o.brief())
        });
        cert_order(c, Some(&nums(&o.out)), m, "gc-topo-sort");
    }
}

/// header cost and vertex lines of the path-printing commands
fn path_answer(o: &Out) -> Option<(i128, Vec<u64>)> {
    let mut it = o.out.lines();
    let mut cost = None;
    while let Some(l) = it.next() {
        if let Some(i) = l.find("total cost of ") {
            let t: String = l[i + 14..].chars().take_while(|x| x.is_ascii_digit() || *x == '-').collect();
            cost = t.parse::<i128>().ok();
            break;
        }
    }
    let cost = cost?;
    let mut p = vec![];
    for l in it {
        let l = l.trim();
        if !l.is_empty() {
            p.push(l.parse::<u64>().ok()?);
        }
    }
    Some((cost, p))
}

fn ends_ok(c: &Case, p: &[u64], s: u64, e: u64, who: &str) {
    c.check(p.first() == Some(&s) && p.last() == Some(&e), || {
        format!("{}: path {:?} does not lead from {} to {}", who, p, s, e)
    });
}

pub fn cert_short(c: &Case, o: &Out, m: &MG, s: u64, e: u64) {
    c.check(o.ok(), || format!("gc-short-path failed\n{}", o.brief()));
    let d = m.reach(s).get(&e).cloned();
    match path_answer(o) {
        None => {
            c.check(o.out.contains("not reachable"), || format!("gc-short-path gave no answer\n{}", o.brief()));
            c.check(d.is_none(), || {
                format!("gc-short-path: not reachable, but there is a path with {} edges\n{}", d.unwrap(), o.brief())
            });
        }
        Some((cost, p)) => {
            c.check(d.is_some(), || format!("gc-short-path: a path to an unreachable vertex\n{}", o.brief()));
            ends_ok(c, &p, s, e, "gc-short-path");
            for x in p.windows(2) {
                c.check(m.edges.contains(&(x[0], x[1])), || {
                    format!("gc-short-path uses the missing edge {}->{}", x[0], x[1])
                });
            }
            c.check(p.len() as i128 - 1 == cost, || format!("gc-short-path: cost {} printed for {:?}", cost, p));
            c.check(cost == d.unwrap() as i128, || {
                format!("gc-short-path: {} edges, but {} are enough", cost, d.unwrap())
            });
        }
    }
}

pub fn unit(m: &MG) -> W {
    m.edges.iter().map(|e| (*e, 1)).collect()
}

/// best = cheapest cost satisfying the constraints (None: there is no such path)
pub fn cert_csp(c: &Case, o: &Out, m: &MG, s: u64, e: u64, ks: &[K], best: Option<i128>) {
    c.check(o.ok(), || format!("gc-csp failed\n{}", o.brief()));
    match path_answer(o) {
        None => {
            c.check(o.out.contains("not reachable"), || format!("gc-csp gave no answer\n{}", o.brief()));
            c.check(best.is_none(), || {
                format!("gc-csp: no path, but there is one of cost {}\n{}", best.unwrap(), o.brief())
            });
        }
        Some((cost, p)) => {
            ends_ok(c, &p, s, e, "gc-csp");
            let w = unit(m);
            let real = walk_cost(m, &w, &p);
            c.check(real.is_some(), || format!("gc-csp: {:?} uses a missing edge", p));
            c.check(real == Some(cost), || format!("gc-csp: cost {} printed for {:?}", cost, p));
            for k in ks {
                c.check(k.holds(&p, cost), || format!("gc-csp: {:?} breaks constraint {:?}\n{}", p, k, o.brief()));
            }
            c.check(best == Some(cost), || format!("gc-csp: cost {}, but the cheapest is {:?}", cost, best));
        }
    }
}

pub fn cycle_lines(out: &str) -> Vec<Vec<u64>> {
    out.lines().filter(|l| l.trim_start().starts_with('[')).map(nums).collect()
}

/// the canonical vertex list of a printed cycle ("[1, 2]"), None for N/A
pub fn cycle_of(s: &str) -> Option<Vec<u64>> {
    let i = s.find('[')?;
    Some(nums(&s[i..]))
}

pub fn canon(v: &[u64]) -> Vec<u64> {
    let mut w = v.to_vec();
    if let Some((i, _)) = v.iter().enumerate().min_by_key(|x| x.1) {
        w.rotate_left(i);
    }
    w
}

pub fn as_set(v: &[Vec<u64>]) -> BTreeSet<Vec<u64>> {
    v.iter().cloned().collect()
}
