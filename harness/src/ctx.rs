//! Execution context of a check: workload scheduling, observation counters, verdicts.
//!
//! Verdicts are three-valued: a violation (exit 1), held on everything observed (exit 0),
//! inconclusive (exit 2: a monitor observed nothing, or the harness itself failed).
use crate::util::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

// ---------- bounded-progress monitors: CPU time and memory per case ----------

pub const SLOTS: usize = 8;
/// CPU seconds one case (normally far below one second) may burn before it counts as "no progress"
pub const CPU_BUDGET: f64 = 40.0;
/// bytes one case may keep allocated
pub const MEM_BUDGET: i64 = 2_500_000_000;

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static ARMED: Cell<bool> = const { Cell::new(false) };
    static SLOT: Cell<usize> = const { Cell::new(usize::MAX) };
}

pub struct Counting;
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        note(l.size() as i64);
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l);
        note(-(l.size() as i64));
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let q = System.realloc(p, l, n);
        note(n as i64 - l.size() as i64);
        q
    }
}

fn note(d: i64) {
    let over = LIVE
        .try_with(|c| {
            let v = c.get() + d;
            c.set(v);
            d > 0 && v > MEM_BUDGET && ARMED.with(|a| a.get())
        })
        .unwrap_or(false);
    if over {
        let _ = ARMED.try_with(|a| a.set(false));
        global().fail_slot(
            SLOT.with(|s| s.get()),
            "bounded progress: one case kept more than 2.5 GB allocated (runaway computation)",
        );
    }
}

#[repr(C)]
struct Timespec {
    sec: i64,
    nsec: i64,
}
extern "C" {
    fn pthread_self() -> usize;
    fn pthread_getcpuclockid(t: usize, c: *mut i32) -> i32;
    fn clock_gettime(c: i32, t: *mut Timespec) -> i32;
}
fn cpu_of(clock: i32) -> f64 {
    let mut t = Timespec { sec: 0, nsec: 0 };
    unsafe { clock_gettime(clock, &mut t) };
    t.sec as f64 + t.nsec as f64 / 1e9
}

struct Slot {
    text: Mutex<String>,
    beat: AtomicU64, // even: idle, odd: in a case
    clock: AtomicU64,
}

// ---------- statistics ----------

#[derive(Default)]
pub struct Stats {
    pub evals: u64,
    pub distinct: HashSet<u64>,
    pub counters: BTreeMap<String, u64>,
    pub samples: Vec<String>,
}
impl Stats {
    fn merge(&mut self, o: Stats) {
        self.evals += o.evals;
        self.distinct.extend(o.distinct);
        for (k, v) in o.counters {
            if k.starts_with("max ") {
                let e = self.counters.entry(k).or_insert(0);
                *e = (*e).max(v);
            } else {
                *self.counters.entry(k).or_insert(0) += v;
            }
        }
        for s in o.samples {
            if self.samples.len() < 12 {
                self.samples.push(s);
            }
        }
    }
}

pub struct Ctx {
    pub prop: String,
    pub thorough: bool,
    pub seed: u64,
    pub start: Instant,
    pub bins: PathBuf,
    pub shim: PathBuf,
    pub evidence_dir: PathBuf,
    pub findings: Vec<String>,
    pub scratch: PathBuf,
    pub final_evidence: PathBuf,
    pub only: Option<(String, u64)>,
    pub rule: Mutex<String>,
    pub level: Mutex<String>,
    pub assumptions: Mutex<Vec<String>>,
    stats: Mutex<Stats>,
    required: Mutex<Vec<String>>,
    exhaustive: AtomicBool,
    slots: Vec<Slot>,
    failing: AtomicBool,
    threads: usize,
}

static mut GLOBAL: Option<&'static Ctx> = None;
#[allow(static_mut_refs)]
pub fn global() -> &'static Ctx {
    unsafe { GLOBAL.expect("context not set") }
}

impl Ctx {
    pub fn new(
        prop: &str,
        thorough: bool,
        seed: u64,
        bins: PathBuf,
        shim: PathBuf,
        evidence_dir: PathBuf,
        findings: Vec<String>,
        only: Option<(String, u64)>,
        scratch: PathBuf,
        final_evidence: PathBuf,
    ) -> &'static Ctx {
        let ctx: &'static Ctx = Box::leak(Box::new(Ctx {
            prop: prop.to_string(),
            thorough,
            seed,
            start: Instant::now(),
            bins,
            shim,
            evidence_dir,
            findings,
            scratch,
            final_evidence,
            only,
            rule: Mutex::new(String::new()),
            level: Mutex::new("exploration".into()),
            assumptions: Mutex::new(vec![]),
            stats: Mutex::new(Stats::default()),
            required: Mutex::new(vec![]),
            exhaustive: AtomicBool::new(false),
            slots: (0..SLOTS)
                .map(|_| Slot {
                    text: Mutex::new(String::new()),
                    beat: AtomicU64::new(0),
                    clock: AtomicU64::new(0),
                })
                .collect(),
            failing: AtomicBool::new(false),
            threads: SLOTS,
        }));
        unsafe { GLOBAL = Some(ctx) };
        // a panic is judged by whoever catches it; keep stderr readable
        std::panic::set_hook(Box::new(|info| {
            let m = format!("{}", info);
            PANIC.with(|p| *p.borrow_mut() = m);
        }));
        std::thread::spawn(move || watchdog(ctx));
        ctx
    }

    pub fn scale(&self, quick: u64, thorough: u64) -> u64 {
        if self.thorough {
            // chosen so that every check runs for some minutes
            let k = match &self.prop[..] {
                "C24" => 200,
                "C11" => 100,
                "C10" | "C13" | "C21" => 50,
                "C19" | "C22" => 20,
                "C03" | "C05" => 20,
                "C04" | "C06" | "C12" | "C18" => 10,
                "C01" | "C02" | "C20" => 8,
                "C07" => 8,
                "C08" => 4,
                "C09" | "C17" | "C23" => 2,
                _ => 1,
            };
            return thorough * k;
        }
        // what the cheap checks can afford in a few seconds more
        let k = match &self.prop[..] {
            "C03" | "C10" | "C11" | "C13" | "C21" | "C24" => 10,
            "C01" | "C02" | "C04" | "C05" | "C06" | "C12" | "C20" => 6,
            "C07" | "C18" | "C19" => 4,
            "C08" | "C22" => 3,
            "C09" | "C15" => 2,
            _ => 1,
        };
        (quick * k).min(thorough)
    }

    pub fn rule(&self, s: &str) {
        *self.rule.lock().unwrap() = s.to_string();
    }
    pub fn assume(&self, s: &str) {
        self.assumptions.lock().unwrap().push(s.to_string());
    }
    /// A counter that must be non-zero at the end, else the run is inconclusive
    pub fn require(&self, names: &[&str]) {
        for n in names {
            self.required.lock().unwrap().push(n.to_string());
        }
    }

    /// Counters that the evidence shows even when nothing was counted: whether there is something
    /// to count is up to the code (a command may wait for the lock instead of failing)
    pub fn shown(&self, names: &[&str]) {
        let mut s = self.stats.lock().unwrap();
        for n in names {
            s.counters.entry(n.to_string()).or_insert(0);
        }
    }

    /// Runs `n` independent cases of a workload family on all cores
    pub fn par<F: Fn(&mut Case) + Sync>(&'static self, fam: &str, n: u64, f: F) {
        self.par_n(fam, n, self.threads, f)
    }

    pub fn par_n<F: Fn(&mut Case) + Sync>(&'static self, fam: &str, n: u64, threads: usize, f: F) {
        let mut lo = 0;
        let mut n = n;
        let mut repeat = 1u64;
        if let Some((of, oi)) = &self.only {
            if of != fam {
                return;
            }
            lo = *oi;
            n = *oi + 1;
            repeat = 200; // hash iteration orders differ from run to run: try many
        }
        let cap = Duration::from_secs(if self.thorough { 420 } else { 60 });
        let t0 = Instant::now();
        let next = AtomicU64::new(lo);
        let done = AtomicU64::new(0);
        let fref = &f;
        std::thread::scope(|sc| {
            for t in 0..threads {
                let next = &next;
                let done = &done;
                let fam = fam.to_string();
                std::thread::Builder::new()
                    .stack_size(8 << 20)
                    .spawn_scoped(sc, move || {
                        SLOT.with(|s| s.set(t));
                        let mut c: i32 = 0;
                        unsafe { pthread_getcpuclockid(pthread_self(), &mut c) };
                        self.slots[t].clock.store(c as u32 as u64, Ordering::SeqCst);
                        let mut st = Stats::default();
                        loop {
                            if t0.elapsed() > cap {
                                break;
                            }
                            let idx = next.fetch_add(1, Ordering::SeqCst);
                            if idx >= n {
                                break;
                            }
                            for rep in 0..repeat {
                                let mut case = Case {
                                    ctx: self,
                                    fam: &fam,
                                    idx,
                                    rep,
                                    rng: Rng::new(self.seed, fnv(fam.as_bytes()), idx),
                                    st: &mut st,
                                    slot: t,
                                };
                                case.desc(String::new());
                                LIVE.with(|l| l.set(0));
                                ARMED.with(|a| a.set(true));
                                self.slots[t].beat.fetch_add(1, Ordering::SeqCst);
                                let cpu0 = cpu_of(c);
                                let r = catch_unwind(AssertUnwindSafe(|| fref(&mut case)));
                                case.max("CPU ms of a case", ((cpu_of(c) - cpu0) * 1000.0) as u64);
                                self.slots[t].beat.fetch_add(1, Ordering::SeqCst);
                                ARMED.with(|a| a.set(false));
                                if r.is_err() {
                                    // not inside a guard: the harness itself is wrong
                                    let m = PANIC.with(|p| p.borrow().clone());
                                    self.harness_error(&format!(
                                        "harness panic in family {} case {}: {}",
                                        fam, idx, m
                                    ));
                                }
                                st.evals += 1;
                            }
                            done.fetch_add(1, Ordering::SeqCst);
                        }
                        self.stats.lock().unwrap().merge(st);
                        self.slots[t].clock.store(0, Ordering::SeqCst);
                    })
                    .expect("spawn");
            }
        });
        let d = done.load(Ordering::SeqCst);
        let mut s = self.stats.lock().unwrap();
        *s.counters.entry(format!("cases {}", fam)).or_insert(0) += d;
        if d < n - lo {
            *s.counters.entry(format!("cases-not-run {}", fam)).or_insert(0) += n - lo - d;
        }
    }

    pub fn set_exhaustive_note(&self, name: &str) {
        self.exhaustive.store(true, Ordering::SeqCst);
        let mut s = self.stats.lock().unwrap();
        s.counters.insert(format!("exhaustive family: {}", name), 1);
    }

    pub fn harness_error(&self, msg: &str) -> ! {
        if self.failing.swap(true, Ordering::SeqCst) {
            loop {
                std::thread::sleep(Duration::from_secs(1));
            }
        }
        eprintln!("INCONCLUSIVE property={} {}", self.prop, msg);
        std::process::exit(2)
    }

    fn fail_slot(&self, slot: usize, msg: &str) -> ! {
        let text = if slot < self.slots.len() {
            self.slots[slot].text.lock().map(|t| t.clone()).unwrap_or_default()
        } else {
            String::new()
        };
        self.report(msg, &text)
    }

    fn report(&self, msg: &str, text: &str) -> ! {
        if self.failing.swap(true, Ordering::SeqCst) {
            loop {
                std::thread::sleep(Duration::from_secs(1));
            }
        }
        let path = self.evidence_dir.join(format!("replay-{}.txt", self.prop));
        let body = format!(
            "property: {}\nseed: {}\ntier: {}\nwhat happened: {}\ncase:\n{}\n",
            self.prop,
            self.seed,
            if self.thorough { "thorough" } else { "quick" },
            msg,
            text
        );
        let _ = std::fs::create_dir_all(&self.evidence_dir);
        let _ = std::fs::write(&path, &body);
        println!("{}", body.trim_end());
        println!(
            "VIOLATION property={} replay={}",
            self.prop,
            self.final_evidence.join(format!("replay-{}.txt", self.prop)).display()
        );
        self.write_evidence(1);
        std::process::exit(1)
    }

    pub fn known(&self, key: &str, what: &str) {
        println!("KNOWN-FINDING: property={} {}: {}", self.prop, key, what);
    }

    pub fn write_evidence(&self, violations: u64) {
        let s = match self.stats.lock() {
            Ok(s) => s,
            Err(e) => e.into_inner(),
        };
        let mut o = String::from("{\n");
        o.push_str(&format!(" \"property\": {},\n", jstr(&self.prop)));
        o.push_str(&format!(
            " \"tier\": \"{}\",\n \"seed\": {},\n \"level\": {},\n",
            if self.thorough { "thorough" } else { "quick" },
            self.seed,
            jstr(&self.level.lock().unwrap())
        ));
        o.push_str(" \"coverage\": {\n");
        o.push_str(&format!("  \"evaluations\": {},\n", s.evals));
        o.push_str(&format!("  \"distinct_nontrivial\": {},\n", s.distinct.len()));
        o.push_str(&format!("  \"rule\": {},\n", jstr(&self.rule.lock().unwrap())));
        o.push_str("  \"observed\": {");
        let items: Vec<String> = s
            .counters
            .iter()
            .map(|(k, v)| format!("\n   {}: {}", jstr(k), v))
            .collect();
        o.push_str(&items.join(","));
        o.push_str("\n  },\n  \"samples\": [");
        let sm: Vec<String> = s.samples.iter().map(|x| format!("\n   {}", jstr(x))).collect();
        o.push_str(&sm.join(","));
        o.push_str("\n  ]\n },\n");
        let a: Vec<String> = self.assumptions.lock().unwrap().iter().map(|x| jstr(x)).collect();
        o.push_str(&format!(" \"assumptions\": [{}],\n", a.join(", ")));
        o.push_str(&format!(
            " \"wall_s\": {:.3},\n \"violations\": {}\n}}\n",
            self.start.elapsed().as_secs_f64(),
            violations
        ));
        let _ = std::fs::create_dir_all(&self.evidence_dir);
        let p = self.evidence_dir.join(format!("{}.json", self.prop));
        if let Err(e) = std::fs::write(&p, o) {
            eprintln!("cannot write {}: {}", p.display(), e);
        }
    }

    /// End of a run without violation
    pub fn finish(&self) -> ! {
        if self.only.is_some() {
            println!("replay: no violation");
            std::process::exit(0);
        }
        let missing: Vec<String> = {
            let mut s = self.stats.lock().unwrap();
            let slow = crate::cli::SLOWEST.load(Ordering::SeqCst);
            if slow > 0 {
                s.counters.insert("max wall-clock ms of a program run".into(), slow);
            }
            self.required
                .lock()
                .unwrap()
                .iter()
                .filter(|n| s.counters.get(*n).cloned().unwrap_or(0) == 0)
                .cloned()
                .collect()
        };
        let (ev, dn) = {
            let s = self.stats.lock().unwrap();
            (s.evals, s.distinct.len())
        };
        if !missing.is_empty() || ev == 0 || dn == 0 {
            eprintln!(
                "INCONCLUSIVE property={} observed nothing for: {:?} (evaluations {}, distinct {})",
                self.prop, missing, ev, dn
            );
            std::process::exit(2);
        }
        self.write_evidence(0);
        println!(
            "HELD property={} tier={} seed={} evaluations={} distinct={} wall={:.1}s",
            self.prop,
            if self.thorough { "thorough" } else { "quick" },
            self.seed,
            ev,
            dn,
            self.start.elapsed().as_secs_f64()
        );
        std::process::exit(0)
    }
}

fn watchdog(ctx: &'static Ctx) {
    let mut seen: Vec<(u64, f64)> = vec![(0, 0.0); SLOTS];
    loop {
        std::thread::sleep(Duration::from_millis(250));
        for (i, s) in ctx.slots.iter().enumerate() {
            let c = s.clock.load(Ordering::SeqCst);
            let b = s.beat.load(Ordering::SeqCst);
            if c == 0 || b % 2 == 0 {
                seen[i] = (b, -1.0);
                continue;
            }
            let cpu = cpu_of(c as u32 as i32);
            if seen[i].0 != b || seen[i].1 < 0.0 {
                seen[i] = (b, cpu);
            } else if cpu - seen[i].1 > CPU_BUDGET {
                ctx.fail_slot(
                    i,
                    "bounded progress: one case used more than 40 s of CPU time without finishing (non-terminating computation)",
                );
            }
        }
    }
}

thread_local! {
    static PANIC: std::cell::RefCell<String> = std::cell::RefCell::new(String::new());
}

pub struct Case<'a> {
    pub ctx: &'static Ctx,
    pub fam: &'a str,
    pub idx: u64,
    pub rep: u64,
    pub rng: Rng,
    pub st: &'a mut Stats,
    slot: usize,
}

impl<'a> Case<'a> {
    /// Describes the input of the current case (shown in the replay file)
    pub fn desc(&self, s: String) {
        let head = format!(
            "family={} case={} (replay: VERIF_SEED={} /verif/check.sh {} {} --only {}:{})\n",
            self.fam,
            self.idx,
            self.ctx.seed,
            self.ctx.prop,
            if self.ctx.thorough { "thorough" } else { "quick" },
            self.fam,
            self.idx
        );
        *self.ctx.slots[self.slot].text.lock().unwrap() = head + &s;
    }
    pub fn add_desc(&self, s: &str) {
        let mut t = self.ctx.slots[self.slot].text.lock().unwrap();
        t.push('\n');
        t.push_str(s);
    }
    pub fn fail(&self, msg: &str) -> ! {
        self.ctx.fail_slot(self.slot, msg)
    }
    pub fn check(&self, ok: bool, msg: impl FnOnce() -> String) {
        if !ok {
            self.fail(&msg())
        }
    }
    /// Runs code under test; a panic in it is a violation
    pub fn guard<R>(&self, what: &str, f: impl FnOnce() -> R) -> R {
        match catch_unwind(AssertUnwindSafe(f)) {
            Ok(r) => r,
            Err(_) => {
                let m = PANIC.with(|p| p.borrow().clone());
                self.fail(&format!("panic in {}: {}", what, m))
            }
        }
    }
    pub fn count(&mut self, name: &str, n: u64) {
        match self.st.counters.get_mut(name) {
            Some(v) => *v += n,
            None => {
                self.st.counters.insert(name.to_string(), n);
            }
        }
    }
    pub fn max(&mut self, name: &str, n: u64) {
        let k = format!("max {}", name);
        let e = self.st.counters.entry(k).or_insert(0);
        *e = (*e).max(n);
    }
    pub fn distinct(&mut self, h: u64) {
        self.st.distinct.insert(h);
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.st.samples.len() < 2 {
            let mut s = f();
            if s.len() > 400 {
                let mut k = 400;
                while !s.is_char_boundary(k) {
                    k -= 1;
                }
                s.truncate(k);
                s.push_str(" ...");
            }
            self.st.samples.push(s);
        }
    }
}
