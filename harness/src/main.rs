//! Runtime monitors for graph-commands.
//!
//! `monitor run ...` is started by check.sh. It copies itself, the freshly built gc-* binaries and
//! the fault-injection shim into a scratch directory and re-starts itself there as an unprivileged
//! user, so that nothing the code under test does can reach anything outside that directory.
mod checks;
mod cli;
mod cons;
mod ctx;
mod fmtspec;
mod gen;
mod libop;
mod model;
mod oracle;
mod util;

use std::os::unix::fs::PermissionsExt;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::time::{Duration, Instant};

#[global_allocator]
static A: ctx::Counting = ctx::Counting;

pub const NOBODY: u32 = 65534;

extern "C" {
    fn chown(p: *const std::os::raw::c_char, u: u32, g: u32) -> i32;
    fn geteuid() -> u32;
    fn kill(pid: i32, sig: i32) -> i32;
    fn setsid() -> i32;
}

fn own(p: &Path) {
    use std::os::unix::ffi::OsStrExt;
    let c = std::ffi::CString::new(p.as_os_str().as_bytes()).unwrap();
    unsafe { chown(c.as_ptr(), NOBODY, NOBODY) };
}

fn opt(args: &[String], name: &str) -> Option<String> {
    args.iter().position(|a| a == name).and_then(|i| args.get(i + 1).cloned())
}

fn inconclusive(msg: &str) -> ! {
    eprintln!("INCONCLUSIVE {}", msg);
    std::process::exit(2)
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    match args.get(1).map(|s| s.as_str()) {
        Some("run") => parent(&args),
        Some("child") => child(&args),
        Some("libop") => libop::main(&args[2..]),
        _ => inconclusive("usage: monitor run <ID> <quick|thorough> --bins D --shim F --evidence D --findings F"),
    }
}

fn parent(args: &[String]) -> ! {
    let prop = args[2].clone();
    let tier = args[3].clone();
    let bins = PathBuf::from(opt(args, "--bins").unwrap_or_else(|| inconclusive("--bins")));
    let shim = PathBuf::from(opt(args, "--shim").unwrap_or_else(|| inconclusive("--shim")));
    let evidence = PathBuf::from(opt(args, "--evidence").unwrap_or_else(|| inconclusive("--evidence")));
    let findings = opt(args, "--findings").unwrap_or_default();
    let me = std::env::current_exe().unwrap_or_else(|_| inconclusive("current_exe"));
    let root = unsafe { geteuid() } == 0;

    // a scratch base from which programs can be executed
    let mut scratch = None;
    for base in ["/dev/shm", "/tmp", "/var/tmp"].iter() {
        let s = PathBuf::from(base).join(format!("verif-{}-{}", prop, std::process::id()));
        if std::fs::create_dir(&s).is_err() {
            continue;
        }
        let ok = std::fs::copy(&me, s.join("monitor")).is_ok()
            && std::process::Command::new(s.join("monitor"))
                .stderr(std::process::Stdio::null())
                .status()
                .map(|x| x.code() == Some(2))
                .unwrap_or(false);
        if ok {
            scratch = Some(s);
            break;
        }
        let _ = std::fs::remove_dir_all(&s);
    }
    let scratch = scratch.unwrap_or_else(|| inconclusive("no scratch directory programs can run from"));
    let bin2 = scratch.join("bin");
    let ev2 = scratch.join("evidence");
    let work = scratch.join("work");
    for d in [&bin2, &ev2, &work].iter() {
        std::fs::create_dir(d).unwrap_or_else(|_| inconclusive("scratch"));
        let _ = std::fs::set_permissions(d, std::fs::Permissions::from_mode(0o755));
    }
    let _ = std::fs::set_permissions(&scratch, std::fs::Permissions::from_mode(0o755));
    own(&ev2);
    own(&work);
    for b in cli::BINS.iter() {
        let to = bin2.join(b);
        if std::fs::copy(bins.join(b), &to).is_err() {
            let _ = std::fs::remove_dir_all(&scratch);
            inconclusive(&format!("missing binary {}", b));
        }
        let _ = std::fs::set_permissions(&to, std::fs::Permissions::from_mode(0o755));
    }
    let shim2 = scratch.join("shim.so");
    if std::fs::copy(&shim, &shim2).is_err() {
        inconclusive("missing shim");
    }
    let _ = std::fs::set_permissions(&shim2, std::fs::Permissions::from_mode(0o755));
    let find2 = scratch.join("findings");
    let _ = std::fs::copy(&findings, &find2);
    let _ = std::fs::create_dir_all(&evidence);
    for f in [format!("{}.json", prop), format!("replay-{}.txt", prop)].iter() {
        let _ = std::fs::remove_file(evidence.join(f));
    }

    let mut cmd = std::process::Command::new(scratch.join("monitor"));
    cmd.arg("child").arg(&prop).arg(&tier);
    cmd.arg("--scratch").arg(&scratch).arg("--final").arg(&evidence);
    if let Some(o) = opt(args, "--only") {
        cmd.arg("--only").arg(o);
    }
    cmd.current_dir(&work);
    cmd.env("RUST_BACKTRACE", "0").env("TMPDIR", &work).env("HOME", &work);
    if root {
        cmd.uid(NOBODY).gid(NOBODY);
        unsafe {
            cmd.pre_exec(|| {
                setsid();
                Ok(())
            });
        }
    }
    let mut ch = match cmd.spawn() {
        Ok(c) => c,
        Err(e) => {
            let _ = std::fs::remove_dir_all(&scratch);
            inconclusive(&format!("cannot start as unprivileged user: {}", e))
        }
    };
    let pid = ch.id() as i32;
    let limit = Duration::from_secs(if tier == "thorough" { 4 * 3600 } else { 840 });
    let t0 = Instant::now();
    let status = loop {
        match ch.try_wait() {
            Ok(Some(s)) => break s,
            Ok(None) => {
                if t0.elapsed() > limit {
                    unsafe { kill(-pid, 9) };
                    let _ = ch.wait();
                    let _ = std::fs::remove_dir_all(&scratch);
                    inconclusive("time limit of the whole check");
                }
                std::thread::sleep(Duration::from_millis(20));
            }
            Err(_) => inconclusive("wait"),
        }
    };
    if root {
        unsafe { kill(-pid, 9) };
    }
    for f in [format!("{}.json", prop), format!("replay-{}.txt", prop)].iter() {
        let _ = std::fs::copy(ev2.join(f), evidence.join(f));
    }
    let mut rc = status.code().unwrap_or(2);
    if let Some(sig) = status.signal() {
        // SEGV, ABRT, BUS, ILL, FPE: the code under test brought the process down
        if [4, 6, 7, 8, 11].contains(&sig) {
            let p = evidence.join(format!("replay-{}.txt", prop));
            let msg = format!(
                "property: {}\nwhat happened: the process running the code under test died of signal {} \
                 (stack overflow or abort)\nrerun: VERIF_SEED={} /verif/check.sh {} {}\n",
                prop,
                sig,
                std::env::var("VERIF_SEED").unwrap_or_default(),
                prop,
                tier
            );
            let _ = std::fs::write(&p, &msg);
            println!("{}", msg);
            println!("VIOLATION property={} replay={}", prop, p.display());
            rc = 1;
        } else {
            eprintln!("INCONCLUSIVE property={} monitor ended by signal {}", prop, sig);
        }
    }
    let _ = std::fs::remove_dir_all(&scratch);
    std::process::exit(if rc == 0 || rc == 1 { rc } else { 2 })
}

fn child(args: &[String]) -> ! {
    let prop = &args[2];
    let thorough = args[3] == "thorough";
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let scratch = PathBuf::from(opt(args, "--scratch").unwrap());
    let only = opt(args, "--only").map(|o| {
        let i = o.rfind(':').expect("--only family:index");
        (o[..i].to_string(), o[i + 1..].parse().expect("index"))
    });
    let findings: Vec<String> = std::fs::read_to_string(scratch.join("findings"))
        .unwrap_or_default()
        .lines()
        .map(|l| l.trim().to_string())
        .filter(|l| l.starts_with("finding:"))
        .collect();
    let c = ctx::Ctx::new(
        prop,
        thorough,
        seed,
        scratch.join("bin"),
        scratch.join("shim.so"),
        scratch.join("evidence"),
        findings,
        only,
        scratch.join("work"),
        PathBuf::from(opt(args, "--final").unwrap()),
    );
    checks::dispatch(c);
    c.finish()
}
