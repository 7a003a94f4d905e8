//! C02 round trips, C03 reading
use crate::cli::{lines_of, Dir};
use crate::ctx::{Case, Ctx};
use crate::fmtspec::{self, L};
use crate::gen;
use crate::model::*;
use crate::util::*;
use gc_core::format::{gcmd, tgf};
use gc_core::graph_command::GraphCommand;
use std::fs::File;
use std::path::Path;

fn open(c: &Case, p: &Path) -> File {
    match File::open(p) {
        Ok(f) => f,
        Err(e) => c.fail(&format!("cannot open {}: {}", p.display(), e)),
    }
}

fn show(b: &[u8]) -> String {
    let s = String::from_utf8_lossy(b);
    let t: String = s.chars().take(3000).collect();
    format!("{:?}{}", t, if t.len() < s.len() { " ..." } else { "" })
}

/// old content in many layouts; returns bytes and the commands they spell
pub fn layout(r: &mut Rng, cmds: &[Cmd]) -> Vec<u8> {
    let mut b = vec![];
    let crlf = r.chance(1, 8);
    for c in cmds {
        if r.chance(1, 8) {
            b.extend_from_slice(b"# a comment\n");
        }
        if r.chance(1, 10) {
            b.extend_from_slice(b"\n");
        }
        if r.chance(1, 20) {
            b.extend_from_slice(b"  \t# indented comment AddVertex 5\n");
        }
        b.extend_from_slice(c.line().as_bytes());
        b.extend_from_slice(if crlf { b"\r\n" } else { b"\n" });
    }
    match r.below(6) {
        0 => b.extend_from_slice(b"\n\n"),
        1 => b.extend_from_slice(b"# last line\n"),
        2 => {
            b.extend_from_slice(b"# unfinished last line");
            b.extend_from_slice(*r.pick(&[&b""[..], b"", b"\r", b" ", b"\t", b"\\", b" AddVertex", b"\0", "\u{2028}".as_bytes(), b"#", b"\x0b"]));
        }
        3 | 4 => {
            if b.last() == Some(&b'\n') {
                b.pop();
                if b.last() == Some(&b'\r') {
                    b.pop();
                }
            }
        }
        _ => {}
    }
    b
}

fn random_cmds(r: &mut Rng, n: usize) -> Vec<Cmd> {
    let k = gen::size(r, 30).max(1);
    let vs = gen::labels(r, k);
    (0..n)
        .map(|_| {
            let (a, b) = (*r.pick(&vs), *r.pick(&vs));
            match r.below(6) {
                0 => Cmd::AV(a),
                1 => Cmd::RV(a),
                2 => Cmd::RE(a, b),
                _ => Cmd::AE(a, b),
            }
        })
        .collect()
}

fn read_g(c: &Case, p: &Path, what: &str) -> (Vec<Cmd>, MG) {
    let f1 = open(c, p);
    let f2 = open(c, p);
    let cmds = match c.guard("gcmd::read_as_commands", || gcmd::read_as_commands(f1)) {
        Ok(x) => x.iter().map(Cmd::from_real).collect(),
        Err(e) => c.fail(&format!("{}: the file does not read back: {}", what, e)),
    };
    let g = match c.guard("gcmd::read", || gcmd::read(f2)) {
        Ok(x) => x,
        Err(e) => c.fail(&format!("{}: the file does not read back: {}", what, e)),
    };
    (cmds, of_real(&g))
}

fn same(c: &Case, got: &MG, want: &MG, what: &str) {
    if got != want {
        let lost: Vec<_> = want.edges.difference(&got.edges).take(5).collect();
        let extra: Vec<_> = got.edges.difference(&want.edges).take(5).collect();
        let lv: Vec<_> = want.verts.difference(&got.verts).take(5).collect();
        let ev: Vec<_> = got.verts.difference(&want.verts).take(5).collect();
        c.fail(&format!(
            "{}: lost vertices {:?}, lost edges {:?}, new vertices {:?}, new edges {:?}",
            what, lv, lost, ev, extra
        ));
    }
}

/// a graph whose saved form has as many bytes as that of `m`
fn twin(r: &mut Rng, m: &MG) -> MG {
    let mut t = MG::new();
    let vs = m.vlist();
    let swap = if vs.is_empty() || r.chance(1, 2) {
        None
    } else {
        let a = *r.pick(&vs);
        let b = if a % 10 == 9 { a - 1 } else { a.saturating_add(1) };
        if m.verts.contains(&b) || a.to_string().len() != b.to_string().len() { None } else { Some((a, b)) }
    };
    let to = |v: u64| match swap {
        Some((a, b)) if v == a => b,
        _ => v,
    };
    for v in &m.verts {
        t.add_v(to(*v));
    }
    for (a, b) in &m.edges {
        if swap.is_some() {
            t.add_e(to(*a), to(*b));
        } else {
            t.add_e(*b, *a);
        }
    }
    t
}

pub fn c02(ctx: &'static Ctx) {
    ctx.rule(
        "graphs of many shapes, id ranges and sizes saved in both formats (into new files and over longer old \
         ones) and read back by the code and by an independent parser; command lists appended to files in many \
         layouts; distinct = distinct graphs and append scenarios by content",
    );
    ctx.require(&["gcmd round trips", "tgf round trips", "appends", "overwrites", "overwrites of the same length", "appends without final newline"]);
    ctx.par("roundtrip", ctx.scale(2500, 40000), |c| {
        let mut r = c.rng.clone();
        let n = if c.idx % 50 == 49 { r.us(300, 1200) } else { gen::size(&mut r, 140) };
        let m = if c.idx % 1000 == 7 {
            // tens of thousands of lines
            let n = *r.pick(&[9000usize, 20000, 33000]);
            let k = *r.pick(&[0usize, 500, 40000]);
            let e = gen::random_edges(&mut r, n, k);
            gen::relabel(&mut r, n, &e)
        } else {
            gen::graph(&mut r, n)
        };
        c.desc(m.show());
        let g = m.build(&mut r);
        let d = Dir::new(c);
        let name = *r.pick(&["commands", "a b", "x.gcmd", "gräph", "commands.tmp", ".hidden", "-p", " lead", "trail ", "\ttab\t"]);
        let p = d.root.join(name);
        let old = r.chance(1, 2);
        if old {
            let junk_cmds = random_cmds(&mut r, 400);
            std::fs::write(&p, lines_of(&junk_cmds)).unwrap();
            c.count("overwrites", 1);
        }
        let ps = p.to_str().unwrap().to_string();
        if let Err(e) = c.guard("gcmd::save", || gcmd::save(&g, &ps)) {
            c.fail(&format!("gcmd::save reported {}", e));
        }
        let (_, back) = read_g(c, &p, "gcmd::save");
        same(c, &back, &m, "gcmd::save then gcmd::read");
        let bytes = std::fs::read(&p).unwrap();
        match fmtspec::parse_strict(&bytes, fmtspec::gcmd) {
            Ok(cs) => same(c, &MG::of(&cs), &m, "gcmd::save then an independent reader"),
            Err(l) => c.fail(&format!("gcmd::save wrote a malformed line {}: {}", l, show(&bytes))),
        }
        c.count("gcmd round trips", 1);
        // the graph itself is not changed by saving
        same(c, &of_real(&g), &m, "the graph in memory after saving");
        // TGF
        let q = d.root.join(*r.pick(&["t.tgf", "t", " t.tgf", "t.tgf ", "commands.tgf"]));
        if old {
            std::fs::write(&q, "1 2\n3 4\n".repeat(3000)).unwrap();
        }
        let qs = q.to_str().unwrap().to_string();
        if let Err(e) = c.guard("tgf::save", || tgf::save(&g, qs)) {
            c.fail(&format!("tgf::save reported {}", e));
        }
        let f = open(c, &q);
        match c.guard("tgf::read", || tgf::read(f)) {
            Ok(x) => same(c, &of_real(&x), &m, "tgf::save then tgf::read"),
            Err(e) => c.fail(&format!("tgf::read: {}", e)),
        }
        let f = open(c, &q);
        match c.guard("tgf::read_as_commands", || tgf::read_as_commands(f)) {
            Ok(x) => {
                let cs: Vec<Cmd> = x.iter().map(Cmd::from_real).collect();
                same(c, &MG::of(&cs), &m, "tgf::save then tgf::read_as_commands")
            }
            Err(e) => c.fail(&format!("tgf::read_as_commands: {}", e)),
        }
        let bytes = std::fs::read(&q).unwrap();
        match fmtspec::parse_strict(&bytes, fmtspec::tgf) {
            Ok(cs) => same(c, &MG::of(&cs), &m, "tgf::save then an independent reader"),
            Err(l) => c.fail(&format!("tgf::save wrote a malformed line {}: {}", l, show(&bytes))),
        }
        c.count("tgf round trips", 1);
        // another graph of exactly the same size over it
        if m.n() <= 400 {
            let m2 = twin(&mut r, &m);
            if m2 != m {
                let g2 = m2.build(&mut r);
                if let Err(e) = c.guard("gcmd::save", || gcmd::save(&g2, &ps)) {
                    c.fail(&format!("gcmd::save over an old file of the same length reported {}", e));
                }
                let (_, back) = read_g(c, &p, "gcmd::save");
                same(c, &back, &m2, "gcmd::save over an old file of the same length, then gcmd::read");
                let qs = q.to_str().unwrap().to_string();
                if let Err(e) = c.guard("tgf::save", || tgf::save(&g2, qs)) {
                    c.fail(&format!("tgf::save over an old file of the same length reported {}", e));
                }
                let f = open(c, &q);
                match c.guard("tgf::read", || tgf::read(f)) {
                    Ok(x) => same(c, &of_real(&x), &m2, "tgf::save over an old file of the same length, then tgf::read"),
                    Err(e) => c.fail(&format!("tgf::read: {}", e)),
                }
                c.count("overwrites of the same length", 1);
            }
        }
        // exported commands
        let cs: Vec<Cmd> = c.guard("as_commands", || GraphCommand::as_commands(&g)).iter().map(Cmd::from_real).collect();
        same(c, &MG::of(&cs), &m, "as_commands");
        c.max("vertices", m.n() as u64);
        c.distinct(m.hash());
        c.sample(|| m.show());
    });
    ctx.par("append", ctx.scale(2500, 40000), |c| {
        let mut r = c.rng.clone();
        let k0 = gen::size(&mut r, 60);
        let old = random_cmds(&mut r, k0);
        let content = layout(&mut r, &old);
        if !content.is_empty() && content.last() != Some(&b'\n') {
            c.count("appends without final newline", 1);
        }
        let d = Dir::new(c);
        let p = d.root.join("commands");
        std::fs::write(&p, &content).unwrap();
        let mut want = match fmtspec::parse_strict(&content, fmtspec::gcmd) {
            Ok(x) => x,
            Err(_) => panic!("generator"),
        };
        let ps = p.to_str().unwrap().to_string();
        let mut log = format!("file {}", show(&content));
        for round in 0..r.us(1, 4) {
            let k = match r.below(5) {
                0 => 0,
                1 => 1,
                2 | 3 => r.us(1, 20),
                _ => *r.pick(&[300usize, 500, 700, 1500]),
            };
            let new = random_cmds(&mut r, k);
            log.push_str(&format!(
                "\nappend {:?}{}",
                &new[..new.len().min(60)],
                if new.len() > 60 { " ..." } else { "" }
            ));
            c.desc(log.clone());
            let real: Vec<GraphCommand> = new.iter().map(|x| x.real()).collect();
            if let Err(e) = c.guard("gcmd::add_commands", || gcmd::add_commands(&ps, real)) {
                c.fail(&format!("add_commands reported {}", e));
            }
            want.extend(new);
            let (got, mg) = read_g(c, &p, "append");
            if got != want {
                let i = (0..got.len().min(want.len())).find(|i| got[*i] != want[*i]).unwrap_or(got.len().min(want.len()));
                c.fail(&format!(
                    "after append {}: {} commands read, {} expected; first difference at {}: {:?} instead of {:?}",
                    round + 1,
                    got.len(),
                    want.len(),
                    i,
                    got.get(i),
                    want.get(i)
                ));
            }
            same(c, &mg, &MG::of(&want), "graph after append");
            c.count("appends", 1);
        }
        c.distinct(fnv(log.as_bytes()));
        c.sample(|| log.clone());
    });
}

fn number(r: &mut Rng) -> String {
    match r.below(14) {
        0 => "18446744073709551615".into(),
        1 => "18446744073709551616".into(),
        2 => "99999999999999999999999999".into(),
        3 => format!("{:0>30}", r.below(100)),
        4 => "18446744073709551620".into(),
        5 => "٣".into(),
        6 => "1٣".into(),
        7 => "-1".into(),
        8 => "+1".into(),
        9 => "1.5".into(),
        10 => "".into(),
        11 => "0".into(),
        _ => gen::labels(r, 1)[0].to_string(),
    }
}

fn num_ok(r: &mut Rng) -> String {
    if r.chance(1, 12) {
        format!("{:0>22}", r.below(1000))
    } else {
        gen::labels(r, 1)[0].to_string()
    }
}

fn gap(r: &mut Rng) -> &'static str {
    *r.pick(&[" ", " ", " ", "  ", "\t", " \t ", "\u{a0}", ",", "", "\u{2003}", "\x0b"])
}

fn line(r: &mut Rng, is_tgf: bool) -> Vec<u8> {
    let good = r.chance(17, 20);
    let s: String = if is_tgf {
        if good {
            match r.below(6) {
                0 => num_ok(r),
                1 => format!("{} some label", num_ok(r)),
                2 => format!("{} {} label 7", num_ok(r), num_ok(r)),
                3 => format!("{}\t{}", num_ok(r), num_ok(r)),
                4 => format!("{} {}", num_ok(r), num_ok(r)),
                _ => format!("{}   {} ", num_ok(r), num_ok(r)),
            }
        } else {
            match r.below(6) {
                0 => format!("{}{}{}", number(r), gap(r), number(r)),
                1 => format!(" {}", num_ok(r)),
                2 => format!("{}abc", num_ok(r)),
                3 => format!("{}{}x", number(r), gap(r)),
                4 => "abc".into(),
                _ => format!("{}{}{}{}z", number(r), gap(r), number(r), gap(r)),
            }
        }
    } else {
        let verb = *r.pick(&["AddVertex", "RemoveVertex", "AddEdge", "RemoveEdge"]);
        if good {
            if verb.ends_with("Vertex") {
                format!("{} {}", verb, num_ok(r))
            } else {
                format!("{} {}{}{}", verb, num_ok(r), *r.pick(&[" ", " ", "  ", "\t", " \t"]), num_ok(r))
            }
        } else {
            match r.below(9) {
                0 => format!("{} {}", verb, number(r)),
                1 => format!("{} {}{}{}", verb, number(r), gap(r), number(r)),
                2 => format!("{}{}{}", verb, gap(r), num_ok(r)),
                3 => format!("{} {} {} {}", verb, num_ok(r), num_ok(r), num_ok(r)),
                4 => format!("{} {} {} ", verb, num_ok(r), num_ok(r)),
                5 => format!(" {} {} {}", verb, num_ok(r), num_ok(r)),
                6 => format!("{} {} {}", verb.to_lowercase(), num_ok(r), num_ok(r)),
                7 => format!("{}s {} {}", verb, num_ok(r), num_ok(r)),
                _ => format!("{} {} {} # note", verb, num_ok(r), num_ok(r)),
            }
        }
    };
    s.into_bytes()
}

fn judge(c: &mut Case, bytes: &[u8], is_tgf: bool, got: Result<Vec<Cmd>, String>, mg: Result<MG, String>) {
    let spec = if is_tgf { fmtspec::tgf } else { fmtspec::gcmd };
    let who = if is_tgf { "tgf" } else { "gcmd" };
    let ls: Vec<L> = fmtspec::split(bytes).iter().map(|l| spec(l)).collect();
    match &got {
        Ok(cmds) => {
            c.count("files read", 1);
            let mut i = 0;
            for (k, l) in ls.iter().enumerate() {
                match l {
                    L::Skip => {}
                    L::Bad => c.fail(&format!("{}: line {} is invalid but the file was accepted", who, k + 1)),
                    L::Is(x) => {
                        if cmds.get(i) != Some(x) {
                            c.fail(&format!("{}: line {} spells {:?} but {:?} was read", who, k + 1, x, cmds.get(i)));
                        }
                        i += 1;
                    }
                    L::Either(opts) => {
                        let skip = opts.contains(&None);
                        let y = cmds.get(i);
                        if y.is_some() && opts.iter().any(|o| o.as_ref() == y) {
                            i += 1;
                        } else if !skip {
                            c.fail(&format!("{}: line {}: {:?} was read, acceptable {:?}", who, k + 1, y, opts));
                        }
                    }
                }
            }
            if i != cmds.len() {
                c.fail(&format!("{}: {} commands read, the lines spell {}", who, cmds.len(), i));
            }
            c.count("commands read", cmds.len() as u64);
        }
        Err(e) => {
            c.count("files refused", 1);
            let first_bad = ls.iter().position(|l| *l == L::Bad).map(|i| i + 1);
            // the error may also be at an unusual line before the first definitely bad one
            let mut okl: Vec<usize> = ls
                .iter()
                .enumerate()
                .filter(|(i, l)| matches!(l, L::Either(_)) && first_bad.map(|b| i + 1 < b).unwrap_or(true))
                .map(|(i, _)| i + 1)
                .collect();
            okl.extend(first_bad);
            if okl.is_empty() {
                c.fail(&format!("{}: a valid file was refused: {}", who, e));
            }
            let low = e.to_lowercase();
            let named: Option<usize> = low.find("line").and_then(|i| {
                let t = &low[i + 4..];
                let t = t.trim_start_matches(|x: char| x == ' ' || x == ':' || x == '#' || x == 's');
                let d: String = t.chars().take_while(|x| x.is_ascii_digit()).collect();
                d.parse().ok()
            });
            let fine = match named {
                Some(n) => okl.contains(&n),
                None => crate::cli::nums(e).iter().any(|n| okl.contains(&(*n as usize))),
            };
            if !fine {
                c.fail(&format!("{}: the error does not give the first invalid line {:?}: {}", who, okl, e));
            }
        }
    }
    match (&got, &mg) {
        (Ok(cmds), Ok(m)) => {
            if MG::of(cmds) != *m {
                c.fail(&format!("{}: read and read_as_commands disagree", who));
            }
        }
        (Err(a), Err(b)) => c.check(a == b, || format!("{}: read says {:?}, read_as_commands {:?}", who, b, a)),
        (a, b) => c.fail(&format!("{}: read_as_commands {:?} but read {:?}", who, a.is_ok(), b.is_ok())),
    }
}

fn read_and_judge(c: &mut Case, p: &Path, b: &[u8], is_tgf: bool) {
    let (f1, f2) = (open(c, p), open(c, p));
    let got = if is_tgf {
        c.guard("tgf::read_as_commands", || tgf::read_as_commands(f1))
    } else {
        c.guard("gcmd::read_as_commands", || gcmd::read_as_commands(f1))
    };
    let mg = if is_tgf { c.guard("tgf::read", || tgf::read(f2)) } else { c.guard("gcmd::read", || gcmd::read(f2)) };
    judge(c, b, is_tgf, got.map(|v| v.iter().map(Cmd::from_real).collect()), mg.map(|g| of_real(&g)));
}

pub fn c03(ctx: &'static Ctx) {
    ctx.rule(
        "file contents from a line grammar with realistic and hostile variations (id range limits, Unicode \
         digits and blanks, CRLF, missing final newline, comments, non-UTF-8 bytes, random bytes, very long \
         lines and files) read by both readers of both formats and judged line by line by a hand-written \
         grammar; distinct = distinct contents",
    );
    ctx.require(&["files read", "files refused", "commands read", "non-UTF-8 contents", "single-line edits", "long files"]);
    ctx.assume("how other Unicode blanks and digits are read is left open: refused or read as plain ones");
    // every edit of one character of well-formed lines, alone in a file or among valid lines
    let bases: Vec<(bool, &'static str)> = vec![
        (false, "AddVertex 1"),
        (false, "RemoveVertex 20"),
        (false, "AddEdge 3 45"),
        (false, "RemoveEdge 6 7"),
        (false, "AddVertex 18446744073709551615"),
        (false, "RemoveEdge 18446744073709551614 0"),
        (false, "# AddVertex 1"),
        (true, "1"),
        (true, "20 label"),
        (true, "3 45"),
        (true, "6 7 label"),
        (true, "18446744073709551615 18446744073709551614"),
        (true, "# 1 2"),
    ];
    let chars = [" ", "\t", "#", "0", "1", "9", "-", "+", ".", ",", ";", ":", "A", "a", "x", "_", "\r", "\0", "\u{b}", "\u{a0}", "٣", "'", "/", "e"];
    let tails = [" # note", " #", "#", " // note", ";", " 5", " x", "  ", "\t", "\r", " AddVertex 9", "\u{feff}", "\\", " \u{2028}"];
    ctx.par("one-line", bases.len() as u64, |c| {
        let (is_tgf, base) = bases[c.idx as usize];
        let cs: Vec<char> = base.chars().collect();
        let mut forms: std::collections::BTreeSet<String> = std::collections::BTreeSet::new();
        forms.insert(base.to_string());
        forms.insert(base.to_lowercase());
        forms.insert(base.to_uppercase());
        for t in &tails {
            forms.insert(format!("{}{}", base, t));
            forms.insert(format!("{}{}", t, base));
        }
        for i in 0..=cs.len() {
            let (l, r): (String, String) = (cs[..i].iter().collect(), cs[i..].iter().collect());
            for x in &chars {
                forms.insert(format!("{}{}{}", l, x, r));
                if i < cs.len() {
                    let r1: String = cs[i + 1..].iter().collect();
                    forms.insert(format!("{}{}{}", l, x, r1));
                }
            }
            if i < cs.len() {
                let r1: String = cs[i + 1..].iter().collect();
                forms.insert(format!("{}{}", l, r1));
                forms.insert(format!("{}{}{}", l, cs[i], r));
                forms.insert(l.clone());
                forms.insert(r.clone());
            }
        }
        let d = Dir::new(c);
        let p = d.root.join("f");
        for f in &forms {
            for around in 0..3 {
                let ok = if is_tgf { "8 9" } else { "AddEdge 8 9" };
                let b = match around {
                    0 => f.clone().into_bytes(),
                    1 => format!("{}\n", f).into_bytes(),
                    _ => format!("{}\n\n# c\n{}\n{}\n", ok, f, ok).into_bytes(),
                };
                c.desc(format!("{} file: {}", if is_tgf { "TGF" } else { "command" }, show(&b)));
                std::fs::write(&p, &b).unwrap();
                read_and_judge(c, &p, &b, is_tgf);
                c.count("single-line edits", 1);
                c.distinct(mix(fnv(&b), is_tgf as u64));
            }
        }
    });
    // more lines than a 16-bit number counts
    ctx.par("long-files", ctx.scale(6, 60), |c| {
        let mut r = c.rng.clone();
        let is_tgf = c.idx % 2 == 1;
        let n = *r.pick(&[33000usize, 65536, 66000, 70000]);
        let mut b = vec![];
        for i in 0..n {
            if r.chance(1, 9) {
                b.extend_from_slice(if r.chance(1, 2) { b"\n" } else { b"# c\n" });
            } else if is_tgf {
                b.extend_from_slice(format!("{} {}\n", i % 997, i % 13).as_bytes());
            } else {
                b.extend_from_slice(format!("{} {} {}\n", if r.chance(1, 4) { "RemoveEdge" } else { "AddEdge" }, i % 997, i % 13).as_bytes());
            }
        }
        if c.idx % 3 != 0 {
            b.extend_from_slice(*r.pick(&[&b"AddVertex x\n"[..], b"?\n", b"\xff\n", b"x 99999999999999999999\n"]));
            b.extend_from_slice(if is_tgf { b"1 2\n" } else { b"AddVertex 1\n" });
        }
        c.desc(format!("file of {} lines", n));
        let d = Dir::new(c);
        let p = d.root.join("f");
        std::fs::write(&p, &b).unwrap();
        read_and_judge(c, &p, &b, is_tgf);
        c.count("long files", 1);
        c.max("file bytes", b.len() as u64);
        c.distinct(mix(fnv(&b), 5));
    });
    // lines of any length
    ctx.par("long-lines", ctx.scale(24, 240), |c| {
        let mut r = c.rng.clone();
        let is_tgf = c.idx % 2 == 1;
        let n = *r.pick(&[255usize, 256, 1023, 4096, 65_520, 65_536, 70_000, 131_072, 300_000, 1_100_000]);
        let fill = |s: &str| s.repeat(n / s.len() + 1);
        let l = match c.idx / 2 % 6 {
            0 => format!("{}{}7", if is_tgf { "" } else { "AddVertex " }, fill("0")),
            1 => format!("{}5 {}7", if is_tgf { "" } else { "AddEdge " }, fill("0")),
            2 => format!("#{}", fill("x ")),
            3 if is_tgf => format!("5 {}", fill("label ")),
            3 => format!("AddEdge 5{}7", fill(" ")),
            4 => fill("?"),
            _ => format!("{}#", fill(" ")),
        };
        let b = format!("{}\n{}\n{}\n", if is_tgf { "1 2" } else { "AddEdge 1 2" }, l, if is_tgf { "3 4" } else { "AddEdge 3 4" }).into_bytes();
        c.desc(format!("{} file with a line of {} characters: {}...", if is_tgf { "TGF" } else { "command" }, l.len(), &l[..60]));
        let d = Dir::new(c);
        let p = d.root.join("f");
        std::fs::write(&p, &b).unwrap();
        read_and_judge(c, &p, &b, is_tgf);
        c.count("long lines", 1);
        c.distinct(mix(fnv(&b), 6));
    });
    ctx.par("files", ctx.scale(9000, 150000), |c| {
        let mut r = c.rng.clone();
        let is_tgf = c.idx % 2 == 1;
        let n = match r.below(10) {
            0 => 0,
            1..=6 => r.us(1, 10),
            7 | 8 => r.us(5, 60),
            _ => r.us(100, 1500),
        };
        let clean = r.chance(1, 2);
        let mut b: Vec<u8> = vec![];
        let bad_at = if n > 0 { r.below(n) } else { 0 };
        let crlf = r.chance(1, 8);
        for i in 0..n {
            let l = match r.below(14) {
                0 => b"".to_vec(),
                1 => b"# comment".to_vec(),
                2 => format!("{}# AddVertex 1", *r.pick(&[" \t ", " ", "\t", "\u{a0}", "\x0b", "\x0c", "\u{2003} ", "\u{3000}", "\u{85}", " \r "])).into_bytes(),
                3 => b"#".to_vec(),
                _ => loop {
                    let l = line(&mut r, is_tgf);
                    let spec = if is_tgf { fmtspec::tgf(&l) } else { fmtspec::gcmd(&l) };
                    let fine = matches!(spec, L::Is(_));
                    if fine || (!clean && i == bad_at) || (!clean && n < 10 && r.chance(1, 4)) {
                        break l;
                    }
                },
            };
            b.extend_from_slice(&l);
            if i + 1 < n || r.chance(3, 4) {
                b.extend_from_slice(if crlf && r.chance(9, 10) { b"\r\n" } else { b"\n" });
            }
        }
        if !clean {
            match r.below(14) {
                0 => {
                    // a byte that is not text
                    let k = if b.is_empty() { 0 } else { r.below(b.len()) };
                    b.insert(k, *r.pick(&[0xff, 0x80, 0xc3, 0xf0]));
                }
                1 if !b.is_empty() => {
                    let k = r.below(b.len());
                    b[k] = r.u64() as u8;
                }
                2 if !b.is_empty() => {
                    let k = r.below(b.len());
                    b.truncate(k);
                }
                3 => b.splice(0..0, "\u{feff}".bytes()).for_each(|_| ()),
                4 => {
                    let k = r.us(1, 40);
                    b = (0..k).map(|_| r.u64() as u8).collect();
                }
                5 => {
                    // one very long line
                    let z = "0".repeat(*r.pick(&[8190usize, 8192, 20000]));
                    b.extend_from_slice(if is_tgf { format!("{}5\n", z) } else { format!("AddVertex {}5\n", z) }.as_bytes());
                }
                6 => b.extend_from_slice(b"   \n"),
                7 => b.extend_from_slice(*r.pick(&[&b"# caf\xe9\n"[..], b"#\xff\xfe\n", b" # \xc3\n", b"#\x80"])),
                _ => {}
            }
        }
        if std::str::from_utf8(&b).is_err() {
            c.count("non-UTF-8 contents", 1);
        }
        let what = if is_tgf { "TGF" } else { "command" };
        c.desc(format!("{} file, {} bytes: {}", what, b.len(), show(&b)));
        let d = Dir::new(c);
        let p = d.root.join("f");
        std::fs::write(&p, &b).unwrap();
        read_and_judge(c, &p, &b, is_tgf);
        c.max("file bytes", b.len() as u64);
        c.distinct(mix(fnv(&b), is_tgf as u64));
        c.sample(|| show(&b));
    });
}
