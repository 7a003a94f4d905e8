//! One library call in a process of its own, so that faults can be injected into it
use crate::fmtspec;
use crate::model::build_of;

/// libop <save|tgf|append> <file with commands> <target>: exit 0 = reported success, 3 = reported an error
pub fn main(a: &[String]) -> ! {
    let src = std::fs::read(&a[1]).expect("source");
    let cmds = fmtspec::parse_strict(&src, fmtspec::gcmd).expect("commands");
    let r = match a[0].as_str() {
        "save" => gc_core::format::gcmd::save(&build_of(&cmds), &a[2]),
        "tgf" => gc_core::format::tgf::save(&build_of(&cmds), a[2].clone()),
        "append" => gc_core::format::gcmd::add_commands(&a[2], cmds.iter().map(|c| c.real()).collect()),
        _ => panic!("libop"),
    };
    std::process::exit(match r {
        Ok(()) => 0,
        Err(e) => {
            eprintln!("{}", e);
            3
        }
    })
}
