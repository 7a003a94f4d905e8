use crate::ctx::Ctx;
mod graph;
mod format;
mod walk;
mod cyc;
mod paths;
mod constraint;
mod small;
mod edit;
mod query;
mod destructive;
mod concurrent;
mod fault;

pub fn dispatch(c: &'static Ctx) {
    match c.prop.as_str() {
        "C01" => graph::c01(c),
        "C02" => format::c02(c),
        "C03" => format::c03(c),
        "C04" => walk::c04(c),
        "C05" => walk::c05(c),
        "C06" => walk::c06(c),
        "C07" => cyc::c07(c),
        "C08" => paths::c08(c),
        "C09" => constraint::c09(c),
        "C10" => constraint::c10(c),
        "C11" => constraint::c11(c),
        "C12" => paths::c12(c),
        "C13" => paths::c13(c),
        "C14" => edit::c14(c),
        "C15" => concurrent::c15(c),
        "C16" => fault::c16(c),
        "C17" => cyc::c17(c),
        "C18" => destructive::c18(c),
        "C19" => destructive::c19(c),
        "C20" => small::c20(c),
        "C21" => small::c21(c),
        "C22" => edit::c22(c),
        "C23" => query::c23(c),
        "C24" => small::c24(c),
        p => {
            eprintln!("unknown property {}", p);
            std::process::exit(2)
        }
    }
}
