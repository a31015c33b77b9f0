mod common;
mod insts;
mod p_accept;
mod p_calls;
mod p_files;
mod p_generic;
mod p_runs;
mod p_sched;

use mcfw::{Section, Tier};

fn sections(prop: &str, tier: Tier) -> Vec<Section> {
    match prop {
        "C01" => p_runs::c01(tier),
        "C02" => p_runs::c02(tier),
        "C03" => p_runs::c03(tier),
        "C05" => p_runs::c05(tier),
        "C06" => p_runs::c06(tier),
        "C07" => p_runs::c07(tier),
        "C08" => p_accept::c08(tier),
        "C09" => p_accept::c09(tier),
        "C10" => p_accept::c10(tier),
        "C11" => p_accept::c11(tier),
        "C12" => p_sched::c12(tier),
        "C13" => p_sched::c13(tier),
        "C14" => p_sched::c14(tier),
        "C15" => p_sched::c15(tier),
        "C16" => p_files::c16(tier),
        "C19" => p_files::c19(tier),
        "C20" => p_sched::c20(tier),
        "C21" => p_calls::c21(tier),
        "C22" => p_calls::c22(tier),
        "C23" => p_calls::c23(tier),
        "C24" => p_calls::c24(tier),
        "C25" => p_generic::c25(tier),
        _ => vec![],
    }
}

fn main() {
    if std::env::args().nth(1).as_deref() == Some("digest") {
        p_accept::print_digest();
        return;
    }
    mcfw::main(false, sections)
}
