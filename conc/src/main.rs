//! C01, C02, C04, C05, C07, C08, C09, C17, C18, C21 to C24 under every interleaving within the bounds.
#[path = "../../seq/src/common.rs"]
#[allow(dead_code)]
mod common;
#[path = "../../seq/src/insts.rs"]
#[allow(dead_code)]
mod insts;
#[path = "../../seq/src/p_accept.rs"]
#[allow(dead_code)]
mod p_accept;

mod accept;
mod calls;
mod searches;
mod timeouts;
mod timer;

use mcfw::{Section, Tier};

fn sections(prop: &str, tier: Tier) -> Vec<Section> {
    match prop {
        "C01" => searches::c01(tier),
        "C02" => searches::c02(tier),
        "C04" => searches::c04(tier),
        "C05" => searches::c05(tier),
        "C07" => timeouts::c07(tier),
        "C08" => accept::c08(tier),
        "C09" => accept::c09(tier),
        "C17" => timer::c17(tier),
        "C18" => searches::c18(tier),
        "C21" => calls::c21(tier),
        "C22" => calls::c22(tier),
        "C23" => calls::c23(tier),
        "C24" => calls::c24(tier),
        _ => vec![],
    }
}

fn main() {
    // the crate under test must be linked to the controlled standard library
    let r = mcrt::explore(
        &mcrt::Config { bounds: [0, 0, 0, 0], ..Default::default() },
        || {
            mbqc_scheduling::interface::run(
                &vec![vec![]],
                &vec![vec![(0, vec![])]],
                true,
                None,
                2,
                None,
                None,
            )
        },
        |_, st| {
            if st.points == 0 || st.spawned + st.pool_spawned == 0 {
                Err("not under control".into())
            } else {
                Ok(())
            }
        },
    );
    if let Err(f) = r {
        if f.why == "not under control" {
            eprintln!("ENGINE: the crate under test does not run under the scheduler");
            std::process::exit(3)
        }
    }
    mcfw::main(true, sections)
}
