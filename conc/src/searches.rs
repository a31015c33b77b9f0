//! Whole searches under every interleaving.
use std::{
    collections::BTreeSet,
    sync::{Arc, Mutex},
    time::Duration,
};

use mbqc_scheduling::{
    interface::{self, Path},
    probabilistic::AcceptFunc,
};
use mcfw::{json, Out, Section, Tier, Value};
use mcrt::{Config, Stats};
use model::Inst;

use crate::{common::*, insts::*};

/// the crate as it is, without the cfg
pub const REAL: bool = option_env!("MC_REAL").is_some();

pub const INTERVAL: u64 = match option_env!("MBQC_MC_UPDATE_INTERVAL") {
    Some(d) => (d.as_bytes()[0] - b'0') as u64,
    None if REAL => 1000,
    None => 1,
};

#[derive(Clone)]
pub enum Answer {
    /// no accept function
    Exact,
    /// accept with this probability, with a seed
    Const(f64, u64),
    /// a function of the question
    Func(Arc<dyn Fn(&Ask) -> f64 + Send + Sync>),
}

#[derive(Clone)]
pub struct Run {
    pub nthreads: u16,
    pub bound: Option<u32>,
    pub timeout: Option<Duration>,
    pub answer: Answer,
}

impl Run {
    pub fn new(nthreads: u16, bound: Option<u32>) -> Run {
        Run { nthreads, bound, timeout: None, answer: Answer::Exact }
    }
    pub fn show(&self) -> String {
        let a = match &self.answer {
            Answer::Exact => "exact".to_string(),
            Answer::Const(p, s) => format!("accept with probability {p}, seed {s}"),
            Answer::Func(_) => "accept function".into(),
        };
        format!("{} threads, bound {:?}, timeout {:?}, {a}", self.nthreads, self.bound, self.timeout)
    }
}

#[derive(Clone, Debug)]
pub struct Asked {
    pub ask: Ask,
    pub thread: usize,
    /// the timeout had already been processed
    pub late: bool,
}

pub struct Obs {
    pub paths: Vec<Path>,
    pub asked: Vec<Asked>,
    /// virtual time when the call returned
    pub now: u64,
}

/// one execution
pub fn execute(inst: &Inst, r: &Run) -> Obs {
    let log: Arc<Mutex<Vec<Asked>>> = Default::default();
    let end = r.timeout.map(|t| t.as_nanos().min(u64::MAX as u128 - 1) as u64);
    let func = |f: Arc<dyn Fn(&Ask) -> f64 + Send + Sync>| {
        let l = log.clone();
        AcceptFunc::Custom(Box::new(move |a, b, c, d, e, g, h| {
            let ask = Ask {
                bound: a,
                minimal: b,
                last_max: c,
                last_cur: d,
                cur: e,
                remaining: g,
                total: h,
            };
            let late = end.is_some_and(|t| mcrt::processed(0, t));
            l.lock().unwrap().push(Asked { ask, thread: mcrt::current(), late });
            f(&ask)
        }))
    };
    let prob = match &r.answer {
        Answer::Exact => None,
        Answer::Const(p, s) => {
            let p = *p;
            Some((func(Arc::new(move |_| p)), Some(*s)))
        },
        Answer::Func(f) => Some((func(f.clone()), Some(0))),
    };
    let paths =
        interface::run(&inst.nbrs, &inst.order, true, r.timeout, r.nthreads, r.bound, prob);
    let asked = std::mem::take(&mut *log.lock().unwrap());
    Obs { paths, asked, now: mcrt::now() }
}

/// explore all interleavings of one run
pub fn explore(
    inst: &Inst,
    r: &Run,
    cfg: &Config,
    o: &mut Out,
    mut judge: impl FnMut(&Obs, &Stats) -> Result<(), String>,
) -> Result<(), String> {
    let mut outcomes = BTreeSet::new();
    match mcrt::explore(
        cfg,
        || execute(inst, r),
        |obs, st| {
            outcomes.insert(costs(&obs.paths));
            judge(obs, st).map_err(|e| format!("{e}; returned {}", show_paths(&obs.paths)))
        },
    ) {
        Ok(rep) => {
            o.validated += rep.execs;
            o.transitions += rep.points;
            o.states += rep.decisions + 1;
            o.nontrivial += (rep.execs > 1) as u64;
            if rep.capped {
                o.capped += 1;
            }
            o.note = Some(format!(
                "{} executions, up to {} decisions and {} threads, {} different results{}",
                rep.execs,
                rep.max_decisions,
                rep.max_threads,
                outcomes.len(),
                rep.remark()
            ));
            Ok(())
        },
        Err(f) if f.broken => {
            eprintln!("ENGINE: {} ({})", f.why, r.show());
            std::process::exit(3)
        },
        Err(f) => Err(format!("{}: {} [{}]", r.show(), f.why, f.schedule)),
    }
}

type J = Arc<dyn Fn(&Inst, &Run, &Obs, &Stats) -> Result<(), String> + Send + Sync>;

/// instances x runs
pub fn interleavings(name: &str, f: Family, runs: Vec<Run>, cfg: Config, judge: J) -> Section {
    let g = f.gen.clone();
    let k = runs.len();
    let (r1, r2) = (Arc::new(runs), ());
    let _ = r2;
    let gen = {
        let r = r1.clone();
        move |i: usize| (g(i / k), r[i % k].clone())
    };
    Section::new(
        if cfg.switches == u8::MAX {
            format!("{name}/{}/p{}", f.name, cfg.bounds[0])
        } else {
            format!("{name}-many/{}/p{}s{}", f.name, cfg.bounds[0], cfg.switches)
        },
        format!(
            "{}; {} runs each; every interleaving with at most {:?} (preemptions, time jumps, \
             spurious wake-ups){}; synchronisation every {INTERVAL} steps",
            f.rule,
            k,
            &cfg.bounds[..3],
            if cfg.switches == u8::MAX {
                String::new()
            } else {
                format!(" and at most {} times another than the first thread that can run, when one blocks", cfg.switches)
            }
        ),
        f.len * k,
        gen,
        |(i, r): &(Inst, Run)| -> Value {
            json!({"spatial": i.nbrs, "order": i.order, "run": r.show()})
        },
        move |(i, r), o| explore(i, r, &cfg, o, |obs, st| judge(i, r, obs, st)),
    )
}

pub fn config() -> Config {
    Config { stop: mcfw::case_over, max_execs: u64::MAX, ..Config::default() }
}

pub fn pre(p: u8) -> Config {
    Config { bounds: [p, 0, 0, 0], ..config() }
}

/// many threads: also the choice of the next thread, when one blocks, is bounded
pub fn many(preemptions: u8, jumps: u8, switches: u8) -> Config {
    Config { bounds: [preemptions, jumps, 0, 0], switches, ..config() }
}

pub fn runs(threads: &[u16], bounds: &[Option<u32>]) -> Vec<Run> {
    threads.iter().flat_map(|t| bounds.iter().map(|b| Run::new(*t, *b))).collect()
}

const B: [Option<u32>; 4] = [None, Some(0), Some(1), Some(2)];

/// instances whose searches take more steps than the real interval
pub fn heavy(n: usize, min: u64, max: u64) -> Family {
    let mut list = Vec::new();
    for (_, d) in model::order_family(n) {
        for (_, g) in model::graph_family(n) {
            let inst = Inst::from_masks(&g, &d, false);
            if (min..=max).contains(&inst.count_paths()) {
                list.push(inst);
            }
        }
    }
    let list = Arc::new(list);
    Family {
        name: format!("heavy{n}"),
        rule: format!(
            "15 order shapes x 11 graph shapes with {n} nodes and {min} to {max} schedules"
        ),
        len: list.len(),
        gen: Arc::new(move |i| list[i].clone()),
    }
}

pub fn c04(tier: Tier) -> Vec<Section> {
    let q = tier == Tier::Quick;
    let j: J = Arc::new(|i, _, obs, _| exact(i, &obs.paths).map(|_| ()));
    let s = |f: Family, r: Vec<Run>, p: u8| interleavings("exact", f, r, pre(p), j.clone());
    if REAL {
        return vec![
            s(heavy(6, 600, 10_000), runs(&[2], &[None, Some(0), Some(1), Some(5)]), if q { 1 } else { 3 }),
            s(heavy(6, 600, 10_000), runs(&[3], &[None, Some(2)]), if q { 0 } else { 1 }),
            s(heavy(7, 2000, 100_000), runs(&[2], &[Some(0), Some(3), Some(20)]), if q { 1 } else { 3 }),
            s(heavy(8, 10_000, if q { 100_000 } else { 1_000_000 }), runs(&[2], &[Some(0), Some(2)]), if q { 1 } else { 2 }),
            s(heavy(9, 10_000, 500_000), runs(&[2], &[Some(2)]), if q { 0 } else { 2 }),
        ];
    }
    let mut v = vec![
        s(labelled(1, false), runs(&[2, 3], &B), if q { 4 } else { 5 }),
        s(labelled(1, false), runs(&[4], &[None, Some(1)]), if q { 0 } else { 1 }),
        s(labelled(2, false), runs(&[2, 3], &B), if q { 3 } else { 4 }),
        s(classes(3), runs(&[2], &B), if q { 3 } else { 4 }),
        s(classes(3), runs(&[3], &[None, Some(1)]), if q { 1 } else { 2 }),
        s(classes(4), runs(&[2], &[None, Some(1), Some(2)]), if q { 1 } else { 2 }),
        s(few4(), runs(&[2], &[None, Some(3)]), if q { 2 } else { 3 }),
    ];
    let m = |f: Family, r: Vec<Run>, c: Config| interleavings("exact", f, r, c, j.clone());
    let bs = [None, Some(0), Some(1), Some(3), Some(6), Some(7), Some(1000), Some(u32::MAX)];
    v.push(m(classes(3), runs(&[3, 4, 5, 8], &bs), many(0, 0, if q { 2 } else { 3 })));
    v.push(m(classes(3), runs(&[4, 6], &bs[..4]), many(1, 0, if q { 1 } else { 2 })));
    v.push(m(labelled(2, false), runs(&[16], &bs), many(0, 0, if q { 1 } else { 2 })));
    v.push(m(labelled(2, false), runs(&[33, 256, 300, 1000], &bs), many(0, 0, 0)));
    v.push(m(labelled(1, false), runs(&[127, 128, 129, 255, 256, 257, 512, 768, 999, 1000, 1001, 1024, 4096], &bs[..3]), many(0, 0, 0)));
    v.push(m(few4(), runs(&[3, 4, 7], &bs), many(0, 0, if q { 2 } else { 3 })));
    v.push(m(few4(), runs(&[3], &bs[..4]), many(1, 0, if q { 1 } else { 2 })));
    v.push(m(structured(5..=5, 600), runs(&[2, 3, 5], &bs), many(0, 0, if q { 2 } else { 3 })));
    v.push(m(structured(5..=5, 100), runs(&[2, 3], &bs), many(1, 0, if q { 1 } else { 2 })));
    v.push(m(structured(6..=6, 5000), runs(&[4], &bs[3..]), many(0, 0, if q { 1 } else { 2 })));
    v.push(m(structured(6..=6, 5000), runs(&[2, 3], &[None, Some(5)]), many(if q { 0 } else { 1 }, 0, 0)));
    v.push(m(structured(7..=7, 50_000), runs(&[2, 3, 4], &[None, Some(2), Some(40)]), many(0, 0, 0)));
    if !q {
        v.push(s(classes(3), runs(&[4], &[None]), 1));
        v.push(s(few4(), runs(&[3], &[None, Some(2)]), 1));
        v.push(s(structured(5..=5, 600), runs(&[2], &[None, Some(2)]), 1));
        v.push(s(labelled(4, false), runs(&[2], &[None, Some(2)]), 1));
    }
    v
}

/// three graphs x all DAG classes on four nodes
pub fn few4() -> Family {
    let f = classes(4);
    let ng = 64;
    let nd = f.len / ng;
    let codes = [0usize, 0b111111, 0b010110];
    let g = f.gen.clone();
    Family {
        name: "few4".into(),
        rule: "3 graphs x one DAG per isomorphism class on 4 nodes".into(),
        len: nd * codes.len(),
        gen: Arc::new(move |i| g(i / codes.len() * ng + codes[i % codes.len()])),
    }
}

fn mixed(threads: &[u16], bounds: &[Option<u32>]) -> Vec<Run> {
    let mut v = Vec::new();
    for r in runs(threads, bounds) {
        for s in 0..3 {
            v.push(Run { answer: Answer::Const(0.6, s), ..r.clone() });
        }
        v.push(Run { answer: Answer::Const(1., 0), ..r.clone() });
        v.push(r);
    }
    v
}

fn returned(tier: Tier, j: fn(&Inst, &[Path]) -> Result<(), String>) -> Vec<Section> {
    let q = tier == Tier::Quick;
    let j: J = Arc::new(move |i, _, obs, _| j(i, &obs.paths));
    let s = |f: Family, r: Vec<Run>, c: Config| interleavings("returned", f, r, c, j.clone());
    let timed = |r: Vec<Run>| -> Vec<Run> {
        r.into_iter().map(|r| Run { timeout: Some(Duration::from_secs(10)), ..r }).collect()
    };
    let t = |p: u8| Config { bounds: [p, 1, 0, 0], ..config() };
    if REAL {
        return vec![
            s(heavy(6, 600, 10_000), mixed(&[2], &[None, Some(1)]), pre(if q { 1 } else { 2 })),
            s(heavy(7, 10_000, 100_000), mixed(&[2], &[Some(1)]), pre(if q { 0 } else { 2 })),
            s(heavy(6, 600, 10_000), timed(mixed(&[2], &[Some(1)])), t(if q { 0 } else { 1 })),
            s(heavy(7, 2_000, if q { 20_000 } else { 100_000 }), timed(mixed(&[2], &[Some(2)])), t(if q { 0 } else { 1 })),
        ];
    }
    vec![
        s(labelled(1, false), mixed(&[2, 3], &B), pre(3)),
        s(labelled(2, false), mixed(&[2, 3], &B), pre(if q { 2 } else { 4 })),
        s(classes(3), mixed(&[2], &[None, Some(1)]), pre(if q { 1 } else { 3 })),
        s(classes(3), mixed(&[3], &[Some(2)]), pre(if q { 0 } else { 1 })),
        s(labelled(2, false), timed(mixed(&[0, 2], &[None, Some(1)])), t(if q { 1 } else { 3 })),
        s(classes(3), timed(mixed(&[1], &[None])), t(1)),
        s(classes(3), timed(mixed(&[2], &[None, Some(1)])), t(if q { 0 } else { 1 })),
        s(classes(3), mixed(&[3, 5], &[None, Some(2), Some(100)]), many(0, 0, if q { 2 } else { 3 })),
        s(few4(), mixed(&[2, 4], &[None, Some(3)]), many(0, 0, if q { 2 } else { 3 })),
        s(few4(), mixed(&[2], &[None, Some(3)]), many(1, 0, if q { 1 } else { 2 })),
        s(structured(5..=6, 5000), mixed(&[2, 3], &[None, Some(4)]), many(0, 0, if q { 1 } else { 2 })),
        s(classes(3), timed(mixed(&[3], &[None, Some(2)])), many(0, 1, if q { 1 } else { 2 })),
        s(structured(5..=5, 200), timed(mixed(&[2], &[None, Some(2)])), many(0, 1, if q { 1 } else { 2 })),
        s(few4(), timed(mixed(&[1], &[None])), t(0)),
        s(few4(), timed(mixed(&[2], &[None])), t(if q { 0 } else { 1 })),
    ]
}

pub fn c01(tier: Tier) -> Vec<Section> {
    returned(tier, valid)
}
pub fn c02(tier: Tier) -> Vec<Section> {
    returned(tier, true_costs)
}
pub fn c05(tier: Tier) -> Vec<Section> {
    returned(tier, |_, ps| staircase(ps))
}

// ---- C18

fn several_first_steps(f: Family) -> Family {
    let list: Arc<Vec<Inst>> = Arc::new((0..f.len).map(|i| (f.gen)(i)).filter(|i| i.order[0].len() > 1).collect());
    Family {
        name: format!("{}-several-first-steps", f.name),
        rule: format!("{}, with several first steps", f.rule),
        len: list.len(),
        gen: Arc::new(move |i| list[i].clone()),
    }
}

/// Instances without a schedule of a single step: if every question is rejected, nothing
/// can be found, nothing is pruned, and exactly the first steps that were split off
/// into tasks of their own are not asked about.
fn no_single_step(n: usize, per: usize) -> Family {
    let f = classes(n);
    let list: Vec<usize> = (0..f.len)
        .filter(|i| (f.gen)(*i).order.len() > 1)
        .enumerate()
        .filter(|(k, _)| k % per == 0)
        .map(|(_, i)| i)
        .collect();
    let g = f.gen.clone();
    Family {
        name: format!("classes{n}-no-single-step"),
        rule: format!("{}, without a schedule of one step (every {per}th)", f.rule),
        len: list.len(),
        gen: Arc::new(move |i| g(list[i])),
    }
}

/// many first steps, and a node that can only follow them
fn wide_few() -> Family {
    let mut list = Vec::new();
    for k in 4..=6 {
        let deps: Vec<Vec<usize>> = (0..=k).map(|v| if v == k { (0..k).collect() } else { vec![] }).collect();
        let nbrs = (0..=k).map(|v: usize| (0..=k).filter(|w| v.abs_diff(*w) == 1).collect()).collect();
        list.push(from_lists(nbrs, &deps));
    }
    Family {
        name: "wide4-6".into(),
        rule: "4 to 6 nodes that are measurable at once, and one that depends on all of them, on a path".into(),
        len: list.len(),
        gen: Arc::new(move |i| list[i].clone()),
    }
}

pub fn c18(tier: Tier) -> Vec<Section> {
    let q = tier == Tier::Quick;
    let bounds: Vec<Option<u32>> =
        vec![Some(0), Some(1), Some(2), Some(3), Some(4), Some(5), Some(6), Some(7), Some(8), None];
    // how many first steps are split off
    let split: J = Arc::new(|i, r, obs, st| {
        let first = i.order[0].len() as u32;
        let steps = 2u64.pow(first) - 1;
        let asked =
            obs.asked.iter().filter(|a| a.ask.last_max == 0. && a.ask.last_cur == 0.).count() as u64;
        let bound = r.bound.map(|b| b as u64).unwrap_or(100_000);
        if asked > steps {
            return Err(format!("{asked} of {steps} first steps asked about"));
        }
        let free = steps - asked;
        if free > bound {
            return Err(format!(
                "{free} of {steps} first steps were explored unconditionally, i.e. in tasks of \
                 their own, the bound is {bound}"
            ));
        }
        if free < bound.min(steps) {
            return Err(format!(
                "only {free} of {steps} first steps are tasks of their own, the bound is {bound}"
            ));
        }
        workers(r, obs, st)
    });
    // the result does not depend on the bound
    let same: J = Arc::new(|i, r, obs, st| {
        exact(i, &obs.paths)?;
        workers(r, obs, st)
    });
    let mk = |t: &[u16], b: &[Option<u32>], answer: Answer| -> Vec<Run> {
        runs(t, b).into_iter().map(|r| Run { answer: answer.clone(), ..r }).collect()
    };
    let reject = || Answer::Const(0., 0);
    let all = || Answer::Const(1., 0);
    let s = |n: &str, f: Family, r: Vec<Run>, p: u8, j: &J| interleavings(n, f, r, pre(p), j.clone());
    let m = |n: &str, f: Family, r: Vec<Run>, p: u8, sw: u8, j: &J| interleavings(n, f, r, many(p, 0, sw), j.clone());
    // at least once, two tasks run at the same time on different threads
    let parallel = |f: Family, r: Vec<Run>| {
        at_least(
            "parallel",
            f,
            r,
            many(1, 0, 1),
            |_, obs| obs.asked.iter().map(|a| a.thread).filter(|t| *t != 0).collect::<BTreeSet<_>>().len() as u64,
            2,
            "workers search",
        )
    };
    let large: Vec<Option<u32>> = [0, 1, 2, 9, 14, 15, 16, 17, 30, 31, 32, 62, 63, 64, 1000].map(Some).to_vec();
    // numbers that do not fit into smaller types
    let edge: Vec<Option<u32>> = [7, 8, 15, 16, 31]
        .into_iter()
        .flat_map(|k| [(1u32 << k) - 1, 1 << k, (1 << k) + 1, u32::MAX << k])
        .chain([99_999, 100_000, 100_001, u32::MAX])
        .map(Some)
        .collect();
    vec![
        s("split-edge", no_single_step(2, 1), mk(&[2], &edge, reject()), 0, &split),
        s("split-edge", no_single_step(3, 1), mk(&[2], &edge, reject()), 0, &split),
        s("split", no_single_step(2, 1), mk(&[2, 3], &bounds, reject()), if q { 2 } else { 3 }, &split),
        s("split", no_single_step(2, 1), mk(&[4], &bounds, reject()), 0, &split),
        s("split", no_single_step(3, 1), mk(&[2], &bounds, reject()), if q { 1 } else { 2 }, &split),
        s("split", no_single_step(3, 1), mk(&[3], &bounds, reject()), if q { 0 } else { 1 }, &split),
        s("split", no_single_step(4, if q { 13 } else { 1 }), mk(&[2], &bounds, reject()), 0, &split),
        m("split", no_single_step(3, 1), mk(&[3, 4, 6, 9], &bounds, reject()), 0, if q { 2 } else { 3 }, &split),
        m("split", no_single_step(4, if q { 13 } else { 1 }), mk(&[3, 5], &bounds, reject()), 0, if q { 1 } else { 2 }, &split),
        m("split", no_single_step(3, 1), mk(&[16, 40], &bounds, reject()), 0, if q { 0 } else { 1 }, &split),
        m("split", wide_few(), mk(&[2, 3], &large, reject()), 0, if q { 1 } else { 2 }, &split),
        m("result", classes(3), mk(&[4, 7], &bounds, all()), 0, if q { 2 } else { 3 }, &same),
        s("result", labelled(1, false), mk(&[2, 3], &bounds, all()), if q { 2 } else { 4 }, &same),
        s("result", labelled(1, false), mk(&[4], &[Some(0), Some(1), Some(2), None], all()), 0, &same),
        s("result", labelled(2, false), mk(&[2, 3], &bounds, all()), if q { 1 } else { 3 }, &same),
        s("result", classes(3), mk(&[2], &bounds, all()), if q { 1 } else { 2 }, &same),
        s("result", classes(3), mk(&[3], &bounds, all()), if q { 0 } else { 1 }, &same),
        s("result", few4(), mk(&[2], &bounds, all()), if q { 1 } else { 2 }, &same),
        parallel(several_first_steps(no_single_step(3, 1)), mk(&[3, 4, 6], &[Some(1), Some(5), None], all())),
    ]
}

/// the maximum of a number over all interleavings must reach a limit
fn at_least(
    name: &str,
    f: Family,
    runs: Vec<Run>,
    cfg: Config,
    measure: fn(&Inst, &Obs) -> u64,
    limit: u64,
    what: &'static str,
) -> Section {
    let (g, k, runs) = (f.gen.clone(), runs.len(), Arc::new(runs));
    Section::new(
        format!("{name}/{}/p{}s{}", f.name, cfg.bounds[0], cfg.switches),
        format!(
            "{}; {k} runs each; among the interleavings with at most {} preemptions and {} other switches there must be one in which at \
             least {limit} {what}",
            f.rule, cfg.bounds[0], cfg.switches
        ),
        f.len * k,
        move |i| (g(i / k), runs[i % k].clone()),
        |(i, r): &(Inst, Run)| -> Value { json!({"spatial": i.nbrs, "order": i.order, "run": r.show()}) },
        move |(i, r), o| {
            let max = std::cell::Cell::new(0);
            explore(i, r, &cfg, o, |obs, _| {
                max.set(max.get().max(measure(i, obs)));
                Ok(())
            })?;
            if max.get() < limit && o.capped == 0 {
                return Err(format!("{}: in no interleaving at least {limit} {what}, at most {}", r.show(), max.get()));
            }
            Ok(())
        },
    )
}

fn workers(r: &Run, obs: &Obs, st: &Stats) -> Result<(), String> {
    let who: BTreeSet<usize> = obs.asked.iter().map(|a| a.thread).filter(|t| *t != 0).collect();
    if who.len() > r.nthreads as usize {
        return Err(format!("{} threads search, {} were requested", who.len(), r.nthreads));
    }
    if st.pool_spawned > r.nthreads as usize {
        return Err(format!("{} workers were started, {} were requested", st.pool_spawned, r.nthreads));
    }
    // one more for the timer, and one to manage
    let started = st.spawned + st.pool_spawned;
    if started > r.nthreads as usize + 2 {
        return Err(format!("{started} threads were started, {} were requested", r.nthreads));
    }
    Ok(())
}
