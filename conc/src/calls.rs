//! C21, C22, C23, C24 under every interleaving within the bounds.
use std::{
    collections::BTreeSet,
    sync::{
        atomic::{AtomicBool, AtomicU64, Ordering::SeqCst},
        Arc,
    },
    time::Duration,
};

use mbqc_scheduling::{
    interface::{self, Path},
    probabilistic::AcceptFunc,
};
use mcfw::{json, Out, Section, Tier, Value};
use mcrt::{Config, Stats};
use model::Inst;
use tracing::{field, span, Event, Metadata};

use crate::{common::*, insts::*, searches::*};

const T: Duration = Duration::from_secs(10);

type J = Arc<dyn Fn(&Inst, &Run, &Obs, &Stats) -> Result<(), String> + Send + Sync>;

fn timed(r: Vec<Run>) -> Vec<Run> {
    r.into_iter().map(|r| Run { timeout: Some(T), ..r }).collect()
}

fn exact_and_accepting(r: Vec<Run>) -> Vec<Run> {
    r.into_iter()
        .flat_map(|r| [Run { answer: Answer::Const(1., 0), ..r.clone() }, r])
        .collect()
}

// ---- C21

pub fn c21(tier: Tier) -> Vec<Section> {
    let q = tier == Tier::Quick;
    // one worker that does everything: whenever it is interrupted, if there is anything at
    // all, then the fastest schedule is there
    let j: J = Arc::new(|i, _, obs, _| match obs.paths.first() {
        Some(p) if p.time != i.chain_len() => Err(format!(
            "interrupted with results, but without one of {} steps",
            i.chain_len()
        )),
        _ => Ok(()),
    });
    let c = |p: u8| Config { bounds: [p, 1, 0, 0], ..config() };
    let s = |f: Family, r: Vec<Run>, p: u8| {
        interleavings("interrupted", f, timed(exact_and_accepting(r)), c(p), j.clone())
    };
    let one = || {
        let mut v = runs(&[0, 1], &[None]);
        v.push(Run::new(2, Some(0)));
        v
    };
    let mut v = vec![
        s(labelled(1, false), one(), 2),
        s(labelled(2, false), one(), if q { 1 } else { 2 }),
        s(labelled(3, false), runs(&[1], &[None]), 0),
        s(classes(3), one(), if q { 0 } else { 1 }),
        s(few4(), one(), 0),
        s(structured(5..=5, if q { 100 } else { 600 }), runs(&[1], &[None]), 0),
    ];
    if !q {
        v.push(s(classes(4), one(), 0));
    }
    v
}

// ---- C22

/// looks at every field of every event and span
struct Listen;
struct Look(u64);
impl field::Visit for Look {
    fn record_debug(&mut self, _: &field::Field, value: &dyn std::fmt::Debug) {
        self.0 += format!("{value:?}").len() as u64;
    }
}
static SEEN: AtomicU64 = AtomicU64::new(0);
impl tracing::Subscriber for Listen {
    fn enabled(&self, _: &Metadata<'_>) -> bool {
        true
    }
    fn new_span(&self, a: &span::Attributes<'_>) -> span::Id {
        a.record(&mut Look(0));
        span::Id::from_u64(1)
    }
    fn record(&self, _: &span::Id, v: &span::Record<'_>) {
        v.record(&mut Look(0));
    }
    fn record_follows_from(&self, _: &span::Id, _: &span::Id) {}
    fn event(&self, e: &Event<'_>) {
        e.record(&mut Look(0));
        SEEN.fetch_add(1, SeqCst);
    }
    fn enter(&self, _: &span::Id) {}
    fn exit(&self, _: &span::Id) {}
}

pub fn c22(tier: Tier) -> Vec<Section> {
    let q = tier == Tier::Quick;
    // this process explores nothing else
    let _ = tracing::subscriber::set_global_default(Listen);
    let exact_: J = Arc::new(|i, _, obs, _| {
        valid(i, &obs.paths)?;
        true_costs(i, &obs.paths)?;
        exact(i, &obs.paths).map(|_| ())
    });
    let sane: J = Arc::new(|i, _, obs, st| {
        valid(i, &obs.paths)?;
        true_costs(i, &obs.paths)?;
        staircase(&obs.paths)?;
        if st.fired == 0 {
            exact(i, &obs.paths)?;
        }
        Ok(())
    });
    let b = [None, Some(0), Some(1), Some(2)];
    let s = |f: Family, r: Vec<Run>, p: u8| interleavings("listened", f, exact_and_accepting(r), pre(p), exact_.clone());
    let m = |f: Family, r: Vec<Run>, c: Config| interleavings("listened", f, exact_and_accepting(r), c, exact_.clone());
    let t = |f: Family, r: Vec<Run>, c: Config| {
        interleavings("listened-expiry", f, timed(exact_and_accepting(r)), c, sane.clone())
    };
    vec![
        s(labelled(1, false), runs(&[2, 3], &b), 3),
        s(labelled(2, false), runs(&[2, 3], &b), if q { 2 } else { 3 }),
        s(classes(3), runs(&[2], &b), if q { 1 } else { 3 }),
        m(classes(3), runs(&[3, 5], &b), many(0, 0, if q { 2 } else { 3 })),
        m(few4(), runs(&[2, 3], &b), many(0, 0, if q { 2 } else { 3 })),
        m(structured(5..=5, 600), runs(&[2, 3], &b), many(0, 0, if q { 1 } else { 2 })),
        t(labelled(2, false), runs(&[1, 2], &b), Config { bounds: [if q { 1 } else { 2 }, 1, 0, 0], ..config() }),
        t(classes(3), runs(&[2, 3], &b), many(0, 1, if q { 1 } else { 2 })),
    ]
}

// ---- C23

#[derive(Clone)]
struct Several {
    calls: Vec<(Inst, Run)>,
    /// one after the other, not at the same time
    serial: bool,
}

fn judge_one(i: &Inst, r: &Run, obs: &Obs, st: &Stats) -> Result<(), String> {
    valid(i, &obs.paths)?;
    true_costs(i, &obs.paths)?;
    staircase(&obs.paths)?;
    match (r.timeout, &r.answer) {
        (Some(_), _) if st.fired > 0 => Ok(()),
        (_, Answer::Exact) => exact(i, &obs.paths).map(|_| ()),
        (_, Answer::Const(p, _)) if *p == 1. => exact(i, &obs.paths).map(|_| ()),
        (_, Answer::Const(p, _)) if *p == 0. && r.nthreads < 2 && !obs.paths.is_empty() => {
            Err("everything is rejected".into())
        },
        _ => Ok(()),
    }
}

fn several(name: &str, rule: String, cases: Vec<Several>, cfg: Config) -> Section {
    let cases = Arc::new(cases);
    Section::new(
        name,
        format!(
            "{rule}; every interleaving with at most {:?} (preemptions, time jumps, spurious wake-ups){}; \
             synchronisation every {INTERVAL} steps",
            &cfg.bounds[..3],
            if cfg.switches == u8::MAX { String::new() } else { format!(" and {} other switches", cfg.switches) }
        ),
        cases.len(),
        move |i| cases[i].clone(),
        |c: &Several| -> Value {
            json!(c.calls.iter().map(|(i, r)| json!({"spatial": i.nbrs, "order": i.order, "run": r.show()})).collect::<Vec<_>>())
        },
        move |c, o: &mut Out| {
            let mut outcomes = BTreeSet::new();
            let r = mcrt::explore(
                &cfg,
                || {
                    if c.serial {
                        return c.calls.iter().map(|(i, r)| execute(i, r)).collect::<Vec<_>>();
                    }
                    let hs: Vec<mcrt::thread::JoinHandle<Obs>> = c
                        .calls
                        .iter()
                        .cloned()
                        .map(|(i, r)| mcrt::thread::spawn(move || execute(&i, &r)))
                        .collect();
                    hs.into_iter().map(|h| h.join().unwrap_or_else(|_| panic!("a call panicked"))).collect()
                },
                |all, st| {
                    outcomes.insert(all.iter().map(|b| costs(&b.paths)).collect::<Vec<_>>());
                    for (k, (obs, (i, r))) in all.iter().zip(&c.calls).enumerate() {
                        judge_one(i, r, obs, st).map_err(|e| {
                            format!("call {k} ({}): {e}; returned {}", r.show(), show_paths(&obs.paths))
                        })?;
                    }
                    Ok(())
                },
            );
            let how = if c.serial { "one after the other" } else { "at the same time" };
            let tell = || c.calls.iter().map(|(_, r)| r.show()).collect::<Vec<_>>().join(" | ");
            match r {
                Ok(rep) => {
                    o.validated += rep.execs;
                    o.transitions += rep.points;
                    o.states += rep.decisions + 1;
                    o.nontrivial += (rep.execs > 1) as u64;
                    o.capped += rep.capped as u64;
                    o.note = Some(format!("{} executions, {} different results{}", rep.execs, outcomes.len(), rep.remark()));
                    Ok(())
                },
                Err(f) if f.broken => {
                    eprintln!("ENGINE: {} ({})", f.why, tell());
                    std::process::exit(3)
                },
                Err(f) => Err(format!("{how}: {}: {} [{}]", tell(), f.why, f.schedule)),
            }
        },
    )
}

pub fn c23(tier: Tier) -> Vec<Section> {
    let q = tier == Tier::Quick;
    let l2 = labelled(2, false);
    let c3 = classes(3);
    let few: Vec<Inst> = [(l2.gen)(0), (l2.gen)(l2.len - 1), (c3.gen)(3), (c3.gen)(c3.len / 2), (c3.gen)(c3.len - 1)].into();
    let kinds = vec![
        Run::new(1, None),
        Run { timeout: Some(T), ..Run::new(1, None) },
        Run { answer: Answer::Const(1., 0), ..Run::new(1, None) },
        Run { answer: Answer::Const(0., 0), ..Run::new(1, None) },
        Run::new(2, Some(1)),
        Run { timeout: Some(T), ..Run::new(2, None) },
    ];
    let pairs = |serial: bool, threads: bool| -> Vec<Several> {
        let mut v = Vec::new();
        for (x, a) in few.iter().enumerate() {
            for (y, b) in few.iter().enumerate() {
                for (k, r) in kinds.iter().enumerate() {
                    for (l, s) in kinds.iter().enumerate() {
                        let both = r.nthreads > 1 && s.nthreads > 1;
                        if !serial && (k, x) > (l, y) || both != threads {
                            continue;
                        }
                        if threads && (x > 1 || y > 1) {
                            continue;
                        }
                        v.push(Several { calls: vec![(a.clone(), r.clone()), (b.clone(), s.clone())], serial });
                    }
                }
            }
        }
        v
    };
    let rule = |w: &str| format!("every pair of calls (5 instances x 6 kinds: one and two threads, with a timeout, accept functions) {w}");
    let cfg = |p: u8, sw: u8| Config { bounds: [p, 1, 0, 0], switches: sw, ..config() };
    let three = |k: [usize; 3]| Several {
        calls: k.iter().enumerate().map(|(n, k)| (few[n].clone(), kinds[*k].clone())).collect(),
        serial: false,
    };
    vec![
        several("at-once", rule("at the same time"), pairs(false, false), cfg(if q { 0 } else { 1 }, if q { 1 } else { 2 })),
        several("at-once-pools", rule("at the same time, both with threads"), pairs(false, true), cfg(0, if q { 1 } else { 2 })),
        several("in-turn", rule("one after the other"), pairs(true, false), cfg(0, if q { 1 } else { 2 })),
        several("in-turn-pools", rule("one after the other, both with threads"), pairs(true, true), cfg(if q { 0 } else { 1 }, 1)),
        several(
            "three-at-once",
            "three calls at the same time".into(),
            vec![three([0, 1, 4]), three([1, 1, 1]), three([2, 3, 5]), three([4, 4, 1])],
            cfg(0, if q { 1 } else { 2 }),
        ),
    ]
}

// ---- C24

struct Left {
    paths: Vec<Path>,
    asked_after: u64,
    owners: usize,
    alive: usize,
    returned: u64,
    quiet: u64,
}

fn cleanup(name: &str, f: Family, runs: Vec<Run>, cfg: Config) -> Section {
    let g = f.gen.clone();
    let k = runs.len();
    let runs = Arc::new(runs);
    Section::new(
        if cfg.switches == u8::MAX {
            format!("{name}/{}/p{}", f.name, cfg.bounds[0])
        } else {
            format!("{name}-many/{}/p{}s{}", f.name, cfg.bounds[0], cfg.switches)
        },
        format!(
            "{}; {k} runs each; every interleaving with at most {:?} (preemptions, time jumps, spurious wake-ups) and {} \
             other switches; after the call everything that it started must come to its end, without any time passing",
            f.rule,
            &cfg.bounds[..3],
            if cfg.switches == u8::MAX { "all".to_string() } else { cfg.switches.to_string() },
        ),
        f.len * k,
        move |i| (g(i / k), runs[i % k].clone()),
        |(i, r): &(Inst, Run)| -> Value {
            json!({"spatial": i.nbrs, "order": i.order, "run": r.show()})
        },
        move |(inst, r), o| {
            let rep = mcrt::explore(
                &cfg,
                || {
                    let over = Arc::new(AtomicBool::new(false));
                    let late = Arc::new(AtomicU64::new(0));
                    let (o2, l2) = (over.clone(), late.clone());
                    let accept = AcceptFunc::Custom(Box::new(move |_, _, _, _, _, _, _| {
                        l2.fetch_add(o2.load(SeqCst) as u64, SeqCst);
                        1.
                    }));
                    let prob = (!matches!(r.answer, Answer::Exact)).then(|| (accept, Some(0)));
                    let paths = interface::run(&inst.nbrs, &inst.order, true, r.timeout, r.nthreads, r.bound, prob);
                    over.store(true, SeqCst);
                    let returned = mcrt::now();
                    mcrt::quiesce(returned);
                    Left {
                        paths,
                        asked_after: late.load(SeqCst),
                        owners: Arc::strong_count(&late) - 1,
                        alive: mcrt::alive(),
                        returned,
                        quiet: mcrt::now(),
                    }
                },
                |l, st| {
                    if l.asked_after > 0 {
                        return Err("the accept function is asked after the call has returned".into());
                    }
                    if l.alive > 0 || st.stuck > 0 {
                        return Err(format!(
                            "{} threads are left after the call (returned after {} ns) and wait for something",
                            l.alive.max(st.stuck),
                            l.returned
                        ));
                    }
                    if l.owners > 0 {
                        return Err(format!("{} owners of the accept function are left", l.owners));
                    }
                    if st.fired == 0 && r.timeout.map_or(true, |t| t > Duration::ZERO) && l.quiet > 0 {
                        return Err(format!("the call took {} ns, although nothing expired", l.quiet));
                    }
                    valid(inst, &l.paths)
                },
            );
            match rep {
                Ok(rep) => {
                    o.validated += rep.execs;
                    o.transitions += rep.points;
                    o.states += rep.decisions + 1;
                    o.nontrivial += (rep.max_threads > 1) as u64;
                    o.capped += rep.capped as u64;
                    o.note = Some(format!("{} executions, up to {} threads{}", rep.execs, rep.max_threads, rep.remark()));
                    Ok(())
                },
                Err(f) if f.broken => {
                    eprintln!("ENGINE: {} ({})", f.why, r.show());
                    std::process::exit(3)
                },
                Err(f) => Err(format!("{}: {} [{}]", r.show(), f.why, f.schedule)),
            }
        },
    )
}

pub fn c24(tier: Tier) -> Vec<Section> {
    let q = tier == Tier::Quick;
    let b = [None, Some(0), Some(1)];
    let mk = |t: &[u16], b: &[Option<u32>]| {
        let r = exact_and_accepting(runs(t, b));
        let mut v = timed(r.clone());
        v.extend(r.iter().map(|r| Run { timeout: Some(Duration::MAX), ..r.clone() }));
        v.extend(r);
        v
    };
    let c = |p: u8| Config { bounds: [p, 1, 0, 0], ..config() };
    vec![
        cleanup("cleanup", labelled(1, false), mk(&[1, 2], &b), c(if q { 2 } else { 3 })),
        cleanup("cleanup", labelled(1, false), mk(&[3], &b), c(if q { 0 } else { 1 })),
        cleanup("cleanup", labelled(2, false), mk(&[1], &[None]), c(2)),
        cleanup("cleanup", labelled(2, false), mk(&[2], &b), c(if q { 0 } else { 2 })),
        cleanup("cleanup", labelled(2, false), mk(&[3, 6], &b), many(0, 1, if q { 1 } else { 2 })),
        cleanup("cleanup", classes(3), mk(&[1, 2], &b), many(0, 1, if q { 1 } else { 2 })),
        cleanup("cleanup", few4(), mk(&[2, 4], &b), many(0, 1, if q { 0 } else { 1 })),
    ]
}
