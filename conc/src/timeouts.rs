//! C07: the timeout at every point.
use std::{sync::Arc, time::Duration};

use mcfw::{json, Section, Tier, Value};
use mcrt::{Config, Stats};
use model::{dominates, Inst};

use crate::{common::*, insts::*, searches::*};

const T: Duration = Duration::from_secs(10);
const TN: u64 = 10_000_000_000;

/// what one worker may still ask after the timeout has been processed
fn slack() -> u64 {
    16 + 2 * INTERVAL
}

fn common(i: &Inst, r: &Run, obs: &Obs, st: &Stats) -> Result<(), String> {
    valid(i, &obs.paths)?;
    true_costs(i, &obs.paths)?;
    staircase(&obs.paths)?;
    late(r, obs)?;
    // the lowest space the search had already recorded when it asked
    let recorded = obs
        .asked
        .iter()
        .map(|a| a.ask.minimal)
        .fold(f64::INFINITY, f64::min);
    if recorded < usize::MAX as f64 {
        let got = obs.paths.last().map(|p| p.space as f64).unwrap_or(f64::INFINITY);
        if got > recorded {
            return Err(format!(
                "a schedule with space {recorded} had been recorded, but the best one returned \
                 has {got}"
            ));
        }
    }
    if st.fired == 0 && obs.now < TN {
        exact(i, &obs.paths).map_err(|e| format!("the timeout was not reached, but: {e}"))?;
    }
    Ok(())
}

fn late(r: &Run, obs: &Obs) -> Result<(), String> {
    let late = obs.asked.iter().filter(|a| a.late).count() as u64;
    let workers = r.nthreads.max(1) as u64;
    if late > workers * slack() {
        return Err(format!(
            "{late} steps were considered after the timeout had been processed, by {workers} workers"
        ));
    }
    Ok(())
}

/// One worker: the expiry at each of its steps in turn. The results must get better and
/// better, from nothing to the optimum.
fn anytime(f: Family) -> Section {
    let g = f.gen.clone();
    Section::new(
        format!("anytime/{}", f.name),
        format!(
            "{}; one worker, with and without an (always accepting) accept function; the timeout \
             expires at every single point of the search; results must improve monotonically",
            f.rule
        ),
        f.len * 2,
        move |k| {
            let answer = if k % 2 == 0 { Answer::Exact } else { Answer::Const(1., 0) };
            (g(k / 2), Run { timeout: Some(T), answer, ..Run::new((k / 2 % 2) as u16, None) })
        },
        |(i, r): &(Inst, Run)| -> Value {
            json!({"spatial": i.nbrs, "order": i.order, "run": r.show()})
        },
        |(i, r), o| {
            let cfg = Config { bounds: [0, 1, 0, 0], ..config() };
            // (point of expiry, result)
            let mut all: Vec<(u64, Vec<(usize, usize)>)> = Vec::new();
            explore(i, r, &cfg, o, |obs, st| {
                common(i, r, obs, st)?;
                all.push((if st.fired > 0 { st.fire_point } else { u64::MAX }, costs(&obs.paths)));
                Ok(())
            })?;
            all.sort();
            let best = i.pareto().0;
            let mut last: Vec<(usize, usize)> = vec![];
            for (k, c) in &all {
                if !dominates(c, &last) {
                    return Err(format!(
                        "{}: the timeout at point {k} gives {c:?}, an earlier one gave {last:?}",
                        r.show()
                    ));
                }
                if *k == u64::MAX && *c != best {
                    return Err(format!("{}: without expiry {c:?}, optimum {best:?}", r.show()));
                }
                last = c.clone();
            }
            if o.capped == 0 && all.last().map(|a| &a.1) != Some(&best) {
                return Err(format!("{}: the latest timeout gives {last:?}, optimum {best:?}", r.show()));
            }
            // the first schedule is found without any detour: there are results early on
            let first = all.iter().position(|a| !a.1.is_empty()).unwrap_or(0);
            o.note = Some(format!(
                "{} expiry points, nothing found at the first {first}, {} different results",
                all.len(),
                all.iter().map(|a| &a.1).collect::<std::collections::BTreeSet<_>>().len()
            ));
            Ok(())
        },
    )
}

pub fn c07(tier: Tier) -> Vec<Section> {
    let q = tier == Tier::Quick;
    let j: Arc<dyn Fn(&Inst, &Run, &Obs, &Stats) -> Result<(), String> + Send + Sync> =
        Arc::new(common);
    let mk = |t: &[u16], b: &[Option<u32>]| -> Vec<Run> {
        let mut v = Vec::new();
        for t in t {
            for b in b {
                for answer in [Answer::Exact, Answer::Const(1., 0)] {
                    v.push(Run { timeout: Some(T), answer, ..Run::new(*t, *b) });
                }
            }
        }
        v
    };
    let c = |p: u8| Config { bounds: [p, 1, 0, 0], ..config() };
    let s = |f: Family, r: Vec<Run>, p: u8| interleavings("expiry", f, r, c(p), j.clone());
    let m = |f: Family, r: Vec<Run>, c: Config| interleavings("expiry", f, r, c, j.clone());
    let b3 = [None, Some(0), Some(1)];
    // no schedule is ever completed, so nothing is pruned: only the timeout ends this early
    let prompt: Arc<dyn Fn(&Inst, &Run, &Obs, &Stats) -> Result<(), String> + Send + Sync> =
        Arc::new(|i, r, obs, _| {
            valid(i, &obs.paths)?;
            true_costs(i, &obs.paths)?;
            staircase(&obs.paths)?;
            late(r, obs)
        });
    let unending = |t: &[u16], b: &[Option<u32>]| -> Vec<Run> {
        mk(t, b)
            .into_iter()
            .filter(|r| matches!(r.answer, Answer::Const(..)))
            .map(|r| Run {
                answer: Answer::Func(Arc::new(|a| if a.remaining == 0. { 0. } else { 1. })),
                ..r
            })
            .collect()
    };
    if REAL {
        let mut few = heavy(6, 4000, 10_000);
        few.len = if q { 2 } else { 11 };
        let mut v = vec![
            s(heavy(6, 600, 10_000), mk(&[2], &b3), if q { 0 } else { 1 }),
            s(heavy(7, 2000, if q { 20_000 } else { 100_000 }), mk(&[2], &[Some(0), Some(3)]), if q { 0 } else { 1 }),
            interleavings("unending", few, unending(&[2], &[Some(0), Some(1)]), c(0), prompt),
        ];
        if !q {
            v.push(s(heavy(8, 10_000, 1_000_000), mk(&[2], &[Some(2)]), 0));
        }
        return v;
    }
    let mut v = vec![
        anytime(labelled(1, false)),
        anytime(labelled(2, false)),
        anytime(labelled(3, false)),
        anytime(classes(4)),
        anytime(structured(5..=5, 600)),
        s(labelled(1, false), mk(&[1, 2], &b3), if q { 2 } else { 3 }),
        s(labelled(1, false), mk(&[3], &b3), if q { 0 } else { 1 }),
        s(labelled(2, false), mk(&[1], &[None]), 3),
        s(labelled(2, false), mk(&[2], &b3), if q { 1 } else { 2 }),
        s(labelled(2, false), mk(&[3], &[None, Some(1)]), 0),
        s(classes(3), mk(&[1], &[None]), 2),
        s(classes(3), mk(&[2], &b3), if q { 0 } else { 2 }),
        s(classes(3), mk(&[2], &[Some(1)]), 1),
        s(few4(), mk(&[2], &[None, Some(2)]), if q { 0 } else { 1 }),
        m(classes(3), mk(&[3, 4], &[None, Some(0), Some(2)]), many(0, 1, if q { 1 } else { 2 })),
        m(classes(3), mk(&[2], &b3), many(1, 1, if q { 0 } else { 1 })),
        m(labelled(2, false), mk(&[5, 9], &b3), many(0, 1, if q { 1 } else { 2 })),
        m(structured(5..=5, if q { 100 } else { 600 }), mk(&[2, 3], &[None, Some(3)]), many(0, 1, if q { 1 } else { 2 })),
    ];
    let mut few = heavy(5, 200, 5000);
    if q {
        few.len = few.len.min(12);
    }
    let u = |f: Family, r: Vec<Run>| interleavings("unending", f, r, c(0), prompt.clone());
    v.push(u(few.clone(), unending(&[0, 1], &[None])));
    v.push(u(few4(), unending(&[2], &[None, Some(1)])));
    // an immediate timeout, one that nothing ever reaches
    for d in [Duration::ZERO, Duration::from_nanos(1), Duration::from_secs(1 << 40), Duration::MAX] {
        let never = d > Duration::from_secs(100);
        let runs: Vec<Run> =
            mk(&[1, 2], &[None, Some(1)]).into_iter().map(|r| Run { timeout: Some(d), ..r }).collect();
        let j: Arc<dyn Fn(&Inst, &Run, &Obs, &Stats) -> Result<(), String> + Send + Sync> =
            Arc::new(move |i, _, obs, st| {
                valid(i, &obs.paths)?;
                true_costs(i, &obs.paths)?;
                staircase(&obs.paths)?;
                if never && st.fired == 0 {
                    exact(i, &obs.paths)?;
                }
                if never && st.fired == 0 && obs.now != 0 {
                    return Err("the call waited for the timeout".into());
                }
                Ok(())
            });
        for (f, p) in [(labelled(2, false), 2), (classes(3), 1)] {
            let cfg = Config { bounds: [p, 0, 0, 0], ..config() };
            v.push(interleavings(&format!("timeout-{}ns", d.as_nanos()), f, runs.clone(), cfg, j.clone()));
        }
    }
    v
}
