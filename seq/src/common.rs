//! Calling the code under test and judging what it returns, independent of how the
//! inputs are enumerated.
use std::{
    sync::{Arc, Mutex},
    time::Duration,
};

use mbqc_scheduling::{
    interface::{self, Path},
    probabilistic::{AcceptFunc, HeavysideParameters},
};
use mcfw::{call, json, Value};
use model::{frontier, Inst};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Prob {
    None,
    /// a custom function with a constant answer, and the seed
    Const(f64, Option<u64>),
    Builtin(Option<u64>),
    Param(Option<u64>),
    /// rejects the last step of every schedule and nothing else
    Unending(Option<u64>),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Cfg {
    pub search: bool,
    pub timeout: Option<Duration>,
    pub nthreads: u16,
    pub bound: Option<u32>,
    pub prob: Prob,
}

impl Cfg {
    pub const EXACT: Cfg =
        Cfg { search: true, timeout: None, nthreads: 1, bound: None, prob: Prob::None };
    pub const GREEDY: Cfg = Cfg { search: false, ..Cfg::EXACT };
    pub fn prob(p: Prob) -> Cfg {
        Cfg { prob: p, ..Cfg::EXACT }
    }
    pub fn threads(n: u16, bound: Option<u32>) -> Cfg {
        Cfg { nthreads: n, bound, ..Cfg::EXACT }
    }
    pub fn accept(&self) -> Option<(AcceptFunc, Option<u64>)> {
        match self.prob {
            Prob::None => None,
            Prob::Const(p, s) => {
                Some((AcceptFunc::Custom(Box::new(move |_, _, _, _, _, _, _| p)), s))
            },
            Prob::Unending(s) => Some((
                AcceptFunc::Custom(Box::new(|_, _, _, _, _, left, _| if left == 0. { 0. } else { 1. })),
                s,
            )),
            Prob::Builtin(s) => Some((AcceptFunc::BuiltinHeavyside, s)),
            Prob::Param(s) => Some((
                AcceptFunc::ParametrizedHeavyside {
                    param: HeavysideParameters {
                        cutoff: 0.,
                        lin_num_total_nodes_exp: 1,
                        exp_num_total_nodes_exp: 1,
                        exp_num_remaining_nodes_exp: 1,
                        exp_diff_exp: 1,
                        exp_num_measured_nodes_exp: 1,
                    },
                },
                s,
            )),
        }
    }
}

pub fn run(inst: &Inst, cfg: &Cfg) -> Result<Vec<Path>, String> {
    call(|| {
        interface::run(
            &inst.nbrs,
            &inst.order,
            cfg.search,
            cfg.timeout,
            cfg.nthreads,
            cfg.bound,
            cfg.accept(),
        )
    })
    .map_err(|e| format!("{cfg:?}: {e}"))
}

pub fn show_inst(i: &Inst) -> Value {
    json!({"spatial": i.nbrs, "order": i.order})
}

pub fn show_paths(ps: &[Path]) -> String {
    ps.iter()
        .map(|p| format!("(time {}, space {}, {:?})", p.time, p.space, p.steps))
        .collect::<Vec<_>>()
        .join("; ")
}

pub fn costs(ps: &[Path]) -> Vec<(usize, usize)> {
    ps.iter().map(|p| (p.time, p.space)).collect()
}

// ---- judgements, one per property

pub fn valid(inst: &Inst, ps: &[Path]) -> Result<(), String> {
    for p in ps {
        inst.validate(&p.steps)
            .map_err(|e| format!("schedule {:?} is not valid: {e}", p.steps))?;
    }
    Ok(())
}

pub fn true_costs(inst: &Inst, ps: &[Path]) -> Result<(), String> {
    for p in ps {
        if p.steps.iter().flatten().any(|v| *v >= inst.n) {
            continue; // not a schedule of this instance at all, see C01
        }
        if p.time != p.steps.len() {
            return Err(format!("time {} reported for {:?}", p.time, p.steps));
        }
        let s = inst.space(&p.steps);
        if p.space != s {
            return Err(format!("space {} reported for {:?}, it is {s}", p.space, p.steps));
        }
    }
    Ok(())
}

pub fn staircase(ps: &[Path]) -> Result<(), String> {
    for w in ps.windows(2) {
        if w[0].time >= w[1].time || w[0].space <= w[1].space {
            return Err(format!(
                "not a strict staircase: (time, space) = {:?}",
                costs(ps)
            ));
        }
    }
    Ok(())
}

pub fn exact(inst: &Inst, ps: &[Path]) -> Result<(u64, u64), String> {
    let (want, c) = inst.pareto();
    let got = costs(ps);
    if got != want {
        return Err(format!("(time, space) pairs {got:?}, the optimum is {want:?}"));
    }
    Ok((c.states, c.transitions))
}

pub fn greedy(inst: &Inst, ps: &[Path]) -> Result<(), String> {
    if ps.len() != 1 {
        return Err(format!("{} schedules instead of one", ps.len()));
    }
    let mut got = ps[0].steps.clone();
    got.iter_mut().for_each(|s| s.sort());
    let want = inst.asap();
    if got != want {
        return Err(format!("steps {got:?}, as soon as possible is {want:?}"));
    }
    if ps[0].time != want.len() {
        return Err(format!("time {} for {} steps", ps[0].time, want.len()));
    }
    Ok(())
}

// ---- controlled accept functions

/// one question to the accept function, in the documented order of its arguments
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Ask {
    pub bound: f64,
    pub minimal: f64,
    pub last_max: f64,
    pub last_cur: f64,
    pub cur: f64,
    pub remaining: f64,
    pub total: f64,
}

pub type Log = Arc<Mutex<Vec<Ask>>>;

/// run a single-threaded probabilistic search with a given answer function, and log the
/// questions
pub fn run_asking(
    inst: &Inst,
    seed: Option<u64>,
    answer: impl Fn(usize, &Ask) -> f64 + Send + Sync + 'static,
) -> Result<(Vec<Path>, Vec<Ask>), String> {
    let log: Log = Default::default();
    let l = log.clone();
    let f = move |a, b, c, d, e, f, g| {
        let ask = Ask {
            bound: a,
            minimal: b,
            last_max: c,
            last_cur: d,
            cur: e,
            remaining: f,
            total: g,
        };
        let mut l = l.lock().unwrap();
        l.push(ask);
        answer(l.len() - 1, &ask)
    };
    let r = call(|| {
        interface::run(
            &inst.nbrs,
            &inst.order,
            true,
            None,
            1,
            None,
            Some((AcceptFunc::Custom(Box::new(f)), seed)),
        )
    })?;
    let log = std::mem::take(&mut *log.lock().unwrap_or_else(|e| e.into_inner()));
    Ok((r, log))
}

/// Explore all answer sequences that deviate at most `devs` times from answering
/// `default`; `visit` gets the answers that were given.
pub fn explore_answers(
    inst: &Inst,
    default: bool,
    devs: usize,
    visit: &mut impl FnMut(&[Path], &[Ask], &[bool]) -> Result<(), String>,
) -> Result<u64, String> {
    fn go(
        inst: &Inst,
        default: bool,
        devs: usize,
        prefix: Vec<bool>,
        runs: &mut u64,
        visit: &mut impl FnMut(&[Path], &[Ask], &[bool]) -> Result<(), String>,
    ) -> Result<(), String> {
        let p = prefix.clone();
        let (paths, log) = run_asking(inst, Some(0), move |i, _| {
            let yes = p.get(i).copied().unwrap_or(default);
            if yes {
                1.
            } else {
                0.
            }
        })
        .map_err(|e| format!("answers {prefix:?} then {default}: {e}"))?;
        *runs += 1;
        if log.len() < prefix.len() {
            return Err(format!(
                "the answers {prefix:?} led to only {} questions, although the same \
                 answers led to more before",
                log.len()
            ));
        }
        let mut answers = prefix.clone();
        answers.resize(log.len(), default);
        visit(&paths, &log, &answers)
            .map_err(|e| format!("answers {answers:?}: {e}"))?;
        if devs == 0 {
            return Ok(());
        }
        for i in prefix.len()..log.len() {
            let mut q = answers[..i].to_vec();
            q.push(!default);
            go(inst, default, devs - 1, q, runs, visit)?;
        }
        Ok(())
    }
    let mut runs = 0;
    go(inst, default, devs, vec![], &mut runs, visit)?;
    Ok(runs)
}

pub fn optimum(points: impl IntoIterator<Item = (usize, usize)>) -> Vec<(usize, usize)> {
    frontier(points)
}
