//! C08, C09, C10, C11: the probabilistic search and its accept functions.
use std::{
    collections::{BTreeSet, HashSet},
    sync::{
        atomic::{AtomicU64, Ordering::SeqCst},
        Arc,
    },
};

use mbqc_scheduling::{
    interface,
    probabilistic::{AcceptFunc, HeavysideParameters},
};
use mcfw::{call, json, Out, Section, Tier};
use model::{frontier, Inst, Mask, StepKey};

use crate::{common::*, insts::*};

/// the situations the steps of one schedule are taken in
pub struct PathInfo {
    pub cost: (usize, usize),
    pub keys: Vec<StepKey>,
}

pub fn path_infos(inst: &Inst) -> Vec<PathInfo> {
    let mut v = Vec::new();
    inst.each_path(&mut |p| {
        v.push(PathInfo {
            cost: (p.len(), inst.peak(p)),
            keys: (0..p.len()).map(|i| inst.key(&p[..i], p[i])).collect(),
        });
    });
    v
}

/// what an accept function can distinguish, with or without the remaining nodes
pub fn proj(k: StepKey, full: bool) -> StepKey {
    StepKey { remaining: if full { k.remaining } else { 0 }, ..k }
}

pub fn ask_key(a: &Ask) -> StepKey {
    StepKey {
        last_max: a.last_max as u32,
        last_cur: a.last_cur as u32,
        cur: a.cur as u32,
        remaining: a.remaining as u32,
    }
}

pub fn with_rejected(infos: &[PathInfo], rej: &BTreeSet<StepKey>, full: bool) -> Vec<(usize, usize)> {
    frontier(
        infos
            .iter()
            .filter(|i| i.keys.iter().all(|k| !rej.contains(&proj(*k, full))))
            .map(|i| i.cost),
    )
}

/// the rejected sets that are tried: none, all, every single, every pair, and for every
/// schedule everything but its own steps
pub fn reject_sets(infos: &[PathInfo], full: bool, pairs: bool) -> Vec<BTreeSet<StepKey>> {
    let all: BTreeSet<StepKey> =
        infos.iter().flat_map(|i| i.keys.iter().map(|k| proj(*k, full))).collect();
    let list: Vec<_> = all.iter().copied().collect();
    let mut sets = BTreeSet::new();
    sets.insert(BTreeSet::new());
    sets.insert(all.clone());
    for (i, a) in list.iter().enumerate() {
        sets.insert(BTreeSet::from([*a]));
        if pairs {
            for b in &list[..i] {
                sets.insert(BTreeSet::from([*a, *b]));
            }
        }
    }
    for p in infos {
        let own: BTreeSet<_> = p.keys.iter().map(|k| proj(*k, full)).collect();
        sets.insert(all.difference(&own).copied().collect());
    }
    sets.into_iter().collect()
}

fn reject_section(f: Family, pairs: bool) -> Section {
    f.section(if pairs { "reject-pairs" } else { "reject" }, move |inst, o| {
        let infos = path_infos(inst);
        let feasible: HashSet<StepKey> =
            infos.iter().flat_map(|i| i.keys.iter().copied()).collect();
        for full in [false, true] {
            let known: HashSet<StepKey> =
                feasible.iter().map(|k| proj(*k, full)).collect();
            for rej in reject_sets(&infos, full, pairs) {
                let want = with_rejected(&infos, &rej, full);
                let r = rej.clone();
                let (ps, log) = run_asking(inst, Some(0), move |_, a| {
                    if r.contains(&proj(ask_key(a), full)) {
                        0.
                    } else {
                        1.
                    }
                })
                .map_err(|e| format!("rejecting {rej:?}: {e}"))?;
                if log.iter().any(|a| !known.contains(&proj(ask_key(a), full))) {
                    // the questions do not identify steps (C09 is about that)
                    o.capped += 1;
                    continue;
                }
                o.validated += 1;
                o.states += log.len() as u64 + 1;
                o.transitions += log.len() as u64;
                o.nontrivial += (!want.is_empty() && !rej.is_empty()) as u64;
                if costs(&ps) != want {
                    return Err(format!(
                        "rejecting the step situations {rej:?} and accepting all others \
                         gives {:?}; the optimum of the schedules without a rejected \
                         step is {want:?}; returned {}",
                        costs(&ps),
                        show_paths(&ps)
                    ));
                }
                for p in &ps {
                    let ms = inst.steps_to_masks(&p.steps);
                    for i in 0..ms.len() {
                        let k = proj(inst.key(&ms[..i], ms[i]), full);
                        if rej.contains(&k) {
                            return Err(format!(
                                "the schedule {:?} contains a rejected step, {k:?}",
                                p.steps
                            ));
                        }
                    }
                }
                o.note = Some(format!("rejecting {} situations: {want:?}", rej.len()));
            }
        }
        Ok(())
    })
}

/// every k-th graph of each order
fn classes5_every(k: usize) -> Family {
    let mut f = classes(5);
    if k > 1 {
        let g = f.gen.clone();
        // (the number of graphs is a power of two)
        f.name = format!("classes5_every{k}");
        f.rule = format!("{}, every {k}th", f.rule);
        f.len /= k;
        f.gen = std::sync::Arc::new(move |i| g(i * k + i % k));
    }
    f
}

pub fn c08(tier: Tier) -> Vec<Section> {
    let q = tier == Tier::Quick;
    let mut v = Vec::new();
    for n in 1..=3 {
        v.push(reject_section(labelled(n, false), true));
        v.push(reject_section(labelled(n, true), false));
    }
    v.push(reject_section(classes(4), true));
    v.push(reject_section(structured(5..=6, if q { 600 } else { 5000 }), false));
    v.push(reject_section(deep(8..=if q { 9 } else { 11 }, 1..=2), false));
    v.push(reject_section(labelled(4, false), true));
    v.push(reject_section(structured(5..=5, 600), true));
    v.push(reject_section(classes5_every(if q { 4 } else { 1 }), false));
    v.push(reject_section(structured(6..=6, 600), true));
    if !q {
        v.push(reject_section(structured(7..=7, 2000), true));
    }
    // accepting everything is the exact search, whatever number says "certain"
    for f in [labelled(3, false), classes(4), classes(5), structured(5..=8, 200_000)] {
        v.push(f.section("accept-all", |inst, o| {
            for p in [1., 1.5, 1e300, f64::INFINITY] {
                let ps = run(inst, &Cfg::prob(Prob::Const(p, Some(3))))?;
                let (s, t) = exact(inst, &ps)
                    .map_err(|e| format!("accept function that returns {p}: {e}"))?;
                o.states += s;
                o.transitions += t;
                o.validated += 1;
                o.nontrivial += (ps.len() > 1) as u64;
            }
            let ps = run(inst, &Cfg::prob(Prob::Const(0., Some(3))))?;
            o.validated += 1;
            if !ps.is_empty() {
                return Err(format!("always rejecting gives {}", show_paths(&ps)));
            }
            Ok(())
        }));
    }
    v
}

// ---- C09

pub const UNSET: f64 = usize::MAX as f64;

/// All positions of a depth-first traversal that are consistent with the questions so
/// far: the open path, and the lowest space found so far for each length.
pub struct Tracker<'l> {
    inst: &'l Inst,
    cands: BTreeSet<(Vec<Mask>, Vec<usize>)>,
    pub seen: u64,
}

impl<'l> Tracker<'l> {
    pub fn new(inst: &'l Inst) -> Self {
        Tracker {
            inst,
            cands: BTreeSet::from([(vec![], vec![usize::MAX; inst.n + 1])]),
            seen: 0,
        }
    }

    pub fn ask(&mut self, a: &Ask, accepted: bool) -> Result<(), String> {
        let inst = self.inst;
        let mut next = BTreeSet::new();
        let mut near: Vec<String> = Vec::new();
        for (path, best) in &self.cands {
            for l in 0..=path.len() {
                let parent = &path[..l];
                let m = parent.iter().fold(0, |x, y| x | y);
                let avail = inst.available(m);
                let mut s = avail;
                while s != 0 {
                    let k = inst.key(parent, s);
                    let left = k.remaining as usize;
                    let blocked = left - inst.available(m | s).count_ones() as usize;
                    let len = l + 1 + if left == 0 { 0 } else if blocked == 0 { 1 } else { 2 };
                    let want = Ask {
                        bound: best[len] as f64,
                        minimal: best[inst.n] as f64,
                        last_max: k.last_max as f64,
                        last_cur: k.last_cur as f64,
                        cur: k.cur as f64,
                        remaining: k.remaining as f64,
                        total: inst.n as f64,
                    };
                    self.seen += 1;
                    if want == *a {
                        let mut p = parent.to_vec();
                        let mut b = best.clone();
                        if accepted {
                            p.push(s);
                            if m | s == inst.full() {
                                // a complete schedule has been found
                                let peak = inst.peak(&p);
                                for x in b[p.len()..].iter_mut() {
                                    *x = (*x).min(peak);
                                }
                                p.pop();
                            }
                        }
                        next.insert((p, b));
                    } else if near.len() < 4 && l == path.len() {
                        near.push(format!("{want:?}"));
                    }
                    s = (s - 1) & avail;
                }
            }
        }
        self.cands = next;
        if self.cands.is_empty() {
            return Err(format!(
                "the accept function is asked with {a:?}, which fits no step that can \
                 come next; possible would be, e.g., {}",
                near.join(" or ")
            ));
        }
        Ok(())
    }
}

fn ask_section(f: Family, default: bool, devs: usize) -> Section {
    f.section(
        &format!("questions-{}-dev{devs}", if default { "accept" } else { "reject" }),
        move |inst, o| {
            let mut seen = 0;
            let mut asks = 0;
            let runs = explore_answers(inst, default, devs, &mut |_, log, ans| {
                let mut t = Tracker::new(inst);
                for (i, a) in log.iter().enumerate() {
                    if i == 0 && (a.bound != UNSET || a.minimal != UNSET) {
                        return Err(format!(
                            "before anything was found, the accept function is told {a:?}"
                        ));
                    }
                    t.ask(a, ans[i]).map_err(|e| format!("question {i}: {e}"))?;
                }
                seen += t.seen;
                asks += log.len() as u64;
                Ok(())
            })?;
            o.validated += runs;
            o.states += asks + runs;
            o.transitions += seen;
            o.nontrivial += (asks > runs) as u64;
            o.note = Some(format!("{runs} answer sequences, {asks} questions"));
            Ok(())
        },
    )
}

/// many first steps; a few questions are answered with yes
fn few_accepted(f: Family, sets: Vec<Vec<usize>>) -> Section {
    f.section("questions-few-accepted", move |inst, o| {
        for yes in &sets {
            let y = yes.clone();
            let (_, log) = run_asking(inst, Some(0), move |i, _| if y.contains(&i) { 1. } else { 0. })?;
            let mut t = Tracker::new(inst);
            for (i, a) in log.iter().enumerate() {
                t.ask(a, yes.contains(&i))
                    .map_err(|e| format!("accepting only the questions {yes:?}; question {i}: {e}"))?;
            }
            o.validated += 1;
            o.states += log.len() as u64 + 1;
            o.transitions += t.seen;
            o.nontrivial += 1;
        }
        Ok(())
    })
}

/// there is one question at a time, and only one schedule
fn chain_questions() -> Section {
    let sizes = [1usize, 2, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 258, 300, 511, 512, 513, 700];
    Section::new(
        "questions-chain",
        format!("chains of {sizes:?} nodes x graphs without edges, path, star: every question of the only schedule, for every number of accepted ones in a set"),
        sizes.len() * 3,
        move |i| (sizes[i / 3], i % 3),
        |c| json!({"nodes": c.0, "graph": c.1}),
        |&(n, g), o| {
            let edge = |v: usize, w: usize| match g {
                0 => false,
                1 => v.abs_diff(w) == 1,
                _ => v != w && v.min(w) == 0,
            };
            let nbrs: Vec<Vec<usize>> = (0..n).map(|v| (0..n).filter(|w| edge(v, *w)).collect()).collect();
            let order = long_chain(n).1;
            // memory: initialised by the steps up to v, not measured by them
            let mut init = vec![false; n];
            let (mut cur, mut max) = (0u64, 0u64);
            let mut want = Vec::new();
            for v in 0..n {
                let before = (cur, max);
                for w in (0..n).filter(|w| *w == v || edge(v, *w)) {
                    if !std::mem::replace(&mut init[w], true) {
                        cur += 1;
                    }
                }
                max = max.max(cur);
                cur -= 1;
                want.push([UNSET, UNSET, before.1 as f64, before.0 as f64, cur as f64, (n - 1 - v) as f64, n as f64]);
            }
            for stop in [0, 1, n / 2, n - 1, n] {
                let log: Arc<std::sync::Mutex<Vec<[f64; 7]>>> = Default::default();
                let l = log.clone();
                let f = AcceptFunc::Custom(Box::new(move |a, b, c, d, e, f, g| {
                    let mut l = l.lock().unwrap();
                    l.push([a, b, c, d, e, f, g]);
                    if l.len() <= stop { 1. } else { 0. }
                }));
                call(|| interface::run(&nbrs, &order, true, None, 1, None, Some((f, Some(1)))))?;
                let got = log.lock().unwrap().clone();
                let asked = (stop + 1).min(n);
                if got.len() != asked {
                    return Err(format!("{} questions, {asked} expected, when {stop} steps are accepted", got.len()));
                }
                if let Some(k) = (0..asked).find(|k| got[*k] != want[*k]) {
                    return Err(format!("question {k} is {:?}, expected {:?}", got[k], want[k]));
                }
                o.states += asked as u64;
                o.transitions += asked as u64;
                o.validated += 1;
            }
            o.nontrivial += 1;
            Ok(())
        },
    )
}

pub fn c09(tier: Tier) -> Vec<Section> {
    let q = tier == Tier::Quick;
    let mut v = Vec::new();
    for n in 1..=3 {
        v.push(ask_section(labelled(n, false), true, if n < 3 { 9 } else { 2 }));
        v.push(ask_section(labelled(n, false), false, if n < 3 { 9 } else { 3 }));
    }
    let d = |quick: usize, thorough: usize| if q { quick } else { thorough };
    v.push(ask_section(classes(4), true, d(3, 4)));
    v.push(ask_section(classes(4), false, d(3, 4)));
    v.push(ask_section(labelled(4, false), true, d(1, 2)));
    v.push(ask_section(labelled(4, false), false, d(2, 3)));
    v.push(ask_section(structured(5..=5, 600), true, d(1, 2)));
    v.push(ask_section(structured(5..=5, 600), false, d(2, 2)));
    v.push(ask_section(structured(6..=7, if q { 3000 } else { 10_000 }), true, 0));
    v.push(ask_section(structured(6..=7, if q { 1000 } else { 10_000 }), false, 1));
    v.push(ask_section(deep(8..=12, 1..=2), true, d(1, 2)));
    v.push(ask_section(classes(5), true, 0));
    v.push(chain_questions());
    let sets = |k: usize| -> Vec<Vec<usize>> {
        let mut v: Vec<Vec<usize>> = (0..=k).map(|k| (0..k).collect()).collect();
        v.extend([vec![1], vec![2], vec![0, 2], vec![0, 5], vec![7]]);
        v
    };
    v.push(few_accepted(wide(6..=8), sets(4)));
    v.push(few_accepted(wide(9..=11), sets(d(2, 3))));
    v.push(ask_section(classes(5), false, d(1, 2)));
    v
}

// ---- C10

fn repro_section(f: Family, seeds: u64) -> Section {
    f.section("repeat", move |inst, o| {
        type A = fn(usize, &Ask) -> f64;
        let answers: [(&str, A); 3] = [
            ("always 0.5", |_, _| 0.5),
            ("0.9 after, 0.3 before a result", |_, a| {
                if a.minimal == UNSET {
                    0.3
                } else {
                    0.9
                }
            }),
            ("depending on the memory", |_, a| 1. / (1. + a.cur)),
        ];
        for (name, f) in answers {
            let mut distinct = HashSet::new();
            for seed in 0..seeds {
                let show = |p: &(Vec<interface::Path>, Vec<Ask>)| {
                    format!("{} after {:?}", show_paths(&p.0), p.1)
                };
                let first = show(&run_asking(inst, Some(seed), f)?);
                for _ in 0..2 {
                    let again = show(&run_asking(inst, Some(seed), f)?);
                    o.validated += 1;
                    if first != again {
                        return Err(format!(
                            "{name}, seed {seed}: two runs differ: {first} / {again}"
                        ));
                    }
                }
                o.states += 1;
                o.transitions += 2;
                distinct.insert(first);
            }
            o.nontrivial += (distinct.len() > 1) as u64;
            o.note = Some(format!("{} different runs for {seeds} seeds", distinct.len()));
        }
        Ok(())
    })
}

/// run() with nthreads < 2: same thread, same result for 0 and 1
/// what seeded calls return and ask, one line each
fn digest() -> Result<Vec<String>, String> {
    let mut v = Vec::new();
    for f in [labelled(2, false), classes(3), structured(4..=6, 2000)] {
        for i in 0..f.len {
            let inst = (f.gen)(i);
            for seed in 0..4 {
                let (ps, log) = run_asking(&inst, Some(seed * 77), |k, a| {
                    if a.remaining == 0. { 0.8 } else { 0.3 + 0.4 * (k % 2) as f64 }
                })?;
                let h = log.iter().fold(0u64, |h, a| {
                    [a.bound, a.minimal, a.last_max, a.last_cur, a.cur, a.remaining]
                        .iter()
                        .fold(h, |h, x| (h ^ x.to_bits()).wrapping_mul(0x100000001b3).rotate_left(17))
                });
                v.push(format!("{} {i} seed {}: {} after {} questions, {h:x}", f.name, seed * 77, show_paths(&ps), log.len()));
                let ps = run(&inst, &Cfg::prob(Prob::Builtin(Some(seed))))?;
                v.push(format!("{} {i} builtin, seed {seed}: {}", f.name, show_paths(&ps)));
            }
        }
    }
    Ok(v)
}

pub fn print_digest() {
    match digest() {
        Ok(v) => v.iter().for_each(|l| println!("{l}")),
        Err(e) => println!("{e}"),
    }
}

/// the same in other processes, which have other addresses and other environments
fn processes() -> Section {
    Section::new(
        "processes",
        "every instance with 2 nodes, 3 nodes up to relabelling, structured ones with 4 to 6, 4 seeds, two accept \
         functions: results and questions are the same in this process and in 6 others with other environments, \
         arguments and working directories",
        6,
        |i| i,
        |i| json!({"process": i}),
        |&i, o| {
            let want = digest()?;
            let mut c = std::process::Command::new(std::env::current_exe().map_err(|e| e.to_string())?);
            c.arg("digest").args(vec!["x"; i]).env("MC_DIGEST", "y".repeat(i * 100));
            match i % 3 {
                0 => c.env_clear(),
                1 => c.current_dir("/"),
                _ => c.env("RUST_LOG", "off").env("TZ", "Asia/Tokyo"),
            };
            let out = c.output().map_err(|e| format!("cannot be started again: {e}"))?;
            let text = String::from_utf8_lossy(&out.stdout);
            let got: Vec<&str> = text.lines().collect();
            o.validated += want.len() as u64;
            o.states += want.len() as u64;
            o.transitions += want.len() as u64;
            o.nontrivial += 1;
            if !out.status.success() {
                return Err(format!("the other process ends with {}", out.status));
            }
            for (k, w) in want.iter().enumerate() {
                if got.get(k) != Some(&w.as_str()) {
                    return Err(format!("here: {w}; in another process: {}", got.get(k).unwrap_or(&"nothing")));
                }
            }
            Ok(())
        },
    )
}

fn caller_section(f: Family) -> Section {
    f.section("caller-thread", |inst, o| {
        let mut results = Vec::new();
        for nthreads in [0u16, 1] {
            for bound in [None, Some(0), Some(1), Some(5)] {
                let caller = std::thread::current().id();
                let bad = std::sync::Arc::new(std::sync::atomic::AtomicU64::new(0));
                let b = bad.clone();
                let r = call(|| {
                    interface::run(
                        &inst.nbrs,
                        &inst.order,
                        true,
                        None,
                        nthreads,
                        bound,
                        Some((
                            AcceptFunc::Custom(Box::new(move |_, _, _, _, _, _, _| {
                                if std::thread::current().id() != caller {
                                    b.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                                }
                                0.6
                            })),
                            Some(7),
                        )),
                    )
                })?;
                o.validated += 1;
                o.states += 1;
                o.transitions += 1;
                if bad.load(std::sync::atomic::Ordering::SeqCst) > 0 {
                    return Err(format!(
                        "nthreads {nthreads}: the accept function was called on another thread"
                    ));
                }
                results.push(show_paths(&r));
            }
        }
        if results.windows(2).any(|w| w[0] != w[1]) {
            return Err(format!("fewer than two threads, same seed, but {results:?}"));
        }
        o.nontrivial += !results[0].is_empty() as u64;
        o.note = Some(results[0].clone());
        Ok(())
    })
}

fn chain(n: usize) -> Inst {
    let dep: Vec<Mask> = (0..n).map(|v| if v > 0 { 1 << (v - 1) } else { 0 }).collect();
    Inst::from_masks(&model::graph(n, 0), &dep, false)
}

type Lists = (Vec<Vec<usize>>, Vec<Vec<(usize, Vec<usize>)>>);

/// one schedule, of n steps
fn long_chain(n: usize) -> Lists {
    (vec![vec![]; n], (0..n).map(|v| vec![(v, if v > 0 { vec![v - 1] } else { vec![] })]).collect())
}

/// chains: every schedule is found iff all n questions are answered with yes
fn frequency_sections(tier: Tier) -> Vec<Section> {
    let probs = [0.02, 0.1, 0.25, 0.5, 0.75, 0.9, 0.98];
    let seeds: u64 = if tier == Tier::Quick { 20_000 } else { 400_000 };
    let mut cases = Vec::new();
    for n in 1..=4usize {
        for p in probs {
            cases.push((n, p));
        }
    }
    let mut v = Vec::new();
    let len = cases.len();
    v.push(Section::new(
        "frequency",
        format!(
            "chains of 1..=4 nodes x 7 probabilities, all seeds below {seeds}: the schedule \
             is found for a share p^n of the seeds (within 6 standard deviations)"
        ),
        len,
        move |i| cases[i],
        |c| json!({"chain": c.0, "p": c.1}),
        move |&(n, p), o| {
            let inst = chain(n);
            let mut found = 0;
            for seed in 0..seeds {
                let ps = run(&inst, &Cfg::prob(Prob::Const(p, Some(seed))))?;
                found += !ps.is_empty() as u64;
            }
            o.validated += seeds;
            o.states += seeds;
            o.transitions += seeds;
            o.nontrivial += 1;
            let want = p.powi(n as i32);
            let got = found as f64 / seeds as f64;
            let sigma = (want * (1. - want) / seeds as f64).sqrt();
            o.note = Some(format!("{got} of the seeds, expected {want}"));
            if (got - want).abs() > 6. * sigma + 1e-9 {
                return Err(format!(
                    "with accept probability {p}, a chain of {n} steps is completed for a \
                     share of {got} of {seeds} seeds instead of {want}"
                ));
            }
            Ok(())
        },
    ));
    // every decision of its own: rare and nearly certain events, too
    let k: u64 = if tier == Tier::Quick { 1 } else { 20 };
    let cases: Vec<f64> = vec![
        5e-324, f64::MIN_POSITIVE, 1e-12, 1e-9, 1e-6, 1e-5, 1e-4, 5e-4, 0.0009, 0.001, 0.002, 0.005, 0.01, 0.03, 0.1, 0.3,
        0.5, 0.7, 0.9, 0.97, 0.99, 0.995, 0.998, 0.999, 0.9991, 0.9999, 0.99999, 1. - 1e-9, 1. - f64::EPSILON,
    ];
    v.push(Section::new(
        "decisions",
        format!(
            "{} probabilities from 5e-324 to next to 1: the share of the first steps that is taken, of 16 independent \
             nodes for rare events and 8 for others (2nd steps are rejected), or the share of the steps of a chain of 40 nodes \
             that is taken for frequent ones; over all seeds below a number, some million decisions; within 6 standard \
             deviations; of the former each run is made twice, with equal questions",
            cases.len()
        ),
        cases.len(),
        move |i| cases[i],
        |p| json!({"p": p}),
        move |&p, o| {
            let (n, seeds) = match p {
                _ if p < 0.0015 => (16, 40 * k),
                _ if p < 0.8 => (8, 160 * k),
                _ if p < 0.9995 => (40, 30_000 * k),
                _ => (40, 300_000 * k),
            };
            let (mut taken, mut all) = (0u64, 0u64);
            let long = if n == 40 { Some((long_chain(n), Arc::new(AtomicU64::new(0)))) } else { None };
            let wide = Inst::from_masks(&vec![0; n.min(16)], &vec![0; n.min(16)], false);
            for seed in 0..seeds {
                if let Some((inst, asked)) = &long {
                    let c = asked.clone();
                    let f = AcceptFunc::Custom(Box::new(move |_, _, _, _, _, _, _| {
                        c.fetch_add(1, SeqCst);
                        p
                    }));
                    let ps = call(|| interface::run(&inst.0, &inst.1, true, None, 1, None, Some((f, Some(seed)))))?;
                    let q = asked.swap(0, SeqCst);
                    all += q;
                    taken += q - ps.is_empty() as u64;
                    o.transitions += q;
                    o.states += 1;
                    o.validated += 1;
                    continue;
                }
                let first_steps = (1u64 << n) - 2;
                let go = || {
                    run_asking(&wide, Some(seed), move |_, a| {
                        // the schedule of a single step would prune all others
                        if a.last_cur == 0. && a.last_max == 0. && a.remaining > 0. {
                            p
                        } else {
                            0.
                        }
                    })
                };
                let (ps, log) = go()?;
                let (qs, again) = go()?;
                if log != again || show_paths(&ps) != show_paths(&qs) {
                    return Err(format!(
                        "seed {seed}, accept probability {p}: {} questions in the first run, {} in the second; they differ",
                        log.len(),
                        again.len()
                    ));
                }
                // after a step that is taken the next question is about one after it
                let second = |a: &Ask| a.last_max > 0.;
                let asked = log.iter().filter(|a| !second(a)).count() as u64;
                if asked != first_steps + 1 {
                    return Err(format!(
                        "seed {seed}, accept probability {p}: {asked} questions about a first step, there are {}",
                        first_steps + 1
                    ));
                }
                taken += (1..log.len()).filter(|k| second(&log[*k]) && !second(&log[*k - 1])).count() as u64;
                all += first_steps;
                o.transitions += 2 * log.len() as u64;
                o.states += 2;
                o.validated += 2;
            }
            o.nontrivial += 1;
            let all = all as f64;
            let sigma = (p * (1. - p) / all).sqrt();
            let got = taken as f64 / all;
            o.note = Some(format!("{taken} of {all} steps taken, expected {}", p * all));
            // (a few more for very rare events)
            if (got - p).abs() > 6. * sigma + 3. / all {
                return Err(format!(
                    "with accept probability {p}, {taken} of {all} steps are taken, instead of about {}",
                    p * all
                ));
            }
            Ok(())
        },
    ));
    // without a seed nothing is repeated (what is expected happens but for 1 in 10^100)
    v.push(Section::new(
        "unseeded",
        "a chain of 1..=4 nodes, 8000 calls without a seed, 0 and 1 threads: some complete it, some do not",
        8,
        |i| (i % 4 + 1, (i / 4) as u16),
        |c| json!({"chain": c.0, "threads": c.1}),
        |&(n, nthreads), o| {
            let inst = chain(n);
            let mut cfg = Cfg::prob(Prob::Const(0.5, None));
            cfg.nthreads = nthreads;
            let mut found = 0;
            for _ in 0..8000 {
                found += !run(&inst, &cfg)?.is_empty() as u64;
                o.validated += 1;
                o.states += 1;
                o.transitions += 1;
            }
            o.nontrivial += 1;
            if found == 0 || found == 8000 {
                return Err(format!("{found} of 8000 calls without a seed found the schedule"));
            }
            Ok(())
        },
    ));
    // certain answers do not depend on the seed
    v.push(Section::new(
        "certain",
        "chains of 1..=4 nodes, every seed below 2000 and none: probability >= 1 always \
         completes, 0 never",
        4,
        |i| i + 1,
        |c| json!({"chain": c}),
        |&n, o| {
            let inst = chain(n);
            for seed in (0..2000).map(Some).chain([None; 50]) {
                for p in [1., 1.0000001, 3., f64::INFINITY, 0.] {
                    let ps = run(&inst, &Cfg::prob(Prob::Const(p, seed)))?;
                    if ps.len() != (p >= 1.) as usize {
                        return Err(format!(
                            "accept probability {p}, seed {seed:?}: {} schedules",
                            ps.len()
                        ));
                    }
                    o.validated += 1;
                    o.states += 1;
                    o.transitions += 1;
                }
            }
            o.nontrivial += 1;
            Ok(())
        },
    ));
    v
}

pub fn c10(tier: Tier) -> Vec<Section> {
    let q = tier == Tier::Quick;
    let mut v = vec![
        repro_section(labelled(3, false), 8),
        repro_section(classes(4), if q { 4 } else { 32 }),
        repro_section(structured(5..=6, 20_000), if q { 3 } else { 16 }),
        processes(),
        caller_section(labelled(3, false)),
        caller_section(classes(4)),
    ];
    v.extend(frequency_sections(tier));
    v
}

// ---- C11

fn pow(x: f64, e: i32) -> f64 {
    let mut r = 1.;
    for _ in 0..e.unsigned_abs() {
        r *= x;
    }
    if e < 0 {
        1. / r
    } else {
        r
    }
}

#[derive(Clone, Copy, Debug)]
struct Par {
    cutoff: f64,
    a: i32,
    b: i32,
    c: i32,
    d: i32,
    e: i32,
}

/// the documented formula
fn formula(p: Par, minimal: f64, last_max: f64, cur: f64, rem: f64, tot: f64) -> f64 {
    let diff = minimal - if cur > last_max { cur } else { last_max };
    if diff < p.cutoff {
        return 0.;
    }
    let x = pow(tot, p.b) * pow(rem, p.c) / pow(diff, p.d) / pow(tot - rem, p.e);
    pow(tot, p.a) * (-x).exp()
}

fn same(a: f64, b: f64) -> bool {
    (a.is_nan() && b.is_nan())
        || a == b
        || (a - b).abs() <= 1e-9 * a.abs().max(b.abs()) + 1e-280
}

const BUILTIN: Par = Par { cutoff: 0., a: 2, b: 1, c: 1, d: 3, e: 1 };

fn arg_grid(dense: bool) -> Vec<[f64; 7]> {
    let mut v = Vec::new();
    let tots: &[usize] = if dense { &[1, 2, 3, 5, 8, 13, 40] } else { &[1, 2, 5, 9] };
    for &tot in tots {
        for rem in 0..=tot {
            if !dense && rem > 2 && rem + 2 < tot {
                continue;
            }
            for min in [0, 1, 2, 3, 4, 7, 12, 30, usize::MAX] {
                for last_max in [0usize, 1, 2, 4, 9] {
                    for cur in [0usize, 1, 3, 4, 8] {
                        for (bound, last_cur) in [(usize::MAX, 0), (3, 2), (0, 7)] {
                            v.push([
                                bound as f64,
                                min as f64,
                                last_max as f64,
                                last_cur as f64,
                                cur as f64,
                                rem as f64,
                                tot as f64,
                            ]);
                        }
                    }
                }
            }
        }
    }
    v
}

fn func_of(p: Par) -> AcceptFunc {
    AcceptFunc::ParametrizedHeavyside {
        param: HeavysideParameters {
            cutoff: p.cutoff,
            lin_num_total_nodes_exp: p.a,
            exp_num_total_nodes_exp: p.b,
            exp_num_remaining_nodes_exp: p.c,
            exp_diff_exp: p.d,
            exp_num_measured_nodes_exp: p.e,
        },
    }
}

fn check_formula(f: AcceptFunc, p: Par, grid: &[[f64; 7]], o: &mut Out) -> Result<(), String> {
    let f = call(|| f.get_accept_func())?;
    for a in grid {
        let got = call(|| f(a[0], a[1], a[2], a[3], a[4], a[5], a[6]))?;
        let want = formula(p, a[1], a[2], a[4], a[5], a[6]);
        o.validated += 1;
        o.transitions += 1;
        o.nontrivial += (want > 0. && want.is_finite()) as u64;
        if !same(got, want) {
            return Err(format!("{p:?} at {a:?} gives {got}, the formula {want}"));
        }
    }
    o.states += 1;
    Ok(())
}

pub fn c11(tier: Tier) -> Vec<Section> {
    let q = tier == Tier::Quick;
    let mut pars = Vec::new();
    let exps: &[i32] = if q { &[-1, 0, 1, 2, 3] } else { &[-3, -2, -1, 0, 1, 2, 3, 4] };
    let cutoffs: &[f64] = if q { &[-1., 0., 1., 2.5] } else { &[-3., -1., -0.5, 0., 0.5, 1., 2.5, 4.] };
    for &cutoff in cutoffs {
        for &a in exps {
            for &b in exps {
                for &c in exps {
                    for &d in exps {
                        for &e in exps {
                            pars.push(Par { cutoff, a, b, c, d, e });
                        }
                    }
                }
            }
        }
    }
    let pars = std::sync::Arc::new(pars);
    let mut v = Vec::new();
    v.push(Section::new(
        "builtin",
        "the default function and the parametrised one with (0, 2, 1, 1, 3, 1) on the dense \
         argument grid",
        3,
        |i| i,
        |i| json!({"function": (["BuiltinHeavyside", "default", "ParametrizedHeavyside"][*i])}),
        |i, o| {
            let f = match i {
                0 => AcceptFunc::BuiltinHeavyside,
                1 => AcceptFunc::default(),
                _ => func_of(BUILTIN),
            };
            check_formula(f, BUILTIN, &arg_grid(true), o)
        },
    ));
    let p2 = pars.clone();
    let grid = arg_grid(false);
    v.push(Section::new(
        "parametrized",
        format!(
            "all combinations of the cutoffs {cutoffs:?} and the exponents {exps:?} in all five \
             places x {} argument tuples",
            grid.len()
        ),
        pars.len(),
        move |i| p2[i],
        |p| json!(format!("{p:?}")),
        move |p, o| check_formula(func_of(*p), *p, &grid, o),
    ));
    // one exponent or cutoff far out
    let far = [5, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 126, 127, 128, 129, 130, 200, 255, 256, 257, 300, 400];
    let mut cases = Vec::new();
    for place in 0..5 {
        for e in far.iter().flat_map(|e| [*e, -*e]) {
            for rest in [0, 1] {
                let mut x = [rest; 5];
                x[place] = e;
                cases.push(Par { cutoff: 0., a: x[0], b: x[1], c: x[2], d: x[3], e: x[4] });
            }
        }
    }
    for cutoff in [
        f64::INFINITY, f64::NEG_INFINITY, f64::MAX, f64::MIN, f64::MIN_POSITIVE, 1e-9, 0.1, 100., 1e3, 1e6, 1e10, 1e19,
        2e19, 255., 256., 65_536., 4294967296., -1e-9, -100., -1e10, -0.,
    ] {
        cases.push(Par { cutoff, ..BUILTIN });
    }
    let c2 = cases.clone();
    let mut grid = arg_grid(false);
    for tot in [100usize, 255, 256, 300, 1000, 65_536, 1 << 20] {
        for rem in [0, 1, tot / 2, tot - 1] {
            for (min, last, cur) in [(tot, 1, 2), (usize::MAX, 0, 1), (tot / 2, 3, 1), (300, 2, 43), (3, 2, 2)] {
                grid.push([3., min as f64, last as f64, 1., cur as f64, rem as f64, tot as f64]);
            }
        }
    }
    // where the powers themselves are in range, so that the order of the operations does not matter
    let tame = move |p: &Par, a: &[f64; 7]| -> bool {
        let diff = a[1] - a[2].max(a[4]);
        let f = [pow(a[6], p.a), pow(a[6], p.b), pow(a[5], p.c), pow(diff, p.d), pow(a[6] - a[5], p.e)];
        diff < p.cutoff || f.iter().all(|x| x.is_finite() && (1e-150..1e150).contains(&x.abs()))
    };
    v.push(Section::new(
        "parametrized-far",
        format!(
            "{} parameter sets with one exponent out of {far:?}, positive and negative, or a cutoff far out or next to 0, x {} argument \
             tuples (up to 2^20 nodes)",
            cases.len(),
            grid.len()
        ),
        cases.len(),
        move |i| c2[i],
        |p| json!(format!("{p:?}")),
        move |p, o| {
            let g: Vec<[f64; 7]> = grid.iter().filter(|a| tame(p, a)).copied().collect();
            check_formula(func_of(*p), *p, &g, o)
        },
    ));
    v.push(Section::new(
        "custom",
        "a custom function is called with the same arguments and its value returned, on the \
         dense argument grid",
        1,
        |i| i,
        |_| json!("weighted sum"),
        |_, o| {
            let w = |a: &[f64; 7]| {
                a.iter().enumerate().map(|(i, x)| x.min(1e6) * 10f64.powi(i as i32)).sum::<f64>()
            };
            let f = AcceptFunc::Custom(Box::new(move |a, b, c, d, e, f, g| {
                w(&[a, b, c, d, e, f, g])
            }));
            let f = f.get_accept_func();
            for a in arg_grid(true) {
                let got = call(|| f(a[0], a[1], a[2], a[3], a[4], a[5], a[6]))?;
                o.validated += 1;
                o.transitions += 1;
                o.states += 1;
                o.nontrivial += 1;
                if got != w(&a) {
                    return Err(format!("custom function at {a:?} gives {got}, not {}", w(&a)));
                }
            }
            Ok(())
        },
    ));
    // inside the search: the named function behaves as the formula given as custom function
    for f in [labelled(3, false), classes(4)] {
        v.push(f.section("in-search", |inst, o| {
            for seed in 0..4u64 {
                for (named, p) in [
                    (AcceptFunc::BuiltinHeavyside, BUILTIN),
                    (
                        func_of(Par { cutoff: 0., a: 0, b: 1, c: 1, d: 1, e: 0 }),
                        Par { cutoff: 0., a: 0, b: 1, c: 1, d: 1, e: 0 },
                    ),
                    (
                        func_of(Par { cutoff: 2., a: 1, b: 0, c: 1, d: 2, e: 1 }),
                        Par { cutoff: 2., a: 1, b: 0, c: 1, d: 2, e: 1 },
                    ),
                ] {
                    let r = |f: AcceptFunc| {
                        call(|| {
                            interface::run(
                                &inst.nbrs,
                                &inst.order,
                                true,
                                None,
                                1,
                                None,
                                Some((f, Some(seed))),
                            )
                        })
                    };
                    let a = show_paths(&r(named)?);
                    let b = show_paths(&r(AcceptFunc::Custom(Box::new(
                        move |_, min, lm, _, cur, rem, tot| formula(p, min, lm, cur, rem, tot),
                    )))?);
                    o.validated += 1;
                    o.states += 1;
                    o.transitions += 2;
                    o.nontrivial += !a.is_empty() as u64;
                    if a != b {
                        return Err(format!(
                            "seed {seed}: {p:?} as named function finds {a}, as formula {b}"
                        ));
                    }
                    o.note = Some(a);
                }
            }
            Ok(())
        }));
    }
    v
}
