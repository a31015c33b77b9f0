//! C08, C09 with several threads.
use std::{
    collections::{BTreeMap, BTreeSet},
    sync::Arc,
};

use mcfw::{json, Out, Section, Tier, Value};
use mcrt::Config;
use model::{dominates, frontier, Inst, Mask, StepKey};

use crate::{common::*, insts::*, p_accept::*, searches::*};

struct Walk {
    first: Mask,
    cost: (usize, usize),
    keys: Vec<StepKey>,
}

fn walks(inst: &Inst) -> Vec<Walk> {
    let mut v = Vec::new();
    inst.each_path(&mut |p| {
        v.push(Walk {
            first: p[0],
            cost: (p.len(), inst.peak(p)),
            keys: (0..p.len()).map(|i| inst.key(&p[..i], p[i])).collect(),
        });
    });
    v
}

type Points = Vec<(usize, usize)>;

/// for every first step: the optimum of its schedules without a rejected step, with and
/// without asking about the first step itself
fn per_first(ws: &[Walk], rej: &BTreeSet<StepKey>) -> Vec<(Points, Points)> {
    let firsts: BTreeSet<Mask> = ws.iter().map(|w| w.first).collect();
    firsts
        .iter()
        .map(|f| {
            let get = |skip: usize| {
                frontier(
                    ws.iter()
                        .filter(|w| w.first == *f && w.keys[skip..].iter().all(|k| !rej.contains(k)))
                        .map(|w| w.cost),
                )
            };
            (get(0), get(1))
        })
        .collect()
}

/// `got` is the optimum for some set of first steps that were taken without asking
fn allowed(per: &[(Points, Points)], got: &Points) -> bool {
    // taking more of them adds schedules: take all that `got` does not rule out
    frontier(per.iter().flat_map(|(strict, free)| {
        if dominates(got, free) {
            free.iter().copied()
        } else {
            strict.iter().copied()
        }
    })) == *got
}

/// instances x rejected sets x thread counts and bounds
fn reject(f: Family, pairs: bool, rs: Vec<(u16, Option<u32>)>, cfg: Config) -> Section {
    let g = f.gen.clone();
    let k = rs.len();
    let rs2 = rs.clone();
    Section::new(
        format!("reject{}/{}/t{}/p{}", if pairs { "-pairs" } else { "" }, f.name, rs[0].0, cfg.bounds[0]),
        format!(
            "{}; accept functions that reject one step situation, {}all but the steps of one schedule, \
             or nothing; threads and bounds {rs:?}; every interleaving with at most {} preemptions; \
             synchronisation every {INTERVAL} steps",
            f.rule,
            if pairs { "every pair of situations, " } else { "" },
            cfg.bounds[0]
        ),
        f.len * k,
        move |i| (g(i / k), rs2[i % k]),
        |(i, r): &(Inst, (u16, Option<u32>))| -> Value {
            json!({"spatial": i.nbrs, "order": i.order, "threads": r.0, "bound": r.1})
        },
        move |(inst, (t, b)), o| {
            let ws = walks(inst);
            let infos = path_infos(inst);
            let known: BTreeSet<StepKey> = ws.iter().flat_map(|w| w.keys.iter().copied()).collect();
            for rej in reject_sets(&infos, true, pairs) {
                let per = per_first(&ws, &rej);
                let rj = rej.clone();
                let r = Run {
                    answer: Answer::Func(Arc::new(move |a| {
                        if rj.contains(&proj(ask_key(a), true)) {
                            0.
                        } else {
                            1.
                        }
                    })),
                    ..Run::new(*t, *b)
                };
                let mut strange = 0;
                explore(inst, &r, &cfg, o, |obs, _| {
                    if obs.asked.iter().any(|a| !known.contains(&proj(ask_key(&a.ask), true))) {
                        // the questions do not identify steps (C09 is about that)
                        strange += 1;
                        return Ok(());
                    }
                    let c = costs(&obs.paths);
                    if !allowed(&per, &c) {
                        return Err(format!(
                            "rejecting the step situations {rej:?} and accepting all others gives \
                             {c:?}; the optimum of the schedules without a rejected step, with and \
                             without asking about the first one, is, for each first step, {per:?}"
                        ));
                    }
                    for p in &obs.paths {
                        let ms = inst.steps_to_masks(&p.steps);
                        for i in 1..ms.len() {
                            let k = inst.key(&ms[..i], ms[i]);
                            if rej.contains(&k) {
                                return Err(format!(
                                    "the schedule {:?} contains a rejected step, {k:?}",
                                    p.steps
                                ));
                            }
                        }
                    }
                    Ok(())
                })?;
                o.capped += (strange > 0) as u64;
            }
            Ok(())
        },
    )
}

pub fn c08(tier: Tier) -> Vec<Section> {
    let q = tier == Tier::Quick;
    let b = |t: u16, v: &[Option<u32>]| v.iter().map(|b| (t, *b)).collect::<Vec<_>>();
    let two = [None, Some(0), Some(1), Some(2)];
    let d = |quick: u8, thorough: u8| if q { quick } else { thorough };
    vec![
        reject(labelled(1, false), true, b(2, &two), pre(d(5, 6))),
        reject(labelled(1, false), true, b(3, &two), pre(d(1, 2))),
        reject(labelled(2, false), true, b(2, &two), pre(d(4, 5))),
        reject(labelled(2, false), true, b(3, &[None, Some(1)]), pre(d(0, 1))),
        reject(classes(3), true, b(2, &two), pre(d(1, 3))),
        reject(classes(3), false, b(2, &two), pre(d(2, 3))),
        reject(few4(), false, b(2, &[Some(0), Some(2)]), pre(d(1, 2))),
        reject(classes(4), false, b(2, &[Some(1)]), pre(d(0, 1))),
        reject(labelled(4, false), false, b(2, &[None]), pre(0)),
        reject(classes(3), false, b(3, &[None, Some(2)]), pre(d(0, 1))),
        reject(classes(3), true, b(4, &two), many(0, 0, d(1, 2))),
        reject(classes(3), false, b(4, &two), many(0, 0, d(2, 3))),
        reject(few4(), true, b(3, &[None, Some(5)]), many(0, 0, d(0, 1))),
        reject(few4(), false, b(3, &[None, Some(1), Some(5)]), many(0, 0, d(2, 3))),
        reject(few4(), false, b(2, &[None, Some(1)]), many(1, 0, d(1, 2))),
        reject(structured(5..=5, 200), false, b(2, &[None, Some(3)]), many(0, 0, d(1, 2))),
        reject(structured(5..=6, 600), false, b(3, &[None, Some(6)]), many(0, 0, d(0, 1))),
    ]
}

// ---- C09

/// what a question about a step can say in some execution: situation -> (found schedules
/// count up to that length)
fn situations(inst: &Inst) -> BTreeMap<StepKey, BTreeSet<usize>> {
    let mut m: BTreeMap<StepKey, BTreeSet<usize>> = BTreeMap::new();
    inst.each_path(&mut |p| {
        let mut done = 0;
        for i in 0..p.len() {
            let k = inst.key(&p[..i], p[i]);
            done |= p[i];
            let left = k.remaining as usize;
            let blocked = left - inst.available(done).count_ones() as usize;
            let len = i + 1 + if left == 0 { 0 } else if blocked == 0 { 1 } else { 2 };
            m.entry(k).or_default().insert(len);
        }
    });
    m
}

fn questions(f: Family, runs: Vec<Run>, cfg: Config) -> Section {
    let g = f.gen.clone();
    let k = runs.len();
    let runs = Arc::new(runs);
    Section::new(
        format!("questions/{}/t{}/p{}", f.name, runs[0].nthreads, cfg.bounds[0]),
        format!(
            "{}; {k} runs each; every question of every interleaving with at most {} preemptions; \
             synchronisation every {INTERVAL} steps",
            f.rule, cfg.bounds[0]
        ),
        f.len * k,
        move |i| (g(i / k), runs[i % k].clone()),
        |(i, r): &(Inst, Run)| -> Value {
            json!({"spatial": i.nbrs, "order": i.order, "run": r.show()})
        },
        move |(inst, r), o: &mut Out| {
            let sit = situations(inst);
            let mut found: Vec<BTreeSet<usize>> = vec![BTreeSet::new(); inst.n + 1];
            inst.each_path(&mut |p| {
                let s = inst.peak(p);
                for x in found[p.len()..].iter_mut() {
                    x.insert(s);
                }
            });
            // a value that some found schedules can lead to
            let could = |v: f64, len: usize| {
                v == UNSET || found[len.min(inst.n)].iter().any(|s| *s as f64 == v)
            };
            let mut asked = 0u64;
            explore(inst, r, &cfg, o, |obs, _| {
                for a in &obs.asked {
                    asked += 1;
                    let q = &a.ask;
                    let bad = |why: &str| {
                        Err(format!("the accept function is asked with {q:?}: {why}"))
                    };
                    if q.total != inst.n as f64 {
                        return bad("the total number of nodes is wrong");
                    }
                    let Some(lens) = sit.get(&ask_key(q)) else {
                        return bad("no step of any schedule has these memories and remaining nodes");
                    };
                    if q.minimal > q.bound {
                        return bad("the lowest space found is above that of the shorter schedules");
                    }
                    if !could(q.minimal, inst.n) {
                        return bad("there is no schedule with that minimal space");
                    }
                    if !lens.iter().any(|l| could(q.bound, *l)) {
                        return bad("the bound is not the space of any schedule short enough");
                    }
                }
                Ok(())
            })?;
            o.nontrivial += (asked > 0) as u64;
            Ok(())
        },
    )
}

pub fn c09(tier: Tier) -> Vec<Section> {
    let q = tier == Tier::Quick;
    let rs = |t: u16, bs: &[Option<u32>]| -> Vec<Run> {
        let mut v = Vec::new();
        for b in bs {
            v.push(Run { answer: Answer::Const(1., 0), ..Run::new(t, *b) });
            v.push(Run { answer: Answer::Const(0., 0), ..Run::new(t, *b) });
            for s in 0..2 {
                v.push(Run { answer: Answer::Const(0.7, s), ..Run::new(t, *b) });
            }
        }
        v
    };
    let b3 = [None, Some(0), Some(1)];
    let d = |quick: u8, thorough: u8| if q { quick } else { thorough };
    vec![
        questions(labelled(1, false), rs(2, &b3), pre(d(4, 5))),
        questions(labelled(2, false), rs(2, &b3), pre(d(4, 5))),
        questions(labelled(2, false), rs(3, &b3), pre(d(0, 1))),
        questions(classes(3), rs(2, &b3), pre(d(2, 4))),
        questions(classes(3), rs(3, &[Some(0), Some(2)]), pre(d(0, 1))),
        questions(few4(), rs(2, &[Some(0), Some(2)]), pre(d(2, 3))),
        questions(classes(4), rs(2, &[Some(0), Some(2)]), pre(d(1, 2))),
        questions(labelled(4, false), rs(2, &[Some(1)]), pre(d(0, 1))),
        questions(classes(3), rs(4, &b3), many(0, 0, d(2, 3))),
        questions(few4(), rs(3, &[None, Some(4)]), many(0, 0, d(2, 3))),
        questions(structured(5..=5, 600), rs(2, &[None, Some(2)]), many(0, 0, d(2, 3))),
        questions(structured(5..=5, 600), rs(2, &[Some(2)]), many(1, 0, d(1, 2))),
        questions(structured(6..=7, 20_000), rs(3, &[None, Some(5)]), many(0, 0, d(0, 1))),
    ]
}
