//! C01, C02, C03, C05, C06: what the user-facing call returns.
use std::time::{Duration, Instant};

use mbqc_scheduling::interface::{self, Path};
use mcfw::{call, json, Section, Tier, Value};
use model::Inst;

use crate::{common::*, insts::*};

/// all modes of the call that do not need threads
fn modes(seeds: u64) -> Vec<Cfg> {
    let mut v = vec![
        Cfg::GREEDY,
        Cfg::EXACT,
        Cfg { nthreads: 0, ..Cfg::EXACT },
        Cfg::prob(Prob::Const(1.0, Some(0))),
        Cfg::prob(Prob::Const(0.0, Some(0))),
    ];
    for s in 0..seeds {
        v.push(Cfg::prob(Prob::Const(0.5, Some(s))));
        v.push(Cfg::prob(Prob::Builtin(Some(s))));
        v.push(Cfg::prob(Prob::Param(Some(s))));
    }
    v
}

/// modes that start threads (their interleavings are explored by the other engine; this
/// is the same code on real threads)
fn threaded_modes() -> Vec<Cfg> {
    let mut v = Vec::new();
    for n in [2u16, 3] {
        for b in [None, Some(0), Some(1), Some(2)] {
            v.push(Cfg::threads(n, b));
        }
    }
    v.push(Cfg { prob: Prob::Const(1.0, Some(1)), ..Cfg::threads(2, Some(2)) });
    v.push(Cfg { prob: Prob::Const(0.5, Some(1)), ..Cfg::threads(2, None) });
    v.push(Cfg { prob: Prob::Builtin(Some(1)), ..Cfg::threads(2, None) });
    v.push(Cfg { timeout: Some(Duration::ZERO), ..Cfg::EXACT });
    v.push(Cfg { timeout: Some(Duration::ZERO), ..Cfg::threads(2, Some(1)) });
    v.push(Cfg { timeout: Some(Duration::from_secs(3600)), ..Cfg::EXACT });
    v.push(Cfg { timeout: Some(Duration::from_secs(3600)), ..Cfg::threads(2, None) });
    v
}

type J = fn(&Inst, &[Path]) -> Result<(), String>;

/// judge every mode
fn all_modes(
    f: Family,
    seeds: u64,
    threads: bool,
    j: J,
) -> Section {
    let mut ms = modes(seeds);
    if threads {
        ms.extend(threaded_modes());
    }
    f.section(if threads { "modes+threads" } else { "modes" }, move |inst, o| {
        let mut note = String::new();
        for m in &ms {
            let ps = run(inst, m)?;
            j(inst, &ps).map_err(|e| format!("{m:?}: {e}; returned {}", show_paths(&ps)))?;
            o.validated += 1;
            o.states += ps.iter().map(|p| p.steps.len() as u64 + 1).sum::<u64>();
            o.transitions += ps.iter().map(|p| p.steps.len() as u64).sum::<u64>();
            o.nontrivial += (ps.len() > 1) as u64;
            if *m == Cfg::EXACT {
                note = show_paths(&ps);
            }
        }
        o.note = Some(note);
        Ok(())
    })
}

/// every schedule that any answer sequence can bring about
fn answers(f: Family, default: bool, devs: usize, j: J) -> Section {
    f.section(
        &format!("answers-{}-dev{devs}", if default { "accept" } else { "reject" }),
        move |inst, o| {
            let mut nontrivial = 0;
            let (mut st, mut tr) = (0, 0);
            let runs = explore_answers(inst, default, devs, &mut |ps, log, _| {
                j(inst, ps).map_err(|e| format!("{e}; returned {}", show_paths(ps)))?;
                nontrivial += (ps.len() > 1) as u64;
                st += log.len() as u64 + 1;
                tr += log.len() as u64;
                Ok(())
            })?;
            o.validated += runs;
            o.nontrivial += nontrivial;
            o.states += st;
            o.transitions += tr;
            o.note = Some(format!("{runs} answer sequences, {nontrivial} with several results"));
            Ok(())
        },
    )
}

fn returned(tier: Tier, j: J) -> Vec<Section> {
    let q = tier == Tier::Quick;
    let mut v = Vec::new();
    for n in 1..=3 {
        v.push(all_modes(labelled(n, false), 4, true, j));
        v.push(all_modes(labelled(n, true), 2, false, j));
    }
    v.push(all_modes(labelled(4, false), if q { 2 } else { 6 }, false, j));
    if !q {
        v.push(all_modes(labelled(4, true), 2, false, j));
        v.push(all_modes(classes(4), 2, true, j));
    }
    v.push(all_modes(classes(5), if q { 1 } else { 3 }, false, j));
    v.push(all_modes(structured(5..=if q { 7 } else { 8 }, 200_000), 3, false, j));
    v.push(all_modes(long(&[31, 32, 33, 63, 64, 65, 127, 128, 129]), 2, false, j));
    v.push(all_modes(long_free(&[32, 33, 64, 65, 128, 129, 256, 257]), 2, false, j));
    v.push(all_modes(hubs(&[70, 140, 300]), 2, false, j));
    v.push(all_modes(wide(6..=7), 2, false, j));
    v.push(all_modes(deep(8..=12, 1..=4), 2, false, j));
    for n in 1..=3 {
        v.push(answers(labelled(n, false), true, if n < 3 { 9 } else { 2 }, j));
        v.push(answers(labelled(n, false), false, if n < 3 { 9 } else { 3 }, j));
    }
    v.push(answers(classes(4), true, if q { 1 } else { 2 }, j));
    v.push(answers(classes(4), false, if q { 3 } else { 4 }, j));
    if !q {
        v.push(all_modes(posets(6), 1, false, j));
    }
    v
}

pub fn c01(tier: Tier) -> Vec<Section> {
    let mut v = returned(tier, valid);
    v.push(huge("modes", huge_size(), Want::Valid));
    v
}

pub fn c02(tier: Tier) -> Vec<Section> {
    let mut v = returned(tier, true_costs);
    v.push(huge("modes", huge_size(), Want::Costs));
    v
}

pub fn c05(tier: Tier) -> Vec<Section> {
    returned(tier, |_, ps| staircase(ps))
}

fn exact_section(f: Family) -> Section {
    f.section("exact", |inst, o| {
        let ps = run(inst, &Cfg::EXACT)?;
        let (s, t) =
            exact(inst, &ps).map_err(|e| format!("{e}; returned {}", show_paths(&ps)))?;
        // a schedule must attain the pair, too (cost and validity as in C01, C02)
        for p in &ps {
            if inst.validate(&p.steps).is_err()
                || (inst.space(&p.steps), p.steps.len()) != (p.space, p.time)
            {
                return Err(format!("{:?} does not attain ({}, {})", p.steps, p.time, p.space));
            }
        }
        o.states += s;
        o.transitions += t;
        o.validated += 1;
        o.nontrivial += (ps.len() > 1) as u64;
        o.note = Some(format!("{:?}", costs(&ps)));
        Ok(())
    })
}

pub fn c03(tier: Tier) -> Vec<Section> {
    let q = tier == Tier::Quick;
    let mut v: Vec<Section> = Vec::new();
    for n in 1..=4 {
        v.push(exact_section(labelled(n, false)));
        v.push(exact_section(labelled(n, true)));
    }
    v.push(exact_section(classes(5)));
    v.push(exact_section(structured(5..=if q { 8 } else { 10 }, 1_000_000)));
    v.push(exact_section(wide(6..=if q { 7 } else { 8 })));
    v.push(exact_section(deep(8..=if q { 12 } else { 15 }, 1..=4)));
    let sparse = |inst: &Inst, o: &mut mcfw::Out| {
        let ps = run(inst, &Cfg::EXACT)?;
        let (want, c) = inst.pareto_sparse();
        if costs(&ps) != want {
            return Err(format!("(time, space) pairs {:?}, the optimum is {want:?}", costs(&ps)));
        }
        o.states += c.states;
        o.transitions += c.transitions;
        o.validated += 1;
        o.nontrivial += (ps.len() > 1) as u64;
        o.note = Some(format!("{:?}", costs(&ps)));
        Ok(())
    };
    v.push(long(&[31, 32, 33, 63, 64, 65, 127, 128, 129]).section("exact", sparse));
    v.push(long_free(&[32, 33, 64, 65, 128, 129, 256, 257, 300]).section("exact", sparse));
    v.push(hubs(&[70, 140, 300]).section("exact", sparse));
    let release = std::env::var("MC_PROFILE").as_deref() == Ok("release");
    match (q, release) {
        (true, false) => v.push(exact_section(posets_thin(6, 4))),
        (true, true) => {
            v.push(exact_section(posets_thin(6, 6)));
            v.push(exact_section(poset_pairs(7, 2)));
            v.push(exact_section(shape_pairs(8, 1)));
        },
        _ => {
            v.push(exact_section(posets(6)));
            v.push(exact_section(posets_thin(7, 3)));
            v.push(exact_section(poset_pairs(7, 14)));
            v.push(exact_section(shape_pairs(8, 16)));
        },
    }
    v
}

fn greedy_section(f: Family, threads: bool) -> Section {
    let mut ms = vec![
        Cfg::GREEDY,
        Cfg { nthreads: 0, ..Cfg::GREEDY },
        Cfg { bound: Some(0), ..Cfg::GREEDY },
        Cfg { prob: Prob::Const(0.0, Some(1)), ..Cfg::GREEDY },
        Cfg { prob: Prob::Builtin(None), ..Cfg::GREEDY },
        Cfg { timeout: Some(Duration::ZERO), ..Cfg::GREEDY },
    ];
    if threads {
        for nthreads in [2, 3] {
            for timeout in [None, Some(Duration::ZERO), Some(Duration::from_secs(3600))] {
                for bound in [None, Some(1)] {
                    for prob in [Prob::None, Prob::Const(0.0, None)] {
                        ms.push(Cfg { search: false, timeout, nthreads, bound, prob });
                    }
                }
            }
        }
    }
    f.section("greedy", move |inst, o| {
        for m in &ms {
            let ps = run(inst, m)?;
            greedy(inst, &ps)
                .map_err(|e| format!("{m:?}: {e}; returned {}", show_paths(&ps)))?;
            o.validated += 1;
            o.states += ps[0].steps.len() as u64 + 1;
            o.transitions += ps[0].steps.len() as u64;
            o.nontrivial += (ps[0].steps.len() > 1) as u64;
            o.note = Some(show_paths(&ps));
        }
        if inst.n <= 4 {
            // no valid schedule is shorter
            let shortest = inst.pareto().0[0].0;
            if shortest != inst.chain_len() {
                panic!("model: greedy schedule is not the shortest");
            }
        }
        Ok(())
    })
}

/// what is asked of the schedule of a huge input
#[derive(Clone, Copy, PartialEq)]
enum Want {
    Valid,
    Costs,
    Greedy,
}

/// more nodes, dependencies and neighbours than 16 bits can count
fn huge(name: &str, n: usize, want: Want) -> Section {
    let names = HUGE;
    Section::new(
        format!("{name}/huge"),
        format!(
            "{n} nodes as a chain, one node before all others, all others before one node, independent, 260 layers; \
             the graph is a path or a star"
        ),
        names.len() * 2,
        move |i| (i / 2, i % 2 == 1),
        move |(i, star): &(usize, bool)| json!({"order": names[*i], "star": star, "nodes": n}),
        move |(i, star), o| {
            let (nbrs, order) = huge_input(*i, *star, n);
            let ps = call(|| interface::run(&nbrs, &order, false, None, 1, None, None))?;
            let [p] = &ps[..] else { return Err(format!("{} schedules", ps.len())) };
            if want == Want::Greedy && (p.time != order.len() || p.steps.len() != order.len()) {
                return Err(format!("{} steps, time {}, not {}", p.steps.len(), p.time, order.len()));
            }
            if want == Want::Costs && p.time != p.steps.len() {
                return Err(format!("{} steps, time {}", p.steps.len(), p.time));
            }
            if want == Want::Valid {
                let mut at = vec![usize::MAX; n];
                for (k, step) in p.steps.iter().enumerate() {
                    if step.is_empty() {
                        return Err(format!("step {k} is empty"));
                    }
                    for &v in step {
                        if v >= n || at[v] != usize::MAX {
                            return Err(format!("{v} is measured twice or is no node"));
                        }
                        at[v] = k;
                    }
                }
                if let Some(v) = at.iter().position(|k| *k == usize::MAX) {
                    return Err(format!("{v} is not measured"));
                }
                for (v, deps) in order.iter().flatten() {
                    if let Some(d) = deps.iter().find(|d| at[**d] >= at[*v]) {
                        return Err(format!("{v} is measured in step {}, {d} in step {}", at[*v], at[*d]));
                    }
                }
            }
            let (mut init, mut cur, mut peak) = (vec![false; n], 0usize, 0);
            for (k, step) in p.steps.iter().enumerate() {
                if want == Want::Greedy {
                    let mut a = step.clone();
                    a.sort();
                    let mut b: Vec<usize> = order[k].iter().map(|(v, _)| *v).collect();
                    b.sort();
                    if a != b {
                        return Err(format!("a step of {} nodes is not the layer of {} nodes", a.len(), b.len()));
                    }
                }
                for &v in step {
                    for w in nbrs[v].iter().copied().chain([v]) {
                        cur += !std::mem::replace(&mut init[w], true) as usize;
                    }
                }
                peak = peak.max(cur);
                cur = cur.saturating_sub(step.len());
            }
            if want != Want::Valid && p.space != peak {
                return Err(format!("space {}, not {peak}", p.space));
            }
            o.validated += 1;
            o.states += order.len() as u64 + 1;
            o.transitions += order.len() as u64;
            o.nontrivial += 1;
            Ok(())
        },
    )
}

pub fn c06(tier: Tier) -> Vec<Section> {
    let q = tier == Tier::Quick;
    let mut v: Vec<Section> = Vec::new();
    for n in 1..=4 {
        v.push(greedy_section(labelled(n, false), n <= 3));
        v.push(greedy_section(labelled(n, true), false));
    }
    v.push(greedy_section(classes(5), false));
    v.push(greedy_section(structured(5..=if q { 12 } else { 16 }, u64::MAX), true));
    v.push(greedy_section(long(&[31, 32, 33, 63, 64, 65, 127, 128, 129, 300]), false));
    v.push(greedy_section(hubs(&[70, 140, 300]), false));
    v.push(greedy_section(wide(200..=310), false));
    v.push(huge("greedy", huge_size(), Want::Greedy));
    if !q {
        v.push(greedy_section(posets(6), false));
    }
    v
}

// ---- C07 with real threads and real time (every point of expiry: the other engine)

pub fn c07(tier: Tier) -> Vec<Section> {
    let q = tier == Tier::Quick;
    let mut cfgs: Vec<(usize, Cfg)> = Vec::new();
    let sizes: &[usize] = if q { &[18] } else { &[16, 18, 20] };
    for &n in sizes {
        for ms in [0, 1, 300] {
            for (nthreads, bound) in
                [(0, None), (1, None), (2, None), (2, Some(0)), (3, Some(2)), (4, None), (4, Some(1000))]
            {
                let probs =
                    [Prob::None, Prob::Const(1., Some(1)), Prob::Builtin(Some(1)), Prob::Unending(Some(1))];
                for prob in probs {
                    if q && prob != Prob::None
                        && (nthreads, bound) != (2, None)
                        && (ms != 300 || !matches!(prob, Prob::Unending(_)))
                    {
                        continue;
                    }
                    let timeout = Some(Duration::from_millis(ms));
                    cfgs.push((n, Cfg { timeout, prob, bound, nthreads, ..Cfg::EXACT }));
                }
            }
        }
    }
    let prompt = Section::new(
        "prompt",
        format!(
            "independent nodes on a ring ({sizes:?}; a search that takes hours) x timeouts of 0, 1 and 300 ms x \
             threads x task bounds: returns within 40 s more than the timeout, also if hundreds of \
             thousands of tasks are still queued"
        ),
        cfgs.len(),
        move |i| cfgs[i],
        |c: &(usize, Cfg)| -> Value { json!({"nodes": c.0, "call": format!("{:?}", c.1)}) },
        |(n, c), o| {
            let inst = ring(*n);
            let t = Instant::now();
            let ps = run(&inst, c)?;
            let e = t.elapsed();
            o.validated += 1;
            o.states += 1;
            o.transitions += 1;
            o.nontrivial += 1;
            o.note = Some(format!("{c:?}: {} schedules after {e:?}", ps.len()));
            valid(&inst, &ps)?;
            true_costs(&inst, &ps)?;
            staircase(&ps)?;
            if e > c.timeout.unwrap() + Duration::from_secs(40) {
                return Err(format!("{c:?} took {e:?}"));
            }
            Ok(())
        },
    )
    .parallel(2);
    // nothing is better than the first schedule: everything else is skipped at its first step
    let mut cfgs = Vec::new();
    for n in [34, 48] {
        for (nthreads, bound) in
            [(0, None), (1, None), (2, Some(0)), (2, Some(1)), (3, Some(2)), (4, Some(1000))]
        {
            for ms in [0, 1, 300] {
                let timeout = Some(Duration::from_millis(ms));
                cfgs.push((n, Cfg { timeout, bound, nthreads, ..Cfg::EXACT }));
            }
        }
    }
    let hopeless = Section::new(
        "prompt/hopeless",
        "independent nodes that are all neighbours (34 and 48; the first schedule cannot be improved, and \
         there are more than 10^10 first steps to be rejected) x timeouts of 0, 1 and 300 ms x threads x \
         task bounds: returns within 40 s more than the timeout",
        cfgs.len(),
        move |i| cfgs[i],
        |c: &(usize, Cfg)| -> Value { json!({"nodes": c.0, "call": format!("{:?}", c.1)}) },
        |(n, c), o| {
            let inst = Inst::new(
                (0..*n).map(|v| (0..*n).filter(|w| *w != v).collect()).collect(),
                vec![(0..*n).map(|v| (v, vec![])).collect()],
            );
            let t = Instant::now();
            let ps = run(&inst, c)?;
            let e = t.elapsed();
            o.validated += 1;
            o.states += 1;
            o.transitions += 1;
            o.nontrivial += 1;
            o.note = Some(format!("{c:?}: {} schedules after {e:?}", ps.len()));
            valid(&inst, &ps)?;
            true_costs(&inst, &ps)?;
            staircase(&ps)?;
            if e > c.timeout.unwrap() + Duration::from_secs(40) {
                return Err(format!("{c:?} took {e:?}"));
            }
            Ok(())
        },
    )
    .parallel(2);
    let mut v = vec![prompt, hopeless];
    let never = |f: Family| {
        f.section("never-reached", |inst, o| {
            for timeout in [Duration::from_secs(3600), Duration::from_secs(u64::MAX), Duration::MAX] {
                for nthreads in [1, 2] {
                    for prob in [Prob::None, Prob::Const(1., Some(1))] {
                        let c = Cfg { timeout: Some(timeout), nthreads, prob, ..Cfg::EXACT };
                        let t = Instant::now();
                        let ps = run(inst, &c)?;
                        exact(inst, &ps).map_err(|e| format!("{c:?}: {e}"))?;
                        o.validated += 1;
                        o.states += 1;
                        o.transitions += 1;
                        o.nontrivial += (ps.len() > 1) as u64;
                        if t.elapsed() > Duration::from_secs(60) {
                            return Err(format!("{c:?} took {:?}", t.elapsed()));
                        }
                    }
                }
            }
            Ok(())
        })
    };
    v.extend((1..=3).map(|n| never(labelled(n, false))));
    v.push(never(structured(5..=5, 100)));
    v
}

fn ring(n: usize) -> Inst {
    let nbrs = (0..n).map(|v| vec![(v + 1) % n, (v + n - 1) % n]).collect();
    Inst::new(nbrs, vec![(0..n).map(|v| (v, vec![])).collect()])
}
