//! C21, C22, C23, C24: what holds from call to call, with whatever else goes on.
use std::{
    cell::Cell,
    fmt,
    sync::{
        atomic::{AtomicU64, Ordering::SeqCst},
        Arc,
    },
    time::{Duration, Instant},
};

use mbqc_scheduling::{
    interface::{self, Path},
    probabilistic::AcceptFunc,
    scheduler::{
        space::Graph,
        time::{DependencyBuffer, Partitioner, PathGenerator},
        tree::{FocusIterator, Step, Sweep},
        Scheduler,
    },
};
use mcfw::{call, json, Out, Section, Tier, Value};
use model::Inst;
use tracing::{field, span, Event, Metadata};

use crate::{
    common::*,
    insts::*,
    p_sched::{classes_few, Tree},
};

// ---- C21

fn set(v: &[usize]) -> Vec<usize> {
    let mut v = v.to_vec();
    v.sort();
    v
}

/// everything first, then fewer and fewer; returns how often the next one was not larger
fn falling<T: Tree>(mut sweep: Sweep<T>, asap: &[Vec<usize>], max: u64, o: &mut Out) -> Result<(), String> {
    // per state on the current path: what could be measured, and the last step tried
    let mut open: Vec<(Vec<usize>, Option<usize>)> = vec![(sweep.current().avail(), None)];
    let mut path: Vec<Vec<usize>> = Vec::new();
    let mut first = true;
    let mut events = 0;
    while let Some(step) = sweep.next() {
        events += 1;
        if events > max {
            break;
        }
        match step {
            Step::Forward(s) => {
                let (avail, last) = open.last_mut().ok_or("more backward than forward items")?;
                match last {
                    None if set(&s) != *avail => {
                        return Err(format!("after {path:?}, {s:?} is tried first, {avail:?} could be measured"));
                    },
                    Some(l) if s.len() > *l => {
                        return Err(format!("after {path:?}, {s:?} is tried after a step of {l} nodes"));
                    },
                    Some(_) => o.nontrivial += 1,
                    None => {},
                }
                *last = Some(s.len());
                path.push(set(&s));
                open.push((sweep.current().avail(), None));
            },
            Step::Backward(leaf) => {
                if T::leaf(leaf).is_some() && first {
                    first = false;
                    if path != asap {
                        return Err(format!("the first complete schedule is {path:?}, as soon as possible is {asap:?}"));
                    }
                }
                open.pop();
                path.pop();
            },
        }
    }
    if first && !asap.is_empty() {
        return Err("no complete schedule is visited".into());
    }
    o.states += events + 1;
    o.transitions += events;
    o.validated += 1;
    Ok(())
}

fn order_of_steps(f: Family, max: u64) -> Section {
    f.section("steps", move |inst, o| {
        call(|| {
            let asap = inst.asap();
            let mut b = DependencyBuffer::new(inst.n);
            let pg = PathGenerator::<Partitioner>::from_dependency_graph(&inst.order, &mut b, None);
            falling(Sweep::new(pg.clone()), &asap, max, o).map_err(|e| format!("the time ordering: {e}"))?;
            let sc = Scheduler::<Partitioner>::new(pg, Graph::new(&inst.nbrs));
            falling(Sweep::new(sc.clone()), &asap, max, o).map_err(|e| format!("the scheduler: {e}"))?;
            // the first steps as such
            let mut root = sc;
            let mut last = usize::MAX;
            while let Some((_, s)) = root.next_and_focus() {
                if last == usize::MAX && set(&s) != asap[0] || s.len() > last {
                    return Err(format!("the step {s:?} is split off after one of {last} nodes"));
                }
                last = s.len();
                o.transitions += 1;
                if o.transitions > max.saturating_mul(3) {
                    break;
                }
            }
            Ok(())
        })?
    })
}

/// what the accept function of a single-threaded search sees: nothing is pruned before
/// something has been found
fn order_of_questions(f: Family) -> Section {
    f.section("questions", move |inst, o| {
        // only the first steps are asked about
        let (ps, log) = run_asking(inst, Some(0), |_, _| 0.)?;
        if !ps.is_empty() {
            return Err("something was found, although everything is rejected".into());
        }
        for w in log.windows(2) {
            if w[0].remaining > w[1].remaining {
                return Err(format!(
                    "a first step that leaves {} nodes is tried after one that leaves {}",
                    w[1].remaining, w[0].remaining
                ));
            }
        }
        if let Some(a) = log.first() {
            if a.remaining != (inst.n - inst.asap()[0].len()) as f64 {
                return Err(format!("the first question is about a step that leaves {} nodes", a.remaining));
            }
        }
        o.nontrivial += (log.len() > 1) as u64;
        // everything is accepted until the first schedule is complete, nothing afterwards
        let asap = inst.asap();
        let k = asap.len();
        let (ps, log) = run_asking(inst, Some(0), move |i, _| if i < k { 1. } else { 0. })?;
        let mut left = inst.n;
        for (i, s) in asap.iter().enumerate() {
            left -= s.len();
            if log.get(i).map(|a| a.remaining) != Some(left as f64) {
                return Err(format!("question {i} is {:?}, as soon as possible would leave {left} nodes", log.get(i)));
            }
        }
        if ps.len() != 1 || ps[0].time != k || ps[0].steps.iter().map(|s| set(s)).ne(asap.iter().cloned()) {
            return Err(format!(
                "with only the first {k} steps accepted the result is {}, not {asap:?}",
                show_paths(&ps)
            ));
        }
        o.validated += 2;
        o.states += log.len() as u64 + 1;
        o.transitions += log.len() as u64;
        Ok(())
    })
}

pub fn c21(tier: Tier) -> Vec<Section> {
    let q = tier == Tier::Quick;
    let mut v = Vec::new();
    for n in 1..=4 {
        v.push(order_of_steps(labelled(n, false), u64::MAX));
        v.push(order_of_steps(labelled(n, true), u64::MAX));
        v.push(order_of_questions(labelled(n, false)));
    }
    v.push(order_of_steps(structured(5..=8, 10_000), u64::MAX));
    v.push(order_of_steps(structured(9..=12, u64::MAX), if q { 20_000 } else { 2_000_000 }));
    if !q {
        v.push(order_of_steps(classes(5), u64::MAX));
    }
    v.push(order_of_steps(wide(6..=7), u64::MAX));
    v.push(order_of_steps(wide(14..=15), if q { 20_000 } else { 1_000_000 }));
    v.push(order_of_steps(deep(8..=12, 1..=3), 100_000));
    v.push(order_of_steps(long(&[31, 32, 33, 63, 64, 65, 127, 128, 129]), 10_000));
    v.push(order_of_steps(hubs(&[70, 140, 300]), 10_000));
    v.push(order_of_steps(posets_thin(6, if q { 1 } else { 4 }), u64::MAX));
    v.push(order_of_questions(classes(5)));
    v.push(order_of_questions(structured(5..=10, 100_000)));
    v.push(order_of_questions(deep(8..=12, 1..=3)));
    v.push(order_of_questions(long(&[31, 33, 64, 65, 127, 129])));
    v
}

// ---- C22

thread_local! {
    static QUIET: Cell<bool> = const { Cell::new(false) };
}
static SEEN: AtomicU64 = AtomicU64::new(0);

/// looks at every field of every event and span
struct Listen;
struct Look(u64);
impl field::Visit for Look {
    fn record_debug(&mut self, _: &field::Field, value: &dyn fmt::Debug) {
        self.0 += format!("{value:?}").len() as u64;
    }
}
impl tracing::Subscriber for Listen {
    fn enabled(&self, _: &Metadata<'_>) -> bool {
        !QUIET.with(|q| q.get())
    }
    fn register_callsite(&self, _: &'static Metadata<'static>) -> tracing::subscriber::Interest {
        tracing::subscriber::Interest::sometimes()
    }
    fn new_span(&self, a: &span::Attributes<'_>) -> span::Id {
        a.record(&mut Look(0));
        span::Id::from_u64(1)
    }
    fn record(&self, _: &span::Id, v: &span::Record<'_>) {
        v.record(&mut Look(0));
    }
    fn record_follows_from(&self, _: &span::Id, _: &span::Id) {}
    fn event(&self, e: &Event<'_>) {
        e.record(&mut Look(0));
        SEEN.fetch_add(1, SeqCst);
    }
    fn enter(&self, _: &span::Id) {}
    fn exit(&self, _: &span::Id) {}
}

fn listen() {
    static ONCE: std::sync::Once = std::sync::Once::new();
    ONCE.call_once(|| {
        let _ = tracing::subscriber::set_global_default(Listen);
    });
}

/// the same single-threaded call with and without somebody who listens; with threads
/// the result is known
fn listened(f: Family) -> Section {
    f.section("listened", |inst, o| {
        listen();
        let mut cfgs = vec![Cfg::GREEDY, Cfg::EXACT, Cfg { timeout: Some(Duration::ZERO), ..Cfg::GREEDY }];
        for s in 0..2 {
            for p in [0., 0.5, 1.] {
                cfgs.push(Cfg::prob(Prob::Const(p, Some(s))));
            }
            cfgs.push(Cfg::prob(Prob::Builtin(Some(s))));
        }
        let before = SEEN.load(SeqCst);
        for c in &cfgs {
            QUIET.with(|q| q.set(true));
            let want = run(inst, c)?;
            QUIET.with(|q| q.set(false));
            let got = run(inst, c)?;
            if show_paths(&want) != show_paths(&got) {
                return Err(format!(
                    "{c:?}: with logging {}, without {}",
                    show_paths(&got),
                    show_paths(&want)
                ));
            }
            o.validated += 1;
        }
        for n in [2, 3] {
            for b in [None, Some(0), Some(2)] {
                for p in [Prob::None, Prob::Const(1., Some(0))] {
                    let c = Cfg { prob: p, ..Cfg::threads(n, b) };
                    let ps = run(inst, &c)?;
                    valid(inst, &ps).and_then(|_| true_costs(inst, &ps)).and_then(|_| staircase(&ps))
                        .and_then(|_| exact(inst, &ps))
                        .map_err(|e| format!("{c:?}, with logging: {e}; returned {}", show_paths(&ps)))?;
                    o.validated += 1;
                    o.states += 1;
                    o.transitions += 1;
                }
            }
        }
        let t = Cfg { timeout: Some(Duration::ZERO), ..Cfg::threads(2, None) };
        let ps = run(inst, &t)?;
        valid(inst, &ps).and_then(|_| true_costs(inst, &ps)).and_then(|_| staircase(&ps))?;
        let seen = SEEN.load(SeqCst) - before;
        o.nontrivial += (seen > 0) as u64;
        o.note = Some("events of the search were recorded".to_string());
        Ok(())
    })
    .hang(60)
}

pub fn c22(tier: Tier) -> Vec<Section> {
    let q = tier == Tier::Quick;
    let mut v: Vec<Section> = (1..=3).map(|n| listened(labelled(n, false))).collect();
    v.push(listened(if q { classes_few(4) } else { classes(4) }));
    v.push(listened(structured(5..=6, if q { 500 } else { 5000 })));
    v.extend(crate::p_files::c22(tier));
    v
}

// ---- C23

#[derive(Clone, Copy, Debug)]
enum Act {
    Call(Cfg),
    /// a single-threaded search whose accept function panics at this question
    Panic(u64, bool),
    /// built by hand, moved on a few steps, and forgotten
    Manual(usize),
}

fn acts() -> Vec<Act> {
    let mut v = vec![
        Act::Call(Cfg::GREEDY),
        Act::Call(Cfg::EXACT),
        Act::Call(Cfg::prob(Prob::Const(1., Some(3)))),
        Act::Call(Cfg::prob(Prob::Const(0.5, Some(3)))),
        Act::Call(Cfg::prob(Prob::Const(0., Some(3)))),
        Act::Call(Cfg::prob(Prob::Builtin(Some(7)))),
        Act::Call(Cfg { timeout: Some(Duration::ZERO), ..Cfg::EXACT }),
        Act::Call(Cfg { timeout: Some(Duration::from_secs(3600)), ..Cfg::EXACT }),
        Act::Call(Cfg::threads(2, Some(1))),
        Act::Panic(0, false),
        Act::Panic(2, true),
    ];
    v.extend((1..4).map(Act::Manual));
    v
}

/// The result, if it is determined.
fn act(inst: &Inst, a: &Act) -> Result<Option<Vec<Path>>, String> {
    match a {
        Act::Call(c) => {
            let ps = run(inst, c)?;
            let bad = |e: String| format!("{c:?}: {e}; returned {}", show_paths(&ps));
            valid(inst, &ps).and_then(|_| true_costs(inst, &ps)).map_err(bad)?;
            if !c.search {
                greedy(inst, &ps).map_err(bad)?;
            } else {
                staircase(&ps).map_err(bad)?;
                if matches!(c.prob, Prob::None | Prob::Const(1., _)) && c.timeout != Some(Duration::ZERO) {
                    exact(inst, &ps).map_err(bad)?;
                }
                if matches!(c.prob, Prob::Const(0., _)) && !ps.is_empty() {
                    return Err(bad("everything is rejected".into()));
                }
            }
            let fixed = c.nthreads < 2 && c.timeout != Some(Duration::ZERO);
            Ok(fixed.then_some(ps))
        },
        Act::Panic(at, timeout) => {
            let (at, k) = (*at, AtomicU64::new(0));
            let f = move |_: f64, _: f64, _: f64, _: f64, _: f64, _: f64, _: f64| {
                if k.fetch_add(1, SeqCst) == at {
                    panic!("on purpose");
                }
                1.
            };
            let _ = call(|| {
                interface::run(
                    &inst.nbrs,
                    &inst.order,
                    true,
                    timeout.then_some(Duration::from_secs(3600)),
                    1,
                    None,
                    Some((AcceptFunc::Custom(Box::new(f)), Some(0))),
                )
            });
            Ok(None)
        },
        Act::Manual(k) => {
            call(|| {
                let mut b = DependencyBuffer::new(inst.n);
                let t = PathGenerator::<Partitioner>::from_dependency_graph(&inst.order, &mut b, None);
                let mut it = Scheduler::<Partitioner>::new(t, Graph::new(&inst.nbrs)).into_iter();
                for _ in 0..*k {
                    it.next();
                }
            })?;
            Ok(None)
        },
    }
}

/// a few instances that differ in every respect
fn pool() -> Vec<Inst> {
    let mut v = Vec::new();
    let l3 = labelled(3, false);
    for i in [0, 7, l3.len / 3, l3.len / 2 + 3, l3.len - 1] {
        v.push((l3.gen)(i));
    }
    let c4 = classes(4);
    for i in [5, c4.len / 2 + 11, c4.len - 2] {
        v.push((c4.gen)(i));
    }
    let s = structured(6..=6, 500);
    v.push((s.gen)(1));
    v.push((s.gen)(s.len - 1));
    v
}

/// all histories of `len` calls; whatever came before, the last ones give what they always give
fn histories(len: u32) -> Section {
    let insts = Arc::new(pool());
    let acts = Arc::new(acts());
    let k = insts.len() * acts.len();
    let pick = {
        let (i, a) = (insts.clone(), acts.clone());
        move |c: usize| (i[c / a.len()].clone(), a[c % a.len()])
    };
    // one case: the call to be judged, and all histories before it
    Section::new(
        format!("histories{len}"),
        format!(
            "{} instances x {} kinds of calls; every history of up to {len} of them before each, in the same \
             process; each call is judged, and all results of the same determined call must be equal",
            insts.len(),
            acts.len()
        ),
        k,
        move |c| (c, pick(c)),
        |(_, (i, a)): &(usize, (Inst, Act))| -> Value {
            json!({"spatial": i.nbrs, "order": i.order, "last call": format!("{a:?}")})
        },
        move |(_, (inst, a)), o| {
            let want = act(inst, a)?;
            let judge = |o: &mut Out, before: &[(usize, usize)]| -> Result<(), String> {
                for (i, b) in before {
                    act(&insts[*i], &acts[*b])
                        .map_err(|e| format!("in the history {}: {e}", tell(&insts, &acts, before)))?;
                }
                let got = act(inst, a).map_err(|e| format!("after {}: {e}", tell(&insts, &acts, before)))?;
                if let (Some(w), Some(g)) = (&want, &got) {
                    if show_paths(w) != show_paths(g) {
                        return Err(format!(
                            "after {} the call gives {}, at first it gave {}",
                            tell(&insts, &acts, before),
                            show_paths(g),
                            show_paths(w)
                        ));
                    }
                }
                o.states += 1 + before.len() as u64;
                o.transitions += before.len() as u64;
                o.validated += 1 + before.len() as u64;
                o.nontrivial += 1;
                Ok(())
            };
            // the histories share no state, so repeating the prefixes is all there is to do
            for i in 0..insts.len() {
                for b in 0..acts.len() {
                    judge(o, &[(i, b)])?;
                    if len > 1 {
                        for j in 0..insts.len() {
                            if j % 3 != i % 3 {
                                continue;
                            }
                            for c in 0..acts.len() {
                                judge(o, &[(i, b), (j, c)])?;
                            }
                        }
                    }
                }
            }
            Ok(())
        },
    )
}

fn tell(insts: &[Inst], acts: &[Act], before: &[(usize, usize)]) -> String {
    before
        .iter()
        .map(|(i, a)| format!("{:?} on {:?}/{:?}", acts[*a], insts[*i].nbrs, insts[*i].order))
        .collect::<Vec<_>>()
        .join(", ")
}

/// several calls at the same time, on threads of their own
fn at_once(f: Family) -> Section {
    f.section("at-once", |inst, o| {
        let cfgs = [
            Cfg::EXACT,
            Cfg { timeout: Some(Duration::ZERO), ..Cfg::EXACT },
            Cfg { timeout: Some(Duration::from_secs(3600)), ..Cfg::EXACT },
            Cfg::threads(2, Some(1)),
            Cfg::prob(Prob::Const(0., Some(1))),
            Cfg::GREEDY,
        ];
        let other = pool();
        let rs: Vec<Result<(), String>> = std::thread::scope(|s| {
            let hs: Vec<_> = cfgs
                .iter()
                .enumerate()
                .map(|(i, c)| {
                    let inst = if i % 2 == 0 { inst } else { &other[i % other.len()] };
                    s.spawn(move || {
                        for _ in 0..3 {
                            act(inst, &Act::Call(*c))?;
                        }
                        Ok(())
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("a thread panicked".into()))).collect()
        });
        o.validated += 3 * rs.len() as u64;
        o.states += 1;
        o.transitions += rs.len() as u64;
        o.nontrivial += 1;
        rs.into_iter().collect::<Result<Vec<_>, _>>()?;
        Ok(())
    })
    .parallel(2)
}

/// the accept function makes calls itself, at every question
fn nested() -> Section {
    let insts = Arc::new(pool());
    let inner: Arc<Vec<Act>> = Arc::new(acts());
    // (threads, bound, timeout, answer)
    let outer: Vec<(u16, Option<u32>, Option<Duration>, f64)> = vec![
        (1, None, None, 1.),
        (1, None, None, 0.5),
        (0, None, Some(Duration::from_secs(3600)), 1.),
        (2, Some(1), None, 1.),
        (2, None, Some(Duration::from_secs(3600)), 1.),
    ];
    let k = insts.len() * outer.len();
    let pick = {
        let i = insts.clone();
        move |c: usize| (i[c % i.len()].clone(), outer[c / i.len()])
    };
    type Case = (Inst, (u16, Option<u32>, Option<Duration>, f64));
    Section::new(
        "nested",
        format!(
            "{} instances x 5 kinds of probabilistic search x {} calls (kind and instance) that the accept \
             function makes itself, at every question, or at the n-th for n < 6: both calls give what they give alone",
            insts.len(),
            insts.len() * inner.len()
        ),
        k,
        pick,
        |(i, c): &Case| -> Value { json!({"spatial": i.nbrs, "order": i.order, "outer call": format!("{c:?}")}) },
        move |(inst, (nthreads, bound, timeout, p)), o| {
            let outer = |hook: Arc<dyn Fn(u64) + Send + Sync>| -> Result<(Vec<Path>, u64), String> {
                let n = Arc::new(AtomicU64::new(0));
                let (m, p) = (n.clone(), *p);
                let f = AcceptFunc::Custom(Box::new(move |_, _, _, _, _, _, _| {
                    hook(m.fetch_add(1, SeqCst));
                    p
                }));
                let ps = call(|| {
                    interface::run(&inst.nbrs, &inst.order, true, *timeout, *nthreads, *bound, Some((f, Some(5))))
                })?;
                Ok((ps, n.load(SeqCst)))
            };
            let (want, asked) = outer(Arc::new(|_| ()))?;
            for (k, i) in insts.iter().enumerate() {
                for (b, a) in inner.iter().enumerate() {
                    let alone = act(i, a)?.map(|p| show_paths(&p));
                    // at every question if there are few, else at one of the first
                    let at = if asked <= 12 { None } else { Some((k + b) as u64 % 6) };
                    let bad = Arc::new(std::sync::Mutex::new(None));
                    let hook: Arc<dyn Fn(u64) + Send + Sync> = {
                        let (bad, i, a, alone) = (bad.clone(), i.clone(), *a, alone.clone());
                        Arc::new(move |n| {
                            if at.is_some_and(|at| at != n) {
                                return;
                            }
                            let e = match act(&i, &a) {
                                Ok(ps) => {
                                    let got = ps.map(|p| show_paths(&p));
                                    (got != alone).then(|| format!("gives {got:?}, alone {alone:?}"))
                                },
                                Err(e) => Some(e),
                            };
                            if let Some(e) = e {
                                bad.lock().unwrap_or_else(|e| e.into_inner()).get_or_insert(e);
                            }
                        })
                    };
                    let tell = || format!("{a:?} on {:?}/{:?}", i.nbrs, i.order);
                    let (got, _) = outer(hook)
                        .map_err(|e| format!("while the accept function makes the call {}: {e}", tell()))?;
                    if let Some(e) = bad.lock().unwrap_or_else(|e| e.into_inner()).take() {
                        return Err(format!("called by the accept function, {} {e}", tell()));
                    }
                    let same = if *nthreads < 2 {
                        show_paths(&want) == show_paths(&got)
                    } else {
                        costs(&want) == costs(&got)
                    };
                    if !same {
                        return Err(format!(
                            "with {} made by the accept function the result is {}, without {}",
                            tell(),
                            show_paths(&got),
                            show_paths(&want)
                        ));
                    }
                    o.states += 1;
                    o.transitions += 1;
                    o.validated += 2;
                    o.nontrivial += 1;
                }
            }
            Ok(())
        },
    )
}

/// iterators that are moved on by turns
fn by_turns() -> Section {
    let insts = Arc::new(pool());
    let k = insts.len() * insts.len();
    let pick = {
        let i = insts.clone();
        move |c: usize| (i[c % i.len()].clone(), i[c / i.len()].clone())
    };
    Section::new(
        "by-turns",
        "every pair of instances: two manual iterations, moved on by turns (1:1, 1:2, 2:1) and with a search of \
         the other instance after every third item, give what each gives alone",
        k,
        pick,
        |(a, b): &(Inst, Inst)| -> Value {
            json!({"spatial": a.nbrs, "order": a.order, "spatial2": b.nbrs, "order2": b.order})
        },
        |(a, b), o| {
            let (mut ba, mut bb) = (DependencyBuffer::new(a.n), DependencyBuffer::new(b.n));
            let alone = |i: &Inst, cap: usize| -> Result<Vec<String>, String> {
                call(|| {
                    let mut buf = DependencyBuffer::new(i.n);
                    let t = PathGenerator::<Partitioner>::from_dependency_graph(&i.order, &mut buf, None);
                    let it = Scheduler::<Partitioner>::new(t, Graph::new(&i.nbrs)).into_iter();
                    it.take(cap).map(|s| format!("{s:?}")).collect()
                })
            };
            let cap = 400;
            let (wa, wb) = (alone(a, cap)?, alone(b, cap)?);
            for (da, db) in [(1, 1), (1, 2), (2, 1)] {
                let got = call(|| {
                    let ta = PathGenerator::<Partitioner>::from_dependency_graph(&a.order, &mut ba, None);
                    let mut ia = Scheduler::<Partitioner>::new(ta, Graph::new(&a.nbrs)).into_iter();
                    let tb = PathGenerator::<Partitioner>::from_dependency_graph(&b.order, &mut bb, None);
                    let mut ib = Scheduler::<Partitioner>::new(tb, Graph::new(&b.nbrs)).into_iter();
                    let (mut ga, mut gb) = (Vec::new(), Vec::new());
                    let mut k = 0;
                    while ga.len() < wa.len() || gb.len() < wb.len() {
                        for _ in 0..da {
                            if ga.len() < wa.len() {
                                ga.push(format!("{:?}", ia.next()?));
                            }
                        }
                        k += 1;
                        if k % 3 == 0 && k < 100 {
                            let _ = interface::run(&b.nbrs, &b.order, true, None, 1, None, None);
                        }
                        for _ in 0..db {
                            if gb.len() < wb.len() {
                                gb.push(format!("{:?}", ib.next()?));
                            }
                        }
                    }
                    Some((ga, gb))
                })?;
                let Some((ga, gb)) = got else {
                    return Err("moved on by turns, an iteration ends earlier than alone".into());
                };
                for (got, want) in [(&ga, &wa), (&gb, &wb)] {
                    if let Some(k) = (0..want.len()).find(|k| got[*k] != want[*k]) {
                        return Err(format!(
                            "moved on by turns ({da}:{db}) item {k} is {}, alone it is {}",
                            got[k], want[k]
                        ));
                    }
                }
                o.validated += 2;
                o.states += (ga.len() + gb.len()) as u64;
                o.transitions += (ga.len() + gb.len()) as u64;
                o.nontrivial += 1;
            }
            Ok(())
        },
    )
}

pub fn c23(tier: Tier) -> Vec<Section> {
    let q = tier == Tier::Quick;
    vec![
        histories(if q { 1 } else { 2 }),
        nested(),
        by_turns(),
        at_once(labelled(2, false)),
        at_once(classes(3)),
        at_once(if q { structured(5..=5, 100) } else { classes(4) }),
    ]
}

// ---- C24

/// threads of this process
fn threads() -> usize {
    std::fs::read_dir("/proc/self/task").map(|d| d.count()).unwrap_or(0)
}

/// open files of this process
fn files() -> usize {
    std::fs::read_dir("/proc/self/fd").map(|d| d.count()).unwrap_or(0)
}

fn gone(f: Family) -> Section {
    f.section("gone", |inst, o| {
        let mut cfgs = Vec::new();
        for nthreads in [1, 2, 4] {
            for timeout in [None, Some(0), Some(3_600_000_000_000), Some(200_000)] {
                for bound in [None, Some(0), Some(1)] {
                    for search in [true, false] {
                        cfgs.push(Cfg {
                            search,
                            timeout: timeout.map(Duration::from_nanos),
                            nthreads,
                            bound,
                            prob: Prob::Const(1., Some(0)),
                        });
                    }
                }
            }
        }
        let (t0, f0) = (threads(), files());
        for c in &cfgs {
            for panics in [false, true] {
                // of several threads, an accept function must not panic
                if panics && (c.nthreads > 1 || !c.search) {
                    continue;
                }
                let count = Arc::new(AtomicU64::new(0));
                let k = count.clone();
                let f = move |_: f64, _: f64, _: f64, _: f64, _: f64, _: f64, _: f64| {
                    if k.fetch_add(1, SeqCst) == 1 && panics {
                        panic!("on purpose");
                    }
                    1.
                };
                let accept = AcceptFunc::Custom(Box::new(f));
                let t = Instant::now();
                let _ = call(|| {
                    interface::run(
                        &inst.nbrs,
                        &inst.order,
                        c.search,
                        c.timeout,
                        c.nthreads,
                        c.bound,
                        Some((accept, Some(0))),
                    )
                });
                if t.elapsed() > Duration::from_secs(50) {
                    return Err(format!("{c:?} returns after {:?}", t.elapsed()));
                }
                let n = count.load(SeqCst);
                // whatever was started ends by itself, and soon
                let t = Instant::now();
                loop {
                    let (th, fi, refs) = (threads(), files(), Arc::strong_count(&count));
                    if th <= t0 && fi <= f0 && refs == 1 {
                        break;
                    }
                    if t.elapsed() > Duration::from_secs(20) {
                        return Err(format!(
                            "{c:?}{}: 20 s after the call there are {th} threads (before: {t0}), {fi} open files \
                             (before: {f0}), and {} owners of the accept function",
                            if panics { ", the accept function panics" } else { "" },
                            refs - 1
                        ));
                    }
                    std::thread::sleep(Duration::from_micros(100));
                }
                if count.load(SeqCst) != n {
                    return Err(format!("{c:?}: the accept function is asked after the call has returned"));
                }
                o.validated += 1;
                o.states += 1;
                o.transitions += 1;
                o.nontrivial += (c.nthreads > 1 || c.timeout.is_some()) as u64;
            }
        }
        Ok(())
    })
    .parallel(1)
}

pub fn c24(tier: Tier) -> Vec<Section> {
    let q = tier == Tier::Quick;
    let mut v = vec![gone(labelled(1, false)), gone(labelled(2, false))];
    if !q {
        v.push(gone(labelled(3, false)));
    }
    v.push(gone(structured(5..=5, if q { 20 } else { 100 })));
    v
}
