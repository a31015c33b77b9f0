//! C12, C13, C14, C15, C20: the scheduler itself.
use std::{
    collections::{HashSet, VecDeque},
    rc::Rc,
};

use hashbrown::HashMap;
use mbqc_scheduling::scheduler::{
    space::{AlreadyMeasured, Graph, GraphBuffer, State},
    time::{DependencyBuffer, MeasurableSet, NotMeasurable, Partitioner, PathGenerator},
    tree::{Focus, FocusIterator, Step, Sweep},
    InstructionError, Scheduler,
};
use mcfw::{call, json, Out, Section, Tier};
use model::*;

use crate::insts::*;

fn mask_of(step: &[usize]) -> Result<Mask, String> {
    let mut m = 0;
    for &v in step {
        if v >= 32 || m >> v & 1 == 1 {
            return Err(format!("the step {step:?} is not a set of nodes"));
        }
        m |= 1 << v;
    }
    Ok(m)
}

fn sorted(v: &[usize]) -> Vec<usize> {
    let mut v = v.to_vec();
    v.sort();
    v
}

// ---- C12

/// What is common to the two things that can be iterated.
pub trait Tree: FocusIterator<IterItem = Vec<usize>> {
    fn avail(&self) -> Vec<usize>;
    fn mem(&self) -> Option<(usize, usize)>;
    fn leaf(l: Option<Self::LeafItem>) -> Option<Option<usize>>;
}
impl Tree for PathGenerator<'_, Partitioner> {
    fn avail(&self) -> Vec<usize> {
        sorted(self.measurable().set())
    }
    fn mem(&self) -> Option<(usize, usize)> {
        None
    }
    fn leaf(l: Option<()>) -> Option<Option<usize>> {
        l.map(|_| None)
    }
}
impl Tree for Scheduler<'_, Partitioner> {
    fn avail(&self) -> Vec<usize> {
        sorted(self.time().measurable().set())
    }
    fn mem(&self) -> Option<(usize, usize)> {
        Some((self.space().current_memory(), self.space().max_memory()))
    }
    fn leaf(l: Option<usize>) -> Option<Option<usize>> {
        l.map(Some)
    }
}

fn check_state<T: Tree>(t: &T, inst: &Inst, path: &[Mask]) -> Result<(), String> {
    let m = path.iter().fold(0, |a, b| a | b);
    let want: Vec<usize> = bits(inst.available(m)).collect();
    if t.avail() != want {
        return Err(format!("after {path:?} measurable are {:?}, not {want:?}", t.avail()));
    }
    if let Some(mem) = t.mem() {
        let want = (inst.cur(m), inst.peak(path));
        if mem != want {
            return Err(format!(
                "after {path:?} (current, max) memory is {mem:?}, not {want:?}"
            ));
        }
    }
    Ok(())
}

/// iterate to the end and collect the complete schedules
fn collect<T: Tree>(
    inst: &Inst,
    init: &[Mask],
    mut sweep: Sweep<T>,
    max_events: usize,
    paths: &mut Vec<Vec<Mask>>,
) -> Result<u64, String> {
    let mut path = init.to_vec();
    let mut events = 0u64;
    while let Some(step) = sweep.next() {
        events += 1;
        if events > max_events as u64 {
            return Err(format!("more than {max_events} items, there is no end"));
        }
        match step {
            Step::Forward(s) => {
                if s.is_empty() {
                    return Err(format!("empty step after {path:?}"));
                }
                path.push(mask_of(&s)?);
                check_state(sweep.current(), inst, &path)?;
            },
            Step::Backward(leaf) => {
                if let Some(mem) = T::leaf(leaf) {
                    paths.push(path.clone());
                    if let Some(mem) = mem {
                        let want = inst.peak(&path);
                        if mem != want {
                            return Err(format!(
                                "peak {mem} reported at the end of {path:?}, it is {want}"
                            ));
                        }
                    }
                }
                if path.len() <= init.len() {
                    return Err("more backward than forward items".into());
                }
                path.pop();
                check_state(sweep.current(), inst, &path)?;
            },
        }
        if sweep.stack().len() + init.len() != path.len() {
            return Err(format!(
                "stack of {} states at depth {}",
                sweep.stack().len(),
                path.len() - init.len()
            ));
        }
    }
    if path.len() != init.len() {
        return Err(format!("the iteration ends inside the tree, after {path:?}"));
    }
    Ok(events)
}

fn same_paths(inst: &Inst, mut got: Vec<Vec<Mask>>, what: &str) -> Result<u64, String> {
    let mut want = Vec::new();
    inst.each_path(&mut |p| want.push(p.to_vec()));
    want.sort();
    got.sort();
    if got != want {
        for w in got.windows(2) {
            if w[0] == w[1] {
                return Err(format!("{what} visits the schedule {} twice", show(&w[0])));
            }
        }
        if let Some(p) = want.iter().find(|p| got.binary_search(p).is_err()) {
            return Err(format!("{what} never visits the schedule {}", show(p)));
        }
        let p = got.iter().find(|p| want.binary_search(p).is_err()).unwrap();
        return Err(format!("{what} visits {}, which is no valid schedule", show(p)));
    }
    Ok(want.len() as u64)
}

fn show(p: &[Mask]) -> String {
    format!("{:?}", p.iter().map(|&s| bits(s).collect::<Vec<_>>()).collect::<Vec<_>>())
}

fn events_bound(inst: &Inst) -> usize {
    2 * (inst.count_paths() as usize * inst.n.max(1) + 1) + 10
}

fn iterate_all<T: Tree>(
    inst: &Inst,
    what: &str,
    mk: &mut dyn FnMut() -> T,
    o: &mut Out,
) -> Result<(), String> {
    let max = events_bound(inst);
    let mut paths = Vec::new();
    let ev = collect(inst, &[], Sweep::new(mk()), max, &mut paths)?;
    let n = same_paths(inst, paths, what)?;
    o.validated += n;
    o.states += ev + 1;
    o.transitions += ev;
    o.nontrivial += (n > 1) as u64;
    o.note = Some(format!("{n} schedules, {ev} items"));
    // the first steps partition the schedules
    let mut root = mk();
    let mut paths = Vec::new();
    let mut firsts = Vec::new();
    while let Some((sub, first)) = root.next_and_focus() {
        if firsts.len() > 1 << inst.n {
            return Err("there are more first steps than subsets".into());
        }
        let f = mask_of(&first)?;
        firsts.push(f);
        check_state(&sub, inst, &[f])?;
        check_state(&root, inst, &[])?;
        if let Some(mem) = T::leaf(sub.at_leaf()) {
            if let Some(mem) = mem {
                if mem != inst.peak(&[f]) {
                    return Err(format!("peak {mem} reported for the only step {first:?}"));
                }
            }
            paths.push(vec![f]);
        }
        o.transitions += collect(inst, &[f], Sweep::new(sub), max, &mut paths)?;
    }
    let k = firsts.len();
    firsts.sort();
    firsts.dedup();
    if k != firsts.len() || firsts.len() as u64 + 1 != 1 << inst.available(0).count_ones() {
        return Err(format!("{what}: {k} first steps, {} different ones", firsts.len()));
    }
    same_paths(inst, paths, &format!("{what} split at the first step"))?;
    Ok(())
}

fn c12_section(f: Family) -> Section {
    f.section("iterate", |inst, o| {
        call(|| {
            let mut b1 = DependencyBuffer::new(inst.n);
            let pg = PathGenerator::<Partitioner>::from_dependency_graph(
                &inst.order,
                &mut b1,
                None,
            );
            iterate_all(inst, "the time ordering", &mut || pg.clone(), o)?;
            let sc = Scheduler::<Partitioner>::new(pg, Graph::new(&inst.nbrs));
            iterate_all(inst, "the scheduler", &mut || sc.clone(), o)
        })?
    })
}

/// An iteration that starts at a state reached by hand, or that somebody else has started.
fn iterate_from<T>(inst: &Inst, what: &str, mk: &mut dyn FnMut() -> T, o: &mut Out) -> Result<(), String>
where
    T: Tree + Clone + for<'a> Focus<&'a [usize]>,
{
    let max = events_bound(inst);
    let mut all = Vec::new();
    inst.each_path(&mut |p| all.push(p.to_vec()));
    all.sort();
    let mut prefixes: Vec<Vec<Mask>> = all.iter().flat_map(|p| (0..p.len()).map(|k| p[..k].to_vec())).collect();
    prefixes.sort();
    prefixes.dedup();
    let compare = |paths: &mut Vec<Vec<Mask>>, want: &[Vec<Mask>], how: &str, pre: &[Mask]| {
        paths.sort();
        if *paths == want {
            return Ok(());
        }
        Err(format!(
            "{what}, {how} after {}: {} schedules, there are {}",
            show(pre),
            paths.len(),
            want.len()
        ))
    };
    for pre in &prefixes {
        let want: Vec<Vec<Mask>> = all.iter().filter(|p| p.starts_with(pre)).cloned().collect();
        // how many steps the iteration at each state has given out before the step by hand
        for used in [0, 1, 2] {
            for inplace in [false, true] {
                if pre.is_empty() && (inplace || used > 0) {
                    continue;
                }
                let mut t = mk();
                for &m in pre {
                    let step: Vec<usize> = bits(m).collect();
                    for _ in 0..used {
                        t.next_and_focus();
                    }
                    let no = || format!("{what}: the step {step:?} of {} is refused", show(pre));
                    if inplace {
                        t.focus_inplace(&step).map_err(|_| no())?;
                    } else {
                        t = t.focus(&step).map_err(|_| no())?;
                    }
                }
                check_state(&t, inst, pre)?;
                let mut paths = Vec::new();
                let how = format!("{} {used} steps given out", if inplace { "in place," } else { "" });
                let ev = collect(inst, pre, Sweep::new(t), max, &mut paths)?;
                compare(&mut paths, &want, &how, pre)?;
                o.validated += want.len() as u64;
                o.states += ev + 1;
                o.transitions += ev;
            }
        }
        // what is left of an iteration that has been started, and of a copy of it
        let mut t = mk();
        for &m in pre {
            let step: Vec<usize> = bits(m).collect();
            t.focus_inplace(&step).map_err(|_| format!("{what}: a step of {} is refused", show(pre)))?;
        }
        let k = pre.len();
        let mut given: Vec<Mask> = Vec::new();
        while let Some((_, first)) = t.next_and_focus() {
            given.push(mask_of(&first)?);
            if given.len() > 6 {
                break;
            }
            let left: Vec<Vec<Mask>> = want.iter().filter(|p| !given.contains(&p[k])).cloned().collect();
            let mut paths = Vec::new();
            let ev = collect(inst, pre, Sweep::new(t.clone()), max, &mut paths)?;
            compare(&mut paths, &left, &format!("what is left after {} steps were given out", given.len()), pre)?;
            o.validated += left.len() as u64;
            o.states += ev + 1;
            o.transitions += ev;
        }
    }
    o.nontrivial += (prefixes.len() > 1) as u64;
    Ok(())
}

fn c12_from(f: Family) -> Section {
    f.section("from-anywhere", |inst, o| {
        call(|| {
            let mut b1 = DependencyBuffer::new(inst.n);
            let pg = PathGenerator::<Partitioner>::from_dependency_graph(&inst.order, &mut b1, None);
            iterate_from(inst, "the time ordering", &mut || pg.clone(), o)?;
            let sc = Scheduler::<Partitioner>::new(pg, Graph::new(&inst.nbrs));
            iterate_from(inst, "the scheduler", &mut || sc.clone(), o)
        })?
    })
}

pub fn c12(tier: Tier) -> Vec<Section> {
    let q = tier == Tier::Quick;
    let mut v = Vec::new();
    for n in 1..=4 {
        v.push(c12_section(labelled(n, false)));
        v.push(c12_section(labelled(n, true)));
    }
    v.push(c12_section(structured(5..=if q { 8 } else { 10 }, if q { 10_000 } else { 300_000 })));
    v.push(c12_section(classes(5)));
    v.push(c12_section(wide(if q { 6..=7 } else { 6..=8 })));
    v.push(c12_section(deep(if q { 8..=12 } else { 8..=15 }, 1..=3)));
    v.push(c12_sparse(long(&[31, 32, 33, 63, 64, 65, 127, 128, 129])));
    v.push(c12_sparse(hubs(&[70, 140, 300])));
    v.push(c12_section(posets_thin(6, if q { 1 } else { 4 })));
    v.push(c12_from(labelled(1, false)));
    v.push(c12_from(labelled(2, false)));
    v.push(c12_from(labelled(3, false)));
    v.push(c12_from(if q { classes(4) } else { labelled(4, false) }));
    v.push(c12_from(structured(5..=if q { 6 } else { 7 }, if q { 2000 } else { 50_000 })));
    v
}

// the same for more nodes than bits in a mask, as long as there are few schedules

/// the state of the reference after the steps
pub struct Reached {
    pub done: Vec<bool>,
    pub avail: Vec<usize>,
    pub cur: usize,
    pub peak: usize,
}

pub fn reached(inst: &Inst, path: &[Vec<usize>]) -> Result<Reached, String> {
    let mut done = vec![false; inst.n];
    let mut init = vec![false; inst.n];
    for &v in path.iter().flatten() {
        if v >= inst.n || done[v] {
            return Err(format!("{path:?} is not a sequence of disjoint sets of nodes"));
        }
        done[v] = true;
        init[v] = true;
        for &w in &inst.nbrs[v] {
            init[w] = true;
        }
    }
    let mut free: Vec<bool> = done.iter().map(|d| !d).collect();
    for (b, ds) in inst.order.iter().flatten() {
        if !ds.iter().all(|&d| done[d]) {
            free[*b] = false;
        }
    }
    Ok(Reached {
        avail: (0..inst.n).filter(|&v| free[v]).collect(),
        cur: (0..inst.n).filter(|&v| init[v] && !done[v]).count(),
        peak: inst.space(path),
        done,
    })
}

fn each_path_sparse(
    inst: &Inst,
    path: &mut Vec<Vec<usize>>,
    f: &mut impl FnMut(&[Vec<usize>]),
) {
    let r = reached(inst, path).expect("a path of the model");
    if r.avail.is_empty() {
        assert!(r.done.iter().all(|d| *d), "cyclic order");
        f(path);
        return;
    }
    assert!(r.avail.len() < 10, "not sparse");
    for sub in 1u64..1 << r.avail.len() {
        path.push(bits(sub as Mask).map(|i| r.avail[i]).collect());
        each_path_sparse(inst, path, f);
        path.pop();
    }
}

fn check_state_sparse<T: Tree>(t: &T, inst: &Inst, path: &[Vec<usize>]) -> Result<(), String> {
    let r = reached(inst, path)?;
    if t.avail() != r.avail {
        return Err(format!("after {} steps measurable are {:?}, not {:?}", path.len(), t.avail(), r.avail));
    }
    if let Some(mem) = t.mem() {
        if mem != (r.cur, r.peak) {
            return Err(format!(
                "after {} steps (current, max) memory is {mem:?}, not {:?}",
                path.len(),
                (r.cur, r.peak)
            ));
        }
    }
    Ok(())
}

fn iterate_sparse<T: Tree>(inst: &Inst, what: &str, t: T, o: &mut Out) -> Result<(), String> {
    let mut want = Vec::new();
    each_path_sparse(inst, &mut vec![], &mut |p| want.push(p.to_vec()));
    want.sort();
    let max = 2 * want.len() * inst.n + 10;
    let mut sweep = Sweep::new(t);
    let mut path: Vec<Vec<usize>> = Vec::new();
    let mut got = Vec::new();
    let mut events = 0;
    while let Some(step) = sweep.next() {
        events += 1;
        if events > max {
            return Err(format!("{what}: more than {max} items, there is no end"));
        }
        match step {
            Step::Forward(s) => path.push(sorted(&s)),
            Step::Backward(leaf) => {
                if let Some(mem) = T::leaf(leaf) {
                    if mem.is_some_and(|m| m != inst.space(&path)) {
                        return Err(format!("{what}: peak {mem:?} reported for {path:?}"));
                    }
                    got.push(path.clone());
                }
                if path.pop().is_none() {
                    return Err(format!("{what}: more backward than forward items"));
                }
            },
        }
        check_state_sparse(sweep.current(), inst, &path).map_err(|e| format!("{what}: {e}"))?;
    }
    got.sort();
    if got != want {
        return Err(format!(
            "{what} visits {} schedules, {} different ones; there are {}",
            got.len(),
            got.iter().collect::<HashSet<_>>().len(),
            want.len()
        ));
    }
    o.validated += want.len() as u64;
    o.states += events as u64 + 1;
    o.transitions += events as u64;
    o.nontrivial += (want.len() > 1) as u64;
    o.note = Some(format!("{} schedules, {events} items", want.len()));
    Ok(())
}

fn c12_sparse(f: Family) -> Section {
    f.section("iterate", |inst, o| {
        call(|| {
            let mut b1 = DependencyBuffer::new(inst.n);
            let pg = PathGenerator::<Partitioner>::from_dependency_graph(
                &inst.order,
                &mut b1,
                None,
            );
            iterate_sparse(inst, "the time ordering", pg.clone(), o)?;
            let sc = Scheduler::<Partitioner>::new(pg, Graph::new(&inst.nbrs));
            iterate_sparse(inst, "the scheduler", sc, o)
        })?
    })
}

// ---- C13

/// a manually driven schedule
trait Manual: Clone {
    fn set(&self) -> Vec<usize>;
    fn remaining(&self) -> usize;
    fn blocked(&self) -> bool;
    fn leaf(&self) -> Option<bool>;
    fn mem(&self) -> Option<(usize, usize)>;
    fn step(&mut self, i: &[usize]) -> Result<Self, Vec<usize>>;
    fn step_inplace(&mut self, i: &[usize]) -> Result<(), Vec<usize>>;
}

fn named(e: NotMeasurable) -> Vec<usize> {
    sorted(&e.0)
}
fn named_i(e: InstructionError) -> Vec<usize> {
    match e {
        InstructionError::NotMeasurable(e) => named(e),
        InstructionError::AlreadyMeasured(AlreadyMeasured(b)) => vec![b],
    }
}


macro_rules! manual {
    ($t:ty, $leaf:expr) => {
        impl Manual for PathGenerator<'_, $t> {
            fn set(&self) -> Vec<usize> {
                self.measurable().set().to_vec()
            }
            fn remaining(&self) -> usize {
                self.num_remaining_nodes()
            }
            fn blocked(&self) -> bool {
                self.has_unmeasureable()
            }
            fn leaf(&self) -> Option<bool> {
                let f: fn(&Self) -> Option<bool> = $leaf;
                f(self)
            }
            fn mem(&self) -> Option<(usize, usize)> {
                None
            }
            fn step(&mut self, i: &[usize]) -> Result<Self, Vec<usize>> {
                self.focus(i).map_err(named)
            }
            fn step_inplace(&mut self, i: &[usize]) -> Result<(), Vec<usize>> {
                self.focus_inplace(i).map_err(named)
            }
        }
        impl Manual for Scheduler<'_, $t> {
            fn set(&self) -> Vec<usize> {
                self.time().measurable().set().to_vec()
            }
            fn remaining(&self) -> usize {
                self.time().num_remaining_nodes()
            }
            fn blocked(&self) -> bool {
                self.time().has_unmeasureable()
            }
            fn leaf(&self) -> Option<bool> {
                self.time().leaf()
            }
            fn mem(&self) -> Option<(usize, usize)> {
                Some((self.space().current_memory(), self.space().max_memory()))
            }
            fn step(&mut self, i: &[usize]) -> Result<Self, Vec<usize>> {
                self.focus(i).map_err(named_i)
            }
            fn step_inplace(&mut self, i: &[usize]) -> Result<(), Vec<usize>> {
                self.focus_inplace(i).map_err(named_i)
            }
        }
    };
}
manual!(Vec<usize>, |_| None);
manual!(Partitioner, |s| Some(s.at_leaf().is_some()));

fn see<M: Manual>(s: &M, inst: &Inst, m: Mask, peak: usize) -> Result<(), String> {
    let want: Vec<usize> = bits(inst.available(m)).collect();
    let got = sorted(&s.set());
    if got != want {
        return Err(format!("measurable are {got:?}, not {want:?}"));
    }
    let left = inst.n - m.count_ones() as usize;
    if s.remaining() != left {
        return Err(format!("{} remaining nodes reported, there are {left}", s.remaining()));
    }
    if s.blocked() != (left > want.len()) {
        return Err(format!("existence of blocked nodes reported as {}", s.blocked()));
    }
    if let Some(l) = s.leaf() {
        if l != (left == 0) {
            return Err(format!("completeness reported as {l} with {left} nodes left"));
        }
    }
    if let Some(mem) = s.mem() {
        if mem != (inst.cur(m), peak) {
            return Err(format!(
                "(current, max) memory is {mem:?}, not {:?}",
                (inst.cur(m), peak)
            ));
        }
    }
    Ok(())
}

/// all lists over the nodes and one unknown node up to `len`, then longer special ones
fn instructions(n: usize, len: usize) -> Vec<Vec<usize>> {
    let mut v = vec![vec![]];
    let mut last = vec![vec![]];
    for _ in 0..len {
        let mut next = Vec::new();
        for l in &last {
            for x in 0..=n {
                let mut y: Vec<usize> = l.clone();
                y.push(x);
                next.push(y);
            }
        }
        v.extend(next.iter().cloned());
        last = next;
    }
    if n > len {
        for p in permutations(n) {
            for k in len + 1..=n {
                v.push(p[..k].to_vec());
            }
        }
    }
    for x in 0..n {
        v.push(vec![x; n + 1]);
        v.push(vec![x; n + 3]);
        // everything, and one node twice
        let mut y: Vec<usize> = (0..n).collect();
        y.push(x);
        v.push(y);
    }
    v.push(vec![usize::MAX]);
    v.push((0..2 * n).collect());
    v.sort();
    v.dedup();
    v.sort_by_key(|x| x.len());
    v
}

/// nodes of the instruction that cannot be measured (a second mention cannot)
fn offending(inst: &Inst, m: Mask, ins: &[usize]) -> Vec<usize> {
    let mut avail = inst.available(m);
    let mut bad = Vec::new();
    for &x in ins {
        if x < inst.n && avail >> x & 1 == 1 {
            avail &= !(1 << x);
        } else {
            bad.push(x);
        }
    }
    bad.sort();
    bad
}

fn drive<M: Manual>(
    inst: &Inst,
    what: &str,
    root: M,
    ins: &[Vec<usize>],
    o: &mut Out,
) -> Result<(), String> {
    let mut seen: HashSet<(Mask, usize, Vec<usize>)> = HashSet::new();
    let mut todo = VecDeque::from([(root, 0 as Mask, 0usize, Vec::<Vec<usize>>::new())]);
    while let Some((s, m, peak, hist)) = todo.pop_front() {
        let at = |e: String| format!("{what} after the instructions {hist:?}: {e}");
        call(|| see(&s, inst, m, peak)).and_then(|r| r).map_err(at)?;
        if !seen.insert((m, peak, s.set())) {
            continue;
        }
        o.states += 1;
        for i in ins {
            let at = |e: String| format!("{what} after the instructions {hist:?}, instruction {i:?}: {e}");
            o.transitions += 1;
            o.validated += 1;
            let bad = offending(inst, m, i);
            let step = if bad.is_empty() { i.iter().fold(0, |a, &b| a | 1 << b) } else { 0 };
            let (m2, peak2) = if step != 0 {
                (m | step, peak.max(inst.step_cost(m, step)))
            } else {
                (m, peak)
            };
            // not in place
            let mut a = s.clone();
            let order_before = a.set();
            let r = call(|| a.step(i)).map_err(at)?;
            call(|| see(&a, inst, m, peak))
                .and_then(|r| r)
                .map_err(|e| at(format!("the state it started from changed: {e}")))?;
            if a.set() != order_before {
                return Err(at("the measurable set it started from changed".into()));
            }
            match &r {
                Ok(new) => {
                    if !bad.is_empty() {
                        return Err(at("accepted, although not measurable".into()));
                    }
                    call(|| see(new, inst, m2, peak2)).and_then(|r| r).map_err(at)?;
                },
                Err(names) => {
                    o.nontrivial += 1;
                    if bad.is_empty() {
                        return Err(at(format!("rejected with {names:?}, although legal")));
                    }
                    if *names != bad {
                        return Err(at(format!("the error names {names:?}, not {bad:?}")));
                    }
                },
            }
            // in place
            let mut b = s.clone();
            let r2 = call(|| b.step_inplace(i)).map_err(at)?;
            match r2 {
                Ok(()) => {
                    if !bad.is_empty() {
                        return Err(at("in place: accepted, although not measurable".into()));
                    }
                    call(|| see(&b, inst, m2, peak2))
                        .and_then(|r| r)
                        .map_err(|e| at(format!("in place: {e}")))?;
                },
                Err(names) => {
                    if names != bad {
                        return Err(at(format!(
                            "in place: rejected with {names:?}, not measurable are {bad:?}"
                        )));
                    }
                    call(|| see(&b, inst, m, peak))
                        .and_then(|r| r)
                        .map_err(|e| at(format!("in place: rejected, but changed: {e}")))?;
                },
            }
            // whatever happened, what it started from (a) and the outcome (b) still lead
            // to the end
            for (s, mut m, mut peak) in [(a, m, peak), (b, m2, peak2)] {
                let mut s = s;
                let mut steps = 0;
                while m != inst.full() {
                    let st = inst.available(m);
                    // one node at a time, the last one first
                    let v = bits(st).last().unwrap();
                    call(|| s.step_inplace(&[v]))
                        .and_then(|r| r.map_err(|e| format!("error naming {e:?}")))
                        .map_err(|e| at(format!("later, measuring {v}: {e}")))?;
                    peak = peak.max(inst.step_cost(m, 1 << v));
                    m |= 1 << v;
                    call(|| see(&s, inst, m, peak))
                        .and_then(|r| r)
                        .map_err(|e| at(format!("later, after measuring {v}: {e}")))?;
                    steps += 1;
                }
                o.transitions += steps;
            }
            if step != 0 {
                if let Ok(new) = r {
                    let mut h = hist.clone();
                    h.push(i.clone());
                    todo.push_back((new, m2, peak2, h));
                }
            }
        }
    }
    o.note = Some(format!("{what}: {} states x {} instructions", seen.len(), ins.len()));
    Ok(())
}

fn c13_section(f: Family, len: usize) -> Section {
    f.section(&format!("instruct{len}"), move |inst, o| {
        let ins = instructions(inst.n, len);
        let mut b = DependencyBuffer::new(inst.n);
        let pg = call(|| {
            PathGenerator::<Vec<usize>>::from_dependency_graph(&inst.order, &mut b, None)
        })?;
        drive(inst, "PathGenerator<Vec>", pg.clone(), &ins, o)?;
        drive(inst, "Scheduler<Vec>", Scheduler::new(pg, Graph::new(&inst.nbrs)), &ins, o)?;
        let mut b = DependencyBuffer::new(inst.n);
        let pg = call(|| {
            PathGenerator::<Partitioner>::from_dependency_graph(&inst.order, &mut b, None)
        })?;
        drive(inst, "PathGenerator<Partitioner>", pg.clone(), &ins, o)?;
        drive(inst, "Scheduler<Partitioner>", Scheduler::new(pg, Graph::new(&inst.nbrs)), &ins, o)
    })
}

/// down one schedule of a big instance, one node at a time; at each state some
/// instructions that have to be rejected, each alone and together with legal nodes
fn drive_down<M: Manual>(inst: &Inst, what: &str, root: M, last: bool, o: &mut Out) -> Result<(), String> {
    fn see<M: Manual>(s: &M, inst: &Inst, path: &[Vec<usize>]) -> Result<Reached, String> {
        let r = reached(inst, path)?;
        let left = inst.n - r.done.iter().filter(|d| **d).count();
        let got = (sorted(&s.set()), s.remaining(), s.blocked(), s.leaf(), s.mem());
        let want = (
            r.avail.clone(),
            left,
            left > r.avail.len(),
            got.3.map(|_| left == 0),
            got.4.map(|_| (r.cur, r.peak)),
        );
        if got != want {
            return Err(format!(
                "(measurable, remaining, blocked, complete, memory) is {got:?}, not {want:?}"
            ));
        }
        Ok(r)
    }
    let mut s = root;
    let mut path: Vec<Vec<usize>> = Vec::new();
    loop {
        let at = |e: String| format!("{what} after measuring {:?}: {e}", path.concat());
        let r = call(|| see(&s, inst, &path)).and_then(|r| r).map_err(at)?;
        o.states += 1;
        let Some(&v) = (if last { r.avail.last() } else { r.avail.first() }) else { break };
        let not: Vec<usize> = (0..inst.n)
            .filter(|x| !r.avail.contains(x))
            .filter(|&x| x < 2 || x + 2 >= inst.n || x.abs_diff(v) <= 2)
            .chain([inst.n, inst.n + 1])
            .collect();
        let mut bad: Vec<(Vec<usize>, Vec<usize>)> = Vec::new();
        for &x in &not {
            bad.push((vec![x], vec![x]));
            bad.push((vec![x, v], vec![x]));
            bad.push((vec![v, x], vec![x]));
        }
        bad.push((not.clone(), sorted(&not)));
        bad.push((vec![v, v], vec![v]));
        for (ins, names) in bad {
            o.transitions += 2;
            o.validated += 2;
            o.nontrivial += 1;
            let at = |e: String| at(format!("instruction {ins:?}: {e}"));
            match call(|| s.step(&ins)).map_err(at)? {
                Ok(_) => return Err(at("accepted, although not measurable".into())),
                Err(e) if e != names => return Err(at(format!("the error names {e:?}, not {names:?}"))),
                Err(_) => {},
            }
            match call(|| s.step_inplace(&ins)).map_err(at)? {
                Ok(_) => return Err(at("in place: accepted, although not measurable".into())),
                Err(e) if e != names => return Err(at(format!("in place: the error names {e:?}, not {names:?}"))),
                Err(_) => {},
            }
        }
        call(|| see(&s, inst, &path)).and_then(|r| r).map_err(|e| at(format!("after rejected instructions: {e}")))?;
        let new = call(|| s.step(&[v])).map_err(at)?.map_err(|e| at(format!("measuring {v}: error naming {e:?}")))?;
        call(|| see(&s, inst, &path)).and_then(|r| r).map_err(|e| at(format!("after a step from it: {e}")))?;
        call(|| s.step_inplace(&[v])).map_err(at)?.map_err(|e| at(format!("measuring {v} in place: error naming {e:?}")))?;
        path.push(vec![v]);
        let at = |e: String| format!("{what} after measuring {:?}: {e}", path.concat());
        call(|| see(&new, inst, &path)).and_then(|r| r).map_err(at)?;
        o.transitions += 2;
        o.validated += 2;
    }
    o.note = Some(format!("{what}: {} states", path.len() + 1));
    Ok(())
}

fn c13_down(f: Family) -> Section {
    f.section("down", |inst, o| {
        for last in [false, true] {
            let mut b = DependencyBuffer::new(inst.n);
            let pg = call(|| {
                PathGenerator::<Vec<usize>>::from_dependency_graph(&inst.order, &mut b, None)
            })?;
            drive_down(inst, "PathGenerator<Vec>", pg.clone(), last, o)?;
            let s = Scheduler::new(pg, Graph::new(&inst.nbrs));
            drive_down(inst, "Scheduler<Vec>", s, last, o)?;
            let mut b = DependencyBuffer::new(inst.n);
            let pg = call(|| {
                PathGenerator::<Partitioner>::from_dependency_graph(&inst.order, &mut b, None)
            })?;
            drive_down(inst, "PathGenerator<Partitioner>", pg.clone(), last, o)?;
            let s = Scheduler::new(pg, Graph::new(&inst.nbrs));
            drive_down(inst, "Scheduler<Partitioner>", s, last, o)?;
        }
        Ok(())
    })
}

/// everything that can be measured, in two parts and the second one first, until nothing is left
fn huge_down<T: Manual>(what: &str, order: &[Vec<(usize, Vec<usize>)>], mut t: T, o: &mut Out) -> Result<(), String> {
    let n: usize = order.iter().map(|l| l.len()).sum();
    let mut left = n;
    // an independent account of what can be measured
    let mut counts = vec![0; n];
    let mut dependents = vec![Vec::new(); n];
    for (v, deps) in order.iter().flatten() {
        counts[*v] = deps.len();
        deps.iter().for_each(|d| dependents[*d].push(*v));
    }
    let mut avail: std::collections::BTreeSet<usize> = (0..n).filter(|v| counts[*v] == 0).collect();
    for (k, layer) in order.iter().enumerate() {
        let nodes: Vec<usize> = layer.iter().map(|(v, _)| *v).collect();
        let (first, second) = nodes.split_at(nodes.len() / 2);
        for part in [second, first] {
            if part.is_empty() {
                continue;
            }
            let at = |e: String| format!("{what}, {} of {n} nodes measured: {e}", n - left);
            let want: Vec<usize> = avail.iter().copied().collect();
            if sorted(&t.set()) != want {
                return Err(at(format!("{} nodes measurable, not {}", t.set().len(), want.len())));
            }
            if t.remaining() != left {
                return Err(at(format!("{} remaining", t.remaining())));
            }
            if t.blocked() != (left > want.len()) {
                return Err(at(format!("blocked nodes: {}", t.blocked())));
            }
            if t.leaf() == Some(true) {
                return Err(at("complete".into()));
            }
            // one that is not measurable, one twice
            if k < 10 {
                let later = order.get(k + 2).map(|l| l[l.len() - 1].0);
                for bad in later.into_iter().chain([part[0], n + 7]) {
                    let mut i = part[..part.len().min(6)].to_vec();
                    i.push(bad);
                    match call(|| t.step_inplace(&i)).map_err(at)? {
                        Err(e) if e == [bad] => (),
                        r => return Err(at(format!("measurable ones and {bad}: {r:?}"))),
                    }
                    o.transitions += 1;
                }
                if sorted(&t.set()) != want {
                    return Err(at("another measurable set after an error".into()));
                }
            }
            call(|| t.step_inplace(part)).map_err(at)?.map_err(|e| at(format!("{} nodes refused", e.len())))?;
            left -= part.len();
            for v in part {
                avail.remove(v);
                for d in &dependents[*v] {
                    counts[*d] -= 1;
                    if counts[*d] == 0 {
                        avail.insert(*d);
                    }
                }
            }
            o.transitions += 1;
            o.states += 1;
        }
    }
    if !t.set().is_empty() || t.remaining() != 0 || t.blocked() || t.leaf() == Some(false) {
        return Err(format!("{what}: something is left at the end"));
    }
    o.validated += 1;
    o.nontrivial += 1;
    Ok(())
}

fn c13_huge(n: usize) -> Section {
    Section::new(
        "down/huge",
        format!("{HUGE:?} with {n} nodes: every layer in two steps; the measurable nodes with one more that is not, or with one of them again"),
        HUGE.len() * 4,
        |i| (i / 4, i % 4),
        |(i, t): &(usize, usize)| json!({"order": HUGE[*i], "type": t}),
        move |(i, t), o| {
            let (nbrs, order) = huge_input(*i, true, n);
            let mut b = DependencyBuffer::new(n);
            match t {
                0 => {
                    let pg = call(|| PathGenerator::<Vec<usize>>::from_dependency_graph(&order, &mut b, None))?;
                    huge_down("PathGenerator<Vec>", &order, pg, o)
                },
                1 => {
                    let pg = call(|| PathGenerator::<Partitioner>::from_dependency_graph(&order, &mut b, None))?;
                    huge_down("PathGenerator<Partitioner>", &order, pg, o)
                },
                2 => {
                    let pg = call(|| PathGenerator::<Vec<usize>>::from_dependency_graph(&order, &mut b, None))?;
                    huge_down("Scheduler<Vec>", &order, Scheduler::new(pg, Graph::new(&nbrs)), o)
                },
                _ => {
                    let pg = call(|| PathGenerator::<Partitioner>::from_dependency_graph(&order, &mut b, None))?;
                    huge_down("Scheduler<Partitioner>", &order, Scheduler::new(pg, Graph::new(&nbrs)), o)
                },
            }
        },
    )
}

pub fn c13(tier: Tier) -> Vec<Section> {
    let q = tier == Tier::Quick;
    let mut v = vec![
        c13_section(labelled(1, false), 3),
        c13_section(labelled(2, false), 4),
        c13_section(labelled(3, false), if q { 3 } else { 4 }),
        c13_section(labelled(3, true), if q { 3 } else { 4 }),
        c13_section(classes_few(4), if q { 2 } else { 4 }),
    ];
    v.push(c13_section(classes(4), if q { 1 } else { 2 }));
    v.push(c13_down(long(&[31, 32, 33, 63, 64, 65, 127, 128, 129])));
    v.push(c13_down(hubs(if q { &[300] } else { &[70, 140, 300] })));
    v.push(c13_down(structured(6..=if q { 9 } else { 12 }, u64::MAX)));
    v.push(c13_huge(huge_size()));
    if !q {
        v.push(c13_section(classes_few(5), 2));
    }
    v
}

/// one DAG per isomorphism class x three graphs
pub fn classes_few(n: usize) -> Family {
    let dags = Rc::new(dag_classes(n, false));
    let dags: std::sync::Arc<Vec<Vec<Mask>>> = std::sync::Arc::new((*dags).clone());
    let gs: std::sync::Arc<Vec<Vec<Mask>>> = std::sync::Arc::new(
        graph_family(n)
            .into_iter()
            .filter(|(name, _)| ["empty", "path", "star_first"].contains(name))
            .map(|(_, g)| g)
            .collect(),
    );
    Family {
        name: format!("classes_few{n}"),
        rule: format!(
            "one DAG per isomorphism class on {n} nodes x the graphs without edges, path, star"
        ),
        len: dags.len() * gs.len(),
        gen: std::sync::Arc::new(move |i| {
            Inst::from_masks(&gs[i % gs.len()], &dags[i / gs.len()], i % 2 == 1)
        }),
    }
}

// ---- C14

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct Mem {
    state: Vec<u8>,
    cur: usize,
    max: usize,
}

impl Mem {
    fn step(&self, adj: &[Mask], ins: &[usize]) -> Result<Mem, ()> {
        let mut n = self.clone();
        for &v in ins {
            if n.state[v] == 2 {
                return Err(());
            }
            if n.state[v] == 0 {
                n.cur += 1;
            }
            n.state[v] = 2;
            for w in bits(adj[v]) {
                if n.state[w] == 0 {
                    n.state[w] = 1;
                    n.cur += 1;
                }
            }
        }
        n.max = n.max.max(n.cur);
        n.cur -= ins.len();
        Ok(n)
    }
}

fn read(g: &Graph) -> Mem {
    Mem {
        state: g
            .nodes()
            .iter()
            .map(|(s, _)| match s {
                State::Sleeping => 0,
                State::InMemory => 1,
                State::Measured => 2,
            })
            .collect(),
        cur: g.current_memory(),
        max: g.max_memory(),
    }
}

fn state_of(g: &Graph, v: usize) -> u8 {
    match g.nodes()[v].0 {
        State::Sleeping => 0,
        State::InMemory => 1,
        State::Measured => 2,
    }
}

fn c14_section(n: usize, rev: bool) -> Section {
    let ng = num_graphs(n) as usize;
    let mut ins: Vec<Vec<usize>> = (0..1 << n as Mask).map(|m| bits(m).collect()).collect();
    ins.extend((0..1 << n as Mask).map(|m| {
        let mut v: Vec<usize> = bits(m).collect();
        v.reverse();
        v
    }));
    for x in 0..n {
        for y in 0..n {
            ins.push(vec![x, y]);
            for z in 0..n {
                ins.push(vec![x, y, z]);
            }
        }
    }
    ins.sort();
    ins.dedup();
    ins.sort_by_key(|x| x.len());
    Section::new(
        format!("memory{n}{}", if rev { "_rev" } else { "" }),
        format!(
            "all labelled graphs on {n} nodes; every reachable state; from each of them every \
             set of nodes in both orders and every list of up to three nodes"
        ),
        ng,
        move |i| Inst::from_masks(&graph(n, i as u64), &vec![0; n], rev),
        |i: &Inst| json!({"spatial": i.nbrs}),
        move |inst, o| {
            let mut seen = HashSet::new();
            let root = call(|| Graph::new(&inst.nbrs))?;
            let m0 = Mem { state: vec![0; n], cur: 0, max: 0 };
            let mut todo = VecDeque::from([(root, m0, Vec::<Vec<usize>>::new())]);
            while let Some((g, m, hist)) = todo.pop_front() {
                if !seen.insert(m.clone()) {
                    continue;
                }
                o.states += 1;
                for i in &ins {
                    let at = |e: String| format!("after {hist:?}, measuring {i:?}: {e}");
                    o.transitions += 1;
                    o.validated += 1;
                    let want = m.step(&inst.adj, i);
                    let mut a = g.clone();
                    let r = call(|| a.focus(i)).map_err(at)?;
                    if read(&a) != m {
                        return Err(at(format!(
                            "the original changed from {m:?} to {:?}",
                            read(&a)
                        )));
                    }
                    let mut b = g.clone();
                    let r2 = call(|| b.focus_inplace(i)).map_err(at)?;
                    match (&want, r, r2) {
                        (Ok(w), Ok(new), Ok(())) => {
                            for (how, x) in [("", &new), (" in place", &b)] {
                                if read(x) != *w {
                                    return Err(at(format!(
                                        "{:?}{how}, expected {w:?}",
                                        read(x)
                                    )));
                                }
                                let lists: Vec<_> =
                                    x.nodes().iter().map(|n| n.1.clone()).collect();
                                if lists != inst.nbrs {
                                    return Err(at("the neighbour lists changed".into()));
                                }
                            }
                            let mut h = hist.clone();
                            h.push(i.clone());
                            todo.push_back((new, w.clone(), h));
                        },
                        (Err(()), Err(e), Err(e2)) => {
                            o.nontrivial += 1;
                            for AlreadyMeasured(x) in [e, e2] {
                                let again = i.iter().filter(|y| **y == x).count() > 1;
                                if !i.contains(&x) || !(m.state[x] == 2 || again) {
                                    return Err(at(format!("the error names {x}")));
                                }
                            }
                        },
                        (_, r, r2) => {
                            return Err(at(format!(
                                "result {:?}, in place {:?}, expected {}",
                                r.map(|g| read(&g)),
                                r2,
                                if want.is_ok() { "success" } else { "an error" }
                            )));
                        },
                    }
                }
            }
            o.note = Some(format!("{} states", seen.len()));
            Ok(())
        },
    )
}

/// graphs on many nodes, and ways to measure all of them
fn c14_large() -> Section {
    let graphs = ["none", "path", "star", "star in the middle", "pairs", "ring of distance n/3", "complete"];
    let ways = ["one by one", "one by one, backwards", "at once", "halves, the second first", "seven at a time", "even ones, odd ones"];
    let mut cases = Vec::new();
    for n in [31, 33, 63, 65, 127, 129, 255, 256, 257, 300, 66_000] {
        for g in 0..graphs.len() {
            for w in 0..ways.len() {
                // (a complete graph has too many edges, and too many steps take too long)
                if n < 1000 || g < 6 && [2, 3, 5].contains(&w) {
                    cases.push((n, g, w));
                }
            }
        }
    }
    let cases2 = cases.clone();
    Section::new(
        "memory-large",
        format!("graphs {graphs:?} on 31 to 300 and on 66000 nodes, all nodes measured {ways:?}; measured nodes again after every step"),
        cases.len(),
        move |i| cases2[i],
        move |(n, g, w): &(usize, usize, usize)| json!({"nodes": n, "graph": graphs[*g], "measured": ways[*w]}),
        |(n, g, w), o| {
            let n = *n;
            let nbrs: Vec<Vec<usize>> = (0..n)
                .map(|v| match g {
                    1 => [v.checked_sub(1), Some(v + 1).filter(|w| *w < n)].into_iter().flatten().collect(),
                    2 if v == 0 => (1..n).collect(),
                    2 => vec![0],
                    3 if v == n / 2 => (0..n).filter(|w| *w != v).rev().collect(),
                    3 => vec![n / 2],
                    4 => [v ^ 1].into_iter().filter(|w| *w < n).collect(),
                    5 => vec![(v + n / 3) % n, (v + n - n / 3) % n],
                    6 => (0..n).filter(|w| *w != v).collect(),
                    _ => vec![],
                })
                .collect();
            let all: Vec<usize> = (0..n).collect();
            let steps: Vec<Vec<usize>> = match w {
                0 => all.iter().map(|v| vec![*v]).collect(),
                1 => all.iter().rev().map(|v| vec![*v]).collect(),
                2 => vec![all],
                3 => vec![all[n / 2..].to_vec(), all[..n / 2].to_vec()],
                4 => all.chunks(7).map(|c| c.to_vec()).collect(),
                _ => vec![all.iter().copied().step_by(2).collect(), all.iter().copied().skip(1).step_by(2).collect()],
            };
            let mut s = call(|| Graph::new(&nbrs))?;
            let mut state = vec![0u8; n];
            let (mut cur, mut max) = (0usize, 0usize);
            let same = |s: &Graph, state: &[u8], cur: usize, max: usize, what: &str, k: usize| {
                if (s.current_memory(), s.max_memory()) != (cur, max) {
                    return Err(format!(
                        "{what} after {k} steps: memory {}, peak {}, not {cur}, {max}",
                        s.current_memory(),
                        s.max_memory()
                    ));
                }
                match (0..n).find(|v| state_of(s, *v) != state[*v]) {
                    None => Ok(()),
                    Some(v) => Err(format!("{what} after {k} steps: node {v} is {:?}", s.nodes()[v].0)),
                }
            };
            same(&s, &state, 0, 0, "new", 0)?;
            for (k, step) in steps.iter().enumerate() {
                let before = (state.clone(), cur, max);
                for &v in step {
                    for x in nbrs[v].iter().copied().chain([v]) {
                        if state[x] == 0 {
                            state[x] = 1;
                            cur += 1;
                        }
                    }
                    state[v] = 2;
                }
                max = max.max(cur);
                cur -= step.len();
                let new = call(|| s.focus(step))?.map_err(|e| format!("step {k}: {e:?}"))?;
                same(&s, &before.0, before.1, before.2, "the original", k + 1)?;
                same(&new, &state, cur, max, "the new one", k + 1)?;
                call(|| s.focus_inplace(step))?.map_err(|e| format!("step {k} in place: {e:?}"))?;
                same(&s, &state, cur, max, "in place", k + 1)?;
                // something that is measured already, and the rest with it
                let mut again: Vec<usize> = steps.get(k + 1).cloned().unwrap_or_default();
                again.push(step[step.len() - 1]);
                match call(|| s.focus(&again))? {
                    Err(AlreadyMeasured(x)) if x == step[step.len() - 1] => (),
                    Err(e) => return Err(format!("after {} steps the error is {e:?}", k + 1)),
                    Ok(_) => return Err(format!("after {} steps a measured node is measured again", k + 1)),
                }
                same(&s, &state, cur, max, "after an error", k + 1)?;
                o.states += 1;
                o.transitions += 3;
            }
            o.validated += 1;
            o.nontrivial += (steps.len() > 1) as u64;
            Ok(())
        },
    )
}

pub fn c14(tier: Tier) -> Vec<Section> {
    let mut v: Vec<Section> = (1..=4).map(|n| c14_section(n, false)).collect();
    v.push(c14_section(4, true));
    v.push(c14_section(5, false));
    v.push(c14_large());
    if tier == Tier::Thorough {
        v.push(c14_section(6, false));
    }
    v
}

// ---- C15

/// renamings of 0..n: the ids used in the input, and the map given to the call
fn renamings(n: usize, p: &[usize]) -> Vec<(Vec<usize>, HashMap<usize, usize>)> {
    // p[v] = new name of v; ids[v] = the name of node p[v] in the input
    let mut out = Vec::new();
    // plain permutation, complete
    let ids: Vec<usize> = (0..n).collect();
    out.push((ids.clone(), (0..n).map(|v| (v, p[v])).collect()));
    // without the fixed points
    out.push((ids, (0..n).filter(|&v| p[v] != v).map(|v| (v, p[v])).collect()));
    // all ids out of range
    let ids: Vec<usize> = (0..n).map(|v| v + 10).collect();
    out.push((ids.clone(), (0..n).map(|v| (v + 10, p[v])).collect()));
    // only the ids of moved nodes are different
    let ids: Vec<usize> = (0..n).map(|v| if p[v] == v { v } else { 50 - v }).collect();
    out.push((
        ids,
        (0..n).filter(|&v| p[v] != v).map(|v| (50 - v, p[v])).collect(),
    ));
    out
}

fn edges_section(n: usize, len: usize, rename: bool) -> Section {
    let base = n * n;
    let total: usize = (0..=len).map(|l| base.pow(l as u32)).sum();
    let perms = permutations(n);
    Section::new(
        format!("edges{n}-{len}{}", if rename { "-renamed" } else { "" }),
        format!(
            "all lists of up to {len} ordered pairs (loops included) over {n} nodes{}",
            if rename { ", under all permutations in four kinds of renaming" } else { "" }
        ),
        total,
        move |mut i| {
            let mut l = 0;
            while i >= base.pow(l as u32) {
                i -= base.pow(l as u32);
                l += 1;
            }
            let mut e = Vec::new();
            for _ in 0..l {
                e.push((i % base / n, i % base % n));
                i /= base;
            }
            e
        },
        |e: &Vec<(usize, usize)>| json!({"edges": e}),
        move |edges, o| {
            let check = |edges: &[(usize, usize)],
                         map: Option<&HashMap<usize, usize>>,
                         want: &[Mask]|
             -> Result<(), String> {
                // without the check, too, if there is nothing that it could find
                let simple = edges.iter().enumerate().all(|(k, &(a, b))| {
                    a != b && !edges[..k].iter().any(|e| *e == (a, b) || *e == (b, a))
                });
                for checked in if simple { &[true, false][..] } else { &[true] } {
                    let b = call(|| GraphBuffer::new(edges, n, map, *checked))
                        .map_err(|e| format!("edges {edges:?}, map {map:?}: {e}"))?;
                    let got = b.as_buffer();
                    let ok = got.len() == n
                        && (0..n).all(|v| mask_of(&got[v]).is_ok_and(|m| m == want[v]));
                    if !ok {
                        return Err(format!(
                            "edges {edges:?}, map {map:?}, check {checked}: neighbour lists {got:?}, expected {:?}",
                            want.iter().map(|&m| bits(m).collect::<Vec<_>>()).collect::<Vec<_>>()
                        ));
                    }
                }
                Ok(())
            };
            let adj = |es: &mut dyn Iterator<Item = (usize, usize)>| {
                let mut a = vec![0 as Mask; n];
                for (x, y) in es {
                    if x != y {
                        a[x] |= 1 << y;
                        a[y] |= 1 << x;
                    }
                }
                a
            };
            if !rename {
                check(edges, None, &adj(&mut edges.iter().copied()))?;
                o.validated += 1;
                o.states += 1;
                o.transitions += edges.len() as u64;
                o.nontrivial += (edges.len() > 1) as u64;
            } else {
                for p in &perms {
                    let want = adj(&mut edges.iter().map(|&(x, y)| (p[x], p[y])));
                    for (ids, map) in renamings(n, p) {
                        let es: Vec<_> =
                            edges.iter().map(|&(x, y)| (ids[x], ids[y])).collect();
                        check(&es, Some(&map), &want)?;
                        o.validated += 1;
                        o.states += 1;
                        o.transitions += es.len() as u64;
                        o.nontrivial += (es.len() > 1) as u64;
                    }
                }
            }
            Ok(())
        },
    )
}

fn all_of(
    order: &[Vec<(usize, Vec<usize>)>],
    buffer: &mut DependencyBuffer,
    map: Option<&HashMap<usize, usize>>,
    inst: &Inst,
) -> Result<u64, String> {
    call(|| {
        let pg = PathGenerator::<Partitioner>::from_dependency_graph(order, buffer, map);
        let mut paths = Vec::new();
        collect(inst, &[], Sweep::new(pg), events_bound(inst), &mut paths)?;
        same_paths(inst, paths, "the schedule")?;
        // the manual interface on the same buffer
        let mut pg = PathGenerator::<Vec<usize>>::from_dependency_graph(order, buffer, map);
        let mut m = 0;
        let mut steps = 0;
        while m != inst.full() {
            see(&pg, inst, m, 0)?;
            let v = bits(inst.available(m)).next().unwrap();
            pg.step_inplace(&[v]).map_err(|e| format!("measuring {v} fails: {e:?}"))?;
            m |= 1 << v;
            steps += 1;
        }
        see(&pg, inst, m, 0)?;
        Ok(steps)
    })?
}

fn rename_order_section(n: usize) -> Section {
    let dags = all_dags(n);
    let perms = permutations(n);
    Section::new(
        format!("rename-order{n}"),
        format!("all labelled DAGs on {n} nodes under all permutations in four kinds of renaming"),
        dags.len(),
        move |i| dags[i].clone(),
        |d: &Vec<Mask>| json!({"dependencies": d}),
        move |dep, o| {
            let inst = Inst::from_masks(&vec![0; n], dep, false);
            for p in &perms {
                let mut renamed = vec![0 as Mask; n];
                for v in 0..n {
                    renamed[p[v]] = bits(dep[v]).fold(0, |m, w| m | 1 << p[w]);
                }
                let want = Inst::from_masks(&vec![0; n], &renamed, false);
                for (ids, map) in renamings(n, p) {
                    let order: Vec<Vec<(usize, Vec<usize>)>> = inst
                        .order
                        .iter()
                        .map(|l| {
                            l.iter()
                                .map(|(b, ds)| (ids[*b], ds.iter().map(|&d| ids[d]).collect()))
                                .collect()
                        })
                        .collect();
                    let mut b = DependencyBuffer::new(n);
                    let t = all_of(&order, &mut b, Some(&map), &want)
                        .map_err(|e| format!("{order:?} with the renaming {map:?}: {e}"))?;
                    if b.num_bits() != n {
                        return Err("the buffer changed its size".into());
                    }
                    o.validated += 1;
                    o.states += 1;
                    o.transitions += t;
                    o.nontrivial += (p.iter().enumerate().any(|(i, x)| i != *x)) as u64;
                }
            }
            Ok(())
        },
    )
}

fn reuse_section(n1: usize, n2: usize, extra: usize) -> Section {
    let d1 = all_dags(n1);
    let d2 = all_dags(n2);
    let len = d1.len();
    Section::new(
        format!("reuse{n1}-{n2}+{extra}"),
        format!(
            "a buffer for {} nodes used for every labelled DAG on {n1} nodes, then for every \
             one on {n2} nodes, then for the first again",
            n1.max(n2) + extra
        ),
        len,
        move |i| d1[i].clone(),
        |d: &Vec<Mask>| json!({"first": d}),
        move |first, o| {
            let a = Inst::from_masks(&vec![0; n1], first, false);
            for second in &d2 {
                let b = Inst::from_masks(&vec![0; n2], second, true);
                let mut buf = DependencyBuffer::new(n1.max(n2) + extra);
                for (i, x) in [&a, &b, &a].into_iter().enumerate() {
                    let t = all_of(&x.order, &mut buf, None, x).map_err(|e| {
                        format!("buffer used for {:?}, then {:?}, use {i}: {e}", a.order, b.order)
                    })?;
                    o.validated += 1;
                    o.states += 1;
                    o.transitions += t;
                }
                o.nontrivial += (*second != *first) as u64;
            }
            Ok(())
        },
    )
}

/// longer edge lists over more nodes, with known graphs
fn edges_large() -> Section {
    let mut cases = Vec::new();
    for n in [9usize, 33, 65, 300] {
        for shape in 0..5 {
            for list in 0..4 {
                for times in 1..=3usize {
                    for map in 0..4 {
                        if shape == 3 && n > 65 {
                            continue;
                        }
                        cases.push((n, shape, list, times, map));
                    }
                }
            }
        }
    }
    Section::new(
        "edges-large",
        "path, ring, star around the first or last node, clique (up to 65 nodes) on 9, 33, 65, 300 nodes x order of the list \
         (ascending, descending, by distance, rotated) x every edge once, in both directions, three times with loops in between \
         x renaming (none, reversal, rotation, names above 1000)",
        cases.len(),
        move |i| cases[i],
        |c: &(usize, usize, usize, usize, usize)| json!({"nodes, shape, order, multiplicity, renaming": format!("{c:?}")}),
        |&(n, shape, list, times, map), o| {
            let mut es: Vec<(usize, usize)> = match shape {
                0 => (1..n).map(|v| (v - 1, v)).collect(),
                1 => (0..n).map(|v| (v, (v + 1) % n)).collect(),
                2 => (1..n).map(|v| (0, v)).collect(),
                3 => (0..n).flat_map(|v| (0..v).map(move |w| (v, w))).collect(),
                _ => (0..n - 1).map(|v| (n - 1, v)).collect(),
            };
            let mut want = vec![Vec::new(); n];
            match list {
                1 => es.reverse(),
                2 => es.sort_by_key(|&(a, b)| ((a * 7 + b * 3) % 11, b, a)),
                3 => {
                    let k = es.len() / 2;
                    es.rotate_left(k)
                },
                _ => {},
            }
            let mut all = Vec::new();
            for k in 0..times {
                for (j, &(a, b)) in es.iter().enumerate() {
                    all.push(if k == 1 { (b, a) } else { (a, b) });
                    if times == 3 && j % 5 == 0 {
                        all.push((a, a));
                    }
                }
            }
            // node v of the list is called new(v) in the graph
            let (id, new): (fn(usize, usize) -> usize, fn(usize, usize) -> usize) = match map {
                0 => (|v, _| v, |v, _| v),
                1 => (|v, _| v, |v, n| n - 1 - v),
                2 => (|v, _| v, |v, n| (v + n / 3) % n),
                _ => (|v, _| v + 1000, |v, _| v),
            };
            for &(a, b) in &es {
                want[new(a, n)].push(new(b, n));
                want[new(b, n)].push(new(a, n));
            }
            want.iter_mut().for_each(|l| l.sort());
            let renaming: HashMap<usize, usize> = (0..n).map(|v| (id(v, n), new(v, n))).collect();
            let given: Vec<(usize, usize)> = all.iter().map(|&(a, b)| (id(a, n), id(b, n))).collect();
            let b = call(|| GraphBuffer::new(&given, n, (map > 0).then_some(&renaming), true))?;
            let mut got = b.as_buffer().to_vec();
            got.iter_mut().for_each(|l| l.sort());
            o.validated += 1;
            o.states += 1;
            o.transitions += given.len() as u64;
            o.nontrivial += (times > 1) as u64;
            if got != want {
                let v = (0..n).find(|&v| got.get(v) != want.get(v));
                return Err(format!(
                    "the neighbours of {v:?} are {:?}, not {:?}",
                    v.map(|v| got.get(v)),
                    v.map(|v| &want[v])
                ));
            }
            Ok(())
        },
    )
}

/// down one schedule of a bigger ordering, renamed, and from a reused buffer
fn order_large(f: Family) -> Section {
    f.section("rename-and-reuse", |inst, o| {
        let n = inst.n;
        let mut buf = DependencyBuffer::new(n + 3);
        for kind in 0..4 {
            let name = |v: usize| match kind {
                1 => n - 1 - v,
                2 => (v + n / 3) % n,
                3 => v + 1000,
                _ => v,
            };
            let order: Vec<Vec<(usize, Vec<usize>)>> = inst
                .order
                .iter()
                .map(|l| l.iter().map(|(b, ds)| (name(*b), ds.iter().map(|&d| name(d)).collect())).collect())
                .collect();
            let map: HashMap<usize, usize> = (0..n).map(|v| (name(v), v)).collect();
            let map = (kind > 0).then_some(&map);
            // a buffer of its own
            let mut b = DependencyBuffer::new(n);
            let pg = call(|| PathGenerator::<Vec<usize>>::from_dependency_graph(&order, &mut b, map))?;
            let what = format!("renaming {kind}: PathGenerator<Vec>");
            drive_down(inst, &what, pg, kind % 2 == 0, o)?;
            // one that has been used before
            let pg = call(|| PathGenerator::<Partitioner>::from_dependency_graph(&order, &mut buf, map))?;
            let what = format!("renaming {kind}, buffer used {kind} times before: PathGenerator<Partitioner>");
            drive_down(inst, &what, pg, kind % 2 == 1, o)?;
        }
        Ok(())
    })
}

/// a buffer that has been used for a bigger ordering, and for a smaller one
fn reuse_large() -> Section {
    let list: Vec<Inst> = [300usize, 33, 140, 9, 65]
        .iter()
        .flat_map(|&n| {
            let (l, h) = (long(&[n]), hubs(&[n]));
            [(l.gen)(0), (l.gen)(4), (h.gen)(0), (h.gen)(6), (h.gen)(9)]
        })
        .collect();
    let k = list.len();
    Section::new(
        "reuse-large",
        "a buffer for 300 nodes used for each of 25 orderings (chains, hubs; 9 to 300 nodes), then for each other",
        k * k,
        move |i| (list[i / k].clone(), list[i % k].clone()),
        |(a, b): &(Inst, Inst)| json!({"first": a.order, "second": b.order}),
        |(a, b), o| {
            let mut buf = DependencyBuffer::new(300);
            for x in [a, b] {
                let pg = call(|| PathGenerator::<Vec<usize>>::from_dependency_graph(&x.order, &mut buf, None))?;
                // (only the first states, where left-overs would show)
                let mut s = pg;
                let mut path: Vec<Vec<usize>> = Vec::new();
                loop {
                    let r = reached(x, &path)?;
                    if sorted(s.measurable().set()) != r.avail {
                        return Err(format!(
                            "after {} steps measurable are {:?}, not {:?}",
                            path.len(),
                            s.measurable().set(),
                            r.avail
                        ));
                    }
                    o.states += 1;
                    if r.avail.is_empty() {
                        break;
                    }
                    call(|| s.focus_inplace(&r.avail))?.map_err(|e| format!("step {:?}: {e:?}", r.avail))?;
                    path.push(r.avail);
                    o.transitions += 1;
                }
                o.validated += 1;
            }
            o.nontrivial += 1;
            Ok(())
        },
    )
}

pub fn c15(tier: Tier) -> Vec<Section> {
    let q = tier == Tier::Quick;
    let mut v = vec![
        edges_section(1, 3, true),
        edges_section(2, 5, true),
        edges_section(3, 4, true),
        edges_section(4, if q { 4 } else { 5 }, false),
        edges_section(4, if q { 2 } else { 3 }, true),
        edges_section(5, if q { 3 } else { 4 }, false),
        rename_order_section(2),
        rename_order_section(3),
        rename_order_section(4),
        reuse_section(2, 2, 0),
        reuse_section(2, 3, 0),
        reuse_section(3, 2, 0),
        reuse_section(3, 3, 0),
        reuse_section(3, 3, 2),
        reuse_section(3, 4, 0),
        reuse_section(4, 3, 0),
        edges_large(),
        order_large(long(&[31, 32, 33, 63, 64, 65, 127, 128, 129])),
        order_large(hubs(&[140, 300])),
        order_large(structured(5..=9, u64::MAX)),
        order_large(wide(30..=40)),
        reuse_large(),
    ];
    if !q {
        v.push(reuse_section(4, 4, 0));
        v.push(edges_section(5, 4, true));
        v.push(edges_section(4, 6, false));
    }
    v
}

// ---- C20

/// the ordered tree of steps, as an undisturbed traversal visits it
#[derive(Debug, Default)]
struct Node {
    step: Vec<usize>,
    leaf: Option<usize>,
    children: Vec<Node>,
}

fn tree_of<T: Tree>(sweep: &mut Sweep<T>, max: usize) -> Result<Node, String> {
    let mut open = vec![Node::default()];
    let mut events = 0;
    while let Some(e) = sweep.next() {
        events += 1;
        if events > max {
            return Err("the traversal does not end".into());
        }
        match e {
            Step::Forward(s) => open.push(Node { step: s, ..Default::default() }),
            Step::Backward(leaf) => {
                let mut n = open.pop().unwrap();
                n.leaf = T::leaf(leaf).map(|m| m.unwrap_or(0));
                match open.last_mut() {
                    Some(p) => p.children.push(n),
                    None => return Err("more backward than forward items".into()),
                }
            },
        }
    }
    if open.len() != 1 {
        return Err("the traversal ends inside the tree".into());
    }
    Ok(open.pop().unwrap())
}

fn tree_paths(n: &Node, path: &mut Vec<Mask>, out: &mut Vec<Vec<Mask>>) -> Result<(), String> {
    for c in &n.children {
        path.push(mask_of(&c.step)?);
        if c.leaf.is_some() {
            out.push(path.clone());
        }
        tree_paths(c, path, out)?;
        path.pop();
    }
    Ok(())
}

/// run with skips at the given operation indices; returns the number of operations
fn with_skips<T: Tree>(
    inst: &Inst,
    root: &Node,
    mut sweep: Sweep<T>,
    ops: &[bool],
    max: usize,
) -> Result<(usize, u64), String> {
    // reference: (node, next child) of the current state, and below it those of the stack
    let mut stack: Vec<(&Node, usize)> = Vec::new();
    let mut cur: (&Node, usize) = (root, 0);
    let mut i = 0;
    let mut leaves = 0;
    loop {
        if i > max {
            return Err("the traversal does not end".into());
        }
        if ops.get(i).copied().unwrap_or(false) {
            let r = sweep.skip_current();
            match stack.pop() {
                Some(c) => {
                    cur = c;
                    if r.is_err() {
                        return Err(format!("operation {i}: skipping fails with {r:?}"));
                    }
                },
                None => {
                    if r.is_ok() {
                        return Err(format!("operation {i}: skipping the root succeeds"));
                    }
                },
            }
        } else {
            let got = sweep.next();
            let want = if let Some(c) = cur.0.children.get(cur.1) {
                cur.1 += 1;
                stack.push(cur);
                cur = (c, 0);
                Some(Step::Forward(c.step.clone()))
            } else {
                let leaf = cur.0.leaf;
                stack.pop().map(|c| {
                    cur = c;
                    leaves += leaf.is_some() as u64;
                    Step::Backward(leaf)
                })
            };
            let got = got.map(|g| match g {
                Step::Forward(s) => Step::Forward(s),
                Step::Backward(l) => Step::Backward(T::leaf(l).map(|m| m.unwrap_or(0))),
            });
            if got != want {
                return Err(format!("operation {i}: {got:?} instead of {want:?}"));
            }
            if got.is_none() {
                break;
            }
        }
        // where are we?
        let path: Vec<Mask> = stack
            .iter()
            .chain([&cur])
            .skip(1)
            .map(|(n, _)| mask_of(&n.step))
            .collect::<Result<_, _>>()?;
        if sweep.stack().len() != path.len() {
            return Err(format!("operation {i}: stack of {} states", sweep.stack().len()));
        }
        check_state(sweep.current(), inst, &path)
            .map_err(|e| format!("operation {i}: {e}"))?;
        i += 1;
    }
    Ok((i, leaves))
}

fn skips<T: Tree + Clone>(
    inst: &Inst,
    what: &str,
    t: T,
    max_skips: usize,
    o: &mut Out,
) -> Result<(), String> {
    let max = events_bound(inst);
    let tree = call(|| tree_of(&mut Sweep::new(t.clone()), max))??;
    let mut paths = Vec::new();
    tree_paths(&tree, &mut vec![], &mut paths)?;
    same_paths(inst, paths, what)?;
    fn go<T: Tree + Clone>(
        inst: &Inst,
        what: &str,
        t: &T,
        tree: &Node,
        prefix: Vec<bool>,
        left: usize,
        max: usize,
        o: &mut Out,
    ) -> Result<(), String> {
        let (n, leaves) =
            call(|| with_skips(inst, tree, Sweep::new(t.clone()), &prefix, max))
                .and_then(|r| r)
                .map_err(|e| {
                    let at: Vec<usize> =
                        (0..prefix.len()).filter(|&i| prefix[i]).collect();
                    format!("{what}, skipping as the operations number {at:?}: {e}")
                })?;
        o.validated += 1;
        o.states += n as u64 + 1;
        o.transitions += n as u64;
        o.nontrivial += (leaves > 0 && prefix.iter().any(|b| *b)) as u64;
        if left == 0 {
            return Ok(());
        }
        for i in prefix.len()..n {
            let mut p = prefix.clone();
            p.resize(i, false);
            p.push(true);
            go(inst, what, t, tree, p, left - 1, max, o)?;
        }
        Ok(())
    }
    go(inst, what, &t, &tree, vec![], max_skips, max + 2 * max_skips, o)
}

fn c20_section(f: Family, max_skips: usize) -> Section {
    f.section(&format!("skip{max_skips}"), move |inst, o| {
        let mut b = DependencyBuffer::new(inst.n);
        let pg = call(|| {
            PathGenerator::<Partitioner>::from_dependency_graph(&inst.order, &mut b, None)
        })?;
        skips(inst, "the time ordering", pg.clone(), max_skips, o)?;
        let s = Scheduler::new(pg, Graph::new(&inst.nbrs));
        skips(inst, "the scheduler", s, max_skips, o)
    })
}

pub fn c20(tier: Tier) -> Vec<Section> {
    let q = tier == Tier::Quick;
    let mut v = vec![
        c20_section(labelled(1, false), 4),
        c20_section(labelled(2, false), 6),
        c20_section(labelled(3, false), if q { 2 } else { 3 }),
        c20_section(labelled(3, true), 1),
        c20_section(classes(4), 1),
        c20_section(classes_few(4), if q { 1 } else { 2 }),
    ];
    v.push(c20_section(deep(if q { 8..=12 } else { 8..=16 }, 1..=2), 1));
    if !q {
        v.push(c20_section(deep(8..=16, 3..=3), 1));
        v.push(c20_section(classes_few(5), 1));
    }
    v
}
