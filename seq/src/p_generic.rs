//! C25: the building blocks with anything that fits them.
use std::{
    collections::{BTreeMap, BTreeSet, HashSet},
    sync::Arc,
};

use mbqc_scheduling::scheduler::{
    tree::{EmptyStack, FocusIterator, Step, Sweep},
    Partition,
};
use mcfw::{call, json, Out, Section, Tier, Value};

/// children of each node, node 0 is the root; which nodes return something as a leaf
#[derive(Debug, PartialEq, Eq, Hash)]
struct Shape {
    children: Vec<Vec<usize>>,
    leaf: Vec<bool>,
}

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
struct Place {
    shape: Arc<Shape>,
    node: usize,
    used: usize,
}

impl FocusIterator for Place {
    type IterItem = usize;
    type LeafItem = String;
    fn next_and_focus(&mut self) -> Option<(Self, usize)> {
        let node = *self.shape.children[self.node].get(self.used)?;
        self.used += 1;
        Some((Place { shape: self.shape.clone(), node, used: 0 }, node))
    }
    fn at_leaf(&self) -> Option<String> {
        self.shape.leaf[self.node].then(|| format!("leaf {}", self.node))
    }
}

/// all ordered trees with n nodes, numbered in depth-first order
fn trees(n: usize) -> Vec<Vec<Vec<usize>>> {
    // the parent of node v is an ancestor-or-self of node v - 1
    fn go(n: usize, parent: &mut Vec<usize>, out: &mut Vec<Vec<Vec<usize>>>) {
        if parent.len() == n {
            let mut c = vec![vec![]; n];
            for v in 1..n {
                c[parent[v]].push(v);
            }
            out.push(c);
            return;
        }
        let mut a = parent.len() - 1;
        loop {
            parent.push(a);
            go(n, parent, out);
            parent.pop();
            if a == 0 {
                break;
            }
            a = parent[a];
        }
    }
    let mut out = Vec::new();
    go(n, &mut vec![0], &mut out);
    out
}

/// node and number of children that have been visited, along the path
type State = Vec<(usize, usize)>;

fn state_of(s: &Sweep<Place>) -> State {
    s.stack().iter().chain([s.current()]).map(|p| (p.node, p.used)).collect()
}

/// every reachable state x what can be done there
fn walk(shape: Arc<Shape>, o: &mut Out) -> Result<(), String> {
    call(|| {
        let root = Sweep::new(Place { shape: shape.clone(), node: 0, used: 0 });
        let mut seen: HashSet<State> = [state_of(&root)].into();
        let mut todo = vec![root];
        while let Some(at) = todo.pop() {
            let before = state_of(&at);
            o.states += 1;
            for skip in [false, true] {
                let mut s = at.clone();
                let mut want = before.clone();
                let (v, used) = *want.last().unwrap();
                let tell = |e: String| format!("in the state {before:?} (nodes and visited children): {e}");
                if skip {
                    let got = s.skip_current();
                    let expected = if want.len() > 1 {
                        want.pop();
                        Ok(())
                    } else {
                        Err(EmptyStack)
                    };
                    if got != expected {
                        return Err(tell(format!("skipping gives {got:?}, not {expected:?}")));
                    }
                } else {
                    let got = s.next();
                    let expected = if let Some(&w) = shape.children[v].get(used) {
                        want.last_mut().unwrap().1 += 1;
                        want.push((w, 0));
                        Some(Step::Forward(w))
                    } else if want.len() > 1 {
                        want.pop();
                        Some(Step::Backward(shape.leaf[v].then(|| format!("leaf {v}"))))
                    } else {
                        None
                    };
                    if got != expected {
                        return Err(tell(format!("next gives {got:?}, not {expected:?}")));
                    }
                }
                o.transitions += 1;
                let after = state_of(&s);
                if after != want {
                    return Err(tell(format!("the state after {} is {after:?}, not {want:?}", if skip { "skipping" } else { "next" })));
                }
                if seen.insert(after) {
                    todo.push(s);
                }
            }
            if state_of(&at) != before {
                return Err("a clone changes the original".into());
            }
        }
        // all of it, at once
        let n = shape.children.len();
        let all: Vec<_> = Sweep::new(Place { shape: shape.clone(), node: 0, used: 0 }).collect();
        let there: Vec<usize> = all.iter().filter_map(|s| if let Step::Forward(v) = s { Some(*v) } else { None }).collect();
        if there != (1..n).collect::<Vec<_>>() || all.len() != 2 * (n - 1) {
            return Err(format!("sweeping gives {all:?}"));
        }
        o.validated += 1;
        Ok(())
    })?
}

fn tree_section(n: usize, any_leaf: bool) -> Section {
    let shapes = Arc::new(trees(n));
    let per = if any_leaf { 1usize << n } else { 1 };
    Section::new(
        format!("trees{n}{}", if any_leaf { "-any-leaf" } else { "" }),
        format!(
            "all ordered trees with {n} nodes{}; every reachable state of the traversal x moving on, skipping",
            if any_leaf { ", every set of nodes that return something as a leaf" } else { "" }
        ),
        shapes.len() * per,
        move |i| {
            let children = shapes[i / per].clone();
            let leaf = (0..n).map(|v| if any_leaf { i % per >> v & 1 == 1 } else { children[v].is_empty() }).collect();
            (children, leaf)
        },
        |(c, l): &(Vec<Vec<usize>>, Vec<bool>)| -> Value { json!({"children": c, "leaf": l}) },
        |(c, l), o| {
            o.nontrivial += (c[0].len() > 1) as u64;
            walk(Arc::new(Shape { children: c.clone(), leaf: l.clone() }), o)
        },
    )
}

// ---- partitions

fn multiset(v: impl IntoIterator<Item = u32>) -> BTreeMap<u32, usize> {
    let mut m = BTreeMap::new();
    for x in v {
        *m.entry(x).or_default() += 1;
    }
    m
}

fn halves<T: IntoIterator<Item = u32> + Clone>(what: &str, set: T, clones: bool, o: &mut Out) -> Result<(), String> {
    let all: Vec<u32> = set.clone().into_iter().collect();
    let n = all.len();
    call(|| {
        let mut p = Partition::new(set, n);
        let mut got: Vec<(Vec<u32>, Vec<u32>)> = Vec::new();
        let mut later: Vec<(usize, Partition<T>)> = Vec::new();
        loop {
            if clones {
                later.push((got.len(), p.clone()));
            }
            let Some(h) = p.next() else { break };
            got.push(h);
            if got.len() > 1 << n {
                return Err(format!("{what}: more than {} partitions of {all:?}", 1 << n));
            }
        }
        for _ in 0..3 {
            if p.next().is_some() {
                return Err(format!("{what}: goes on after the end, {all:?}"));
            }
        }
        let want = multiset(all.iter().copied());
        let mut how_often: BTreeMap<(Vec<u32>, Vec<u32>), usize> = BTreeMap::new();
        for (l, r) in &got {
            if multiset(l.iter().chain(r).copied()) != want {
                return Err(format!("{what}: {l:?} and {r:?} are no partition of {all:?}"));
            }
            let (mut l, mut r) = (l.clone(), r.clone());
            l.sort();
            r.sort();
            *how_often.entry((l, r)).or_default() += 1;
        }
        // as often as there are ways to choose the elements
        for ((l, r), k) in &how_often {
            let choose = |n: usize, k: usize| (0..k).fold(1usize, |c, i| c * (n - i) / (i + 1));
            let ml = multiset(l.iter().copied());
            let w: usize = want.iter().map(|(x, n)| choose(*n, ml.get(x).copied().unwrap_or(0))).product();
            if w != *k {
                return Err(format!("{what}: {l:?} and {r:?} {k} times instead of {w}"));
            }
        }
        if got.len() != 1 << n {
            return Err(format!("{what}: {} partitions of {all:?}", got.len()));
        }
        for (k, c) in later {
            if c.collect::<Vec<_>>() != got[k..] {
                return Err(format!("{what}: a clone after {k} partitions of {all:?} does not go on in the same way"));
            }
            o.validated += 1;
        }
        o.states += got.len() as u64 + 1;
        o.transitions += got.len() as u64;
        o.validated += 1;
        o.nontrivial += (n > 1) as u64;
        Ok(())
    })?
}

fn partitions(max: usize) -> Section {
    Section::new(
        "partitions",
        format!("sets of 0 to {max} elements, as a vector, slice, range, ordered set and linked list; clones at every point up to 9 elements"),
        max + 1,
        |n| n as u32,
        |n: &u32| json!({"elements": n}),
        |&n, o| {
            let c = n < 10;
            halves("vector", (0..n).collect::<Vec<_>>(), c, o)?;
            halves("reversed vector", (0..n).rev().map(|x| x * 7 + 1).collect::<Vec<_>>(), false, o)?;
            halves("range", 0..n, c, o)?;
            halves("ordered set", (0..n).map(|x| x * x).collect::<BTreeSet<_>>(), c, o)?;
            halves("linked list", (0..n).collect::<std::collections::LinkedList<_>>(), false, o)?;
            halves("iterator", (0..n).map(|x| x + 1), false, o)?;
            halves("boxed slice", (0..n).collect::<Vec<_>>().into_iter(), false, o)?;
            if n == 0 {
                let d: Vec<(Vec<u32>, Vec<u32>)> = Partition::<Vec<u32>>::default().collect();
                if d != Partition::new(Vec::<u32>::new(), 0).collect::<Vec<_>>() {
                    return Err(format!("the default partition gives {d:?}"));
                }
            }
            Ok(())
        },
    )
}

fn repeated(n: u32) -> Section {
    Section::new(
        format!("partitions-repeated{n}"),
        format!("all vectors of {n} elements out of {n} values"),
        (n as usize).pow(n),
        move |mut i| {
            (0..n)
                .map(|_| {
                    let x = (i % n as usize) as u32;
                    i /= n as usize;
                    x
                })
                .collect::<Vec<u32>>()
        },
        |v: &Vec<u32>| json!({"elements": v}),
        |v, o| halves("vector", v.clone(), true, o),
    )
}

/// more than anybody can enumerate: the beginning of it
fn long_partitions(first: usize) -> Section {
    let sizes = [20u32, 31, 32, 33, 48, 62, 63, 64, 65, 66, 100, 127, 128, 129, 255, 256, 257, 300, 511, 513, 1000];
    Section::new(
        "partitions-long",
        format!("sets of 20 to 1000 elements: the first {first} divisions are divisions, and all different"),
        sizes.len(),
        move |i| sizes[i],
        |n: &u32| json!({"elements": n}),
        move |&n, o| {
            let check = |what: &str, it: &mut dyn Iterator<Item = (Vec<u32>, Vec<u32>)>| -> Result<(), String> {
                let mut seen = HashSet::new();
                for k in 0..first {
                    let Some((l, r)) = it.next() else {
                        return Err(format!("{what} of {n} elements: only {k} divisions"));
                    };
                    let all: BTreeSet<u32> = l.iter().chain(&r).copied().collect();
                    if l.len() + r.len() != n as usize || !all.into_iter().eq(0..n) {
                        return Err(format!("{what} of {n} elements: division {k} is {l:?} and {r:?}"));
                    }
                    let mut l = l;
                    l.sort();
                    if !seen.insert(l.clone()) {
                        return Err(format!("{what} of {n} elements: division {k} has {l:?} on the left, again"));
                    }
                }
                Ok(())
            };
            call(|| check("vector", &mut Partition::new((0..n).collect::<Vec<_>>(), n as usize)))??;
            call(|| check("range", &mut Partition::new(0..n, n as usize)))??;
            let mut half = Partition::new((0..n).collect::<Vec<_>>(), n as usize);
            let skipped: Vec<_> = call(|| half.by_ref().take(first / 2).collect())?;
            let mut other = half.clone();
            call(|| check("what is left of a clone", &mut skipped.into_iter().chain(other.by_ref())))??;
            o.validated += 3;
            o.states += 3 * first as u64;
            o.transitions += 3 * first as u64;
            o.nontrivial += 1;
            Ok(())
        },
    )
}

/// levels below here, children that are leaves before and after the one that goes on
#[derive(Debug, Clone)]
struct Deep {
    left: usize,
    before: usize,
    after: usize,
    used: usize,
    inner: bool,
}

impl FocusIterator for Deep {
    type IterItem = (usize, usize);
    type LeafItem = usize;
    fn next_and_focus(&mut self) -> Option<(Self, (usize, usize))> {
        if self.inner || self.left == 0 || self.used > self.before + self.after {
            return None;
        }
        let used = self.used;
        self.used += 1;
        let mut d = Deep { left: self.left - 1, used: 0, ..*self };
        d.inner = used != self.before;
        Some((d, (self.left, used)))
    }
    fn at_leaf(&self) -> Option<usize> {
        (self.left == 0 || self.inner).then_some(self.left)
    }
}

/// deep and wide trees
fn far() -> Section {
    let mut cases = Vec::new();
    for depth in [50usize, 127, 128, 129, 255, 256, 257, 1000, 1023, 1024, 1025, 4095, 4097, 10_000, 32_767, 32_769, 65_535, 65_537, 100_000] {
        for (b, a) in [(0, 0), (1, 0), (0, 1), (2, 2)] {
            for skip in [None, Some(depth / 2), Some(depth), Some(1)] {
                cases.push((depth, b, a, skip));
            }
        }
    }
    for wide in [255usize, 256, 257, 65_535, 65_536, 65_537, 200_000] {
        cases.push((1, wide, 0, None));
        cases.push((2, 0, wide, None));
        cases.push((2, wide / 2, wide / 2, Some(1)));
        cases.push((3, wide, 3, Some(2)));
    }
    type Case = (usize, usize, usize, Option<usize>);
    Section::new(
        "trees-far",
        "chains of 50 to 100 000 levels, with 0 to 2 leaves before and after the child that goes on at each, and trees with \
         up to 200 000 children: the complete traversal, and with the child that goes on being skipped at some level",
        cases.len(),
        move |i| cases[i],
        |c: &Case| json!({"levels": c.0, "leaves before": c.1, "after": c.2, "skipped at": c.3}),
        |&(depth, before, after, skip), o| {
            let root = Deep { left: depth, before, after, used: 0, inner: false };
            let mut s = Sweep::new(root);
            // what is open: (levels left, children seen, goes on)
            let mut open: Vec<(usize, usize, bool)> = vec![(depth, 0, true)];
            call(|| loop {
                let (left, used, on) = *open.last().unwrap();
                let want = if on && left > 0 && used <= before + after {
                    Some(Step::Forward((left, used)))
                } else if open.len() > 1 {
                    Some(Step::Backward((left == 0 || !on).then_some(left)))
                } else {
                    None
                };
                let got = s.next();
                o.transitions += 1;
                if got != want {
                    return Err(format!("at depth {}: {got:?}, not {want:?}", open.len() - 1));
                }
                match got {
                    None => return Ok(()),
                    Some(Step::Backward(_)) => {
                        open.pop();
                    },
                    Some(Step::Forward(_)) => {
                        open.last_mut().unwrap().1 += 1;
                        open.push((left - 1, 0, used == before));
                        if used == before && skip == Some(open.len() - 1) {
                            if s.skip_current().is_err() {
                                return Err(format!("skipping at depth {} fails", open.len() - 1));
                            }
                            open.pop();
                        }
                    },
                }
                if s.stack().len() != open.len() - 1 {
                    return Err(format!("{} states on the stack at depth {}", s.stack().len(), open.len() - 1));
                }
            })??;
            o.states += 1;
            o.validated += 1;
            o.nontrivial += 1;
            Ok(())
        },
    )
}

pub fn c25(tier: Tier) -> Vec<Section> {
    let q = tier == Tier::Quick;
    let mut v: Vec<Section> = (1..=if q { 9 } else { 11 }).map(|n| tree_section(n, false)).collect();
    v.extend((1..=if q { 6 } else { 7 }).map(|n| tree_section(n, true)));
    v.push(partitions(if q { 14 } else { 18 }));
    v.extend((1..=if q { 5 } else { 6 }).map(repeated));
    v.push(long_partitions(if q { 2000 } else { 50_000 }));
    v.push(far());
    v
}
