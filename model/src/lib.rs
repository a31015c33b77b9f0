//! Reference model of the scheduling problem. It shares no code with the crate under
//! test and is deliberately written from the definitions:
//!
//! * an instance is a simple undirected graph plus a DAG of dependencies on the same nodes,
//! * a schedule is a sequence of non-empty disjoint steps covering all nodes, in which
//!   every node comes strictly after its dependencies,
//! * a node is initialised by the first step that measures it or one of its neighbours,
//!   and freed at the end of the step that measures it,
//! * time = number of steps, space = max over the steps of the qubits that are
//!   initialised and were not measured before that step.

pub type Mask = u32;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Inst {
    pub n: usize,
    pub nbrs: Vec<Vec<usize>>,
    pub order: Vec<Vec<(usize, Vec<usize>)>>,
    /// only for n <= 31
    pub adj: Vec<Mask>,
    pub dep: Vec<Mask>,
}

#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
pub struct Counts {
    pub states: u64,
    pub transitions: u64,
}

/// The situation in which a step is taken, as far as an accept function can see it.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct StepKey {
    pub last_max: u32,
    pub last_cur: u32,
    pub cur: u32,
    pub remaining: u32,
}

pub fn bits(m: Mask) -> impl Iterator<Item = usize> {
    (0..32).filter(move |i| m >> i & 1 == 1)
}

impl Inst {
    pub fn new(nbrs: Vec<Vec<usize>>, order: Vec<Vec<(usize, Vec<usize>)>>) -> Self {
        let n = nbrs.len();
        let (mut adj, mut dep) = (Vec::new(), Vec::new());
        if n <= 31 {
            adj = nbrs.iter().map(|l| l.iter().fold(0, |m, &v| m | 1 << v)).collect();
            dep = vec![0; n];
            for layer in &order {
                for (b, ds) in layer {
                    dep[*b] = ds.iter().fold(0, |m, &v| m | 1 << v);
                }
            }
        }
        Inst { n, nbrs, order, adj, dep }
    }

    /// Graph as bit set over the pairs (i<j) in lexicographic order, dependencies as masks.
    /// `rev` lists neighbours, layer members and dependencies in descending order.
    pub fn from_masks(adj: &[Mask], dep: &[Mask], rev: bool) -> Self {
        let list = |m: Mask| {
            let mut v: Vec<usize> = bits(m).collect();
            if rev {
                v.reverse();
            }
            v
        };
        let nbrs = adj.iter().map(|&m| list(m)).collect();
        let depth = depths(dep);
        let nl = depth.iter().map(|d| d + 1).max().unwrap_or(0);
        let mut order = vec![Vec::new(); nl];
        let ids: Vec<usize> =
            if rev { (0..dep.len()).rev().collect() } else { (0..dep.len()).collect() };
        for v in ids {
            order[depth[v]].push((v, list(dep[v])));
        }
        Inst::new(nbrs, order)
    }

    pub fn deps_of(&self) -> Vec<Vec<usize>> {
        let mut d = vec![Vec::new(); self.n];
        for layer in &self.order {
            for (b, ds) in layer {
                d[*b] = ds.clone();
            }
        }
        d
    }

    pub fn full(&self) -> Mask {
        if self.n == 0 {
            0
        } else {
            (((1u64) << self.n) - 1) as Mask
        }
    }

    pub fn available(&self, m: Mask) -> Mask {
        let mut a = 0;
        for v in 0..self.n {
            if m >> v & 1 == 0 && self.dep[v] & !m == 0 {
                a |= 1 << v;
            }
        }
        a
    }

    /// nodes that are initialised once exactly `m` has been measured
    pub fn initialised(&self, m: Mask) -> Mask {
        let mut i = m;
        for v in bits(m) {
            i |= self.adj[v];
        }
        i
    }

    /// qubits in memory once exactly `m` has been measured
    pub fn cur(&self, m: Mask) -> usize {
        (self.initialised(m) & !m).count_ones() as usize
    }

    /// qubits in memory during the step that measures `s` after `m`
    pub fn step_cost(&self, m: Mask, s: Mask) -> usize {
        (self.initialised(m | s).count_ones() - m.count_ones()) as usize
    }

    /// number of steps of the shortest schedule
    pub fn chain_len(&self) -> usize {
        self.asap().len()
    }

    /// every node as soon as possible (any n)
    pub fn asap(&self) -> Vec<Vec<usize>> {
        let deps = self.deps_of();
        let mut done = vec![false; self.n];
        let mut out = Vec::new();
        let mut left = self.n;
        while left > 0 {
            let step: Vec<usize> = (0..self.n)
                .filter(|&v| !done[v] && deps[v].iter().all(|&d| done[d]))
                .collect();
            assert!(!step.is_empty(), "cyclic order");
            for &v in &step {
                done[v] = true;
            }
            left -= step.len();
            out.push(step);
        }
        out
    }

    /// Is this a valid complete schedule? (any n)
    pub fn validate(&self, steps: &[Vec<usize>]) -> Result<(), String> {
        let deps = self.deps_of();
        let mut done = vec![false; self.n];
        for (i, step) in steps.iter().enumerate() {
            if step.is_empty() {
                return Err(format!("step {i} is empty"));
            }
            for &v in step {
                if v >= self.n {
                    return Err(format!("step {i} measures the unknown node {v}"));
                }
                if let Some(d) = deps[v].iter().find(|&&d| !done[d]) {
                    return Err(format!("step {i} measures {v} before its dependency {d}"));
                }
            }
            for &v in step {
                if done[v] {
                    return Err(format!("node {v} is measured again in step {i}"));
                }
                done[v] = true;
            }
        }
        match done.iter().position(|d| !d) {
            Some(v) => Err(format!("node {v} is never measured")),
            None => Ok(()),
        }
    }

    /// True space cost of the given steps (any n; does not look at the order).
    pub fn space(&self, steps: &[Vec<usize>]) -> usize {
        let mut init = vec![false; self.n];
        let mut done = vec![false; self.n];
        let mut peak = 0;
        for step in steps {
            for &v in step {
                init[v] = true;
                for &w in &self.nbrs[v] {
                    init[w] = true;
                }
            }
            let mem = (0..self.n).filter(|&v| init[v] && !done[v]).count();
            peak = peak.max(mem);
            for &v in step {
                done[v] = true;
            }
        }
        peak
    }

    /// Exact Pareto frontier (time, space), by dynamic programming over all reachable
    /// sets of measured nodes.
    pub fn pareto(&self) -> (Vec<(usize, usize)>, Counts) {
        let mut counts = Counts::default();
        if self.n == 0 {
            return (vec![], counts);
        }
        let full = self.full();
        let size = full as usize + 1;
        const INF: u8 = u8::MAX;
        let mut avail = vec![0 as Mask; size];
        for m in 0..=full {
            avail[m as usize] = self.available(m);
        }
        let mut layer = vec![INF; size];
        layer[0] = 0;
        let mut best = usize::MAX;
        let mut out = Vec::new();
        let mut ideal = vec![false; size];
        for t in 1..=self.n {
            let mut next = vec![INF; size];
            let mut any = false;
            for m in 0..=full {
                let c = layer[m as usize];
                if c == INF {
                    continue;
                }
                ideal[m as usize] = true;
                let a = avail[m as usize];
                let mut s = a;
                while s != 0 {
                    counts.transitions += 1;
                    let cost = (self.step_cost(m, s) as u8).max(c);
                    let e = &mut next[(m | s) as usize];
                    if cost < *e {
                        *e = cost;
                        any = true;
                    }
                    s = (s - 1) & a;
                }
            }
            let c = next[full as usize];
            if c != INF && (c as usize) < best {
                best = c as usize;
                out.push((t, best));
            }
            layer = next;
            if !any {
                break;
            }
        }
        counts.states += ideal.iter().filter(|&&b| b).count() as u64 + 1;
        (out, counts)
    }

    /// The same for any n, as long as there are few reachable sets.
    pub fn pareto_sparse(&self) -> (Vec<(usize, usize)>, Counts) {
        use std::collections::{HashMap, HashSet};
        let deps = self.deps_of();
        let mut counts = Counts::default();
        let mut seen = HashSet::new();
        let mut layer: HashMap<Vec<bool>, usize> = HashMap::new();
        layer.insert(vec![false; self.n], 0);
        let mut best = usize::MAX;
        let mut out = Vec::new();
        for t in 1..=self.n {
            let mut next: HashMap<Vec<bool>, usize> = HashMap::new();
            for (m, c) in &layer {
                seen.insert(m.clone());
                let avail: Vec<usize> = (0..self.n)
                    .filter(|&v| !m[v] && deps[v].iter().all(|&d| m[d]))
                    .collect();
                for sub in 1..1u64 << avail.len() {
                    counts.transitions += 1;
                    let mut k = m.clone();
                    for (j, &v) in avail.iter().enumerate() {
                        if sub >> j & 1 == 1 {
                            k[v] = true;
                        }
                    }
                    let mem = (0..self.n)
                        .filter(|&v| {
                            !m[v] && (k[v] || self.nbrs[v].iter().any(|&w| k[w]))
                        })
                        .count();
                    let cost = mem.max(*c);
                    let e = next.entry(k).or_insert(usize::MAX);
                    *e = cost.min(*e);
                }
            }
            if let Some(&c) = next.get(&vec![true; self.n]) {
                if c < best {
                    best = c;
                    out.push((t, c));
                }
            }
            layer = next;
        }
        counts.states = seen.len() as u64 + 1;
        (out, counts)
    }

    /// Visit every valid schedule (as masks).
    pub fn each_path(&self, f: &mut impl FnMut(&[Mask])) {
        let mut path = Vec::new();
        self.each_path_rec(0, &mut path, f);
    }

    fn each_path_rec(&self, m: Mask, path: &mut Vec<Mask>, f: &mut impl FnMut(&[Mask])) {
        if m == self.full() {
            if self.n > 0 {
                f(path);
            }
            return;
        }
        let a = self.available(m);
        let mut s = a;
        while s != 0 {
            path.push(s);
            self.each_path_rec(m | s, path, f);
            path.pop();
            s = (s - 1) & a;
        }
    }

    pub fn count_paths(&self) -> u64 {
        let full = self.full();
        let mut c = vec![0u64; full as usize + 1];
        c[0] = 1;
        for m in 0..full {
            if c[m as usize] == 0 {
                continue;
            }
            let a = self.available(m);
            let mut s = a;
            while s != 0 {
                c[(m | s) as usize] += c[m as usize];
                s = (s - 1) & a;
            }
        }
        c[full as usize]
    }

    pub fn peak(&self, path: &[Mask]) -> usize {
        let mut m = 0;
        let mut p = 0;
        for &s in path {
            p = p.max(self.step_cost(m, s));
            m |= s;
        }
        p
    }

    /// what an accept function is told about the step `s` after the steps `prefix`
    pub fn key(&self, prefix: &[Mask], s: Mask) -> StepKey {
        let m = prefix.iter().fold(0, |a, b| a | b);
        StepKey {
            last_max: self.peak(prefix) as u32,
            last_cur: self.cur(m) as u32,
            cur: self.cur(m | s) as u32,
            remaining: self.n as u32 - (m | s).count_ones(),
        }
    }

    pub fn steps_to_masks(&self, steps: &[Vec<usize>]) -> Vec<Mask> {
        steps.iter().map(|s| s.iter().fold(0, |m, &v| m | 1 << v)).collect()
    }
}

/// frontier of a set of (time, space) points
pub fn frontier(points: impl IntoIterator<Item = (usize, usize)>) -> Vec<(usize, usize)> {
    let mut v: Vec<_> = points.into_iter().collect();
    v.sort();
    let mut out: Vec<(usize, usize)> = Vec::new();
    for (t, s) in v {
        if out.last().map_or(true, |l| s < l.1) {
            out.push((t, s));
        }
    }
    out
}

/// does every point of `b` have a point in `a` that is at least as good in both?
pub fn dominates(a: &[(usize, usize)], b: &[(usize, usize)]) -> bool {
    b.iter().all(|q| a.iter().any(|p| p.0 <= q.0 && p.1 <= q.1))
}

pub fn depths(dep: &[Mask]) -> Vec<usize> {
    let n = dep.len();
    let mut d = vec![usize::MAX; n];
    fn go(v: usize, dep: &[Mask], d: &mut [usize]) -> usize {
        if d[v] == usize::MAX {
            let mut x = 0;
            for w in bits(dep[v]) {
                x = x.max(go(w, dep, d) + 1);
            }
            d[v] = x;
        }
        d[v]
    }
    for v in 0..n {
        go(v, dep, &mut d);
    }
    d
}

pub fn pairs(n: usize) -> Vec<(usize, usize)> {
    let mut v = Vec::new();
    for i in 0..n {
        for j in i + 1..n {
            v.push((i, j));
        }
    }
    v
}

pub fn num_graphs(n: usize) -> u64 {
    1 << (n * n.saturating_sub(1) / 2)
}

pub fn graph(n: usize, code: u64) -> Vec<Mask> {
    let mut adj = vec![0; n];
    for (k, (i, j)) in pairs(n).into_iter().enumerate() {
        if code >> k & 1 == 1 {
            adj[i] |= 1 << j;
            adj[j] |= 1 << i;
        }
    }
    adj
}

fn acyclic(dep: &[Mask]) -> bool {
    let n = dep.len();
    let mut m: Mask = 0;
    loop {
        let mut new = m;
        for v in 0..n {
            if dep[v] & !m == 0 {
                new |= 1 << v;
            }
        }
        if new.count_ones() as usize == n {
            return true;
        }
        if new == m {
            return false;
        }
        m = new;
    }
}

/// all labelled DAGs on n nodes
pub fn all_dags(n: usize) -> Vec<Vec<Mask>> {
    let ps = pairs(n);
    let mut out = Vec::new();
    let total = 3u64.pow(ps.len() as u32);
    for mut code in 0..total {
        let mut dep = vec![0; n];
        for &(i, j) in &ps {
            match code % 3 {
                1 => dep[j] |= 1 << i,
                2 => dep[i] |= 1 << j,
                _ => {},
            }
            code /= 3;
        }
        if acyclic(&dep) {
            out.push(dep);
        }
    }
    out
}

pub fn permutations(n: usize) -> Vec<Vec<usize>> {
    fn go(n: usize, cur: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        if cur.len() == n {
            out.push(cur.clone());
            return;
        }
        for v in 0..n {
            if !cur.contains(&v) {
                cur.push(v);
                go(n, cur, out);
                cur.pop();
            }
        }
    }
    let mut out = Vec::new();
    go(n, &mut Vec::new(), &mut out);
    out
}

/// One representative of every isomorphism class of DAGs (all n(n-1)/2-edge subsets in
/// topological labelling, deduplicated by their smallest relabelling). With
/// `closed_only`, only transitively closed ones, i.e., one per poset.
pub fn dag_classes(n: usize, closed_only: bool) -> Vec<Vec<Mask>> {
    let ps = pairs(n);
    let perms = permutations(n);
    let mut seen = std::collections::HashSet::new();
    let mut out = Vec::new();
    for code in 0..1u64 << ps.len() {
        let mut dep = vec![0 as Mask; n];
        for (k, &(i, j)) in ps.iter().enumerate() {
            if code >> k & 1 == 1 {
                dep[j] |= 1 << i;
            }
        }
        if closed_only
            && !(0..n).all(|v| bits(dep[v]).all(|w| dep[w] & !dep[v] == 0))
        {
            continue;
        }
        // smallest code over all relabellings (edges as n*n bit matrix)
        let mut canon = u64::MAX;
        for p in &perms {
            let mut c = 0u64;
            for v in 0..n {
                for w in bits(dep[v]) {
                    c |= 1 << (p[v] * n + p[w]);
                }
            }
            canon = canon.min(c);
        }
        if seen.insert(canon) {
            out.push(dep);
        }
    }
    out
}

/// A code of at most 8 nodes and a relation between them, the same for isomorphic ones
/// only: the smallest code over all numberings that respect a refined colouring.
pub fn canonical(rel: &[Mask]) -> u64 {
    let n = rel.len();
    assert!(n <= 8);
    let inv: Vec<Mask> = (0..n)
        .map(|v| (0..n).filter(|&w| rel[w] >> v & 1 == 1).fold(0, |m, w| m | 1 << w))
        .collect();
    let mut color = vec![0usize; n];
    loop {
        let sig: Vec<(usize, Vec<usize>, Vec<usize>)> = (0..n)
            .map(|v| {
                let list = |m| {
                    let mut l: Vec<usize> = bits(m).map(|w| color[w]).collect();
                    l.sort();
                    l
                };
                (color[v], list(rel[v]), list(inv[v]))
            })
            .collect();
        let mut sorted = sig.clone();
        sorted.sort();
        sorted.dedup();
        let new: Vec<usize> =
            sig.iter().map(|s| sorted.binary_search(s).unwrap()).collect();
        if new == color {
            break;
        }
        color = new;
    }
    let mut cells: Vec<usize> = color.clone();
    cells.sort();
    struct Search<'a> {
        rel: &'a [Mask],
        color: &'a [usize],
        cells: &'a [usize],
        best: u64,
    }
    fn go(s: &mut Search, at: &mut Vec<usize>, code: u64) {
        let i = at.len();
        let n = s.rel.len();
        if i == n {
            s.best = s.best.min(code);
            return;
        }
        for v in 0..n {
            if s.color[v] != s.cells[i] || at.contains(&v) {
                continue;
            }
            let mut c = code;
            for &w in at.iter() {
                c = c << 2 | (s.rel[v] >> w & 1) as u64 | ((s.rel[w] >> v & 1) as u64) << 1;
            }
            // bits that are still to come
            let left = n * (n - 1) - i * (i + 1);
            if c > s.best >> left {
                continue;
            }
            at.push(v);
            go(s, at, c);
            at.pop();
        }
    }
    let mut s = Search { rel, color: &color, cells: &cells, best: u64::MAX >> 8 };
    go(&mut s, &mut Vec::new(), 0);
    s.best
}

/// one graph per isomorphism class, n <= 8
pub fn graph_classes(n: usize) -> Vec<Vec<Mask>> {
    extended(n, |_, _| true, true)
}

/// one poset (transitively closed) per isomorphism class, n <= 8
pub fn poset_classes(n: usize) -> Vec<Vec<Mask>> {
    extended(n, |p, m| bits(m).all(|w| p[w] & !m == 0), false)
}

fn extended(n: usize, fits: impl Fn(&[Mask], Mask) -> bool, both: bool) -> Vec<Vec<Mask>> {
    let mut list = vec![vec![]];
    for k in 0..n {
        let mut seen = std::collections::HashSet::new();
        let mut next = Vec::new();
        for p in &list {
            for m in 0..(1 as Mask) << k {
                if !fits(p, m) {
                    continue;
                }
                let mut q: Vec<Mask> = p.clone();
                q.push(m);
                if both {
                    bits(m).for_each(|w| q[w] |= 1 << k);
                }
                if seen.insert(canonical(&q)) {
                    next.push(q);
                }
            }
        }
        list = next;
    }
    list
}

/// the same with the nodes numbered from `shift` on, upwards or downwards
pub fn renumbered(rel: &[Mask], shift: usize, down: bool) -> Vec<Mask> {
    let n = rel.len();
    let to = |v: usize| {
        let w = (v + shift) % n;
        if down { n - 1 - w } else { w }
    };
    let mut out = vec![0; n];
    for v in 0..n {
        out[to(v)] = bits(rel[v]).fold(0, |m, w| m | 1 << to(w));
    }
    out
}

/// transitive reduction of a transitively closed DAG
pub fn reduce(dep: &[Mask]) -> Vec<Mask> {
    dep.iter()
        .map(|&d| {
            let mut r = d;
            for w in bits(d) {
                r &= !dep[w];
            }
            r
        })
        .collect()
}

/// Structured spatial graphs on n nodes.
pub fn graph_family(n: usize) -> Vec<(&'static str, Vec<Mask>)> {
    let mk = |es: Vec<(usize, usize)>| {
        let mut a = vec![0 as Mask; n];
        for (i, j) in es {
            if i != j {
                a[i] |= 1 << j;
                a[j] |= 1 << i;
            }
        }
        a
    };
    let mut out = vec![
        ("empty", mk(vec![])),
        ("path", mk((1..n).map(|i| (i - 1, i)).collect())),
        ("star_first", mk((1..n).map(|i| (0, i)).collect())),
        ("star_last", mk((0..n - 1).map(|i| (n - 1, i)).collect())),
        ("complete", mk(pairs(n))),
        ("matching", mk((0..n / 2).map(|i| (i, n - 1 - i)).collect())),
        (
            "bipartite",
            mk(pairs(n).into_iter().filter(|(i, j)| *i < n / 2 && *j >= n / 2).collect()),
        ),
        ("binary_tree", mk((1..n).map(|i| ((i - 1) / 2, i)).collect())),
        (
            "ladder",
            mk((0..n)
                .flat_map(|i| [(i, i ^ 1), (i, i + 2)])
                .filter(|(_, j)| *j < n)
                .collect()),
        ),
        (
            "comb",
            mk((1..n)
                .map(|i| if i % 2 == 1 { (i - 1, i) } else { (i - 2, i) })
                .collect()),
        ),
    ];
    if n >= 3 {
        out.push(("cycle", mk((0..n).map(|i| (i, (i + 1) % n)).collect())));
    }
    out
}

/// Structured orders on n nodes.
pub fn order_family(n: usize) -> Vec<(&'static str, Vec<Mask>)> {
    let mk = |f: &dyn Fn(usize) -> Vec<usize>| -> Vec<Mask> {
        (0..n).map(|v| f(v).into_iter().fold(0, |m, d| m | 1 << d)).collect()
    };
    let h = n / 2;
    vec![
        ("antichain", mk(&|_| vec![])),
        ("chain", mk(&|v| if v > 0 { vec![v - 1] } else { vec![] })),
        ("chain_down", mk(&|v| if v + 1 < n { vec![v + 1] } else { vec![] })),
        ("total_closed", mk(&|v| (0..v).collect())),
        ("two_layers", mk(&|v| if v >= h { (0..h).collect() } else { vec![] })),
        ("two_layers_matched", mk(&|v| if v >= h && h > 0 { vec![(v - h) % h.max(1)] } else { vec![] })),
        ("fork", mk(&|v| if v > 0 { vec![0] } else { vec![] })),
        ("join", mk(&|v| if v + 1 == n { (0..n - 1).collect() } else { vec![] })),
        ("tree", mk(&|v| if v > 0 { vec![(v - 1) / 2] } else { vec![] })),
        ("two_chains", mk(&|v| if v >= 2 { vec![v - 2] } else { vec![] })),
        ("three_chains", mk(&|v| if v >= 3 { vec![v - 3] } else { vec![] })),
        ("pairs", mk(&|v| if v >= 2 { let b = v / 2 * 2; vec![b - 2, b - 1] } else { vec![] })),
        ("zigzag", mk(&|v| if v % 2 == 1 { if v + 1 < n { vec![v - 1, v + 1] } else { vec![v - 1] } } else { vec![] })),
        ("chain_plus_free", mk(&|v| if v >= 3 { vec![v - 1] } else { vec![] })),
        ("diamond", mk(&|v| if v == 0 { vec![] } else if v + 1 == n && n > 2 { (1..n - 1).collect() } else { vec![0] })),
    ]
}

#[cfg(test)]
mod tests {
    use super::*;

    #[test]
    fn counts() {
        assert_eq!((1..=4).map(|n| all_dags(n).len()).collect::<Vec<_>>(), [1, 3, 25, 543]);
        assert_eq!((1..=5).map(|n| dag_classes(n, false).len()).collect::<Vec<_>>(), [1, 2, 6, 31, 302]);
        assert_eq!((1..=6).map(|n| dag_classes(n, true).len()).collect::<Vec<_>>(), [1, 2, 5, 16, 63, 318]);
    }

    #[test]
    fn classes() {
        let count = |f: fn(usize) -> Vec<Vec<Mask>>, n| (1..=n).map(|k| f(k).len()).collect::<Vec<_>>();
        assert_eq!(count(graph_classes, 8), [1, 2, 4, 11, 34, 156, 1044, 12346]);
        assert_eq!(count(poset_classes, 8), [1, 2, 5, 16, 63, 318, 2045, 16999]);
    }

    /// the DP agrees with brute force over all schedules, and the mask costs with the
    /// node-wise simulation
    #[test]
    fn dp_is_brute_force() {
        for n in 1..=4 {
            for dep in all_dags(n) {
                for g in 0..num_graphs(n) {
                    let i = Inst::from_masks(&graph(n, g), &dep, false);
                    let mut pts = Vec::new();
                    let mut c = 0;
                    i.each_path(&mut |p| {
                        let steps: Vec<Vec<usize>> = p.iter().map(|&s| bits(s).collect()).collect();
                        i.validate(&steps).unwrap();
                        assert_eq!(i.space(&steps), i.peak(p));
                        pts.push((p.len(), i.peak(p)));
                        c += 1;
                    });
                    assert_eq!(c, i.count_paths());
                    assert_eq!(frontier(pts), i.pareto().0);
                    assert_eq!(i.pareto().0, i.pareto_sparse().0);
                }
            }
        }
    }
}
