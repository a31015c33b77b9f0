#![allow(unused)]
//! Brute force: all schedules of a small instance and what they cost.

pub use mbqc_scheduling::{
    interface::{self, Path},
    probabilistic::{AcceptFunc, HeavysideParameters},
    scheduler::{space::*, time::*, tree::*, Scheduler},
    timer::Timer,
};
pub use std::{
    sync::{atomic::*, Arc, Condvar, Mutex},
    thread,
    time::{Duration, Instant},
};

pub type Nbrs = Vec<Vec<usize>>;
pub type Order = Vec<Vec<(usize, Vec<usize>)>>;

pub fn nbrs(n: usize, edges: &[(usize, usize)]) -> Nbrs {
    let mut v = vec![vec![]; n];
    for &(a, b) in edges {
        v[a].push(b);
        v[b].push(a);
    }
    v
}

/// independent nodes
pub fn free(n: usize) -> Order {
    vec![(0..n).map(|v| (v, vec![])).collect()]
}

/// layers from dependencies
pub fn layers(deps: &[Vec<usize>]) -> Order {
    let mut done = vec![false; deps.len()];
    let mut out = vec![];
    while done.iter().any(|d| !d) {
        let l: Vec<usize> =
            (0..deps.len()).filter(|&v| !done[v] && deps[v].iter().all(|&d| done[d])).collect();
        assert!(!l.is_empty());
        for &v in &l {
            done[v] = true;
        }
        out.push(l.into_iter().map(|v| (v, deps[v].clone())).collect());
    }
    out
}

/// a small generator
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        self.0
    }
    pub fn graph(&mut self, n: usize, p: u64) -> Nbrs {
        let mut e = vec![];
        for a in 0..n {
            for b in a + 1..n {
                if self.next() % 100 < p {
                    e.push((a, b));
                }
            }
        }
        nbrs(n, &e)
    }
    pub fn deps(&mut self, n: usize, p: u64) -> Vec<Vec<usize>> {
        (0..n).map(|v| (0..v).filter(|_| self.next() % 100 < p).collect()).collect()
    }
}

/// space of a schedule, or why it is none
pub fn cost(g: &Nbrs, o: &Order, steps: &[Vec<usize>]) -> Result<usize, String> {
    let n = g.len();
    let mut deps = vec![vec![]; n];
    for (v, d) in o.iter().flatten() {
        deps[*v] = d.clone();
    }
    let (mut init, mut done, mut peak) = (vec![false; n], vec![false; n], 0);
    for s in steps {
        if s.is_empty() {
            return Err("empty step".into());
        }
        for &v in s {
            if done[v] {
                return Err(format!("{v} twice"));
            }
            if deps[v].iter().any(|&d| !done[d]) {
                return Err(format!("{v} too early"));
            }
        }
        for &v in s {
            init[v] = true;
            g[v].iter().for_each(|&w| init[w] = true);
        }
        peak = peak.max((0..n).filter(|&v| init[v] && !done[v]).count());
        for &v in s {
            if done[v] {
                return Err(format!("{v} twice in a step"));
            }
            done[v] = true;
        }
    }
    if done.iter().any(|d| !d) {
        return Err("incomplete".into());
    }
    Ok(peak)
}

/// every path is executable and costs what it says
pub fn check(g: &Nbrs, o: &Order, ps: &[Path]) -> Result<(), String> {
    for p in ps {
        let c = cost(g, o, &p.steps).map_err(|e| format!("{e}: {p:?}"))?;
        if (p.time, p.space) != (p.steps.len(), c) {
            return Err(format!("costs {} {c}: {p:?}", p.steps.len()));
        }
    }
    Ok(())
}

pub fn each(g: &Nbrs, o: &Order, f: &mut impl FnMut(&[Vec<usize>], usize)) {
    let n = g.len();
    let mut deps = vec![0u32; n];
    for (v, d) in o.iter().flatten() {
        deps[*v] = d.iter().fold(0, |m, d| m | 1 << d);
    }
    fn rec(
        g: &Nbrs,
        o: &Order,
        deps: &[u32],
        done: u32,
        path: &mut Vec<Vec<usize>>,
        f: &mut impl FnMut(&[Vec<usize>], usize),
    ) {
        let n = g.len();
        if done.count_ones() as usize == n {
            let c = cost(g, o, path).unwrap();
            f(path, c);
            return;
        }
        let a: Vec<usize> =
            (0..n).filter(|&v| done >> v & 1 == 0 && deps[v] & !done == 0).collect();
        for m in 1u32..1 << a.len() {
            let s: Vec<usize> = (0..a.len()).filter(|i| m >> i & 1 == 1).map(|i| a[i]).collect();
            let d = s.iter().fold(done, |d, v| d | 1 << v);
            path.push(s);
            rec(g, o, deps, d, path, f);
            path.pop();
        }
    }
    rec(g, o, &deps, 0, &mut vec![], f)
}

pub fn frontier(mut pts: Vec<(usize, usize)>) -> Vec<(usize, usize)> {
    pts.sort();
    let mut out: Vec<(usize, usize)> = vec![];
    for p in pts {
        if out.last().map_or(true, |l| p.1 < l.1) {
            out.push(p);
        }
    }
    out
}

pub fn optimum(g: &Nbrs, o: &Order) -> Vec<(usize, usize)> {
    let mut pts = vec![];
    each(g, o, &mut |p, c| pts.push((p.len(), c)));
    frontier(pts)
}

pub fn costs(ps: &[Path]) -> Vec<(usize, usize)> {
    ps.iter().map(|p| (p.time, p.space)).collect()
}

pub fn exact(g: &Nbrs, o: &Order) -> Vec<Path> {
    interface::run(g, o, true, None, 1, None, None)
}

pub fn custom(
    f: impl Fn([f64; 7]) -> f64 + Send + Sync + 'static,
    seed: u64,
) -> Option<(AcceptFunc, Option<u64>)> {
    Some((
        AcceptFunc::Custom(Box::new(move |a, b, c, d, e, g, h| f([a, b, c, d, e, g, h]))),
        Some(seed),
    ))
}

/// what a program that may hang returns within some seconds
pub fn within<R: Send + 'static>(secs: u64, f: impl FnOnce() -> R + Send + 'static) -> R {
    let (tx, rx) = std::sync::mpsc::channel();
    thread::spawn(move || {
        let _ = tx.send(f());
    });
    match rx.recv_timeout(Duration::from_secs(secs)) {
        Ok(r) => r,
        Err(e) => {
            println!("did not return: {e}");
            std::process::exit(1)
        },
    }
}
