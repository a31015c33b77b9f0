//! Numbered families of instances.
use std::sync::Arc;

use mcfw::{json, Out, Section, Value};
use model::*;

/// A numbered, finite family of instances.
#[derive(Clone)]
pub struct Family {
    pub name: String,
    pub rule: String,
    pub len: usize,
    pub gen: Arc<dyn Fn(usize) -> Inst + Send + Sync>,
}

impl Family {
    pub fn section(
        &self,
        what: &str,
        judge: impl Fn(&Inst, &mut Out) -> Result<(), String> + Send + Sync + 'static,
    ) -> Section {
        let g = self.gen.clone();
        Section::new(
            format!("{what}/{}", self.name),
            self.rule.clone(),
            self.len,
            move |i| g(i),
            |i: &Inst| -> Value { json!({"spatial": i.nbrs, "order": i.order}) },
            judge,
        )
    }
}

/// all graphs x all labelled DAGs
pub fn labelled(n: usize, rev: bool) -> Family {
    let dags = Arc::new(all_dags(n));
    let ng = num_graphs(n) as usize;
    Family {
        name: format!("labelled{n}{}", if rev { "_rev" } else { "" }),
        rule: format!("all labelled graphs x all labelled DAGs on {n} nodes"),
        len: dags.len() * ng,
        gen: Arc::new(move |i| {
            Inst::from_masks(&graph(n, (i % ng) as u64), &dags[i / ng], rev)
        }),
    }
}

/// all labelled graphs x one DAG per isomorphism class = every pair up to relabelling
pub fn classes(n: usize) -> Family {
    let dags = Arc::new(dag_classes(n, false));
    let ng = num_graphs(n) as usize;
    Family {
        name: format!("classes{n}"),
        rule: format!(
            "all labelled graphs x one DAG per isomorphism class on {n} nodes (every pair \
             up to relabelling)"
        ),
        len: dags.len() * ng,
        gen: Arc::new(move |i| {
            Inst::from_masks(&graph(n, (i % ng) as u64), &dags[i / ng], i % 2 == 1)
        }),
    }
}

/// all labelled graphs x one poset per isomorphism class, as transitive reduction
pub fn posets(n: usize) -> Family {
    let dags: Arc<Vec<_>> =
        Arc::new(dag_classes(n, true).iter().map(|d| reduce(d)).collect());
    let ng = num_graphs(n) as usize;
    Family {
        name: format!("posets{n}"),
        rule: format!(
            "all labelled graphs x one poset (transitive reduction) per isomorphism \
             class on {n} nodes"
        ),
        len: dags.len() * ng,
        gen: Arc::new(move |i| {
            Inst::from_masks(&graph(n, (i % ng) as u64), &dags[i / ng], i % 2 == 1)
        }),
    }
}

/// one instance per (graph up to the family, order family) with few enough schedules
pub fn structured(sizes: std::ops::RangeInclusive<usize>, max_paths: u64) -> Family {
    let mut list = Vec::new();
    for n in sizes.clone() {
        for (on, d) in order_family(n) {
            for (gn, g) in graph_family(n) {
                let inst = Inst::from_masks(&g, &d, false);
                if inst.count_paths() <= max_paths {
                    list.push((on, gn, inst));
                }
            }
        }
    }
    let list = Arc::new(list);
    Family {
        name: format!("structured{}-{}", sizes.start(), sizes.end()),
        rule: format!(
            "15 order shapes x 11 graph shapes with {}..={} nodes, if there are at most \
             {max_paths} schedules",
            sizes.start(),
            sizes.end()
        ),
        len: list.len(),
        gen: Arc::new(move |i| list[i].2.clone()),
    }
}

/// one graph per isomorphism class, in some numberings x the given orders
fn class_pairs(n: usize, name: String, what: &str, orders: Vec<Vec<Mask>>, numberings: usize) -> Family {
    let gs = Arc::new(graph_classes(n));
    let orders = Arc::new(orders);
    let (ng, no) = (gs.len(), orders.len());
    Family {
        name: format!("{name}{n}x{numberings}"),
        rule: format!(
            "one graph per isomorphism class on {n} nodes x {what}, in {numberings} relative \
             numberings (up or down, shifted)"
        ),
        len: ng * no * numberings,
        gen: Arc::new(move |i| {
            let k = i / (ng * no);
            let g = renumbered(&gs[i % ng], k / 2, k % 2 == 1);
            Inst::from_masks(&g, &orders[i / ng % no], i % 2 == 1)
        }),
    }
}

pub fn poset_pairs(n: usize, numberings: usize) -> Family {
    let orders = poset_classes(n).iter().map(|d| reduce(d)).collect();
    class_pairs(n, "posetpairs".into(), "one poset per isomorphism class", orders, numberings)
}

pub fn shape_pairs(n: usize, numberings: usize) -> Family {
    let orders = order_family(n).into_iter().map(|(_, d)| d).collect();
    class_pairs(n, "shapepairs".into(), "15 order shapes", orders, numberings)
}

/// a chain on a path, and a free node next to one of it: a schedule with a step for the
/// free node alone may need less space
pub fn long_free(sizes: &[usize]) -> Family {
    let mut list = Vec::new();
    for &n in sizes {
        for x in [0, 1, n / 2, n - 3, n - 2] {
            let adjacent = |v: usize, w: usize| match (v.max(w), v.min(w)) {
                (a, b) if a == n - 1 => b == x,
                (a, b) => a == b + 1,
            };
            let nbrs = (0..n)
                .map(|v| (0..n).filter(|&w| w != v && adjacent(v, w)).collect())
                .collect();
            let deps: Vec<Vec<usize>> =
                (0..n).map(|v| if v == 0 || v == n - 1 { vec![] } else { vec![v - 1] }).collect();
            list.push(from_lists(nbrs, &deps));
        }
    }
    let list = Arc::new(list);
    Family {
        name: "long-free".into(),
        rule: format!(
            "a chain and a free node next to the first, second, middle or last ones of it, \
             {sizes:?} nodes"
        ),
        len: list.len(),
        gen: Arc::new(move |i| list[i].clone()),
    }
}

/// long thin instances (more nodes than bits in a machine word)
pub fn long(sizes: &[usize]) -> Family {
    let mut list = Vec::new();
    for &n in sizes {
        for branch in 0..3 {
            for g in 0..4 {
                let nbrs: Vec<Vec<usize>> = (0..n)
                    .map(|v| {
                        (0..n)
                            .filter(|&w| {
                                w != v
                                    && match g {
                                        0 => v.abs_diff(w) == 1,
                                        1 => v == 0 || w == 0,
                                        2 => v + w == n - 1,
                                        _ => v.abs_diff(w) == n / 2,
                                    }
                            })
                            .collect()
                    })
                    .collect();
                // a chain; with `branch` extra nodes that are free from the start (0),
                // depend on the first only (1) or sit next to the last (2)
                let deps: Vec<Vec<usize>> = (0..n)
                    .map(|v| match branch {
                        0 if v > 0 => vec![v - 1],
                        1 if v == n - 1 => vec![0],
                        2 if v == n - 1 => vec![n - 3],
                        _ if v > 0 => vec![v - 1],
                        _ => vec![],
                    })
                    .collect();
                list.push(from_lists(nbrs, &deps));
            }
        }
    }
    let list = Arc::new(list);
    Family {
        name: "long".into(),
        rule: format!("chains with and without a side branch on {sizes:?} nodes x 4 graphs"),
        len: list.len(),
        gen: Arc::new(move |i| list[i].clone()),
    }
}

/// all graphs with at most `edges` edges x one poset per isomorphism class
pub fn posets_thin(n: usize, edges: usize) -> Family {
    let dags: Arc<Vec<_>> =
        Arc::new(dag_classes(n, true).iter().map(|d| reduce(d)).collect());
    let gs: Arc<Vec<u64>> = Arc::new(
        (0..num_graphs(n)).filter(|g| g.count_ones() as usize <= edges).collect(),
    );
    let ng = gs.len();
    Family {
        name: format!("posets{n}_thin{edges}"),
        rule: format!(
            "all labelled graphs with at most {edges} edges x one poset (transitive \
             reduction) per isomorphism class on {n} nodes"
        ),
        len: dags.len() * ng,
        gen: Arc::new(move |i| {
            Inst::from_masks(&graph(n, gs[i % ng]), &dags[i / ng], i % 2 == 1)
        }),
    }
}

/// many nodes that are measurable at the same time
pub fn wide(sizes: std::ops::RangeInclusive<usize>) -> Family {
    let mut list = Vec::new();
    for k in sizes.clone() {
        for shape in 0..4 {
            // k free nodes; below a root; above a sink; next to a chain of two
            let n = k + [0, 1, 1, 2][shape];
            let deps: Vec<Vec<usize>> = (0..n)
                .map(|v| match shape {
                    1 if v > 0 => vec![0],
                    2 if v == k => (0..k).collect(),
                    3 if v == k + 1 => vec![k],
                    _ => vec![],
                })
                .collect();
            if shape == 3 && k == *sizes.end() {
                continue;
            }
            for g in 0..2 {
                let nbrs: Vec<Vec<usize>> = (0..n)
                    .map(|v| (0..n).filter(|&w| g == 1 && v.abs_diff(w) == 1).collect())
                    .collect();
                list.push(from_lists(nbrs, &deps));
            }
        }
    }
    let list = Arc::new(list);
    Family {
        name: format!("wide{}-{}", sizes.start(), sizes.end()),
        rule: format!(
            "{sizes:?} nodes that are measurable together (free, below a root, above a sink, \
             next to a chain of two) x graphs without edges and paths"
        ),
        len: list.len(),
        gen: Arc::new(move |i| list[i].clone()),
    }
}

/// chains in which nodes additionally depend on many earlier ones (few schedules, but more
/// dependencies, dependents and neighbours than a small counter can hold)
pub fn hubs(sizes: &[usize]) -> Family {
    let mut list = Vec::new();
    for &n in sizes {
        for shape in 0..4 {
            let deps: Vec<Vec<usize>> = (0..n)
                .map(|v| match shape {
                    // the last on all; all on the first; everyone on everyone before
                    0 if v == n - 1 => (0..v).collect(),
                    1 if v > 1 => vec![0, v - 1],
                    2 => (0..v).collect(),
                    // the last two on all others, not on each other
                    3 if v >= n - 2 => (0..n - 2).rev().collect(),
                    _ if v > 0 => vec![v - 1],
                    _ => vec![],
                })
                .collect();
            for g in 0..3 {
                let nbrs: Vec<Vec<usize>> = (0..n)
                    .map(|v| {
                        (0..n)
                            .filter(|&w| {
                                w != v
                                    && match g {
                                        0 => v.abs_diff(w) == 1,
                                        1 => v == 0 || w == 0,
                                        _ => v == n / 2 || w == n / 2,
                                    }
                            })
                            .collect()
                    })
                    .collect();
                list.push(from_lists(nbrs, &deps));
            }
        }
    }
    let list = Arc::new(list);
    Family {
        name: "hubs".into(),
        rule: format!(
            "chains with additional dependencies (of the last on all, of all on the first, of all \
             on all before, of the last two on all) on {sizes:?} nodes x 3 graphs"
        ),
        len: list.len(),
        gen: Arc::new(move |i| list[i].clone()),
    }
}

/// a chain with some free nodes at its end (deep trees)
pub fn deep(chains: std::ops::RangeInclusive<usize>, ends: std::ops::RangeInclusive<usize>) -> Family {
    let mut list = Vec::new();
    for c in chains.clone() {
        for e in ends.clone() {
            let n = c + e;
            for hang in [1, c.div_ceil(2)] {
                // the free nodes depend on the last, or on one in the middle of the chain
                let deps: Vec<Vec<usize>> = (0..n)
                    .map(|v| match v {
                        0 => vec![],
                        v if v < c => vec![v - 1],
                        _ => vec![c - hang],
                    })
                    .collect();
                let nbrs: Vec<Vec<usize>> =
                    (0..n).map(|v| (0..n).filter(|&w| v.abs_diff(w) == 1).collect()).collect();
                let i = from_lists(nbrs, &deps);
                if i.n > 31 || i.count_paths() <= 3000 {
                    list.push(i);
                }
            }
        }
    }
    let list = Arc::new(list);
    Family {
        name: format!("deep{}-{}", chains.start(), chains.end()),
        rule: format!(
            "chains of {chains:?} nodes with {ends:?} nodes that depend on the last or the middle \
             of the chain, on a path; at most 3000 schedules"
        ),
        len: list.len(),
        gen: Arc::new(move |i| list[i].clone()),
    }
}

pub fn from_lists(nbrs: Vec<Vec<usize>>, deps: &[Vec<usize>]) -> Inst {
    let n = nbrs.len();
    let mut depth = vec![0usize; n];
    // relax n times (no cycles)
    for _ in 0..n {
        let mut changed = false;
        for v in 0..n {
            let d = deps[v].iter().map(|&w| depth[w] + 1).max().unwrap_or(0);
            if d != depth[v] {
                depth[v] = d;
                changed = true;
            }
        }
        if !changed {
            break;
        }
    }
    let nl = depth.iter().max().unwrap() + 1;
    let mut order = vec![Vec::new(); nl];
    for v in 0..n {
        order[depth[v]].push((v, deps[v].clone()));
    }
    Inst::new(nbrs, order)
}

/// the single instance without any node is outside the input domain; this is every
/// instance with one to three nodes, labelled
pub fn tiny() -> Vec<Family> {
    vec![labelled(1, false), labelled(2, false), labelled(3, false)]
}

/// inputs with more nodes, dependencies and neighbours than 16 bits can count
pub const HUGE: [&str; 5] = ["chain", "fan-out", "fan-in", "independent", "layers"];

#[allow(clippy::type_complexity)]
pub fn huge_input(i: usize, star: bool, n: usize) -> (Vec<Vec<usize>>, Vec<Vec<(usize, Vec<usize>)>>) {
    let nbrs: Vec<Vec<usize>> = (0..n)
        .map(|v| match (star, v) {
            (true, 0) => (1..n).collect(),
            (true, _) => vec![0],
            (false, 0) => vec![1],
            (false, v) if v == n - 1 => vec![v - 1],
            (false, v) => vec![v - 1, v + 1],
        })
        .collect();
    let order: Vec<Vec<(usize, Vec<usize>)>> = match i {
        // (everything depends on the first one, too, however far away it is)
        0 => (0..n)
            .map(|v| {
                vec![match v {
                    0 => (0, vec![]),
                    1 => (1, vec![0]),
                    _ if v % 2 == 0 => (v, vec![0, v - 1]),
                    _ => (v, vec![v - 1, 0]),
                }]
            })
            .collect(),
        1 => vec![vec![(0, vec![])], (1..n).map(|v| (v, vec![0])).collect()],
        2 => vec![(1..n).map(|v| (v, vec![])).collect(), vec![(0, (1..n).collect())]],
        3 => vec![(0..n).map(|v| (v, vec![])).collect()],
        _ => (0..260)
            .map(|l| {
                (0..n)
                    .filter(|v| v % 260 == l)
                    .map(|v| (v, if l == 0 { vec![] } else { vec![v - 1] }))
                    .collect()
            })
            .collect(),
    };
    (nbrs, order)
}

/// slow when it is not optimised
pub fn huge_size() -> usize {
    if std::env::var("MC_PROFILE").is_ok_and(|p| p == "release") { 66_000 } else { 3_000 }
}
