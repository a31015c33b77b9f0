//! C17: the timer on its own.
use std::{collections::BTreeSet, time::Duration};

use mbqc_scheduling::timer::Timer;
use mcfw::{json, Section, Tier, Value};
use mcrt::{Config, Stats};

use crate::searches::config;

/// what the owner does, one after the other; the timer is dropped at the end
#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Start,
    Poll,
    /// let that many ns pass (others may run)
    Sleep(u64),
    /// wait until nothing moves any more
    Settle,
    /// another thread polls twice, at the same time as what follows
    Spawn,
}
use Op::*;

#[derive(Clone, Debug)]
struct Program {
    ops: Vec<Op>,
    d: Duration,
}

/// (what, virtual time, time passed properly)
#[derive(Clone, Debug, PartialEq)]
enum Ev {
    Started(u64),
    Polled { thread: usize, before: u64, after: u64, fired: bool, due: bool },
    Dropped { before: u64, after: u64 },
}

fn execute(p: &Program) -> Vec<Ev> {
    let log = std::sync::Arc::new(std::sync::Mutex::new(Vec::new()));
    let mut timer = Some(Timer::new());
    // polling threads need a shared reference: the timer is not moved while they run
    let mut start_at: Option<u64> = None;
    let d = p.d.as_nanos().min(u64::MAX as u128) as u64;
    let poll = |t: &Timer, start: Option<u64>, thread: usize| {
        // processed before we ask
        let due = start.is_some_and(|s| mcrt::processed(s, d));
        let before = mcrt::now();
        let fired = t.finished();
        Ev::Polled { thread, before, after: mcrt::now(), fired, due }
    };
    let mut i = 0;
    while i < p.ops.len() {
        match p.ops[i] {
            Start => {
                log.lock().unwrap().push(Ev::Started(mcrt::now()));
                timer.as_mut().unwrap().start(p.d);
                // time may pass while it starts: it may fire when the duration has passed since before,
                // and has to when it has passed since now
                start_at = Some(mcrt::now());
            },
            Poll => {
                let e = poll(timer.as_ref().unwrap(), start_at, 0);
                log.lock().unwrap().push(e);
            },
            Sleep(ns) => mcrt::thread::sleep(Duration::from_nanos(ns)),
            Settle => mcrt::quiesce(mcrt::now()),
            Spawn => {
                // the rest, except for the drop, runs next to the other thread
                let t = timer.as_ref().unwrap();
                let rest = &p.ops[i + 1..];
                let (l, poll) = (&log, &poll);
                mcrt::thread::scope(|s| {
                    s.spawn(move || {
                        for _ in 0..2 {
                            let e = poll(t, start_at, 1);
                            l.lock().unwrap().push(e);
                        }
                    });
                    for op in rest {
                        match op {
                            Poll => {
                                let e = poll(t, start_at, 0);
                                l.lock().unwrap().push(e);
                            },
                            Sleep(ns) => mcrt::thread::sleep(Duration::from_nanos(*ns)),
                            Settle => mcrt::quiesce(mcrt::now()),
                            _ => {},
                        }
                    }
                });
                break;
            },
        }
        i += 1;
    }
    let before = mcrt::now();
    drop(timer.take());
    let after = mcrt::now();
    let mut l = log.lock().unwrap().clone();
    l.push(Ev::Dropped { before, after });
    l
}

fn judge(p: &Program, log: &[Ev], st: &Stats) -> Result<(), String> {
    let d = p.d.as_nanos();
    let mut start = None;
    let mut was = [false; 2];
    for e in log {
        match e {
            Ev::Started(t) => start = Some(*t),
            Ev::Polled { thread, after, fired, due, .. } => {
                if *fired {
                    match start {
                        None => return Err("finished, but was never started".into()),
                        Some(s) if ((*after - s) as u128) < d => {
                            return Err(format!(
                                "finished {} ns after the start, the duration is {d} ns",
                                after - s
                            ))
                        },
                        _ => {},
                    }
                } else if *due {
                    return Err(
                        "not finished, although the duration has passed and the expiry has been processed"
                            .into(),
                    );
                }
                if was[*thread] && !*fired {
                    return Err("finished before, not finished any more".into());
                }
                was[*thread] |= *fired;
            },
            Ev::Dropped { before, after } => {
                if st.used[mcrt::TIME] == 0 && after != before {
                    return Err(format!(
                        "dropping the timer took {} ns of the remaining duration",
                        after - before
                    ));
                }
            },
        }
    }
    Ok(())
}

fn programs(len: usize) -> Vec<Program> {
    let mut out = Vec::new();
    let ds = [
        Duration::ZERO,
        Duration::from_nanos(1000),
        Duration::from_secs(3600),
        Duration::MAX,
    ];
    for d in ds {
        let n = d.as_nanos().min(u64::MAX as u128 / 16) as u64;
        let mut alphabet = vec![Start, Poll, Settle, Spawn];
        for s in BTreeSet::from([n.saturating_sub(1), 1, n]) {
            if s > 0 {
                alphabet.push(Sleep(s));
            }
        }
        let mut cur: Vec<Vec<Op>> = vec![vec![]];
        for l in 0..=len {
            let mut next = Vec::new();
            for p in &cur {
                out.push(Program { ops: p.clone(), d });
                if l < len {
                    for a in &alphabet {
                        // a timer is started once
                        if *a == Start && (p.contains(&Start) || p.contains(&Spawn)) {
                            continue;
                        }
                        if *a == Spawn && p.contains(&Spawn) {
                            continue;
                        }
                        // waiting twice in a row is waiting once
                        if *a == Settle && p.last() == Some(&Settle) {
                            continue;
                        }
                        let mut q = p.clone();
                        q.push(*a);
                        next.push(q);
                    }
                }
            }
            cur = next;
        }
    }
    out
}

fn section(len: usize, bounds: [u8; 4]) -> Section {
    let ps = programs(len);
    let jumps = |d: Duration| {
        let n = d.as_nanos().min(u64::MAX as u128 / 16) as u64;
        let mut v = vec![n.saturating_sub(1), 1, n];
        v.retain(|x| *x > 0);
        v.dedup();
        v
    };
    let n = ps.len();
    let ps = std::sync::Arc::new(ps);
    Section::new(
        format!("programs{len}/p{}", bounds[0]),
        format!(
            "every sequence of up to {len} operations (start once, poll, sleep for 1 ns, the duration, \
             one ns less, settle, a second polling thread) followed by the drop, durations 0, 1000 ns, \
             1 h and the maximum; every interleaving with at most {bounds:?} preemptions, time jumps, \
             spurious wake-ups"
        ),
        n,
        move |i| ps[i].clone(),
        |p: &Program| -> Value { json!({"ops": format!("{:?}", p.ops), "duration": format!("{:?}", p.d)}) },
        move |p, o| {
            let cfg = Config { bounds, jumps: jumps(p.d), ..config() };
            let mut results = BTreeSet::new();
            match mcrt::explore(
                &cfg,
                || execute(p),
                |l, st| {
                    results.insert(format!("{l:?}"));
                    judge(p, l, st).map_err(|e| format!("{e}; log {l:?}"))
                },
            ) {
                Ok(r) => {
                    o.validated += r.execs;
                    o.transitions += r.points;
                    o.states += r.decisions + 1;
                    o.nontrivial += (results.len() > 1) as u64;
                    o.capped += r.capped as u64;
                    o.note = Some(format!("{} executions, {} different logs{}", r.execs, results.len(), r.remark()));
                    Ok(())
                },
                Err(f) if f.broken => {
                    eprintln!("ENGINE: {}", f.why);
                    std::process::exit(3)
                },
                Err(f) => Err(format!("{p:?}: {} [{}]", f.why, f.schedule)),
            }
        },
    )
}

pub fn c17(tier: Tier) -> Vec<Section> {
    if tier == Tier::Quick {
        vec![section(3, [3, 2, 2, 0]), section(5, [2, 1, 1, 0])]
    } else {
        vec![section(4, [6, 3, 3, 0]), section(6, [3, 2, 1, 0])]
    }
}
