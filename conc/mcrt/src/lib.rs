//! Controlled scheduler. An *execution* runs a closure; the threads it starts (through
//! the shims in this crate, which stand in for the standard library's) are coroutines on
//! one real thread. Every operation another thread can observe is a *point* at which the
//! scheduler may switch to another thread, let virtual time pass, or wake a waiting
//! thread spuriously. `explore` enumerates all executions whose deviations from the
//! default (go on with the current thread) stay within the given bounds, by depth-first
//! search over the decisions, re-executing from the start each time.
//!
//! Memory is sequentially consistent: reorderings allowed by weaker atomics are not
//! modelled.
use std::{
    any::Any,
    cell::{Cell, RefCell},
    panic::{self, AssertUnwindSafe},
};

use corosensei::{
    stack::DefaultStack,
    Coroutine, CoroutineResult, Yielder,
};

pub mod mpsc;
pub mod once;
pub mod sync;
pub mod thread;
pub mod time;
pub mod tls;
#[cfg(test)]
mod tests;

/// kinds of deviations, each with its own bound
pub const PREEMPT: usize = 0;
pub const TIME: usize = 1;
pub const SPURIOUS: usize = 2;
pub const DATA: usize = 3;
/// the running thread blocked or ended, and not the first of the others goes on
const SWITCH: usize = 4;
const FREE: usize = 5;

#[derive(Clone, Debug)]
pub struct Config {
    /// bounds on preemptions, time jumps, spurious wake-ups, data deviations
    pub bounds: [u8; 4],
    /// bound on decisions for another than the first thread that can run, when the running
    /// thread cannot go on or has just started another one; `u8::MAX`: not bounded
    pub switches: u8,
    /// how far `Instant::now` may jump (ns)
    pub jumps: Vec<u64>,
    /// stop after that many executions (reported as capped)
    pub max_execs: u64,
    /// an execution with more points than that does not terminate
    pub max_points: u64,
    /// asked every now and then; stops the exploration (reported as capped)
    pub stop: fn() -> bool,
}

impl Default for Config {
    fn default() -> Self {
        Config { bounds: [2, 1, 0, 0], switches: u8::MAX, jumps: vec![], max_execs: 5_000_000, max_points: 400_000, stop: || false }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Opt {
    Run(usize),
    Fire(usize),
    Spurious(usize),
    Data(usize),
}

struct Node {
    n: u16,
    idx: u16,
    sig: u64,
}

type Co = Coroutine<(), usize, (), DefaultStack>;

struct Th {
    co: Option<Co>,
    yielder: *const Yielder<(), usize>,
    pred: Option<*const dyn Fn() -> bool>,
    deadline: u64,
    spurious: bool,
    kick: bool,
    fired: bool,
    finished: bool,
    token: bool,
    name: Option<String>,
    last_run: u64,
    /// points it has taken, and reads that were none
    points: u64,
    /// started on its own, i.e. nobody has to wait for it
    detached: bool,
    /// has not yet waited for anything but a lock
    fresh: bool,
    /// when it began to wait
    since: u64,
    locals: tls::Locals,
}

/// What happened in one execution, apart from its result.
#[derive(Clone, Debug, Default)]
pub struct Stats {
    pub points: u64,
    /// threads started by the crate itself
    pub spawned: usize,
    /// threads started by the thread pool
    pub pool_spawned: usize,
    /// threads that panicked (including the main one), with the message
    pub panics: Vec<String>,
    /// threads that never ended, although everything else had
    pub stuck: usize,
    pub now: u64,
    pub used: [u8; 5],
    pub fired: usize,
    /// where virtual time first jumped: points taken by the other threads
    pub fire_point: u64,
    /// an atomic was written after a thread had been started
    atomic_writes: bool,
    /// a lock was only tried after a thread had been started
    tried: bool,
    /// repeating the decisions of the execution before led to others
    diverged: bool,
}

struct Exec {
    threads: Vec<Th>,
    current: usize,
    now: u64,
    nodes: Vec<Node>,
    /// (only to reuse the memory)
    opts: Vec<(Opt, usize)>,
    depth: usize,
    used: [u8; 5],
    cfg: Config,
    stats: Stats,
    streak: u64,
    clock: u64,
    abort: Option<String>,
    broken: Option<String>,
    quiet: bool,
    main_done: bool,
    /// atomics are written to (else reading them is no point)
    atomics: bool,
    /// locks are only tried somewhere (else nobody sees how long they are held)
    tries: bool,
    reads: u64,
    /// in `quiesce` and when a pool thread is started: who goes on when the running
    /// thread cannot
    return_to: usize,
    trace: Vec<(u16, String)>,
    tracing: bool,
}

thread_local! {
    static EXEC: Cell<*mut Exec> = const { Cell::new(std::ptr::null_mut()) };
    static STACKS: RefCell<Vec<DefaultStack>> = const { RefCell::new(Vec::new()) };
}

const NONE: usize = usize::MAX;

fn ex() -> Option<&'static mut Exec> {
    let p = EXEC.with(|e| e.get());
    if p.is_null() {
        None
    } else {
        // every use is a short scope on a single real thread without a switch in between
        Some(unsafe { &mut *p })
    }
}

impl Exec {
    fn enabled(&self, t: usize) -> bool {
        let th = &self.threads[t];
        if th.finished {
            return false;
        }
        match th.pred {
            None => true,
            Some(p) => th.kick || th.deadline <= self.now || unsafe { (*p)() },
        }
    }

    /// take the next decision; options are (what, kind of deviation)
    fn choose(&mut self, opts: &[(Opt, usize)]) -> Opt {
        debug_assert!(!opts.is_empty());
        if self.quiet {
            return opts[0].0;
        }
        let ok = |k: usize, s: &Self| match k {
            FREE => true,
            SWITCH => s.cfg.switches == u8::MAX || s.used[k] < s.cfg.switches,
            _ => s.used[k] < s.cfg.bounds[k],
        };
        let mut n = 0u64;
        let mut sig = 0xcbf29ce484222325u64;
        for (o, k) in opts {
            if ok(*k, self) {
                n += 1;
                let c = match o {
                    Opt::Run(t) => *t as u64,
                    Opt::Fire(t) => 10_000 + *t as u64,
                    Opt::Spurious(t) => 20_000 + *t as u64,
                    Opt::Data(t) => 30_000 + *t as u64,
                };
                sig = (sig ^ c).wrapping_mul(0x100000001b3);
            }
        }
        if n == 0 {
            // nothing within the bounds: take the first
            return opts[0].0;
        }
        let idx = if n == 1 {
            0
        } else if self.depth < self.nodes.len() {
            let nd = &self.nodes[self.depth];
            if nd.n as u64 != n.min(65535) || nd.sig != sig {
                // not what was here before: go on from here as if it were new
                self.stats.diverged = true;
                self.nodes.truncate(self.depth);
                self.nodes.push(Node { n: n.min(65535) as u16, idx: 0, sig });
                self.depth += 1;
                0
            } else {
                self.depth += 1;
                nd.idx as u64
            }
        } else {
            if n > 65535 {
                self.broken = Some(format!("{n} choices at decision {}", self.depth));
            }
            self.nodes.push(Node { n: n.min(65535) as u16, idx: 0, sig });
            self.depth += 1;
            0
        };
        let mut i = 0;
        for (o, k) in opts {
            if ok(*k, self) {
                if i == idx {
                    if *k != FREE {
                        self.used[*k] = self.used[*k].saturating_add(1);
                    }
                    if self.tracing && n > 1 {
                        self.trace.push((idx as u16, format!("{o:?}")));
                    }
                    return *o;
                }
                i += 1;
            }
        }
        unreachable!()
    }

    /// decide who runs next; `cur` is the running thread if it could go on
    fn pick(&mut self, cur: Option<usize>, fresh: Option<usize>) -> usize {
        if self.return_to != NONE {
            return cur.unwrap_or(self.return_to);
        }
        let n = self.threads.len();
        if self.streak > 20_000 {
            // be fair to the others, in case the running thread waits for one of them
            let oldest = (0..n)
                .filter(|t| Some(*t) != cur && self.enabled(*t))
                .min_by_key(|t| self.threads[*t].last_run);
            self.streak = 0;
            if let Some(t) = oldest {
                self.ran(t);
                return t;
            }
        }
        let mut opts = std::mem::take(&mut self.opts);
        opts.clear();
        let mut push = |o: Opt, k: usize| opts.push((o, k));
        if let Some(c) = cur {
            push(Opt::Run(c), FREE);
        }
        let mut others = false;
        for t in 0..n {
            if Some(t) != cur && self.enabled(t) {
                let k = match (cur, others) {
                    (None, false) => FREE,
                    (None, true) => SWITCH,
                    _ if Some(t) == fresh => SWITCH,
                    _ => PREEMPT,
                };
                others = true;
                push(Opt::Run(t), k);
            }
        }
        let can_go_on = others || cur.is_some();
        let mut earliest = NONE;
        for t in 0..n {
            let th = &self.threads[t];
            if !th.finished && th.pred.is_some() && th.deadline != u64::MAX && !self.enabled(t) {
                if can_go_on {
                    push(Opt::Fire(t), TIME);
                } else if earliest == NONE || th.deadline < self.threads[earliest].deadline {
                    earliest = t;
                }
            }
        }
        if earliest != NONE {
            push(Opt::Fire(earliest), FREE);
        }
        for t in 0..n {
            let th = &self.threads[t];
            if th.spurious && th.pred.is_some() && !th.finished && !self.enabled(t) {
                push(Opt::Spurious(t), SPURIOUS);
            }
        }
        if opts.is_empty() || (!can_go_on && earliest == NONE) {
            self.opts = opts;
            return NONE;
        }
        let chosen = self.choose(&opts);
        self.opts = opts;
        let t = match chosen {
            Opt::Run(t) => t,
            Opt::Fire(t) => {
                self.now = self.now.max(self.threads[t].deadline);
                self.threads[t].fired = true;
                if self.stats.fired == 0 {
                    self.stats.fire_point = (0..n).filter(|o| *o != t).map(|o| self.threads[o].points).sum();
                }
                self.stats.fired += 1;
                t
            },
            Opt::Spurious(t) => {
                self.threads[t].kick = true;
                t
            },
            Opt::Data(_) => unreachable!(),
        };
        if Some(t) == cur {
            self.streak += 1;
        } else {
            self.streak = 0;
        }
        self.ran(t);
        t
    }

    fn ran(&mut self, t: usize) {
        self.clock += 1;
        let th = &mut self.threads[t];
        th.last_run = self.clock;
        if th.deadline <= self.now && th.pred.is_some() {
            th.fired = true;
        }
    }

    fn describe(&self) -> String {
        self.threads
            .iter()
            .enumerate()
            .map(|(i, t)| {
                format!(
                    "{}{}: {}",
                    if i == 0 { "caller".into() } else { format!("thread {i}") },
                    t.name.as_ref().map(|n| format!(" ({n})")).unwrap_or_default(),
                    if t.finished {
                        "ended"
                    } else if self.enabled(i) {
                        "can run"
                    } else {
                        "blocked"
                    }
                )
            })
            .collect::<Vec<_>>()
            .join(", ")
    }
}

fn suspend_to(next: usize) {
    let y = {
        let e = ex().unwrap();
        e.threads[e.current].yielder
    };
    unsafe { (*y).suspend(next) };
}

fn abort(why: String) -> ! {
    let e = ex().unwrap();
    if e.abort.is_none() {
        e.abort = Some(why);
    }
    loop {
        suspend_to(NONE);
    }
}

/// A point: another thread may run before the operation that follows.
pub fn point() {
    point_fresh(None)
}

/// before reading an atomic
pub(crate) fn point_read() {
    if let Some(e) = ex() {
        e.reads += 1;
        if e.reads > 50_000 {
            // looks like somebody waits for it to change
            e.stats.atomic_writes = true;
        }
        if e.atomics || e.reads > 50_000 {
            point()
        } else {
            let c = e.current;
            e.threads[c].points += 1;
        }
    }
}

/// before only trying a lock
pub(crate) fn point_try() {
    if let Some(e) = ex() {
        if e.threads.len() > 1 {
            e.stats.tried = true;
        }
        point()
    }
}

/// before releasing a lock
pub(crate) fn point_release() {
    if let Some(e) = ex() {
        if e.tries {
            point()
        }
    }
}

/// before writing an atomic
pub(crate) fn point_write() {
    if let Some(e) = ex() {
        if e.threads.len() > 1 {
            e.stats.atomic_writes = true;
        }
        point()
    }
}

pub(crate) fn point_fresh(fresh: Option<usize>) {
    let Some(e) = ex() else { return };
    if std::thread::panicking() {
        return;
    }
    e.stats.points += 1;
    let c = e.current;
    e.threads[c].points += 1;
    if e.stats.points > e.cfg.max_points {
        abort(format!("no end after {} points ({})", e.stats.points, e.describe()));
    }
    let t = e.pick(Some(c), fresh);
    if e.broken.is_some() {
        abort("diverged".into());
    }
    if t != c {
        suspend_to(t);
    }
}

/// Wait until `pred` holds, or `deadline` (ns of virtual time) passes, or a spurious
/// wake-up if `spurious`.
pub(crate) fn block(pred: &dyn Fn() -> bool, deadline: u64, spurious: bool) {
    let Some(e) = ex() else {
        if pred() {
            return;
        }
        panic!("blocking outside of an execution");
    };
    if pred() || deadline <= e.now && deadline != u64::MAX {
        return;
    }
    let c = e.current;
    if std::thread::panicking() {
        abort(format!("blocked while unwinding a panic ({})", e.describe()));
    }
    e.stats.points += 1;
    if e.stats.points > e.cfg.max_points {
        abort(format!("no end after {} points ({})", e.stats.points, e.describe()));
    }
    let p: *const dyn Fn() -> bool = pred;
    let p: *const (dyn Fn() -> bool + 'static) = unsafe { std::mem::transmute(p) };
    {
        let th = &mut e.threads[c];
        th.pred = Some(p);
        th.deadline = deadline;
        th.spurious = spurious;
        th.kick = false;
        th.since = e.now;
        if spurious || deadline != u64::MAX {
            th.fired = false;
            th.fresh = false;
        }
    }
    let t = e.pick(None, None);
    if e.broken.is_some() {
        abort("diverged".into());
    }
    if t == NONE {
        abort(format!("deadlock: {}", e.describe()));
    }
    if t != c {
        suspend_to(t);
    }
    let e = ex().unwrap();
    let th = &mut e.threads[c];
    th.pred = None;
    th.deadline = u64::MAX;
    th.spurious = false;
    th.kick = false;
}

/// let the others go first, at no cost
pub(crate) fn yield_now() {
    let Some(e) = ex() else { return };
    if std::thread::panicking() {
        return;
    }
    e.stats.points += 1;
    let c = e.current;
    e.threads[c].points += 1;
    if e.stats.points > e.cfg.max_points {
        abort(format!("no end after {} points ({})", e.stats.points, e.describe()));
    }
    let mut t = e.pick(None, None);
    if e.broken.is_some() {
        abort("diverged".into());
    }
    if t == NONE {
        t = c;
    }
    if t == c {
        // prefer somebody else if there is one
        let n = e.threads.len();
        let mut best = c;
        for o in 0..n {
            if o != c
                && e.enabled(o)
                && (best == c || e.threads[o].last_run < e.threads[best].last_run)
            {
                best = o;
            }
        }
        t = best;
        e.clock += 1;
        e.threads[t].last_run = e.clock;
    }
    if t != c {
        suspend_to(t);
    }
}

/// An explored choice of data: 0 is the default, everything else one deviation.
pub fn choose_data(n: usize) -> usize {
    choose_kind(n, DATA)
}

pub(crate) fn choose_kind(n: usize, kind: usize) -> usize {
    let Some(e) = ex() else { return 0 };
    let opts: Vec<_> =
        (0..n).map(|i| (Opt::Data(i), if i == 0 { FREE } else { kind })).collect();
    match e.choose(&opts) {
        Opt::Data(i) => i,
        _ => unreachable!(),
    }
}

/// An explored choice without a bound.
pub fn choose_free(n: usize) -> usize {
    choose_kind(n, FREE)
}

/// number of the running thread, 0 is the one that runs the explored closure
pub fn current() -> usize {
    ex().map(|e| e.current).unwrap_or(0)
}

/// virtual time in ns
pub fn now() -> u64 {
    ex().map(|e| e.now).unwrap_or(0)
}

/// `d` has passed since `start`, and the threads that wait for that had their turn
pub fn processed(start: u64, d: u64) -> bool {
    let Some(e) = ex() else { return false };
    e.now >= start.saturating_add(d)
        && e.threads.iter().filter(|h| h.detached && !h.finished).all(|h| {
            !h.fresh
                && !h.fired
                && h.pred.is_some()
                && h.deadline > e.now.max(h.since.saturating_add(d))
        })
}

/// threads that have not ended, apart from the running one
pub fn alive() -> usize {
    ex().map(|e| (0..e.threads.len()).filter(|t| *t != e.current && !e.threads[*t].finished).count()).unwrap_or(0)
}

/// let all other threads run until nothing moves (without exploring how), and virtual
/// time pass until `until`
pub fn quiesce(until: u64) {
    let Some(e) = ex() else { return };
    let c = e.current;
    let was = e.return_to;
    e.return_to = c;
    loop {
        let e = ex().unwrap();
        let n = e.threads.len();
        let next = (0..n)
            .filter(|t| *t != c && e.enabled(*t))
            .min_by_key(|t| e.threads[*t].last_run);
        let Some(next) = next else {
            let earliest = (0..n)
                .filter(|t| {
                    *t != c && !e.threads[*t].finished && e.threads[*t].pred.is_some()
                })
                .map(|t| e.threads[t].deadline)
                .min()
                .unwrap_or(u64::MAX);
            if earliest <= until && earliest != u64::MAX {
                e.now = e.now.max(earliest);
                continue;
            }
            e.now = e.now.max(until);
            break;
        };
        e.stats.points += 1;
        if e.stats.points > e.cfg.max_points {
            abort(format!("no end after {} points ({})", e.stats.points, e.describe()));
        }
        e.ran(next);
        suspend_to(next);
    }
    ex().unwrap().return_to = was;
}

pub(crate) fn advance(by: u64) {
    if let Some(e) = ex() {
        e.now = e.now.saturating_add(by);
        if e.stats.fired == 0 {
            e.stats.fire_point = e.threads.iter().map(|t| t.points).sum();
        }
        e.stats.fired += 1;
    }
}

pub(crate) fn jumps() -> Vec<u64> {
    ex().map(|e| e.cfg.jumps.clone()).unwrap_or_default()
}

fn stack() -> DefaultStack {
    STACKS
        .with(|s| s.borrow_mut().pop())
        .unwrap_or_else(|| DefaultStack::new(256 << 10).expect("no memory for a stack"))
}

fn new_thread(f: Box<dyn FnOnce()>, name: Option<String>) -> usize {
    let e = ex().expect("thread started outside of an execution");
    let id = e.threads.len();
    if id > 5000 {
        abort("more than 5000 threads".into());
    }
    let co = Coroutine::with_stack(stack(), move |y: &Yielder<(), usize>, ()| {
        ex().unwrap().threads[id].yielder = y;
        if let Err(p) = panic::catch_unwind(AssertUnwindSafe(f)) {
            ex().unwrap().stats.panics.push(format!("thread {id}: {}", text(&p)));
            std::mem::forget(p);
        }
        tls::end_of_thread();
    });
    e.threads.push(Th {
        co: Some(co),
        yielder: std::ptr::null(),
        pred: None,
        deadline: u64::MAX,
        spurious: false,
        kick: false,
        fired: false,
        finished: false,
        token: false,
        name,
        last_run: 0,
        points: 0,
        detached: false,
        fresh: true,
        since: 0,
        locals: Default::default(),
    });
    id
}

pub(crate) fn text(p: &Box<dyn Any + Send>) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".into()
    }
}

/// start a thread; the new thread may run before this returns
pub(crate) fn start(
    f: Box<dyn FnOnce()>,
    name: Option<String>,
    pooled: bool,
    detached: bool,
) -> usize {
    let id = new_thread(f, name);
    let e = ex().unwrap();
    if pooled {
        e.stats.pool_spawned += 1;
        // the pool's threads are all alike: let each go to where it waits for a job
        let was = e.return_to;
        e.return_to = e.current;
        e.ran(id);
        suspend_to(id);
        ex().unwrap().return_to = was;
    } else {
        e.stats.spawned += 1;
        e.threads[id].detached = detached;
        point_fresh(Some(id));
    }
    id
}

pub(crate) fn token(id: usize) -> &'static mut bool {
    &mut ex().unwrap().threads[id].token
}

pub(crate) fn thread_name(id: usize) -> Option<String> {
    ex().and_then(|e| e.threads[id].name.clone())
}

pub struct Failure {
    pub why: String,
    /// the decisions that deviate from the default
    pub schedule: String,
    /// not a verdict: the exploration itself broke
    pub broken: bool,
}

#[derive(Clone, Debug, Default)]
pub struct Report {
    pub execs: u64,
    pub points: u64,
    pub decisions: u64,
    pub max_decisions: usize,
    pub max_threads: usize,
    pub capped: bool,
    /// how often the search started again since an execution did not repeat the decisions it was to repeat
    pub restarts: u64,
    /// it never did
    pub unstable: bool,
}

impl Report {
    pub fn remark(&self) -> &'static str {
        match (self.unstable, self.restarts) {
            (true, _) => "; given up: executions do not repeat",
            (_, 0) => "",
            _ => "; started again as something outlived the first execution",
        }
    }
}

/// Run `body` under every schedule within the bounds; `check` judges every execution.
pub fn explore<R: 'static>(
    cfg: &Config,
    body: impl Fn() -> R,
    mut check: impl FnMut(&R, &Stats) -> Result<(), String>,
) -> Result<Report, Failure> {
    let mut rep = Report::default();
    let mut nodes: Vec<Node> = Vec::new();
    // as long as no execution writes to an atomic, reading one commutes with everything
    let mut atomics = false;
    // as long as no execution only tries a lock, releasing one commutes with everything
    let mut tries = false;
    loop {
        let (r, back, st, threads) = run_once(cfg, nodes, &body, false, (atomics, tries));
        nodes = back;
        if st.atomic_writes && !atomics || st.tried && !tries {
            // it does not: all over again
            atomics |= st.atomic_writes;
            tries |= st.tried;
            nodes.clear();
            continue;
        }
        let diverged = st.diverged;
        rep.execs += 1;
        rep.points += st.points;
        rep.max_decisions = rep.max_decisions.max(nodes.len());
        rep.max_threads = rep.max_threads.max(threads);
        let verdict = match r {
            Ok(r) => {
                let v = if let Some(p) = st.panics.first() {
                    Err(format!("a panic in {p}"))
                } else {
                    check(&r, &st)
                };
                v.map_err(|e| (e, false))
            },
            Err(e) => Err(e),
        };
        if let Err((why, broken)) = verdict {
            // once more, with the decisions written down
            let again: Vec<Node> = nodes.iter().map(|n| Node { ..*n }).collect();
            let mut schedule = Vec::new();
            if !broken {
                let (_, _, _, _) = run_traced(cfg, again, &body, &mut schedule, (atomics, tries));
            }
            let s = schedule
                .iter()
                .enumerate()
                .filter(|(_, (i, _))| *i != 0)
                .map(|(k, (_, o))| format!("{k}: {o}"))
                .collect::<Vec<_>>()
                .join(", ");
            return Err(Failure {
                why,
                schedule: format!(
                    "execution {} of the exploration; decisions (of {}) that deviate from the default: [{s}]",
                    rep.execs,
                    nodes.len()
                ),
                broken,
            });
        }
        if diverged {
            // What outlives an execution (something static that is initialised by the first who needs it)
            // made this one different; it is an execution as any other, but the order of the search is lost.
            rep.restarts += 1;
            if rep.restarts > 5 {
                rep.capped = true;
                rep.unstable = true;
                return Ok(rep);
            }
            nodes.clear();
            continue;
        }
        // next in depth-first order
        loop {
            match nodes.last_mut() {
                None => {
                    return Ok(rep);
                },
                Some(n) => {
                    rep.decisions += 1;
                    if n.idx + 1 < n.n {
                        n.idx += 1;
                        break;
                    }
                    nodes.pop();
                },
            }
        }
        if rep.execs >= cfg.max_execs || rep.execs % 16 == 0 && (cfg.stop)() {
            rep.capped = true;
            return Ok(rep);
        }
    }
}

type Once<R> = (Result<R, (String, bool)>, Vec<Node>, Stats, usize);

fn run_traced<R: 'static>(
    cfg: &Config,
    nodes: Vec<Node>,
    body: &impl Fn() -> R,
    out: &mut Vec<(u16, String)>,
    (atomics, tries): (bool, bool),
) -> Once<R> {
    TRACE.with(|t| t.borrow_mut().clear());
    let r = run_once(cfg, nodes, body, true, (atomics, tries));
    TRACE.with(|t| *out = t.borrow().clone());
    r
}

thread_local! {
    static TRACE: RefCell<Vec<(u16, String)>> = const { RefCell::new(Vec::new()) };
}

fn run_once<R: 'static>(
    cfg: &Config,
    nodes: Vec<Node>,
    body: &impl Fn() -> R,
    tracing: bool,
    (atomics, tries): (bool, bool),
) -> Once<R> {
    assert!(EXEC.with(|e| e.get()).is_null(), "nested execution");
    let slot: std::rc::Rc<RefCell<Option<R>>> = Default::default();
    let e = Box::into_raw(Box::new(Exec {
        threads: Vec::new(),
        current: 0,
        now: 0,
        nodes,
        depth: 0,
        opts: Vec::new(),
        used: [0; 5],
        cfg: cfg.clone(),
        stats: Stats::default(),
        streak: 0,
        clock: 0,
        abort: None,
        broken: None,
        quiet: false,
        main_done: false,
        atomics,
        tries,
        reads: 0,
        return_to: NONE,
        trace: Vec::new(),
        tracing,
    }));
    EXEC.with(|c| c.set(e));
    {
        let slot = slot.clone();
        let f: Box<dyn FnOnce() + '_> = Box::new(move || {
            let r = body();
            *slot.borrow_mut() = Some(r);
        });
        let f: Box<dyn FnOnce() + 'static> = unsafe { std::mem::transmute(f) };
        new_thread(f, None);
    }
    let mut cur = 0;
    loop {
        let ex_ = unsafe { &mut *e };
        ex_.current = cur;
        let mut co = ex_.threads[cur].co.take().expect("resuming a thread that is not there");
        let r = co.resume(());
        let ex_ = unsafe { &mut *e };
        match r {
            CoroutineResult::Yield(next) => {
                ex_.threads[cur].co = Some(co);
                if ex_.abort.is_some() {
                    break;
                }
                cur = next;
            },
            CoroutineResult::Return(()) => {
                STACKS.with(|s| s.borrow_mut().push(co.into_stack()));
                ex_.threads[cur].finished = true;
                ex_.threads[cur].fired = false;
                if cur == 0 {
                    ex_.main_done = true;
                    // whatever is still running may end, in any order
                    ex_.quiet = true;
                }
                if ex_.return_to != NONE && cur != ex_.return_to {
                    cur = ex_.return_to;
                    continue;
                }
                ex_.return_to = NONE;
                let t = ex_.pick(None, None);
                if ex_.broken.is_some() {
                    ex_.abort = Some("diverged".into());
                    break;
                }
                if t == NONE {
                    if !ex_.main_done {
                        ex_.abort = Some(format!("deadlock: {}", ex_.describe()));
                    } else {
                        ex_.stats.stuck = ex_.threads.iter().filter(|t| !t.finished).count();
                    }
                    break;
                }
                cur = t;
            },
        }
    }
    let mut ex_ = unsafe { Box::from_raw(e) };
    for t in ex_.threads.iter_mut() {
        if let Some(mut co) = t.co.take() {
            // never resumed again; what it owns is lost
            if co.started() && !co.done() {
                unsafe { co.force_reset() };
            }
            STACKS.with(|s| s.borrow_mut().push(co.into_stack()));
        }
    }
    EXEC.with(|c| c.set(std::ptr::null_mut()));
    let mut st = std::mem::take(&mut ex_.stats);
    st.now = ex_.now;
    st.used = ex_.used;
    if tracing {
        TRACE.with(|t| *t.borrow_mut() = std::mem::take(&mut ex_.trace));
    }
    let nthreads = ex_.threads.len();
    let nodes = std::mem::take(&mut ex_.nodes);
    let r = if let Some(b) = ex_.broken.take() {
        Err((b, true))
    } else if let Some(a) = ex_.abort.take() {
        let p = st.panics.first().map(|p| format!(" (after a panic in {p})")).unwrap_or_default();
        Err((a + &p, false))
    } else {
        match slot.borrow_mut().take() {
            Some(r) => Ok(r),
            None => Err((
                format!("the call panicked: {}", st.panics.first().cloned().unwrap_or_default()),
                false,
            )),
        }
    };
    (r, nodes, st, nthreads)
}
