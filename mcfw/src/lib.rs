//! Common frame of the engines: a property is a list of sections, a section is a finite,
//! deterministically numbered set of cases, and every case is judged. The frame runs all
//! cases on all cores, watches for cases that do not return, and writes a JSON report.
//!
//! Command line of an engine:
//!   ENGINE run  PROP TIER OUT.json SLOTS   explore everything
//!   ENGINE one  PROP TIER SECTION INDEX    judge one case again (replay)
//! Exit status: 0 everything held, 1 a case failed, anything else: the engine broke.

use std::{
    any::Any,
    cell::RefCell,
    panic::{self, AssertUnwindSafe},
    sync::{
        atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst},
    },
    time::{Duration, Instant},
};

pub use serde_json::{json, Value};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Tier {
    Quick,
    Thorough,
}

/// What judging one case covered.
#[derive(Clone, Debug, Default)]
pub struct Out {
    pub states: u64,
    pub transitions: u64,
    /// executions of the code under test whose observations were compared with the model
    pub validated: u64,
    /// cases in which something actually had to be decided (reported as is)
    pub nontrivial: u64,
    /// skipped sub-cases (a cap was hit), with the reason in `note`
    pub capped: u64,
    pub note: Option<String>,
    pub fail: Option<String>,
}

impl Out {
    pub fn add(&mut self, o: &Out) {
        self.states += o.states;
        self.transitions += o.transitions;
        self.validated += o.validated;
        self.nontrivial += o.nontrivial;
        self.capped += o.capped;
        if self.note.is_none() {
            self.note = o.note.clone();
        }
        if self.fail.is_none() {
            self.fail = o.fail.clone();
        }
    }
}

pub struct Section {
    pub name: String,
    pub rule: String,
    pub len: usize,
    pub show: Box<dyn Fn(usize) -> Value + Send + Sync>,
    pub judge: Box<dyn Fn(usize, &mut Out) -> Result<(), String> + Send + Sync>,
    /// a single case taking longer than this does not return
    pub hang: Duration,
    /// run at most that many cases at the same time
    pub parallel: usize,
}

impl Section {
    pub fn new<C: 'static>(
        name: impl Into<String>,
        rule: impl Into<String>,
        len: usize,
        gen: impl Fn(usize) -> C + Send + Sync + Clone + 'static,
        show: impl Fn(&C) -> Value + Send + Sync + 'static,
        judge: impl Fn(&C, &mut Out) -> Result<(), String> + Send + Sync + 'static,
    ) -> Self {
        let g = gen.clone();
        Section {
            name: name.into(),
            rule: rule.into(),
            len,
            show: Box::new(move |i| show(&g(i))),
            judge: Box::new(move |i, o| judge(&gen(i), o)),
            hang: Duration::from_secs(120),
            parallel: usize::MAX,
        }
    }
    pub fn parallel(mut self, p: usize) -> Self {
        self.parallel = p;
        self
    }
    pub fn hang(mut self, secs: u64) -> Self {
        self.hang = Duration::from_secs(secs);
        self
    }
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_hook() {
    panic::set_hook(Box::new(|info| {
        let s = info.to_string().replace('\n', " ");
        LAST_PANIC.with(|p| *p.borrow_mut() = s);
    }));
}

pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}

/// Call the code under test; a panic becomes an error.
pub fn call<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    panic::catch_unwind(AssertUnwindSafe(f)).map_err(|e: Box<dyn Any + Send>| {
        let s = last_panic();
        std::mem::forget(e);
        format!("the call panicked: {s}")
    })
}

struct Slots {
    base: *mut u8,
}
unsafe impl Sync for Slots {}
unsafe impl Send for Slots {}
const SLOT: usize = 256;
impl Slots {
    fn open(path: &str, n: usize) -> Slots {
        use std::{ffi::CString, ptr};
        let c = CString::new(path).unwrap();
        unsafe {
            let fd = libc::open(c.as_ptr(), libc::O_RDWR | libc::O_CREAT, 0o600);
            assert!(fd >= 0, "cannot open the slot file");
            assert_eq!(libc::ftruncate(fd, (n * SLOT) as i64), 0);
            let p = libc::mmap(
                ptr::null_mut(),
                n * SLOT,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED,
                fd,
                0,
            );
            assert!(p != libc::MAP_FAILED);
            libc::close(fd);
            Slots { base: p as *mut u8 }
        }
    }
    fn set(&self, w: usize, s: &str) {
        let b = s.as_bytes();
        let l = b.len().min(SLOT - 1);
        unsafe {
            let p = self.base.add(w * SLOT);
            std::ptr::copy_nonoverlapping(b.as_ptr(), p, l);
            *p.add(l) = 0;
        }
    }
}

fn limit_memory() {
    unsafe {
        let r = libc::rlimit { rlim_cur: 24 << 30, rlim_max: 24 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &r);
        let c = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &c);
    }
}

thread_local! {
    static CASE: std::cell::Cell<Option<Instant>> = const { std::cell::Cell::new(None) };
}
static DEADLINE: std::sync::OnceLock<Instant> = std::sync::OnceLock::new();

fn budget(name: &str, default: u64) -> Duration {
    let v = std::env::var(name).ok().and_then(|v| v.parse().ok()).unwrap_or(default);
    Duration::from_secs(v)
}

/// how many ms before `DEADLINE` the time of the current section ends
static RESERVED: AtomicU64 = AtomicU64::new(0);

/// The time for the current section is over: what is left of it is not explored.
pub fn over() -> bool {
    DEADLINE.get().is_some_and(|d| Instant::now() + Duration::from_millis(RESERVED.load(SeqCst)) > *d)
}

/// One section must not take all the time that is left if there are others.
fn reserve(sections_left: usize) {
    let Some(d) = DEADLINE.get() else { return };
    let left = d.saturating_duration_since(Instant::now()).as_millis() as u64;
    RESERVED.store(if sections_left > 1 { left * 55 / 100 } else { 0 }, SeqCst);
}

fn per_case() -> Duration {
    static PER: std::sync::OnceLock<Duration> = std::sync::OnceLock::new();
    *PER.get_or_init(|| budget("MC_CASE_BUDGET", 60))
}

/// The time for the current case is over: what is left of it is not explored.
pub fn case_over() -> bool {
    over() || CASE.with(|c| c.get()).is_some_and(|t| t.elapsed() > per_case())
}

pub fn workers() -> usize {
    std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8)
}

/// The engine's main function. `processes`: the workers are processes instead of threads.
pub fn main(processes: bool, sections: impl Fn(&str, Tier) -> Vec<Section>) -> ! {
    // sections are found again by their name
    let sections = |p: &str, t: Tier| {
        let mut v = sections(p, t);
        for i in 1..v.len() {
            let name = v[i].name.clone();
            let k = v[..i].iter().filter(|s| s.name == name || s.name.starts_with(&format!("{name}#"))).count();
            if k > 0 {
                v[i].name = format!("{name}#{}", k + 1);
            }
        }
        v
    };
    install_hook();
    limit_memory();
    let args: Vec<String> = std::env::args().collect();
    let tier = |s: &str| if s == "thorough" { Tier::Thorough } else { Tier::Quick };
    match args.get(1).map(|s| s.as_str()) {
        Some("run") => {
            let t = tier(&args[3]);
            let code = run(processes, &args[2], t, &args[3], &args[4], &args[5], sections(&args[2], t));
            std::process::exit(code)
        },
        Some("one") => {
            let secs = sections(&args[2], tier(&args[3]));
            let Some(s) = secs.iter().find(|s| s.name == args[4]) else {
                eprintln!("no section {}", args[4]);
                std::process::exit(2)
            };
            let i: usize = args[5].parse().unwrap();
            let hang = s.hang + per_case();
            std::thread::spawn(move || {
                std::thread::sleep(hang);
                println!("FAIL the case did not return within {} s", hang.as_secs());
                std::process::exit(1)
            });
            println!("CASE {}", (s.show)(i));
            let mut o = Out::default();
            match judge(s, i, &mut o) {
                Ok(()) => {
                    println!("OK {o:?}");
                    std::process::exit(0)
                },
                Err(e) => {
                    println!("FAIL {e}");
                    std::process::exit(1)
                },
            }
        },
        _ => {
            eprintln!("usage: run PROP TIER OUT SLOTS | one PROP TIER SECTION INDEX");
            std::process::exit(2)
        },
    }
}

fn judge(s: &Section, i: usize, o: &mut Out) -> Result<(), String> {
    CASE.with(|c| c.set(Some(Instant::now())));
    // a panic that escapes a judge is the engine's own failure
    match panic::catch_unwind(AssertUnwindSafe(|| (s.judge)(i, o))) {
        Ok(r) => r,
        Err(_) => {
            eprintln!("ENGINE PANIC in section {} case {i}: {}", s.name, last_panic());
            std::process::exit(3)
        },
    }
}

/// What the workers of a section share, also if they are processes.
struct Shared {
    next: AtomicUsize,
    stop: AtomicBool,
    done: AtomicU64,
    /// what each of them does: (start in ms + 1) << 32 | index
    running: [AtomicU64; 8],
}
impl Shared {
    fn map() -> &'static Shared {
        unsafe {
            let p = libc::mmap(
                std::ptr::null_mut(),
                std::mem::size_of::<Shared>(),
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED | libc::MAP_ANONYMOUS,
                -1,
                0,
            );
            assert!(p != libc::MAP_FAILED);
            // all zero, which is what everything starts with
            &*(p as *const Shared)
        }
    }
}

/// totals, failures, samples
type Part = (Out, Vec<(usize, String)>, Vec<Value>);

fn work(s: &Section, me: usize, k: usize, sh: &Shared, slots: &Slots, t0: Instant) -> Part {
    let (mut acc, mut fails, mut samples) = (Out::default(), Vec::new(), Vec::new());
    let chunk = (s.len / (k * 50)).clamp(1, 512);
    loop {
        let a = sh.next.fetch_add(chunk, SeqCst);
        if a >= s.len {
            return (acc, fails, samples);
        }
        for i in a..(a + chunk).min(s.len) {
            if sh.stop.load(SeqCst) || over() {
                return (acc, fails, samples);
            }
            slots.set(me, &format!("{}\t{i}", s.name));
            let ms = t0.elapsed().as_millis() as u64 + 1;
            sh.running[me].store(ms << 32 | i as u64, SeqCst);
            let mut o = Out::default();
            let r = judge(s, i, &mut o);
            sh.running[me].store(0, SeqCst);
            slots.set(me, "");
            sh.done.fetch_add(1, SeqCst);
            if let Err(e) = r {
                sh.stop.store(true, SeqCst);
                fails.push((i, e));
            }
            if i == 0 || i == s.len / 2 || i + 1 == s.len {
                samples.push(json!({"section": s.name, "index": i,
                    "case": (s.show)(i), "observed": o.note}));
            }
            acc.add(&o);
        }
    }
}

const STACK: usize = 64 << 20;

/// The workers are threads.
fn spawn_all(
    k: usize,
    worker: &(impl Fn(usize) -> Part + Sync),
    hung: &(impl Fn() -> bool + Sync),
) -> Vec<Part> {
    let finished = AtomicBool::new(false);
    std::thread::scope(|scope| {
        // before the workers: some of them count the threads of this process
        scope.spawn(|| {
            while !finished.load(SeqCst) {
                std::thread::sleep(Duration::from_millis(100));
                if hung() {
                    std::process::exit(1);
                }
            }
        });
        let one = |me| {
            let b = std::thread::Builder::new().stack_size(STACK);
            b.spawn_scoped(scope, move || worker(me)).unwrap()
        };
        let hs: Vec<_> = (0..k).map(one).collect();
        let mut parts = Vec::new();
        for h in hs {
            match h.join() {
                Ok(p) => parts.push(p),
                Err(_) => {
                    eprintln!("ENGINE: worker died: {}", last_panic());
                    std::process::exit(3);
                },
            }
        }
        finished.store(true, SeqCst);
        parts
    })
}

/// The workers are processes: nothing static in the code under test is shared among them.
fn fork_all(
    k: usize,
    out: &str,
    worker: &(impl Fn(usize) -> Part + Sync),
    hung: &impl Fn() -> bool,
) -> Vec<Part> {
    let file = |me: usize| format!("{out}.{me}");
    let mut left: Vec<(libc::pid_t, usize)> = Vec::new();
    for me in 0..k {
        let _ = std::fs::remove_file(file(me));
        // there is only this one thread
        let pid = unsafe { libc::fork() };
        assert!(pid >= 0, "cannot fork");
        if pid == 0 {
            unsafe { libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL) };
            let r = std::thread::scope(|scope| {
                let b = std::thread::Builder::new().stack_size(STACK);
                let r = b.spawn_scoped(scope, || worker(me)).unwrap().join();
                r.map(|(o, fails, samples)| {
                    let n = [o.states, o.transitions, o.validated, o.nontrivial, o.capped];
                    let v = json!({"n": n, "fails": fails, "samples": samples});
                    std::fs::write(file(me), v.to_string()).unwrap();
                })
            });
            unsafe { libc::_exit(if r.is_ok() { 0 } else { 3 }) }
        }
        left.push((pid, me));
    }
    let kill = |left: &[(libc::pid_t, usize)]| {
        for (pid, _) in left {
            unsafe {
                libc::kill(*pid, libc::SIGKILL);
                libc::waitpid(*pid, std::ptr::null_mut(), 0);
            }
        }
    };
    let mut last = Instant::now();
    let mut parts = Vec::new();
    while !left.is_empty() {
        let mut i = 0;
        while i < left.len() {
            let mut st = 0;
            if unsafe { libc::waitpid(left[i].0, &mut st, libc::WNOHANG) } == 0 {
                i += 1;
                continue;
            }
            let (_, me) = left.remove(i);
            if libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 0 {
                let v: Value = serde_json::from_str(&std::fs::read_to_string(file(me)).unwrap()).unwrap();
                let _ = std::fs::remove_file(file(me));
                let n = |i: usize| v["n"][i].as_u64().unwrap();
                let o = Out {
                    states: n(0),
                    transitions: n(1),
                    validated: n(2),
                    nontrivial: n(3),
                    capped: n(4),
                    ..Out::default()
                };
                let fail = |f: &Value| (f[0].as_u64().unwrap() as usize, f[1].as_str().unwrap().to_string());
                let fails = v["fails"].as_array().unwrap().iter().map(fail).collect();
                parts.push((o, fails, v["samples"].as_array().unwrap().clone()));
                continue;
            }
            // as if this process had died
            kill(&left);
            if libc::WIFEXITED(st) {
                std::process::exit(libc::WEXITSTATUS(st))
            }
            eprintln!("ENGINE: a worker was killed by signal {}", libc::WTERMSIG(st));
            std::process::abort()
        }
        if last.elapsed() > Duration::from_millis(100) {
            last = Instant::now();
            if hung() {
                kill(&left);
                std::process::exit(1);
            }
        }
        std::thread::sleep(Duration::from_millis(if left.is_empty() { 0 } else { 1 }));
    }
    parts
}

fn run(
    processes: bool,
    prop: &str,
    _tier: Tier,
    tier_name: &str,
    out: &str,
    slots: &str,
    sections: Vec<Section>,
) -> i32 {
    if sections.is_empty() {
        eprintln!("no sections for {prop}");
        return 2;
    }
    DEADLINE.get_or_init(|| Instant::now() + budget("MC_BUDGET", 100_000));
    let w = workers();
    let slots = Slots::open(slots, w);
    let started = Instant::now();
    let mut reports = Vec::new();
    let mut failures: Vec<Value> = Vec::new();
    for (nth, s) in sections.iter().enumerate() {
        reserve(sections.len() - nth);
        let t0 = Instant::now();
        let k = w.min(s.parallel).min(s.len.max(1));
        let shared = Shared::map();
        let worker = |me: usize| work(s, me, k, shared, &slots, t0);
        let hung = || {
            let now = t0.elapsed().as_millis() as u64 + 1;
            let late = |v: u64| v != 0 && now > (v >> 32) + (s.hang + per_case()).as_millis() as u64;
            let v = shared.running[..k].iter().map(|r| r.load(SeqCst)).find(|v| late(*v));
            let Some(v) = v else { return false };
            let i = (v & 0xffff_ffff) as usize;
            let f = json!({"section": s.name, "index": i, "tier": tier_name,
                "why": format!("the case did not return within {} s", s.hang.as_secs()),
                "case": (s.show)(i)});
            std::fs::write(out, json!({"property": prop, "failures": [f],
                "sections": [], "hang": true}).to_string()).unwrap();
            true
        };
        let parts = if processes {
            fork_all(k, out, &worker, &hung)
        } else {
            spawn_all(k, &worker, &hung)
        };
        let mut o = Out::default();
        let (mut fails, mut samples) = (Vec::new(), Vec::new());
        for p in parts {
            o.add(&p.0);
            fails.extend(p.1);
            samples.extend(p.2);
        }
        let done = shared.done.load(SeqCst);
        fails.sort();
        samples.sort_by_key(|v| v["index"].as_u64());
        for (i, why) in &fails {
            failures.push(json!({"section": s.name, "index": i, "tier": tier_name, "why": why,
                "case": (s.show)(*i)}));
        }
        reports.push(json!({"section": s.name, "rule": s.rule, "cases": s.len,
            "cases_done": done, "states": o.states, "transitions": o.transitions,
            "validated": o.validated, "nontrivial": o.nontrivial, "capped": o.capped,
            "samples": samples, "wall_s": t0.elapsed().as_secs_f64()}));
        eprintln!("  {prop} {}: {}/{} cases, {} states, {} transitions, {} executions, {:.1} s{}",
            s.name, done, s.len, o.states, o.transitions, o.validated,
            t0.elapsed().as_secs_f64(), if fails.is_empty() { "" } else { "  FAILED" });
        if !fails.is_empty() {
            break;
        }
    }
    let code = if failures.is_empty() { 0 } else { 1 };
    std::fs::write(
        out,
        json!({"property": prop, "failures": failures, "sections": reports,
            "wall_s": started.elapsed().as_secs_f64()})
        .to_string(),
    )
    .unwrap();
    code
}
