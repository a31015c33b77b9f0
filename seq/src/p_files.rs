//! C16, C19: the file based call and the command line program.
use std::{
    fs,
    os::unix::process::{CommandExt, ExitStatusExt},
    path::{Path as FsPath, PathBuf},
    process::{Command, Stdio},
    sync::{
        atomic::{AtomicU64, Ordering::SeqCst},
        Arc, Mutex,
    },
    time::{Duration, Instant},
};

use mbqc_scheduling::{
    interface::{self, Path},
    probabilistic::AcceptFunc,
};
use mcfw::{call, json, Out, Section, Tier, Value};
use model::{dominates, Inst};

use crate::{common::*, insts::*};

/// a scratch directory that goes away again
struct Dir(PathBuf);
impl Dir {
    fn new() -> Dir {
        static N: AtomicU64 = AtomicU64::new(0);
        let base = std::env::var_os("MC_TMP").map(PathBuf::from).unwrap_or_else(std::env::temp_dir);
        let d = base.join(format!("files-{}-{}", std::process::id(), N.fetch_add(1, SeqCst)));
        fs::create_dir_all(&d).expect("no scratch directory");
        Dir(d)
    }
    fn at(&self, s: &str) -> PathBuf {
        self.0.join(s)
    }
}
impl Drop for Dir {
    fn drop(&mut self) {
        let _ = fs::remove_dir_all(&self.0);
    }
}

const FORMATS: [&str; 2] = ["serde_json", "bincode"];

fn encode<T: serde::Serialize>(v: &T, format: &str) -> Vec<u8> {
    match format {
        "serde_json" => serde_json::to_vec(v).unwrap(),
        _ => bincode::serialize(v).unwrap(),
    }
}

fn decodes<T: serde::de::DeserializeOwned>(b: &[u8], format: &str) -> bool {
    match format {
        "serde_json" => serde_json::from_slice::<T>(b).is_ok(),
        _ => bincode::deserialize_from::<_, T>(&mut &b[..]).is_ok(),
    }
}

/// the whole file is one value
fn read_back(file: &FsPath, format: &str) -> Result<Vec<Path>, String> {
    let b = fs::read(file).map_err(|e| format!("there is no output file: {e}"))?;
    let bad = |e: String| format!("the {format} output does not read back ({e}): {}", show_bytes(&b));
    match format {
        "serde_json" => serde_json::from_slice(&b).map_err(|e| bad(e.to_string())),
        _ => {
            let mut r = &b[..];
            let v = bincode::deserialize_from(&mut r).map_err(|e| bad(e.to_string()))?;
            if !r.is_empty() {
                return Err(bad(format!("{} bytes too many", r.len())));
            }
            Ok(v)
        },
    }
}

fn show_bytes(b: &[u8]) -> String {
    String::from_utf8_lossy(&b[..b.len().min(200)]).escape_debug().to_string()
}

fn same(a: &[Path], b: &[Path]) -> bool {
    show_paths(a) == show_paths(b)
}

fn sane(inst: &Inst, ps: &[Path]) -> Result<(), String> {
    valid(inst, ps)?;
    true_costs(inst, ps)?;
    staircase(ps)?;
    if inst.n <= 20 && !dominates(&inst.pareto().0, &costs(ps)) {
        return Err("better than the optimum".into());
    }
    Ok(())
}

// ---- the file based call

type Answer = fn(&Ask) -> f64;

#[derive(Clone, Copy)]
struct Mode {
    name: &'static str,
    search: bool,
    timeout: Option<Duration>,
    nthreads: u16,
    bound: Option<u32>,
    answer: Option<Answer>,
    /// the questions do not depend on the interleaving
    logged: bool,
    /// neither does the result
    fixed: bool,
}

const PLAIN: Mode = Mode {
    name: "",
    search: true,
    timeout: None,
    nthreads: 1,
    bound: None,
    answer: None,
    logged: true,
    fixed: true,
};

fn modes() -> Vec<Mode> {
    let yes: Answer = |_| 1.;
    let no: Answer = |_| 0.;
    let some: Answer = |a| ((a.cur + a.remaining) % 3. < 2.) as u8 as f64;
    vec![
        Mode { name: "no search", search: false, ..PLAIN },
        Mode { name: "no search, but everything else", search: false, timeout: Some(Duration::ZERO),
            nthreads: 3, bound: Some(0), answer: Some(no), ..PLAIN },
        Mode { name: "search", ..PLAIN },
        Mode { name: "search, no threads", nthreads: 0, bound: Some(0), ..PLAIN },
        Mode { name: "unreachable timeout", timeout: Some(Duration::from_secs(100_000)), ..PLAIN },
        Mode { name: "accept", answer: Some(yes), ..PLAIN },
        Mode { name: "reject", answer: Some(no), ..PLAIN },
        Mode { name: "filter", answer: Some(some), ..PLAIN },
        Mode { name: "filter, one task", answer: Some(some), nthreads: 2, bound: Some(0), ..PLAIN },
        Mode { name: "threads", nthreads: 2, fixed: false, ..PLAIN },
        Mode { name: "threads, bound", nthreads: 3, bound: Some(1), fixed: false, ..PLAIN },
        Mode { name: "split 1", nthreads: 2, bound: Some(1), answer: Some(no), logged: false, ..PLAIN },
        Mode { name: "split 3", nthreads: 2, bound: Some(3), answer: Some(no), logged: false, ..PLAIN },
        Mode { name: "no time", timeout: Some(Duration::ZERO), fixed: false, ..PLAIN },
    ]
}

type AskLog = Arc<Mutex<Vec<Ask>>>;

fn accept(m: &Mode, log: &AskLog) -> Option<AcceptFunc> {
    let f = m.answer?;
    let l = log.clone();
    Some(AcceptFunc::Custom(Box::new(move |a, b, c, d, e, g, h| {
        let ask =
            Ask { bound: a, minimal: b, last_max: c, last_cur: d, cur: e, remaining: g, total: h };
        l.lock().unwrap().push(ask);
        f(&ask)
    })))
}

/// what is there before the call
const BEFORE: [&str; 4] = ["nothing", "longer content", "no directory", "no directories"];

fn out_path(d: &Dir, before: &str, k: usize) -> PathBuf {
    match before {
        "nothing" => d.at(&format!("out{k}")),
        "longer content" => {
            let p = d.at(&format!("out{k}"));
            fs::write(&p, "[".repeat(3000)).unwrap();
            p
        },
        "no directory" => d.at(&format!("new{k}/out")),
        _ => d.at(&format!("new{k}/a/b.c/out")),
    }
}

fn file_call(f: Family) -> Section {
    f.section("files", |inst, o| {
        let d = Dir::new();
        for fm in FORMATS {
            fs::write(d.at(&format!("s.{fm}")), encode(&inst.nbrs, fm)).unwrap();
            fs::write(d.at(&format!("d.{fm}")), encode(&inst.order, fm)).unwrap();
        }
        let mut k = 0;
        for m in modes() {
            let want_log: AskLog = Default::default();
            let want = call(|| {
                interface::run(
                    &inst.nbrs,
                    &inst.order,
                    m.search,
                    m.timeout,
                    m.nthreads,
                    m.bound,
                    accept(&m, &want_log).map(|a| (a, None)),
                )
            })?;
            for c in 0..8 {
                let (fs_, fd, fo) = (FORMATS[c & 1], FORMATS[c >> 1 & 1], FORMATS[c >> 2]);
                k += 1;
                let before = BEFORE[(k + k / 8) % 4];
                let out = out_path(&d, before, k);
                let log: AskLog = Default::default();
                let what = format!(
                    "file based call ({}; spatial {fs_}, ordering {fd}, output {fo}; {before} before)",
                    m.name
                );
                call(|| {
                    interface::run_serialized(
                        (d.at(&format!("s.{fs_}")), fs_),
                        (d.at(&format!("d.{fd}")), fd),
                        m.search,
                        m.timeout,
                        m.nthreads,
                        m.bound,
                        accept(&m, &log),
                        (&out, fo),
                    )
                    .map_err(|e| e.to_string())
                })
                .and_then(|r| r)
                .map_err(|e| format!("{what} failed: {e}"))?;
                let got = read_back(&out, fo).map_err(|e| format!("{what}: {e}"))?;
                o.validated += 1;
                o.states += 1;
                o.transitions += 1;
                o.nontrivial += (got.len() > 1) as u64;
                let differs = |g: &str, w: &str| {
                    Err(format!("{what} wrote {g}, the call in memory gives {w}"))
                };
                if m.fixed && !same(&got, &want) {
                    return differs(&show_paths(&got), &show_paths(&want));
                }
                if !m.fixed {
                    sane(inst, &got).map_err(|e| format!("{what}: {e}"))?;
                    if m.timeout.is_none() && costs(&got) != costs(&want) {
                        return differs(&show_paths(&got), &show_paths(&want));
                    }
                }
                let (l, w) = (log.lock().unwrap(), want_log.lock().unwrap());
                if m.logged && m.answer.is_some() && *l != *w {
                    return Err(format!(
                        "{what} asks the accept function {:?}, the call in memory {:?}",
                        l, w
                    ));
                }
                // nothing is found, so the number of questions depends on the bound only
                if !m.logged && inst.order.len() > 1 && l.len() != w.len() {
                    return Err(format!(
                        "{what} asks the accept function {} times, the call in memory {} times",
                        l.len(),
                        w.len()
                    ));
                }
            }
        }
        o.note = Some(format!("{k} calls"));
        Ok(())
    })
}

// ---- the program

fn cli() -> PathBuf {
    std::env::var_os("MC_CLI").map(PathBuf::from).expect("MC_CLI is not set")
}

struct Ran {
    ok: bool,
    status: String,
    wall: f64,
    /// CPU time of the process and its threads
    cpu: f64,
    /// the largest number of threads seen
    threads: usize,
}

struct Call<'l> {
    dir: &'l Dir,
    args: Vec<String>,
    /// the output file cannot grow beyond that
    limit: Option<u64>,
    watch: bool,
    /// RUST_LOG
    log: Option<&'l str>,
    /// what is written to stdout cannot be written
    full: bool,
}

fn ticks() -> f64 {
    unsafe { libc::sysconf(libc::_SC_CLK_TCK) as f64 }
}

/// CPU time of our own child so far, s
fn cpu_of(pid: u32) -> Option<f64> {
    let s = fs::read_to_string(format!("/proc/{pid}/stat")).ok()?;
    let f: Vec<&str> = s.rsplit(") ").next()?.split(' ').collect();
    Some((f.get(11)?.parse::<f64>().ok()? + f.get(12)?.parse::<f64>().ok()?) / ticks())
}

fn start(c: &Call) -> Result<Ran, String> {
    let mut cmd = Command::new(cli());
    let out = if c.full {
        fs::OpenOptions::new().write(true).open("/dev/full").map(Stdio::from).unwrap_or_else(|_| Stdio::null())
    } else {
        Stdio::null()
    };
    cmd.args(&c.args)
        .current_dir(&c.dir.0)
        .env_remove("RUST_LOG")
        .env_remove("RUST_BACKTRACE")
        .stdin(Stdio::null())
        .stdout(out)
        .stderr(Stdio::null());
    if let Some(l) = c.log {
        cmd.env("RUST_LOG", l);
    }
    if let Some(l) = c.limit {
        unsafe {
            cmd.pre_exec(move || {
                libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
                let r = libc::rlimit { rlim_cur: l, rlim_max: l };
                libc::setrlimit(libc::RLIMIT_FSIZE, &r);
                Ok(())
            });
        }
    }
    let t = Instant::now();
    let mut child = cmd.spawn().expect("the program does not start");
    let pid = child.id();
    let (mut threads, mut cpu) = (0, 0.);
    let st = loop {
        if !c.watch {
            // killed from the outside if it does not return
            let deadline = Duration::from_secs(100);
            let mut wait = Duration::from_micros(200);
            let st = loop {
                if let Some(s) = child.try_wait().expect("waiting failed") {
                    break Some(s);
                }
                if t.elapsed() > deadline {
                    break None;
                }
                std::thread::sleep(wait);
                wait = (wait * 2).min(Duration::from_millis(20));
            };
            break st;
        }
        if let Some(s) = child.try_wait().expect("waiting failed") {
            break Some(s);
        }
        if let Ok(d) = fs::read_dir(format!("/proc/{pid}/task")) {
            threads = threads.max(d.count());
        }
        if let Some(x) = cpu_of(pid) {
            cpu = x;
        }
        if t.elapsed() > Duration::from_secs(100) {
            break None;
        }
        std::thread::sleep(Duration::from_millis(10));
    };
    let Some(st) = st else {
        let _ = child.kill();
        let _ = child.wait();
        return Err(format!("`{}` does not return", c.args.join(" ")));
    };
    let status = match (st.code(), st.signal()) {
        (Some(c), _) => format!("exit status {c}"),
        (_, s) => format!("signal {s:?}"),
    };
    Ok(Ran { ok: st.success(), status, wall: t.elapsed().as_secs_f64(), cpu, threads })
}

fn args(fs_: &str, fd: &str, out: &str, fo: &str, flags: &[&str], first: bool) -> Vec<String> {
    let s = format!("s.{fs_}");
    let d = format!("d.{fd}");
    let pos = [s.as_str(), fs_, d.as_str(), fd, out, fo];
    let v: Vec<&str> = if first {
        flags.iter().chain(pos.iter()).copied().collect()
    } else {
        pos.iter().chain(flags.iter()).copied().collect()
    };
    v.into_iter().map(|s| s.to_string()).collect()
}

fn put(d: &Dir, inst: &Inst) {
    for fm in FORMATS {
        fs::write(d.at(&format!("s.{fm}")), encode(&inst.nbrs, fm)).unwrap();
        fs::write(d.at(&format!("d.{fm}")), encode(&inst.order, fm)).unwrap();
    }
}

#[derive(Clone, Copy, PartialEq)]
enum Want {
    Greedy,
    /// exactly what the search without threads returns
    Same,
    Exact,
    Sane,
}

const FLAGS: [(&[&str], Want); 21] = [
    (&[], Want::Greedy),
    (&["-n", "3"], Want::Greedy),
    (&["-t", "0"], Want::Greedy),
    (&["-p"], Want::Greedy),
    (&["-b", "0"], Want::Greedy),
    (&["-s"], Want::Same),
    (&["--search"], Want::Same),
    (&["-s", "-n", "0"], Want::Same),
    (&["-s", "-n", "1"], Want::Same),
    (&["-s", "-n", "1", "-b", "0"], Want::Same),
    (&["-s", "-t", "100000"], Want::Same),
    (&["-s", "--timeout", "100000", "--nthreads", "1", "--task-bound", "3"], Want::Same),
    (&["-s", "-n", "2"], Want::Exact),
    (&["-s", "--nthreads=3", "--task-bound=1"], Want::Exact),
    (&["-s", "-n", "2", "-b", "0"], Want::Exact),
    (&["-s", "-n", "4", "-b", "2", "-t", "100000"], Want::Exact),
    (&["-s", "-t", "0"], Want::Sane),
    (&["-s", "-t", "0", "-n", "2"], Want::Sane),
    (&["-s", "-p"], Want::Sane),
    (&["-p", "-s", "-n", "2"], Want::Sane),
    (&["-s", "-p", "-n", "3", "-b", "1", "-t", "100000"], Want::Sane),
];

fn program(f: Family, all_formats: bool) -> Section {
    f.section(if all_formats { "program-formats" } else { "program" }, move |inst, o| {
        let d = Dir::new();
        put(&d, inst);
        let greedy_ = run(inst, &Cfg::GREEDY)?;
        let search = run(inst, &Cfg::EXACT)?;
        let mut k = 0usize;
        for (fi, (flags, want)) in FLAGS.iter().enumerate() {
            for c in 0..8usize {
                if !all_formats && c != (fi + inst.n) % 8 {
                    continue;
                }
                let (fs_, fd, fo) = (FORMATS[c & 1], FORMATS[c >> 1 & 1], FORMATS[c >> 2]);
                k += 1;
                let before = BEFORE[(k + k / 8) % 4];
                let out = out_path(&d, before, k);
                // relative and absolute paths
                let name = if k % 3 == 0 {
                    out.to_str().unwrap().to_string()
                } else {
                    out.strip_prefix(&d.0).unwrap().to_str().unwrap().to_string()
                };
                let a = args(fs_, fd, &name, fo, flags, k % 2 == 0);
                let what = format!("`{}` ({before} before)", a.join(" "));
                let r = start(&Call { dir: &d, args: a, limit: None, watch: false, log: None, full: false })?;
                if !r.ok {
                    return Err(format!("{what} failed: {}", r.status));
                }
                let got = read_back(&out, fo).map_err(|e| format!("{what}: {e}"))?;
                o.validated += 1;
                o.states += 1;
                o.transitions += 1;
                o.nontrivial += (got.len() > 1) as u64;
                let fits = match want {
                    Want::Greedy => same(&got, &greedy_),
                    Want::Same => same(&got, &search),
                    Want::Exact => costs(&got) == costs(&search),
                    Want::Sane => true,
                };
                sane(inst, &got).map_err(|e| format!("{what}: {e}"))?;
                if !fits {
                    return Err(format!(
                        "{what} wrote {}; without search: {}; with search: {}",
                        show_paths(&got),
                        show_paths(&greedy_),
                        show_paths(&search)
                    ));
                }
            }
        }
        o.note = Some(format!("{k} runs of the program"));
        Ok(())
    })
}

/// every combination of the flags
fn program_flags() -> Section {
    let pick = |f: &Family| -> Vec<Inst> {
        // the search has something to find that the other mode does not
        let v: Vec<Inst> = (0..f.len).map(|i| (f.gen)(i)).filter(|i| i.pareto().0.len() > 1).collect();
        vec![v[0].clone(), v[v.len() / 2].clone()]
    };
    let insts: Vec<Inst> = [labelled(3, false), structured(5..=5, 300)].iter().flat_map(pick).collect();
    let mut cases: Vec<(Inst, usize, usize, usize, bool, bool)> = Vec::new();
    for i in &insts {
        for n in 0..6 {
            for b in 0..4 {
                for t in 0..4 {
                    for s in [false, true] {
                        for p in [false, true] {
                            cases.push((i.clone(), n, b, t, s, p));
                        }
                    }
                }
            }
        }
    }
    let cases = Arc::new(cases);
    type Case = (Inst, usize, usize, usize, bool, bool);
    let flags = |c: &Case| -> Vec<String> {
        let (_, n, b, t, s, p) = c;
        let mut v: Vec<&str> = Vec::new();
        v.extend([&[][..], &["-n", "0"], &["-n", "1"], &["--nthreads", "2"], &["-n", "3"], &["-n7"]][*n]);
        if *s {
            v.push(["-s", "--search"][(*n + *b) % 2]);
        }
        v.extend([&[][..], &["-b", "0"], &["--task-bound=2"], &["-b", "4294967295"]][*b]);
        v.extend([&[][..], &["-t", "0"], &["--timeout", "100000"], &["-t", "4294967295"]][*t]);
        if *p {
            v.insert([0, v.len()][*t % 2], "-p");
        }
        v.into_iter().map(String::from).collect()
    };
    let g = cases.clone();
    Section::new(
        "program-flags",
        format!(
            "{} instances x all combinations of: thread count (none, 0, 1, 2, 3, 7), task bound (none, 0, 2, the largest), \
             timeout (none, 0, long, the longest), search, probabilistic",
            insts.len()
        ),
        cases.len(),
        move |i| g[i].clone(),
        move |c: &Case| -> Value { json!({"spatial": c.0.nbrs, "order": c.0.order, "flags": flags(c)}) },
        move |c, o| {
            let (inst, n, _, t, s, p) = c;
            let d = Dir::new();
            put(&d, inst);
            let fl = flags(c);
            let fl: Vec<&str> = fl.iter().map(|s| s.as_str()).collect();
            let (fs_, fd, fo) = (FORMATS[*n % 2], FORMATS[*t % 2], FORMATS[(*n + *t) / 2 % 2]);
            let a = args(fs_, fd, "out", fo, &fl, *n % 2 == 0);
            let what = format!("`{}`", a.join(" "));
            let r = start(&Call { dir: &d, args: a, limit: None, watch: false, log: None, full: false })?;
            if !r.ok {
                return Err(format!("{what} failed: {}", r.status));
            }
            let got = read_back(&d.at("out"), fo).map_err(|e| format!("{what}: {e}"))?;
            sane(inst, &got).map_err(|e| format!("{what}: {e}"))?;
            o.validated += 1;
            o.states += 1;
            o.transitions += 1;
            o.nontrivial += 1;
            let greedy_ = run(inst, &Cfg::GREEDY)?;
            let search = run(inst, &Cfg::EXACT)?;
            let fits = if !s {
                same(&got, &greedy_)
            } else if *p || *t == 1 {
                true
            } else if *n <= 2 {
                same(&got, &search)
            } else {
                costs(&got) == costs(&search)
            };
            if !fits {
                return Err(format!(
                    "{what} wrote {}; without search: {}; with search: {}",
                    show_paths(&got),
                    show_paths(&greedy_),
                    show_paths(&search)
                ));
            }
            Ok(())
        },
    )
}

/// the flag -p makes the search probabilistic, and nothing else does
fn probabilistic_flag() -> Section {
    // the share of seeds for which the built-in filter loses nothing is small
    let list: Vec<Inst> = {
        let f = structured(6..=6, 3_000);
        (0..f.len).map(|i| (f.gen)(i)).collect()
    };
    let list = Arc::new(list);
    let g = list.clone();
    Section::new(
        "program-p",
        "structured instances with 6 nodes for which at most 1 in 5 of 200 seeds gives the optimum: 40 runs \
         with -p differ from the exact result at least once, and 10 without -p never do; file based call alike",
        list.len(),
        move |i| i,
        {
            let l = list.clone();
            move |i: &usize| -> Value { show_inst(&l[*i]) }
        },
        move |&i, o: &mut Out| {
            let inst = &g[i];
            let exact = run(inst, &Cfg::EXACT)?;
            let mut full = 0;
            for s in 0..200 {
                full += (costs(&run(inst, &Cfg::prob(Prob::Builtin(Some(s))))?) == costs(&exact)) as u32;
            }
            if full > 40 {
                o.note = Some(format!("{full} of 200 seeds lose nothing: not used"));
                return Ok(());
            }
            let d = Dir::new();
            put(&d, inst);
            for (flags, some) in
                [(&["-s", "-p"][..], true), (&["-s"][..], false), (&["-s", "-p", "-n", "2", "-b", "0"][..], true)]
            {
                let mut differ = 0;
                let n = if some { 40 } else { 10 };
                for _ in 0..n {
                    let a = args("bincode", "bincode", "out", "bincode", flags, false);
                    let r = start(&Call { dir: &d, args: a, limit: None, watch: false, log: None, full: false })?;
                    if !r.ok {
                        return Err(format!("{flags:?} failed: {}", r.status));
                    }
                    let got = read_back(&d.at("out"), "bincode")?;
                    differ += (costs(&got) != costs(&exact)) as u32;
                    o.validated += 1;
                    o.states += 1;
                    o.transitions += 1;
                    if some && differ > 0 {
                        break;
                    }
                }
                if (differ > 0) != some {
                    return Err(format!(
                        "{flags:?}: {differ} of {n} results differ from the exact one ({full} of 200 seeds \
                         give it with the built-in filter)"
                    ));
                }
            }
            o.nontrivial += 1;
            o.note = Some(format!("{full} of 200 seeds lose nothing"));
            Ok(())
        },
    )
}

/// n nodes without dependencies, connected in a circle: far too many schedules
fn endless(n: usize) -> Inst {
    let nbrs = (0..n).map(|v| vec![(v + 1) % n, (v + n - 1) % n]).collect();
    Inst::new(nbrs, vec![(0..n).map(|v| (v, vec![])).collect()])
}

/// timeout, threads and task bound, seen from the outside
fn resources() -> Section {
    const T: [(&[&str], f64); 12] = [
        (&["-s", "-t", "0"], 0.),
        (&["-s", "-t", "0", "-n", "3"], 0.),
        (&["-s", "-t", "0", "-n", "2", "-p"], 0.),
        (&["-s", "-t", "1"], 1.),
        (&["-s", "-t", "2"], 2.),
        (&["-s", "-t", "1", "-n", "0"], 1.),
        (&["-s", "-t", "1", "-n", "2"], 1.),
        (&["-s", "-t", "1", "-n", "3"], 1.),
        (&["-s", "-t", "2", "-n", "5"], 2.),
        (&["-s", "-t", "1", "-n", "4", "-b", "0"], 1.),
        (&["-s", "-t", "1", "-n", "4", "-b", "1"], 1.),
        (&["-s", "-t", "1", "-p"], 1.),
    ];
    Section::new(
        "program-resources",
        "a search that would take hours with timeouts, thread counts and task bounds: it lasts as long as the \
         timeout (and no longer than 40 s more), and threads and CPU time stay within what was asked for",
        T.len(),
        |i| i,
        |i: &usize| -> Value { json!({"flags": T[*i].0}) },
        |&i, o| {
            let inst = endless(18);
            let d = Dir::new();
            put(&d, &inst);
            let (flags, secs) = T[i];
            let a = args("serde_json", "bincode", "out", "serde_json", flags, false);
            let r = start(&Call { dir: &d, args: a, limit: None, watch: true, log: None, full: false })?;
            o.validated += 1;
            o.states += 1;
            o.transitions += 1;
            o.nontrivial += 1;
            let seen = format!(
                "{:.2} s, {:.2} s of CPU time, up to {} threads",
                r.wall, r.cpu, r.threads
            );
            o.note = Some(format!("{flags:?}: {seen}"));
            if !r.ok {
                return Err(format!("{flags:?} failed: {}", r.status));
            }
            let got = read_back(&d.at("out"), "serde_json")?;
            valid(&inst, &got)?;
            true_costs(&inst, &got)?;
            staircase(&got)?;
            let probabilistic = flags.contains(&"-p");
            if !probabilistic && r.wall < secs * 0.98 {
                return Err(format!("{flags:?}: returned early, after {seen}"));
            }
            if r.wall > secs + 40. {
                return Err(format!("{flags:?}: returned late, after {seen}"));
            }
            if !probabilistic && secs > 0. && got.is_empty() {
                return Err(format!("{flags:?}: found nothing in {seen}"));
            }
            let get = |f: &str| -> Option<usize> {
                flags.iter().position(|x| *x == f).map(|i| flags[i + 1].parse().unwrap())
            };
            let n = get("-n").unwrap_or(1);
            // (one might start no more threads than there are tasks)
            let tasks = get("-b").map(|b| b + 1).unwrap_or(n);
            let (least, most) = if n < 2 { (1, 2) } else { (n.min(tasks), n + 2) };
            if r.threads > most || secs > 0. && r.threads > 0 && r.threads < least {
                return Err(format!("{flags:?}: {seen}"));
            }
            // how many can work at the same time
            let busy = if n < 2 { 1 } else { n.min(get("-b").map(|b| b + 1).unwrap_or(n)) };
            // one more for the one that makes the tasks, unless there are none to make
            let busy = busy as f64 + if n >= 2 && get("-b").is_none() { 1. } else { 0. };
            if r.cpu > busy * r.wall * 1.05 + 0.2 {
                return Err(format!("{flags:?}: {seen}, but only {busy} threads have anything to do"));
            }
            Ok(())
        },
    )
    .parallel(2)
}

/// the disk is full after any number of bytes
fn torn(f: Family) -> Section {
    f.section("torn-output", |inst, o| {
        let d = Dir::new();
        put(&d, inst);
        for fo in FORMATS {
            let a = args("bincode", "serde_json", "out", fo, &["-s"], false);
            let r = start(&Call { dir: &d, args: a.clone(), limit: None, watch: false, log: None, full: false })?;
            if !r.ok {
                return Err(format!("`{}` failed: {}", a.join(" "), r.status));
            }
            let whole = fs::read(d.at("out")).unwrap_or_default();
            for l in 0..=whole.len() as u64 + 1 {
                let r = start(&Call { dir: &d, args: a.clone(), limit: Some(l), watch: false, log: None, full: false })?;
                o.validated += 1;
                o.states += 1;
                o.transitions += 1;
                o.nontrivial += 1;
                let fits = l >= whole.len() as u64;
                if r.ok != fits {
                    return Err(format!(
                        "`{}`: {} when only {l} of {} bytes can be written",
                        a.join(" "),
                        r.status,
                        whole.len()
                    ));
                }
                if fits && fs::read(d.at("out")).unwrap_or_default() != whole {
                    return Err(format!("`{}`: different output with a limit of {l}", a.join(" ")));
                }
            }
            // a device that is always full, by the file based call
            let r = call(|| {
                interface::run_serialized(
                    (d.at("s.bincode"), "bincode"),
                    (d.at("d.bincode"), "bincode"),
                    true,
                    None,
                    1,
                    None,
                    None,
                    ("/dev/full", fo),
                )
                .is_err()
            })
            .map_err(|e| format!("output that cannot be written: {e}"))?;
            o.validated += 1;
            if !r {
                return Err(format!("success, although no {fo} output can be written"));
            }
            // nor is a directory a file
            fs::create_dir_all(d.at("taken")).unwrap();
            let mut b = a.clone();
            b[4] = "taken".into();
            let r = start(&Call { dir: &d, args: b.clone(), limit: None, watch: false, log: None, full: false })?;
            o.validated += 1;
            if r.ok {
                return Err(format!("`{}` succeeds, although the output is a directory", b.join(" ")));
            }
        }
        Ok(())
    })
}

/// where the output is, in relation to what else there is
const PLACES: [&str; 9] = [
    "the spatial graph's own file",
    "the ordering's own file",
    "a link to a longer file",
    "a link to nothing",
    "a name with a space and umlauts",
    "a name that starts with a dash",
    "a detour",
    "through a linked directory",
    "a name with percent signs and quotes",
];

/// output at unusual places; also input through links
fn places(f: Family) -> Section {
    f.section("places", |inst, o| {
        let search = run(inst, &Cfg::EXACT)?;
        let mut k = 0u64;
        for place in PLACES {
            for c in 0..8usize {
                for program in [false, true] {
                    let (fs_, fd, fo) = (FORMATS[c & 1], FORMATS[c >> 1 & 1], FORMATS[c >> 2]);
                    let d = Dir::new();
                    put(&d, inst);
                    fs::create_dir_all(d.at("real/deep")).unwrap();
                    fs::write(d.at("real/long"), "[".repeat(5000)).unwrap();
                    std::os::unix::fs::symlink("real", d.at("linked")).unwrap();
                    std::os::unix::fs::symlink("real/long", d.at("to-long")).unwrap();
                    std::os::unix::fs::symlink("real/absent", d.at("to-nothing")).unwrap();
                    let name: String = match place {
                        "the spatial graph's own file" => format!("s.{fs_}"),
                        "the ordering's own file" => format!("d.{fd}"),
                        "a link to a longer file" => "to-long".into(),
                        "a link to nothing" => "to-nothing".into(),
                        "a name with a space and umlauts" => "new dir/größe ü".into(),
                        "a name that starts with a dash" => "./-s".into(),
                        "a detour" => "real/deep/../out".into(),
                        "through a linked directory" => "linked/fresh/out".into(),
                        _ => "%s'%d\".json".into(),
                    };
                    let what = format!("output to {place} ({name}; {fs_}, {fd}, {fo}; {})", if program { "program" } else { "file based call" });
                    if program {
                        let mut a = args(fs_, fd, &name, fo, &["-s"], k % 2 == 0);
                        if k % 3 == 0 {
                            a.iter_mut().filter(|x| **x == name).for_each(|x| *x = d.at(&name).to_str().unwrap().into());
                        }
                        // equal names of input and output are replaced as well
                        let r = start(&Call { dir: &d, args: a.clone(), limit: None, watch: false, log: None, full: false })?;
                        if !r.ok {
                            return Err(format!("{what}: `{}` failed: {}", a.join(" "), r.status));
                        }
                    } else {
                        call(|| {
                            interface::run_serialized(
                                (d.at(&format!("s.{fs_}")), fs_),
                                (d.at(&format!("d.{fd}")), fd),
                                true,
                                None,
                                1,
                                None,
                                None,
                                (d.at(&name), fo),
                            )
                            .map_err(|e| e.to_string())
                        })
                        .and_then(|r| r)
                        .map_err(|e| format!("{what} failed: {e}"))?;
                    }
                    let got = read_back(&d.at(&name), fo).map_err(|e| format!("{what}: {e}"))?;
                    k += 1;
                    o.validated += 1;
                    o.states += 1;
                    o.transitions += 1;
                    o.nontrivial += 1;
                    if !same(&got, &search) {
                        return Err(format!("{what}: wrote {}, not {}", show_paths(&got), show_paths(&search)));
                    }
                }
            }
        }
        o.note = Some(format!("{k} calls"));
        Ok(())
    })
}

/// more than any buffer holds
fn large_files() -> Section {
    let n = 4000usize;
    Section::new(
        "large-files",
        format!("{n} nodes in one, two and {n} layers x 8 format combinations, without search, by the file based call and the program"),
        24,
        |i| (i / 8, i % 8),
        |(l, c): &(usize, usize)| { let l = ["one", "two", "all"][*l]; json!({"layers": l, "formats": c}) },
        move |&(l, c), o| {
            let nbrs: Spatial = (0..n).map(|v| [v.checked_sub(1), (v + 1 < n).then_some(v + 1)].into_iter().flatten().collect()).collect();
            let order: Order = match l {
                0 => vec![(0..n).map(|v| (v, vec![])).collect()],
                1 => vec![(0..n / 2).map(|v| (v, vec![])).collect(), (n / 2..n).map(|v| (v, vec![v - n / 2])).collect()],
                _ => (0..n).map(|v| vec![(v, if v == 0 { vec![] } else { vec![v - 1] })]).collect(),
            };
            let d = Dir::new();
            let (fs_, fd, fo) = (FORMATS[c & 1], FORMATS[c >> 1 & 1], FORMATS[c >> 2]);
            fs::write(d.at(&format!("s.{fs_}")), encode(&nbrs, fs_)).unwrap();
            fs::write(d.at(&format!("d.{fd}")), encode(&order, fd)).unwrap();
            let want = call(|| interface::run(&nbrs, &order, false, None, 1, None, None))?;
            call(|| {
                interface::run_serialized(
                    (d.at(&format!("s.{fs_}")), fs_),
                    (d.at(&format!("d.{fd}")), fd),
                    false,
                    None,
                    1,
                    None,
                    None,
                    (d.at("out"), fo),
                )
                .map_err(|e| e.to_string())
            })
            .and_then(|r| r)
            .map_err(|e| format!("the file based call failed: {e}"))?;
            let r = start(&Call { dir: &d, args: args(fs_, fd, "out2", fo, &[], false), limit: None, watch: false, log: None, full: false })?;
            if !r.ok {
                return Err(format!("the program failed: {}", r.status));
            }
            for f in ["out", "out2"] {
                let got = read_back(&d.at(f), fo)?;
                o.validated += 1;
                o.states += 1;
                o.transitions += 1;
                o.nontrivial += 1;
                if !same(&got, &want) {
                    return Err(format!("{f} ({fs_}, {fd}, {fo}) is not what the call in memory returns"));
                }
            }
            Ok(())
        },
    )
}

pub fn c16(tier: Tier) -> Vec<Section> {
    let q = tier == Tier::Quick;
    let mut v = vec![
        file_call(labelled(1, false)),
        file_call(labelled(2, false)),
        file_call(labelled(2, true)),
        file_call(classes(3)),
        file_call(structured(4..=5, if q { 300 } else { 3_000 })),
        file_call(long(if q { &[65] } else { &[31, 32, 33, 63, 64, 65, 127, 128, 129] })),
        program(labelled(1, false), true),
        program(labelled(2, false), true),
        program(classes(3), !q),
        program(structured(5..=5, if q { 300 } else { 3_000 }), !q),
        program_flags(),
        torn(labelled(1, false)),
        torn(labelled(2, false)),
        places(labelled(2, false)),
        large_files(),
        probabilistic_flag(),
        resources(),
    ];
    if !q {
        v.push(file_call(labelled(3, false)));
        v.push(file_call(classes(4)));
        v.push(program(labelled(3, false), false));
        v.push(program(classes(4), false));
        v.push(torn(classes(3)));
        v.push(places(classes(3)));
    }
    v
}

// ---- C19

type Spatial = Vec<Vec<usize>>;
type Order = Vec<Vec<(usize, Vec<usize>)>>;

/// all the ways in which an input is unreadable: (name, content or None if missing, format)
fn broken(good: &[(&str, Vec<u8>)], other: &[(&str, Vec<u8>)], spatial: bool) -> Vec<(String, Option<Vec<u8>>, String)> {
    let reads = |b: &[u8], f: &str| if spatial { decodes::<Spatial>(b, f) } else { decodes::<Order>(b, f) };
    let mut v: Vec<(String, Option<Vec<u8>>, String)> = Vec::new();
    for (f, b) in good {
        for l in 0..b.len() {
            v.push((format!("{f} truncated after {l} of {} bytes", b.len()), Some(b[..l].to_vec()), f.to_string()));
        }
        v.push((format!("{f} missing"), None, f.to_string()));
        for u in ["", "json", "SERDE_JSON", "serde_json ", "bincode2", "bin", "toml"] {
            v.push((format!("{f} content, format {u:?}"), Some(b.clone()), u.into()));
        }
        // the format of the other kind
        let g = if *f == FORMATS[0] { FORMATS[1] } else { FORMATS[0] };
        v.push((format!("{f} content read as {g}"), Some(b.clone()), g.into()));
    }
    for (f, b) in other {
        v.push((format!("the other input ({f})"), Some(b.clone()), f.to_string()));
    }
    for t in ["null", "{}", "3", "\"x\"", "[1]", "[[-1]]", "[[0.5]]", "[[\"0\"]]", "[[[0]]]", "[[[0,[],1]]]", "[[[0,[[]]]]]", "[[true]]", "[null]", "not json", "[]]"] {
        v.push((format!("text {t}"), Some(t.into()), FORMATS[0].into()));
    }
    for x in [u64::MAX, 1 << 40, 1 << 20] {
        v.push((format!("bincode length {x}"), Some(x.to_le_bytes().to_vec()), FORMATS[1].into()));
    }
    v.retain(|(_, b, f)| !FORMATS.contains(&f.as_str()) || b.as_ref().is_none_or(|b| !reads(b, f)));
    v
}

const OLD: &[u8] = b"[{\"time\":1,\"space\":1,\"steps\":[[0]]}] and what else was there \x00\xff";

/// state of the output before: (name, exists)
const OUTPUTS: [(&str, bool); 3] = [("out", true), ("fresh", false), ("some/where/fresh", false)];

fn unreadable(f: Family, program: bool) -> Section {
    f.section(if program { "program" } else { "files" }, move |inst, o| {
        let d = Dir::new();
        let s: Vec<_> = FORMATS.iter().map(|f| (*f, encode(&inst.nbrs, f))).collect();
        let t: Vec<_> = FORMATS.iter().map(|f| (*f, encode(&inst.order, f))).collect();
        // (what, spatial, its format, order, its format, output format)
        type Case = (String, Option<Vec<u8>>, String, Option<Vec<u8>>, String, String);
        let mut cases: Vec<Case> = Vec::new();
        for (k, (w, b, f)) in broken(&s, &t, true).into_iter().enumerate() {
            let g = &t[k % 2];
            cases.push((format!("spatial structure: {w}"), b, f, Some(g.1.clone()), g.0.into(), FORMATS[k / 2 % 2].into()));
        }
        for (k, (w, b, f)) in broken(&t, &s, false).into_iter().enumerate() {
            let g = &s[k % 2];
            cases.push((format!("ordering: {w}"), Some(g.1.clone()), g.0.into(), b, f, FORMATS[k / 2 % 2].into()));
        }
        for u in ["", "json", "SERDE_JSON", "bincode ", "csv"] {
            for k in 0..2 {
                cases.push((
                    format!("output format {u:?}"),
                    Some(s[k].1.clone()),
                    s[k].0.into(),
                    Some(t[1 - k].1.clone()),
                    t[1 - k].0.into(),
                    u.into(),
                ));
            }
        }
        let total = cases.len();
        for (k, (what, sb, sf, db, df, of)) in cases.into_iter().enumerate() {
            let put = |n: &str, b: &Option<Vec<u8>>| {
                let p = d.at(n);
                match b {
                    Some(b) => fs::write(&p, b).unwrap(),
                    None => {
                        let _ = fs::remove_file(&p);
                    },
                }
                p
            };
            let (sp, dp) = (put("spatial", &sb), put("order", &db));
            for search in [false, true] {
                for (on, exists) in OUTPUTS {
                    if program && (k + search as usize) % 3 != OUTPUTS.iter().position(|x| x.0 == on).unwrap() {
                        continue;
                    }
                    let out = d.at(on);
                    if exists {
                        fs::write(&out, OLD).unwrap();
                    }
                    let failed = if program {
                        let mut a: Vec<String> = ["spatial", &sf, "order", &df, on, &of]
                            .iter()
                            .map(|s| s.to_string())
                            .collect();
                        if search {
                            a.push("-s".into());
                        }
                        !start(&Call { dir: &d, args: a, limit: None, watch: false, log: None, full: false })?.ok
                    } else {
                        call(|| {
                            interface::run_serialized(
                                (&sp, sf.as_str()),
                                (&dp, df.as_str()),
                                search,
                                None,
                                1,
                                None,
                                None,
                                (&out, of.as_str()),
                            )
                            .is_err()
                        })
                        .map_err(|e| format!("{what}: {e}"))?
                    };
                    o.validated += 1;
                    o.states += 1;
                    o.transitions += 1;
                    o.nontrivial += 1;
                    let who = if program { "the program" } else { "the call" };
                    if !failed {
                        return Err(format!("{what}: {who} reports success"));
                    }
                    if exists {
                        let now = fs::read(&out).ok();
                        if now.as_deref() != Some(OLD) {
                            return Err(format!(
                                "{what}: {who} fails, but the existing output file is {}",
                                match now {
                                    Some(b) => format!("now {:?}", show_bytes(&b)),
                                    None => "gone".into(),
                                }
                            ));
                        }
                    } else if what.starts_with("output format") && out.exists() {
                        return Err(format!("{what}: {who} fails, but creates the output file"));
                    } else if out.exists() {
                        let _ = fs::remove_file(&out);
                    }
                }
            }
        }
        o.note = Some(format!("{total} unreadable inputs"));
        Ok(())
    })
}

pub fn c19(tier: Tier) -> Vec<Section> {
    let q = tier == Tier::Quick;
    let mut v = vec![
        unreadable(labelled(1, false), false),
        unreadable(labelled(2, false), false),
        unreadable(classes(3), false),
        unreadable(structured(5..=5, if q { 100 } else { 3_000 }), false),
        unreadable(labelled(1, false), true),
        unreadable(labelled(2, false), true),
    ];
    if q {
        v.push(unreadable(structured(4..=4, 10), true));
    } else {
        v.push(unreadable(labelled(3, false), false));
        v.push(unreadable(long(&[65, 129]), false));
        v.push(unreadable(classes(3), true));
    }
    v
}

// ---- C22

const LOGS: [Option<&str>; 11] = [
    None,
    Some(""),
    Some("off"),
    Some("error"),
    Some("warn"),
    Some("info"),
    Some("debug"),
    Some("trace"),
    Some("mbqc_scheduling=trace"),
    Some("mbqc_scheduling::search=debug,off"),
    Some("=,no sense,="),
];

/// the program at every level of logging
fn program_logs(f: Family) -> Section {
    f.section("program-logs", |inst, o| {
        let greedy_ = encode(&run(inst, &Cfg::GREEDY)?, "bincode");
        let search = run(inst, &Cfg::EXACT)?;
        let exact = encode(&search, "bincode");
        for (flags, want) in FLAGS.iter().filter(|(f, _)| {
            matches!(f, [] | ["-s"] | ["-s", "-n", "2"] | ["-s", "-n", "4", ..] | ["-s", "-t", "0", ..] | ["-s", "-p", "-n", ..])
        }) {
            for (k, log) in LOGS.iter().enumerate() {
                let d = Dir::new();
                put(&d, inst);
                let a = args("bincode", "bincode", "out", "bincode", flags, false);
                let full = k % 3 == 1;
                let what = format!("`{}` with RUST_LOG {log:?}{}", a.join(" "), if full { ", the log cannot be written" } else { "" });
                let r = start(&Call { dir: &d, args: a, limit: None, watch: false, log: *log, full })?;
                if !r.ok {
                    return Err(format!("{what} failed: {}", r.status));
                }
                let bytes = fs::read(d.at("out")).map_err(|e| format!("{what}: {e}"))?;
                let fits = match want {
                    Want::Greedy => bytes == greedy_,
                    Want::Same => bytes == exact,
                    _ => {
                        let got = read_back(&d.at("out"), "bincode").map_err(|e| format!("{what}: {e}"))?;
                        sane(inst, &got).map_err(|e| format!("{what}: {e}"))?;
                        *want == Want::Sane || costs(&got) == costs(&search)
                    },
                };
                if !fits {
                    return Err(format!("{what} writes another result than without logging"));
                }
                let more: Vec<_> = fs::read_dir(&d.0)
                    .map_err(|e| e.to_string())?
                    .flatten()
                    .map(|e| e.file_name().to_string_lossy().to_string())
                    .filter(|n| n != "out" && !n.starts_with("s.") && !n.starts_with("d."))
                    .collect();
                if !more.is_empty() {
                    return Err(format!("{what} leaves {more:?} behind"));
                }
                o.validated += 1;
                o.states += 1;
                o.transitions += 1;
                o.nontrivial += log.is_some_and(|l| l.contains('e')) as u64;
            }
        }
        Ok(())
    })
}

pub fn c22(tier: Tier) -> Vec<Section> {
    let q = tier == Tier::Quick;
    let mut v = vec![program_logs(labelled(2, false)), program_logs(structured(5..=5, if q { 12 } else { 100 }))];
    if !q {
        v.push(program_logs(labelled(3, false)));
    }
    v
}
