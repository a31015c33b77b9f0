use std::{collections::BTreeSet, sync::Arc, time::Duration};

use crate::{
    explore, mpsc, now, quiesce, sync::atomic::*, sync::*, thread, time::Instant, Config, Stats,
};

fn outcomes<R: Ord + Clone + 'static>(
    cfg: &Config,
    body: impl Fn() -> R,
) -> (BTreeSet<R>, u64) {
    let (set, r) = report(cfg, body);
    (set, r.execs)
}

fn report<R: Ord + Clone + 'static>(
    cfg: &Config,
    body: impl Fn() -> R,
) -> (BTreeSet<R>, crate::Report) {
    let mut set = BTreeSet::new();
    let r = explore(cfg, body, |r, _: &Stats| {
        set.insert(r.clone());
        Ok(())
    });
    match r {
        Ok(r) => (set, r),
        Err(f) => panic!("{} {}", f.why, f.schedule),
    }
}

fn cfg(p: u8) -> Config {
    Config { bounds: [p, 1, 0, 0], ..Config::default() }
}

#[test]
fn lost_update() {
    let body = || {
        let a = Arc::new(AtomicUsize::new(0));
        let b = a.clone();
        let t = thread::spawn::<_, _, false>(move || {
            let v = b.load(Ordering::SeqCst);
            b.store(v + 1, Ordering::SeqCst);
        });
        let v = a.load(Ordering::SeqCst);
        a.store(v + 1, Ordering::SeqCst);
        t.join().unwrap();
        a.load(Ordering::SeqCst)
    };
    assert_eq!(outcomes(&cfg(0), body).0, BTreeSet::from([2]));
    assert_eq!(outcomes(&cfg(1), body).0, BTreeSet::from([1, 2]));
}

/// all interleavings of two threads with k atomic operations each: C(2k, k)
#[test]
fn counts() {
    for k in 1..5usize {
        let body = move || {
            let a = Arc::new(AtomicUsize::new(0));
            let log = Arc::new(std::sync::Mutex::new(Vec::new()));
            let hs: Vec<_> = (0..2)
                .map(|i| {
                    let (a, log) = (a.clone(), log.clone());
                    thread::spawn::<_, _, false>(move || {
                        for _ in 0..k {
                            a.fetch_add(1, Ordering::SeqCst);
                            log.lock().unwrap().push(i);
                        }
                    })
                })
                .collect();
            for h in hs {
                h.join().unwrap();
            }
            let l = log.lock().unwrap().clone();
            l
        };
        let mut c = 1u64;
        for i in 0..k as u64 {
            c = c * (2 * k as u64 - i) / (i + 1);
        }
        assert_eq!(outcomes(&cfg(20), body).0.len() as u64, c);
    }
}

#[test]
fn lock_order() {
    let body = || {
        let a = Arc::new((Mutex::<i32>::new(0), Mutex::<i32>::new(0)));
        let b = a.clone();
        let t = thread::spawn::<_, _, false>(move || {
            let _x = b.0.lock().unwrap();
            let _y = b.1.lock().unwrap();
        });
        let _y = a.1.lock().unwrap();
        let _x = a.0.lock().unwrap();
        drop((_x, _y));
        t.join().unwrap();
    };
    assert!(explore(&cfg(0), body, |_, _| Ok(())).is_ok());
    let f = explore(&cfg(1), body, |_, _| Ok(())).err().unwrap();
    assert!(f.why.contains("deadlock"), "{}", f.why);
}

#[test]
fn lost_wakeup() {
    // notify before wait, without a predicate
    let body = || {
        let a = Arc::new((Mutex::<bool>::new(false), Condvar::new()));
        let b = a.clone();
        let t = thread::spawn::<_, _, false>(move || {
            let g = b.0.lock().unwrap();
            let _g = b.1.wait(g).unwrap();
        });
        a.1.notify_all();
        t.join().unwrap();
    };
    assert!(explore(&cfg(0), body, |_, _| Ok(())).err().unwrap().why.contains("deadlock"));
    let body = || {
        let a = Arc::new((Mutex::<bool>::new(false), Condvar::new()));
        let b = a.clone();
        let t = thread::spawn::<_, _, false>(move || {
            let g = b.0.lock().unwrap();
            let _g = b.1.wait_while(g, |x| !*x).unwrap();
        });
        *a.0.lock().unwrap() = true;
        a.1.notify_all();
        t.join().unwrap();
    };
    let c = Config { bounds: [4, 1, 2, 0], ..Config::default() };
    assert!(explore(&c, body, |_, _| Ok(())).is_ok());
}

#[test]
fn timers() {
    let body = || {
        let a = Arc::new((Mutex::<bool>::new(false), Condvar::new()));
        let b = a.clone();
        let t = thread::spawn::<_, _, false>(move || {
            let g = b.0.lock().unwrap();
            let (_g, r) =
                b.1.wait_timeout_while(g, Duration::from_secs(1), |x| !*x).unwrap();
            (r.timed_out(), now())
        });
        *a.0.lock().unwrap() = true;
        a.1.notify_all();
        t.join().unwrap()
    };
    let (o, _) = outcomes(&cfg(3), body);
    assert_eq!(o, BTreeSet::from([(false, 0), (false, 1_000_000_000), (true, 1_000_000_000)]));
    // quiesce reaches the deadline
    let body = || {
        let f = Arc::new(AtomicBool::new(false));
        let g = f.clone();
        let _t = thread::spawn::<_, _, false>(move || {
            thread::sleep(Duration::from_secs(1));
            g.store(true, Ordering::SeqCst);
        });
        quiesce(999_999_999);
        let a = f.load(Ordering::SeqCst);
        quiesce(1_000_000_000);
        (a, f.load(Ordering::SeqCst))
    };
    let (o, _) = outcomes(&cfg(2), body);
    assert_eq!(o, BTreeSet::from([(false, true), (true, true)]));
    // polling the clock
    let body = || {
        let t = Instant::now();
        t.elapsed() >= Duration::from_secs(1)
    };
    let c = Config { jumps: vec![1_000_000_000], ..cfg(0) };
    assert_eq!(outcomes(&c, body).0, BTreeSet::from([false, true]));
}

#[test]
fn channels() {
    let body = || {
        let (tx, rx) = mpsc::channel::<u32, false>();
        let hs: Vec<_> = (0..2)
            .map(|i| {
                let tx = tx.clone();
                thread::spawn::<_, _, false>(move || tx.send(i).unwrap())
            })
            .collect();
        drop(tx);
        let v: Vec<u32> = rx.iter().collect();
        for h in hs {
            h.join().unwrap();
        }
        v
    };
    assert_eq!(outcomes(&cfg(2), body).0, BTreeSet::from([vec![0, 1], vec![1, 0]]));
    let body = || {
        let (tx, rx) = mpsc::sync_channel::<u32, false>(0);
        let t = thread::spawn::<_, _, false>(move || rx.recv().unwrap());
        tx.send(7).unwrap();
        let gone = {
            let (tx, rx) = mpsc::sync_channel::<u32, false>(0);
            drop(rx);
            tx.send(1).is_err()
        };
        (t.join().unwrap(), gone)
    };
    assert_eq!(outcomes(&cfg(2), body).0, BTreeSet::from([(7, true)]));
}

#[test]
fn panics_and_scopes() {
    let body = || {
        let m = Arc::new(Mutex::<u32>::new(0));
        let n = m.clone();
        let t = thread::spawn::<_, _, false>(move || {
            let _g = n.lock().unwrap();
            panic!("boo");
        });
        let e = t.join().is_err();
        e && m.is_poisoned()
    };
    let f = explore(&cfg(1), body, |_, _| Ok(())).err().unwrap();
    assert!(f.why.contains("boo"), "{}", f.why);
    let body = || {
        let m = Mutex::<Vec<u32>>::new(vec![]);
        thread::scope(|s| {
            for i in 0..3 {
                let m = &m;
                s.spawn(move || m.lock().unwrap().push(i));
            }
        });
        m.into_inner().unwrap()
    };
    assert_eq!(outcomes(&cfg(3), body).0.len(), 6);
    // an endless loop is noticed
    let c = Config { max_points: 1000, ..cfg(0) };
    let body = || {
        let a = AtomicBool::new(false);
        while !a.load(Ordering::SeqCst) {}
    };
    assert!(explore(&c, body, |_, _| Ok(())).err().unwrap().why.contains("no end"));
    // a fair one is not endless
    let body = || {
        let a = Arc::new(AtomicBool::new(false));
        let b = a.clone();
        let t = thread::spawn::<_, _, false>(move || b.store(true, Ordering::SeqCst));
        while !a.load(Ordering::SeqCst) {
            thread::yield_now();
        }
        t.join().unwrap();
    };
    assert!(explore(&cfg(1), body, |_, _| Ok(())).is_ok());
    // a lock that is only tried may be found held
    let body = || {
        let m = Arc::new(Mutex::<u32>::new(0));
        let n = m.clone();
        let t = thread::spawn::<_, _, false>(move || *n.lock().unwrap() = 1);
        let r = m.try_lock().map(|g| *g).ok();
        t.join().unwrap();
        r
    };
    assert_eq!(outcomes(&cfg(2), body).0.len(), 3);
}

/// a bound on switches to other than the first thread
#[test]
fn switches() {
    let body = || {
        let m = Arc::new(Mutex::<Vec<u32>>::new(vec![]));
        let hs: Vec<_> = (0..3)
            .map(|i| {
                let m = m.clone();
                thread::spawn::<_, _, false>(move || m.lock().unwrap().push(i))
            })
            .collect();
        for h in hs {
            h.join().unwrap();
        }
        let r = m.lock().unwrap().clone();
        r
    };
    let orders = |switches| outcomes(&Config { switches, ..cfg(0) }, body).0.len();
    assert_eq!(orders(u8::MAX), 6);
    assert_eq!(orders(0), 1);
    assert!((2..6).contains(&orders(1)));
}

/// every controlled thread has its own values, gone when it ends, new in each execution
#[test]
fn locals() {
    static DROPPED: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
    struct D(std::cell::Cell<u32>);
    impl Drop for D {
        fn drop(&mut self) {
            DROPPED.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        }
    }
    static L: crate::tls::LocalKey<D> = crate::tls::LocalKey::new(|| D(std::cell::Cell::new(5)));
    let body = || {
        let m = Arc::new(Mutex::<u32>::new(0));
        let n = m.clone();
        let bump = || L.with(|d| { d.0.set(d.0.get() + 1); d.0.get() });
        let t = thread::spawn::<_, _, false>(move || {
            bump();
            let _g = n.lock();
            bump()
        });
        bump();
        drop(m.lock());
        (bump(), t.join().unwrap())
    };
    let (o, r) = outcomes(&cfg(3), body);
    assert_eq!(o.into_iter().collect::<Vec<_>>(), [(7, 7)]);
    assert_eq!(DROPPED.load(std::sync::atomic::Ordering::Relaxed) as u64, 2 * r);
}

#[test]
fn once_lock() {
    use crate::once::{LazyLock, Once, OnceLock};
    // exactly one initialisation, and whoever asks sees it; the first in the flow of one of the two
    let body = || {
        let a = Arc::new((OnceLock::<usize>::new(), AtomicUsize::new(0)));
        let b = a.clone();
        let t = thread::spawn::<_, _, false>(move || {
            *b.0.get_or_init(|| {
                b.1.fetch_add(1, Ordering::SeqCst);
                1
            })
        });
        let x = *a.0.get_or_init(|| {
            a.1.fetch_add(1, Ordering::SeqCst);
            2
        });
        let y = t.join().unwrap();
        (x, y, a.1.load(Ordering::SeqCst), a.0.set(3).is_err())
    };
    assert_eq!(outcomes(&cfg(2), body).0, BTreeSet::from([(1, 1, 1, true), (2, 2, 1, true)]));
    let body = || {
        let a = Arc::new((Once::new(), Mutex::<usize>::new(0)));
        let b = a.clone();
        let t = thread::spawn::<_, _, false>(move || b.0.call_once(|| *b.1.lock().unwrap() += 1));
        let before = a.0.is_completed();
        a.0.call_once(|| *a.1.lock().unwrap() += 10);
        t.join().unwrap();
        let n = *a.1.lock().unwrap();
        (before, n)
    };
    assert_eq!(outcomes(&cfg(2), body).0, BTreeSet::from([(false, 1), (false, 10), (true, 1)]));
    let l = LazyLock::new(|| 7);
    assert_eq!((*l, format!("{l:?}")), (7, "LazyLock(7)".into()));
    let mut o = OnceLock::from(String::from("x"));
    assert_eq!((o.take(), o.get().is_none()), (Some("x".into()), true));
}

/// something static, initialised by the first execution, with a lock inside
#[test]
fn first_execution_differs() {
    use crate::once::LazyLock;
    static N: Mutex<usize> = Mutex::new(0);
    static L: LazyLock<usize> = LazyLock::new(|| {
        *N.lock().unwrap() += 1;
        *N.lock().unwrap()
    });
    let body = || {
        let t = thread::spawn::<_, _, false>(|| *L);
        let v = *L + t.join().unwrap();
        let a = Arc::new(AtomicUsize::new(0));
        let b = a.clone();
        let t = thread::spawn::<_, _, false>(move || b.store(1, Ordering::SeqCst));
        let x = a.load(Ordering::SeqCst);
        t.join().unwrap();
        (v, x)
    };
    let (o, r) = report(&cfg(2), body);
    assert_eq!(o, BTreeSet::from([(2, 0), (2, 1)]));
    assert!(!r.unstable && !r.capped, "{r:?}");
    // something different each time
    let body = || {
        let mut g = N.lock().unwrap();
        *g += 1;
        let n = *g;
        drop(g);
        let ts: Vec<_> = (0..n % 3).map(|_| thread::spawn::<_, _, false>(thread::yield_now)).collect();
        ts.into_iter().for_each(|t| t.join().unwrap());
    };
    let (_, r) = report(&cfg(2), body);
    assert!(r.unstable && r.capped, "{r:?}");
}
