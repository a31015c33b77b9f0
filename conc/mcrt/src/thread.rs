//! Stand-ins for `std::thread`.
use std::{
    cell::{Cell, UnsafeCell},
    fmt, io,
    num::NonZeroUsize,
    panic::{self, AssertUnwindSafe},
    sync::Arc,
    time::Duration,
};

pub use std::thread::Result;

use crate::{block, ex, point, token};

struct Packet<T> {
    done: Cell<bool>,
    value: UnsafeCell<Option<Result<T>>>,
}
unsafe impl<T> Send for Packet<T> {}
unsafe impl<T> Sync for Packet<T> {}

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
pub struct ThreadId(usize);
impl fmt::Debug for ThreadId {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "ThreadId({})", self.0 + 1)
    }
}

#[derive(Clone)]
pub struct Thread {
    id: usize,
    name: Option<String>,
}
impl Thread {
    pub fn id(&self) -> ThreadId {
        ThreadId(self.id)
    }
    pub fn name(&self) -> Option<&str> {
        self.name.as_deref()
    }
    pub fn unpark(&self) {
        point();
        *token(self.id) = true;
    }
}
impl fmt::Debug for Thread {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "Thread {{ id: {} }}", self.id)
    }
}

pub fn current() -> Thread {
    let id = crate::current();
    Thread { id, name: if id == 0 { Some("main".into()) } else { crate::thread_name(id) } }
}

pub struct JoinHandle<T, const Q: bool = false> {
    p: Arc<Packet<T>>,
    t: Thread,
}
unsafe impl<T, const Q: bool> Send for JoinHandle<T, Q> {}
unsafe impl<T, const Q: bool> Sync for JoinHandle<T, Q> {}

impl<T, const Q: bool> JoinHandle<T, Q> {
    pub fn join(self) -> Result<T> {
        join(&self.p, Q)
    }
    pub fn thread(&self) -> &Thread {
        &self.t
    }
    pub fn is_finished(&self) -> bool {
        point();
        self.p.done.get()
    }
}
impl<T, const Q: bool> fmt::Debug for JoinHandle<T, Q> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("JoinHandle { .. }")
    }
}

fn join<T>(p: &Packet<T>, q: bool) -> Result<T> {
    if !q {
        point();
    }
    while !p.done.get() {
        block(&|| p.done.get(), u64::MAX, false);
    }
    unsafe { (*p.value.get()).take().expect("joined twice") }
}

fn launch<'a, T: 'a>(
    f: impl FnOnce() -> T + 'a,
    name: Option<String>,
    pooled: bool,
    detached: bool,
    at_end: impl FnOnce() + 'a,
) -> (Arc<Packet<T>>, Thread) {
    let p = Arc::new(Packet { done: Cell::new(false), value: UnsafeCell::new(None) });
    let q = p.clone();
    let g: Box<dyn FnOnce() + 'a> = Box::new(move || {
        let r = panic::catch_unwind(AssertUnwindSafe(f));
        if let Err(x) = &r {
            let e = ex().unwrap();
            let msg = format!("thread {}: {}", e.current, crate::text(x));
            e.stats.panics.push(msg);
        }
        unsafe { *q.value.get() = Some(r) };
        q.done.set(true);
        at_end();
    });
    let g: Box<dyn FnOnce() + 'static> = unsafe { std::mem::transmute(g) };
    let id = crate::start(g, name.clone(), pooled, detached);
    (p, Thread { id, name })
}

pub fn spawn<F, T, const Q: bool>(f: F) -> JoinHandle<T, Q>
where
    F: FnOnce() -> T + Send + 'static,
    T: Send + 'static,
{
    let (p, t) = launch(f, None, Q, !Q, || {});
    JoinHandle { p, t }
}

#[derive(Debug, Default)]
pub struct Builder {
    name: Option<String>,
}
impl Builder {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn name(mut self, n: String) -> Self {
        self.name = Some(n);
        self
    }
    pub fn stack_size(self, _: usize) -> Self {
        self
    }
    pub fn spawn<F, T>(self, f: F) -> io::Result<JoinHandle<T>>
    where
        F: FnOnce() -> T + Send + 'static,
        T: Send + 'static,
    {
        let (p, t) = launch(f, self.name, false, true, || {});
        Ok(JoinHandle { p, t })
    }
    pub fn spawn_scoped<'scope, 'env, F, T>(
        self,
        s: &'scope Scope<'scope, 'env>,
        f: F,
    ) -> io::Result<ScopedJoinHandle<'scope, T>>
    where
        F: FnOnce() -> T + Send + 'scope,
        T: Send + 'scope,
    {
        Ok(s.go(f, self.name))
    }
}

pub struct Scope<'scope, 'env: 'scope> {
    running: Arc<Cell2>,
    _s: std::marker::PhantomData<&'scope mut &'scope ()>,
    _e: std::marker::PhantomData<&'env mut &'env ()>,
}
struct Cell2 {
    n: Cell<usize>,
    panicked: Cell<bool>,
}
unsafe impl Send for Cell2 {}
unsafe impl Sync for Cell2 {}

pub struct ScopedJoinHandle<'scope, T> {
    p: Arc<Packet<T>>,
    t: Thread,
    _s: std::marker::PhantomData<&'scope ()>,
}
impl<T> ScopedJoinHandle<'_, T> {
    pub fn join(self) -> Result<T> {
        join(&self.p, false)
    }
    pub fn thread(&self) -> &Thread {
        &self.t
    }
    pub fn is_finished(&self) -> bool {
        point();
        self.p.done.get()
    }
}
impl<'scope> Scope<'scope, '_> {
    fn go<F, T>(&'scope self, f: F, name: Option<String>) -> ScopedJoinHandle<'scope, T>
    where
        F: FnOnce() -> T + Send + 'scope,
        T: Send + 'scope,
    {
        let c = self.running.clone();
        let d = c.clone();
        c.n.set(c.n.get() + 1);
        let g = move || {
            struct Mark(Arc<Cell2>);
            impl Drop for Mark {
                fn drop(&mut self) {
                    if std::thread::panicking() {
                        self.0.panicked.set(true);
                    }
                }
            }
            let _m = Mark(c);
            f()
        };
        let (p, t) = launch(g, name, false, false, move || d.n.set(d.n.get() - 1));
        ScopedJoinHandle { p, t, _s: std::marker::PhantomData }
    }
    pub fn spawn<F, T>(&'scope self, f: F) -> ScopedJoinHandle<'scope, T>
    where
        F: FnOnce() -> T + Send + 'scope,
        T: Send + 'scope,
    {
        self.go(f, None)
    }
}

pub fn scope<'env, F, T>(f: F) -> T
where
    F: for<'scope> FnOnce(&'scope Scope<'scope, 'env>) -> T,
{
    let s = Scope {
        running: Arc::new(Cell2 { n: Cell::new(0), panicked: Cell::new(false) }),
        _s: std::marker::PhantomData,
        _e: std::marker::PhantomData,
    };
    let run = s.running.clone();
    let r = panic::catch_unwind(AssertUnwindSafe(|| f(&s)));
    while run.n.get() > 0 {
        block(&|| run.n.get() == 0, u64::MAX, false);
    }
    match r {
        Err(e) => panic::resume_unwind(e),
        Ok(_) if run.panicked.get() => panic!("a scoped thread panicked"),
        Ok(v) => v,
    }
}

pub fn sleep(d: Duration) {
    let end = (crate::now() as u128 + d.as_nanos()).min(u64::MAX as u128) as u64;
    point();
    while crate::now() < end {
        block(&|| false, end, false);
    }
}
pub fn yield_now() {
    crate::yield_now()
}
pub fn park() {
    point();
    let id = crate::current();
    let t: *const bool = token(id);
    if !unsafe { *t } {
        // may return spuriously
        park_until(id, u64::MAX);
    }
    *token(id) = false;
}
pub fn park_timeout(d: Duration) {
    point();
    let id = crate::current();
    let end = (crate::now() as u128 + d.as_nanos()).min(u64::MAX as u128) as u64;
    if !*token(id) {
        park_until(id, end);
    }
    *token(id) = false;
}
fn park_until(id: usize, end: u64) {
    block(&|| *token(id), end, true);
}
pub fn panicking() -> bool {
    std::thread::panicking()
}
pub fn available_parallelism() -> io::Result<NonZeroUsize> {
    Ok(NonZeroUsize::new(4).unwrap())
}
