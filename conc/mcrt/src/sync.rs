//! Stand-ins for `std::sync`. `Q`: used by the thread pool; such operations block, but
//! offer no points of their own.
use std::{
    cell::{Cell, UnsafeCell},
    fmt,
    ops::{Deref, DerefMut},
    sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst},
    time::Duration,
};

pub use std::sync::{LockResult, PoisonError, TryLockError, TryLockResult};

use crate::{block, now, point, point_release, point_try};

pub struct Mutex<T: ?Sized, const Q: bool = false> {
    locked: AtomicBool,
    poison: AtomicBool,
    data: UnsafeCell<T>,
}
unsafe impl<T: ?Sized + Send, const Q: bool> Send for Mutex<T, Q> {}
unsafe impl<T: ?Sized + Send, const Q: bool> Sync for Mutex<T, Q> {}
impl<T: ?Sized, const Q: bool> std::panic::UnwindSafe for Mutex<T, Q> {}
impl<T: ?Sized, const Q: bool> std::panic::RefUnwindSafe for Mutex<T, Q> {}

#[must_use]
pub struct MutexGuard<'a, T: ?Sized, const Q: bool = false> {
    m: &'a Mutex<T, Q>,
    panicking: bool,
    _not_send: std::marker::PhantomData<*const ()>,
}
unsafe impl<T: ?Sized + Sync, const Q: bool> Sync for MutexGuard<'_, T, Q> {}

impl<T, const Q: bool> Mutex<T, Q> {
    pub const fn new(t: T) -> Self {
        Mutex {
            locked: AtomicBool::new(false),
            poison: AtomicBool::new(false),
            data: UnsafeCell::new(t),
        }
    }
    pub fn into_inner(self) -> LockResult<T> {
        let p = self.poison.load(SeqCst);
        let d = self.data.into_inner();
        if p {
            Err(PoisonError::new(d))
        } else {
            Ok(d)
        }
    }
}

impl<T: ?Sized, const Q: bool> Mutex<T, Q> {
    fn guard(&self) -> LockResult<MutexGuard<'_, T, Q>> {
        let g = MutexGuard {
            m: self,
            panicking: std::thread::panicking(),
            _not_send: std::marker::PhantomData,
        };
        if self.poison.load(SeqCst) {
            Err(PoisonError::new(g))
        } else {
            Ok(g)
        }
    }
    fn acquire(&self) {
        while self.locked.load(SeqCst) {
            block(&|| !self.locked.load(SeqCst), u64::MAX, false);
        }
        self.locked.store(true, SeqCst);
    }
    pub fn lock(&self) -> LockResult<MutexGuard<'_, T, Q>> {
        if !Q {
            point();
        }
        self.acquire();
        self.guard()
    }
    pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T, Q>> {
        if !Q {
            point_try();
        }
        if self.locked.load(SeqCst) {
            return Err(TryLockError::WouldBlock);
        }
        self.locked.store(true, SeqCst);
        Ok(self.guard()?)
    }
    pub fn is_poisoned(&self) -> bool {
        self.poison.load(SeqCst)
    }
    pub fn clear_poison(&self) {
        self.poison.store(false, SeqCst)
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        let p = self.poison.load(SeqCst);
        let d = self.data.get_mut();
        if p {
            Err(PoisonError::new(d))
        } else {
            Ok(d)
        }
    }
}
impl<T: Default, const Q: bool> Default for Mutex<T, Q> {
    fn default() -> Self {
        Self::new(T::default())
    }
}
impl<T, const Q: bool> From<T> for Mutex<T, Q> {
    fn from(t: T) -> Self {
        Self::new(t)
    }
}
impl<T: ?Sized + fmt::Debug, const Q: bool> fmt::Debug for Mutex<T, Q> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Mutex { .. }")
    }
}
impl<T: ?Sized, const Q: bool> Deref for MutexGuard<'_, T, Q> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.m.data.get() }
    }
}
impl<T: ?Sized, const Q: bool> DerefMut for MutexGuard<'_, T, Q> {
    fn deref_mut(&mut self) -> &mut T {
        unsafe { &mut *self.m.data.get() }
    }
}
impl<T: ?Sized, const Q: bool> Drop for MutexGuard<'_, T, Q> {
    fn drop(&mut self) {
        if !Q {
            point_release();
        }
        if !self.panicking && std::thread::panicking() {
            self.m.poison.store(true, SeqCst);
        }
        self.m.locked.store(false, SeqCst);
    }
}
impl<T: ?Sized + fmt::Debug, const Q: bool> fmt::Debug for MutexGuard<'_, T, Q> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}
impl<T: ?Sized + fmt::Display, const Q: bool> fmt::Display for MutexGuard<'_, T, Q> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct WaitTimeoutResult(bool);
impl WaitTimeoutResult {
    pub fn timed_out(&self) -> bool {
        self.0
    }
}

/// the flags of the waiting threads, in the order they came
#[derive(Default)]
pub struct Condvar {
    waiting: UnsafeCell<Vec<*const Cell<bool>>>,
}
unsafe impl Send for Condvar {}
unsafe impl Sync for Condvar {}
impl std::panic::UnwindSafe for Condvar {}
impl std::panic::RefUnwindSafe for Condvar {}
impl fmt::Debug for Condvar {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Condvar { .. }")
    }
}

fn deadline(d: Duration) -> u64 {
    // the maximum means never
    (now() as u128 + d.as_nanos()).min(u64::MAX as u128) as u64
}

impl Condvar {
    pub const fn new() -> Self {
        Condvar { waiting: UnsafeCell::new(Vec::new()) }
    }
    #[allow(clippy::mut_from_ref)]
    fn list(&self) -> &mut Vec<*const Cell<bool>> {
        unsafe { &mut *self.waiting.get() }
    }
    /// true if woken by a notification
    fn sleep<'a, T: ?Sized, const Q: bool>(
        &self,
        g: MutexGuard<'a, T, Q>,
        deadline: u64,
    ) -> (LockResult<MutexGuard<'a, T, Q>>, bool) {
        // between looking at the condition and waiting for it; matters if the condition
        // changes without the lock
        point();
        let m = g.m;
        drop(g);
        let woken = Cell::new(false);
        self.list().push(&woken);
        block(&|| woken.get(), deadline, true);
        let p: *const Cell<bool> = &woken;
        self.list().retain(|q| *q != p);
        m.acquire();
        (m.guard(), woken.get())
    }
    pub fn wait<'a, T: ?Sized, const Q: bool>(
        &self,
        g: MutexGuard<'a, T, Q>,
    ) -> LockResult<MutexGuard<'a, T, Q>> {
        self.sleep(g, u64::MAX).0
    }
    pub fn wait_while<'a, T: ?Sized, F: FnMut(&mut T) -> bool, const Q: bool>(
        &self,
        mut g: MutexGuard<'a, T, Q>,
        mut condition: F,
    ) -> LockResult<MutexGuard<'a, T, Q>> {
        while condition(&mut *g) {
            g = self.wait(g)?;
        }
        Ok(g)
    }
    pub fn wait_timeout<'a, T: ?Sized, const Q: bool>(
        &self,
        g: MutexGuard<'a, T, Q>,
        dur: Duration,
    ) -> LockResult<(MutexGuard<'a, T, Q>, WaitTimeoutResult)> {
        let d = deadline(dur);
        let (r, woken) = self.sleep(g, d);
        let t = WaitTimeoutResult(!woken && now() >= d);
        match r {
            Ok(g) => Ok((g, t)),
            Err(e) => Err(PoisonError::new((e.into_inner(), t))),
        }
    }
    pub fn wait_timeout_ms<'a, T: ?Sized, const Q: bool>(
        &self,
        g: MutexGuard<'a, T, Q>,
        ms: u32,
    ) -> LockResult<(MutexGuard<'a, T, Q>, bool)> {
        match self.wait_timeout(g, Duration::from_millis(ms as u64)) {
            Ok((g, t)) => Ok((g, !t.timed_out())),
            Err(e) => {
                let (g, t) = e.into_inner();
                Err(PoisonError::new((g, !t.timed_out())))
            },
        }
    }
    pub fn wait_timeout_while<'a, T: ?Sized, F: FnMut(&mut T) -> bool, const Q: bool>(
        &self,
        mut g: MutexGuard<'a, T, Q>,
        dur: Duration,
        mut condition: F,
    ) -> LockResult<(MutexGuard<'a, T, Q>, WaitTimeoutResult)> {
        let d = deadline(dur);
        loop {
            if !condition(&mut *g) {
                return Ok((g, WaitTimeoutResult(false)));
            }
            if now() >= d {
                return Ok((g, WaitTimeoutResult(true)));
            }
            let (r, _) = self.sleep(g, d);
            g = match r {
                Ok(g) => g,
                Err(e) => return Err(PoisonError::new((e.into_inner(), WaitTimeoutResult(false)))),
            };
        }
    }
    pub fn notify_one(&self) {
        point();
        let l = self.list();
        if !l.is_empty() {
            let i = if l.len() > 1 { crate::choose_free(l.len()) } else { 0 };
            let p = l.remove(i);
            unsafe { (*p).set(true) };
        }
    }
    pub fn notify_all(&self) {
        point();
        for p in self.list().drain(..) {
            unsafe { (*p).set(true) };
        }
    }
}

pub struct RwLock<T: ?Sized> {
    readers: AtomicUsize,
    writer: AtomicBool,
    poison: AtomicBool,
    data: UnsafeCell<T>,
}
unsafe impl<T: ?Sized + Send> Send for RwLock<T> {}
unsafe impl<T: ?Sized + Send + Sync> Sync for RwLock<T> {}
impl<T: ?Sized> std::panic::UnwindSafe for RwLock<T> {}
impl<T: ?Sized> std::panic::RefUnwindSafe for RwLock<T> {}
#[must_use]
pub struct RwLockReadGuard<'a, T: ?Sized>(&'a RwLock<T>, std::marker::PhantomData<*const ()>);
#[must_use]
pub struct RwLockWriteGuard<'a, T: ?Sized>(&'a RwLock<T>, bool, std::marker::PhantomData<*const ()>);
unsafe impl<T: ?Sized + Sync> Sync for RwLockReadGuard<'_, T> {}
unsafe impl<T: ?Sized + Sync> Sync for RwLockWriteGuard<'_, T> {}
impl<T> RwLock<T> {
    pub const fn new(t: T) -> Self {
        RwLock {
            readers: AtomicUsize::new(0),
            writer: AtomicBool::new(false),
            poison: AtomicBool::new(false),
            data: UnsafeCell::new(t),
        }
    }
    pub fn into_inner(self) -> LockResult<T> {
        let p = self.poison.load(SeqCst);
        let d = self.data.into_inner();
        if p {
            Err(PoisonError::new(d))
        } else {
            Ok(d)
        }
    }
}
impl<T: ?Sized> RwLock<T> {
    fn res<G>(&self, g: G) -> LockResult<G> {
        if self.poison.load(SeqCst) {
            Err(PoisonError::new(g))
        } else {
            Ok(g)
        }
    }
    pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
        point();
        while self.writer.load(SeqCst) {
            block(&|| !self.writer.load(SeqCst), u64::MAX, false);
        }
        self.readers.fetch_add(1, SeqCst);
        self.res(RwLockReadGuard(self, std::marker::PhantomData))
    }
    pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
        point();
        let free = || !self.writer.load(SeqCst) && self.readers.load(SeqCst) == 0;
        while !free() {
            block(&free, u64::MAX, false);
        }
        self.writer.store(true, SeqCst);
        self.res(RwLockWriteGuard(self, std::thread::panicking(), std::marker::PhantomData))
    }
    pub fn try_read(&self) -> TryLockResult<RwLockReadGuard<'_, T>> {
        point_try();
        if self.writer.load(SeqCst) {
            return Err(TryLockError::WouldBlock);
        }
        self.readers.fetch_add(1, SeqCst);
        Ok(self.res(RwLockReadGuard(self, std::marker::PhantomData))?)
    }
    pub fn try_write(&self) -> TryLockResult<RwLockWriteGuard<'_, T>> {
        point_try();
        if self.writer.load(SeqCst) || self.readers.load(SeqCst) != 0 {
            return Err(TryLockError::WouldBlock);
        }
        self.writer.store(true, SeqCst);
        Ok(self.res(RwLockWriteGuard(
            self,
            std::thread::panicking(),
            std::marker::PhantomData,
        ))?)
    }
    pub fn is_poisoned(&self) -> bool {
        self.poison.load(SeqCst)
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        let p = self.poison.load(SeqCst);
        let d = self.data.get_mut();
        if p {
            Err(PoisonError::new(d))
        } else {
            Ok(d)
        }
    }
}
impl<T: Default> Default for RwLock<T> {
    fn default() -> Self {
        Self::new(T::default())
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLock<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("RwLock { .. }")
    }
}
impl<T: ?Sized> Deref for RwLockReadGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.0.data.get() }
    }
}
impl<T: ?Sized> Deref for RwLockWriteGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.0.data.get() }
    }
}
impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        unsafe { &mut *self.0.data.get() }
    }
}
impl<T: ?Sized> Drop for RwLockReadGuard<'_, T> {
    fn drop(&mut self) {
        point_release();
        self.0.readers.fetch_sub(1, SeqCst);
    }
}
impl<T: ?Sized> Drop for RwLockWriteGuard<'_, T> {
    fn drop(&mut self) {
        point_release();
        if !self.1 && std::thread::panicking() {
            self.0.poison.store(true, SeqCst);
        }
        self.0.writer.store(false, SeqCst);
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLockReadGuard<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLockWriteGuard<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}

#[derive(Debug)]
pub struct Barrier {
    n: usize,
    state: Mutex<(usize, usize)>,
    cv: Condvar,
}
#[derive(Debug)]
pub struct BarrierWaitResult(bool);
impl BarrierWaitResult {
    pub fn is_leader(&self) -> bool {
        self.0
    }
}
impl Barrier {
    pub const fn new(n: usize) -> Self {
        Barrier { n, state: Mutex::new((0, 0)), cv: Condvar::new() }
    }
    pub fn wait(&self) -> BarrierWaitResult {
        let mut g = self.state.lock().unwrap();
        let generation = g.1;
        g.0 += 1;
        if g.0 < self.n {
            let _g = self.cv.wait_while(g, |s| s.1 == generation).unwrap();
            BarrierWaitResult(false)
        } else {
            g.0 = 0;
            g.1 += 1;
            self.cv.notify_all();
            BarrierWaitResult(true)
        }
    }
}

pub mod atomic {
    use std::fmt;
    pub use std::sync::atomic::Ordering;

    use crate::{point_read, point_write};

    const O: Ordering = Ordering::SeqCst;

    macro_rules! common {
        ($name:ident, $std:ident, $t:ty) => {
            pub struct $name(std::sync::atomic::$std);
            impl $name {
                pub const fn new(v: $t) -> Self {
                    Self(std::sync::atomic::$std::new(v))
                }
                pub fn load(&self, _: Ordering) -> $t {
                    point_read();
                    self.0.load(O)
                }
                pub fn store(&self, v: $t, _: Ordering) {
                    point_write();
                    self.0.store(v, O)
                }
                pub fn swap(&self, v: $t, _: Ordering) -> $t {
                    point_write();
                    self.0.swap(v, O)
                }
                pub fn compare_exchange(
                    &self,
                    a: $t,
                    b: $t,
                    _: Ordering,
                    _: Ordering,
                ) -> Result<$t, $t> {
                    point_write();
                    self.0.compare_exchange(a, b, O, O)
                }
                pub fn compare_exchange_weak(
                    &self,
                    a: $t,
                    b: $t,
                    x: Ordering,
                    y: Ordering,
                ) -> Result<$t, $t> {
                    self.compare_exchange(a, b, x, y)
                }
                #[allow(deprecated)]
                pub fn fetch_update<F: FnMut($t) -> Option<$t>>(
                    &self,
                    _: Ordering,
                    _: Ordering,
                    f: F,
                ) -> Result<$t, $t> {
                    point_write();
                    self.0.fetch_update(O, O, f)
                }
                pub fn get_mut(&mut self) -> &mut $t {
                    self.0.get_mut()
                }
                pub fn into_inner(self) -> $t {
                    self.0.into_inner()
                }
            }
            impl fmt::Debug for $name {
                fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                    self.0.load(O).fmt(f)
                }
            }
            impl From<$t> for $name {
                fn from(v: $t) -> Self {
                    Self::new(v)
                }
            }
        };
    }
    macro_rules! op {
        ($name:ident, $t:ty, $($f:ident)*) => {
            impl $name {
                $(pub fn $f(&self, v: $t, _: Ordering) -> $t {
                    point_write();
                    self.0.$f(v, O)
                })*
            }
            impl Default for $name {
                fn default() -> Self {
                    Self::new(Default::default())
                }
            }
        };
    }
    macro_rules! int {
        ($($name:ident $t:ty,)*) => {$(
            common!($name, $name, $t);
            op!($name, $t, fetch_add fetch_sub fetch_max fetch_min fetch_and fetch_or
                fetch_xor fetch_nand);
        )*};
    }
    int! {
        AtomicUsize usize, AtomicIsize isize, AtomicU64 u64, AtomicI64 i64, AtomicU32 u32,
        AtomicI32 i32, AtomicU16 u16, AtomicI16 i16, AtomicU8 u8, AtomicI8 i8,
    }
    common!(AtomicBool, AtomicBool, bool);
    impl AtomicBool {
        pub fn fetch_not(&self, _: Ordering) -> bool {
            point_write();
            self.0.fetch_not(O)
        }
    }
    op!(AtomicBool, bool, fetch_and fetch_or fetch_xor fetch_nand);

    pub fn fence(_: Ordering) {}
    pub use std::sync::atomic::compiler_fence;
}
