//! Stand-ins for `std::sync::{Once, OnceLock, LazyLock}`.
use std::{
    cell::UnsafeCell,
    fmt,
    mem::MaybeUninit,
    ops::Deref,
    panic::{RefUnwindSafe, UnwindSafe},
    sync::atomic::{AtomicU8, Ordering::SeqCst},
};

use crate::{block, point_read, point_write};

const NO: u8 = 0;
const RUNNING: u8 = 1;
const DONE: u8 = 2;
const POISONED: u8 = 3;

pub struct Once(AtomicU8);
pub struct OnceState(bool);
impl OnceState {
    pub fn is_poisoned(&self) -> bool {
        self.0
    }
}
impl fmt::Debug for OnceState {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("OnceState { .. }")
    }
}
impl fmt::Debug for Once {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Once { .. }")
    }
}
impl UnwindSafe for Once {}
impl RefUnwindSafe for Once {}

/// what the state becomes if the initialisation panics
struct Reset<'a>(&'a Once, u8);
impl Drop for Reset<'_> {
    fn drop(&mut self) {
        self.0.0.store(self.1, SeqCst);
    }
}

impl Once {
    #[allow(clippy::new_without_default)]
    pub const fn new() -> Self {
        Once(AtomicU8::new(NO))
    }
    fn done(&self) -> bool {
        self.0.load(SeqCst) == DONE
    }
    /// `broken`: what to become if `f` panics
    fn run(&self, force: bool, broken: u8, f: impl FnOnce(&OnceState)) {
        if self.done() {
            point_read();
            return;
        }
        point_write();
        loop {
            match self.0.load(SeqCst) {
                DONE => return,
                RUNNING => block(&|| self.0.load(SeqCst) != RUNNING, u64::MAX, false),
                POISONED if !force => panic!("Once instance has previously been poisoned"),
                s => {
                    self.0.store(RUNNING, SeqCst);
                    let mut r = Reset(self, broken);
                    f(&OnceState(s == POISONED));
                    r.1 = DONE;
                    return;
                },
            };
        }
    }
    pub fn call_once<F: FnOnce()>(&self, f: F) {
        self.run(false, POISONED, |_| f())
    }
    pub fn call_once_force<F: FnOnce(&OnceState)>(&self, f: F) {
        self.run(true, POISONED, f)
    }
    pub fn is_completed(&self) -> bool {
        point_read();
        self.done()
    }
    pub fn wait(&self) {
        point_read();
        while !self.done() {
            if self.0.load(SeqCst) == POISONED {
                panic!("Once instance has previously been poisoned")
            }
            block(&|| self.0.load(SeqCst) >= DONE, u64::MAX, false);
        }
    }
    pub fn wait_force(&self) {
        point_read();
        while !self.done() {
            block(&|| self.done(), u64::MAX, false);
        }
    }
}

pub struct OnceLock<T> {
    once: Once,
    data: UnsafeCell<MaybeUninit<T>>,
}
unsafe impl<T: Send> Send for OnceLock<T> {}
unsafe impl<T: Send + Sync> Sync for OnceLock<T> {}
impl<T: UnwindSafe> UnwindSafe for OnceLock<T> {}
impl<T: UnwindSafe + RefUnwindSafe> RefUnwindSafe for OnceLock<T> {}

impl<T> OnceLock<T> {
    pub const fn new() -> Self {
        OnceLock { once: Once::new(), data: UnsafeCell::new(MaybeUninit::uninit()) }
    }
    fn peek(&self) -> Option<&T> {
        self.once.done().then(|| unsafe { (*self.data.get()).assume_init_ref() })
    }
    pub fn get(&self) -> Option<&T> {
        point_read();
        self.peek()
    }
    pub fn get_mut(&mut self) -> Option<&mut T> {
        self.once.done().then(|| unsafe { self.data.get_mut().assume_init_mut() })
    }
    pub fn set(&self, t: T) -> Result<(), T> {
        let mut t = Some(t);
        self.get_or_init(|| t.take().unwrap());
        t.map_or(Ok(()), Err)
    }
    pub fn get_or_init<F: FnOnce() -> T>(&self, f: F) -> &T {
        self.once.run(true, NO, |_| unsafe {
            let t = f();
            (*self.data.get()).write(t);
        });
        self.peek().unwrap()
    }
    pub fn wait(&self) -> &T {
        self.once.wait_force();
        self.peek().unwrap()
    }
    pub fn take(&mut self) -> Option<T> {
        if !self.once.done() {
            return None;
        }
        self.once = Once::new();
        Some(unsafe { std::mem::replace(self.data.get_mut(), MaybeUninit::uninit()).assume_init() })
    }
    pub fn into_inner(mut self) -> Option<T> {
        self.take()
    }
}
impl<T> Drop for OnceLock<T> {
    fn drop(&mut self) {
        drop(self.take())
    }
}
impl<T> Default for OnceLock<T> {
    fn default() -> Self {
        Self::new()
    }
}
impl<T: fmt::Debug> fmt::Debug for OnceLock<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let mut d = f.debug_tuple("OnceLock");
        match self.peek() {
            Some(t) => d.field(t),
            None => d.field(&format_args!("<uninit>")),
        };
        d.finish()
    }
}
impl<T: Clone> Clone for OnceLock<T> {
    fn clone(&self) -> Self {
        self.get().cloned().map_or_else(Self::new, Self::from)
    }
}
impl<T> From<T> for OnceLock<T> {
    fn from(t: T) -> Self {
        OnceLock { once: Once(AtomicU8::new(DONE)), data: UnsafeCell::new(MaybeUninit::new(t)) }
    }
}
impl<T: PartialEq> PartialEq for OnceLock<T> {
    fn eq(&self, o: &Self) -> bool {
        self.get() == o.get()
    }
}
impl<T: Eq> Eq for OnceLock<T> {}

pub struct LazyLock<T, F = fn() -> T> {
    value: OnceLock<T>,
    once: Once,
    init: UnsafeCell<Option<F>>,
}
unsafe impl<T: Sync + Send, F: Send> Sync for LazyLock<T, F> {}
impl<T: UnwindSafe, F: UnwindSafe> UnwindSafe for LazyLock<T, F> {}
impl<T: UnwindSafe + RefUnwindSafe, F: UnwindSafe> RefUnwindSafe for LazyLock<T, F> {}

impl<T, F: FnOnce() -> T> LazyLock<T, F> {
    pub const fn new(f: F) -> Self {
        LazyLock { value: OnceLock::new(), once: Once::new(), init: UnsafeCell::new(Some(f)) }
    }
    pub fn force(this: &Self) -> &T {
        this.once.run(false, POISONED, |_| {
            let f = unsafe { (*this.init.get()).take().unwrap() };
            let t = f();
            unsafe { (*this.value.data.get()).write(t) };
            this.value.once.0.store(DONE, SeqCst);
        });
        this.value.peek().unwrap()
    }
}
impl<T, F: FnOnce() -> T> Deref for LazyLock<T, F> {
    type Target = T;
    fn deref(&self) -> &T {
        Self::force(self)
    }
}
impl<T: Default> Default for LazyLock<T> {
    fn default() -> Self {
        Self::new(T::default)
    }
}
impl<T: fmt::Debug, F> fmt::Debug for LazyLock<T, F> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let mut d = f.debug_tuple("LazyLock");
        match self.value.peek() {
            Some(t) => d.field(t),
            None => d.field(&format_args!("<uninit>")),
        };
        d.finish()
    }
}
