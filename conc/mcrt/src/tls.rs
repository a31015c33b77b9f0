//! Stand-in for `std::thread::LocalKey`: values per controlled thread.
use std::{
    any::Any,
    cell::{Cell, RefCell},
    collections::HashMap,
    fmt,
};

use crate::ex;

/// The values of one thread, in the order of their creation.
#[derive(Default)]
pub(crate) struct Locals(Vec<(usize, Box<dyn Any>)>);

thread_local! {
    /// of real threads, outside of an execution
    static OUTSIDE: RefCell<HashMap<usize, Box<dyn Any>>> = RefCell::default();
}

impl Locals {
    fn get(&self, key: usize) -> Option<*const ()> {
        self.0.iter().find(|(k, _)| *k == key).map(|(_, b)| &**b as *const dyn Any as *const ())
    }
}

/// Drop the values of the running thread, which ends now.
pub(crate) fn end_of_thread() {
    loop {
        let e = ex().unwrap();
        let cur = e.current;
        match e.threads[cur].locals.0.pop() {
            Some(x) => drop(x),
            None => return,
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq)]
pub struct AccessError;
impl fmt::Debug for AccessError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("AccessError")
    }
}
impl fmt::Display for AccessError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("already destroyed")
    }
}
impl std::error::Error for AccessError {}

pub struct LocalKey<T: 'static> {
    init: fn() -> T,
}
impl<T: 'static> LocalKey<T> {
    #[doc(hidden)]
    pub const fn new(init: fn() -> T) -> Self {
        Self { init }
    }

    fn pointer(&'static self) -> *const T {
        let key = self as *const Self as usize;
        if let Some(e) = ex() {
            let cur = e.current;
            if let Some(p) = e.threads[cur].locals.get(key) {
                return p.cast();
            }
            let b: Box<dyn Any> = Box::new((self.init)());
            let e = ex().unwrap();
            let l = &mut e.threads[cur].locals;
            l.0.push((key, b));
            l.get(key).unwrap().cast()
        } else {
            if let Some(p) = OUTSIDE.with(|o| {
                o.borrow().get(&key).map(|b| &**b as *const dyn Any as *const T)
            }) {
                return p;
            }
            let b: Box<dyn Any> = Box::new((self.init)());
            let p = &*b as *const dyn Any as *const T;
            OUTSIDE.with(|o| o.borrow_mut().insert(key, b));
            p
        }
    }

    pub fn with<F, R>(&'static self, f: F) -> R
    where
        F: FnOnce(&T) -> R,
    {
        // lives in a box until the thread ends
        f(unsafe { &*self.pointer() })
    }
    pub fn try_with<F, R>(&'static self, f: F) -> Result<R, AccessError>
    where
        F: FnOnce(&T) -> R,
    {
        Ok(self.with(f))
    }
}
impl<T: 'static> LocalKey<Cell<T>> {
    pub fn set(&'static self, value: T) {
        self.with(|c| c.set(value))
    }
    pub fn get(&'static self) -> T
    where
        T: Copy,
    {
        self.with(|c| c.get())
    }
    pub fn take(&'static self) -> T
    where
        T: Default,
    {
        self.with(|c| c.take())
    }
    pub fn replace(&'static self, value: T) -> T {
        self.with(|c| c.replace(value))
    }
}
impl<T: 'static> LocalKey<RefCell<T>> {
    pub fn with_borrow<F, R>(&'static self, f: F) -> R
    where
        F: FnOnce(&T) -> R,
    {
        self.with(|c| f(&c.borrow()))
    }
    pub fn with_borrow_mut<F, R>(&'static self, f: F) -> R
    where
        F: FnOnce(&mut T) -> R,
    {
        self.with(|c| f(&mut c.borrow_mut()))
    }
    pub fn set(&'static self, value: T) {
        self.with(|c| *c.borrow_mut() = value)
    }
    pub fn take(&'static self) -> T
    where
        T: Default,
    {
        self.with(|c| c.take())
    }
    pub fn replace(&'static self, value: T) -> T {
        self.with(|c| c.replace(value))
    }
}
impl<T: 'static> fmt::Debug for LocalKey<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("LocalKey { .. }")
    }
}
