//! Compiled into the crate under test under the name `std`.
pub use ::std::*;

pub mod sync {
    pub use ::std::sync::*;
    pub use mcrt::sync::{
        Barrier, BarrierWaitResult, Condvar, RwLock, RwLockReadGuard, RwLockWriteGuard,
        WaitTimeoutResult,
    };
    pub use mcrt::once::{LazyLock, Once, OnceLock, OnceState};
    pub type Mutex<T> = mcrt::sync::Mutex<T, false>;
    pub type MutexGuard<'a, T> = mcrt::sync::MutexGuard<'a, T, false>;
    pub mod atomic {
        pub use ::std::sync::atomic::*;
        pub use mcrt::sync::atomic::{
            fence, AtomicBool, AtomicI16, AtomicI32, AtomicI64, AtomicI8, AtomicIsize, AtomicU16,
            AtomicU32, AtomicU64, AtomicU8, AtomicUsize,
        };
    }
    pub mod mpsc {
        pub use mcrt::mpsc::{
            Iter, RecvError, RecvTimeoutError, SendError, TryIter, TryRecvError, TrySendError,
        };
        pub type Sender<T> = mcrt::mpsc::Sender<T, false>;
        pub type SyncSender<T> = mcrt::mpsc::SyncSender<T, false>;
        pub type Receiver<T> = mcrt::mpsc::Receiver<T, false>;
        pub fn channel<T>() -> (Sender<T>, Receiver<T>) {
            mcrt::mpsc::channel()
        }
        pub fn sync_channel<T>(cap: usize) -> (SyncSender<T>, Receiver<T>) {
            mcrt::mpsc::sync_channel(cap)
        }
    }
}

pub mod thread {
    pub use mcrt::tls::{AccessError, LocalKey};
    pub use mcrt::thread::{
        available_parallelism, current, panicking, park, park_timeout, scope, sleep, yield_now,
        Builder, Result, Scope, ScopedJoinHandle, Thread, ThreadId,
    };
    pub type JoinHandle<T> = mcrt::thread::JoinHandle<T, false>;
    pub fn spawn<F, T>(f: F) -> JoinHandle<T>
    where
        F: FnOnce() -> T + Send + 'static,
        T: Send + 'static,
    {
        mcrt::thread::spawn(f)
    }
}

pub mod time {
    pub use ::std::time::*;
    pub use mcrt::time::Instant;
}

pub mod hint {
    pub use ::std::hint::*;
    pub fn spin_loop() {
        mcrt::thread::yield_now()
    }
}

#[macro_export]
macro_rules! thread_local {
    () => {};
    ($(#[$a:meta])* $v:vis static $n:ident: $t:ty = const $e:block; $($rest:tt)*) => {
        $crate::thread_local!(@one $(#[$a])* $v $n $t, $e);
        $crate::thread_local!($($rest)*);
    };
    ($(#[$a:meta])* $v:vis static $n:ident: $t:ty = const $e:block) => {
        $crate::thread_local!(@one $(#[$a])* $v $n $t, $e);
    };
    ($(#[$a:meta])* $v:vis static $n:ident: $t:ty = $e:expr; $($rest:tt)*) => {
        $crate::thread_local!(@one $(#[$a])* $v $n $t, $e);
        $crate::thread_local!($($rest)*);
    };
    ($(#[$a:meta])* $v:vis static $n:ident: $t:ty = $e:expr) => {
        $crate::thread_local!(@one $(#[$a])* $v $n $t, $e);
    };
    (@one $(#[$a:meta])* $v:vis $n:ident $t:ty, $e:expr) => {
        $(#[$a])*
        $v static $n: $crate::thread::LocalKey<$t> = {
            fn init() -> $t {
                $e
            }
            $crate::thread::LocalKey::new(init)
        };
    };
}
