//! Compiled into the thread pool under the name `std`: blocks under the controlled
//! scheduler, but offers no points of its own.
pub use ::std::*;

pub mod sync {
    pub use ::std::sync::*;
    pub type Mutex<T> = mcrt::sync::Mutex<T, true>;
    pub type MutexGuard<'a, T> = mcrt::sync::MutexGuard<'a, T, true>;
    pub mod mpsc {
        pub use mcrt::mpsc::{RecvError, SendError, TryRecvError};
        pub type Sender<T> = mcrt::mpsc::Sender<T, true>;
        pub type SyncSender<T> = mcrt::mpsc::SyncSender<T, true>;
        pub type Receiver<T> = mcrt::mpsc::Receiver<T, true>;
        pub fn channel<T>() -> (Sender<T>, Receiver<T>) {
            mcrt::mpsc::channel()
        }
        pub fn sync_channel<T>(cap: usize) -> (SyncSender<T>, Receiver<T>) {
            mcrt::mpsc::sync_channel(cap)
        }
    }
}

pub mod thread {
    pub use mcrt::thread::{current, panicking, sleep, yield_now, Result, Thread};
    pub type JoinHandle<T> = mcrt::thread::JoinHandle<T, true>;
    pub fn spawn<F, T>(f: F) -> JoinHandle<T>
    where
        F: FnOnce() -> T + Send + 'static,
        T: Send + 'static,
    {
        mcrt::thread::spawn(f)
    }
}
