//! Stand-ins for `std::sync::mpsc`.
use std::{
    cell::UnsafeCell,
    collections::VecDeque,
    fmt,
    sync::{
        atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst},
        Arc,
    },
    time::Duration,
};

pub use std::sync::mpsc::{
    RecvError, RecvTimeoutError, SendError, TryRecvError, TrySendError,
};

use crate::{block, now, point};

struct Chan<T> {
    q: UnsafeCell<VecDeque<T>>,
    senders: AtomicUsize,
    receiver: AtomicBool,
    sent: AtomicUsize,
    taken: AtomicUsize,
    cap: Option<usize>,
}
unsafe impl<T: Send> Send for Chan<T> {}
unsafe impl<T: Send> Sync for Chan<T> {}
impl<T> Chan<T> {
    #[allow(clippy::mut_from_ref)]
    fn q(&self) -> &mut VecDeque<T> {
        unsafe { &mut *self.q.get() }
    }
    fn new(cap: Option<usize>) -> Arc<Self> {
        Arc::new(Chan {
            q: UnsafeCell::new(VecDeque::new()),
            senders: AtomicUsize::new(1),
            receiver: AtomicBool::new(true),
            sent: AtomicUsize::new(0),
            taken: AtomicUsize::new(0),
            cap,
        })
    }
    fn push(&self, t: T) -> usize {
        self.q().push_back(t);
        self.sent.fetch_add(1, SeqCst) + 1
    }
}

pub struct Sender<T, const Q: bool = false>(Arc<Chan<T>>);
pub struct SyncSender<T, const Q: bool = false>(Arc<Chan<T>>);
pub struct Receiver<T, const Q: bool = false>(Arc<Chan<T>>, std::marker::PhantomData<std::cell::Cell<()>>);
unsafe impl<T: Send, const Q: bool> Send for Receiver<T, Q> {}

pub fn channel<T, const Q: bool>() -> (Sender<T, Q>, Receiver<T, Q>) {
    let c = Chan::new(None);
    (Sender(c.clone()), Receiver(c, std::marker::PhantomData))
}
pub fn sync_channel<T, const Q: bool>(cap: usize) -> (SyncSender<T, Q>, Receiver<T, Q>) {
    let c = Chan::new(Some(cap));
    (SyncSender(c.clone()), Receiver(c, std::marker::PhantomData))
}

impl<T, const Q: bool> Sender<T, Q> {
    pub fn send(&self, t: T) -> Result<(), SendError<T>> {
        if !Q {
            point();
        }
        if !self.0.receiver.load(SeqCst) {
            return Err(SendError(t));
        }
        self.0.push(t);
        Ok(())
    }
}
impl<T, const Q: bool> SyncSender<T, Q> {
    pub fn send(&self, t: T) -> Result<(), SendError<T>> {
        if !Q {
            point();
        }
        let c = &self.0;
        let cap = c.cap.unwrap();
        if cap > 0 {
            let room = || !c.receiver.load(SeqCst) || c.q().len() < cap;
            while !room() {
                block(&room, u64::MAX, false);
            }
        }
        if !c.receiver.load(SeqCst) {
            return Err(SendError(t));
        }
        let ticket = c.push(t);
        if cap == 0 {
            let met = || !c.receiver.load(SeqCst) || c.taken.load(SeqCst) >= ticket;
            while !met() {
                block(&met, u64::MAX, false);
            }
            if c.taken.load(SeqCst) < ticket {
                // the receiver went away without taking it
                return Err(SendError(c.q().pop_front().unwrap()));
            }
        }
        Ok(())
    }
    pub fn try_send(&self, t: T) -> Result<(), TrySendError<T>> {
        if !Q {
            point();
        }
        let c = &self.0;
        if !c.receiver.load(SeqCst) {
            return Err(TrySendError::Disconnected(t));
        }
        if c.q().len() >= c.cap.unwrap() {
            return Err(TrySendError::Full(t));
        }
        c.push(t);
        Ok(())
    }
}
impl<T, const Q: bool> Receiver<T, Q> {
    fn take(&self) -> Option<T> {
        let t = self.0.q().pop_front();
        if t.is_some() {
            self.0.taken.fetch_add(1, SeqCst);
        }
        t
    }
    pub fn recv(&self) -> Result<T, RecvError> {
        if !Q {
            point();
        }
        let c = &self.0;
        let ready = || !c.q().is_empty() || c.senders.load(SeqCst) == 0;
        while !ready() {
            block(&ready, u64::MAX, false);
        }
        self.take().ok_or(RecvError)
    }
    pub fn try_recv(&self) -> Result<T, TryRecvError> {
        if !Q {
            point();
        }
        match self.take() {
            Some(t) => Ok(t),
            None if self.0.senders.load(SeqCst) == 0 => Err(TryRecvError::Disconnected),
            None => Err(TryRecvError::Empty),
        }
    }
    pub fn recv_timeout(&self, d: Duration) -> Result<T, RecvTimeoutError> {
        if !Q {
            point();
        }
        let c = &self.0;
        let end = (now() as u128 + d.as_nanos()).min(u64::MAX as u128) as u64;
        let ready = || !c.q().is_empty() || c.senders.load(SeqCst) == 0;
        while !ready() && now() < end {
            block(&ready, end, false);
        }
        match self.take() {
            Some(t) => Ok(t),
            None if c.senders.load(SeqCst) == 0 => Err(RecvTimeoutError::Disconnected),
            None => Err(RecvTimeoutError::Timeout),
        }
    }
    pub fn iter(&self) -> Iter<'_, T, Q> {
        Iter(self)
    }
    pub fn try_iter(&self) -> TryIter<'_, T, Q> {
        TryIter(self)
    }
}
pub struct Iter<'a, T, const Q: bool>(&'a Receiver<T, Q>);
impl<T, const Q: bool> Iterator for Iter<'_, T, Q> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.0.recv().ok()
    }
}
pub struct TryIter<'a, T, const Q: bool>(&'a Receiver<T, Q>);
impl<T, const Q: bool> Iterator for TryIter<'_, T, Q> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.0.try_recv().ok()
    }
}
pub struct IntoIter<T, const Q: bool>(Receiver<T, Q>);
impl<T, const Q: bool> Iterator for IntoIter<T, Q> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.0.recv().ok()
    }
}
impl<T, const Q: bool> IntoIterator for Receiver<T, Q> {
    type Item = T;
    type IntoIter = IntoIter<T, Q>;
    fn into_iter(self) -> Self::IntoIter {
        IntoIter(self)
    }
}
impl<'a, T, const Q: bool> IntoIterator for &'a Receiver<T, Q> {
    type Item = T;
    type IntoIter = Iter<'a, T, Q>;
    fn into_iter(self) -> Self::IntoIter {
        self.iter()
    }
}
impl<T, const Q: bool> Clone for Sender<T, Q> {
    fn clone(&self) -> Self {
        self.0.senders.fetch_add(1, SeqCst);
        Sender(self.0.clone())
    }
}
impl<T, const Q: bool> Clone for SyncSender<T, Q> {
    fn clone(&self) -> Self {
        self.0.senders.fetch_add(1, SeqCst);
        SyncSender(self.0.clone())
    }
}
impl<T, const Q: bool> Drop for Sender<T, Q> {
    fn drop(&mut self) {
        self.0.senders.fetch_sub(1, SeqCst);
    }
}
impl<T, const Q: bool> Drop for SyncSender<T, Q> {
    fn drop(&mut self) {
        self.0.senders.fetch_sub(1, SeqCst);
    }
}
impl<T, const Q: bool> Drop for Receiver<T, Q> {
    fn drop(&mut self) {
        self.0.receiver.store(false, SeqCst);
        if self.0.cap != Some(0) {
            let q = std::mem::take(self.0.q());
            drop(q);
        }
    }
}
impl<T, const Q: bool> fmt::Debug for Sender<T, Q> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Sender { .. }")
    }
}
impl<T, const Q: bool> fmt::Debug for SyncSender<T, Q> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("SyncSender { .. }")
    }
}
impl<T, const Q: bool> fmt::Debug for Receiver<T, Q> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Receiver { .. }")
    }
}
