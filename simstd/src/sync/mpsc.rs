//! Channels scheduled by the simulator.
pub use std::sync::mpsc::{RecvError, RecvTimeoutError, SendError, TryRecvError, TrySendError};
use super::real;
use simcore::sched::{self, Vc};
use std::collections::VecDeque;
use std::sync::{Arc, Mutex as Real};
use std::time::Duration;

struct St<T> {
    q: VecDeque<(T, Vc, u64)>,
    senders: usize,
    receiver: bool,
    cap: Option<usize>,
    sent: u64,
    taken: u64,
}
struct Chan<T> {
    st: Real<St<T>>,
    res: u64,
}
impl<T> Chan<T> {
    fn changed(&self) {
        sched::wake(self.res);
    }
    fn put(&self, t: T, wait: bool) -> Result<(), TrySendError<T>> {
        sched::point();
        let mut item = t;
        loop {
            let mut s = real(&self.st);
            if !s.receiver {
                return Err(TrySendError::Disconnected(item));
            }
            let room = match s.cap {
                None => true,
                Some(0) => s.q.is_empty(),
                Some(n) => s.q.len() < n,
            };
            if room {
                let mut vc = Vec::new();
                sched::release(&mut vc);
                s.sent += 1;
                let n = s.sent;
                let rendezvous = s.cap == Some(0);
                s.q.push_back((item, vc, n));
                drop(s);
                self.changed();
                while wait && rendezvous {
                    let s = real(&self.st);
                    if s.taken >= n || !s.receiver {
                        break;
                    }
                    drop(s);
                    sched::block(self.res);
                }
                return Ok(());
            }
            drop(s);
            if !wait {
                return Err(TrySendError::Full(item));
            }
            sched::block(self.res);
            let back = item;
            item = back;
        }
    }
    fn get(&self) -> Result<T, TryRecvError> {
        let mut s = real(&self.st);
        match s.q.pop_front() {
            Some((t, vc, n)) => {
                s.taken = n;
                drop(s);
                sched::acquire(&vc);
                self.changed();
                Ok(t)
            }
            None if s.senders == 0 => Err(TryRecvError::Disconnected),
            None => Err(TryRecvError::Empty),
        }
    }
}

pub struct Sender<T>(Arc<Chan<T>>);
pub struct SyncSender<T>(Arc<Chan<T>>);
pub struct Receiver<T>(Arc<Chan<T>>);
unsafe impl<T: Send> Send for Receiver<T> {}

fn make<T>(cap: Option<usize>) -> Arc<Chan<T>> {
    Arc::new(Chan {
        st: Real::new(St {
            q: VecDeque::new(),
            senders: 1,
            receiver: true,
            cap,
            sent: 0,
            taken: 0,
        }),
        res: sched::new_resource(),
    })
}
pub fn channel<T>() -> (Sender<T>, Receiver<T>) {
    let c = make(None);
    (Sender(c.clone()), Receiver(c))
}
pub fn sync_channel<T>(n: usize) -> (SyncSender<T>, Receiver<T>) {
    let c = make(Some(n));
    (SyncSender(c.clone()), Receiver(c))
}

macro_rules! sender {
    ($s:ident) => {
        impl<T> $s<T> {
            pub fn send(&self, t: T) -> Result<(), SendError<T>> {
                self.0.put(t, true).map_err(|e| match e {
                    TrySendError::Full(t) | TrySendError::Disconnected(t) => SendError(t),
                })
            }
        }
        impl<T> Clone for $s<T> {
            fn clone(&self) -> Self {
                real(&self.0.st).senders += 1;
                $s(self.0.clone())
            }
        }
        impl<T> Drop for $s<T> {
            fn drop(&mut self) {
                real(&self.0.st).senders -= 1;
                self.0.changed();
            }
        }
    };
}
sender!(Sender);
sender!(SyncSender);
impl<T> SyncSender<T> {
    pub fn try_send(&self, t: T) -> Result<(), TrySendError<T>> {
        self.0.put(t, false)
    }
}
impl<T> Receiver<T> {
    pub fn recv(&self) -> Result<T, RecvError> {
        sched::point();
        loop {
            match self.0.get() {
                Ok(t) => return Ok(t),
                Err(TryRecvError::Disconnected) => return Err(RecvError),
                Err(TryRecvError::Empty) => sched::block(self.0.res),
            }
        }
    }
    pub fn try_recv(&self) -> Result<T, TryRecvError> {
        sched::point();
        self.0.get()
    }
    pub fn recv_timeout(&self, d: Duration) -> Result<T, RecvTimeoutError> {
        sched::point();
        let end = simcore::sim::now_us() + d.as_micros() as u64;
        loop {
            match self.0.get() {
                Ok(t) => return Ok(t),
                Err(TryRecvError::Disconnected) => return Err(RecvTimeoutError::Disconnected),
                Err(TryRecvError::Empty) => {
                    let now = simcore::sim::now_us();
                    if now >= end {
                        return Err(RecvTimeoutError::Timeout);
                    }
                    sched::block_timeout(self.0.res, end - now);
                }
            }
        }
    }
    pub fn iter(&self) -> Iter<'_, T> {
        Iter(self)
    }
    pub fn try_iter(&self) -> TryIter<'_, T> {
        TryIter(self)
    }
}
impl<T> Drop for Receiver<T> {
    fn drop(&mut self) {
        let q = {
            let mut s = real(&self.0.st);
            s.receiver = false;
            std::mem::take(&mut s.q)
        };
        drop(q);
        self.0.changed();
    }
}
pub struct Iter<'a, T>(&'a Receiver<T>);
impl<T> Iterator for Iter<'_, T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.0.recv().ok()
    }
}
pub struct TryIter<'a, T>(&'a Receiver<T>);
impl<T> Iterator for TryIter<'_, T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.0.try_recv().ok()
    }
}
impl<'a, T> IntoIterator for &'a Receiver<T> {
    type Item = T;
    type IntoIter = Iter<'a, T>;
    fn into_iter(self) -> Iter<'a, T> {
        self.iter()
    }
}
pub struct IntoIter<T>(Receiver<T>);
impl<T> Iterator for IntoIter<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.0.recv().ok()
    }
}
impl<T> IntoIterator for Receiver<T> {
    type Item = T;
    type IntoIter = IntoIter<T>;
    fn into_iter(self) -> IntoIter<T> {
        IntoIter(self)
    }
}
