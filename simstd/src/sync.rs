//! Locks, channels and atomics scheduled by the simulator.
pub use std::sync::{Arc, LockResult, PoisonError, TryLockError, TryLockResult, Weak};
use simcore::sched::{self, Vc};
use std::cell::UnsafeCell;
use std::fmt;
use std::ops::{Deref, DerefMut};
use std::sync::Mutex as Real;
use std::time::Duration;

pub mod atomic;
pub mod mpsc;

pub(crate) fn real<T>(m: &Real<T>) -> std::sync::MutexGuard<'_, T> {
    m.lock().unwrap_or_else(|e| e.into_inner())
}

// ------------------------------------------------------------------ RwLock (and Mutex on top)

struct LockState {
    writer: bool,
    readers: usize,
    poisoned: bool,
    vc: Vc,
    res: u64,
}
struct RawLock(Real<LockState>);

impl RawLock {
    const fn new() -> RawLock {
        RawLock(Real::new(LockState {
            writer: false,
            readers: 0,
            poisoned: false,
            vc: Vec::new(),
            res: 0,
        }))
    }
    fn try_take(&self, write: bool) -> bool {
        let _u = simcore::alloc::uncounted();
        let mut s = real(&self.0);
        if s.writer || (write && s.readers > 0) {
            return false;
        }
        if write {
            s.writer = true;
        } else {
            s.readers += 1;
        }
        let vc = s.vc.clone();
        drop(s);
        sched::acquire(&vc);
        true
    }
    fn take(&self, write: bool) {
        sched::point();
        self.take_now(write);
    }
    fn take_now(&self, write: bool) {
        while !self.try_take(write) {
            if !sched::on_sim_thread() {
                panic!("a lock is still held after the run");
            }
            if sched::aborting() && std::thread::panicking() {
                // Everything is being unwound one thread after the other; nobody holds on to it.
                let mut s = real(&self.0);
                s.writer = write;
                s.readers = !write as usize;
                return;
            }
            let res = {
                let mut s = real(&self.0);
                if s.res == 0 {
                    s.res = sched::new_resource();
                }
                s.res
            };
            simcore::sim::count("op.blocked_on_lock");
            sched::block(res);
        }
    }
    fn give_now(&self, write: bool) {
        let _u = simcore::alloc::uncounted();
        let mut vc = real(&self.0).vc.clone();
        sched::release(&mut vc);
        let mut s = real(&self.0);
        s.vc = vc;
        if write {
            s.writer = false;
        } else {
            s.readers = s.readers.saturating_sub(1);
        }
        let res = s.res;
        drop(s);
        if res != 0 {
            sched::wake(res);
        }
    }
    fn give(&self, write: bool) {
        // Others may run between the last step under the lock and its release (try_lock sees it).
        struct Release<'a>(&'a RawLock, bool);
        impl Drop for Release<'_> {
            fn drop(&mut self) {
                self.0.give_now(self.1);
            }
        }
        let r = Release(self, write);
        sched::point();
        drop(r);
        sched::point();
    }
    fn poison(&self) {
        real(&self.0).poisoned = true;
    }
    fn poisoned(&self) -> bool {
        real(&self.0).poisoned
    }
}

macro_rules! wrap {
    ($l:expr, $g:expr) => {
        if $l.raw.poisoned() {
            Err(PoisonError::new($g))
        } else {
            Ok($g)
        }
    };
}

pub struct Mutex<T: ?Sized> {
    raw: RawLock,
    data: UnsafeCell<T>,
}
unsafe impl<T: ?Sized + Send> Send for Mutex<T> {}
unsafe impl<T: ?Sized + Send> Sync for Mutex<T> {}
impl<T: ?Sized> std::panic::UnwindSafe for Mutex<T> {}
impl<T: ?Sized> std::panic::RefUnwindSafe for Mutex<T> {}

pub struct MutexGuard<'a, T: ?Sized> {
    lock: &'a Mutex<T>,
    unwinding: bool,
    no_send: std::marker::PhantomData<*const ()>,
}

impl<T> Mutex<T> {
    pub const fn new(t: T) -> Mutex<T> {
        Mutex {
            raw: RawLock::new(),
            data: UnsafeCell::new(t),
        }
    }
    pub fn into_inner(self) -> LockResult<T> {
        let p = self.raw.poisoned();
        let d = self.data.into_inner();
        if p {
            Err(PoisonError::new(d))
        } else {
            Ok(d)
        }
    }
}
impl<T: ?Sized> Mutex<T> {
    fn guard(&self) -> MutexGuard<'_, T> {
        MutexGuard {
            lock: self,
            unwinding: std::thread::panicking(),
            no_send: std::marker::PhantomData,
        }
    }
    pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
        self.raw.take(true);
        wrap!(self, self.guard())
    }
    pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
        sched::point();
        if !self.raw.try_take(true) {
            return Err(TryLockError::WouldBlock);
        }
        wrap!(self, self.guard()).map_err(TryLockError::Poisoned)
    }
    pub fn is_poisoned(&self) -> bool {
        self.raw.poisoned()
    }
    pub fn clear_poison(&self) {
        real(&self.raw.0).poisoned = false;
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        let p = self.raw.poisoned();
        let d = self.data.get_mut();
        if p {
            Err(PoisonError::new(d))
        } else {
            Ok(d)
        }
    }
}
impl<T: Default> Default for Mutex<T> {
    fn default() -> Self {
        Mutex::new(T::default())
    }
}
impl<T> From<T> for Mutex<T> {
    fn from(t: T) -> Self {
        Mutex::new(t)
    }
}
impl<T: ?Sized> fmt::Debug for Mutex<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Mutex")
    }
}
impl<T: ?Sized> Deref for MutexGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.lock.data.get() }
    }
}
impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        unsafe { &mut *self.lock.data.get() }
    }
}
impl<T: ?Sized> Drop for MutexGuard<'_, T> {
    fn drop(&mut self) {
        if !self.unwinding && std::thread::panicking() {
            self.lock.raw.poison();
        }
        self.lock.raw.give(true);
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for MutexGuard<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}

pub struct RwLock<T: ?Sized> {
    raw: RawLock,
    data: UnsafeCell<T>,
}
unsafe impl<T: ?Sized + Send> Send for RwLock<T> {}
unsafe impl<T: ?Sized + Send + Sync> Sync for RwLock<T> {}
impl<T: ?Sized> std::panic::UnwindSafe for RwLock<T> {}
impl<T: ?Sized> std::panic::RefUnwindSafe for RwLock<T> {}

pub struct RwLockReadGuard<'a, T: ?Sized> {
    lock: &'a RwLock<T>,
    no_send: std::marker::PhantomData<*const ()>,
}
pub struct RwLockWriteGuard<'a, T: ?Sized> {
    lock: &'a RwLock<T>,
    unwinding: bool,
    no_send: std::marker::PhantomData<*const ()>,
}
impl<T> RwLock<T> {
    pub const fn new(t: T) -> RwLock<T> {
        RwLock {
            raw: RawLock::new(),
            data: UnsafeCell::new(t),
        }
    }
    pub fn into_inner(self) -> LockResult<T> {
        let p = self.raw.poisoned();
        let d = self.data.into_inner();
        if p {
            Err(PoisonError::new(d))
        } else {
            Ok(d)
        }
    }
}
impl<T: ?Sized> RwLock<T> {
    fn rguard(&self) -> RwLockReadGuard<'_, T> {
        RwLockReadGuard {
            lock: self,
            no_send: std::marker::PhantomData,
        }
    }
    fn wguard(&self) -> RwLockWriteGuard<'_, T> {
        RwLockWriteGuard {
            lock: self,
            unwinding: std::thread::panicking(),
            no_send: std::marker::PhantomData,
        }
    }
    pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
        self.raw.take(false);
        wrap!(self, self.rguard())
    }
    pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
        self.raw.take(true);
        wrap!(self, self.wguard())
    }
    pub fn try_read(&self) -> TryLockResult<RwLockReadGuard<'_, T>> {
        sched::point();
        if !self.raw.try_take(false) {
            return Err(TryLockError::WouldBlock);
        }
        wrap!(self, self.rguard()).map_err(TryLockError::Poisoned)
    }
    pub fn try_write(&self) -> TryLockResult<RwLockWriteGuard<'_, T>> {
        sched::point();
        if !self.raw.try_take(true) {
            return Err(TryLockError::WouldBlock);
        }
        wrap!(self, self.wguard()).map_err(TryLockError::Poisoned)
    }
    pub fn is_poisoned(&self) -> bool {
        self.raw.poisoned()
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        Ok(self.data.get_mut())
    }
}
impl<T: Default> Default for RwLock<T> {
    fn default() -> Self {
        RwLock::new(T::default())
    }
}
impl<T: ?Sized> Deref for RwLockReadGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.lock.data.get() }
    }
}
impl<T: ?Sized> Deref for RwLockWriteGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.lock.data.get() }
    }
}
impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        unsafe { &mut *self.lock.data.get() }
    }
}
impl<T: ?Sized> Drop for RwLockReadGuard<'_, T> {
    fn drop(&mut self) {
        self.lock.raw.give(false);
    }
}
impl<T: ?Sized> Drop for RwLockWriteGuard<'_, T> {
    fn drop(&mut self) {
        if !self.unwinding && std::thread::panicking() {
            self.lock.raw.poison();
        }
        self.lock.raw.give(true);
    }
}

// ------------------------------------------------------------------ Condvar

pub struct Condvar {
    waiters: Real<Vec<u64>>,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct WaitTimeoutResult(bool);
impl WaitTimeoutResult {
    pub fn timed_out(&self) -> bool {
        self.0
    }
}
impl Default for Condvar {
    fn default() -> Self {
        Condvar::new()
    }
}
impl Condvar {
    pub const fn new() -> Condvar {
        Condvar {
            waiters: Real::new(Vec::new()),
        }
    }
    /// Returns true if it was notified.
    fn wait_raw<'a, T: ?Sized>(&self, g: MutexGuard<'a, T>, us: Option<u64>) -> (MutexGuard<'a, T>, bool) {
        let lock = g.lock;
        let unwinding = g.unwinding;
        std::mem::forget(g);
        let res = sched::new_resource();
        real(&self.waiters).push(res);
        // Giving up the lock and going to sleep is one step.
        lock.raw.give_now(true);
        match us {
            Some(us) => sched::block_timeout(res, us),
            None => {
                // Spurious wake-ups are allowed by the contract.
                if simcore::sim::chance(1, 40) {
                    simcore::sim::fault("fault.sched.spurious_wakeup");
                    sched::point();
                } else {
                    sched::block(res);
                }
            }
        }
        let notified = {
            let mut w = real(&self.waiters);
            match w.iter().position(|r| *r == res) {
                Some(i) => {
                    w.remove(i);
                    false
                }
                None => true,
            }
        };
        lock.raw.take_now(true);
        (
            MutexGuard {
                lock,
                unwinding,
                no_send: std::marker::PhantomData,
            },
            notified,
        )
    }
    pub fn wait<'a, T: ?Sized>(&self, g: MutexGuard<'a, T>) -> LockResult<MutexGuard<'a, T>> {
        let lock = g.lock;
        let (g, _) = self.wait_raw(g, None);
        wrap!(lock, g)
    }
    pub fn wait_while<'a, T: ?Sized, F: FnMut(&mut T) -> bool>(
        &self,
        mut g: MutexGuard<'a, T>,
        mut f: F,
    ) -> LockResult<MutexGuard<'a, T>> {
        while f(&mut *g) {
            g = self.wait(g)?;
        }
        Ok(g)
    }
    pub fn wait_timeout<'a, T: ?Sized>(
        &self,
        g: MutexGuard<'a, T>,
        d: Duration,
    ) -> LockResult<(MutexGuard<'a, T>, WaitTimeoutResult)> {
        let lock = g.lock;
        let (g, n) = self.wait_raw(g, Some(d.as_micros() as u64));
        wrap!(lock, (g, WaitTimeoutResult(!n)))
    }
    pub fn notify_one(&self) {
        sched::point();
        let r = {
            let mut w = real(&self.waiters);
            if w.is_empty() {
                None
            } else {
                let i = simcore::sim::choose(w.len() as u32) as usize;
                Some(w.remove(i))
            }
        };
        if let Some(r) = r {
            sched::wake(r);
        }
    }
    pub fn notify_all(&self) {
        sched::point();
        let all = std::mem::take(&mut *real(&self.waiters));
        for r in all {
            sched::wake(r);
        }
    }
}

// ------------------------------------------------------------------ Once, OnceLock, LazyLock, Barrier

pub struct OnceLock<T> {
    lock: Mutex<()>,
    cell: std::sync::OnceLock<T>,
}
impl<T> Default for OnceLock<T> {
    fn default() -> Self {
        OnceLock::new()
    }
}
impl<T> OnceLock<T> {
    pub const fn new() -> Self {
        OnceLock {
            lock: Mutex::new(()),
            cell: std::sync::OnceLock::new(),
        }
    }
    pub fn get(&self) -> Option<&T> {
        sched::point();
        self.cell.get()
    }
    pub fn set(&self, t: T) -> Result<(), T> {
        let _g = self.lock.lock();
        self.cell.set(t)
    }
    pub fn get_or_init<F: FnOnce() -> T>(&self, f: F) -> &T {
        let _g = self.lock.lock();
        if self.cell.get().is_none() {
            let v = f();
            let _ = self.cell.set(v);
        }
        self.cell.get().unwrap()
    }
}

pub struct LazyLock<T, F = fn() -> T> {
    cell: OnceLock<T>,
    init: Real<Option<F>>,
}
impl<T, F: FnOnce() -> T> LazyLock<T, F> {
    pub const fn new(f: F) -> Self {
        LazyLock {
            cell: OnceLock::new(),
            init: Real::new(Some(f)),
        }
    }
    pub fn force(this: &Self) -> &T {
        this.cell.get_or_init(|| (real(&this.init).take().expect("LazyLock poisoned"))())
    }
}
impl<T, F: FnOnce() -> T> Deref for LazyLock<T, F> {
    type Target = T;
    fn deref(&self) -> &T {
        LazyLock::force(self)
    }
}

pub struct Once(OnceLock<()>);
impl Once {
    pub const fn new() -> Once {
        Once(OnceLock::new())
    }
    pub fn call_once<F: FnOnce()>(&self, f: F) {
        self.0.get_or_init(f);
    }
    pub fn is_completed(&self) -> bool {
        self.0.get().is_some()
    }
}

pub struct Barrier {
    n: usize,
    st: Mutex<(usize, usize)>,
    cv: Condvar,
}
pub struct BarrierWaitResult(bool);
impl BarrierWaitResult {
    pub fn is_leader(&self) -> bool {
        self.0
    }
}
impl Barrier {
    pub const fn new(n: usize) -> Barrier {
        Barrier {
            n,
            st: Mutex::new((0, 0)),
            cv: Condvar::new(),
        }
    }
    pub fn wait(&self) -> BarrierWaitResult {
        let mut g = self.st.lock().unwrap();
        let gen = g.1;
        g.0 += 1;
        if g.0 >= self.n {
            g.0 = 0;
            g.1 += 1;
            self.cv.notify_all();
            return BarrierWaitResult(true);
        }
        while g.1 == gen {
            g = self.cv.wait(g).unwrap();
        }
        BarrierWaitResult(false)
    }
}
