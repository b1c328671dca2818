//! Threads scheduled by the simulator.
pub use std::thread::{panicking, AccessError, LocalKey, Result};
use simcore::sched;
use std::any::Any;
use std::cell::RefCell;
use std::marker::PhantomData;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::{Arc as RArc, Mutex as Real};
use std::time::Duration;

struct Inner {
    name: Option<String>,
    id: u64,
    park_res: u64,
    token: Real<bool>,
}

#[derive(Clone)]
pub struct Thread(RArc<Inner>);

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct ThreadId(u64);

thread_local! {
    static CURRENT: RefCell<Option<Thread>> = const { RefCell::new(None) };
}

impl Thread {
    fn make(name: Option<String>) -> Thread {
        Thread(RArc::new(Inner {
            name,
            id: sched::new_resource(),
            park_res: sched::new_resource(),
            token: Real::new(false),
        }))
    }
    pub fn id(&self) -> ThreadId {
        ThreadId(self.0.id)
    }
    pub fn name(&self) -> Option<&str> {
        self.0.name.as_deref()
    }
    pub fn unpark(&self) {
        sched::point();
        *self.0.token.lock().unwrap() = true;
        sched::wake(self.0.park_res);
    }
}
impl std::fmt::Debug for Thread {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "Thread({:?})", self.0.name)
    }
}

pub fn current() -> Thread {
    CURRENT.with(|c| c.borrow_mut().get_or_insert_with(|| Thread::make(Some("main".into()))).clone())
}

pub fn park() {
    let t = current();
    sched::point();
    loop {
        if std::mem::replace(&mut *t.0.token.lock().unwrap(), false) || sched::aborting() {
            return;
        }
        sched::block(t.0.park_res);
    }
}
pub fn park_timeout(d: Duration) {
    let t = current();
    sched::point();
    if !std::mem::replace(&mut *t.0.token.lock().unwrap(), false) {
        sched::block_timeout(t.0.park_res, d.as_micros() as u64);
        *t.0.token.lock().unwrap() = false;
    }
}

pub fn sleep(d: Duration) {
    sched::sleep_us((d.as_micros() as u64).max(1));
}
#[allow(non_snake_case)]
pub fn sleep_ms(ms: u32) {
    sleep(Duration::from_millis(ms as u64));
}
pub fn yield_now() {
    sched::sleep_us(1);
}
pub fn available_parallelism() -> std::io::Result<std::num::NonZeroUsize> {
    Ok(std::num::NonZeroUsize::new(4).unwrap())
}

struct Packet<T>(Real<Option<Result<T>>>);

pub struct JoinHandle<T> {
    tid: usize,
    packet: RArc<Packet<T>>,
    thread: Thread,
}

impl<T> JoinHandle<T> {
    pub fn join(self) -> Result<T> {
        let _ = sched::join(self.tid);
        self.packet.0.lock().unwrap().take().unwrap_or_else(|| Err(Box::new("thread was unwound")))
    }
    pub fn thread(&self) -> &Thread {
        &self.thread
    }
    pub fn is_finished(&self) -> bool {
        sched::point();
        sched::is_done(self.tid)
    }
}

fn start<'a, F, T>(name: Option<String>, f: F) -> JoinHandle<T>
where
    F: FnOnce() -> T + Send + 'a,
    T: Send + 'a,
{
    let packet = RArc::new(Packet(Real::new(None)));
    let thread = Thread::make(name);
    let (p, t) = (packet.clone(), thread.clone());
    let body: Box<dyn FnOnce() + Send + 'a> = Box::new(move || {
        CURRENT.with(|c| *c.borrow_mut() = Some(t));
        // Freed while the thread still has its turn, not whenever the real thread ends.
        struct Forget;
        impl Drop for Forget {
            fn drop(&mut self) {
                let t = CURRENT.with(|c| c.borrow_mut().take());
                drop(t);
            }
        }
        let _forget = Forget;
        match catch_unwind(AssertUnwindSafe(f)) {
            Ok(v) => *p.0.lock().unwrap() = Some(Ok(v)),
            Err(e) => {
                if e.is::<sched::Abort>() {
                    resume_unwind(e);
                }
                let text = simcore::sim::payload_text(&*e);
                *p.0.lock().unwrap() = Some(Err(Box::new(text.clone()) as Box<dyn Any + Send>));
                resume_unwind(Box::new(text));
            }
        }
    });
    // Scoped threads are joined before their scope ends.
    let body: Box<dyn FnOnce() + Send + 'static> = unsafe { std::mem::transmute(body) };
    let tid = sched::spawn(body);
    JoinHandle { tid, packet, thread }
}

pub fn spawn<F, T>(f: F) -> JoinHandle<T>
where
    F: FnOnce() -> T + Send + 'static,
    T: Send + 'static,
{
    start(None, f)
}

#[derive(Default)]
pub struct Builder {
    name: Option<String>,
}
impl Builder {
    pub fn new() -> Builder {
        Builder::default()
    }
    pub fn name(mut self, n: String) -> Builder {
        self.name = Some(n);
        self
    }
    pub fn stack_size(self, _: usize) -> Builder {
        self
    }
    pub fn spawn<F, T>(self, f: F) -> std::io::Result<JoinHandle<T>>
    where
        F: FnOnce() -> T + Send + 'static,
        T: Send + 'static,
    {
        Ok(start(self.name, f))
    }
}

pub struct Scope<'scope, 'env: 'scope> {
    tids: Real<Vec<usize>>,
    scope: PhantomData<&'scope mut &'scope ()>,
    env: PhantomData<&'env mut &'env ()>,
}
pub struct ScopedJoinHandle<'scope, T>(JoinHandle<T>, PhantomData<&'scope ()>);

impl<'scope, 'env> Scope<'scope, 'env> {
    pub fn spawn<F, T>(&'scope self, f: F) -> ScopedJoinHandle<'scope, T>
    where
        F: FnOnce() -> T + Send + 'scope,
        T: Send + 'scope,
    {
        let h = start(None, f);
        self.tids.lock().unwrap().push(h.tid);
        ScopedJoinHandle(h, PhantomData)
    }
}
impl<'scope, T> ScopedJoinHandle<'scope, T> {
    pub fn join(self) -> Result<T> {
        self.0.join()
    }
    pub fn thread(&self) -> &Thread {
        self.0.thread()
    }
    pub fn is_finished(&self) -> bool {
        self.0.is_finished()
    }
}

pub fn scope<'env, F, T>(f: F) -> T
where
    F: for<'scope> FnOnce(&'scope Scope<'scope, 'env>) -> T,
{
    let s = Scope {
        tids: Real::new(vec![]),
        scope: PhantomData,
        env: PhantomData,
    };
    let r = catch_unwind(AssertUnwindSafe(|| f(unsafe { &*(&s as *const _) })));
    let tids = s.tids.lock().unwrap().clone();
    let mut failed = false;
    let joined = catch_unwind(AssertUnwindSafe(|| {
        for t in &tids {
            failed |= sched::join(*t).is_some();
        }
    }));
    // The run was cut off: the threads are being unwound, wait for them for real.
    while !tids.iter().all(|t| sched::is_done(*t)) {
        std::thread::sleep(Duration::from_micros(50));
    }
    match (r, joined) {
        (Err(e), _) | (_, Err(e)) => resume_unwind(e),
        (Ok(v), Ok(())) => {
            if failed {
                panic!("a scoped thread panicked");
            }
            v
        }
    }
}
