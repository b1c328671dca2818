//! Cooperative scheduler: real threads, parked and released one at a time. Which thread runs at
//! every scheduling point, who gets stalled and what a relaxed load returns is read off the tape.
use crate::alloc::uncounted;
use crate::sim;
use std::cell::Cell;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicBool, AtomicI64, Ordering::SeqCst};
use std::sync::{Condvar, Mutex, MutexGuard};

thread_local! {
    static TID: Cell<usize> = const { Cell::new(usize::MAX) };
}

pub fn on_sim_thread() -> bool {
    TID.with(|t| t.get()) != usize::MAX
}

/// Payload of the panic that unwinds simulated threads when the run is over.
pub struct Abort;

pub type Vc = Vec<u32>;

pub fn vc_join(a: &mut Vc, b: &Vc) {
    if a.len() < b.len() {
        a.resize(b.len(), 0);
    }
    for (x, y) in a.iter_mut().zip(b) {
        *x = (*x).max(*y);
    }
}

#[derive(Clone, Debug, PartialEq)]
enum State {
    Runnable,
    Blocked(u64),
    /// Blocked, but only until a simulated time.
    Timed(u64, u64),
    /// Until a simulated time.
    Sleeping(u64),
    /// Until the word at an address has another value.
    Futex(usize, u32),
    /// Until `release_hold`, or nobody else can run.
    Held,
    Done,
}

struct Task {
    state: State,
    vc: Vc,
    stalled_until: u64,
    panic: Option<String>,
    started: bool,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Policy {
    /// At each point, switch away from the running thread with probability 1/n.
    Random(u32),
    /// Every runnable thread gets a turn.
    Fair,
}

#[derive(Clone, Debug, PartialEq)]
pub enum End {
    Running,
    Finished,
    /// process::exit.
    Exited(i32),
    Deadlock(String),
    StepLimit,
}

struct Sched {
    tasks: Vec<Task>,
    current: usize,
    policy: Policy,
    stall_every: u32,
    stall_len: u32,
    stale_every: u32,
    steps: u64,
    max_steps: u64,
    end: End,
    aborting: bool,
    live_threads: usize,
    idle: u32,
    atomics: BTreeMap<usize, Vec<Store>>,
    atomic_seen: BTreeMap<(usize, usize), usize>,
}

#[derive(Clone)]
struct Store {
    value: u64,
    by: usize,
    at: u32,
    release: Option<Vc>,
    step: u64,
}

static SCHED: Mutex<Option<Sched>> = Mutex::new(None);
static CV: Condvar = Condvar::new();

/// Threads of a deadlocked run are still there: no further run in this process.
static LOST: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
pub fn lost() -> bool {
    LOST.load(std::sync::atomic::Ordering::SeqCst)
}

fn lock() -> MutexGuard<'static, Option<Sched>> {
    let _u = uncounted();
    match SCHED.lock() {
        Ok(g) => g,
        Err(p) => p.into_inner(),
    }
}

pub struct Config {
    pub policy: Policy,
    pub stall_every: u32,
    pub stall_len: u32,
    pub stale_every: u32,
    pub max_steps: u64,
}

#[derive(Debug)]
pub struct Report {
    pub end: End,
    pub steps: u64,
    pub threads: usize,
    /// Panics of simulated threads by thread number (0 = main).
    pub panics: Vec<(usize, String)>,
}

/// Runs `main` as simulated thread 0 on the calling thread until it returns, panics or the run
/// is ended; then unwinds every other simulated thread.
pub fn run(c: Config, main: impl FnOnce()) -> Report {
    let u = uncounted();
    HOLD_IN.store(-1, SeqCst);
    for f in [&HOLDING, &ON_MAIN, &WAITED] {
        f.store(false, SeqCst);
    }
    *lock() = Some(Sched {
        tasks: vec![Task {
            state: State::Runnable,
            vc: vec![1],
            stalled_until: 0,
            panic: None,
            started: true,
        }],
        current: 0,
        policy: c.policy,
        stall_every: c.stall_every,
        stall_len: c.stall_len,
        stale_every: c.stale_every,
        steps: 0,
        max_steps: c.max_steps,
        end: End::Running,
        aborting: false,
        live_threads: 0,
        idle: 0,
        atomics: BTreeMap::new(),
        atomic_seen: BTreeMap::new(),
    });
    drop(u);
    TID.with(|t| t.set(0));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(main));
    let _u = uncounted();
    let mut g = lock();
    {
        let s = g.as_mut().unwrap();
        if s.end == End::Running {
            s.end = End::Finished;
        }
        if let Err(p) = r {
            if !p.is::<Abort>() {
                s.tasks[0].panic = Some(sim::payload_text(&*p));
            }
        }
        s.tasks[0].state = State::Done;
        s.aborting = true;
    }
    CV.notify_all();
    let mut waited = 0;
    while g.as_ref().unwrap().live_threads > 0 {
        let s = g.as_ref().unwrap();
        let stuck = s.tasks.iter().filter(|t| matches!(t.state, State::Futex(..))).count();
        if stuck >= s.live_threads {
            // Deadlocked in locks of the code under test: they cannot be unwound from there.
            waited += 1;
            if waited > 50 {
                LOST.store(true, std::sync::atomic::Ordering::SeqCst);
                break;
            }
        }
        g = match CV.wait_timeout(g, std::time::Duration::from_millis(10)) {
            Ok(g) => g.0,
            Err(p) => p.into_inner().0,
        };
    }
    let s = g.take().unwrap();
    drop(g);
    TID.with(|t| t.set(usize::MAX));
    Report {
        end: s.end,
        steps: s.steps,
        threads: s.tasks.len(),
        panics: s
            .tasks
            .iter()
            .enumerate()
            .filter_map(|(i, t)| t.panic.clone().map(|p| (i, p)))
            .collect(),
    }
}

impl Sched {
    /// Runnable threads once timers that are due have fired; lets time pass if only timers are left.
    fn ready(&mut self) -> Vec<usize> {
        loop {
            let now = sim::now_us();
            let mut next = u64::MAX;
            for t in self.tasks.iter_mut() {
                if let State::Futex(a, v) = t.state {
                    // The waiting thread keeps the word alive.
                    if unsafe { &*(a as *const std::sync::atomic::AtomicU32) }.load(std::sync::atomic::Ordering::SeqCst) != v {
                        t.state = State::Runnable;
                    }
                }
                if let State::Sleeping(u) | State::Timed(_, u) = t.state {
                    if u <= now {
                        t.state = State::Runnable;
                    } else {
                        next = next.min(u);
                    }
                }
            }
            let ready: Vec<usize> = (0..self.tasks.len()).filter(|i| self.tasks[*i].state == State::Runnable).collect();
            if ready.is_empty() && next < u64::MAX {
                sim::advance_us(next - now);
                continue;
            }
            return ready;
        }
    }
    fn deadlocked(&mut self) {
        let d: Vec<String> = self.tasks.iter().enumerate().map(|(i, t)| format!("thread {}: {:?}", i, t.state)).collect();
        self.end = End::Deadlock(d.join(", "));
        self.aborting = true;
        CV.notify_all();
    }
}

fn abort_now() -> ! {
    std::panic::resume_unwind(Box::new(Abort))
}

/// Gives up the processor: picks who runs next; returns when the caller is scheduled again.
fn reschedule(g: MutexGuard<'static, Option<Sched>>, me: usize) {
    if !turn(g, me) {
        abort_now();
    }
}

/// As above; false if the run is over.
fn turn(mut g: MutexGuard<'static, Option<Sched>>, me: usize) -> bool {
    let _u = uncounted();
    loop {
        let s = match g.as_mut() {
            Some(s) => s,
            None => return true,
        };
        if s.aborting {
            drop(g);
            return std::thread::panicking();
        }
        s.steps += 1;
        if s.steps > s.max_steps {
            s.end = End::StepLimit;
            s.aborting = true;
            CV.notify_all();
            continue;
        }
        sim::advance_us(10);
        let mut ready = s.ready();
        if ready.is_empty() && s.tasks.iter().any(|t| t.state == State::Held) {
            WAITED.store(true, SeqCst);
            free_held(s);
            continue;
        }
        if ready.is_empty() {
            // A thread the simulator does not know may still change a word that is waited for.
            if s.idle < 200 && s.tasks.iter().any(|t| matches!(t.state, State::Futex(..))) {
                s.idle += 1;
                std::thread::sleep(std::time::Duration::from_millis(10));
                continue;
            }
            s.deadlocked();
            continue;
        }
        s.idle = 0;
        let awake: Vec<usize> = ready.iter().copied().filter(|i| s.tasks[*i].stalled_until <= s.steps).collect();
        if !awake.is_empty() {
            ready = awake;
        }
        let next = match s.policy {
            Policy::Fair => *ready.iter().find(|i| **i > s.current).unwrap_or(&ready[0]),
            Policy::Random(n) => {
                let cur = s.current;
                if ready.len() == 1 {
                    ready[0]
                } else if ready.contains(&cur) && !sim::chance(1, n) {
                    cur
                } else {
                    let others: Vec<usize> = ready.iter().copied().filter(|i| *i != cur).collect();
                    others[sim::choose(others.len() as u32) as usize]
                }
            }
        };
        if s.policy != Policy::Fair && s.stall_every > 0 && ready.len() > 1 && sim::chance(1, s.stall_every) {
            let len = 1 + sim::choose(s.stall_len) as u64;
            s.tasks[next].stalled_until = s.steps + len;
            sim::fault("fault.sched.thread_stalled");
            continue;
        }
        if next != s.current {
            sim::count("fault.sched.context_switch");
            sim::ev("switch", &[next as i64]);
        }
        s.current = next;
        if next == me {
            return true;
        }
        CV.notify_all();
        break;
    }
    // Wait for our turn.
    loop {
        let s = match g.as_ref() {
            Some(s) => s,
            None => return true,
        };
        if s.aborting {
            drop(g);
            return std::thread::panicking();
        }
        if s.current == me && s.tasks[me].state == State::Runnable {
            return true;
        }
        g = match CV.wait(g) {
            Ok(g) => g,
            Err(p) => p.into_inner(),
        };
    }
}

fn me() -> Option<usize> {
    let t = TID.with(|t| t.get());
    if t == usize::MAX {
        None
    } else {
        Some(t)
    }
}

/// A scheduling point.
pub fn point() {
    if std::thread::panicking() {
        return;
    }
    if let Some(me) = me() {
        reschedule(lock(), me);
    }
}

/// A scheduling point that never unwinds (inside an allocation or a system call).
pub fn quiet_point() {
    if std::thread::panicking() {
        return;
    }
    if let Some(me) = me() {
        // What the code between a call and its look at errno must not see.
        let errno = crate::interpose::errno();
        let _ = turn(lock(), me);
        unsafe { crate::interpose::set_errno(errno) };
    }
}

/// Waits for the word at `addr` to change from `v`; false if the wait is none of the simulator's.
pub fn futex_wait(addr: usize, v: u32) -> bool {
    if !crate::alloc::mine() {
        return false;
    }
    let me = match me() {
        Some(me) => me,
        None => return false,
    };
    let mut g = lock();
    match g.as_mut() {
        Some(s) if !s.aborting => s.tasks[me].state = State::Futex(addr, v),
        _ => return false,
    }
    sim::count("probe.waited_for_a_lock");
    let _ = turn(g, me);
    true
}

// ------------------------------------------------------------------ holding a thread

/// Allocations until the thread that makes the next one is held; negative: none is to be held.
static HOLD_IN: AtomicI64 = AtomicI64::new(-1);
static HOLD_TRIES: AtomicI64 = AtomicI64::new(0);
static HOLDING: AtomicBool = AtomicBool::new(false);
static ON_MAIN: AtomicBool = AtomicBool::new(false);
static WAITED: AtomicBool = AtomicBool::new(false);

/// What came of `arm_hold`.
#[derive(Debug, Clone, Copy, Default)]
pub struct Held {
    pub holding: bool,
    /// The thread that runs the program did the work itself.
    pub on_main: bool,
    /// All others came to wait for the held thread.
    pub waited: bool,
}

/// At the `n`th allocation from now, or one soon after it, made while a scan is being integrated, the
/// thread is held (needs allocations to be scheduling points).
pub fn arm_hold(n: u32) {
    HOLD_TRIES.store(60, SeqCst);
    HOLDING.store(false, SeqCst);
    ON_MAIN.store(false, SeqCst);
    WAITED.store(false, SeqCst);
    HOLD_IN.store(n as i64, SeqCst);
}

pub fn held() -> Held {
    Held {
        holding: HOLDING.load(SeqCst),
        on_main: ON_MAIN.load(SeqCst),
        waited: WAITED.load(SeqCst),
    }
}

/// A thread is held or to be held.
pub fn hold_pending() -> bool {
    HOLDING.load(SeqCst) || HOLD_IN.load(SeqCst) >= 0
}

fn free_held(s: &mut Sched) {
    HOLDING.store(false, SeqCst);
    for t in s.tasks.iter_mut() {
        if t.state == State::Held {
            t.state = State::Runnable;
        }
    }
}

pub fn release_hold() {
    let _u = uncounted();
    HOLD_IN.store(-1, SeqCst);
    if let Some(s) = lock().as_mut() {
        free_held(s);
    }
}

/// At an allocation.
pub fn hold_point() {
    if HOLD_IN.load(SeqCst) < 0 || std::thread::panicking() || HOLD_IN.fetch_sub(1, SeqCst) > 0 {
        return;
    }
    let me = match me() {
        Some(me) => me,
        None => return,
    };
    let _u = uncounted();
    let here = std::backtrace::Backtrace::force_capture().to_string();
    // A function of the library, not one of the program's (those lie in the build directory).
    let lines: Vec<&str> = here.lines().collect();
    if !lines.windows(2).any(|w| w[0].contains("integrate_point_cloud") && w[1].contains(" at ") && !w[1].contains("/out/")) {
        let again = HOLD_TRIES.fetch_sub(1, SeqCst) > 0;
        HOLD_IN.store(if again { 2 } else { -1 }, SeqCst);
        return;
    }
    HOLD_IN.store(-1, SeqCst);
    if me == 0 {
        ON_MAIN.store(true, SeqCst);
        return;
    }
    let mut g = lock();
    match g.as_mut() {
        Some(s) if !s.aborting => s.tasks[me].state = State::Held,
        _ => return,
    }
    HOLDING.store(true, SeqCst);
    sim::fault("fault.sched.integration_held");
    let errno = crate::interpose::errno();
    let _ = turn(g, me);
    unsafe { crate::interpose::set_errno(errno) };
}

/// Never reused, not even by later runs of the process.
pub fn new_resource() -> u64 {
    static NEXT: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(1);
    NEXT.fetch_add(1, std::sync::atomic::Ordering::Relaxed)
}

/// Blocks the caller until `wake(res)`.
pub fn block(res: u64) {
    let _u = uncounted();
    let me = match me() {
        Some(m) => m,
        None => panic!("blocking outside the simulation"),
    };
    let mut g = lock();
    if let Some(s) = g.as_mut() {
        if !s.aborting {
            s.tasks[me].state = State::Blocked(res);
        }
    }
    reschedule(g, me);
}

/// As `block`, but for at most a simulated time.
pub fn block_timeout(res: u64, us: u64) {
    let _u = uncounted();
    let me = match me() {
        Some(m) => m,
        None => panic!("blocking outside the simulation"),
    };
    let until = sim::now_us().saturating_add(us);
    let mut g = lock();
    if let Some(s) = g.as_mut() {
        if !s.aborting {
            s.tasks[me].state = State::Timed(res, until);
        }
    }
    reschedule(g, me);
}

pub fn wake(res: u64) {
    let _u = uncounted();
    let mut g = lock();
    if let Some(s) = g.as_mut() {
        for t in s.tasks.iter_mut() {
            match t.state {
                State::Blocked(r) | State::Timed(r, _) if r == res => t.state = State::Runnable,
                _ => {}
            }
        }
    }
}

/// The run is over: threads are only being unwound.
pub fn aborting() -> bool {
    let _u = uncounted();
    lock().as_ref().map(|s| s.aborting).unwrap_or(false)
}

/// Ends the run from whatever thread this is (the program exits).
pub fn exit_run(code: i32) -> ! {
    let _u = uncounted();
    if let Some(s) = lock().as_mut() {
        if s.end == End::Running {
            s.end = End::Exited(code);
        }
        s.aborting = true;
    }
    CV.notify_all();
    abort_now()
}

pub fn sleep_us(us: u64) {
    let _u = uncounted();
    let me = match me() {
        Some(m) => m,
        None => return,
    };
    let until = sim::now_us() + us;
    let mut g = lock();
    if let Some(s) = g.as_mut() {
        if !s.aborting {
            s.tasks[me].state = State::Sleeping(until);
        }
    }
    reschedule(g, me);
}

pub fn set_policy(p: Policy) {
    let _u = uncounted();
    if let Some(s) = lock().as_mut() {
        s.policy = p;
        if p == Policy::Fair {
            s.stale_every = 0;
            for t in s.tasks.iter_mut() {
                t.stalled_until = 0;
            }
        }
    }
}

/// Ends a fair phase.
pub fn set_chaos(p: Policy, stale_every: u32) {
    let _u = uncounted();
    if let Some(s) = lock().as_mut() {
        s.policy = p;
        s.stale_every = stale_every;
    }
}

pub fn steps() -> u64 {
    let _u = uncounted();
    lock().as_ref().map(|s| s.steps).unwrap_or(0)
}

pub fn live_tasks() -> usize {
    let _u = uncounted();
    lock().as_ref().map(|s| s.tasks.iter().filter(|t| t.state != State::Done).count()).unwrap_or(0)
}

/// Panics of simulated threads so far.
pub fn panicked() -> Option<(usize, String)> {
    let _u = uncounted();
    lock()
        .as_ref()
        .and_then(|s| s.tasks.iter().enumerate().find_map(|(i, t)| t.panic.clone().map(|p| (i, p))))
}

/// Runs `f` on a new simulated thread; returns its number.
pub fn spawn(f: Box<dyn FnOnce() + Send>) -> usize {
    let _u = uncounted();
    let parent = me().expect("spawn outside the simulation");
    let hash = sim::next_hash_word();
    let tid = {
        let mut g = lock();
        let s = g.as_mut().expect("no simulation");
        let tid = s.tasks.len();
        let mut vc = s.tasks[parent].vc.clone();
        if vc.len() <= tid {
            vc.resize(tid + 1, 0);
        }
        vc[tid] = 1;
        bump(s, parent);
        s.tasks.push(Task {
            state: State::Runnable,
            vc,
            stalled_until: 0,
            panic: None,
            started: false,
        });
        s.live_threads += 1;
        tid
    };
    sim::ev("spawn", &[tid as i64]);
    std::thread::Builder::new()
        .stack_size(4 << 20)
        .spawn(move || {
            sim::set_in_sim(true);
            sim::set_hash_seed(hash | 1);
            TID.with(|t| t.set(tid));
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                // First turn.
                let u = uncounted();
                let mut g = lock();
                loop {
                    let s = g.as_ref().expect("no simulation");
                    if s.aborting {
                        drop(g);
                        abort_now();
                    }
                    if s.current == tid {
                        break;
                    }
                    g = match CV.wait(g) {
                        Ok(g) => g,
                        Err(p) => p.into_inner(),
                    };
                }
                g.as_mut().unwrap().tasks[tid].started = true;
                drop(g);
                drop(u);
                f()
            }));
            sim::set_in_sim(false);
            let _u = uncounted();
            let mut g = lock();
            if let Some(s) = g.as_mut() {
                if let Err(p) = r {
                    if !p.is::<Abort>() {
                        s.tasks[tid].panic = Some(sim::payload_text(&*p));
                        sim::ev("thread_panicked", &[tid as i64]);
                    }
                }
                s.tasks[tid].state = State::Done;
                for t in s.tasks.iter_mut() {
                    if t.state == State::Blocked(u64::MAX - tid as u64) {
                        t.state = State::Runnable;
                    }
                }
                if !s.aborting {
                    drop(g);
                    exit_turn();
                    g = lock();
                }
            }
            if let Some(s) = g.as_mut() {
                s.live_threads -= 1;
            }
            drop(g);
            CV.notify_all();
            TID.with(|t| t.set(usize::MAX));
        })
        .expect("spawn simulated thread");
    point();
    tid
}

/// Hands the processor on when a thread ends.
fn exit_turn() {
    let _u = uncounted();
    let mut g = lock();
    loop {
        let s = match g.as_mut() {
            Some(s) => s,
            None => return,
        };
        if s.aborting {
            return;
        }
        let ready = s.ready();
        if ready.is_empty() {
            if s.idle < 200 && s.tasks.iter().any(|t| matches!(t.state, State::Futex(..))) {
                s.idle += 1;
                std::thread::sleep(std::time::Duration::from_millis(10));
                continue;
            }
            s.deadlocked();
            return;
        }
        s.idle = 0;
        let n = if s.policy == Policy::Fair { 0 } else { sim::choose(ready.len() as u32) as usize };
        s.current = ready[n];
        sim::ev("switch", &[ready[n] as i64]);
        CV.notify_all();
        return;
    }
}

/// Blocks until the thread is done; returns its panic message, if any.
pub fn join(tid: usize) -> Option<String> {
    let _u = uncounted();
    let me_ = me().expect("join outside the simulation");
    point();
    loop {
        {
            let mut g = lock();
            let s = g.as_mut().expect("no simulation");
            if s.tasks[tid].state == State::Done {
                let vc = s.tasks[tid].vc.clone();
                vc_join(&mut s.tasks[me_].vc, &vc);
                return s.tasks[tid].panic.clone();
            }
        }
        block(u64::MAX - tid as u64);
    }
}

pub fn is_done(tid: usize) -> bool {
    lock().as_ref().map(|s| s.tasks[tid].state == State::Done).unwrap_or(true)
}

pub fn current() -> usize {
    me().unwrap_or(usize::MAX)
}

fn bump(s: &mut Sched, t: usize) {
    let v = &mut s.tasks[t].vc;
    if v.len() <= t {
        v.resize(t + 1, 0);
    }
    v[t] += 1;
}

/// Release half of a synchronisation: the caller's clock goes into `into`.
pub fn release(into: &mut Vc) {
    let _u = uncounted();
    if let Some(m) = me() {
        if let Some(s) = lock().as_mut() {
            vc_join(into, &s.tasks[m].vc.clone());
            bump(s, m);
        }
    }
}

/// Acquire half.
pub fn acquire(from: &Vc) {
    let _u = uncounted();
    if let Some(m) = me() {
        if let Some(s) = lock().as_mut() {
            vc_join(&mut s.tasks[m].vc, from);
        }
    }
}

#[derive(Clone, Copy, PartialEq)]
pub enum Order {
    Relaxed,
    Acquire,
    Release,
    AcqRel,
    SeqCst,
}
impl Order {
    fn acq(self) -> bool {
        !matches!(self, Order::Relaxed | Order::Release)
    }
    fn rel(self) -> bool {
        !matches!(self, Order::Relaxed | Order::Acquire)
    }
}

/// A store older than this many steps is visible to every thread.
const VISIBLE_AFTER: u64 = 60;

/// `loc` identifies the atomic, `init` its value before the first recorded store.
pub fn atomic_load(loc: usize, init: u64, o: Order) -> u64 {
    let _u = uncounted();
    point();
    let m = match me() {
        Some(m) => m,
        None => return current_value(loc, init),
    };
    let mut g = lock();
    let s = match g.as_mut() {
        Some(s) => s,
        None => return init,
    };
    let hist = s.atomics.get(&loc).cloned().unwrap_or_default();
    if hist.is_empty() {
        return init;
    }
    let latest = hist.len(); // index 0 = init, i = hist[i-1]
    let mut low = s.atomic_seen.get(&(m, loc)).copied().unwrap_or(0);
    let vc = s.tasks[m].vc.clone();
    for (i, st) in hist.iter().enumerate() {
        let hb = st.by == m || vc.get(st.by).map_or(false, |c| *c >= st.at);
        if hb || st.step + VISIBLE_AFTER < s.steps {
            low = low.max(i + 1);
        }
    }
    let mut idx = latest;
    if o != Order::SeqCst && s.stale_every > 0 && low < latest && sim::chance(1, s.stale_every) {
        idx = latest - 1 - sim::choose((latest - low) as u32) as usize;
        sim::fault("fault.mem.stale_load");
    }
    s.atomic_seen.insert((m, loc), idx);
    if idx == 0 {
        return init;
    }
    let st = &hist[idx - 1];
    if o.acq() {
        if let Some(r) = &st.release {
            vc_join(&mut s.tasks[m].vc, r);
        }
    }
    st.value
}

pub fn current_value(loc: usize, init: u64) -> u64 {
    lock()
        .as_ref()
        .and_then(|s| s.atomics.get(&loc).and_then(|h| h.last()).map(|st| st.value))
        .unwrap_or(init)
}

pub fn atomic_store(loc: usize, value: u64, o: Order) {
    let _u = uncounted();
    point();
    let m = match me() {
        Some(m) => m,
        None => return,
    };
    if let Some(s) = lock().as_mut() {
        push_store(s, m, loc, value, o, None);
    }
}

fn push_store(s: &mut Sched, m: usize, loc: usize, value: u64, o: Order, seq: Option<Vc>) {
    let mut rel = if o.rel() { Some(s.tasks[m].vc.clone()) } else { None };
    if let Some(q) = seq {
        match rel.as_mut() {
            Some(r) => vc_join(r, &q),
            None => rel = Some(q),
        }
    }
    bump(s, m);
    let at = s.tasks[m].vc[m];
    let step = s.steps;
    let h = s.atomics.entry(loc).or_default();
    h.push(Store {
        value,
        by: m,
        at,
        release: rel,
        step,
    });
    let n = h.len();
    s.atomic_seen.insert((m, loc), n);
}

/// Read-modify-write: reads the latest value; `f` returns the new value or None (no store).
pub fn atomic_rmw(loc: usize, init: u64, o: Order, f: impl FnOnce(u64) -> Option<u64>) -> u64 {
    let _u = uncounted();
    point();
    let m = match me() {
        Some(m) => m,
        None => return init,
    };
    let mut g = lock();
    let s = match g.as_mut() {
        Some(s) => s,
        None => return init,
    };
    let last = s.atomics.get(&loc).and_then(|h| h.last().cloned());
    let old = last.as_ref().map(|l| l.value).unwrap_or(init);
    let n = s.atomics.get(&loc).map(|h| h.len()).unwrap_or(0);
    s.atomic_seen.insert((m, loc), n);
    let seq = last.and_then(|l| l.release);
    if o.acq() {
        if let Some(r) = &seq {
            vc_join(&mut s.tasks[m].vc, r);
        }
    }
    if let Some(v) = f(old) {
        push_store(s, m, loc, v, o, seq);
    }
    old
}

/// An atomic is gone: its address may be reused.
pub fn atomic_drop(loc: usize) {
    let _u = uncounted();
    if let Some(s) = lock().as_mut() {
        s.atomics.remove(&loc);
        s.atomic_seen.retain(|k, _| k.1 != loc);
    }
}
