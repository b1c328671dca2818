//! Per-run simulation state: the choice tape, the event log hash, counters and coverage.
use crate::alloc::uncounted;
use crate::rng::Rng;
use std::cell::Cell;
use std::collections::BTreeMap;
use std::sync::Mutex;

thread_local! {
    static IN_SIM: Cell<bool> = const { Cell::new(false) };
    static HASH_STREAM: Cell<u64> = const { Cell::new(0) };
}

/// True while the calling thread executes simulated code (syscall interposition active).
#[inline]
pub fn in_sim() -> bool {
    IN_SIM.with(|c| c.get())
}

pub fn set_in_sim(v: bool) -> bool {
    IN_SIM.with(|c| c.replace(v))
}

/// Runs `f` with interposition off (harness bookkeeping, preparing scratch files).
pub fn outside<R>(f: impl FnOnce() -> R) -> R {
    struct Restore(bool);
    impl Drop for Restore {
        fn drop(&mut self) {
            set_in_sim(self.0);
        }
    }
    let _r = Restore(set_in_sim(false));
    f()
}

/// The stream std's hash maps draw their keys from on this thread (0 = not simulated).
pub fn set_hash_seed(seed: u64) {
    HASH_STREAM.with(|c| c.set(seed));
}
pub fn next_hash_word() -> u64 {
    HASH_STREAM.with(|c| {
        let v = crate::rng::mix(c.get());
        c.set(v);
        v
    })
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Fail {
    /// Stable identification of the violation kind (minimisation keeps it).
    pub class: String,
    pub msg: String,
}

pub type Res = Result<(), Fail>;

pub fn fail<T>(class: &str, msg: impl Into<String>) -> Result<T, Fail> {
    Err(Fail {
        class: class.to_string(),
        msg: msg.into(),
    })
}

pub enum Source {
    Gen(Rng),
    Replay(Vec<u32>),
}

pub const BITMAP_BITS: usize = 1 << 22;

pub struct St {
    source: Source,
    pub tape: Vec<u32>,
    pub hash: u64,
    pub events: u64,
    pub trace: Option<Vec<String>>,
    pub nontrivial: bool,
    pub sim_us: u64,
}

static ST: Mutex<Option<St>> = Mutex::new(None);
static TAPE_OUT: Mutex<Option<std::fs::File>> = Mutex::new(None);

/// Also writes every choice to a file as it is made (the tape survives a crash of the process).
pub fn stream_tape(f: std::fs::File) {
    *lock(&TAPE_OUT) = Some(f);
}
/// Counters and state coverage accumulate over all runs of a process.
static COUNTS: Mutex<BTreeMap<&'static str, u64>> = Mutex::new(BTreeMap::new());
static BITMAP: Mutex<Vec<u64>> = Mutex::new(Vec::new());

fn lock<T>(m: &Mutex<T>) -> std::sync::MutexGuard<'_, T> {
    match m.lock() {
        Ok(g) => g,
        Err(p) => p.into_inner(),
    }
}

pub fn begin(source: Source, trace: bool) {
    *lock(&ST) = Some(St {
        source,
        tape: Vec::new(),
        hash: 0xcbf2_9ce4_8422_2325,
        events: 0,
        trace: if trace { Some(vec![]) } else { None },
        nontrivial: false,
        sim_us: 0,
    });
}

pub fn end() -> St {
    lock(&ST).take().expect("no run")
}

/// Every choice the simulator makes. Returns a value in [0, n). 0 is always the simplest
/// alternative (no fault, same thread, stop generating), so that minimisation converges on it.
pub fn choose(n: u32) -> u32 {
    let _u = uncounted();
    let mut g = lock(&ST);
    let st = match g.as_mut() {
        Some(s) => s,
        None => return 0,
    };
    if n <= 1 {
        return 0;
    }
    let pos = st.tape.len();
    let v = match &mut st.source {
        Source::Gen(r) => r.below(n),
        Source::Replay(t) => t.get(pos).copied().unwrap_or(0) % n,
    };
    st.tape.push(v);
    if let Some(f) = lock(&TAPE_OUT).as_ref() {
        use std::os::unix::fs::FileExt;
        let _ = f.write_at(&v.to_le_bytes(), 4 * pos as u64);
    }
    v
}

/// A 32-bit seed for bulk content (bytes, floats) whose individual values need no minimising.
pub fn seed32() -> u32 {
    choose(u32::MAX)
}

pub fn range(lo: i64, hi: i64) -> i64 {
    debug_assert!(hi >= lo);
    lo + choose((hi - lo + 1) as u32) as i64
}

/// True with probability num/den; false is the simple case.
pub fn chance(num: u32, den: u32) -> bool {
    choose(den) >= den - num.min(den)
}

pub fn pick<T: Clone>(xs: &[T]) -> T {
    xs[choose(xs.len() as u32) as usize].clone()
}

/// Uniform in [lo, hi] on a grid of 2^16 steps; 0 on the tape is `lo`.
pub fn uniform(lo: f64, hi: f64) -> f64 {
    lo + (hi - lo) * (choose(65537) as f64 / 65536.0)
}

/// Signed uniform in [-m, m]; 0 on the tape is 0.0.
pub fn signed(m: f64) -> f64 {
    let c = choose(131073) as i64;
    let v = (c + 1) / 2;
    let s = if c % 2 == 1 { 1.0 } else { -1.0 };
    s * m * (v as f64) / 65536.0
}

/// Appends to the event log. Never draws from the PRNG, never reads a clock.
pub fn ev(tag: &'static str, args: &[i64]) {
    let _u = uncounted();
    let mut g = lock(&ST);
    if let Some(st) = g.as_mut() {
        let mut h = st.hash;
        for b in tag.bytes() {
            h = (h ^ b as u64).wrapping_mul(0x100_0000_01b3);
        }
        for a in args {
            h = (h ^ (*a as u64)).wrapping_mul(0x100_0000_01b3);
            h ^= h >> 29;
        }
        st.hash = h;
        st.events += 1;
        if let Some(t) = st.trace.as_mut() {
            if t.len() < 4000 {
                let mut s = String::from(tag);
                for a in args {
                    s.push(' ');
                    s.push_str(&a.to_string());
                }
                t.push(s);
            }
        }
    }
}

/// A human-readable note in the trace only (not hashed, evaluated only when tracing).
pub fn note(f: impl FnOnce() -> String) {
    let _u = uncounted();
    let tracing = matches!(lock(&ST).as_ref(), Some(st) if st.trace.is_some());
    if tracing {
        let s = f();
        if let Some(st) = lock(&ST).as_mut() {
            if let Some(t) = st.trace.as_mut() {
                if t.len() < 4000 {
                    t.push(format!("    # {}", s));
                }
            }
        }
    }
}

pub fn count(key: &'static str) {
    add(key, 1);
}
pub fn add(key: &'static str, n: u64) {
    let _u = uncounted();
    *lock(&COUNTS).entry(key).or_insert(0) += n;
}
pub fn counts() -> BTreeMap<&'static str, u64> {
    lock(&COUNTS).clone()
}

/// Fault actually fired: counted and logged.
pub fn fault(key: &'static str) {
    count(key);
    ev(key, &[]);
    nontrivial();
}

pub fn nontrivial() {
    if let Some(st) = lock(&ST).as_mut() {
        st.nontrivial = true;
    }
}

/// Simulated time passing.
pub fn advance_us(us: u64) {
    if let Some(st) = lock(&ST).as_mut() {
        st.sim_us += us;
    }
}
pub fn now_us() -> u64 {
    lock(&ST).as_ref().map(|s| s.sim_us).unwrap_or(0)
}

/// Records an abstract state as reached (bitmap, linear counting).
pub fn cover(h: u64) {
    let _u = uncounted();
    let b = (crate::rng::mix(h) as usize) & (BITMAP_BITS - 1);
    let mut g = lock(&BITMAP);
    if g.is_empty() {
        g.resize(BITMAP_BITS / 64, 0);
    }
    g[b / 64] |= 1 << (b % 64);
}
pub fn bitmap() -> Vec<u64> {
    let mut g = lock(&BITMAP).clone();
    if g.is_empty() {
        g.resize(BITMAP_BITS / 64, 0);
    }
    g
}

pub fn hash_mix(h: u64, v: u64) -> u64 {
    let h = (h ^ v).wrapping_mul(0x100_0000_01b3);
    h ^ (h >> 31)
}

/// FNV over bytes.
pub fn fnv(bytes: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in bytes {
        h = (h ^ *b as u64).wrapping_mul(0x100_0000_01b3);
    }
    h
}

/// Calls `f`; a panic of the code under test comes back as its message.
pub fn guarded<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(p) => Err(payload_text(&*p)),
    }
}

pub fn payload_text(p: &(dyn std::any::Any + Send)) -> String {
    let mut m = if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".to_string()
    };
    if m.len() > 300 {
        let mut n = 300;
        while !m.is_char_boundary(n) {
            n -= 1;
        }
        m.truncate(n);
    }
    m
}
