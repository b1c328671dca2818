//! Atomics whose loads return what the memory model allows, as the simulator decides.
pub use std::sync::atomic::Ordering;
use simcore::sched::{self, Order};
use std::sync::atomic::{AtomicU64 as RealU64, AtomicUsize as RealId};

fn ord(o: Ordering) -> Order {
    match o {
        Ordering::Relaxed => Order::Relaxed,
        Ordering::Acquire => Order::Acquire,
        Ordering::Release => Order::Release,
        Ordering::AcqRel => Order::AcqRel,
        _ => Order::SeqCst,
    }
}

struct Raw {
    id: RealId,
    /// Value before the first store of a run.
    init: RealU64,
}
use std::sync::atomic::Ordering::SeqCst;
impl Raw {
    const fn new(v: u64) -> Raw {
        Raw {
            id: RealId::new(0),
            init: RealU64::new(v),
        }
    }
    fn loc(&self) -> usize {
        let i = self.id.load(SeqCst);
        if i != 0 {
            return i;
        }
        let n = sched::new_resource() as usize;
        match self.id.compare_exchange(0, n, SeqCst, SeqCst) {
            Ok(_) => n,
            Err(o) => o,
        }
    }
    fn load(&self, o: Ordering) -> u64 {
        assert!(!matches!(o, Ordering::Release | Ordering::AcqRel), "invalid ordering of a load");
        sched::atomic_load(self.loc(), self.init.load(SeqCst), ord(o))
    }
    fn store(&self, v: u64, o: Ordering) {
        assert!(!matches!(o, Ordering::Acquire | Ordering::AcqRel), "invalid ordering of a store");
        if sched::on_sim_thread() {
            sched::atomic_store(self.loc(), v, ord(o));
        } else {
            self.init.store(v, SeqCst);
        }
    }
    fn rmw(&self, o: Ordering, f: impl FnOnce(u64) -> Option<u64>) -> u64 {
        if sched::on_sim_thread() {
            sched::atomic_rmw(self.loc(), self.init.load(SeqCst), ord(o), f)
        } else {
            let old = self.init.load(SeqCst);
            if let Some(v) = f(old) {
                self.init.store(v, SeqCst);
            }
            old
        }
    }
    fn now(&self) -> u64 {
        sched::current_value(self.loc(), self.init.load(SeqCst))
    }
}
impl Drop for Raw {
    fn drop(&mut self) {
        let i = self.id.load(SeqCst);
        if i != 0 {
            sched::atomic_drop(i);
        }
    }
}

pub fn fence(_: Ordering) {
    sched::point();
}
pub fn compiler_fence(_: Ordering) {}
pub fn spin_loop_hint() {
    sched::point();
}

macro_rules! common {
    ($name:ident, $t:ty, $to:expr, $from:expr) => {
        pub struct $name(Raw);
        impl $name {
            pub fn load(&self, o: Ordering) -> $t {
                $from(self.0.load(o))
            }
            pub fn store(&self, v: $t, o: Ordering) {
                self.0.store($to(v), o)
            }
            pub fn swap(&self, v: $t, o: Ordering) -> $t {
                $from(self.0.rmw(o, |_| Some($to(v))))
            }
            pub fn compare_exchange(&self, cur: $t, new: $t, s: Ordering, _f: Ordering) -> Result<$t, $t> {
                let old = $from(self.0.rmw(s, |v| if $from(v) == cur { Some($to(new)) } else { None }));
                if old == cur {
                    Ok(old)
                } else {
                    Err(old)
                }
            }
            pub fn compare_exchange_weak(&self, cur: $t, new: $t, s: Ordering, f: Ordering) -> Result<$t, $t> {
                self.compare_exchange(cur, new, s, f)
            }
            pub fn compare_and_swap(&self, cur: $t, new: $t, o: Ordering) -> $t {
                match self.compare_exchange(cur, new, o, o) {
                    Ok(v) | Err(v) => v,
                }
            }
            pub fn fetch_update<F: FnMut($t) -> Option<$t>>(&self, s: Ordering, _f: Ordering, mut f: F) -> Result<$t, $t> {
                let mut done = false;
                let old = $from(self.0.rmw(s, |v| {
                    let n = f($from(v));
                    done = n.is_some();
                    n.map($to)
                }));
                if done {
                    Ok(old)
                } else {
                    Err(old)
                }
            }
            pub fn into_inner(self) -> $t {
                $from(self.0.now())
            }
        }
        impl From<$t> for $name {
            fn from(v: $t) -> Self {
                $name::new(v)
            }
        }
        impl std::fmt::Debug for $name {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                write!(f, "{:?}", $from(self.0.now()))
            }
        }
    };
}

common!(AtomicBool, bool, |v: bool| v as u64, |v: u64| v != 0);
impl AtomicBool {
    pub const fn new(v: bool) -> Self {
        AtomicBool(Raw::new(v as u64))
    }
    pub fn fetch_and(&self, v: bool, o: Ordering) -> bool {
        self.0.rmw(o, |x| Some(x & v as u64)) != 0
    }
    pub fn fetch_or(&self, v: bool, o: Ordering) -> bool {
        self.0.rmw(o, |x| Some(x | v as u64)) != 0
    }
    pub fn fetch_xor(&self, v: bool, o: Ordering) -> bool {
        self.0.rmw(o, |x| Some(x ^ v as u64)) != 0
    }
    pub fn fetch_nand(&self, v: bool, o: Ordering) -> bool {
        self.0.rmw(o, |x| Some(!(x != 0 && v) as u64)) != 0
    }
    pub fn fetch_not(&self, o: Ordering) -> bool {
        self.0.rmw(o, |x| Some((x == 0) as u64)) != 0
    }
}
impl Default for AtomicBool {
    fn default() -> Self {
        AtomicBool::new(false)
    }
}

macro_rules! ints {
    ($($name:ident $t:ty),*) => {$(
        common!($name, $t, |v: $t| v as u64, |v: u64| v as $t);
        impl $name {
            pub const fn new(v: $t) -> Self {
                $name(Raw::new(v as u64))
            }
            pub fn fetch_add(&self, v: $t, o: Ordering) -> $t {
                self.0.rmw(o, |x| Some((x as $t).wrapping_add(v) as u64)) as $t
            }
            pub fn fetch_sub(&self, v: $t, o: Ordering) -> $t {
                self.0.rmw(o, |x| Some((x as $t).wrapping_sub(v) as u64)) as $t
            }
            pub fn fetch_and(&self, v: $t, o: Ordering) -> $t {
                self.0.rmw(o, |x| Some(((x as $t) & v) as u64)) as $t
            }
            pub fn fetch_or(&self, v: $t, o: Ordering) -> $t {
                self.0.rmw(o, |x| Some(((x as $t) | v) as u64)) as $t
            }
            pub fn fetch_xor(&self, v: $t, o: Ordering) -> $t {
                self.0.rmw(o, |x| Some(((x as $t) ^ v) as u64)) as $t
            }
            pub fn fetch_max(&self, v: $t, o: Ordering) -> $t {
                self.0.rmw(o, |x| Some((x as $t).max(v) as u64)) as $t
            }
            pub fn fetch_min(&self, v: $t, o: Ordering) -> $t {
                self.0.rmw(o, |x| Some((x as $t).min(v) as u64)) as $t
            }
        }
        impl Default for $name {
            fn default() -> Self {
                $name::new(0)
            }
        }
    )*};
}
ints!(AtomicU8 u8, AtomicU16 u16, AtomicU32 u32, AtomicU64 u64, AtomicUsize usize,
      AtomicI8 i8, AtomicI16 i16, AtomicI32 i32, AtomicI64 i64, AtomicIsize isize);

pub struct AtomicPtr<T>(AtomicUsize, std::marker::PhantomData<*mut T>);
unsafe impl<T> Send for AtomicPtr<T> {}
unsafe impl<T> Sync for AtomicPtr<T> {}
impl<T> AtomicPtr<T> {
    pub fn new(p: *mut T) -> Self {
        AtomicPtr(AtomicUsize::new(p as usize), std::marker::PhantomData)
    }
    pub fn load(&self, o: Ordering) -> *mut T {
        self.0.load(o) as *mut T
    }
    pub fn store(&self, p: *mut T, o: Ordering) {
        self.0.store(p as usize, o)
    }
    pub fn swap(&self, p: *mut T, o: Ordering) -> *mut T {
        self.0.swap(p as usize, o) as *mut T
    }
    pub fn compare_exchange(&self, c: *mut T, n: *mut T, s: Ordering, f: Ordering) -> Result<*mut T, *mut T> {
        self.0
            .compare_exchange(c as usize, n as usize, s, f)
            .map(|v| v as *mut T)
            .map_err(|v| v as *mut T)
    }
}
