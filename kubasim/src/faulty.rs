//! A map element whose copying fails when a fuse burns down.
use std::sync::atomic::{AtomicI64, Ordering::Relaxed};

static FUSE: AtomicI64 = AtomicI64::new(-1);
static BLOWN: AtomicI64 = AtomicI64::new(0);

/// The n-th copy from now on panics (n = 0: the next one); None disarms.
pub fn set_fuse(n: Option<i64>) {
    FUSE.store(n.map(|v| v + 1).unwrap_or(0), Relaxed);
}
pub fn blown() -> bool {
    BLOWN.swap(0, Relaxed) > 0
}

#[derive(Debug)]
pub struct Tok {
    pub id: u32,
    /// Complement of `id`: a torn or invented element does not have it.
    check: u32,
}
// Map elements must be `Copy`; copies made through `Clone` can fail all the same.
impl Copy for Tok {}
impl Tok {
    pub fn new(id: u32) -> Tok {
        Tok { id, check: !id }
    }
    pub fn intact(&self) -> bool {
        self.check == !self.id
    }
}
impl PartialEq for Tok {
    fn eq(&self, o: &Tok) -> bool {
        self.id == o.id
    }
}
impl Clone for Tok {
    fn clone(&self) -> Tok {
        let f = FUSE.load(Relaxed);
        if f > 0 {
            FUSE.store(f - 1, Relaxed);
            if f == 1 {
                BLOWN.store(1, Relaxed);
                panic!("simulated failure copying an element");
            }
        }
        Tok { id: self.id, check: self.check }
    }
}
