//! Reference model of a map: a dense box of values addressed by global cell (position / resolution
//! rounded), which never moves.
use crate::api::{MapApi, C3, P3};
use crate::faulty::Tok;
use simcore::sim::{self, chance, choose, fail, pick, Res};

pub trait Val: nalgebra::Scalar + crate::api::DefaultElem {
    fn of(id: u32) -> Self;
    fn num(&self) -> i64;
    fn ok(&self) -> bool {
        true
    }
}
impl Val for f32 {
    fn of(id: u32) -> f32 {
        id as f32 * 0.25 - 7.0
    }
    fn num(&self) -> i64 {
        self.to_bits() as i64
    }
}
impl Val for i32 {
    fn of(id: u32) -> i32 {
        id as i32 - 1000
    }
    fn num(&self) -> i64 {
        *self as i64
    }
}
impl Val for Tok {
    fn of(id: u32) -> Tok {
        Tok::new(id)
    }
    fn num(&self) -> i64 {
        self.id as i64
    }
    fn ok(&self) -> bool {
        self.intact()
    }
}

#[derive(Clone)]
pub struct Model<E> {
    pub n: usize,
    pub lo: C3,
    pub hi: C3,
    pub cells: Vec<E>,
}

impl<E: Val> Model<E> {
    pub fn dims(&self) -> C3 {
        [self.hi[0] - self.lo[0], self.hi[1] - self.lo[1], self.hi[2] - self.lo[2]]
    }
    pub fn len(&self) -> usize {
        let d = self.dims();
        (d[0] * d[1] * d[2]) as usize
    }
    pub fn has(&self, g: C3) -> bool {
        (0..3).all(|i| g[i] >= self.lo[i] && g[i] < self.hi[i])
    }
    pub fn idx(&self, g: C3) -> usize {
        let d = self.dims();
        (((g[0] - self.lo[0]) * d[1] + (g[1] - self.lo[1])) * d[2] + (g[2] - self.lo[2])) as usize
    }
    pub fn cell(&self, i: usize) -> C3 {
        let d = self.dims();
        let i = i as i64;
        [
            self.lo[0] + i / (d[1] * d[2]),
            self.lo[1] + i / d[2] % d[1],
            self.lo[2] + i % d[2],
        ]
    }
    pub fn get(&self, g: C3) -> &E {
        &self.cells[self.idx(g)]
    }
    pub fn set(&mut self, g: C3, v: E) {
        let i = self.idx(g);
        self.cells[i] = v;
    }
    pub fn local(&self, g: C3) -> C3 {
        [g[0] - self.lo[0], g[1] - self.lo[1], g[2] - self.lo[2]]
    }
    pub fn grow_to(&mut self, lo: C3, hi: C3, default: E) {
        let old = std::mem::replace(
            self,
            Model {
                n: self.n,
                lo,
                hi,
                cells: vec![],
            },
        );
        self.cells = vec![default; self.len()];
        for (i, v) in old.cells.iter().enumerate() {
            let g = old.cell(i);
            if self.has(g) {
                let k = self.idx(g);
                self.cells[k] = v.clone();
            }
        }
    }
}

/// Extent of a map in global cells, and the largest distance of a corner from the cell grid (cells).
pub fn extent<E, M: MapApi<E>>(m: &M) -> (C3, C3, f64) {
    let (min, max) = m.ext();
    let res = m.res() as f64;
    let mut lo = [0; 3];
    let mut hi = [1; 3];
    let mut off = 0.0f64;
    for i in 0..M::N {
        let a = min[i] as f64 / res;
        let b = max[i] as f64 / res;
        lo[i] = a.round() as i64;
        hi[i] = b.round() as i64;
        off = off.max((a - a.round()).abs()).max((b - b.round()).abs());
    }
    (lo, hi, off)
}

/// Cells of slack for single-precision rounding of coordinates up to `x` metres.
pub fn slack(x: f64, res: f64) -> f64 {
    0.002 + 8.0 * 1.2e-7 * x.abs() / res
}

pub fn initial<E: Val, M: MapApi<E>>(m: &M, default: E) -> Result<Model<E>, sim::Fail> {
    let (lo, hi, _) = extent::<E, M>(m);
    for i in 0..M::N {
        if hi[i] < lo[i] {
            return fail("bad-extent", format!("extent {:?}..{:?}", lo, hi));
        }
    }
    let mut k = Model {
        n: M::N,
        lo,
        hi,
        cells: vec![],
    };
    k.cells = vec![default; k.len()];
    Ok(k)
}

/// Every cell of the map against the model.
pub fn same<E: Val, M: MapApi<E>>(m: &M, k: &Model<E>, class: &str, what: &str) -> Res {
    let (lo, hi, _) = extent::<E, M>(m);
    for i in 0..M::N {
        if (lo[i] != k.lo[i] || hi[i] != k.hi[i]) && k.len() > 0 {
            return fail(
                class,
                format!("{}: extent is {:?}..{:?} cells, expected {:?}..{:?}", what, lo, hi, k.lo, k.hi),
            );
        }
    }
    for i in 0..k.cells.len() {
        let g = k.cell(i);
        let v = match sim::guarded(|| m.at(k.local(g))) {
            Ok(v) => v,
            Err(p) => return fail(class, format!("{}: reading world cell {:?} panicked: {}", what, g, p)),
        };
        if v != k.cells[i] || !v.ok() {
            return fail(
                class,
                format!("{}: world cell {:?} holds {:?}, expected {:?}", what, g, v, k.cells[i]),
            );
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ configuration of a run

#[derive(Clone, Debug)]
pub struct Cfg {
    pub n: usize,
    pub res: f32,
    pub tile: usize,
    /// Home area: centre and half size in cells.
    pub home: C3,
    pub half: [i64; 3],
    pub cap: i64,
}

pub fn cfg(n: usize, near_origin: bool) -> Cfg {
    let res = pick(&[0.1f32, 0.05, 0.25, 0.5, 1.0, 0.3, 0.2, 2.0, 0.07, 0.15]);
    let tile = if n == 2 {
        pick(&[1usize, 2, 3, 4, 5, 8, 10, 16, 33, 100])
    } else {
        pick(&[1usize, 2, 3, 4, 5, 6, 8])
    };
    let mut home = [0; 3];
    let mut half = [0; 3];
    let far = pick(&[0i64, 0, 1, 7, 60, 700, 4000, 40_000]);
    for i in 0..n {
        if !near_origin {
            home[i] = (sim::signed(far as f64)).round() as i64;
        }
        let m = if n == 2 { 45 } else { 9 };
        half[i] = 1 + choose(m) as i64;
    }
    let mut cap = 40_000;
    if !near_origin && chance(1, 250) {
        // A long strip: more cells along one axis than sixteen bits count.
        sim::count("probe.strip");
        let axis = choose(n as u32) as usize;
        for i in 0..n {
            half[i] = 1;
            home[i] = home[i].min(700).max(-700);
        }
        half[axis] = 17_000 + choose(4_000) as i64;
        return Cfg {
            n,
            res,
            tile: pick(&[1usize, 2, 3, 4]),
            home,
            half,
            cap: if n == 2 { 500_000 } else { 600_000 },
        };
    }
    if n == 2 && tile >= 33 {
        cap *= 5;
    }
    Cfg {
        n,
        res,
        tile,
        home,
        half,
        cap,
    }
}

impl Cfg {
    /// A coordinate in cells, biased to tile and cell boundaries.
    pub fn coord(&self, i: usize) -> f64 {
        let span = 2 * self.half[i] + 1;
        let mut k = self.home[i] - self.half[i] + (self.half[i] + choose(span as u32) as i64) % span;
        if chance(1, 3) {
            let t = self.tile as i64;
            k = (k.div_euclid(t)) * t;
        }
        let f = match choose(12) {
            0 | 1 => 0.0,
            2 => 0.25,
            3 => 0.5,
            4 => -0.5,
            5 => 0.49,
            6 => 0.51,
            7 => -0.49,
            8 => 0.75,
            9 => -0.1,
            _ => sim::signed(0.999),
        };
        k as f64 + f
    }
    pub fn world(&self, cells: f64) -> f32 {
        (cells * self.res as f64) as f32
    }
    /// A region of interest, as a client states it.
    pub fn region(&self) -> (P3, P3) {
        let mut a = [0.0f32; 3];
        let mut b = [0.0f32; 3];
        let kind = choose(6);
        for i in 0..self.n {
            let x = self.coord(i);
            let y = match kind {
                0 => x,                              // a single point
                1 => x + choose(3) as f64,           // small, cell sized
                2 => x + self.tile as f64,           // exactly one tile long
                _ => self.coord(i),
            };
            a[i] = self.world(x.min(y));
            b[i] = self.world(x.max(y));
            if b[i] < a[i] {
                b[i] = a[i];
            }
        }
        (a, b)
    }
    /// Upper estimate of the cells after growing from lo..hi to include a..b.
    pub fn too_big(&self, lo: C3, hi: C3, empty: bool, a: P3, b: P3) -> bool {
        let mut v = 1i64;
        let t = self.tile as i64;
        for i in 0..self.n {
            let mut l = (a[i] as f64 / self.res as f64).floor() as i64 - t;
            let mut h = (b[i] as f64 / self.res as f64).ceil() as i64 + 1 + t;
            if !empty {
                l = l.min(lo[i] - t);
                h = h.max(hi[i] + t);
            }
            v = v.saturating_mul(h - l);
        }
        v > self.cap
    }
    pub fn random_cell<E: Val>(&self, k: &Model<E>) -> Option<C3> {
        if k.cells.is_empty() {
            return None;
        }
        let mut g = [0; 3];
        for i in 0..self.n {
            let d = k.hi[i] - k.lo[i];
            g[i] = k.lo[i] + match choose(6) {
                0 => 0,
                1 => d - 1,
                _ => choose(d as u32) as i64,
            };
        }
        Some(g)
    }
    /// A world point inside a global cell (jitter below half a cell, off the border).
    pub fn inside(&self, g: C3) -> P3 {
        let mut p = [0.0; 3];
        for i in 0..self.n {
            p[i] = self.world(g[i] as f64 + sim::signed(pick(&[0.0, 0.3, 0.45])));
        }
        p
    }
}

/// A link that delays, reorders, repeats and loses what clients send.
pub struct Net<T> {
    pub q: Vec<T>,
    lossy: bool,
}
impl<T: Clone> Net<T> {
    pub fn new() -> Net<T> {
        Net {
            q: vec![],
            lossy: chance(1, 2),
        }
    }
    pub fn send(&mut self, t: T) {
        self.q.push(t);
    }
    pub fn deliver(&mut self) -> Option<T> {
        sim::advance_us(choose(100_000) as u64);
        if self.q.is_empty() {
            return None;
        }
        let i = if self.lossy { choose(self.q.len() as u32) as usize } else { 0 };
        if i > 0 {
            sim::fault("fault.link.reordered");
        }
        if self.lossy && chance(1, 12) {
            sim::fault("fault.link.duplicated");
            return Some(self.q[i].clone());
        }
        let t = self.q.remove(i);
        if self.lossy && chance(1, 15) {
            sim::fault("fault.link.lost");
            return None;
        }
        Some(t)
    }
}
