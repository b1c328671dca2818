//! C07 to C10 (and the integration part of C06): scans arriving over a faulty link, integrated
//! into a live map.
use crate::api::*;
use crate::model::{extent, Net};
use kuba::{LidarOccupancyGridMap2, LidarOccupancyGridMap3};
use simcore::sim::{self, chance, choose, ev, fail, pick, Res};
use std::collections::BTreeSet;

// ------------------------------------------------------------------ workload

#[derive(Clone, Debug)]
pub struct Scan {
    pub origin: P3,
    pub pts: Vec<P3>,
}

pub struct World {
    pub n: usize,
    pub res: f32,
    pub tile: usize,
    pub noise: NoiseCfg,
    /// Half size of the area sensors move in, in cells.
    pub span: f64,
    /// Typical range of returns.
    pub reach: f64,
    pub pos: [f64; 3],
    pub vel: [f64; 3],
    pub max_pts: u32,
    /// Where the sensors move, in cells.
    pub home: [f64; 3],
    /// Factor by which everything is longer along one axis, for rays of thousands of cells.
    stretch: [f64; 3],
    adversarial: bool,
    pub bulk: bool,
}

pub fn noise_cfg(span: f64, res: f32) -> NoiseCfg {
    let mut c = NoiseCfg {
        hit: 0.7,
        miss: 0.4,
        min: 0.1192,
        max: 0.971,
        thr: 0.5,
        range: 60.0,
    };
    if chance(2, 3) {
        c.hit = pick(&[0.7f32, 0.55, 0.9, 0.99, 0.51, 0.62]);
        c.miss = pick(&[0.4f32, 0.45, 0.1, 0.49, 0.3]);
        c.min = pick(&[0.1192f32, 0.4, 0.01, 0.3, 0.001]);
        c.max = pick(&[0.971f32, 0.6, 0.9, 0.99, 0.999]);
        c.thr = pick(&[0.5f32, 0.3, 0.7, 0.62, 0.9]);
    }
    if chance(1, 12) {
        // Certainties (infinite log-odds) and evidence that says nothing.
        match choose(6) {
            0 => c.hit = 1.0,
            1 => c.miss = 0.0,
            2 => c.min = 0.0,
            3 => c.max = 1.0,
            4 => c.hit = 0.5,
            _ => c.miss = 0.5,
        }
        c.thr = pick(&[0.5f32, 0.0, 1.0, 0.7]);
    }
    c.range = match choose(7) {
        0 => 0.0,
        1 => -1.0,
        2 => 60.0,
        3 => f32::INFINITY,
        _ => (res as f64 * (1.0 + sim::uniform(0.0, 1.3) * span)) as f32,
    };
    c
}

pub fn world(n: usize, adversarial: bool) -> World {
    let res = pick(&[0.1f32, 0.05, 0.25, 0.5, 1.0, 0.3, 0.2, 0.07]);
    let tile = if n == 2 {
        pick(&[1usize, 2, 3, 4, 5, 8, 10, 16, 100])
    } else {
        pick(&[1usize, 2, 3, 4, 5, 6])
    };
    // A few runs with scans and maps of the size a real sensor gives.
    let bulk = chance(1, 1000);
    let (tile, span) = if bulk {
        sim::count("probe.bulk_runs");
        if n == 2 { (pick(&[16usize, 100]), 120.0) } else { (6, 28.0) }
    } else if n == 2 {
        (tile, pick(&[3.0, 8.0, 20.0, 45.0]))
    } else {
        (tile, pick(&[2.0, 4.0, 8.0]))
    };
    // Some with rays of thousands of cells along one axis.
    let mut stretch = [1.0; 3];
    let long = !bulk && chance(1, 250);
    let (tile, span) = if long {
        sim::count("probe.long_ray_runs");
        stretch[choose(n as u32) as usize] = pick(&[100.0, 300.0, if n == 2 { 2000.0 } else { 500.0 }]);
        (tile.min(10), pick(&[2.0, 4.0]))
    } else {
        (tile, span)
    };
    let reach = span * pick(&[0.3, 1.0, 1.0]);
    let far = pick(&[0.0, 0.0, 0.0, 3.0, 20.0, 200.0, 1500.0, if adversarial { 40_000.0 } else { 5000.0 }]);
    let mut home = [0.0; 3];
    for i in 0..n {
        home[i] = sim::signed(far).round();
    }
    let mut pos = [0.0; 3];
    let mut vel = [0.0; 3];
    for i in 0..n {
        pos[i] = sim::signed(span);
        vel[i] = sim::signed(pick(&[0.0, 0.4, 2.0]));
    }
    let longest = stretch.iter().cloned().fold(1.0, f64::max);
    World {
        n,
        res,
        tile,
        noise: noise_cfg(span * longest, res),
        span,
        reach,
        pos,
        vel,
        max_pts: if long {
            20
        } else if bulk { pick(&[300u32, 800]) } else { pick(&[2u32, 6, 6, 20, 60]) },
        bulk: bulk || long,
        stretch,
        home,
        adversarial,
    }
}

impl World {
    pub fn w(&self, cells: f64) -> f32 {
        (cells * self.res as f64) as f32
    }
    fn special(&self, x: f64) -> f64 {
        match choose(6) {
            0 => x.round(),
            1 => x.round() + 0.5,
            2 => x.round() - 0.5,
            3 => (x / self.tile as f64).round() * self.tile as f64,
            4 => (x / self.tile as f64).round() * self.tile as f64 - sim::uniform(0.0, 0.5),
            _ => x,
        }
    }
    fn limit(&self, x: f64) -> f64 {
        let m = self.span * 1.6 + 2.0;
        x.max(-m).min(m)
    }
    /// Next scan of the moving sensor.
    pub fn scan(&mut self) -> Scan {
        let n = self.n;
        for i in 0..n {
            self.pos[i] += self.vel[i];
            if self.pos[i].abs() > self.span {
                self.vel[i] = -self.vel[i];
                self.pos[i] = self.pos[i].max(-self.span).min(self.span);
            }
        }
        let odd = self.adversarial && chance(2, 3);
        let mut o = self.pos;
        if chance(1, 8) {
            for i in 0..n {
                o[i] = sim::signed(self.span);
            }
        }
        if odd || chance(1, 5) {
            for i in 0..n {
                if chance(1, 2) {
                    o[i] = self.special(o[i]);
                }
            }
        }
        let count = choose(self.max_pts + 1);
        let mut pts: Vec<[f64; 3]> = vec![];
        for _ in 0..count {
            let mut p = [0.0; 3];
            let kind = choose(if odd { 12 } else { 7 });
            match kind {
                0..=3 => {
                    for i in 0..n {
                        p[i] = o[i] + sim::signed(self.reach);
                    }
                }
                4 => {
                    // Along one axis.
                    p = o;
                    let a = choose(n as u32) as usize;
                    p[a] += sim::signed(self.reach);
                }
                5 => {
                    // Very close.
                    for i in 0..n {
                        p[i] = o[i] + sim::signed(1.2);
                    }
                }
                6 => {
                    if let Some(q) = pts.last() {
                        p = *q;
                    } else {
                        p = o;
                    }
                }
                7 => {
                    // Exact diagonal: through cell corners.
                    let d = sim::signed(self.reach);
                    for i in 0..n {
                        p[i] = o[i] + if chance(1, 2) { d } else { -d };
                    }
                }
                8 => {
                    for i in 0..n {
                        p[i] = self.special(o[i] + sim::signed(self.reach));
                    }
                }
                9 => p = o,
                10 => {
                    // Almost along one axis.
                    for i in 0..n {
                        p[i] = o[i] + sim::signed(1e-4);
                    }
                    let a = choose(n as u32) as usize;
                    p[a] = o[a] + sim::signed(self.reach);
                }
                _ => {
                    let k = pick(&[1.0, 2.0, 3.0, 0.5]);
                    let d = (sim::signed(self.reach)).round();
                    for i in 0..n {
                        p[i] = o[i].round() + if i == 0 { d } else { (d / k).round() } + pick(&[0.0, 0.5, -0.5]);
                    }
                }
            }
            for i in 0..n {
                p[i] = self.limit(p[i]);
            }
            pts.push(p);
        }
        let f = |p: [f64; 3]| {
            let mut a = [0.0f32; 3];
            for i in 0..n {
                a[i] = self.w(self.home[i] + p[i] * self.stretch[i]);
            }
            a
        };
        Scan {
            origin: f(o),
            pts: pts.into_iter().map(f).collect(),
        }
    }
    pub fn too_big<M: MapApi<f32>>(&self, m: &M, s: &Scan) -> bool {
        let (lo, hi, _) = extent::<f32, M>(m);
        let t = self.tile as i64;
        let mut v = 1i64;
        let nothing_yet = m.ext().0 == m.ext().1;
        for i in 0..self.n {
            let mut a = if nothing_yet { i64::MAX } else { lo[i] };
            let mut b = if nothing_yet { i64::MIN } else { hi[i] };
            for p in s.pts.iter().chain(std::iter::once(&s.origin)) {
                let x = p[i] as f64 / self.res as f64;
                a = a.min(x.floor() as i64 - t);
                b = b.max(x.ceil() as i64 + 1 + t);
            }
            v = v.saturating_mul(b - a);
        }
        v > if self.bulk {
            1_500_000
        } else if self.n == 2 {
            250_000
        } else {
            60_000
        }
    }
}

fn log_scan(s: &Scan) {
    ev("scan", &[s.origin[0].to_bits() as i64, s.origin[1].to_bits() as i64, s.origin[2].to_bits() as i64, s.pts.len() as i64]);
    for p in &s.pts {
        ev("point", &[p[0].to_bits() as i64, p[1].to_bits() as i64, p[2].to_bits() as i64]);
    }
    sim::note(|| format!("sensor {:?} returns {:?}", s.origin, s.pts));
}

// ------------------------------------------------------------------ all values of a map

pub struct Dump {
    pub lo: C3,
    pub hi: C3,
    pub v: Vec<f32>,
}

impl Dump {
    pub fn of<M: MapApi<f32>>(m: &M) -> Result<Dump, sim::Fail> {
        let (lo, hi, _) = extent::<f32, M>(m);
        let mut d = Dump { lo, hi, v: vec![] };
        let n = d.dims();
        let total = n[0].max(0).saturating_mul(n[1].max(0)).saturating_mul(n[2].max(0));
        if total > 20_000_000 {
            return fail("bad-extent", format!("extent {:?}..{:?} cells", lo, hi));
        }
        d.v.reserve(total as usize);
        let r = sim::guarded(|| {
            for i in 0..total {
                let l = d.local_of(i as usize);
                d.v.push(m.at(l));
            }
        });
        if let Err(p) = r {
            return fail("panic", format!("reading a cell inside {:?}..{:?} panicked: {}", lo, hi, p));
        }
        Ok(d)
    }
    pub fn dims(&self) -> C3 {
        [self.hi[0] - self.lo[0], self.hi[1] - self.lo[1], self.hi[2] - self.lo[2]]
    }
    pub fn local_of(&self, i: usize) -> C3 {
        let d = self.dims();
        let i = i as i64;
        [i / (d[1] * d[2]), i / d[2] % d[1], i % d[2]]
    }
    pub fn global_of(&self, i: usize) -> C3 {
        let l = self.local_of(i);
        [l[0] + self.lo[0], l[1] + self.lo[1], l[2] + self.lo[2]]
    }
    pub fn index(&self, g: C3) -> Option<usize> {
        let d = self.dims();
        for i in 0..3 {
            if g[i] < self.lo[i] || g[i] >= self.hi[i] {
                return None;
            }
        }
        Some((((g[0] - self.lo[0]) * d[1] + g[1] - self.lo[1]) * d[2] + g[2] - self.lo[2]) as usize)
    }
    pub fn get(&self, g: C3) -> Option<f32> {
        self.index(g).map(|i| self.v[i])
    }
}

// ------------------------------------------------------------------ reference tracing

pub const MUST_HIT: u8 = 1;
pub const MAY_HIT: u8 = 2;
pub const MUST_MISS: u8 = 4;
pub const MAY_MISS: u8 = 8;

fn cand(x: f64, tol: f64) -> (i64, Option<i64>) {
    let c = (x + 0.5).floor();
    let f = x + 0.5 - c; // position within the cell, 0..1
    if f < tol {
        (c as i64, Some(c as i64 - 1))
    } else if f > 1.0 - tol {
        (c as i64, Some(c as i64 + 1))
    } else {
        (c as i64, None)
    }
}

fn cands(p: &[f64; 3], n: usize, tol: &[f64; 3]) -> Vec<C3> {
    let mut v = vec![[0i64; 3]];
    for i in 0..n {
        let (a, b) = cand(p[i], tol[i]);
        let mut w = vec![];
        for c in &v {
            let mut d = *c;
            d[i] = a;
            w.push(d);
            if let Some(b) = b {
                d[i] = b;
                w.push(d);
            }
        }
        v = w;
    }
    v
}

/// Relative rounding of positions along a ray (the parameter runs from 0 to 1).
const ALONG: f64 = 1.5e-6;

/// Entry and exit parameters of the segment in the cell's box grown by `k` times `tol` on every
/// side; `k` is 1 (the segment may be in the cell) or -1 (it certainly is).
fn slab(o: &[f64; 3], e: &[f64; 3], n: usize, c: &C3, k: f64, tol: &[f64; 3]) -> Option<(f64, f64)> {
    let mut t0 = 0.0f64;
    let mut t1 = 1.0f64;
    for i in 0..n {
        let lo = c[i] as f64 - 0.5 - k * tol[i];
        let hi = c[i] as f64 + 0.5 + k * tol[i];
        let v = e[i] - o[i];
        if v == 0.0 {
            if o[i] < lo || o[i] > hi {
                return None;
            }
        } else {
            let a = (lo - o[i]) / v;
            let b = (hi - o[i]) / v;
            t0 = t0.max(a.min(b));
            t1 = t1.min(a.max(b));
        }
    }
    if t0 - k * ALONG <= t1 + k * ALONG {
        Some((t0 - k * ALONG, t1 + k * ALONG))
    } else {
        None
    }
}

/// Calls `mark(cell, flags)` for every cell the ray from `o` to `e` (in cells) updates for
/// certain, or may update within rounding.
/// `mag` is the largest coordinate of the map on every axis.
pub fn trace(o: [f64; 3], e: [f64; 3], n: usize, range: f64, mag: &[f64; 3], mark: &mut dyn FnMut(C3, u8)) {
    // Rounding moves cell borders and points by a few units in the last place of the largest
    // coordinate involved, and crossings by as much along the ray as ALONG says.
    let mut tol = [0.0f64; 3];
    let mut steps = 0.0f64;
    for i in 0..n {
        let mag = mag[i].max(o[i].abs()).max(e[i].abs());
        tol[i] = 2e-5 + 1e-6 * mag;
        steps += (e[i] - o[i]).abs();
    }
    if steps > 1000.0 {
        sim::count("probe.rays_of_1000_cells");
    }
    let ends = cands(&e, n, &tol);
    let origins = cands(&o, n, &tol);
    if ends.len() == 1 && origins.len() == 1 && ends[0] == origins[0] {
        mark(ends[0], MUST_HIT | MAY_HIT);
        return;
    }
    // Cells near the segment.
    let mut near: Vec<C3> = vec![];
    let mut c = [0i64; 3];
    for i in 0..n {
        c[i] = (o[i] + 0.5).floor() as i64;
    }
    let last = {
        let mut l = [0i64; 3];
        for i in 0..n {
            l[i] = (e[i] + 0.5).floor() as i64;
        }
        l
    };
    loop {
        let r = |i: usize| if i < n { -1..=1 } else { 0..=0i64 };
        for x in r(0) {
            for y in r(1) {
                for z in r(2) {
                    near.push([c[0] + x, c[1] + y, c[2] + z]);
                }
            }
        }
        if c == last {
            break;
        }
        // Exact next border crossing among the axes still to go.
        let mut best = usize::MAX;
        let mut bt = f64::INFINITY;
        for i in 0..n {
            if c[i] == last[i] {
                continue;
            }
            let s = if last[i] > c[i] { 1.0 } else { -1.0 };
            let t = (c[i] as f64 + s * 0.5 - o[i]) / (e[i] - o[i]);
            if t < bt || best == usize::MAX {
                bt = t;
                best = i;
            }
        }
        c[best] += if last[best] > c[best] { 1 } else { -1 };
    }
    near.sort_unstable();
    near.dedup();
    struct Hit {
        g: C3,
        early: f64,
        late: Option<f64>,
    }
    let mut cells: Vec<Hit> = vec![];
    for g in near {
        if let Some((early, _)) = slab(&o, &e, n, &g, 1.0, &tol) {
            let late = slab(&o, &e, n, &g, -1.0, &tol).and_then(|(a, b)| if b > a { Some(a) } else { None });
            cells.push(Hit { g, early, late });
        }
    }
    let far = |g: &C3| -> f64 {
        let mut d = 0.0;
        for i in 0..n {
            d += (g[i] as f64 - o[i]).powi(2);
        }
        d.sqrt()
    };
    let sure_end = ends.len() == 1;
    let mut cut_possible = f64::INFINITY;
    let mut cut_certain = f64::INFINITY;
    let rt = 2.0 * (tol[0] + tol[1] + tol[2]) + 2e-6 * range.min(1e9);
    if range > 0.0 {
        for h in &cells {
            if origins.contains(&h.g) || (sure_end && h.g == ends[0]) {
                continue;
            }
            let d = far(&h.g);
            if d > range - rt {
                cut_possible = cut_possible.min(h.early);
            }
            if d > range + rt && !ends.contains(&h.g) {
                if let Some(l) = h.late {
                    cut_certain = cut_certain.min(l);
                }
            }
        }
    }
    for h in &cells {
        if sure_end && h.g == ends[0] {
            continue;
        }
        if h.early > cut_certain {
            continue;
        }
        if range > 0.0 && !origins.contains(&h.g) && far(&h.g) > range + rt {
            continue;
        }
        let must = match h.late {
            Some(l) => l < cut_possible && !ends.contains(&h.g),
            None => false,
        };
        mark(h.g, if must { MUST_MISS | MAY_MISS } else { MAY_MISS });
    }
    if cut_certain < f64::INFINITY {
        return;
    }
    for g in &ends {
        mark(
            *g,
            if sure_end && cut_possible == f64::INFINITY { MUST_HIT | MAY_HIT } else { MAY_HIT },
        );
    }
}

/// Flags of every cell of the map for one scan.
pub fn flags(w: &World, s: &Scan, d: &Dump) -> Result<Vec<u8>, C3> {
    let mut f = vec![0u8; d.v.len()];
    let mut outside = None;
    let c = |p: &P3| {
        let mut a = [0.0; 3];
        for i in 0..w.n {
            a[i] = p[i] as f64 / w.res as f64;
        }
        a
    };
    let range = w.noise.range as f64 / w.res as f64;
    let mut mag = [0.0f64; 3];
    for i in 0..w.n {
        mag[i] = (d.lo[i].abs() as f64).max(d.hi[i].abs() as f64);
    }
    for p in &s.pts {
        trace(c(&s.origin), c(p), w.n, range, &mag, &mut |g, x| match d.index(g) {
            Some(i) => f[i] |= x,
            None => {
                if x & (MUST_HIT | MUST_MISS) != 0 {
                    outside = Some(g);
                }
            }
        });
    }
    match outside {
        Some(g) => Err(g),
        None => Ok(f),
    }
}

fn near(a: f32, b: f32) -> bool {
    a == b || (a - b).abs() <= 1e-5 * (1.0 + b.abs())
}

/// A map as a scan may find it: mostly empty, sometimes with a past of its own.
fn start<M: ScanMap>(w: &mut World) -> Result<M, sim::Fail> {
    match choose(12) {
        1 | 2 => {
            let s = w.scan();
            let mut b = s.origin;
            for i in 0..w.n {
                b[i] += w.res * (1 + choose(5)) as f32;
            }
            let v = pick(&[0.0f32, 0.25, -0.5, 0.0]);
            let again = choose(3);
            ev("existing", &[v.to_bits() as i64, again as i64]);
            sim::count("probe.started_on_existing_map");
            let r = sim::guarded(|| {
                let m = M::make_noise_at(w.noise, w.res, w.tile, s.origin, b, v);
                match again {
                    1 => m.restore(false),
                    2 => m.restore(true),
                    _ => m,
                }
            });
            match r {
                Ok(m) => Ok(m),
                Err(p) => fail("panic", format!("creating a map panicked: {}", p)),
            }
        }
        _ => Ok(M::make_noise(w.noise, w.res, w.tile)),
    }
}

// ------------------------------------------------------------------ C07

pub fn c07() -> Res {
    match choose(4) {
        0 => evidence::<kuba::GridMap2f>(),
        1 => evidence::<kuba::GridMap3f>(),
        2 => evidence::<LidarOccupancyGridMap2>(),
        _ => evidence::<LidarOccupancyGridMap3>(),
    }
}

fn logit(p: f32) -> f32 {
    let p = p as f64;
    (p / (1.0 - p)).ln() as f32
}

fn evidence<M: ScanMap>() -> Res {
    let adv = chance(1, 3);
    let mut w = world(M::N, adv);
    ev(M::NAME, &[w.tile as i64, (w.res * 1000.0) as i64, (w.noise.range * 1000.0) as i64]);
    let nm = w.noise.build();
    let mut m = start::<M>(&mut w)?;
    let (h, ms, mn, mx) = (logit(w.noise.hit), logit(w.noise.miss), logit(w.noise.min), logit(w.noise.max));
    let mut net: Net<Scan> = Net::new();
    let mut saved: Option<M> = None;
    let steps = 1 + choose(10);
    let mut step = 0;
    loop {
        if step < steps {
            let s = w.scan();
            net.send(s);
        } else if net.q.is_empty() {
            break;
        }
        step += 1;
        // Other clients of the same map.
        match choose(12) {
            1 => {
                if m.ext().0 != m.ext().1 {
                    let (lo, hi, _) = extent::<f32, M>(&m);
                    let mut l = [0; 3];
                    for i in 0..w.n {
                        l[i] = choose((hi[i] - lo[i]).max(1) as u32) as i64;
                    }
                        let (a, b) = (mn.max(-9.0), mx.min(9.0));
                    let v = a + (b - a) * sim::uniform(0.0, 1.0) as f32;
                    ev("edit", &[l[0], l[1], l[2], v.to_bits() as i64]);
                    sim::count("op.edit");
                    if sim::guarded(|| m.put(l, v)).is_err() {
                        return fail("panic", "writing a cell inside the map panicked");
                    }
                }
            }
            2 => saved = Some(m.copy()),
            3 => {
                if let Some(s) = &saved {
                    m = s.copy();
                    ev("rollback", &[]);
                    sim::fault("fault.client.rollback_to_snapshot");
                }
            }
            4 => {
                let s = w.scan();
                if !w.too_big(&m, &s) {
                    let mut b = s.origin;
                    for i in 0..w.n {
                        b[i] += w.res * choose(4) as f32;
                    }
                    ev("grow", &[]);
                    sim::count("op.grow");
                    let d = 0.0;
                    if sim::guarded(|| m.grow(s.origin, b, d)).is_err() {
                        return fail("panic", "growing the map panicked");
                    }
                }
            }
            5 => m.set_tracking(chance(1, 2)),
            _ => {}
        }
        let s = match net.deliver() {
            Some(s) => s,
            None => continue,
        };
        if w.too_big(&m, &s) {
            continue;
        }
        log_scan(&s);
        sim::count("op.integrate");
        if s.pts.len() > 1 {
            sim::nontrivial();
        }
        let before = Dump::of(&m)?;
        if let Err(p) = sim::guarded(|| m.integrate(&nm, s.origin, &s.pts)) {
            return fail("panic", format!("integrating sensor {:?} returns {:?} panicked: {}", s.origin, s.pts, p));
        }
        let after = Dump::of(&m)?;
        let f = match flags(&w, &s, &after) {
            Ok(f) => f,
            Err(g) => return fail("cell-not-updated", format!("world cell {:?} on a ray lies outside the map", g)),
        };
        let (mut hits, mut misses) = (0u64, 0u64);
        for (i, v) in after.v.iter().enumerate() {
            let g = after.global_of(i);
            let old = before.get(g).unwrap_or(0.0);
            let x = f[i];
            let hit = (old + h).min(mx);
            let miss = (old + ms).max(mn);
            let keep = x & (MUST_HIT | MUST_MISS) == 0;
            let ok = (keep && v.to_bits() == old.to_bits())
                || (x & MAY_HIT != 0 && near(*v, hit))
                || (x & MAY_MISS != 0 && x & MUST_HIT == 0 && near(*v, miss));
            if !ok {
                let (class, want) = if x & MUST_HIT != 0 {
                    ("hit-not-applied", format!("{} (hit)", hit))
                } else if x & MUST_MISS != 0 {
                    ("miss-not-applied", format!("{} (miss)", miss))
                } else if x == 0 {
                    ("uninvolved-cell-changed", format!("{} (unchanged)", old))
                } else {
                    ("wrong-update", format!("one of unchanged {}, hit {}, miss {} (flags {})", old, hit, miss, x))
                };
                return fail(
                    class,
                    format!(
                        "world cell {:?} went from {} to {}, expected {}; sensor {:?} returns {:?} range {}",
                        g, old, v, want, s.origin, s.pts, w.noise.range
                    ),
                );
            }
            if x & MUST_HIT != 0 {
                hits += 1;
                if hit == mx {
                    sim::count("probe.capped_at_maximum");
                }
            } else if x & MUST_MISS != 0 {
                misses += 1;
            }
        }
        sim::cover(sim::hash_mix(sim::hash_mix(hits, misses), (after.v.len() as u64) ^ step as u64));
        sim::add("probe.cells_certainly_hit", hits);
        sim::add("probe.cells_certainly_missed", misses);
        occupied(&m, &nm, &w, &after)?;
    }
    Ok(())
}

fn occupied<M: ScanMap>(m: &M, nm: &kuba::LidarNoiseModel, w: &World, d: &Dump) -> Res {
    let thr = logit(w.noise.thr);
    for (i, v) in d.v.iter().enumerate() {
        // Exactly at the threshold (only an unknown cell with an even threshold) is not occupied.
        if near(*v, thr) && !(*v == 0.0 && w.noise.thr == 0.5) {
            continue;
        }
        let want = *v > thr && !(*v == 0.0 && w.noise.thr == 0.5);
        let l = d.local_of(i);
        match sim::guarded(|| m.occupied_at(nm, l)) {
            Ok(o) if o == want => {}
            Ok(o) => return fail("wrong-occupancy", format!("log-odds {} threshold {}: occupied = {}", v, thr, o)),
            Err(p) => return fail("panic", format!("occupied() of a cell inside the map panicked: {}", p)),
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C08

pub fn c08() -> Res {
    match choose(6) {
        0 | 1 => completes::<kuba::GridMap2f>(),
        2 | 3 => completes::<kuba::GridMap3f>(),
        4 => rays::<kuba::GridMap2f>(),
        _ => rays::<kuba::GridMap3f>(),
    }
}

fn completes<M: ScanMap>() -> Res {
    let mut w = world(M::N, true);
    ev(M::NAME, &[w.tile as i64, (w.res * 1000.0) as i64, (w.noise.range * 1000.0) as i64]);
    let nm = w.noise.build();
    let mut m = match choose(4) {
        1 => {
            // A map that exists already, perhaps far from the scans.
            let s = w.scan();
            let mut b = s.origin;
            for i in 0..w.n {
                b[i] += w.res * (1 + choose(5)) as f32;
            }
            match sim::guarded(|| M::make(w.res, s.origin, b, w.tile, 0.0)) {
                Ok(m) => m,
                Err(p) => return fail("panic", format!("creating a map panicked: {}", p)),
            }
        }
        _ => M::make_noise(w.noise, w.res, w.tile),
    };
    let mut net: Net<Scan> = Net::new();
    let steps = 1 + choose(6);
    let mut step = 0;
    while step < steps || !net.q.is_empty() {
        if step < steps {
            let s = w.scan();
            net.send(s);
        }
        step += 1;
        let s = match net.deliver() {
            Some(s) => s,
            None => continue,
        };
        if w.too_big(&m, &s) {
            continue;
        }
        log_scan(&s);
        sim::count("op.integrate");
        sim::nontrivial();
        let mut watch = Watch::default();
        let (lo0, hi0, _) = extent::<f32, M>(&m);
        let nothing_yet = m.ext().0 == m.ext().1;
        let r = sim::guarded(|| m.integrate_watched(&nm, s.origin, &s.pts, &mut watch));
        if let Err(p) = r {
            return fail(
                "integration-panicked",
                format!("sensor {:?} returns {:?} range {}: {}", s.origin, s.pts, w.noise.range, p),
            );
        }
        ev("done", &[watch.sets as i64, watch.gets as i64]);
        // Work: cells between sensor and returns.
        let mut between = 0.0;
        for p in &s.pts {
            let mut k = 1.0;
            for i in 0..w.n {
                k += ((p[i] - s.origin[i]).abs() as f64 / w.res as f64).ceil() + 1.0;
            }
            between += k;
        }
        if (watch.sets + watch.gets) as f64 > 8.0 * between + 64.0 {
            return fail(
                "too-much-work",
                format!("{} accesses for {} cells between sensor and returns", watch.sets + watch.gets, between),
            );
        }
        // The map has grown no further than the scan needs.
        let (lo, hi, _) = extent::<f32, M>(&m);
        for i in 0..w.n {
            let (mut a, mut b) = if nothing_yet { (i64::MAX, i64::MIN) } else { (lo0[i], hi0[i]) };
            for p in std::iter::once(&s.origin).chain(s.pts.iter()) {
                let x = p[i] as f64 / w.res as f64;
                let e = crate::model::slack(p[i] as f64, w.res as f64);
                a = a.min((x + 0.5 - e).floor() as i64);
                b = b.max((x + 0.5 + e).floor() as i64 + 1);
            }
            let t = w.tile as i64;
            // Whole tiles, and at most one more.
            if lo[i] < (a.div_euclid(t) - 1) * t || hi[i] > (-(-b).div_euclid(t) + 1) * t {
                return fail(
                    "grown-too-far",
                    format!(
                        "axis {}: cells {}..{} for a former extent {:?}..{:?}, sensor {:?} returns {:?} (tiles of {})",
                        i, lo[i], hi[i], lo0, hi0, s.origin, s.pts, t
                    ),
                );
            }
        }
        // The map contains the sensor and all returns.
        for (k, p) in std::iter::once(&s.origin).chain(s.pts.iter()).enumerate() {
            let l = m.locate(*p);
            for i in 0..w.n {
                if l[i] < 0 || l[i] >= hi[i] - lo[i] {
                    return fail(
                        "map-does-not-contain-scan",
                        format!(
                            "{} {:?} lies in cell {:?} of a map of {:?} cells",
                            if k == 0 { "sensor" } else { "return" },
                            p,
                            l,
                            [hi[0] - lo[0], hi[1] - lo[1], hi[2] - lo[2]]
                        ),
                    );
                }
            }
        }
        sim::cover(sim::hash_mix(watch.sets, (hi[0] - lo[0]) as u64));
    }
    Ok(())
}

/// Single rays, far longer than a map would allow.
fn rays<M: ScanMap>() -> Res {
    let res = pick(&[0.1f32, 0.05, 0.25, 0.5, 1.0, 0.3, 0.2, 0.07]);
    let n = M::N;
    let len = pick(&[3.0, 30.0, 30.0, 300.0, 3000.0, 60_000.0]);
    let base = pick(&[0.0, 0.0, 10.0, 1000.0]);
    for _ in 0..1 + choose(4) {
        let mut o = [0.0f32; 3];
        let mut e = [0.0f32; 3];
        let mut min = [0.0f32; 3];
        let style = choose(5);
        let diag = sim::signed(len);
        for i in 0..n {
            let b = sim::signed(base);
            let frac = pick(&[0.0, 0.5, -0.5, 0.25, 1.0]);
            let x = match style {
                0 => (b * 4.0).round() / 4.0 + frac,
                _ => b + sim::signed(1.0),
            };
            o[i] = (x * res as f64) as f32;
            let d = match style {
                1 => diag * pick(&[1.0, -1.0]),
                2 => {
                    if chance(1, 2) {
                        sim::signed(len)
                    } else {
                        sim::signed(1e-3)
                    }
                }
                3 => sim::signed(1.0),
                _ => sim::signed(len),
            };
            e[i] = ((x + d) * res as f64) as f32;
            if style == 0 {
                let k = (e[i] as f64 / res as f64).round() + pick(&[0.0, 0.5, -0.5]);
                e[i] = (k * res as f64) as f32;
            }
            min[i] = (o[i].min(e[i]) / res).floor() * res;
        }
        let range = match choose(4) {
            1 => (res as f64 * sim::uniform(1.0, len * 1.5)) as f32,
            2 => -1.0,
            _ => 0.0,
        };
        ev("ray", &[o[0].to_bits() as i64, o[1].to_bits() as i64, o[2].to_bits() as i64, e[0].to_bits() as i64, e[1].to_bits() as i64, e[2].to_bits() as i64, res.to_bits() as i64, range.to_bits() as i64]);
        sim::note(|| format!("ray {:?} -> {:?} grid {:?} resolution {} range {}", o, e, min, res, range));
        sim::count("op.cast_ray");
        sim::nontrivial();
        let r = sim::guarded(|| M::cast(o, e, min, min, res, range));
        let (cells, _end) = match r {
            Ok(r) => r,
            Err(p) => return fail("integration-panicked", format!("ray {:?} -> {:?}: {}", o, e, p)),
        };
        let cell = |p: &P3| {
            let mut c = [0i64; 3];
            for i in 0..n {
                c[i] = ((p[i] - min[i]) / res).round() as i64;
            }
            c
        };
        let (a, b) = (cell(&o), cell(&e));
        let mut bound = 4;
        for i in 0..n {
            bound += (a[i] - b[i]).abs() + 2;
        }
        if cells.len() as i64 > bound {
            return fail(
                "too-much-work",
                format!("ray {:?} -> {:?} at resolution {}: {} cells, {} expected at most", o, e, res, cells.len(), bound),
            );
        }
        for c in &cells {
            for i in 0..n {
                if c[i] < a[i].min(b[i]) || c[i] > a[i].max(b[i]) {
                    return fail(
                        "cell-outside-scan-box",
                        format!(
                            "ray {:?} -> {:?} at resolution {}: cell {:?} is outside the box of cells {:?} and {:?} (a map grown to contain the ray ends there)",
                            o, e, res, c, a, b
                        ),
                    );
                }
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C06, integration part

pub fn cut_short() -> Res {
    if chance(1, 2) {
        cut::<kuba::GridMap2f>()
    } else {
        cut::<kuba::GridMap3f>()
    }
}

fn cut<M: ScanMap>() -> Res {
    let mut w = world(M::N, false);
    w.noise.range = if chance(1, 2) { 0.0 } else { w.noise.range };
    ev(M::NAME, &[w.tile as i64]);
    let nm = w.noise.build();
    let mut m = start::<M>(&mut w)?;
    m.set_tracking(chance(1, 2));
    for _ in 0..1 + choose(6) {
        let s = w.scan();
        if w.too_big(&m, &s) {
            continue;
        }
        log_scan(&s);
        let before = Dump::of(&m)?;
        // What it does when it is not cut short.
        let mut full = m.copy();
        let mut wf = Watch::default();
        if sim::guarded(|| full.integrate_watched(&nm, s.origin, &s.pts, &mut wf)).is_err() {
            return Ok(()); // C08's business
        }
        let done = Dump::of(&full)?;
        let mut wc = Watch {
            cut_at: if chance(3, 4) { Some(choose(wf.calls as u32 + 1) as u64) } else { None },
            ..Default::default()
        };
        let r = sim::guarded(|| m.integrate_watched(&nm, s.origin, &s.pts, &mut wc));
        sim::count("op.integrate");
        if wc.cut {
            sim::fault("fault.integration_cut_short");
            ev("cut", &[wc.cut_at.unwrap() as i64]);
            if r.is_ok() {
                return fail("failure-swallowed", "the integration reported success although it was cut short");
            }
        } else if r.is_err() {
            return fail("panic", "an integration that completes on a copy of the map panicked on the map");
        }
        let after = Dump::of(&m)?;
        for (i, v) in after.v.iter().enumerate() {
            let g = after.global_of(i);
            let old = before.get(g).unwrap_or(0.0);
            let new = done.get(g).unwrap_or(old);
            let ok = if wc.cut {
                v.to_bits() == old.to_bits() || v.to_bits() == new.to_bits()
            } else {
                v.to_bits() == new.to_bits()
            };
            if !ok {
                return fail(
                    "half-updated-cell",
                    format!("world cell {:?} was {}, completely updated it would be {}, after the cut it is {}", g, old, new, v),
                );
            }
        }
        for (i, v) in before.v.iter().enumerate() {
            let g = before.global_of(i);
            if after.get(g).is_none() {
                return fail("map-not-intact", format!("world cell {:?} (value {}) is gone after the cut", g, v));
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C09

pub fn c09() -> Res {
    match choose(4) {
        0 => twins::<kuba::GridMap2f>(),
        1 => twins::<kuba::GridMap3f>(),
        2 => twins::<LidarOccupancyGridMap2>(),
        _ => twins::<LidarOccupancyGridMap3>(),
    }
}

#[derive(Clone)]
enum Event {
    Scan(Scan),
    Edit(C3, f32),
    Grow(P3, P3),
    Track(bool),
    Clear,
}

/// The same scan as another process may see it.
fn disguise(s: &Scan) -> Scan {
    let mut pts = s.pts.clone();
    if !pts.is_empty() {
        let dups = choose(4);
        for _ in 0..dups {
            let p = pts[choose(pts.len() as u32) as usize];
            pts.push(p);
        }
        if dups > 0 {
            sim::fault("fault.points_duplicated");
        }
        match choose(3) {
            0 => pts.reverse(),
            1 => {
                let k = choose(pts.len() as u32) as usize;
                pts.rotate_left(k);
            }
            _ => {
                for i in (1..pts.len()).rev() {
                    let j = choose(i as u32 + 1) as usize;
                    pts.swap(i, j);
                }
            }
        }
        sim::fault("fault.points_permuted");
    }
    Scan { origin: s.origin, pts }
}

fn apply<M: ScanMap>(m: &mut M, nm: &kuba::LidarNoiseModel, e: &Event) -> Result<(), String> {
    match e {
        Event::Scan(s) => sim::guarded(|| m.integrate(nm, s.origin, &s.pts)),
        Event::Edit(l, v) => sim::guarded(|| m.put(*l, *v)),
        Event::Grow(a, b) => sim::guarded(|| m.grow(*a, *b, 0.0)),
        Event::Track(v) => {
            m.set_tracking(*v);
            Ok(())
        }
        Event::Clear => {
            m.clear_changed();
            Ok(())
        }
    }
}

/// On another thread, with its own hash seeds.
fn apply_elsewhere<M: ScanMap + Send>(m: &mut M, nm: &kuba::LidarNoiseModel, e: &Event) -> Result<(), String> {
    let seed = sim::seed32() as u64 | 1 << 40;
    sim::fault("fault.other_thread_and_hash_seed");
    std::thread::scope(|sc| {
        let h = sc.spawn(|| {
            sim::set_in_sim(true);
            sim::set_hash_seed(seed);
            let r = apply(m, nm, e);
            sim::set_in_sim(false);
            r
        });
        h.join().unwrap_or_else(|_| Err("thread panicked".into()))
    })
}

fn identical<M: ScanMap>(a: &M, b: &M, what: &str, s: &str) -> Res {
    let (x, y) = (Dump::of(a)?, Dump::of(b)?);
    if a.ext() != b.ext() {
        return fail("extent-differs", format!("{}: {:?} and {:?} ({})", what, a.ext(), b.ext(), s));
    }
    for (i, v) in x.v.iter().enumerate() {
        if v.to_bits() != y.v[i].to_bits() {
            return fail(
                "map-differs",
                format!("{}: world cell {:?} is {} in one and {} in the other ({})", what, x.global_of(i), v, y.v[i], s),
            );
        }
    }
    let set = |m: &M| m.changed().into_iter().collect::<BTreeSet<C3>>();
    let (p, q) = (set(a), set(b));
    if p != q {
        let d: Vec<&C3> = p.symmetric_difference(&q).take(5).collect();
        return fail("changed-cells-differ", format!("{}: {} and {} cells, differing in {:?} ({})", what, p.len(), q.len(), d, s));
    }
    Ok(())
}

fn twins<M: ScanMap + Send>() -> Res {
    let mut w = world(M::N, chance(1, 4));
    ev(M::NAME, &[w.tile as i64, (w.res * 1000.0) as i64]);
    let nm = w.noise.build();
    let mut a = start::<M>(&mut w)?;
    let mut b = a.copy();
    let track = chance(2, 3);
    a.set_tracking(track);
    b.set_tracking(track);
    // A snapshot and everything that happened since.
    let mut snap: (M, Vec<Event>) = (a.copy(), vec![]);
    for _ in 0..1 + choose(9) {
        let e = match choose(10) {
            1 => {
                let (lo, hi, _) = extent::<f32, M>(&a);
                if a.ext().0 == a.ext().1 {
                    continue;
                }
                let mut l = [0; 3];
                for i in 0..w.n {
                    l[i] = choose((hi[i] - lo[i]).max(1) as u32) as i64;
                }
                Event::Edit(l, sim::signed(2.0) as f32)
            }
            2 => {
                let s = w.scan();
                if w.too_big(&a, &s) {
                    continue;
                }
                let mut q = s.origin;
                for i in 0..w.n {
                    q[i] += w.res * choose(5) as f32;
                }
                Event::Grow(s.origin, q)
            }
            3 => Event::Track(chance(1, 2)),
            4 => Event::Clear,
            _ => {
                let s = w.scan();
                if w.too_big(&a, &s) {
                    continue;
                }
                Event::Scan(s)
            }
        };
        let mut shown = String::new();
        let twin = match &e {
            Event::Scan(s) => {
                log_scan(s);
                sim::count("op.integrate");
                shown = format!("sensor {:?} returns {:?} range {}", s.origin, s.pts, w.noise.range);
                Event::Scan(disguise(s))
            }
            o => {
                ev("other", &[]);
                o.clone()
            }
        };
        let ra = apply(&mut a, &nm, &e);
        let rb = if chance(1, 2) {
            apply_elsewhere(&mut b, &nm, &twin)
        } else {
            apply(&mut b, &nm, &twin)
        };
        if ra.is_err() != rb.is_err() {
            return fail("map-differs", format!("integration completes in one order only: {:?} {:?} ({})", ra, rb, shown));
        }
        if ra.is_err() {
            return Ok(()); // C08's business
        }
        identical(&a, &b, "same scan, points permuted or repeated", &shown)?;
        snap.1.push(e);
        if chance(1, 5) {
            // Crash: the live map is lost, rebuilt from the snapshot and the later scans.
            let mut c = snap.0.copy();
            sim::fault("fault.crash_and_rebuild_from_snapshot");
            ev("rebuild", &[snap.1.len() as i64]);
            for x in &snap.1 {
                let x = match x {
                    Event::Scan(s) if chance(1, 2) => Event::Scan(disguise(s)),
                    o => o.clone(),
                };
                if apply_elsewhere(&mut c, &nm, &x).is_err() {
                    return fail("map-differs", "a scan that integrated live does not integrate when rebuilding");
                }
            }
            identical(&a, &c, "rebuilt from a snapshot and the later scans", &shown)?;
            if chance(1, 2) {
                a = c;
            }
        }
        if chance(1, 4) {
            snap = (a.copy(), vec![]);
            ev("snapshot", &[]);
            sim::count("op.snapshot");
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C10

pub fn c10() -> Res {
    match choose(4) {
        0 => tracking::<kuba::GridMap2f>(),
        1 => tracking::<kuba::GridMap3f>(),
        2 => tracking::<LidarOccupancyGridMap2>(),
        _ => tracking::<LidarOccupancyGridMap3>(),
    }
}

fn tracking<M: ScanMap>() -> Res {
    let mut w = world(M::N, chance(1, 4));
    ev(M::NAME, &[w.tile as i64, (w.res * 1000.0) as i64]);
    let nm = w.noise.build();
    let mut m = start::<M>(&mut w)?;
    let mut net: Net<Scan> = Net::new();
    // World cells that must be listed, and that may be.
    let mut must: BTreeSet<C3> = BTreeSet::new();
    let mut may: BTreeSet<C3> = BTreeSet::new();
    // The mirror: values by world cell, fed only from the reported cells.
    let mut mirror: std::collections::BTreeMap<C3, f32> = Default::default();
    let first = Dump::of(&m)?;
    for (i, v) in first.v.iter().enumerate() {
        mirror.insert(first.global_of(i), *v);
    }
    let mut mirror_valid = true;
    let mut track = chance(3, 4);
    m.set_tracking(track);
    for _ in 0..2 + choose(12) {
        match choose(9) {
            1 => {
                // The mirroring client polls.
                if track {
                    check_list(&m, &must, &may)?;
                }
                let (lo, _, _) = extent::<f32, M>(&m);
                for l in m.changed() {
                    let g = [l[0] + lo[0], l[1] + lo[1], l[2] + lo[2]];
                    match sim::guarded(|| m.at(l)) {
                        Ok(v) => mirror.insert(g, v),
                        Err(_) => return fail("stale-cell", format!("reported cell {:?} lies outside the map", l)),
                    };
                }
                m.clear_changed();
                if !m.changed().is_empty() {
                    return fail("clear-incomplete", "the list is not empty after clearing it");
                }
                must.clear();
                may.clear();
                ev("poll", &[mirror.len() as i64]);
                sim::count("op.poll");
                if mirror_valid {
                    let d = Dump::of(&m)?;
                    for (i, v) in d.v.iter().enumerate() {
                        let g = d.global_of(i);
                        let have = mirror.get(&g).copied().unwrap_or(0.0);
                        if have.to_bits() != v.to_bits() {
                            return fail("mirror-disagrees", format!("world cell {:?} is {} in the map and {} in the mirror", g, v, have));
                        }
                    }
                    for g in mirror.keys() {
                        if d.get(*g).is_none() {
                            return fail("mirror-disagrees", format!("mirrored world cell {:?} is outside the map", g));
                        }
                    }
                }
            }
            2 => {
                track = chance(3, 4);
                ev("track", &[track as i64]);
                m.set_tracking(track);
                if m.tracking() != track {
                    return fail("wrong-list", "the tracking switch does not hold");
                }
            }
            3 => {
                m = m.copy();
                ev("snapshot", &[]);
            }
            4 => {
                let s = w.scan();
                if !w.too_big(&m, &s) {
                    let mut b = s.origin;
                    for i in 0..w.n {
                        b[i] += w.res * choose(4) as f32;
                    }
                    ev("grow", &[]);
                    sim::count("op.grow");
                    if sim::guarded(|| m.grow(s.origin, b, 0.0)).is_err() {
                        return Ok(());
                    }
                }
            }
            _ => {
                let s = w.scan();
                net.send(s);
                let s = match net.deliver() {
                    Some(s) => s,
                    None => continue,
                };
                if w.too_big(&m, &s) {
                    continue;
                }
                log_scan(&s);
                sim::count("op.integrate");
                sim::nontrivial();
                let before = Dump::of(&m)?;
                if sim::guarded(|| m.integrate(&nm, s.origin, &s.pts)).is_err() {
                    return Ok(()); // C08's business
                }
                let after = Dump::of(&m)?;
                if before.lo != after.lo && !before.v.is_empty() {
                    sim::count("probe.lower_corner_moved_by_scan");
                    if !must.is_empty() {
                        sim::count("probe.lower_corner_moved_with_pending_changes");
                    }
                }
                let f = match flags(&w, &s, &after) {
                    Ok(f) => f,
                    Err(_) => return Ok(()), // C07's business
                };
                if track {
                    for (i, v) in after.v.iter().enumerate() {
                        let g = after.global_of(i);
                        let old = before.get(g).unwrap_or(0.0);
                        if v.to_bits() != old.to_bits() {
                            must.insert(g);
                            may.insert(g);
                        } else if f[i] != 0 {
                            may.insert(g);
                        }
                    }
                } else if after.v.iter().enumerate().any(|(i, v)| {
                    before.get(after.global_of(i)).unwrap_or(0.0).to_bits() != v.to_bits()
                }) {
                    mirror_valid = false;
                }
            }
        }
        check_list(&m, &must, &may)?;
    }
    Ok(())
}

fn check_list<M: ScanMap>(m: &M, must: &BTreeSet<C3>, may: &BTreeSet<C3>) -> Res {
    let (lo, hi, _) = extent::<f32, M>(m);
    let list: BTreeSet<C3> = m.changed().iter().map(|l| [l[0] + lo[0], l[1] + lo[1], l[2] + lo[2]]).collect();
    for g in must {
        if !list.contains(g) {
            return fail("change-not-reported", format!("world cell {:?} was updated but is not listed ({} cells listed)", g, list.len()));
        }
    }
    for g in &list {
        if !may.contains(g) {
            let inside = (0..3).all(|i| g[i] >= lo[i] && g[i] < hi[i]);
            return fail(
                "unchanged-cell-reported",
                format!("world cell {:?} is listed but no scan updated it (inside the map: {})", g, inside),
            );
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C19

/// Bytes a map may hold per cell of its extent, in any case, and per entry of the longest list of
/// changes it has had to keep for its user: that list is the user's to clear.
const PER_CELL: i64 = 40;
const FIXED: i64 = 24 << 10;
const PER_CHANGE: i64 = 64;

pub fn c19() -> Res {
    match choose(4) {
        0 => memory::<kuba::GridMap2f>(),
        1 => memory::<kuba::GridMap3f>(),
        2 => memory::<LidarOccupancyGridMap2>(),
        _ => memory::<LidarOccupancyGridMap3>(),
    }
}

/// What the map does is charged to it.
fn charged<R>(held: &mut i64, f: impl FnOnce() -> R) -> R {
    let a = simcore::alloc::own();
    let r = f();
    *held += simcore::alloc::own() - a;
    r
}

fn memory<M: ScanMap>() -> Res {
    let mut w = world(M::N, false);
    if w.bulk {
        return Ok(());
    }
    // Small, so that a little more after every scan shows.
    w.span = w.span.min(if M::N == 2 { 8.0 } else { 2.0 });
    w.tile = w.tile.min(5);
    let steady = chance(1, 3);
    if steady {
        // A sensor that stays where it is.
        w.span = w.span.min(2.0);
        w.max_pts = w.max_pts.max(20);
    }
    w.reach = w.span * pick(&[0.5, 1.0, 1.0]);
    let nm = w.noise.build();
    let mut held = 0i64;
    let m = charged(&mut held, || start::<M>(&mut w))?;
    let mut m = Some(m);
    let mut copies: Vec<M> = Vec::with_capacity(8);
    let rounds = pick(&[60usize, 300, 300, if steady { 1500 } else { 700 }]);
    let tracks = chance(1, 2);
    // A user of the list of changes takes it after every scan, or now and then.
    let eager = chance(2, 3);
    let mut listed = 0;
    let mut scans = 0;
    ev("world", &[M::N as i64, w.tile as i64, rounds as i64]);
    for i in 0..rounds {
        let map = m.as_mut().unwrap();
        match choose(40) {
            0 if tracks => {
                let on = chance(2, 3);
                ev("tracking", &[on as i64]);
                charged(&mut held, || map.set_tracking(on));
            }
            1 => charged(&mut held, || map.clear_changed()),
            2 | 3 => {
                let s = w.scan();
                let mut b = s.origin;
                for a in 0..w.n {
                    b[a] += w.res * (1 + choose(4)) as f32;
                }
                if !w.too_big(map, &Scan { origin: b, pts: vec![s.origin] }) {
                    let r = charged(&mut held, || sim::guarded(|| map.grow(s.origin, b, 0.0)).is_ok());
                    if !r {
                        return Ok(()); // C04
                    }
                    sim::count("op.grow");
                }
            }
            _ if i + 1 == rounds && chance(1, 2) => {
                // A long way at last. Refusing that is the business of C04.
                let e = map.ext();
                let mut b = e.1;
                b[choose(w.n as u32) as usize] += w.res * pick(&[1500.0f32, 5000.0, 20_000.0]);
                let ok = charged(&mut held, || sim::guarded(|| map.grow(e.0, b, 0.0)).is_ok());
                ev("far", &[ok as i64]);
                sim::count("op.grow_far");
            }
            4 => {
                // A request that cannot be met.
                let e = map.ext();
                let mut b = e.1;
                for a in 0..w.n {
                    b[a] = pick(&[1e18f32, 3e30]);
                }
                sim::fault("fault.alloc.impossible_size");
                let ok = charged(&mut held, || sim::guarded(|| map.grow(e.0, b, 0.0)).is_ok());
                if ok {
                    return Ok(()); // C06
                }
            }
            5 => {
                let (lo, hi, _) = extent::<f32, M>(map);
                let mut c = [0i64; 3];
                for a in 0..w.n {
                    c[a] = hi[a] - lo[a] + choose(3) as i64;
                }
                sim::fault("fault.access_outside");
                charged(&mut held, || {
                    let _ = sim::guarded(|| map.put(c, 1.0));
                });
            }
            6 => {
                charged(&mut held, || {
                    if copies.len() == 8 {
                        copies.clear();
                    }
                    copies.push(map.copy());
                });
                sim::count("op.snapshot");
            }
            7 => {
                let keep = choose(2) as usize;
                charged(&mut held, || copies.truncate(keep));
            }
            8 if !copies.is_empty() => {
                // Roll back.
                charged(&mut held, || m = copies.pop());
                sim::count("op.rollback");
            }
            9 => {
                let s = w.scan();
                if !w.too_big(map, &s) {
                    let cut = choose(200) as u64;
                    let mut watch = Watch {
                        cut_at: Some(cut),
                        ..Default::default()
                    };
                    sim::fault("fault.integration_cut_short");
                    charged(&mut held, || {
                        let _ = sim::guarded(|| map.integrate_watched(&nm, s.origin, &s.pts, &mut watch));
                    });
                }
            }
            _ => {
                let s = w.scan();
                if !w.too_big(map, &s) {
                    ev("scan", &[s.pts.len() as i64]);
                    let r = charged(&mut held, || sim::guarded(|| map.integrate(&nm, s.origin, &s.pts)).is_ok());
                    if !r {
                        return Ok(()); // C08
                    }
                    scans += 1;
                    sim::count("op.integrate");
                }
            }
        }
        if let Some(map) = m.as_mut() {
            listed = listed.max(map.changed().len() as i64);
            if eager {
                charged(&mut held, || map.clear_changed());
            }
        }
        if i % 16 == 15 || i + 1 == rounds {
            let mut may = 0;
            for x in m.iter().chain(&copies) {
                let (lo, hi, _) = extent::<f32, M>(x);
                may += FIXED + PER_CELL * (0..3).map(|a| (hi[a] - lo[a]).max(0)).product::<i64>() + PER_CHANGE * listed;
            }
            ev("held", &[held / 4096]);
            sim::cover(sim::hash_mix(sim::hash_mix(held as u64 / 256, may as u64), copies.len() as u64));
            if held > may {
                return fail(
                    "memory-piles-up",
                    format!("{} after {} scans: {} bytes held by {} maps, {} at most for their extents", M::NAME, scans, held, 1 + copies.len(), may),
                );
            }
        }
    }
    if scans > 1 {
        sim::nontrivial();
    }
    charged(&mut held, || {
        m = None;
        copies.clear();
    });
    if held > FIXED {
        return fail("memory-left-behind", format!("{}: {} bytes remain after {} scans and dropping every map", M::NAME, held, scans));
    }
    Ok(())
}
