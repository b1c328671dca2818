//! C04, C05, C06: histories of several clients on one map (and on snapshots of it).
use crate::api::*;
use crate::faulty::{self, Tok};
use crate::model::*;
use kuba::{LidarOccupancyGridMap2, LidarOccupancyGridMap3};
use simcore::sim::{self, chance, choose, ev, fail, pick, Res};

#[derive(Clone, Copy, PartialEq)]
enum Focus {
    Data,
    Coords,
    Atomic,
}

#[derive(Clone, Debug)]
enum Op {
    Grow(P3, P3, u32),
    Write(C3, u32),
    Read(C3),
    Snapshot,
    DropSnapshot,
    Track(bool),
    ClearChanges,
    AddChanges(u32),
    Restart(bool),
}

struct Rep<M, E> {
    m: M,
    k: Model<E>,
    /// No region was ever given to it.
    pristine: bool,
    regions: Vec<(P3, P3)>,
    changes: Vec<C3>,
    track: bool,
    default: E,
    /// An operation on it (or on what it was copied from) has failed before.
    failed: bool,
}

struct Sim<M, E> {
    cfg: Cfg,
    reps: Vec<Rep<M, E>>,
    next: u32,
    focus: Focus,
}

pub fn c04() -> Res {
    dispatch(Focus::Data)
}
pub fn c05() -> Res {
    dispatch(Focus::Coords)
}
pub fn c06() -> Res {
    if chance(1, 3) {
        return crate::integ::cut_short();
    }
    dispatch(Focus::Atomic)
}

fn dispatch(f: Focus) -> Res {
    if f == Focus::Atomic {
        return match choose(6) {
            0 | 1 => run::<kuba::GridMap2<Tok>, Tok>(f),
            2 | 3 => run::<kuba::GridMap3<Tok>, Tok>(f),
            4 => run::<LidarOccupancyGridMap2, f32>(f),
            _ => run::<LidarOccupancyGridMap3, f32>(f),
        };
    }
    match choose(8) {
        0 => run::<kuba::GridMap2f, f32>(f),
        1 => run::<kuba::GridMap3f, f32>(f),
        2 => run::<kuba::GridMap2i, i32>(f),
        3 => run::<kuba::GridMap3<i32>, i32>(f),
        4 => run::<LidarOccupancyGridMap2, f32>(f),
        5 => run::<LidarOccupancyGridMap3, f32>(f),
        6 => run::<kuba::GridMap2<Tok>, Tok>(f),
        _ => run::<kuba::GridMap3<Tok>, Tok>(f),
    }
}

fn run<M: MapApi<E>, E: Val>(focus: Focus) -> Res {
    let mut c = cfg(M::N, false);
    let default = E::of(choose(5));
    ev(M::NAME, &[c.tile as i64, (c.res * 1000.0) as i64]);
    let kind = choose(5);
    let m = match kind {
        0 if M::N == 2 => {
            let m = M::make_default();
            c.tile = m.tile();
            c.res = m.res();
            m
        }
        1 | 2 => {
            // Given initial bounds: whole cells, or anything.
            let (mut a, mut b) = c.region();
            for i in 0..c.n {
                if kind == 1 {
                    a[i] = c.world((a[i] as f64 / c.res as f64).round());
                    b[i] = c.world((b[i] as f64 / c.res as f64).round());
                }
                if (b[i] - a[i]) < c.res {
                    b[i] = a[i] + c.res;
                }
            }
            ev("initial", &cells6(&c, a, b));
            match sim::guarded(|| M::make(c.res, a, b, c.tile, default.clone())) {
                Ok(m) => m,
                Err(p) => return fail("panic", format!("creating a map of {:?}..{:?} panicked: {}", a, b, p)),
            }
        }
        _ => M::make(c.res, [0.0; 3], [0.0; 3], c.tile, default.clone()),
    };
    let k = initial::<E, M>(&m, default.clone())?;
    let mut s = Sim {
        cfg: c,
        reps: vec![],
        next: 10,
        focus,
    };
    let pristine = k.len() == 0;
    s.reps.push(Rep {
        m,
        k,
        pristine,
        regions: vec![],
        changes: vec![],
        track: false,
        default,
        failed: false,
    });
    s.history()
}

fn cells6(c: &Cfg, a: P3, b: P3) -> [i64; 6] {
    let f = |x: f32| (x as f64 / c.res as f64 * 100.0).round() as i64;
    [f(a[0]), f(a[1]), f(a[2]), f(b[0]), f(b[1]), f(b[2])]
}

impl<M: MapApi<E>, E: Val> Sim<M, E> {
    fn history(&mut self) -> Res {
        let mut net: Net<Op> = Net::new();
        let steps = 3 + choose(22);
        let grow_weight = pick(&[2u32, 4, 8]);
        for _ in 0..steps {
            for _ in 0..=choose(2) {
                let r = choose(grow_weight + 10);
                let id = self.next;
                self.next += 1;
                let op = match r {
                    0 | 1 => self.cfg.random_cell(&self.reps[0].k).map(|g| Op::Write(g, id)),
                    2 => self.cfg.random_cell(&self.reps[0].k).map(Op::Read),
                    3 => Some(Op::Snapshot),
                    4 => Some(Op::DropSnapshot),
                    5 => Some(Op::Track(chance(1, 2))),
                    6 if chance(1, 3) => Some(Op::ClearChanges),
                    7 => Some(Op::AddChanges(1 + choose(3))),
                    6 => Some(Op::Restart(chance(1, 2))),
                    8 | 9 => self.cfg.random_cell(&self.reps[0].k).map(|g| Op::Write(g, id)),
                    _ => {
                        let (a, b) = self.cfg.region();
                        Some(Op::Grow(a, b, id))
                    }
                };
                if let Some(op) = op {
                    net.send(op);
                }
            }
            if let Some(op) = net.deliver() {
                let r = choose(self.reps.len() as u32) as usize;
                self.apply(r, op)?;
            }
            if self.focus == Focus::Atomic && chance(1, 3) {
                let r = choose(self.reps.len() as u32) as usize;
                self.refused(r)?;
            }
            if chance(1, 6) {
                self.verify_all("a later operation")?;
            }
        }
        while let Some(op) = net.deliver() {
            let r = choose(self.reps.len() as u32) as usize;
            self.apply(r, op)?;
        }
        self.verify_all("the end of the history")
    }

    fn class(&self) -> &'static str {
        match self.focus {
            Focus::Data => "data-lost-or-moved",
            Focus::Coords => "value-moved",
            Focus::Atomic => "map-not-intact",
        }
    }

    fn verify_all(&self, when: &str) -> Res {
        for (i, r) in self.reps.iter().enumerate() {
            self.verify(i, &format!("map {} after {}", i, when))?;
            let _ = r;
        }
        Ok(())
    }

    fn verify(&self, r: usize, what: &str) -> Res {
        let rep = &self.reps[r];
        if self.focus == Focus::Coords {
            return Ok(());
        }
        same(&rep.m, &rep.k, self.class(), what)?;
        self.verify_record(r, what)
    }

    fn verify_record(&self, r: usize, what: &str) -> Res {
        // What a growth does to entries of the record is C10's business.
        let rep = &self.reps[r];
        if rep.m.tracking() != rep.track {
            return fail(self.class(), format!("{}: change tracking switched by itself", what));
        }
        if self.focus == Focus::Atomic {
            let mut have: Vec<C3> = rep.m.changed().iter().map(|l| to_global(&rep.k, *l)).collect();
            let mut want = rep.changes.clone();
            have.sort();
            have.dedup();
            want.sort();
            want.dedup();
            if have != want {
                return fail(
                    self.class(),
                    format!("{}: change record is {:?}, expected {:?} (world cells)", what, have, want),
                );
            }
        }
        Ok(())
    }

    fn apply(&mut self, r: usize, op: Op) -> Res {
        match op {
            Op::Grow(a, b, id) => self.grow(r, a, b, id),
            Op::Write(g, id) => {
                let p = self.cfg.inside(g);
                let rep = &mut self.reps[r];
                if !rep.k.has(g) {
                    return Ok(());
                }
                let v = E::of(id);
                let class = if self.focus == Focus::Coords { "point-not-resolved" } else { "data-lost-or-moved" };
                let l = rep.m.locate(p);
                ev("write", &[g[0], g[1], g[2], v.num()]);
                sim::count("op.write");
                if l != rep.k.local(g) {
                    return fail(
                        class,
                        format!("world point {:?} of world cell {:?} resolves to cell {:?}, expected {:?}", p, g, l, rep.k.local(g)),
                    );
                }
                if let Err(m) = sim::guarded(|| rep.m.put(l, v.clone())) {
                    return fail("panic", format!("writing world cell {:?} inside the map panicked: {}", g, m));
                }
                rep.k.set(g, v);
                Ok(())
            }
            Op::Read(g) => {
                let p = self.cfg.inside(g);
                let rep = &self.reps[r];
                if !rep.k.has(g) {
                    return Ok(());
                }
                sim::count("op.read");
                let l = rep.m.locate(p);
                let v = match sim::guarded(|| rep.m.at(l)) {
                    Ok(v) => v,
                    Err(m) => return fail("panic", format!("reading world point {:?} panicked: {}", p, m)),
                };
                if v != *rep.k.get(g) {
                    return fail(
                        self.class(),
                        format!("world point {:?} reads {:?}, expected {:?}", p, v, rep.k.get(g)),
                    );
                }
                Ok(())
            }
            Op::Snapshot => {
                if self.reps.len() < 4 {
                    let rep = &self.reps[r];
                    let c = Rep {
                        m: rep.m.copy(),
                        k: rep.k.clone(),
                        pristine: rep.pristine,
                        regions: rep.regions.clone(),
                        changes: rep.changes.clone(),
                        track: rep.track,
                        default: rep.default.clone(),
                        failed: rep.failed,
                    };
                    ev("snapshot", &[r as i64]);
                    sim::count("op.snapshot");
                    sim::nontrivial();
                    self.reps.push(c);
                }
                Ok(())
            }
            Op::Restart(column_major) => {
                // The process dies; only what was stored of the map survives.
                let rep = &mut self.reps[r];
                if rep.k.len() == 0 {
                    return Ok(());
                }
                let m = match sim::guarded(|| rep.m.restore(column_major)) {
                    Ok(m) => m,
                    Err(p) => return fail("panic", format!("restoring a stored map panicked: {}", p)),
                };
                ev("restart", &[column_major as i64]);
                sim::fault("fault.crash_and_restore_from_stored_map");
                sim::nontrivial();
                rep.m = m;
                rep.track = false;
                rep.changes.clear();
                self.verify(r, "restoring the stored map")
            }
            Op::DropSnapshot => {
                if self.reps.len() > 1 {
                    let i = choose(self.reps.len() as u32) as usize;
                    ev("drop", &[i as i64]);
                    sim::count("op.drop_snapshot");
                    self.reps.remove(i);
                }
                Ok(())
            }
            Op::Track(v) => {
                let rep = &mut self.reps[r];
                rep.m.set_tracking(v);
                rep.track = v;
                Ok(())
            }
            Op::ClearChanges => {
                let rep = &mut self.reps[r];
                rep.m.clear_changed();
                rep.changes.clear();
                Ok(())
            }
            Op::AddChanges(n) => {
                for _ in 0..n {
                    if let Some(g) = self.cfg.random_cell(&self.reps[r].k) {
                        let rep = &mut self.reps[r];
                        rep.m.add_changed(&[rep.k.local(g)]);
                        rep.changes.push(g);
                    }
                }
                Ok(())
            }
        }
    }

    fn grow(&mut self, r: usize, a: P3, b: P3, id: u32) -> Res {
        let n = self.cfg.n;
        let c = self.cfg.clone();
        {
            let rep = &self.reps[r];
            if c.too_big(rep.k.lo, rep.k.hi, rep.pristine, a, b) {
                sim::count("probe.growth_skipped_too_big");
                return Ok(());
            }
        }
        let d = E::of(id);
        ev("grow", &cells6(&c, a, b));
        sim::count("op.grow");
        if self.focus == Focus::Atomic && chance(1, 2) && self.try_failing_growth(r, a, b, &d)? {
            return Ok(());
        }
        let mut before: Vec<(P3, E)> = vec![];
        if self.focus == Focus::Coords {
            for _ in 0..16 {
                if let Some(g) = c.random_cell(&self.reps[r].k) {
                    let p = c.inside(g);
                    let rep = &self.reps[r];
                    match sim::guarded(|| rep.m.at(rep.m.locate(p))) {
                        Ok(v) => before.push((p, v)),
                        Err(m) => return fail("point-outside-map", format!("reading point {:?} inside the map panicked: {}", p, m)),
                    }
                }
            }
        }
        let class = if self.focus == Focus::Data { "bad-extent" } else { self.class() };
        let rep = &mut self.reps[r];
        if let Err(m) = sim::guarded(|| rep.m.grow(a, b, d.clone())) {
            return fail(
                if self.focus == Focus::Atomic { "not-usable" } else { "panic" },
                format!("growing {:?}..{:?} (cells {:?}..{:?}) panicked: {}", a, b, rep.k.lo, rep.k.hi, m),
            );
        }
        let (lo, hi, off) = extent::<E, M>(&rep.m);
        let changed = lo != rep.k.lo || hi != rep.k.hi;
        ev("extent", &[lo[0], lo[1], lo[2], hi[0], hi[1], hi[2]]);
        sim::cover(sim::hash_mix(sim::hash_mix(lo[0] as u64, hi[1] as u64), (hi[0] * 7 + lo[1]) as u64));
        if self.focus == Focus::Coords {
            // Extents are C04's business; the model follows the map.
        } else {
            for i in 0..n {
                if !rep.pristine && (lo[i] > rep.k.lo[i] || hi[i] < rep.k.hi[i]) {
                    return fail(class, format!("growing shrank the map: {:?}..{:?} to {:?}..{:?}", rep.k.lo, rep.k.hi, lo, hi));
                }
                let t = c.tile as i64;
                if changed && (lo[i].rem_euclid(t) != 0 || hi[i].rem_euclid(t) != 0 || off > 0.02) {
                    return fail(
                        class,
                        format!("extent {:?}..{:?} cells is not a whole number of tiles of {} (off the grid by {:.3} cells)", lo, hi, t, off),
                    );
                }
                // Whole tiles, and at most one more than needed.
                let e = slack(b[i].abs().max(a[i].abs()) as f64, c.res as f64);
                let mut la = (a[i] as f64 / c.res as f64 + 0.5 - e).floor() as i64;
                let mut lb = (b[i] as f64 / c.res as f64 + 0.5 + e).floor() as i64 + 1;
                if !rep.pristine {
                    la = la.min(rep.k.lo[i]);
                    lb = lb.max(rep.k.hi[i]);
                }
                if changed && (lo[i] < (la.div_euclid(t) - 1) * t || hi[i] > (-(-lb).div_euclid(t) + 1) * t) {
                    return fail(
                        class,
                        format!(
                            "growing cells {:?}..{:?} by {:?}..{:?} gave {:?}..{:?} cells, more than a tile of {} beyond what is needed",
                            rep.k.lo, rep.k.hi, a, b, lo, hi, t
                        ),
                    );
                }
                let (min, max) = rep.m.ext();
                let tol = (slack(b[i].abs().max(a[i].abs()) as f64, c.res as f64) * c.res as f64) as f32;
                if a[i] < min[i] - tol || b[i] > max[i] + tol {
                    return fail(
                        class,
                        format!("extent {:?}..{:?} does not cover the requested {:?}..{:?}", min, max, a, b),
                    );
                }
            }
        }
        if changed {
            sim::nontrivial();
            if lo != rep.k.lo && !rep.pristine {
                sim::count("probe.growth_moved_the_lower_corner");
            }
            if (0..3).any(|i| hi[i] < lo[i]) || (hi[0] - lo[0]) * (hi[1] - lo[1]) * (hi[2] - lo[2]) > 4_000_000 {
                return fail(class, format!("growing {:?}..{:?} gave the extent {:?}..{:?}", a, b, lo, hi));
            }
            rep.k.grow_to(lo, hi, d);
        }
        rep.pristine = false;
        rep.regions.push((a, b));
        match self.focus {
            Focus::Data => {
                self.verify(r, "growing")?;
                Ok(())
            }
            Focus::Atomic => self.settle(r),
            Focus::Coords => {
                let rep = &self.reps[r];
                for (p, v) in before {
                    let w = sim::guarded(|| rep.m.at(rep.m.locate(p)));
                    if w.as_ref() != Ok(&v) {
                        return fail("value-moved", format!("point {:?} read {:?} before the growth, {:?} after it", p, v, w));
                    }
                }
                self.coords(r)
            }
        }
    }

    // ---------------------------------------------------------------- C05

    fn coords(&mut self, r: usize) -> Res {
        let c = self.cfg.clone();
        let rep = &self.reps[r];
        let res = c.res as f64;
        let (lo, hi) = (rep.k.lo, rep.k.hi);
        let total = rep.k.len();
        // Every cell's centre (all cells of small maps, a stride through large ones).
        let stride = (total / 1500).max(1);
        let mut i = if stride > 1 { choose(stride as u32) as usize } else { 0 };
        while i < total {
            let l = rep.k.local(rep.k.cell(i));
            let p = rep.m.center(l);
            let back = rep.m.locate(p);
            if back != l {
                return fail(
                    "centre-resolves-elsewhere",
                    format!("extent {:?}..{:?}: centre {:?} of cell {:?} resolves to {:?}", lo, hi, p, l, back),
                );
            }
            i += stride;
        }
        // Points of every region the map was grown to cover.
        for k in 0..rep.regions.len() {
            let (a, b) = rep.regions[rep.regions.len() - 1 - k];
            let samples = if k == 0 { 14 } else { 3 };
            for _ in 0..samples {
                let mut p = [0.0f32; 3];
                for i in 0..c.n {
                    p[i] = match choose(6) {
                        0 | 1 => b[i],
                        2 => a[i],
                        3 => {
                            // A point near the upper border of the region.
                            (b[i] - c.res * sim::uniform(0.0, 0.6) as f32).max(a[i])
                        }
                        _ => (a[i] as f64 + (b[i] - a[i]) as f64 * sim::uniform(0.0, 1.0)) as f32,
                    };
                    p[i] = p[i].max(a[i]).min(b[i]);
                }
                sim::count("op.resolve_point");
                let l = rep.m.locate(p);
                for i in 0..c.n {
                    if l[i] < 0 || l[i] >= hi[i] - lo[i] {
                        return fail(
                            "point-outside-map",
                            format!(
                                "the map was grown to cover {:?}..{:?}; point {:?} (cells {:.3}, {:.3}, {:.3}) resolves to cell {:?} of a map of {:?} cells",
                                a, b, p, p[0] as f64 / res, p[1] as f64 / res, p[2] as f64 / res, l, rep.k.dims()
                            ),
                        );
                    }
                }
                let q = rep.m.center(l);
                for i in 0..c.n {
                    let d = (q[i] as f64 - p[i] as f64).abs() / res;
                    if d > 0.5 + slack(p[i] as f64, res) {
                        return fail(
                            "centre-too-far",
                            format!("point {:?} resolves to cell {:?} whose centre {:?} is {:.3} cells away", p, l, q, d),
                        );
                    }
                }
                if let Err(m) = sim::guarded(|| rep.m.at(l)) {
                    return fail("point-outside-map", format!("reading cell {:?} of point {:?} panicked: {}", l, p, m));
                }
            }
        }
        Ok(())
    }

    // ---------------------------------------------------------------- C06

    /// After a growth that succeeded: what it does to data and record is judged by C04 and C10;
    /// here the model follows, except that a map on which something failed before must still work.
    fn settle(&mut self, r: usize) -> Res {
        let rep = &mut self.reps[r];
        rep.changes = rep.m.changed().iter().map(|l| to_global(&rep.k, *l)).collect();
        if rep.failed {
            return self.verify(r, "growing (after an earlier failure)");
        }
        for i in 0..rep.k.cells.len() {
            let l = rep.k.local(rep.k.cell(i));
            match sim::guarded(|| rep.m.at(l)) {
                Ok(v) => rep.k.cells[i] = v,
                Err(_) => return Ok(()),
            }
        }
        Ok(())
    }

    /// A growth that fails partway. Returns true if it did fail (nothing may have changed).
    fn try_failing_growth(&mut self, r: usize, a: P3, b: P3, d: &E) -> Result<bool, sim::Fail> {
        let c = self.cfg.clone();
        if std::any::TypeId::of::<E>() == std::any::TypeId::of::<Tok>() && chance(2, 3) {
            let rep = &mut self.reps[r];
            // Copies of the default for the new cells, then of the old cells.
            let old = rep.k.len() as u32;
            let fuse = match choose(4) {
                0 => choose(4),
                1 => choose(2 * old + 40),
                2 => choose(old + 20) + old / 2,
                _ => choose(6 * old + 200),
            };
            faulty::set_fuse(Some(fuse as i64));
            let res = sim::guarded(|| rep.m.grow(a, b, d.clone()));
            faulty::set_fuse(None);
            let blown = faulty::blown();
            if blown {
                sim::fault("fault.element_copy_failed");
                ev("fuse", &[fuse as i64]);
                if res.is_ok() {
                    return fail("failure-swallowed", "growing reported success although copying an element failed");
                }
                rep.failed = true;
                self.verify(r, "a growth in which copying an element failed")?;
                return Ok(true);
            }
            if res.is_err() {
                return fail("panic", format!("growing {:?}..{:?} panicked", a, b));
            }
            // It went through: let the model follow.
            let (lo, hi, _) = extent::<E, M>(&rep.m);
            if lo != rep.k.lo || hi != rep.k.hi {
                rep.k.grow_to(lo, hi, d.clone());
            }
            rep.pristine = false;
            self.settle(r)?;
            return Ok(true);
        }
        // A request that cannot be allocated.
        let mut x = a;
        let mut y = b;
        for i in 0..c.n {
            let huge = if c.n == 2 { 2.0e10 } else { 1.0e8 } * c.res;
            match choose(3) {
                0 => y[i] = huge,
                1 => x[i] = -huge,
                _ => {
                    x[i] = -huge;
                    y[i] = huge
                }
            }
        }
        let rep = &mut self.reps[r];
        let res = sim::guarded(|| rep.m.grow(x, y, d.clone()));
        sim::fault("fault.size_not_allocatable");
        if res.is_ok() {
            return fail("failure-swallowed", "growing to a size that cannot be allocated reported success");
        }
        rep.failed = true;
        self.verify(r, "a growth that cannot be allocated")?;
        Ok(false)
    }

    /// Accesses outside the map.
    fn refused(&mut self, r: usize) -> Res {
        let rep = &mut self.reps[r];
        let n = self.cfg.n;
        let d = rep.k.dims();
        let mut l = [0i64; 3];
        for i in 0..n {
            l[i] = if d[i] > 0 { choose(d[i] as u32) as i64 } else { 0 };
        }
        let axis = choose(n as u32) as usize;
        l[axis] = match choose(7) {
            0 => d[axis],
            1 => -1,
            2 => d[axis] + choose(40) as i64,
            3 => -1 - choose(40) as i64,
            4 => pick(&[i64::MAX, i64::MIN, i64::MIN + 1, 1 << 40, -(1 << 40), 1 << 32, -(1 << 32)]),
            // Same linear offset as an existing cell, one row further.
            5 => -d[axis],
            _ => 2 * d[axis],
        };
        if d[axis] == 0 && l[axis] == 0 {
            l[axis] = -1;
        }
        if l[axis] >= 0 && l[axis] < d[axis] {
            return Ok(());
        }
        if n == 2 && choose(3) == 1 {
            l[1 - axis] = pick(&[0, d[1 - axis], -1]);
        }
        ev("outside", &[l[0], l[1], l[2]]);
        sim::fault("fault.access_outside_map");
        if chance(1, 2) {
            if let Ok(v) = sim::guarded(|| rep.m.at(l)) {
                return fail("outside-access-accepted", format!("reading cell {:?} of a map of {:?} cells gave {:?}", l, d, v));
            }
        } else {
            let v = E::of(self.next);
            self.next += 1;
            if sim::guarded(|| rep.m.put(l, v)).is_ok() {
                return fail("outside-access-accepted", format!("writing cell {:?} of a map of {:?} cells succeeded", l, d));
            }
        }
        rep.failed = true;
        self.verify(r, "a refused access")
    }
}

fn to_global<E: Val>(k: &Model<E>, l: C3) -> C3 {
    [l[0] + k.lo[0], l[1] + k.lo[1], l[2] + k.lo[2]]
}
