//! C11, C12: the live viewer under every schedule the tape describes.
use crate::play::{self, key, marker_is, Frame, Key, Played, Rt, RES};
use crate::rec;
use kuba::prelude::*;
use simcore::interpose::FsConfig;
use simcore::sched::End;
use simcore::sim::{self, chance, fail, pick, Res};
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;

type Content = BTreeSet<Key>;

/// The library itself, used by one thread: the map after 0, 1, 2, ... scans.
struct Reference {
    poses: Vec<kuba::Pose3>,
    rts: Vec<Rt>,
    clouds: Vec<kuba::PointCloud3>,
    map: kuba::LidarOccupancyGridMap3,
    /// Indices of cells with evidence, while the map keeps its size.
    touched: Vec<kuba::Cell3>,
    /// (scan, cells of the map) already scanned in full.
    seen: BTreeSet<(usize, Vec<usize>)>,
    states: Vec<Content>,
    grew: usize,
}

impl Reference {
    fn new(dir: &Path) -> Result<Reference, String> {
        let poses = kuba::kitti::oxt_reader::read_from_dir(&dir.join("oxts/data"), false).map_err(|e| e.to_string())?;
        let clouds = kuba::kitti::point_cloud_reader::read_from_dir(&dir.join("velodyne_points/data"), false)
            .map_err(|e| e.to_string())?;
        let clouds = clouds.into_iter().zip(&poses).map(|(c, p)| c.transform(&p.to_homogeneous())).collect();
        let rts = poses
            .iter()
            .map(|p| {
                let m = p.rotation.to_rotation_matrix();
                let mut r = [[0.0; 3]; 3];
                for i in 0..3 {
                    for j in 0..3 {
                        r[i][j] = m[(i, j)] as f64;
                    }
                }
                let t = p.translation.vector;
                Rt {
                    t: [t[0] as f64, t[1] as f64, t[2] as f64],
                    r,
                }
            })
            .collect();
        Ok(Reference {
            poses,
            rts,
            clouds,
            map: kuba::LidarOccupancyGridMap3::default(),
            touched: vec![],
            seen: BTreeSet::new(),
            states: vec![Content::new()],
            grew: 0,
        })
    }
    fn n(&self) -> usize {
        self.clouds.len()
    }
    /// The occupied cells after `j` scans.
    fn state(&mut self, j: usize) -> &Content {
        while self.states.len() <= j {
            let s = (self.states.len() - 1) % self.n();
            let before = self.map.grid_map.data.shape().to_vec();
            let min = self.map.bounds().min;
            self.map
                .integrate_point_cloud(&kuba::Point3::from(self.poses[s].translation.vector), &self.clouds[s]);
            let shape = self.map.grid_map.data.shape().to_vec();
            if shape != before && self.states.len() > 1 {
                self.grew += 1;
            }
            if self.seen.insert((s, shape.clone())) || shape != before || min != self.map.bounds().min {
                self.touched = nonzero(&self.map);
            }
            let c = occupied(&self.map, &self.touched);
            self.states.push(c);
        }
        &self.states[j]
    }
}

fn nonzero(m: &kuba::LidarOccupancyGridMap3) -> Vec<kuba::Cell3> {
    let d = &m.grid_map.data;
    let sh = d.shape();
    let mut v = vec![];
    match d.as_slice() {
        Some(s) => {
            for (b, chunk) in s.chunks(64).enumerate() {
                if chunk.iter().all(|x| x.to_bits() == 0) {
                    continue;
                }
                for (i, x) in chunk.iter().enumerate() {
                    if *x != 0.0 {
                        let at = b * 64 + i;
                        v.push(kuba::Cell3::new(
                            (at / (sh[1] * sh[2])) as isize,
                            (at / sh[2] % sh[1]) as isize,
                            (at % sh[2]) as isize,
                        ));
                    }
                }
            }
        }
        None => {
            for ((x, y, z), val) in d.indexed_iter() {
                if *val != 0.0 {
                    v.push(kuba::Cell3::new(x as isize, y as isize, z as isize));
                }
            }
        }
    }
    v
}

fn world(m: &kuba::LidarOccupancyGridMap3, c: &kuba::Cell3) -> Key {
    let min = m.bounds().min;
    let mut k = [0; 3];
    for a in 0..3 {
        k[a] = (min[a] as f64 / RES).round() as i64 + c[a] as i64;
    }
    k
}

fn occupied(m: &kuba::LidarOccupancyGridMap3, cells: &[kuba::Cell3]) -> Content {
    cells.iter().filter(|c| m.occupied(c)).map(|c| world(m, c)).collect()
}

/// Frames the fair phase may pass without the next scan being picked up.
const PATIENCE: usize = 6;

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
struct Hyp {
    /// Scans whose effect is shown.
    j: usize,
    /// Scans handed to the integrator.
    k: usize,
    idle: usize,
}

/// Follows the frames with every explanation still possible. Returns the frame at which none is left
/// and whether only impatience removed the last one.
fn explain(
    frames: &[Frame],
    shown: &[Content],
    refr: &mut Reference,
    use_content: bool,
    use_marker: bool,
    patient: bool,
) -> Option<(usize, bool)> {
    let n = refr.n();
    let mut cur = BTreeSet::new();
    cur.insert(Hyp { j: 0, k: 0, idle: 0 });
    let mut was_fair = false;
    for (f, frame) in frames.iter().enumerate() {
        let marks: Vec<bool> = refr
            .rts
            .iter()
            .map(|p| !use_marker || marker_is(&frame.lines, p, 1e-3, 1e-3))
            .collect();
        if frame.fair && !was_fair {
            was_fair = true;
            cur = cur.into_iter().map(|h| Hyp { idle: 0, ..h }).collect();
        }
        let mut next = BTreeSet::new();
        let mut impatient = false;
        for h in &cur {
            for k in h.k..=h.k + 1 {
                if !marks[k % n] {
                    continue;
                }
                for j in h.j.max(k.saturating_sub(1))..=k {
                    if use_content && *refr.state(j) != shown[f] {
                        continue;
                    }
                    let idle = if k > h.k || patient { 0 } else { h.idle + 1 };
                    if frame.fair && idle > PATIENCE {
                        impatient = true;
                        continue;
                    }
                    next.insert(Hyp { j, k, idle: if frame.fair { idle } else { 0 } });
                }
            }
        }
        if next.is_empty() {
            return Some((f, impatient));
        }
        cur = next;
        sim::cover(sim::hash_mix(
            sim::fnv(b"hyp"),
            cur.iter().fold(n as u64, |a, h| sim::hash_mix(a, ((h.j % n * 16 + h.k % n) * 16 + h.k - h.j) as u64)),
        ));
    }
    None
}

/// Only the contents, in order, whatever the marker says.
fn explain_contents(shown: &[Content], refr: &mut Reference) -> Option<usize> {
    let mut cur: BTreeSet<usize> = [0].into_iter().collect();
    for (f, c) in shown.iter().enumerate() {
        let mut next = BTreeSet::new();
        for j in &cur {
            for j2 in *j..=f + 1 {
                if *refr.state(j2) == *c {
                    next.insert(j2);
                }
            }
        }
        if next.is_empty() {
            return Some(f);
        }
        cur = next;
    }
    None
}

fn decode(frames: &[Frame]) -> Result<Vec<Content>, (usize, [f32; 3])> {
    let mut v = vec![];
    for (f, fr) in frames.iter().enumerate() {
        let mut c = Content::new();
        for p in &fr.points {
            match key(p) {
                Some(k) => {
                    c.insert(k);
                }
                None => return Err((f, *p)),
            }
        }
        v.push(c);
    }
    Ok(v)
}

fn run() -> Result<(Played, Reference), sim::Fail> {
    let rec = rec::generate(5, pick(&[40, 95, 95]), 2.0, 0.3);
    let files = rec::files(&rec);
    let dir = rec::store(&files)?;
    let refr = match Reference::new(&dir) {
        Ok(r) => r,
        Err(e) => return fail("harness", format!("reference cannot read the recording: {}", e)),
    };
    if refr.n() != rec.scans.len() || refr.poses.len() != refr.n() {
        return fail("harness", "reference recording incomplete");
    }
    let fs = FsConfig {
        root: dir.to_str().unwrap().to_string(),
        eintr_every: 0,
        short_every: 0,
        permute: chance(1, 2),
        no_types: false,
        stale_size: false,
        max_open: usize::MAX,
        hard_at: None,
    };
    let n = refr.n();
    let mut plan = play::plan(pick(&[6, 14, 14, 30, 30, 120]), 8 + 2 * n);
    if chance(1, 6) {
        let from = 1 + sim::choose((plan.chaos_frames + n) as u32) as usize;
        plan.hold = Some((from, sim::choose(60), pick(&[1, 3, 10])));
    }
    let played = play::play(&dir, fs, plan);
    sim::note(|| {
        let mut s = String::from("scans:");
        for x in &rec.scans {
            s += &format!(" pose {:?} points {:?};", x.pose.t, x.world);
        }
        s
    });
    sim::note(|| format!("end {:?} panics {:?} frames {}", played.report.end, played.report.panics, played.frames.len()));
    if played.overlapped > 0 {
        sim::nontrivial();
    }
    Ok((played, refr))
}

fn diff(shown: &Content, refr: &mut Reference, upto: usize) -> String {
    let mut best: Option<(usize, usize)> = None;
    for j in 0..=upto {
        let d = refr.state(j).symmetric_difference(shown).count();
        if best.map_or(true, |b| d <= b.0) {
            best = Some((d, j));
        }
    }
    let (_, j) = best.unwrap();
    let st = refr.state(j);
    if st == shown {
        return format!("the map after {} scans is shown, not the one due by now (nor a later one)", j);
    }
    let extra: Vec<_> = shown.difference(st).take(4).collect();
    let missing: Vec<_> = st.difference(shown).take(4).collect();
    format!("closest is the map after {} scans: shown but not occupied {:?}, occupied but not shown {:?}", j, extra, missing)
}

pub fn c11() -> Res {
    let (played, mut refr) = run()?;
    let shown = match decode(&played.frames) {
        Ok(s) => s,
        Err((f, p)) => return fail("not-a-cell-centre", format!("frame {} draws {:?}", f + 1, p)),
    };
    let verdict = match explain(&played.frames, &shown, &mut refr, true, true, true) {
        None => Ok(()),
        Some((f, _)) => {
            if explain(&played.frames, &shown, &mut refr, false, true, true).is_none() {
                let d = diff(&shown[f], &mut refr, f + 1);
                fail(
                    "state-never-existed",
                    format!("frame {} of {} (recording of {} scans): {}", f + 1, played.frames.len(), refr.n(), d),
                )
            } else if let Some(f) = explain_contents(&shown, &mut refr) {
                // The marker is wrong too (C12); judge the contents alone.
                let d = diff(&shown[f], &mut refr, f + 1);
                fail("state-never-existed", format!("frame {} of {}: {}", f + 1, played.frames.len(), d))
            } else {
                Ok(())
            }
        }
    };
    if refr.grew > 0 {
        sim::count("probe.map_grew_between_frames");
        sim::nontrivial();
    }
    verdict
}

// ------------------------------------------------------------------ C12

pub fn c12() -> Res {
    let (played, mut refr) = run()?;
    match &played.report.end {
        End::Deadlock(d) => return fail("deadlock", format!("after {} frames: {}", played.frames.len(), d)),
        End::StepLimit => {
            return fail(
                "frame-never-drawn",
                format!("no further frame within {} steps after {} frames", played.report.steps, played.frames.len()),
            )
        }
        End::Exited(c) => return fail("program-exited", format!("exit code {} after {} frames", c, played.frames.len())),
        End::Finished | End::Running => {}
    }
    if let Some((t, m)) = played.report.panics.first() {
        return fail("thread-panicked", format!("thread {} after {} frames: {}", t, played.frames.len(), m));
    }
    let shown = match decode(&played.frames) {
        Ok(s) => s,
        Err(_) => vec![Content::new(); played.frames.len()],
    };
    let n = refr.n();
    if explain(&played.frames, &shown, &mut refr, true, true, false).is_none() {
        return Ok(());
    }
    match explain(&played.frames, &shown, &mut refr, false, true, false) {
        None => {}
        Some((f, true)) => {
            return fail(
                "no-progress",
                format!("recording of {} scans: at frame {} no scan had been picked up for {} fairly scheduled frames", n, f + 1, PATIENCE),
            )
        }
        Some((f, false)) => {
            return fail(
                "scan-out-of-order",
                format!(
                    "recording of {} scans: the marker of frame {} is not at the next scan's pose: {:?}",
                    n,
                    f + 1,
                    played.frames[f].lines.first()
                ),
            )
        }
    }
    match explain(&played.frames, &shown, &mut refr, true, true, true) {
        None => Ok(()),
        Some((f, _)) => match deviation(&played.frames, &shown, &mut refr) {
            Some(d) => fail(
                "scan-not-integrated-once",
                format!("recording of {} scans, {} frames: the maps shown are those of a viewer that {} (first seen at frame {})", n, played.frames.len(), d, f + 1),
            ),
            None => Ok(()), // a state that never existed: C11
        },
    }
}

// ------------------------------------------------------------------ C18

/// Frames after which what the program holds must have settled, frames judged at the end.
const SETTLED: usize = 80;
const LAST: usize = 40;

pub fn c18() -> Res {
    let rec = rec::generate(3, 40, 1.0, 0.3);
    let files = rec::files(&rec);
    let dir = rec::store(&files)?;
    let fs = FsConfig {
        root: dir.to_str().unwrap().to_string(),
        eintr_every: 0,
        short_every: 0,
        permute: false,
        no_types: false,
        stale_size: false,
        max_open: usize::MAX,
        hard_at: None,
    };
    let n = rec.scans.len();
    let mut plan = play::plan(pick(&[40, 100, 200]), LAST + pick(&[60, 120, 250, 400]));
    plan.lead = SETTLED + 1;
    plan.config.max_steps = 800_000;
    let p = play::play(&dir, fs, plan);
    let seen = p.held.len();
    sim::note(|| format!("end {:?} panics {:?} frames {} held {:?}", p.report.end, p.report.panics, p.frames.len(), p.held));
    sim::count("op.long_plays");
    sim::add("probe.passes", (p.report.threads.saturating_sub(1) / n) as u64);
    if p.report.end != End::Finished || !p.report.panics.is_empty() || seen < SETTLED + LAST {
        return Ok(()); // C12
    }
    if p.overlapped > 0 {
        sim::nontrivial();
    }
    let early = &p.held[..SETTLED];
    let late = &p.held[seen - LAST..];
    let bytes = (early.iter().map(|x| x.0).max().unwrap(), late.iter().map(|x| x.0).min().unwrap());
    sim::cover(sim::hash_mix(sim::hash_mix(n as u64, (late[0].0 - early[0].0) as u64), late[0].1 as u64));
    if bytes.1 > bytes.0 + SLACK {
        return fail(
            "memory-piles-up",
            format!(
                "recording of {} scans: {} bytes at most in frames 1 to {}, {} bytes at least in the last {} of {} frames",
                n, bytes.0 - early[0].0, SETTLED, bytes.1 - early[0].0, LAST, seen
            ),
        );
    }
    let threads = late.iter().map(|x| x.1).min().unwrap();
    if threads > MAX_THREADS {
        return fail("threads-pile-up", format!("recording of {} scans: {} threads after {} frames", n, threads, seen));
    }
    Ok(())
}

const SLACK: i64 = 16 << 10;
const MAX_THREADS: usize = 16;

// ------------------------------------------------------------------ C22

pub fn c22() -> Res {
    let rec = rec::generate(3, pick(&[40, 95]), 1.0, 0.3);
    let files = rec::files(&rec);
    let dir = rec::store(&files)?;
    let fs = FsConfig {
        root: dir.to_str().unwrap().to_string(),
        eintr_every: 0,
        short_every: 0,
        permute: false,
        no_types: false,
        stale_size: false,
        max_open: usize::MAX,
        hard_at: None,
    };
    let n = rec.scans.len();
    let frames = if chance(1, 12) { 200 } else { pick(&[1usize, 3, 10, 30]) };
    let mut plan = play::plan(pick(&[6, 14, 30]), 12 + 2 * n + frames);
    plan.config.stall_every = pick(&[0u32, 0, 60]);
    plan.config.max_steps = 400_000;
    let total = plan.chaos_frames + plan.fair_frames;
    let from = 1 + sim::choose((total - frames - 8) as u32) as usize;
    plan.hold = Some((from, sim::choose(pick(&[8u32, 60, 400])), frames));
    let p = play::play(&dir, fs, plan);
    sim::note(|| format!("end {:?} panics {:?} frames {} held {:?} from {} frames meanwhile {}", p.report.end, p.report.panics, p.frames.len(), p.hold, from, p.during_hold));
    let stuck = p.report.end == End::StepLimit && p.hold.holding;
    if p.hold.on_main {
        return fail("integrates-between-frames", format!("the thread that draws integrates a scan after frame {}", from));
    }
    if p.hold.waited || stuck {
        return fail(
            "frame-waits-for-integration",
            format!("from frame {} on: an integration was held up, and no more than {} frames could be drawn meanwhile", from, p.during_hold),
        );
    }
    if p.during_hold > 0 {
        sim::nontrivial();
        sim::count("probe.held_integrations");
    }
    Ok(())
}

type Sparse = BTreeMap<Key, f32>;

/// Explains the frames by handing out the scans in order but integrating something else.
fn deviation(frames: &[Frame], shown: &[Content], refr: &mut Reference) -> Option<&'static str> {
    let n = refr.n();
    let thr = refr.map.noise_model.occupied_threshold_logodds;
    let (lo, hi) = (refr.map.noise_model.min_probability_logodds, refr.map.noise_model.max_probability_logodds);
    let bounds = refr.map.bounds();
    let deltas: Vec<Sparse> = (0..n)
        .map(|s| {
            let mut m = kuba::LidarOccupancyGridMap3::default();
            m.grid_map.expand_bounds(&bounds, 0.0);
            m.integrate_point_cloud(&kuba::Point3::from(refr.poses[s].translation.vector), &refr.clouds[s]);
            nonzero(&m).iter().map(|c| (world(&m, c), m.get(c))).collect()
        })
        .collect();
    let content = |m: &Sparse| -> Content { m.iter().filter(|(_, v)| **v > thr).map(|(k, _)| *k).collect() };
    let add = |m: &Sparse, s: usize| -> Sparse {
        let mut m = m.clone();
        for (k, d) in &deltas[s] {
            let v = m.entry(*k).or_insert(0.0);
            *v = (*v + *d).max(lo).min(hi);
        }
        m
    };
    const WHAT: [&str; 5] = [
        "integrates every scan once",
        "skips a scan",
        "integrates a scan twice",
        "integrates the following scan instead",
        "integrates the preceding scan instead",
    ];
    #[derive(Clone)]
    struct S {
        k: usize,
        prev: (Sparse, Content),
        cur: (Sparse, Content),
        /// Shows `cur` already.
        moved: bool,
        what: usize,
        deviations: usize,
        /// Since the first slip every hand-over deviated in the same way.
        uniform: bool,
    }
    let start = (Sparse::new(), Content::new());
    let mut beam = vec![S {
        k: 0,
        prev: start.clone(),
        cur: start,
        moved: true,
        what: 0,
        deviations: 0,
        uniform: true,
    }];
    for (f, frame) in frames.iter().enumerate() {
        let marks: Vec<bool> = refr.rts.iter().map(|p| marker_is(&frame.lines, p, 1e-3, 1e-3)).collect();
        let mut next: Vec<S> = vec![];
        let mut dedup = BTreeSet::new();
        for s in &beam {
            let mut opts = vec![];
            if marks[s.k % n] {
                opts.push(s.clone());
            }
            if marks[(s.k + 1) % n] {
                let i = s.k % n;
                for act in 0..5 {
                    // A few slips, or a systematic one; anything can be explained by enough slips.
                    let uniform = s.uniform && (s.deviations == 0 || s.what == act);
                    let deviations = s.deviations + (act > 0) as usize;
                    if deviations > 2 && !uniform {
                        continue;
                    }
                    let m = &s.cur.0;
                    let m2 = match act {
                        0 => add(m, i),
                        1 => m.clone(),
                        2 => add(&add(m, i), i),
                        3 => add(m, (i + 1) % n),
                        _ => add(m, (i + n - 1) % n),
                    };
                    let c = content(&m2);
                    opts.push(S {
                        k: s.k + 1,
                        prev: s.cur.clone(),
                        cur: (m2, c),
                        moved: false,
                        what: if act > 0 { act } else { s.what },
                        deviations,
                        uniform,
                    });
                }
            }
            for o in opts {
                for moved in [false, true] {
                    if o.moved && !moved {
                        continue;
                    }
                    let c = if moved { &o.cur.1 } else { &o.prev.1 };
                    if *c != shown[f] {
                        continue;
                    }
                    let h = o.cur.0.iter().chain(&o.prev.0).fold((o.k as u64 * 64 + o.deviations.min(9) as u64) * 4 + o.uniform as u64 * 2 + moved as u64, |a, (k, v)| {
                        sim::hash_mix(sim::hash_mix(sim::hash_mix(sim::hash_mix(a, k[0] as u64), k[1] as u64), k[2] as u64), v.to_bits() as u64)
                    });
                    if dedup.insert(h) && next.len() < 600 {
                        let mut o = o.clone();
                        o.moved = moved;
                        next.push(o);
                    }
                }
            }
        }
        if next.is_empty() {
            return None;
        }
        beam = next;
    }
    beam.iter().find(|s| s.what > 0).map(|s| WHAT[s.what])
}
