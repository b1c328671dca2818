//! C21: work on several threads at the same time.
use crate::api::{NoiseCfg, ScanMap, P3};
use crate::integ::{world, Dump, Scan};
use crate::model::extent;
use crate::readers::{self, put};
use kuba::{LidarOccupancyGridMap2, LidarOccupancyGridMap3};
use simcore::interpose;
use simcore::sched::{self, Config, End, Policy};
use simcore::sim::{self, chance, choose, ev, fail, pick, Res};
use std::io::Read;
use std::path::PathBuf;
use std::sync::{Arc, Mutex};

enum Op {
    Scan(Scan),
    Grow(P3, P3, f32),
    Copy,
    Track(bool),
    Poll,
    /// Refused, one way or the other.
    Outside(usize),
    Impossible,
    Far(Scan),
}

struct Script {
    kind: u32,
    noise: NoiseCfg,
    res: f32,
    tile: usize,
    ops: Vec<Op>,
}

enum Job {
    Dir { root: PathBuf, poses: bool, print: bool, torn: bool },
    File { path: PathBuf, poses: bool, origin: Option<[f64; 3]>, torn: bool },
    Stream { bytes: Vec<u8>, poses: bool, origin: Option<[f64; 3]>, chunk: usize, torn: bool },
    Map(Script),
}

/// Gives its turn away before every read.
struct Slow<'a> {
    data: &'a [u8],
    chunk: usize,
}
impl Read for Slow<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        sched::quiet_point();
        let n = self.data.len().min(b.len()).min(self.chunk);
        b[..n].copy_from_slice(&self.data[..n]);
        self.data = &self.data[n..];
        Ok(n)
    }
}

fn mix(h: &mut u64, v: u64) {
    *h = sim::hash_mix(*h, v);
}
fn mix_pose(h: &mut u64, p: &kuba::Pose3) {
    for v in p.translation.vector.iter().chain(p.rotation.coords.iter()) {
        mix(h, v.to_bits() as u64);
    }
}
fn mix_cloud(h: &mut u64, c: &kuba::PointCloud3) {
    mix(h, c.num_points() as u64);
    for v in c.data.iter() {
        mix(h, v.to_bits() as u64);
    }
}
fn org(o: &Option<[f64; 3]>) -> Option<nalgebra::Translation3<f64>> {
    o.map(|o| nalgebra::Translation3::new(o[0], o[1], o[2]))
}

const FAILED: u64 = 0xdead;

/// Does the job and says what came out.
fn work(j: &Job) -> u64 {
    let mut h = 1;
    let poses = |h: &mut u64, r: std::io::Result<(kuba::Pose3, nalgebra::Translation3<f64>)>| match r {
        Ok((p, o)) => {
            mix_pose(h, &p);
            for v in o.vector.iter() {
                mix(h, v.to_bits());
            }
        }
        Err(e) => mix(h, FAILED + e.kind() as u64),
    };
    let cloud = |h: &mut u64, r: std::io::Result<kuba::PointCloud3>| match r {
        Ok(c) => mix_cloud(h, &c),
        Err(e) => mix(h, FAILED + e.kind() as u64),
    };
    match j {
        Job::Dir { root, poses: true, print, .. } => match kuba::kitti::oxt_reader::read_from_dir(root, *print) {
            Ok(v) => v.iter().for_each(|p| mix_pose(&mut h, p)),
            Err(e) => mix(&mut h, FAILED + e.kind() as u64),
        },
        Job::Dir { root, print, .. } => match kuba::kitti::point_cloud_reader::read_from_dir(root, *print) {
            Ok(v) => v.iter().for_each(|p| mix_cloud(&mut h, p)),
            Err(e) => mix(&mut h, FAILED + e.kind() as u64),
        },
        Job::File { path, poses: true, origin, .. } => poses(&mut h, kuba::kitti::oxt_reader::read_from_file(path, org(origin))),
        Job::File { path, .. } => cloud(&mut h, kuba::kitti::point_cloud_reader::read_from_file(path)),
        Job::Stream { bytes, poses: p, origin, chunk, .. } => {
            let mut s = Slow { data: bytes, chunk: *chunk };
            if *p {
                poses(&mut h, kuba::kitti::oxt_reader::read(&mut s, org(origin)));
            } else {
                cloud(&mut h, kuba::kitti::point_cloud_reader::read(&mut s));
            }
        }
        Job::Map(s) => h = with(s.kind, s),
    }
    h
}

fn with(kind: u32, s: &Script) -> u64 {
    match kind {
        0 => follow::<kuba::GridMap2f>(s),
        1 => follow::<kuba::GridMap3f>(s),
        2 => follow::<LidarOccupancyGridMap2>(s),
        _ => follow::<LidarOccupancyGridMap3>(s),
    }
}

fn apply<M: ScanMap>(m: &mut M, nm: &kuba::LidarNoiseModel, op: &Op, h: &mut u64) {
    match op {
        Op::Scan(s) | Op::Far(s) => {
            let ok = sim::guarded(|| m.integrate(nm, s.origin, &s.pts)).is_ok();
            mix(h, ok as u64);
        }
        Op::Grow(a, b, v) => {
            let ok = sim::guarded(|| m.grow(*a, *b, *v)).is_ok();
            mix(h, ok as u64);
        }
        Op::Copy => {
            let c = m.copy();
            *m = c;
        }
        Op::Track(on) => m.set_tracking(*on),
        Op::Poll => {
            let mut v = m.changed();
            v.sort();
            for c in v {
                for x in c {
                    mix(h, x as u64);
                }
            }
            m.clear_changed();
        }
        Op::Outside(a) => {
            let (lo, hi, _) = extent::<f32, M>(m);
            let mut c = [0i64; 3];
            c[*a] = hi[*a] - lo[*a] + 1;
            let r = sim::guarded(|| m.put(c, 1.0)).is_ok();
            mix(h, r as u64);
        }
        Op::Impossible => {
            let e = m.ext();
            let mut b = e.1;
            for a in 0..M::N {
                b[a] = 1e18;
            }
            let r = sim::guarded(|| m.grow(e.0, b, 0.0)).is_ok();
            mix(h, r as u64);
        }
    }
}

fn follow<M: ScanMap>(s: &Script) -> u64 {
    let nm = s.noise.build();
    let mut m = M::make_noise(s.noise, s.res, s.tile);
    let mut h = 7;
    for op in &s.ops {
        apply(&mut m, &nm, op, &mut h);
    }
    match Dump::of(&m) {
        Ok(d) => {
            for x in d.lo.iter().chain(&d.hi) {
                mix(&mut h, *x as u64);
            }
            for v in &d.v {
                mix(&mut h, v.to_bits() as u64);
            }
        }
        Err(_) => mix(&mut h, FAILED),
    }
    h
}

fn script<M: ScanMap>(kind: u32) -> Script {
    let mut w = world(M::N, false);
    w.span = w.span.min(if M::N == 2 { 8.0 } else { 2.0 });
    w.tile = w.tile.min(5);
    w.reach = w.span * pick(&[0.5, 1.0]);
    w.max_pts = w.max_pts.min(12);
    w.bulk = false;
    let nm = w.noise.build();
    let mut m = M::make_noise(w.noise, w.res, w.tile);
    let mut ops = vec![];
    let mut h = 0;
    for _ in 0..2 + choose(8) {
        let op = match choose(16) {
            0 => Op::Copy,
            1 | 2 => Op::Track(chance(3, 4)),
            3 | 4 => Op::Poll,
            5 => Op::Outside(choose(w.n as u32) as usize),
            6 if chance(1, 2) => {
                let mut s = w.scan();
                let mut p = s.origin;
                p[..w.n].fill(1e18);
                s.pts.push(p);
                Op::Far(s)
            }
            6 => Op::Impossible,
            7 => {
                let s = w.scan();
                let mut b = s.origin;
                for a in 0..w.n {
                    b[a] += w.res * (1 + choose(4)) as f32;
                }
                if w.too_big(&m, &Scan { origin: b, pts: vec![s.origin] }) {
                    continue;
                }
                Op::Grow(s.origin, b, pick(&[0.0, 0.25]))
            }
            _ => {
                let s = w.scan();
                if w.too_big(&m, &s) {
                    continue;
                }
                Op::Scan(s)
            }
        };
        // What is meant to fail fails for the first time once the others were seen to succeed.
        if !matches!(op, Op::Outside(_) | Op::Impossible | Op::Far(_)) {
            apply(&mut m, &nm, &op, &mut h);
        }
        ops.push(op);
    }
    Script { kind, noise: w.noise, res: w.res, tile: w.tile, ops }
}

fn job(base: &std::path::Path, k: usize) -> Result<Job, sim::Fail> {
    let poses = chance(1, 2);
    let origin = || -> Option<[f64; 3]> {
        if chance(1, 2) {
            return None;
        }
        let f = readers::gen_fix(None);
        Some([f.lat, f.lon, f.alt])
    };
    Ok(match choose(8) {
        0 | 1 => {
            let n = choose(8) as usize;
            let mut entries = readers::gen_entries(poses, n);
            let torn = n > 0 && chance(1, 6);
            if torn {
                let e = &mut entries[choose(n as u32) as usize];
                e.bytes = vec![b'x'; 7];
                sim::fault("fault.disk.torn_file");
            }
            let root = base.join(format!("d{}", k));
            sim::outside(|| -> std::io::Result<()> {
                std::fs::create_dir(&root)?;
                for e in &entries {
                    put(&root.join(readers::os(&e.name)), &e.bytes, None)?;
                }
                Ok(())
            })
            .map_err(readers::io_harness)?;
            Job::Dir { root, poses, print: chance(1, 4), torn }
        }
        2 | 3 => {
            let mut e = readers::gen_entries(poses, 1);
            let mut bytes = e.remove(0).bytes;
            let torn = chance(1, 6);
            if torn {
                bytes.truncate(7);
                sim::fault("fault.stream.torn");
            }
            if chance(1, 2) {
                Job::Stream { bytes, poses, origin: origin(), chunk: pick(&[1usize, 5, 40, 4096]), torn }
            } else {
                let path = base.join(format!("f{}", k));
                sim::outside(|| std::fs::write(&path, &bytes)).map_err(readers::io_harness)?;
                Job::File { path, poses, origin: origin(), torn }
            }
        }
        _ => {
            let kind = choose(4);
            Job::Map(match kind {
                0 => script::<kuba::GridMap2f>(kind),
                1 => script::<kuba::GridMap3f>(kind),
                2 => script::<LidarOccupancyGridMap2>(kind),
                _ => script::<LidarOccupancyGridMap3>(kind),
            })
        }
    })
}

fn doomed(j: &Job) -> bool {
    match j {
        Job::Dir { torn, .. } | Job::File { torn, .. } | Job::Stream { torn, .. } => *torn,
        Job::Map(s) => s.ops.iter().any(|o| matches!(o, Op::Outside(_) | Op::Impossible | Op::Far(_))),
    }
}

fn name(j: &Job) -> &'static str {
    match j {
        Job::Dir { poses: true, .. } => "reading a directory of poses",
        Job::Dir { .. } => "reading a directory of scans",
        Job::File { poses: true, .. } | Job::Stream { poses: true, .. } => "reading a pose",
        Job::File { .. } | Job::Stream { .. } => "reading a scan",
        Job::Map(_) => "mapping",
    }
}

pub fn c21() -> Res {
    let base = interpose::scratch();
    let mut n = 0;
    let mut tasks: Vec<Vec<Job>> = vec![];
    for _ in 0..2 + choose(3) {
        let mut v = vec![];
        for _ in 0..1 + choose(3) {
            v.push(job(&base, n)?);
            n += 1;
        }
        tasks.push(v);
    }
    ev("tasks", &[tasks.len() as i64, n as i64]);
    let still = || {
        let mut c = readers::disk(&base, false, 1);
        c.eintr_every = 0;
        c.short_every = 0;
        c.permute = false;
        c
    };
    interpose::fs_begin(still());
    // First those that should succeed, then those meant to fail.
    let mut alone: Vec<Vec<u64>> = tasks.iter().map(|t| vec![0; t.len()]).collect();
    for fails in [false, true] {
        for (t, jobs) in tasks.iter().enumerate() {
            for (k, j) in jobs.iter().enumerate().filter(|(_, j)| fails == doomed(j)) {
                alone[t][k] = work(j);
            }
        }
    }
    interpose::fs_end();

    let tasks = Arc::new(tasks);
    let got: Arc<Mutex<Vec<Vec<Option<u64>>>>> = Arc::new(Mutex::new(tasks.iter().map(|t| vec![None; t.len()]).collect()));
    let config = Config {
        policy: if chance(1, 10) { Policy::Fair } else { Policy::Random(pick(&[2u32, 5, 20, 100])) },
        stall_every: pick(&[0u32, 0, 50, 400]),
        stall_len: 2000,
        stale_every: 0,
        max_steps: 3_000_000,
    };
    interpose::fs_begin(readers::disk(&base, false, 1));
    let report = sched::run(config, || {
        let ids: Vec<usize> = (0..tasks.len())
            .map(|t| {
                let (tasks, got) = (tasks.clone(), got.clone());
                sched::spawn(Box::new(move || {
                    for (k, j) in tasks[t].iter().enumerate() {
                        let r = sim::guarded(|| work(j)).unwrap_or(FAILED * 3);
                        got.lock().unwrap()[t][k] = Some(r);
                    }
                }))
            })
            .collect();
        simcore::alloc::set_points(true);
        for id in ids {
            let _ = sched::join(id);
        }
        simcore::alloc::set_points(false);
    });
    simcore::alloc::set_points(false);
    interpose::fs_end();
    sim::add("probe.scheduling_points", report.steps);
    ev("end", &[report.steps as i64]);
    sim::cover(sim::hash_mix(report.steps, n as u64));
    match &report.end {
        End::Finished => {}
        End::StepLimit => {
            sim::count("probe.step_limit");
            return Ok(());
        }
        e => return fail("stuck", format!("{:?}", e)),
    }
    if let Some((_, p)) = report.panics.first() {
        return fail("panic", p.clone());
    }
    let got = got.lock().unwrap();
    for (t, jobs) in tasks.iter().enumerate() {
        for (k, j) in jobs.iter().enumerate() {
            if got[t][k] != Some(alone[t][k]) {
                return fail(
                    "not-independent",
                    format!("{}, job {} of thread {} of {}, gave another result than alone", name(j), k + 1, t + 1, tasks.len()),
                );
            }
        }
    }
    drop(got);
    sim::nontrivial();
    if chance(1, 3) {
        // The other way round.
        interpose::fs_begin(still());
        for t in (0..tasks.len()).rev() {
            for k in (0..tasks[t].len()).rev() {
                if work(&tasks[t][k]) != alone[t][k] {
                    interpose::fs_end();
                    return fail("not-repeatable", format!("{} gave another result the second time", name(&tasks[t][k])));
                }
            }
        }
        interpose::fs_end();
    }
    Ok(())
}
