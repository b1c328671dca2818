//! C13: a recording is shown whole and in place, or not at all.
use crate::play::{self, key, marker_is, Key, Rt, RES};
use crate::readers;
use crate::rec::{self, File, Rec};
use simcore::sched::End;
use simcore::sim::{self, chance, choose, fail, pick, Res};
use std::collections::{BTreeMap, BTreeSet};

/// Farthest a point may be misplaced (1% of a displacement of up to 2 m per axis, single precision).
fn tolerance(p: &Rt) -> f64 {
    let d = (p.t[0] * p.t[0] + p.t[1] * p.t[1] + p.t[2] * p.t[2]).sqrt();
    0.01 * d + 0.003
}

/// What one scan certainly and possibly does to the cells.
struct Effect {
    hit: BTreeSet<Key>,
    /// Certainly / possibly looked through, never hit.
    miss: BTreeSet<Key>,
    maybe: BTreeSet<Key>,
}

/// Does the segment pass through the cell's cube grown (or shrunk) by `g`?
fn through(a: &[f64; 3], b: &[f64; 3], k: &Key, g: f64) -> bool {
    let (mut t0, mut t1) = (0.0f64, 1.0f64);
    for i in 0..3 {
        let lo = k[i] as f64 * RES - RES / 2.0 - g;
        let hi = k[i] as f64 * RES + RES / 2.0 + g;
        if lo > hi {
            return false;
        }
        let d = b[i] - a[i];
        if d.abs() < 1e-12 {
            if a[i] < lo || a[i] > hi {
                return false;
            }
        } else {
            let (mut u, mut v) = ((lo - a[i]) / d, (hi - a[i]) / d);
            if u > v {
                std::mem::swap(&mut u, &mut v);
            }
            t0 = t0.max(u);
            t1 = t1.min(v);
        }
    }
    t0 <= t1
}

fn cell(p: &[f64; 3]) -> Key {
    [(p[0] / RES).round() as i64, (p[1] / RES).round() as i64, (p[2] / RES).round() as i64]
}

/// None when a return is too close to a cell border to tell where it belongs.
fn effect(pose: &Rt, pts: &[[f64; 3]]) -> Option<Effect> {
    let tol = tolerance(pose);
    let mut e = Effect {
        hit: BTreeSet::new(),
        miss: BTreeSet::new(),
        maybe: BTreeSet::new(),
    };
    for w in pts {
        let k = cell(w);
        for i in 0..3 {
            if (w[i] - k[i] as f64 * RES).abs() + tol > RES * 0.49 {
                return None;
            }
        }
        e.hit.insert(k);
    }
    for w in pts {
        // Candidates: cells near points sampled along the ray.
        let len = (0..3).map(|i| (w[i] - pose.t[i]).powi(2)).sum::<f64>().sqrt();
        let steps = (len / (RES * 0.5)).ceil() as usize + 1;
        let mut near = BTreeSet::new();
        for s in 0..=steps {
            let f = s as f64 / steps as f64;
            let c = cell(&[
                pose.t[0] + (w[0] - pose.t[0]) * f,
                pose.t[1] + (w[1] - pose.t[1]) * f,
                pose.t[2] + (w[2] - pose.t[2]) * f,
            ]);
            for dx in -1..=1 {
                for dy in -1..=1 {
                    for dz in -1..=1 {
                        near.insert([c[0] + dx, c[1] + dy, c[2] + dz]);
                    }
                }
            }
        }
        for k in near {
            if e.hit.contains(&k) {
                continue;
            }
            if through(&pose.t, w, &k, tol) {
                e.maybe.insert(k);
                if through(&pose.t, w, &k, -tol - 0.002) {
                    e.miss.insert(k);
                }
            }
        }
    }
    Some(e)
}

/// Bounds on the evidence of every cell after each number of scans.
struct Bounds {
    v: BTreeMap<Key, (f32, f32)>,
}

const HIT: f64 = 0.7;
const MISS: f64 = 0.4;
fn logodds(p: f64) -> f32 {
    (p / (1.0 - p)).ln() as f32
}

impl Bounds {
    fn integrate(&mut self, e: &Effect) {
        let (hit, miss) = (logodds(HIT), logodds(MISS));
        let (lo, hi) = (logodds(0.1192), logodds(0.971));
        for k in &e.hit {
            let b = self.v.entry(*k).or_insert((0.0, 0.0));
            *b = ((b.0 + hit).min(hi), (b.1 + hit).min(hi));
        }
        for k in &e.maybe {
            let b = self.v.entry(*k).or_insert((0.0, 0.0));
            b.0 = (b.0 + miss).max(lo);
            if e.miss.contains(k) {
                b.1 = (b.1 + miss).max(lo);
            }
        }
    }
    fn check(&self, shown: &BTreeSet<Key>) -> Result<(), String> {
        for k in shown {
            match self.v.get(k) {
                None => return Err(format!("cell {:?} is shown, no return lies there", k)),
                Some(b) if b.1 < -0.01 => return Err(format!("cell {:?} is shown, it was seen to be free", k)),
                _ => {}
            }
        }
        for (k, b) in &self.v {
            if b.0 > 0.01 && !shown.contains(k) {
                return Err(format!("cell {:?} is not shown, it was hit", k));
            }
        }
        Ok(())
    }
}

/// What went wrong while recording or storing.
enum Damage {
    None,
    /// The recording no longer is what `rec` says and cannot be shown.
    Refuse(&'static str),
}

fn damage(rec: &mut Rec, files: &mut Vec<File>) -> Damage {
    match choose(10) {
        0..=3 => Damage::None,
        4 | 5 => {
            // The recorder died: everything up to some byte was stored.
            let at = choose(files.len() as u32) as usize;
            files.truncate(at + 1);
            sim::fault("fault.crash.recorder");
            let f = &mut files[at];
            let mut torn = false;
            match f.sixth {
                Some((start6, end6)) => match choose(3) {
                    0 => {
                        files.pop();
                    }
                    1 => {
                        let cut = choose(start6 as u32 + 1) as usize;
                        f.bytes.truncate(cut);
                        torn = true;
                    }
                    _ => f.bytes.truncate(end6),
                },
                None => match choose(3) {
                    0 => {
                        files.pop();
                    }
                    1 => {
                        let cut = choose(f.bytes.len() as u32 + 1) as usize;
                        f.bytes.truncate(cut);
                        if cut % 16 != 0 {
                            torn = true;
                        } else {
                            rec.scans[at / 2].world.truncate(cut / 16);
                        }
                    }
                    _ => {}
                },
            }
            let poses = files.iter().filter(|f| f.sixth.is_some()).count();
            let scans = files.len() - poses;
            rec.scans.truncate(scans);
            if torn {
                Damage::Refuse("torn file")
            } else if poses != scans {
                Damage::Refuse("counts differ")
            } else {
                Damage::None
            }
        }
        6 => {
            // One file lost.
            let at = choose(files.len() as u32) as usize;
            files.remove(at);
            sim::fault("fault.disk.lost_file");
            Damage::Refuse("counts differ")
        }
        7 => {
            // One file torn or corrupted.
            let at = choose(files.len() as u32) as usize;
            let f = &mut files[at];
            sim::fault("fault.disk.torn_file");
            match f.sixth {
                Some((start6, _)) => match choose(2) {
                    0 => f.bytes.truncate(choose(start6 as u32 + 1) as usize),
                    _ => f.bytes[0] = pick(&[b'x', 0xff, b',']),
                },
                None => {
                    if f.bytes.is_empty() {
                        f.bytes = vec![7; 1 + choose(15) as usize];
                    } else {
                        let cut = 1 + choose(15) as usize;
                        f.bytes.truncate(f.bytes.len() - cut);
                    }
                }
            }
            Damage::Refuse("torn file")
        }
        8 => {
            // A surplus file.
            let scan = chance(1, 2);
            sim::fault("fault.disk.surplus_file");
            let model = &files[if scan { 1 } else { 0 }];
            files.push(File {
                path: model.path.with_file_name(pick(&["zzz", "0", "99999999999"])),
                bytes: model.bytes.clone(),
                sixth: model.sixth,
            });
            Damage::Refuse("counts differ")
        }
        _ => {
            let scans = chance(1, 2);
            files.retain(|f| f.sixth.is_some() == scans);
            sim::fault("fault.disk.lost_directory");
            Damage::Refuse("directory missing")
        }
    }
}

pub fn c13() -> Res {
    let mut rec = rec::generate(4, 45, 1.1, 0.15);
    let mut files = rec::files(&rec);
    let damaged = damage(&mut rec, &mut files);
    let n = rec.scans.len();
    let dir = rec::store(&files)?;
    if let Damage::Refuse("directory missing") = damaged {
        let lost = if files[0].sixth.is_some() { "velodyne_points" } else { "oxts" };
        sim::outside(|| {
            let _ = std::fs::remove_dir_all(dir.join(lost));
        });
    }
    if n == 0 && matches!(damaged, Damage::None) {
        return Ok(()); // nothing to show
    }
    if chance(1, 40) {
        // Started on something that is not a recording directory.
        let odd = match choose(4) {
            0 => dir.join("nowhere"),
            1 => dir.join(&files.first().map_or(std::path::PathBuf::from("nowhere"), |f| f.path.clone())),
            2 => dir.join("oxts"),
            _ => dir.join("velodyne_points/data"),
        };
        sim::fault("fault.not_a_recording");
        let p = play::play(&odd, readers::disk(&odd, false, 1), play::plan(2, 4));
        return if !p.frames.is_empty() || p.leftover {
            fail("shown-although-incomplete", format!("started on {:?}: {} frames were drawn", odd, p.frames.len()))
        } else if matches!(p.report.end, End::Deadlock(_) | End::StepLimit) {
            fail("refusal-hangs", format!("started on {:?}: {:?}", odd, p.report.end))
        } else {
            Ok(())
        };
    }
    let hard = chance(1, 3);
    let fs = readers::disk(&dir, hard, 4 + 6 * files.len() as u32);
    let plan = play::plan(6, 2 * n + 4);
    let p = play::play(&dir, fs, plan);
    sim::note(|| {
        let mut s = String::from("scans:");
        for x in &rec.scans {
            s += &format!(" pose {:?} points {:?};", x.pose, x.world);
        }
        s
    });
    sim::note(|| format!("end {:?} panics {:?} frames {}, failed calls {:?}", p.report.end, p.report.panics, p.frames.len(), p.fs.hard));
    if p.fs.calls == 0 && !matches!(damaged, Damage::Refuse("directory missing")) {
        return fail("harness", "no simulated file-system call was made");
    }
    let failed = !p.fs.hard.is_empty() && !p.fs.hard_only_at_eof;
    sim::cover(
        p.fs.hard.iter().fold(sim::fnv(b"c13") ^ n as u64, |a, h| sim::hash_mix(a, sim::fnv(h.as_bytes())))
            ^ match damaged {
                Damage::Refuse(r) => sim::fnv(r.as_bytes()),
                Damage::None => 0,
            }
            ^ sim::hash_mix(p.frames.len() as u64, p.fs.calls),
    );
    let refuse = match damaged {
        Damage::Refuse(r) => Some(r),
        Damage::None if failed => Some("failed system call"),
        Damage::None => None,
    };
    if let Some(r) = refuse {
        sim::count("probe.refusals_expected");
        if !p.frames.is_empty() || p.leftover {
            return fail(
                "shown-although-incomplete",
                format!("{} ({} files, failed calls {:?}): {} frames were drawn", r, files.len(), p.fs.hard, p.frames.len()),
            );
        }
        return match &p.report.end {
            End::Deadlock(_) | End::StepLimit => fail("refusal-hangs", format!("{}: {:?}", r, p.report.end)),
            _ => Ok(()),
        };
    }
    if p.frames.is_empty() {
        if !p.fs.hard.is_empty() {
            return Ok(()); // failed after everything was delivered: refusing is fine
        }
        return fail(
            "intact-recording-refused",
            format!("{} scans: no frame was drawn; {:?} {:?}", n, p.report.end, p.report.panics.first()),
        );
    }
    sim::count("probe.recordings_shown");
    // Marker: always at the pose of some scan, in file-name order.
    for (f, fr) in p.frames.iter().enumerate() {
        let ok = rec.scans.iter().any(|s| marker_is(&fr.lines, &s.pose, tolerance(&s.pose) + 0.01, 2e-3));
        if !ok {
            return fail(
                "sensor-misplaced",
                format!("frame {}: marker {:?} is at none of the poses {:?}", f + 1, fr.lines, rec.scans.iter().map(|s| &s.pose).collect::<Vec<_>>()),
            );
        }
    }
    let mut at: BTreeSet<usize> = [0].into_iter().collect();
    for (f, fr) in p.frames.iter().enumerate() {
        at = at
            .iter()
            .flat_map(|k| [*k, *k + 1])
            .filter(|k| marker_is(&fr.lines, &rec.scans[*k % n].pose, tolerance(&rec.scans[*k % n].pose) + 0.01, 2e-3))
            .collect();
        if at.is_empty() {
            return fail(
                "recording-out-of-order",
                format!("frame {}: marker {:?} is not at the next of the poses {:?}", f + 1, fr.lines, rec.scans.iter().map(|s| &s.pose).collect::<Vec<_>>()),
            );
        }
    }
    let effects: Vec<Effect> = match rec.scans.iter().map(|s| effect(&s.pose, &s.world)).collect::<Option<Vec<_>>>() {
        Some(e) => e,
        None => {
            sim::count("probe.placement_undecidable");
            return Ok(());
        }
    };
    // The map shown last: that of some number of scans, at least the whole recording.
    let last = p.frames.last().unwrap();
    let mut shown = BTreeSet::new();
    for q in &last.points {
        match key(q) {
            Some(k) => {
                shown.insert(k);
            }
            None => return fail("map-misplaced", format!("{:?} is not a cell centre", q)),
        }
    }
    let mut b = Bounds { v: BTreeMap::new() };
    let mut why = String::new();
    for j in 0..p.frames.len() + 1 {
        b.integrate(&effects[j % n]);
        if j + 1 >= n {
            match b.check(&shown) {
                Ok(()) => {
                    sim::count("probe.maps_matched");
                    return Ok(());
                }
                Err(e) if why.is_empty() => why = e,
                Err(_) => {}
            }
        }
    }
    fail(
        "map-misplaced",
        format!("recording of {} scans, {} frames, {} cells shown: {}", n, p.frames.len(), shown.len(), why),
    )
}
