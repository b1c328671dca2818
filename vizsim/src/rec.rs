//! Generated recordings: scans planned in the world, stored as the vehicle would have seen them.
use crate::play::{Key, Rt, RES};
use crate::readers::{self, Fix};
use simcore::interpose;
use simcore::sim::{self, chance, choose, pick, range, signed};
use std::path::{Path, PathBuf};

pub struct Scan {
    pub fix: Fix,
    /// Where the vehicle really was (double precision).
    pub pose: Rt,
    /// Where the returns really are.
    pub world: Vec<[f64; 3]>,
}

pub struct Rec {
    pub scans: Vec<Scan>,
}

fn moved(o: &Fix, d: [f64; 3]) -> Fix {
    // Inverse of readers::enu by fixed-point iteration.
    let mut f = o.clone();
    for _ in 0..6 {
        let e = readers::enu(o, &f);
        f.lat += (d[1] - e[1]) / 111_000.0;
        f.lon += (d[0] - e[0]) / (111_000.0 * o.lat.to_radians().cos());
    }
    f.alt = o.alt + d[2];
    f.lon = readers::wrap(f.lon);
    f
}

fn apply(p: &Rt, w: &[f64; 3]) -> [f64; 3] {
    let mut l = [0.0; 3];
    for i in 0..3 {
        for j in 0..3 {
            l[i] += p.r[j][i] * (w[j] - p.t[j]);
        }
    }
    l
}

/// `reach` in cells; `step` how far the vehicle moves at most, in metres per axis.
pub fn generate(max_scans: u32, reach: i64, step: f64, jitter: f64) -> Rec {
    let n = 1 + choose(max_scans) as usize;
    // Axes on which the recording also extends to the negative side (the map grows downwards).
    let mask = pick(&[1u32, 2, 4, 0, 3, 5, 6, 7]);
    let first_negative = chance(1, 4);
    let origin = readers::gen_fix(None);
    let turns = chance(2, 3);
    // As many returns as it takes to change thousands of cells.
    let dense = reach > 60 && chance(1, 60);
    if dense {
        sim::count("probe.dense_recordings");
    }
    let mut pool: Vec<Key> = vec![];
    let mut scans: Vec<Scan> = vec![];
    for i in 0..n {
        let neg = i > 0 || first_negative;
        let mut fix = origin.clone();
        let mut d = [0.0; 3];
        if i > 0 && !chance(1, 6) {
            for a in 0..3 {
                d[a] = signed(step);
                if mask >> a & 1 == 0 {
                    d[a] = d[a].abs();
                }
            }
            fix = moved(&origin, d);
        }
        if turns {
            fix.rpy = [signed(3.1), signed(1.5), signed(3.14)];
        } else {
            fix.rpy = [0.0; 3];
        }
        let t = readers::enu(&origin, &fix);
        let pose = Rt { t, r: readers::rot(&fix) };
        let fresh = |neg: bool| -> Key {
            let mut k = [0i64; 3];
            let r = if dense { reach } else { pick(&[12i64, 12, 30, reach.min(60), reach]).min(reach) };
            for a in 0..3 {
                k[a] = if neg && mask >> a & 1 == 1 { range(-r, r) } else { range(0, r) };
            }
            k
        };
        let dense = dense && chance(1, 2);
        let m = if dense { 300 + choose(500) as usize } else { 0 } + choose(pick(&[3u32, 8, 8, 14])) as usize + if chance(1, 12) { 0 } else { 1 };
        let mut world = vec![];
        for _ in 0..m {
            let k = match choose(5) {
                // Hit again something hit before.
                1 | 2 if !pool.is_empty() => pick(&pool),
                // Look through something hit before.
                3 if !pool.is_empty() => {
                    let q = pick(&pool);
                    let f = 1.2 + 0.2 * choose(8) as f64;
                    let mut k = [0i64; 3];
                    for a in 0..3 {
                        let s = t[a] / RES;
                        k[a] = (s + (q[a] as f64 - s) * f).round() as i64;
                        k[a] = k[a].clamp(if neg && mask >> a & 1 == 1 { -reach } else { 0 }, reach);
                    }
                    k
                }
                // One tile away from something hit before.
                4 if neg && mask != 0 && !pool.is_empty() => {
                    let mut k = pick(&pool);
                    for a in 0..3 {
                        if mask >> a & 1 == 1 && k[a] > 100 - reach {
                            k[a] -= 100;
                        }
                    }
                    k
                }
                _ => fresh(neg),
            };
            pool.push(k);
            let mut w = [0.0; 3];
            for a in 0..3 {
                w[a] = (k[a] as f64 + signed(jitter)) * RES;
            }
            world.push(w);
        }
        scans.push(Scan { fix, pose, world });
    }
    Rec { scans }
}

impl Scan {
    pub fn bytes(&self) -> Vec<u8> {
        let mut v = vec![];
        for w in &self.world {
            for c in apply(&self.pose, w).iter() {
                v.extend_from_slice(&(*c as f32).to_ne_bytes());
            }
            v.extend_from_slice(&0.25f32.to_ne_bytes());
        }
        v
    }
}

pub struct File {
    pub path: PathBuf,
    pub bytes: Vec<u8>,
    /// Poses: start of the sixth field and its end.
    pub sixth: Option<(usize, usize)>,
}

/// The files of a recording in the order the recorder writes them: pose, scan, pose, ...
pub fn files(rec: &Rec) -> Vec<File> {
    let n = rec.scans.len();
    let poses = readers::names(n, ".txt");
    let scans = if chance(1, 2) {
        readers::names(n, ".bin")
    } else {
        poses.iter().map(|p| p.replace(".txt", ".bin")).collect()
    };
    let mut v = vec![];
    for (i, s) in rec.scans.iter().enumerate() {
        let (text, starts, end6) = readers::oxts_text(&s.fix);
        v.push(File {
            path: Path::new("oxts/data").join(&poses[i]),
            bytes: text.into_bytes(),
            sixth: Some((starts[5], end6)),
        });
        v.push(File {
            path: Path::new("velodyne_points/data").join(&scans[i]),
            bytes: s.bytes(),
            sixth: None,
        });
    }
    v
}

/// Writes the files to the run's scratch disk; returns the recording's directory.
pub fn store(files: &[File]) -> Result<PathBuf, sim::Fail> {
    let base = interpose::scratch();
    let root = base.join("rec");
    let linked = chance(1, 12);
    sim::outside(|| -> std::io::Result<()> {
        std::fs::create_dir_all(root.join("oxts/data"))?;
        std::fs::create_dir_all(root.join("velodyne_points/data"))?;
        for (k, f) in files.iter().enumerate() {
            let target = base.join(format!("file{}", k));
            readers::put(&root.join(&f.path), &f.bytes, if linked { Some(&target) } else { None })?;
        }
        Ok(())
    })
    .map_err(|e| sim::Fail {
        class: "harness".into(),
        msg: format!("preparing the simulated disk: {}", e),
    })?;
    Ok(root)
}
