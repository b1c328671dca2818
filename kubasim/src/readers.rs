//! C01, C02, C03: decoding under a simulated stream and a simulated disk.
use simcore::interpose::{self, FsConfig};
use simcore::rng::Rng;
use simcore::sim::{self, chance, choose, ev, fail, pick, Res};
use std::io::{Error, ErrorKind, Read};

// ------------------------------------------------------------------ simulated stream

/// A byte source whose every `read` is decided by the tape.
pub struct SimRead {
    data: Vec<u8>,
    pos: usize,
    mode: u32,
    eintr_every: u32,
    delay: bool,
    /// Reports this error once when `pos` reaches the position.
    err: Option<(usize, ErrorKind)>,
    pub err_fired: bool,
    pub err_before_end: bool,
    max_chunk: usize,
}

const KINDS: [ErrorKind; 9] = [
    ErrorKind::Other,
    ErrorKind::TimedOut,
    ErrorKind::ConnectionReset,
    ErrorKind::BrokenPipe,
    ErrorKind::WouldBlock,
    ErrorKind::PermissionDenied,
    ErrorKind::UnexpectedEof,
    ErrorKind::InvalidInput,
    ErrorKind::ConnectionAborted,
];

impl SimRead {
    pub fn new(data: Vec<u8>, faults: bool) -> SimRead {
        let mode = choose(4);
        let eintr_every = pick(&[0u32, 0, 2, 5, 20]);
        let delay = chance(1, 4);
        let err = if faults && chance(1, 3) {
            let at = match choose(4) {
                0 => 0,
                1 => data.len(),
                2 => data.len().saturating_sub(choose(17) as usize),
                _ => choose(data.len() as u32 + 1) as usize,
            };
            Some((at, pick(&KINDS)))
        } else {
            None
        };
        // Keep the number of calls per stream bounded.
        let max_chunk = (data.len() / 400).max(1);
        SimRead {
            data,
            pos: 0,
            mode,
            eintr_every,
            delay,
            err,
            err_fired: false,
            err_before_end: false,
            max_chunk,
        }
    }
    pub fn err_kind(&self) -> Option<ErrorKind> {
        self.err.map(|e| e.1)
    }
}

impl Read for SimRead {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        if self.delay {
            sim::advance_us(choose(200_000) as u64);
            sim::count("fault.stream.delay");
        }
        if self.eintr_every > 0 && chance(1, self.eintr_every) {
            sim::fault("fault.stream.interrupted");
            return Err(Error::from(ErrorKind::Interrupted));
        }
        let left = self.data.len() - self.pos;
        let mut n = match self.mode {
            0 => buf.len(),
            1 => self.max_chunk * (1 + choose(3) as usize),
            2 => 1 + choose((2 * self.max_chunk).max(40) as u32) as usize,
            _ => {
                if chance(1, 2) {
                    1 + choose(16) as usize * self.max_chunk
                } else {
                    buf.len()
                }
            }
        };
        n = n.min(buf.len()).min(left);
        if let Some((at, kind)) = self.err {
            if !self.err_fired {
                if self.pos >= at {
                    self.err_fired = true;
                    self.err_before_end = left > 0;
                    sim::fault("fault.stream.error");
                    ev("stream_error", &[self.pos as i64]);
                    return Err(Error::new(kind, "simulated stream error"));
                }
                n = n.min(at - self.pos);
            }
        }
        if n < buf.len().min(left) {
            sim::count("fault.stream.short_read");
            sim::nontrivial();
        }
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        ev("read", &[n as i64]);
        Ok(n)
    }
}

// ------------------------------------------------------------------ simulated disk

/// Draws a disk configuration; `hard_span` is roughly how many calls the workload makes.
pub fn disk(root: &std::path::Path, hard: bool, hard_span: u32) -> FsConfig {
    FsConfig {
        root: root.to_str().unwrap().to_string(),
        eintr_every: pick(&[0u32, 0, 3, 10, 40]),
        short_every: pick(&[0u32, 0, 2, 6, 20]),
        permute: chance(4, 5),
        no_types: chance(1, 4),
        stale_size: chance(1, 5),
        max_open: usize::MAX,
        hard_at: if hard { Some(choose(hard_span.max(1)) as u64) } else { None },
    }
}

// ------------------------------------------------------------------ C01

fn scan_bytes(n: usize, style: u32, seed: u32) -> Vec<u8> {
    let mut r = Rng::new(seed as u64 ^ 0x77);
    let mut v = Vec::with_capacity(n * 16);
    const ODD: [u32; 12] = [
        0,
        0,
        0x8000_0000,
        0x3f80_0000,
        0x7fc0_0000,
        0x7f80_0000,
        0xff80_0000,
        1,
        0x7f7f_ffff,
        0xffff_ffff,
        0x0a0d_0a0d,
        0x2020_2020,
    ];
    // Styles 3 and 4: whole records of one special value, repeated records, special single values.
    let mut record = [0u32; 4];
    for i in 0..n {
        if style >= 3 {
            match r.below(if style == 3 { 4 } else { 40 }) {
                0 => record = [ODD[r.below(12) as usize]; 4],
                1 => {}
                2 => record[r.below(4) as usize] = ODD[r.below(12) as usize],
                _ => {
                    for w in record.iter_mut() {
                        *w = ((r.f64() * 160.0 - 80.0) as f32).to_bits();
                    }
                }
            }
        }
        for j in 0..4 {
            let w: u32 = match style {
                3 | 4 => record[j],
                0 => ((i * 4 + j) as f32).to_bits(),
                1 => ((r.f64() * 160.0 - 80.0) as f32).to_bits(),
                _ => r.next_u64() as u32, // any bit pattern: NaN, infinities, denormals, -0
            };
            v.extend_from_slice(&w.to_ne_bytes());
        }
    }
    v
}

fn check_cloud(got: &kuba::PointCloud3, bytes: &[u8]) -> Res {
    let n = bytes.len() / 16;
    if got.num_points() != n || got.data.nrows() != 3 {
        return fail(
            "wrong-point-count",
            format!("{} records decoded into {} points", n, got.num_points()),
        );
    }
    let s = got.data.as_slice();
    for i in 0..n {
        for d in 0..3 {
            let o = i * 16 + d * 4;
            let want = u32::from_ne_bytes([bytes[o], bytes[o + 1], bytes[o + 2], bytes[o + 3]]);
            let have = s[i * 3 + d].to_bits();
            if want != have {
                return fail(
                    "wrong-coordinate",
                    format!("point {} axis {}: stored {:08x}, decoded {:08x}", i, d, want, have),
                );
            }
        }
    }
    if n <= 64 {
        let it: Vec<_> = got.points_iter().collect();
        if it.len() != n {
            return fail("wrong-point-count", "points_iter length");
        }
        for (i, p) in it.iter().enumerate() {
            for d in 0..3 {
                if p[d].to_bits() != s[i * 3 + d].to_bits() {
                    return fail("wrong-coordinate", format!("points_iter point {} axis {}", i, d));
                }
            }
        }
    }
    Ok(())
}

pub fn c01() -> Res {
    let level = pick(&[0u32, 2, 3, 4, 5, 6, 7, 8, 9, 9, 10, 11, 12, 14]);
    let mut n = choose((1u32 << level) + 1) as usize;
    if chance(1, 80) {
        n = 16_384 + choose(180_000) as usize;
        sim::count("probe.large_cloud");
    }
    let mut bytes = scan_bytes(n, choose(5), sim::seed32());
    let damaged = chance(1, 4);
    if damaged {
        let cut = 1 + choose(15) as usize;
        if n > 0 && chance(1, 2) {
            bytes.truncate(bytes.len() - cut);
        } else {
            let extra: Vec<u8> = (0..cut).map(|i| i as u8).collect();
            bytes.extend(extra);
        }
        sim::fault("fault.truncated_record");
    }
    ev("scan", &[n as i64, bytes.len() as i64 % 16]);
    let partial = bytes.len() % 16 != 0;
    if chance(1, 3) {
        // Through a file.
        let root = interpose::scratch();
        let path = root.join("scan.bin");
        sim::outside(|| std::fs::write(&path, &bytes)).map_err(io_harness)?;
        let hard = chance(1, 4);
        interpose::fs_begin(disk(&root, hard, 6));
        let r = kuba::kitti::point_cloud_reader::read_from_file(&path);
        let rep = interpose::fs_end();
        ev("decoded", &[r.is_ok() as i64]);
        sim::count("op.read_file");
        if rep.calls == 0 {
            return fail("harness", "no simulated file-system call was made");
        }
        if partial || (!rep.hard.is_empty() && !rep.hard_only_at_eof) {
            return match r {
                Ok(c) => fail(
                    "partial-cloud-accepted",
                    format!(
                        "file of {} bytes, faults {:?}: returned a cloud of {} points",
                        bytes.len(),
                        rep.hard,
                        c.num_points()
                    ),
                ),
                Err(e) => {
                    if let (false, Some(no)) = (partial, rep.hard_errno) {
                        let want = Error::from_raw_os_error(no).kind();
                        if rep.hard == ["fault.disk.read_error"] && e.kind() != want {
                            return fail("wrong-error-kind", format!("{:?} instead of {:?}", e.kind(), want));
                        }
                    }
                    Ok(())
                }
            };
        }
        return match r {
            Ok(c) => check_cloud(&c, &bytes),
            Err(_) if !rep.hard.is_empty() => Ok(()),
            Err(e) => fail("intact-cloud-refused", format!("{} bytes: {}", bytes.len(), e)),
        };
    }
    let mut src = SimRead::new(bytes.clone(), true);
    let r = kuba::kitti::point_cloud_reader::read(&mut src);
    sim::count("op.read_stream");
    ev("decoded", &[r.is_ok() as i64, src.pos as i64]);
    if src.err_fired && src.err_before_end {
        return match r {
            Ok(c) => fail(
                "partial-cloud-accepted",
                format!("the source failed after {} bytes: cloud of {} points", src.pos, c.num_points()),
            ),
            Err(e) if Some(e.kind()) != src.err_kind() => fail(
                "wrong-error-kind",
                format!("source reported {:?}, decoder {:?}", src.err_kind(), e.kind()),
            ),
            Err(_) => Ok(()),
        };
    }
    if partial {
        return match r {
            Ok(c) => fail(
                "partial-cloud-accepted",
                format!("{} bytes: cloud of {} points", bytes.len(), c.num_points()),
            ),
            Err(_) => Ok(()),
        };
    }
    match r {
        Ok(c) => {
            // Either everything was read, or (error exactly at the end) nothing was lost.
            check_cloud(&c, &bytes)
        }
        Err(_) if src.err_fired => Ok(()),
        Err(e) => fail("intact-cloud-refused", format!("{} bytes: {}", bytes.len(), e)),
    }
}

pub fn io_harness(e: Error) -> sim::Fail {
    sim::Fail {
        class: "harness".into(),
        msg: format!("preparing the simulated disk: {}", e),
    }
}

// ------------------------------------------------------------------ poses

#[derive(Clone, Debug)]
pub struct Fix {
    pub lat: f64,
    pub lon: f64,
    pub alt: f64,
    pub rpy: [f64; 3],
}

/// The longitude (or difference of longitudes) in -180..180 degrees.
pub fn wrap(lon: f64) -> f64 {
    lon - 360.0 * (lon / 360.0).round()
}

/// A fix near `base` (a few kilometres) or anywhere between 60 degrees south and north.
pub fn gen_fix(base: Option<&Fix>) -> Fix {
    let ang = |m: f64| (sim::signed(m) * 1e6).round() / 1e6;
    let (lat, lon, alt) = match base {
        None => (
            (sim::signed(59.9) * 1e7).round() / 1e7,
            // Now and then next to the meridian where the longitude wraps.
            if chance(1, 10) {
                ((180.0 - sim::uniform(0.0, pick(&[0.0005, 0.02]))) * pick(&[1.0, -1.0]) * 1e7).round() / 1e7
            } else {
                (sim::signed(179.0) * 1e7).round() / 1e7
            },
            (sim::signed(3000.0) * 1e3).round() / 1e3,
        ),
        Some(b) => {
            let m = pick(&[0.0, 0.000_01, 0.0005, 0.01, 0.03]);
            let mut lat = b.lat + sim::signed(m);
            if lat.abs() > 60.0 {
                lat = 60.0 * lat.signum();
            }
            let k = 1.0 / b.lat.to_radians().cos();
            (
                (lat * 1e9).round() / 1e9,
                (wrap(b.lon + sim::signed(m) * k) * 1e9).round() / 1e9,
                ((b.alt + sim::signed(pick(&[0.0, 0.5, 40.0, 400.0]))) * 1e4).round() / 1e4,
            )
        }
    };
    Fix {
        lat,
        lon,
        alt,
        rpy: [ang(3.1), ang(1.5), ang(3.14)],
    }
}

fn num(v: f64) -> String {
    match choose(3) {
        0 => format!("{}", v),
        1 => format!("{:.13}", v),
        _ => format!("{:e}", v),
    }
}

/// A record as text, plus the byte offset of the start of each of the first six fields and the
/// end of the sixth.
pub fn oxts_text(f: &Fix) -> (String, Vec<usize>, usize) {
    let fields = pick(&[30usize, 6, 7, 30, 30]);
    let mut s = String::new();
    let mut starts = vec![];
    let mut end6 = 0;
    let vals = [f.lat, f.lon, f.alt, f.rpy[0], f.rpy[1], f.rpy[2]];
    for i in 0..fields {
        if i > 0 {
            s.push(' ');
        }
        if i < 6 {
            starts.push(s.len());
            s.push_str(&num(vals[i]));
            if i == 5 {
                end6 = s.len();
            }
        } else {
            s.push_str(pick(&["0", "-1.25", "4", "0.0098", "10"]));
        }
    }
    if fields > 6 && chance(1, 2) {
        s.push('\n');
    }
    (s, starts, end6)
}

/// East, north, up displacement in metres on the WGS84 ellipsoid (local tangent approximation).
pub fn enu(o: &Fix, f: &Fix) -> [f64; 3] {
    let a: f64 = 6_378_137.0;
    let e2: f64 = 0.006_694_379_990_14;
    let lat = ((o.lat + f.lat) / 2.0).to_radians();
    let w = (1.0 - e2 * lat.sin().powi(2)).sqrt();
    let n = a / w;
    let m = a * (1.0 - e2) / (w * w * w);
    [
        wrap(f.lon - o.lon).to_radians() * n * lat.cos(),
        (f.lat - o.lat).to_radians() * m,
        f.alt - o.alt,
    ]
}

pub fn rot(f: &Fix) -> [[f64; 3]; 3] {
    let (r, p, y) = (f.rpy[0], f.rpy[1], f.rpy[2]);
    let (sr, cr, sp, cp, sy, cy) = (r.sin(), r.cos(), p.sin(), p.cos(), y.sin(), y.cos());
    [
        [cy * cp, cy * sp * sr - sy * cr, cy * sp * cr + sy * sr],
        [sy * cp, sy * sp * sr + cy * cr, sy * sp * cr - cy * sr],
        [-sp, cp * sr, cp * cr],
    ]
}

pub fn check_pose(pose: &kuba::Pose3, f: &Fix, origin: &Fix) -> Res {
    let want = enu(origin, f);
    let t = pose.translation.vector;
    let dist = (want[0] * want[0] + want[1] * want[1]).sqrt();
    let tol = 0.01 * dist + 0.02;
    let ex = t[0] as f64 - want[0];
    let ey = t[1] as f64 - want[1];
    let ez = t[2] as f64 - want[2];
    // Both per axis (an axis may not be sacrificed for the other) and in total.
    let bad = !((ex * ex + ey * ey).sqrt() <= tol)
        || !(ex.abs() <= 0.01 * want[0].abs() + 0.001 * dist + 0.02)
        || !(ey.abs() <= 0.01 * want[1].abs() + 0.001 * dist + 0.02)
        || !(ez.abs() <= 0.01 * want[2].abs() + 0.01);
    if bad {
        return fail(
            "wrong-displacement",
            format!(
                "origin {:.7},{:.7},{:.2} fix {:.7},{:.7},{:.2}: expected {:.3},{:.3},{:.3} m, got {:.3},{:.3},{:.3} m",
                origin.lat, origin.lon, origin.alt, f.lat, f.lon, f.alt, want[0], want[1], want[2], t[0], t[1], t[2]
            ),
        );
    }
    let m = pose.rotation.to_rotation_matrix();
    let r = rot(f);
    for i in 0..3 {
        for j in 0..3 {
            let d = (m[(i, j)] as f64 - r[i][j]).abs();
            if !(d <= 2e-4) {
                return fail(
                    "wrong-rotation",
                    format!("roll pitch yaw {:?}: element {},{} is {} instead of {}", f.rpy, i, j, m[(i, j)], r[i][j]),
                );
            }
        }
    }
    Ok(())
}

pub fn c02() -> Res {
    let origin = if chance(1, 3) { None } else { Some(gen_fix(None)) };
    let fix = gen_fix(origin.as_ref());
    let (text, starts, end6) = oxts_text(&fix);
    let mut bytes = text.clone().into_bytes();
    let mut broken: Option<&'static str> = None;
    match choose(8) {
        1 => {
            // Cut short somewhere. Inside the sixth field the record may still look whole.
            let cut = choose(bytes.len() as u32) as usize;
            if cut <= starts[5] {
                broken = Some("fault.record_cut_short");
                bytes.truncate(cut);
            } else if cut >= end6 {
                bytes.truncate(cut);
            }
        }
        2 => {
            let k = choose(6) as usize;
            let junk = pick(&["", "abc", "1.2.3", "--1", "0x10", "1,5", "12a", "1e", "-", "+-2", "1 .5x"]);
            let end = if k == 5 { end6 } else { starts[k + 1] - 1 };
            let mut v = bytes[..starts[k]].to_vec();
            v.extend_from_slice(junk.as_bytes());
            v.extend_from_slice(&bytes[end..]);
            // "1 .5x" would be split into two fields and shift the rest.
            if junk != "1 .5x" {
                bytes = v;
                broken = Some("fault.malformed_field");
            }
        }
        3 => {
            let at = choose(bytes.len() as u32 + 1) as usize;
            let bad = pick(&[vec![0xffu8], vec![0xc3], vec![0xe2, 0x82], vec![0x80]]);
            let mut v = bytes[..at].to_vec();
            v.extend_from_slice(&bad);
            v.extend_from_slice(&bytes[at..]);
            bytes = v;
            broken = Some("fault.not_utf8");
        }
        4 => {
            // Too few fields altogether.
            let k = choose(6) as usize;
            let end = if k == 0 { 0 } else { starts[k] - 1 };
            bytes.truncate(end);
            broken = Some("fault.missing_fields");
        }
        _ => {}
    }
    if let Some(b) = broken {
        sim::fault(b);
    }
    ev("record", &[bytes.len() as i64, origin.is_some() as i64]);
    let org = origin.as_ref().map(|o| nalgebra::Translation3::<f64>::new(o.lat, o.lon, o.alt));
    let through_file = chance(1, 4);
    let (r, hard, maybe) = if through_file {
        let root = interpose::scratch();
        let path = root.join("pose.txt");
        sim::outside(|| std::fs::write(&path, &bytes)).map_err(io_harness)?;
        let hard = chance(1, 4);
        interpose::fs_begin(disk(&root, hard, 4));
        let r = kuba::kitti::oxt_reader::read_from_file(&path, org);
        let rep = interpose::fs_end();
        if rep.calls == 0 {
            return fail("harness", "no simulated file-system call was made");
        }
        sim::count("op.read_file");
        (r, !rep.hard.is_empty() && !rep.hard_only_at_eof, !rep.hard.is_empty())
    } else {
        let mut src = SimRead::new(bytes.clone(), true);
        let r = kuba::kitti::oxt_reader::read(&mut src, org);
        sim::count("op.read_stream");
        (r, src.err_fired && src.err_before_end, src.err_fired)
    };
    ev("decoded", &[r.is_ok() as i64]);
    let shown = String::from_utf8_lossy(&bytes).chars().take(120).collect::<String>();
    match r {
        Ok((pose, org_out)) => {
            if hard {
                return fail("failed-source-accepted", format!("a pose was returned although the source failed: {:?}", shown));
            }
            if let Some(b) = broken {
                return fail("broken-record-accepted", format!("{}: a pose was returned for {:?}", b, shown));
            }
            let o = origin.clone().unwrap_or_else(|| fix.clone());
            let ov = org_out.vector;
            let tol = |v: f64| 1e-9 * v.abs().max(1.0);
            if (ov[0] - o.lat).abs() > tol(o.lat) || (ov[1] - o.lon).abs() > tol(o.lon) || (ov[2] - o.alt).abs() > tol(o.alt) {
                return fail(
                    "wrong-origin",
                    format!("origin to use from then on: {:?}, expected {},{},{}", ov, o.lat, o.lon, o.alt),
                );
            }
            if origin.is_none() && pose.translation.vector.iter().any(|v| *v != 0.0) {
                return fail("wrong-displacement", format!("no origin given, translation {:?}", pose.translation.vector));
            }
            check_pose(&pose, &fix, &o)
        }
        Err(e) => {
            if broken.is_none() && !hard && !maybe {
                return fail("intact-record-refused", format!("{:?}: {}", shown, e));
            }
            Ok(())
        }
    }
}

// ------------------------------------------------------------------ C03

pub struct Entry {
    pub name: String,
    pub bytes: Vec<u8>,
    pub fix: Option<Fix>,
}

pub fn names(n: usize, ext: &str) -> Vec<String> {
    let padded = !chance(1, 6);
    let mut k = if chance(1, 3) { choose(100_000) as u64 } else { 0 };
    let gaps = chance(1, 2);
    let mut v: Vec<String> = (0..n)
        .map(|_| {
            let s = if padded { format!("{:010}{}", k, ext) } else { format!("{}{}", k, ext) };
            k += if gaps { 1 + choose(12) as u64 } else { 1 };
            s
        })
        .collect();
    v.sort();
    v
}

/// DEL stands for a byte that makes the name invalid UTF-8.
pub fn os(name: &str) -> std::ffi::OsString {
    use std::os::unix::ffi::OsStringExt;
    std::ffi::OsString::from_vec(name.bytes().map(|b| if b == 0x7f { 0xff } else { b }).collect())
}

pub fn gen_entries(poses: bool, n: usize) -> Vec<Entry> {
    let mut first: Option<Fix> = None;
    let small = n > 60;
    let mut list = names(n, if poses { ".txt" } else { ".bin" });
    if n > 0 && n < 60 && chance(1, 6) {
        // Names no recorder gives, but files of the directory all the same.
        for _ in 0..1 + choose(3) {
            let odd = pick(&["scan", ".hidden", "0000000001.TXT", "a b.bin", "5.tmp", "7.bin.bak", "~", "0.csv", "\u{e9}.txt", "\u{7f}.bin", "1\u{7f}"]);
            let k = choose(n as u32) as usize;
            if !list.iter().any(|x| x == odd) {
                list[k] = odd.to_string();
            }
        }
        list.sort_by_key(|x| os(x));
        sim::count("probe.odd_file_names");
    }
    list
        .into_iter()
        .map(|name| {
            if poses {
                let f = gen_fix(first.as_ref());
                if first.is_none() {
                    first = Some(f.clone());
                }
                Entry {
                    name,
                    bytes: oxts_text(&f).0.into_bytes(),
                    fix: Some(f),
                }
            } else {
                let m = if small { choose(4) } else { choose(pick(&[1u32, 3, 40, 40, 900])) };
                Entry {
                    name,
                    bytes: scan_bytes(m as usize, choose(5), sim::seed32()),
                    fix: None,
                }
            }
        })
        .collect()
}

/// A directory of a recording on the simulated disk.
struct Dir {
    root: std::path::PathBuf,
    poses: bool,
    entries: Vec<Entry>,
    /// The file that cannot be read or decoded, if any.
    torn: Option<usize>,
}

/// Writes a file, or a link to one kept elsewhere.
pub fn put(path: &std::path::Path, bytes: &[u8], linked: Option<&std::path::Path>) -> std::io::Result<()> {
    match linked {
        None => std::fs::write(path, bytes),
        Some(target) => {
            std::fs::write(target, bytes)?;
            std::os::unix::fs::symlink(target, path)
        }
    }
}

fn gen_dir(n: usize) -> Result<Dir, sim::Fail> {
    let poses = chance(1, 2);
    let mut entries = gen_entries(poses, n);
    let mut torn = None;
    let mut dangling = false;
    if n > 0 && chance(1, 5) {
        let k = choose(n as u32) as usize;
        let e = &mut entries[k];
        if chance(1, 5) {
            dangling = true;
            sim::fault("fault.disk.dangling_link");
        } else if poses {
            match choose(3) {
                0 => e.bytes.clear(),
                1 => {
                    let sp = e.bytes.iter().enumerate().filter(|(_, b)| **b == b' ').nth(choose(5) as usize).map(|x| x.0);
                    e.bytes.truncate(sp.unwrap_or(0));
                }
                _ => e.bytes[0] = pick(&[b'x', 0xff, b',']),
            }
        } else if e.bytes.is_empty() {
            e.bytes = vec![0; 1 + choose(15) as usize];
        } else {
            let cut = 1 + choose(15) as usize;
            e.bytes.truncate(e.bytes.len() - cut);
        }
        torn = Some(k);
        sim::fault("fault.disk.torn_file");
    }
    // Recordings are often kept elsewhere and linked into place.
    let linked: Vec<bool> = if chance(1, 8) {
        sim::count("probe.linked_files");
        let all = chance(1, 2);
        entries.iter().map(|_| all || chance(1, 3)).collect()
    } else {
        vec![false; n]
    };
    let base = interpose::scratch();
    let root = base.join("data");
    sim::outside(|| -> std::io::Result<()> {
        std::fs::create_dir(&root)?;
        let store = base.join("store");
        std::fs::create_dir(&store)?;
        for (k, e) in entries.iter().enumerate() {
            let at = root.join(os(&e.name));
            if dangling && torn == Some(k) {
                std::os::unix::fs::symlink(store.join("gone"), &at)?;
            } else {
                let target = store.join(k.to_string());
                put(&at, &e.bytes, if linked[k] { Some(&target) } else { None })?;
            }
        }
        Ok(())
    })
    .map_err(io_harness)?;
    Ok(Dir { root, poses, entries, torn })
}

impl Dir {
    /// Reads it; whether that succeeded and, if so, whether the result is right.
    fn read(&self, print: bool) -> (bool, Res) {
        if self.poses {
            match kuba::kitti::oxt_reader::read_from_dir(&self.root, print) {
                Err(_) => (false, Ok(())),
                Ok(v) => (true, check_poses(&v, &self.entries)),
            }
        } else {
            match kuba::kitti::point_cloud_reader::read_from_dir(&self.root, print) {
                Err(_) => (false, Ok(())),
                Ok(v) => (true, check_scans(&v, &self.entries)),
            }
        }
    }
}

pub fn c03() -> Res {
    let n = if chance(1, 150) {
        sim::count("probe.large_directory");
        300 + choose(900) as usize
    } else {
        match choose(6) {
            0 => choose(3) as usize,
            5 => choose(30) as usize,
            _ => 2 + choose(7) as usize,
        }
    };
    let dir = gen_dir(n)?;
    let torn = dir.torn;
    let print = chance(1, 2);
    let hard = chance(1, 3);
    let cfg = disk(&dir.root, hard, 3 + 6 * n as u32);
    ev("dir", &[dir.poses as i64, n as i64, print as i64]);
    interpose::fs_begin(cfg);
    let (ok, res) = dir.read(print);
    let rep = interpose::fs_end();
    sim::count(if dir.poses { "op.read_pose_dir" } else { "op.read_scan_dir" });
    ev("result", &[ok as i64]);
    if rep.calls == 0 {
        return fail("harness", "no simulated file-system call was made");
    }
    if rep.stdout_bytes > 0 {
        sim::count("probe.progress_printed");
    }
    let must_fail = torn.is_some() || (!rep.hard.is_empty() && !rep.hard_only_at_eof);
    if must_fail {
        if ok {
            return fail(
                "failure-swallowed",
                format!("{} files, torn file {:?}, failed calls {:?}: the call succeeded", n, torn, rep.hard),
            );
        }
        return Ok(());
    }
    if !ok {
        if rep.hard.is_empty() {
            return fail("intact-directory-refused", format!("{} files", n));
        }
        return Ok(());
    }
    res
}

// ------------------------------------------------------------------ C17

/// Files and directories that must be enough to read any recording.
const MAX_OPEN: usize = 16;

/// Everything below a directory: names, what links point to, contents.
fn snapshot(dir: &std::path::Path, into: &mut std::collections::BTreeMap<std::path::PathBuf, Vec<u8>>) -> std::io::Result<()> {
    for e in std::fs::read_dir(dir)? {
        let p = e?.path();
        use std::os::unix::fs::MetadataExt;
        let m = std::fs::symlink_metadata(&p)?;
        let meta = format!("{} {:o} {}.{:09}", m.ino(), m.mode(), m.mtime(), m.mtime_nsec());
        into.insert(p.join("metadata"), meta.into_bytes());
        if m.is_dir() {
            into.insert(p.clone(), b"directory".to_vec());
            snapshot(&p, into)?;
        } else if m.file_type().is_symlink() {
            use std::os::unix::ffi::OsStrExt;
            into.insert(p.clone(), std::fs::read_link(&p)?.as_os_str().as_bytes().to_vec());
        } else {
            into.insert(p.clone(), std::fs::read(&p)?);
        }
    }
    Ok(())
}

pub fn c17() -> Res {
    let n = match choose(8) {
        0 => choose(3) as usize,
        1 | 2 => 2 + choose(10) as usize,
        7 if chance(1, 8) => 100 + choose(300) as usize,
        _ => 14 + choose(40) as usize,
    };
    let dir = gen_dir(n)?;
    let base = dir.root.parent().unwrap().to_path_buf();
    let compare = chance(1, 4);
    let look = || -> Result<_, sim::Fail> {
        let mut m = std::collections::BTreeMap::new();
        if compare {
            sim::outside(|| snapshot(&base, &mut m)).map_err(io_harness)?;
        }
        Ok(m)
    };
    let before = look()?;
    // A recording is read again and again, part by part or whole, by one process.
    for round in 0..1 + choose(3) {
        let hard = chance(1, 2);
        let single = n > 0 && chance(1, 4);
        let mut cfg = disk(&dir.root, hard, if single { 6 } else { 3 + 6 * n as u32 });
        // Some callers have no more to give, others have plenty and look at what was taken.
        if chance(2, 3) {
            cfg.max_open = MAX_OPEN;
        }
        let print = chance(1, 3);
        ev("read", &[round as i64, single as i64, dir.poses as i64, n as i64]);
        interpose::fs_begin(cfg);
        let (ok, damaged) = if single {
            sim::count("op.read_file");
            let k = choose(n as u32) as usize;
            let path = dir.root.join(os(&dir.entries[k].name));
            let ok = if dir.poses {
                kuba::kitti::oxt_reader::read_from_file(&path, None).is_ok()
            } else {
                kuba::kitti::point_cloud_reader::read_from_file(&path).is_ok()
            };
            (ok, dir.torn == Some(k))
        } else {
            sim::count(if dir.poses { "op.read_pose_dir" } else { "op.read_scan_dir" });
            (dir.read(print).0, dir.torn.is_some())
        };
        let rep = interpose::fs_end();
        ev("result", &[ok as i64, rep.peak_open as i64]);
        sim::cover(sim::hash_mix(sim::hash_mix(rep.calls, n as u64), ok as u64 * 2 + single as u64));
        if rep.calls == 0 {
            return fail("harness", "no simulated file-system call was made");
        }
        if rep.open > 0 {
            return fail(
                "left-open",
                format!(
                    "{} of {} files, damaged: {}, failed calls {:?}: the call {} and left {} files or directories open",
                    if single { 1 } else { n },
                    n,
                    damaged,
                    rep.hard,
                    if ok { "succeeded" } else { "failed" },
                    rep.open
                ),
            );
        }
        if !ok && !damaged && !rep.hard.is_empty() && rep.hard.iter().all(|h| *h == "fault.disk.too_many_open") {
            return fail(
                "too-many-open",
                format!("a recording of {} files cannot be read with {} files open at a time", n, MAX_OPEN),
            );
        }
        if rep.peak_open > MAX_OPEN {
            return fail("too-many-open", format!("{} files or directories of a recording of {} files open at a time", rep.peak_open, n));
        }
        if rep.opened_for_writing > 0 {
            return fail("opened-for-writing", format!("{} files were opened for writing", rep.opened_for_writing));
        }
        if !rep.altering.is_empty() {
            return fail("altering-call", format!("while the recording was read: {:?}", rep.altering));
        }
    }
    let after = look()?;
    if after != before {
        let what = before.iter().find(|(p, b)| after.get(*p) != Some(b)).or_else(|| after.iter().find(|(p, _)| !before.contains_key(*p)));
        return fail("recording-altered", format!("{:?}", what.map(|x| x.0)));
    }
    Ok(())
}

fn check_scans(v: &[kuba::PointCloud3], entries: &[Entry]) -> Res {
    if v.len() != entries.len() {
        return fail("wrong-file-count", format!("{} results for {} files", v.len(), entries.len()));
    }
    for (c, e) in v.iter().zip(entries) {
        if let Err(f) = check_cloud(c, &e.bytes) {
            return fail("misaligned-sequence", format!("{}: {}", e.name, f.msg));
        }
    }
    Ok(())
}

fn check_poses(v: &[kuba::Pose3], entries: &[Entry]) -> Res {
    if v.len() != entries.len() {
        return fail("wrong-file-count", format!("{} results for {} files", v.len(), entries.len()));
    }
    if entries.is_empty() {
        return Ok(());
    }
    let o = entries[0].fix.clone().unwrap();
    for (p, e) in v.iter().zip(entries) {
        if let Err(f) = check_pose(p, e.fix.as_ref().unwrap(), &o) {
            return fail("misaligned-sequence", format!("{}: {}", e.name, f.msg));
        }
    }
    if v[0].translation.vector.iter().any(|x| *x != 0.0) {
        return fail("misaligned-sequence", "the first pose is not at the origin");
    }
    Ok(())
}


// ------------------------------------------------------------------ C20

/// Memory besides the result: a fixed amount, and a multiple of the largest file.
const READ_FIXED: i64 = 160 << 10;
const READ_LEFT: i64 = 8 << 10;
const PER_LARGEST: i64 = 8;
/// Per file: its path and name while sorting, its place in the result while that grows.
const PER_FILE: i64 = 448;

pub fn c20() -> Res {
    let poses = chance(1, 3);
    let single = chance(1, 6);
    let n = if single { 1 } else { pick(&[3usize, 20, 60, 150, 250, if poses { 400 } else { 60 }]) };
    // A pose is short; what follows its first fields may be long.
    let size = if single { pick(&[100u32, 5000, 60_000]) } else { pick(&[20u32, 200, 700]) };
    let even = chance(1, 2);
    let mut total = 0i64;
    let mut largest = 0i64;
    let files: Vec<(String, Vec<u8>)> = names(n, if poses { ".txt" } else { ".bin" })
        .into_iter()
        .map(|name| {
            let k = if even { size } else { 1 + choose(size) } as usize;
            let b = if poses {
                let mut s = format!("{} {} 100.5 0.1 0.2 0.3", 49.0 + 1e-6 * k as f64, 8.4);
                for _ in 0..k.min(2000) {
                    s.push_str(" 0.125");
                }
                s.into_bytes()
            } else {
                scan_bytes(k, 0, k as u32)
            };
            if !poses {
                total += 12 * k as i64;
            }
            largest = largest.max(b.len() as i64);
            (name, b)
        })
        .collect();
    let mut files = files;
    let torn = if chance(1, 3) {
        let k = choose(n as u32) as usize;
        let at = files[k].1.len().saturating_sub(3);
        if poses {
            files[k].1.truncate(11);
        } else {
            files[k].1.truncate(at);
        }
        sim::fault("fault.disk.torn_file");
        true
    } else {
        false
    };
    let base = interpose::scratch();
    let root = base.join("data");
    sim::outside(|| -> std::io::Result<()> {
        std::fs::create_dir(&root)?;
        for (name, b) in &files {
            std::fs::write(root.join(name), b)?;
        }
        Ok(())
    })
    .map_err(io_harness)?;
    let hard = !torn && chance(1, 3);
    let stream = single && chance(1, 2);
    let print = chance(1, 4);
    ev("recording", &[poses as i64, n as i64, single as i64, stream as i64, torn as i64, largest]);
    // A vector that grew has up to twice the room it needs.
    let room = 2 * total + total / 10 + PER_FILE * n as i64 + 4096;
    let path = root.join(&files[0].0);
    let mut src = SimRead::new(if stream { std::mem::take(&mut files[0].1) } else { vec![] }, true);
    drop(files);
    interpose::fs_begin(disk(&root, hard, if single { 6 } else { 3 + 6 * n as u32 }));
    let before = simcore::alloc::own();
    simcore::alloc::own_peak_reset();
    // The result is held until the memory it takes was measured.
    fn held<T>(r: std::io::Result<T>, before: i64) -> Option<i64> {
        let h = simcore::alloc::own() - before;
        r.is_ok().then_some(h)
    }
    let held = match (poses, stream, single) {
        (true, true, _) => held(kuba::kitti::oxt_reader::read(&mut src, None), before),
        (false, true, _) => held(kuba::kitti::point_cloud_reader::read(&mut src), before),
        (true, _, true) => held(kuba::kitti::oxt_reader::read_from_file(&path, None), before),
        (false, _, true) => held(kuba::kitti::point_cloud_reader::read_from_file(&path), before),
        (true, ..) => held(kuba::kitti::oxt_reader::read_from_dir(&root, print), before),
        (false, ..) => held(kuba::kitti::point_cloud_reader::read_from_dir(&root, print), before),
    };
    let ok = held.is_some();
    let allowed = held.unwrap_or(room).min(room) + PER_LARGEST * largest + PER_FILE * n as i64 + READ_FIXED;
    let peak = simcore::alloc::own_peak() - before;
    let left = simcore::alloc::own() - before;
    interpose::fs_end();
    ev("read", &[ok as i64]);
    sim::count(if ok { "op.read" } else { "op.read_failed" });
    sim::cover(sim::hash_mix(peak as u64 / 64, allowed as u64));
    sim::note(|| format!("peak {} allowed {} left {}", peak, allowed, left));
    if n > 1 {
        sim::nontrivial();
    }
    if let Some(h) = held.filter(|h| *h > room) {
        return fail("too-much-memory", format!("{} files, {} bytes of points: the result takes {} bytes", n, total, h));
    }
    if peak > allowed {
        return fail(
            "too-much-memory",
            format!("{} files, {} bytes of points, largest file {} bytes: {} bytes in use at a time, {} allowed", n, total, largest, peak, allowed),
        );
    }
    if left > READ_LEFT {
        return fail("memory-left-behind", format!("{} files, success: {}: {} bytes remain once the result is dropped", n, ok, left));
    }
    Ok(())
}
