//! Search, replay, minimisation and evidence.
//!
//! check  ID            search (parent process, spawns workers), report, write evidence
//! worker ID ...        one stride of the runs
//! one    ID ...        a single run, generated or from a tape, in a fresh process
//! shrink ID ...        minimisation in a child process (the parent survives crashes)
//! replay FILE          re-executes a replay file, exit 1 if the violation shows again
//! selftest ID N        determinism: every run twice in different processes, logs compared
use crate::json::J;
use crate::rng::{mix, Rng};
use crate::sim::{self, Fail, Res, Source, St};
use crate::{alloc, interpose, shrink};
use std::collections::{BTreeMap, BTreeSet};
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

pub struct Prop {
    pub id: &'static str,
    pub run: fn() -> Res,
    /// Runs per tier.
    pub quick: u64,
    pub thorough: u64,
    /// Live-heap budget of a run in MiB.
    pub heap_mib: i64,
    pub rule: &'static str,
    pub real: &'static [&'static str],
    pub stub: &'static [&'static str],
    pub assumptions: &'static [&'static str],
}

const WORKERS: usize = 8;
const HANG_S: u64 = 40;
const QUICK_WALL_S: u64 = 240;
const THOROUGH_WALL_S: u64 = 3000;

pub struct Outcome {
    pub fail: Option<Fail>,
    pub st: St,
}

fn run_source(seed: u64, id: &str, run: u64) -> Source {
    Source::Gen(Rng::new(mix(seed ^ sim::fnv(id.as_bytes())).wrapping_add(mix(run ^ 0x5151))))
}

/// Executes one run on a fresh thread (fresh thread-locals, in particular fresh hash keys).
pub fn execute(p: &Prop, source: Source, trace: bool) -> Outcome {
    sim::begin(source, trace);
    let f = p.run;
    let heap = p.heap_mib << 20;
    let h = std::thread::Builder::new()
        .stack_size(16 << 20)
        .spawn(move || {
            sim::set_in_sim(true);
            let hs = sim::seed32();
            sim::set_hash_seed(mix(hs as u64 ^ 0xabcd));
            alloc::arm(heap);
            let r = sim::guarded(f);
            alloc::disarm();
            sim::set_in_sim(false);
            r
        })
        .expect("spawn run thread");
    let r = h.join().unwrap_or_else(|p| Err(sim::payload_text(&*p)));
    interpose::fs_end();
    let st = sim::end();
    let fail = match r {
        Ok(Ok(())) => None,
        Ok(Err(f)) => Some(f),
        Err(m) => Some(Fail {
            class: "panic".into(),
            msg: format!("unexpected panic: {}", m),
        }),
    };
    Outcome { fail, st }
}

fn arg(args: &[String], name: &str) -> Option<String> {
    args.iter().position(|a| a == name).and_then(|i| args.get(i + 1).cloned())
}
fn arg_u(args: &[String], name: &str, d: u64) -> u64 {
    arg(args, name).and_then(|v| v.parse().ok()).unwrap_or(d)
}

pub fn main(props: &[Prop]) -> ! {
    std::hint::black_box(interpose::install());
    std::panic::set_hook(Box::new(|info| {
        if !sim::in_sim() && !crate::sched::on_sim_thread() {
            sim::outside(|| eprintln!("harness panic: {}", info));
        } else {
            sim::note(|| format!("panic: {}", info));
        }
    }));
    let args: Vec<String> = std::env::args().collect();
    let cmd = args.get(1).cloned().unwrap_or_default();
    if cmd == "replay" {
        std::process::exit(cmd_replay(props, &args));
    }
    let id = args.get(2).cloned().unwrap_or_default();
    let p = match props.iter().find(|p| p.id == id) {
        Some(p) => p,
        None => {
            eprintln!("unknown property {:?}", id);
            std::process::exit(2);
        }
    };
    let code = match cmd.as_str() {
        "check" => cmd_check(p, &args),
        "worker" => cmd_worker(p, &args),
        "one" => cmd_one(p, &args),
        "shrink" => cmd_shrink(p, &args),
        "selftest" => cmd_selftest(p, &args),
        _ => {
            eprintln!("usage: check|replay|selftest ...");
            2
        }
    };
    std::process::exit(code)
}

fn setup_scratch(dir: &Path) {
    std::fs::create_dir_all(dir).expect("scratch");
    interpose::set_scratch(dir);
}

fn write_atomic(path: &Path, text: &str) {
    let tmp = path.with_extension("tmp");
    std::fs::write(&tmp, text).expect("write result");
    std::fs::rename(&tmp, path).expect("rename result");
}

fn tape_json(t: &[u32]) -> J {
    J::A(t.iter().map(|v| J::I(*v as i64)).collect())
}

fn fail_json(f: &Fail) -> Vec<(String, J)> {
    vec![
        ("class".into(), J::s(f.class.clone())),
        ("message".into(), J::s(f.msg.clone())),
    ]
}

fn tape_of(j: &J) -> Vec<u32> {
    j.get("tape")
        .and_then(|t| t.as_a())
        .map(|a| a.iter().map(|v| v.as_i().unwrap_or(0) as u32).collect())
        .unwrap_or_default()
}

// ---------------------------------------------------------------- worker

fn cmd_worker(p: &Prop, args: &[String]) -> i32 {
    let seed = arg_u(args, "--seed", 1);
    let start = arg_u(args, "--start", 0);
    let stride = arg_u(args, "--stride", 1);
    let end = arg_u(args, "--end", 0);
    let wall = arg_u(args, "--wall", 600);
    let dir = PathBuf::from(arg(args, "--dir").unwrap());
    let logs = args.iter().any(|a| a == "--logs");
    setup_scratch(&dir.join(format!("w{}", start)));
    let status = std::fs::File::create(dir.join(format!("w{}.status", start))).unwrap();
    let t0 = Instant::now();
    let mut hashes: BTreeSet<u64> = BTreeSet::new();
    let mut runs = 0u64;
    let mut sim_us = 0u64;
    let mut events = 0u64;
    let mut choices = 0u64;
    let mut fails = vec![];
    let mut interesting: Vec<(u64, u64)> = vec![];
    let mut loglines = String::new();
    let mut i = start;
    while i < end && t0.elapsed().as_secs() < wall && fails.len() < 3 && !crate::sched::lost() {
        let _ = status.write_at(&(i + 1).to_le_bytes(), 0);
        let o = execute(p, run_source(seed, p.id, i), false);
        runs += 1;
        sim_us += o.st.sim_us;
        events += o.st.events;
        choices += o.st.tape.len() as u64;
        if logs {
            let c = o.fail.as_ref().map(|f| f.class.clone()).unwrap_or("-".into());
            loglines.push_str(&format!("{} {:016x} {} {} {}\n", i, o.st.hash, o.st.events, o.st.tape.len(), c));
        }
        if o.st.nontrivial {
            hashes.insert(o.st.hash);
            if interesting.len() < 2 && o.st.events >= 8 {
                interesting.push((i, o.st.events));
            }
        }
        if let Some(f) = o.fail {
            let mut e = fail_json(&f);
            e.push(("run".into(), J::I(i as i64)));
            e.push(("tape".into(), tape_json(&o.st.tape)));
            e.push(("log_hash".into(), J::s(format!("{:016x}", o.st.hash))));
            fails.push(J::O(e));
        }
        i += stride;
    }
    let _ = status.write_at(&u64::MAX.to_le_bytes(), 0);
    let mut hb = Vec::with_capacity(hashes.len() * 8);
    for h in &hashes {
        hb.extend_from_slice(&h.to_le_bytes());
    }
    std::fs::write(dir.join(format!("w{}.hashes", start)), hb).unwrap();
    let mut bb = vec![];
    for w in sim::bitmap() {
        bb.extend_from_slice(&w.to_le_bytes());
    }
    std::fs::write(dir.join(format!("w{}.bitmap", start)), bb).unwrap();
    if logs {
        std::fs::write(dir.join(format!("w{}.logs", start)), loglines).unwrap();
    }
    let counts = J::O(sim::counts().iter().map(|(k, v)| (k.to_string(), J::I(*v as i64))).collect());
    let out = J::O(vec![
        ("runs".into(), J::I(runs as i64)),
        ("sim_us".into(), J::I(sim_us as i64)),
        ("events".into(), J::I(events as i64)),
        ("choices".into(), J::I(choices as i64)),
        ("fails".into(), J::A(fails)),
        ("interesting".into(), J::A(interesting.iter().map(|(a, _)| J::I(*a as i64)).collect())),
        ("counts".into(), counts),
    ]);
    write_atomic(&dir.join(format!("w{}.json", start)), &out.dump());
    0
}

// ---------------------------------------------------------------- one

/// `one ID (--tape FILE | --seed S --run R) --dir D --out FILE [--tape-out FILE] [--trace]`
fn cmd_one(p: &Prop, args: &[String]) -> i32 {
    let dir = PathBuf::from(arg(args, "--dir").unwrap());
    setup_scratch(&dir.join(format!("one{}", std::process::id())));
    let trace = args.iter().any(|a| a == "--trace");
    let src = match arg(args, "--tape") {
        Some(f) => {
            let j = J::parse(&std::fs::read_to_string(f).expect("tape file")).expect("tape json");
            Source::Replay(tape_of(&j))
        }
        None => run_source(arg_u(args, "--seed", 1), p.id, arg_u(args, "--run", 0)),
    };
    if let Some(f) = arg(args, "--tape-out") {
        sim::stream_tape(std::fs::File::create(f).unwrap());
    }
    let o = execute(p, src, trace);
    let mut e = match &o.fail {
        Some(f) => fail_json(f),
        None => vec![],
    };
    e.push(("tape".into(), tape_json(&o.st.tape)));
    e.push(("log_hash".into(), J::s(format!("{:016x}", o.st.hash))));
    e.push(("events".into(), J::I(o.st.events as i64)));
    e.push(("sim_us".into(), J::I(o.st.sim_us as i64)));
    if let Some(t) = o.st.trace {
        e.push(("trace".into(), J::A(t.into_iter().map(J::S).collect())));
    }
    if let Some(out) = arg(args, "--out") {
        write_atomic(Path::new(&out), &J::O(e).dump());
    }
    let _ = std::fs::remove_dir_all(dir.join(format!("one{}", std::process::id())));
    0
}

/// Result of a run in a child process.
struct One {
    class: Option<String>,
    msg: String,
    log_hash: String,
    tape: Vec<u32>,
    trace: Vec<J>,
}

fn wait_timeout(c: &mut Child, d: Duration) -> Option<std::process::ExitStatus> {
    let t0 = Instant::now();
    loop {
        if let Ok(Some(s)) = c.try_wait() {
            return Some(s);
        }
        if t0.elapsed() > d {
            let _ = c.kill();
            let _ = c.wait();
            return None;
        }
        std::thread::sleep(Duration::from_millis(3));
    }
}

fn abnormal_class(s: Option<std::process::ExitStatus>) -> (String, String) {
    match s {
        None => (
            "no-progress".into(),
            "the run makes no progress (an operation does not terminate)".into(),
        ),
        Some(s) if s.code() == Some(alloc::EXIT_BUDGET) => (
            "work-budget".into(),
            "the work done by one operation exceeds its bound (live heap budget exhausted)".into(),
        ),
        Some(s) => match s.signal() {
            Some(n) => (format!("crash-signal-{}", n), format!("the process died on signal {}", n)),
            None => ("exit".into(), format!("the process exited with {:?}", s.code())),
        },
    }
}

fn self_cmd() -> Command {
    let mut c = Command::new(std::env::current_exe().expect("exe"));
    c.stdin(Stdio::null());
    c
}

fn run_one(p: &Prop, dir: &Path, tape: Option<&[u32]>, seed: u64, run: u64, trace: bool, timeout_s: u64) -> One {
    let out = dir.join("one.json");
    let tin = dir.join("one.tape");
    let tout = dir.join("one.tapeout");
    let _ = std::fs::remove_file(&out);
    let _ = std::fs::remove_file(&tout);
    let mut c = self_cmd();
    c.args(["one", p.id, "--dir"]).arg(dir).arg("--out").arg(&out);
    match tape {
        Some(t) => {
            std::fs::write(&tin, J::O(vec![("tape".into(), tape_json(t))]).dump()).unwrap();
            c.arg("--tape").arg(&tin);
        }
        None => {
            c.args(["--seed", &seed.to_string(), "--run", &run.to_string()]);
            c.arg("--tape-out").arg(&tout);
        }
    }
    if trace {
        c.arg("--trace");
    }
    c.stdout(Stdio::null()).stderr(Stdio::null());
    let mut ch = c.spawn().expect("spawn one");
    let st = wait_timeout(&mut ch, Duration::from_secs(timeout_s));
    let ok = st.map(|s| s.success()).unwrap_or(false);
    if ok {
        if let Some(j) = std::fs::read_to_string(&out).ok().and_then(|t| J::parse(&t)) {
            return One {
                class: j.get("class").and_then(|c| c.as_str()).map(|s| s.to_string()),
                msg: j.get("message").and_then(|c| c.as_str()).unwrap_or("").to_string(),
                log_hash: j.get("log_hash").and_then(|c| c.as_str()).unwrap_or("").to_string(),
                tape: tape_of(&j),
                trace: j.get("trace").and_then(|t| t.as_a()).cloned().unwrap_or_default(),
            };
        }
    }
    let (class, msg) = abnormal_class(st);
    let t = match tape {
        Some(t) => t.to_vec(),
        None => std::fs::read(&tout)
            .unwrap_or_default()
            .chunks_exact(4)
            .map(|c| u32::from_le_bytes([c[0], c[1], c[2], c[3]]))
            .collect(),
    };
    One {
        class: Some(class),
        msg,
        log_hash: String::new(),
        tape: t,
        trace: vec![],
    }
}

// ---------------------------------------------------------------- shrink

/// `shrink ID --in FILE --out FILE --class C --dir D`: in-process; best so far is kept in --out.
fn cmd_shrink(p: &Prop, args: &[String]) -> i32 {
    let dir = PathBuf::from(arg(args, "--dir").unwrap());
    setup_scratch(&dir.join("shrink"));
    let class = arg(args, "--class").unwrap();
    let out = PathBuf::from(arg(args, "--out").unwrap());
    let wall = arg_u(args, "--wall", 60);
    let j = J::parse(&std::fs::read_to_string(arg(args, "--in").unwrap()).unwrap()).unwrap();
    let t0 = Instant::now();
    shrink::shrink(tape_of(&j), 20000, |t| {
        if t0.elapsed().as_secs() > wall {
            return false;
        }
        let o = execute(p, Source::Replay(t.to_vec()), false);
        let same = o.fail.map(|f| f.class == class).unwrap_or(false);
        if same {
            write_atomic(&out, &J::O(vec![("tape".into(), tape_json(t))]).dump());
        }
        same
    });
    0
}

fn is_abnormal(class: &str) -> bool {
    class == "work-budget" || class == "no-progress" || class == "exit" || class.starts_with("crash-signal")
}

fn minimise(p: &Prop, dir: &Path, tape: &[u32], class: &str) -> Vec<u32> {
    if is_abnormal(class) {
        let t0 = Instant::now();
        let (per, max) = if class == "no-progress" { (4, 12) } else { (10, 250) };
        let (best, _) = shrink::shrink(tape.to_vec(), max, |t| {
            t0.elapsed().as_secs() < 60 && run_one(p, dir, Some(t), 0, 0, false, per).class.as_deref() == Some(class)
        });
        return best;
    }
    let inp = dir.join("shrink.in");
    let out = dir.join("shrink.out");
    std::fs::write(&inp, J::O(vec![("tape".into(), tape_json(tape))]).dump()).unwrap();
    let _ = std::fs::remove_file(&out);
    let mut c = self_cmd();
    c.args(["shrink", p.id, "--class", class, "--dir"]).arg(dir);
    c.arg("--in").arg(&inp).arg("--out").arg(&out);
    c.stdout(Stdio::null()).stderr(Stdio::null());
    let mut ch = c.spawn().expect("spawn shrink");
    wait_timeout(&mut ch, Duration::from_secs(90));
    std::fs::read_to_string(&out)
        .ok()
        .and_then(|t| J::parse(&t))
        .map(|j| tape_of(&j))
        .unwrap_or_else(|| tape.to_vec())
}

// ---------------------------------------------------------------- check

struct Batch {
    runs: u64,
    sim_us: u64,
    events: u64,
    choices: u64,
    counts: BTreeMap<String, u64>,
    hashes: BTreeSet<u64>,
    bitmap: Vec<u8>,
    interesting: Vec<u64>,
    /// (run, class if known from the worker, message, tape)
    fails: Vec<(u64, String, String, Option<Vec<u32>>)>,
}

fn search(p: &Prop, dir: &Path, seed: u64, runs: u64, wall: u64, workers: usize, logs: bool) -> Batch {
    let mut b = Batch {
        runs: 0,
        sim_us: 0,
        events: 0,
        choices: 0,
        counts: BTreeMap::new(),
        hashes: BTreeSet::new(),
        bitmap: vec![0; sim::BITMAP_BITS / 8],
        interesting: vec![],
        fails: vec![],
    };
    let mut kids: Vec<(usize, Option<Child>, u64, Instant)> = vec![];
    for w in 0..workers {
        let mut c = self_cmd();
        c.args(["worker", p.id, "--seed", &seed.to_string()]);
        c.args(["--start", &w.to_string(), "--stride", &workers.to_string()]);
        c.args(["--end", &runs.to_string(), "--wall", &wall.to_string(), "--dir"]).arg(dir);
        if logs {
            c.arg("--logs");
        }
        c.stdout(Stdio::null());
        kids.push((w, Some(c.spawn().expect("spawn worker")), 0, Instant::now()));
    }
    let status = |w: usize| -> u64 {
        std::fs::read(dir.join(format!("w{}.status", w)))
            .ok()
            .and_then(|v| v.get(..8).map(|c| u64::from_le_bytes(c.try_into().unwrap())))
            .unwrap_or(0)
    };
    loop {
        let mut alive = false;
        let lowest = b.fails.iter().map(|f| f.0).min();
        for (w, kid, last, since) in kids.iter_mut() {
            let ch = match kid {
                Some(c) => c,
                None => continue,
            };
            let cur = status(*w);
            if cur != *last {
                *last = cur;
                *since = Instant::now();
            }
            match ch.try_wait() {
                Ok(Some(s)) => {
                    *kid = None;
                    let f = dir.join(format!("w{}.json", w));
                    let j = std::fs::read_to_string(f).ok().and_then(|t| J::parse(&t));
                    match (s.success(), j) {
                        (true, Some(j)) => {
                            let g = |k: &str| j.get(k).and_then(|v| v.as_i()).unwrap_or(0) as u64;
                            b.runs += g("runs");
                            b.sim_us += g("sim_us");
                            b.events += g("events");
                            b.choices += g("choices");
                            if let Some(o) = j.get("counts").and_then(|c| c.as_o()) {
                                for (k, v) in o {
                                    *b.counts.entry(k.clone()).or_insert(0) += v.as_i().unwrap_or(0) as u64;
                                }
                            }
                            for v in j.get("interesting").and_then(|v| v.as_a()).unwrap_or(&vec![]) {
                                b.interesting.push(v.as_i().unwrap_or(0) as u64);
                            }
                            for v in j.get("fails").and_then(|v| v.as_a()).unwrap_or(&vec![]) {
                                b.fails.push((
                                    v.get("run").and_then(|r| r.as_i()).unwrap_or(0) as u64,
                                    v.get("class").and_then(|c| c.as_str()).unwrap_or("").to_string(),
                                    v.get("message").and_then(|c| c.as_str()).unwrap_or("").to_string(),
                                    Some(tape_of(v)),
                                ));
                            }
                            for c in std::fs::read(dir.join(format!("w{}.hashes", w))).unwrap_or_default().chunks_exact(8) {
                                b.hashes.insert(u64::from_le_bytes(c.try_into().unwrap()));
                            }
                            let bm = std::fs::read(dir.join(format!("w{}.bitmap", w))).unwrap_or_default();
                            for (x, y) in b.bitmap.iter_mut().zip(bm) {
                                *x |= y;
                            }
                        }
                        _ => {
                            let cur = status(*w);
                            let (class, msg) = abnormal_class(Some(s));
                            if cur > 0 && cur != u64::MAX {
                                b.fails.push((cur - 1, class, msg, None));
                            } else {
                                eprintln!("worker {} ended abnormally outside a run: {:?}", w, s);
                                b.fails.push((u64::MAX, class, msg, None));
                            }
                        }
                    }
                }
                _ => {
                    let past = lowest.map_or(false, |l| cur > l + 1 && cur != u64::MAX);
                    if past {
                        let _ = ch.kill();
                        let _ = ch.wait();
                        *kid = None;
                    } else if since.elapsed().as_secs() > HANG_S && cur != u64::MAX && cur > 0 {
                        let _ = ch.kill();
                        let _ = ch.wait();
                        *kid = None;
                        b.fails.push((
                            cur - 1,
                            "no-progress".into(),
                            "the run makes no progress (an operation does not terminate)".into(),
                            None,
                        ));
                    } else {
                        alive = true;
                    }
                }
            }
        }
        if !alive {
            break;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
    b.fails.sort_by_key(|f| f.0);
    b
}

struct TempDir(PathBuf);
impl TempDir {
    fn new(id: &str) -> TempDir {
        let name = format!("kubasim-{}-{}", id, std::process::id());
        let shm = Path::new("/dev/shm").join(&name);
        if std::fs::create_dir_all(&shm).is_ok() {
            // Memory is much faster, if there is enough of it.
            let probe = shm.join("probe");
            let roomy = std::fs::write(&probe, vec![1u8; 96 << 20]).is_ok();
            let _ = std::fs::remove_file(&probe);
            if roomy {
                return TempDir(shm);
            }
            let _ = std::fs::remove_dir_all(&shm);
        }
        let p = std::env::temp_dir().join(name);
        let _ = std::fs::remove_dir_all(&p);
        std::fs::create_dir_all(&p).expect("temp dir");
        TempDir(p)
    }
}
impl Drop for TempDir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("KUBASIM_VERIF").unwrap_or_else(|_| "/verif".into()))
}

/// Lines `known: property=<id> class=<class> contains=<text>` of known_findings.txt.
fn known(p: &Prop, class: &str, msg: &str) -> Option<String> {
    let t = std::fs::read_to_string(verif_dir().join("known_findings.txt")).ok()?;
    for l in t.lines() {
        if let Some(r) = l.strip_prefix("known: ") {
            let pre = format!("property={} class={} contains=", p.id, class);
            if let Some(txt) = r.strip_prefix(&pre) {
                if !txt.is_empty() && msg.contains(txt) {
                    return Some(txt.to_string());
                }
            }
        }
    }
    None
}

/// Runs one after another, each in a process of its own.
fn fresh_search(p: &Prop, dir: &Path, seed: u64, runs: u64, limit: Duration) -> Vec<(u64, String, String, Option<Vec<u32>>)> {
    let t0 = Instant::now();
    let found = std::sync::Mutex::new(vec![]);
    let next = std::sync::atomic::AtomicU64::new(0);
    std::thread::scope(|s| {
        for w in 0..WORKERS {
            let (found, next) = (&found, &next);
            s.spawn(move || {
                let d = dir.join(format!("fresh{}", w));
                std::fs::create_dir_all(&d).expect("scratch");
                loop {
                    let r = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                    if r >= runs || t0.elapsed() > limit || !found.lock().unwrap().is_empty() {
                        return;
                    }
                    let o = run_one(p, &d, None, seed, r, false, HANG_S + 20);
                    if let Some(c) = o.class {
                        found.lock().unwrap().push((r, c, o.msg, None));
                    }
                }
            });
        }
    });
    let mut f = found.into_inner().unwrap();
    f.sort_by_key(|x| x.0);
    f
}

/// Reproduces a failing run in a fresh process from the seed alone, minimises it, writes the replay.
fn confirm(p: &Prop, dir: &Path, seed: u64, run: u64, tape: &Option<Vec<u32>>) -> Option<(PathBuf, String, String)> {
    let o = run_one(p, dir, None, seed, run, false, HANG_S + 20);
    let c = o.class?;
    let full = if o.tape.is_empty() { tape.clone().unwrap_or_default() } else { o.tape.clone() };
    let mut best = minimise(p, dir, &full, &c);
    let limit = if c == "no-progress" { 20 } else { HANG_S + 20 };
    let mut fin = run_one(p, dir, Some(&best), 0, 0, true, limit);
    let again = run_one(p, dir, Some(&best), 0, 0, true, limit);
    if fin.class.as_deref() != Some(&c) || again.class != fin.class || again.log_hash != fin.log_hash {
        best = full.clone();
        fin = run_one(p, dir, Some(&best), 0, 0, true, limit);
    }
    fin.class.as_ref()?;
    let rdir = verif_dir().join("replays");
    std::fs::create_dir_all(&rdir).expect("replays dir");
    let path = rdir.join(format!("{}-seed{}-run{}.json", p.id, seed, run));
    let j = J::O(vec![
        ("property".into(), J::s(p.id)),
        ("class".into(), J::s(fin.class.clone().unwrap())),
        ("message".into(), J::s(if fin.msg.is_empty() { o.msg.clone() } else { fin.msg.clone() })),
        ("seed".into(), J::I(seed as i64)),
        ("run".into(), J::I(run as i64)),
        ("choices_before_minimisation".into(), J::I(full.len() as i64)),
        ("tape".into(), tape_json(&best)),
        ("log_hash".into(), J::s(fin.log_hash.clone())),
        ("trace".into(), J::A(fin.trace.clone())),
    ]);
    std::fs::write(&path, j.pretty()).expect("write replay");
    Some((path, fin.class.unwrap(), fin.msg))
}

fn cmd_check(p: &Prop, args: &[String]) -> i32 {
    let t0 = Instant::now();
    let tier = arg(args, "--tier")
        .or_else(|| std::env::var("VERIF_TIER").ok())
        .filter(|t| t == "thorough")
        .unwrap_or_else(|| "quick".into());
    let seed: u64 = arg(args, "--seed")
        .or_else(|| std::env::var("VERIF_SEED").ok())
        .and_then(|v| v.parse().ok())
        .unwrap_or(1);
    let (mut runs, wall) = if tier == "thorough" {
        (p.thorough, THOROUGH_WALL_S)
    } else {
        (p.quick, QUICK_WALL_S)
    };
    runs = arg_u(args, "--runs", runs);
    let td = TempDir::new(p.id);
    let dir = td.0.clone();
    let b = search(p, &dir, seed, runs, wall, WORKERS, false);
    let search_s = t0.elapsed().as_secs_f64();
    let mut violations = 0;
    let mut knowns: BTreeSet<String> = BTreeSet::new();
    let mut unreproduced = vec![];
    let mut report = None;
    let mut cand: Vec<(u64, String, String, Option<Vec<u32>>)> = b.fails.iter().filter(|f| f.0 != u64::MAX).cloned().collect();
    for pass in 0..2 {
        if pass == 1 {
            if report.is_some() || unreproduced.is_empty() {
                break;
            }
            // Something carried over from one run to the next inside a worker process. Look for a
            // run that shows it on its own.
            cand = fresh_search(p, &dir, seed, 4000, Duration::from_secs(60));
        }
        for (run, class, msg, tape) in cand.iter() {
            if let Some(k) = known(p, class, msg) {
                knowns.insert(k);
                continue;
            }
            match confirm(p, &dir, seed, *run, tape) {
                Some(r) => {
                    violations = 1;
                    report = Some(r);
                    break;
                }
                None => unreproduced.push(format!("run {} {}: {}", run, class, msg)),
            }
        }
    }
    // Samples for the evidence: traces of whole runs of this batch.
    let mut samples = vec![];
    let mut ints = b.interesting.clone();
    ints.sort();
    for r in ints.iter().take(3) {
        let o = run_one(p, &dir, None, seed, *r, true, 60);
        let n = o.trace.len();
        let mut tr = o.trace;
        tr.truncate(60);
        samples.push(J::O(vec![
            ("run".into(), J::I(*r as i64)),
            ("choices".into(), J::I(o.tape.len() as i64)),
            ("trace_lines_total".into(), J::I(n as i64)),
            ("trace".into(), J::A(tr)),
        ]));
    }
    let harness_error = violations == 0 && b.fails.iter().any(|f| f.0 == u64::MAX);
    let ones: u64 = b.bitmap.iter().map(|x| x.count_ones() as u64).sum();
    let m = sim::BITMAP_BITS as f64;
    let est = if (ones as f64) < m { -m * (1.0 - ones as f64 / m).ln() } else { m };
    let wall_s = t0.elapsed().as_secs_f64();
    let sub = |pre: &str| -> J {
        J::O(
            b.counts
                .iter()
                .filter(|(k, _)| k.starts_with(pre))
                .map(|(k, v)| (k[pre.len()..].to_string(), J::I(*v as i64)))
                .collect(),
        )
    };
    let strs = |x: &[&str]| J::A(x.iter().map(|s| J::s(*s)).collect());
    let cov = J::O(vec![
        ("evaluations".into(), J::I(b.runs as i64)),
        ("distinct_nontrivial".into(), J::I(b.hashes.len() as i64)),
        ("rule".into(), J::s(p.rule)),
        ("samples".into(), J::A(samples)),
        ("runs_requested".into(), J::I(runs as i64)),
        ("runs_per_hour_one_seed_each".into(), J::I((b.runs as f64 / search_s * 3600.0) as i64)),
        ("simulated_seconds".into(), J::F(b.sim_us as f64 / 1e6)),
        ("simulated_events".into(), J::I(b.events as i64)),
        ("simulator_choices".into(), J::I(b.choices as i64)),
        ("distinct_states_estimate".into(), J::I(est as i64)),
        (
            "distinct_states_measure".into(),
            J::s("linear-counting estimate over a 2^22-bit map of hashes of the abstract states noted by the oracle"),
        ),
        ("faults_injected".into(), sub("fault.")),
        ("probes".into(), sub("probe.")),
        ("operations".into(), sub("op.")),
        ("unreproduced".into(), J::A(unreproduced.iter().map(|s| J::s(s.clone())).collect())),
        ("components_real".into(), strs(p.real)),
        ("components_stubbed".into(), strs(p.stub)),
        ("worker_processes".into(), J::I(WORKERS as i64)),
    ]);
    let ev = J::O(vec![
        ("property".into(), J::s(p.id)),
        ("tier".into(), J::s(tier.clone())),
        ("seed".into(), J::I(seed as i64)),
        ("level".into(), J::s("exploration")),
        ("coverage".into(), cov),
        ("assumptions".into(), strs(p.assumptions)),
        ("wall_s".into(), J::F(wall_s)),
        ("violations".into(), J::I(violations)),
    ]);
    let edir = verif_dir().join("evidence");
    std::fs::create_dir_all(&edir).expect("evidence dir");
    write_atomic(&edir.join(format!("{}.json", p.id)), &ev.pretty());
    for k in &knowns {
        println!("KNOWN-FINDING: property={} {}", p.id, k);
    }
    println!(
        "{} {}: {} runs, {} distinct non-trivial, {:.1} s, seed {}",
        p.id,
        tier,
        b.runs,
        b.hashes.len(),
        wall_s,
        seed
    );
    for u in &unreproduced {
        println!("note: not reproducible in a fresh process, not reported: {}", u);
    }
    let code = if let Some((path, class, msg)) = report {
        println!("{}: {}", class, msg);
        println!("VIOLATION property={} replay={}", p.id, path.display());
        1
    } else if harness_error {
        eprintln!("harness error: a worker ended outside a run");
        2
    } else {
        0
    };
    let _ = std::io::stdout().flush();
    drop(td);
    code
}

// ---------------------------------------------------------------- replay

fn cmd_replay(props: &[Prop], args: &[String]) -> i32 {
    let file = args.get(2).cloned().unwrap_or_default();
    let j = match std::fs::read_to_string(&file).ok().and_then(|t| J::parse(&t)) {
        Some(j) => j,
        None => {
            eprintln!("cannot read {}", file);
            return 2;
        }
    };
    let id = j.get("property").and_then(|v| v.as_str()).unwrap_or("");
    let p = match props.iter().find(|p| p.id == id) {
        Some(p) => p,
        None => return 3, // another harness's property
    };
    let td = TempDir::new(p.id);
    let want = j.get("class").and_then(|v| v.as_str()).unwrap_or("").to_string();
    let limit = if want == "no-progress" { 20 } else { 120 };
    let o = run_one(p, &td.0, Some(&tape_of(&j)), 0, 0, true, limit);
    for l in &o.trace {
        println!("{}", l.as_str().unwrap_or(""));
    }
    let hash = j.get("log_hash").and_then(|v| v.as_str()).unwrap_or("");
    match o.class {
        Some(c) => {
            println!("{}: {}", c, o.msg);
            println!(
                "reproduced: class {}, event log {}",
                if c == want { "identical" } else { "DIFFERENT" },
                if o.log_hash == hash { "identical" } else { "DIFFERENT" }
            );
            println!("VIOLATION property={} replay={}", p.id, file);
            1
        }
        None => {
            println!("the violation does not occur on this tree");
            0
        }
    }
}

// ---------------------------------------------------------------- selftest

/// Every run twice, in different processes and at different worker counts; event logs compared.
fn cmd_selftest(p: &Prop, args: &[String]) -> i32 {
    let runs = arg_u(args, "--runs", 2000);
    let seed = arg_u(args, "--seed", 1);
    let mut all: Vec<BTreeMap<u64, String>> = vec![];
    for workers in [8usize, 3] {
        let td = TempDir::new(p.id);
        search(p, &td.0, seed, runs, 3000, workers, true);
        let mut m = BTreeMap::new();
        for w in 0..workers {
            for l in std::fs::read_to_string(td.0.join(format!("w{}.logs", w))).unwrap_or_default().lines() {
                if let Some((i, r)) = l.split_once(' ') {
                    m.insert(i.parse().unwrap_or(0), r.to_string());
                }
            }
        }
        all.push(m);
    }
    let mut diff = 0;
    for (k, v) in &all[0] {
        if all[1].get(k) != Some(v) {
            diff += 1;
            if diff <= 5 {
                println!("run {}: {} vs {:?}", k, v, all[1].get(k));
            }
        }
    }
    println!("{}: {} runs executed twice (8 and 3 processes), {} differ", p.id, all[0].len(), diff);
    if diff == 0 && all[0].len() as u64 == runs {
        0
    } else {
        1
    }
}
