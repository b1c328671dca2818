//! One run of the visualizer under the simulator.
use simcore::interpose::{self, FsConfig, FsReport};
use simcore::sched::{self, Config, Policy, Report};
use simcore::sim::{self, choose, ev, pick};
use std::sync::{Arc, Mutex};

pub type Key = [i64; 3];
pub const RES: f64 = 0.1;

pub struct Frame {
    pub points: Vec<[f32; 3]>,
    pub lines: Vec<([f32; 3], [f32; 3])>,
    /// Drawn after scheduling became fair.
    pub fair: bool,
}

pub struct Played {
    pub frames: Vec<Frame>,
    pub report: Report,
    pub windows: usize,
    /// Something was drawn that no frame showed.
    pub leftover: bool,
    pub fs: FsReport,
    /// Frames drawn while a background thread existed.
    pub overlapped: usize,
    /// After each frame, once the program has had time to settle: bytes it holds, threads alive.
    pub held: Vec<(i64, usize)>,
    /// Frames drawn while the integrating thread was held.
    pub during_hold: usize,
    pub hold: sched::Held,
}

/// How the two sides are scheduled: a chaotic phase, then a fair one.
pub struct Plan {
    /// Fairly scheduled frames before everything else.
    pub lead: usize,
    pub chaos_frames: usize,
    pub fair_frames: usize,
    pub config: Config,
    /// Largest pause between two frames of the chaotic phase, in microseconds (0 = none).
    pub pause: u32,
    /// From this frame on, hold the thread that integrates a scan, some allocations later, until
    /// this many frames were drawn.
    pub hold: Option<(usize, u32, usize)>,
}

pub fn plan(max_chaos: u32, fair_frames: usize) -> Plan {
    Plan {
        lead: 0,
        chaos_frames: choose(max_chaos + 1) as usize,
        fair_frames,
        config: Config {
            policy: Policy::Random(pick(&[3u32, 2, 5, 12, 40])),
            stall_every: pick(&[0u32, 0, 60, 20, 8]),
            stall_len: pick(&[20u32, 100, 400, 4000]),
            stale_every: pick(&[0u32, 2, 4]),
            max_steps: 60_000,
        },
        pause: pick(&[0u32, 0, 100, 1000, 40_000]),
        hold: None,
    }
}

pub fn play(dir: &std::path::Path, fs: FsConfig, plan: Plan) -> Played {
    simstd::env::sim_set_args(vec!["visualizer".to_string(), dir.to_str().unwrap().to_string()]);
    let out = Arc::new(Mutex::new((Vec::<Frame>::new(), 0usize)));
    let o = out.clone();
    let held = Arc::new(Mutex::new(Vec::new()));
    let h = held.clone();
    let (lead, pause) = (plan.lead, plan.pause);
    let hold = plan.hold;
    let during = Arc::new(Mutex::new(0usize));
    let dh = during.clone();
    let (chaos, fair) = (lead + plan.chaos_frames, plan.fair_frames);
    let (policy, stale) = (plan.config.policy, plan.config.stale_every);
    kiss3d::sim::begin(Box::new(move |n, f| {
        let is_fair = (n > chaos || n <= lead) && !sched::hold_pending();
        ev("frame", &[f.points.len() as i64, f.lines.len() as i64]);
        {
            let mut g = o.lock().unwrap();
            if sched::live_tasks() > 1 {
                g.1 += 1;
            }
            g.0.push(Frame {
                points: f.points,
                lines: f.lines,
                fair: is_fair,
            });
        }
        if let Some((from, allocs, frames)) = hold {
            let mut d = dh.lock().unwrap();
            if n == from {
                simcore::alloc::set_points(true);
                sched::arm_hold(allocs);
            } else if n > from && sched::held().holding {
                *d += 1;
                if *d >= frames {
                    sched::release_hold();
                }
            }
            if n > from && !sched::hold_pending() {
                simcore::alloc::set_points(false);
            }
        }
        if n >= chaos + fair {
            // Closing the window may wait for what is under way.
            sched::release_hold();
            simcore::alloc::set_points(false);
            return false;
        }
        if n >= chaos || n < lead {
            if n == chaos {
                sched::set_policy(Policy::Fair);
            }
            sched::sleep_us(16_000);
            h.lock().unwrap().push((simcore::alloc::own(), sched::live_tasks()));
        } else if n == lead {
            sched::set_chaos(policy, stale);
        } else if pause > 0 {
            let us = choose(pause + 1) as u64;
            if us > 0 {
                sched::sleep_us(us);
            }
        }
        true
    }));
    interpose::fs_begin(fs);
    let fair_from_start = lead > 0 || plan.chaos_frames == 0;
    let report = sched::run(plan.config, || {
        if fair_from_start {
            sched::set_policy(Policy::Fair);
        }
        vizapp::app::__sim_main()
    });
    simcore::alloc::set_points(false);
    let fs = interpose::fs_end();
    let (windows, _, leftover) = kiss3d::sim::end();
    let (frames, overlapped) = {
        let mut g = out.lock().unwrap();
        (std::mem::take(&mut g.0), g.1)
    };
    let during_hold = *during.lock().unwrap();
    sim::add("probe.frames", frames.len() as u64);
    sim::add("probe.frames_during_integration", overlapped as u64);
    sim::add("probe.scheduling_steps", report.steps);
    sim::add("probe.background_threads", report.threads as u64 - 1);
    Played {
        frames,
        report,
        windows,
        leftover,
        fs,
        overlapped,
        during_hold,
        hold: sched::held(),
        held: {
            let mut g = held.lock().unwrap();
            std::mem::take(&mut *g)
        },
    }
}

/// The cell a drawn point is the centre of; None if it is no cell centre.
pub fn key(p: &[f32; 3]) -> Option<Key> {
    let mut k = [0i64; 3];
    for d in 0..3 {
        let c = p[d] as f64 / RES;
        let r = c.round();
        if !((c - r).abs() < 0.05) {
            return None;
        }
        k[d] = r as i64;
    }
    Some(k)
}

/// Translation and rotation (columns are the axes).
#[derive(Clone, Debug)]
pub struct Rt {
    pub t: [f64; 3],
    pub r: [[f64; 3]; 3],
}

/// Does the marker drawn belong to this pose: lines from its position along its axes.
pub fn marker_is(lines: &[([f32; 3], [f32; 3])], p: &Rt, tol_t: f64, tol_r: f64) -> bool {
    let mut axes = [false; 3];
    for (a, b) in lines {
        let mut d = [0.0; 3];
        let mut len = 0.0;
        for i in 0..3 {
            if !((a[i] as f64 - p.t[i]).abs() <= tol_t) {
                return false;
            }
            d[i] = b[i] as f64 - a[i] as f64;
            len += d[i] * d[i];
        }
        let len = f64::sqrt(len);
        if !(len > 1e-6) {
            return false;
        }
        let mut hit = false;
        for ax in 0..3 {
            if (0..3).all(|i| (d[i] / len - p.r[i][ax]).abs() <= tol_r) {
                axes[ax] = true;
                hit = true;
            }
        }
        if !hit {
            return false;
        }
    }
    axes == [true; 3]
}
