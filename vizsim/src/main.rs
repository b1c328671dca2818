mod live;
mod play;
#[path = "../../kubasim/src/readers.rs"]
#[allow(dead_code)]
mod readers;
mod rec;
mod whole;
use simcore::driver::{self, Prop};

#[global_allocator]
static ALLOC: simcore::alloc::Budget = simcore::alloc::Budget;

const REAL: &[&str] = &[
    "viz/src/bin/draw_occupancy_grid.rs (unmodified source, compiled against the simulated std)",
    "kuba (readers, map, ray caster, geometry), std::fs, std::collections with simulated hash seeds",
];
const STUB: &[&str] = &[
    "kiss3d: recording window",
    "std::thread, std::sync, std::time, std::env, std::process: simulated",
    "file system: system calls intercepted, scratch files on the real disk",
];

fn main() {
    unsafe {
        setrlimit(7, &Rlimit { cur: 128, max: 128 });
    }
    driver::main(&[
        Prop {
            id: "C11",
            run: live::c11,
            quick: 8_000,
            thorough: 400_000,
            heap_mib: 1024,
            rule: "A case is one run of the visualizer on a generated recording under a random schedule; non-trivial when a frame was drawn while an integration was under way or the map grew after the first scan; distinct by event log (every scheduling decision and frame).",
            real: REAL,
            stub: STUB,
            assumptions: &["stores to relaxed atomics become visible in program order (loads may be stale, stores are not reordered)"],
        },
        Prop {
            id: "C12",
            run: live::c12,
            quick: 8_000,
            thorough: 400_000,
            heap_mib: 1024,
            rule: "A case is one run of the visualizer under a random schedule with stalls followed by a fair one; non-trivial when a frame was drawn while an integration was under way; distinct by event log.",
            real: REAL,
            stub: STUB,
            assumptions: &["stores to relaxed atomics become visible in program order (loads may be stale, stores are not reordered)"],
        },
        Prop {
            id: "C13",
            run: whole::c13,
            quick: 40_000,
            thorough: 5_000_000,
            heap_mib: 1024,
            rule: "A case is one start of the visualizer on a generated recording on a simulated disk (listing order, interruptions, short reads, a hard error at a chosen call, a recorder crash at a chosen file and byte); non-trivial when one of these fired; distinct by event log.",
            real: REAL,
            stub: STUB,
            assumptions: &["recordings hold at least one scan", "cells within the placement tolerance of a cell border may go either way"],
        },
        Prop {
            id: "C18",
            run: live::c18,
            quick: 1_500,
            thorough: 150_000,
            heap_mib: 1024,
            rule: "A case is one play of a short recording over dozens of passes (240 to 560 frames), the memory the program holds and its threads noted after every frame; non-trivial when a frame was drawn while an integration was under way; distinct by event log.",
            real: REAL,
            stub: STUB,
            assumptions: &["memory is judged between frames, after the background integration had 16 ms of simulated time"],
        },
        Prop {
            id: "C22",
            run: live::c22,
            quick: 4_000,
            thorough: 400_000,
            heap_mib: 1024,
            rule: "A case is one play of a short recording in which, from some frame on, the thread that integrates a scan is stopped at one of its allocations inside the library until 1 to 30 (now and then 200) further frames were drawn; non-trivial when that happened; distinct by event log.",
            real: REAL,
            stub: STUB,
            assumptions: &["an integration is recognised by the name integrate_point_cloud on the stack of the thread"],
        },
    ])
}

#[repr(C)]
struct Rlimit {
    cur: u64,
    max: u64,
}
extern "C" {
    fn setrlimit(resource: i32, r: *const Rlimit) -> i32;
}
