mod apart;
mod api;
mod faulty;
mod integ;
mod mapsim;
mod model;
mod readers;
use simcore::driver::{self, Prop};

#[global_allocator]
static ALLOC: simcore::alloc::Budget = simcore::alloc::Budget;

const READ_STUB: &[&str] = &[
    "byte source / file system: simulated (system calls intercepted, scratch files on the real disk)",
];

const MAP_REAL: &[&str] = &[
    "kuba::map (GridMapN, OccupancyGridMapN, LidarNoiseModel), kuba::ray_caster, kuba::geom",
    "ndarray, nalgebra, std::collections with simulated hash seeds",
];
const MAP_STUB: &[&str] = &["clients of the map and the link between them: simulated"];

fn main() {
    limit_fds();
    driver::main(&[
        Prop {
            id: "C01",
            run: readers::c01,
            quick: 300_000,
            thorough: 5_000_000,
            heap_mib: 512,
            rule: "A case is one decode of a generated scan (0 to 200 000 records, any bit patterns) through a simulated stream or file; non-trivial when at least one fault fired (short read, interruption, error, torn record); distinct by event log.",
            real: &["kuba::kitti::point_cloud_reader", "kuba::geom::PointCloud", "std::io, std::fs, byteorder, nalgebra"],
            stub: READ_STUB,
            assumptions: &["KITTI scans are stored in the machine's byte order"],
        },
        Prop {
            id: "C02",
            run: readers::c02,
            quick: 400_000,
            thorough: 6_000_000,
            heap_mib: 512,
            rule: "A case is one decode of a generated OXTS record (intact, cut short, malformed, not UTF-8) through a simulated stream or file; non-trivial when at least one fault fired; distinct by event log.",
            real: &["kuba::kitti::oxt_reader", "std::io, std::fs, nalgebra"],
            stub: READ_STUB,
            assumptions: &[
                "records are single-space separated as KITTI writes them",
                "a record cut inside its sixth field is indistinguishable from an intact one and is not generated",
            ],
        },
        Prop {
            id: "C03",
            run: readers::c03,
            quick: 150_000,
            thorough: 1_000_000,
            heap_mib: 512,
            rule: "A case is one directory (0 to 1200 generated files) read under a simulated disk (listing order, interruptions, short reads, one hard error at a chosen call, torn file); non-trivial when at least one of these fired; distinct by event log.",
            real: &["kuba::kitti::fs", "kuba::kitti::oxt_reader", "kuba::kitti::point_cloud_reader", "std::fs"],
            stub: READ_STUB,
            assumptions: &["directories hold files (or links to files)"],
        },
        Prop {
            id: "C17",
            run: readers::c17,
            quick: 60_000,
            thorough: 1_500_000,
            heap_mib: 512,
            rule: "A case is one directory (0 to 400 generated files, some damaged or linked) read up to three times, whole or one file, on a simulated disk that allows 16 open files and directories and fails at a chosen call; non-trivial when a fault fired; distinct by event log.",
            real: &["kuba::kitti::fs", "kuba::kitti::oxt_reader", "kuba::kitti::point_cloud_reader", "std::fs"],
            stub: READ_STUB,
            assumptions: &["files are read on the calling thread"],
        },
        Prop {
            id: "C20",
            run: readers::c20,
            quick: 8_000,
            thorough: 300_000,
            heap_mib: 512,
            rule: "A case is one recording of 1 to 400 files (up to a few megabytes), or one scan or pose through a stream, read on a simulated disk with interruptions, short reads and failing calls, the reader's memory measured throughout; non-trivial when a fault fired or several files were read; distinct by event log.",
            real: &["kuba::kitti::fs", "kuba::kitti::oxt_reader", "kuba::kitti::point_cloud_reader", "std::fs"],
            stub: READ_STUB,
            assumptions: &["memory is what the reader allocated, as counted by the process's allocator"],
        },
        Prop {
            id: "C21",
            run: apart::c21,
            quick: 12_000,
            thorough: 600_000,
            heap_mib: 768,
            rule: "A case is two to four threads, each with one to three jobs (reading a directory, file or stream, or a history of a map, some of them failing), interleaved at allocations, reads and system calls, every result compared with the one the job gives alone; non-trivial when all results were compared; distinct by event log.",
            real: &["kuba (readers, maps, ray caster, noise model)", "std (locks wait under the scheduler)"],
            stub: READ_STUB,
            assumptions: &["threads switch at allocations, releases, reads, system calls and lock waits; not between single instructions"],
        },
        Prop {
            id: "C04",
            run: mapsim::c04,
            quick: 60_000,
            thorough: 3000_000,
            heap_mib: 768,
            rule: "A case is one history of several clients (growths, writes, reads, snapshots over a link that reorders, repeats and loses requests) on a 2-D or 3-D map; non-trivial when a growth changed the map or a link fault fired; distinct by event log.",
            real: MAP_REAL,
            stub: MAP_STUB,
            assumptions: &["coordinates within single-precision accuracy of the resolution"],
        },
        Prop {
            id: "C05",
            run: mapsim::c05,
            quick: 150_000,
            thorough: 5000_000,
            heap_mib: 768,
            rule: "A case is one history of growths, writes and snapshots with every cell centre and points of every requested region resolved after each growth; non-trivial when a growth changed the map; distinct by event log.",
            real: MAP_REAL,
            stub: MAP_STUB,
            assumptions: &["coordinates within single-precision accuracy of the resolution"],
        },
        Prop {
            id: "C06",
            run: mapsim::c06,
            quick: 60_000,
            thorough: 3000_000,
            heap_mib: 768,
            rule: "A case is one history in which element copies fail mid-growth, growths cannot be allocated, accesses outside the map are attempted, or integrations are cut short at a chosen access; non-trivial when at least one of these fired; distinct by event log.",
            real: MAP_REAL,
            stub: MAP_STUB,
            assumptions: &["a request whose byte size overflows stands for every size that cannot be allocated (an allocator that returns null aborts the process, no state is left to judge)"],
        },
        Prop {
            id: "C07",
            run: integ::c07,
            quick: 60_000,
            thorough: 3000_000,
            heap_mib: 768,
            rule: "A case is one history of scans (reordered, repeated, lost), edits, growths and rollbacks on one map, each integration compared cell by cell with a double-precision reference; non-trivial when a scan with several returns was integrated or a fault fired; distinct by event log.",
            real: MAP_REAL,
            stub: MAP_STUB,
            assumptions: &["cells a ray only grazes within rounding (a few thousandths of a cell) may go either way"],
        },
        Prop {
            id: "C08",
            run: integ::c08,
            quick: 500_000,
            thorough: 20000_000,
            heap_mib: 768,
            rule: "A case is one history of adversarial scans on one map (sensor outside, on borders and corners, coincident returns) or a batch of single rays; non-trivial when something was integrated; distinct by event log.",
            real: MAP_REAL,
            stub: MAP_STUB,
            assumptions: &["maps of up to 250 000 cells (2-D) or 60 000 cells (3-D); single rays of up to 60 000 cells per axis"],
        },
        Prop {
            id: "C09",
            run: integ::c09,
            quick: 100_000,
            thorough: 5000_000,
            heap_mib: 768,
            rule: "A case is one history executed twice: points permuted and repeated, other threads and hash seeds, and rebuilt from snapshots; non-trivial when points were permuted or a rebuild happened; distinct by event log.",
            real: MAP_REAL,
            stub: MAP_STUB,
            assumptions: &[],
        },
        Prop {
            id: "C10",
            run: integ::c10,
            quick: 80_000,
            thorough: 4000_000,
            heap_mib: 768,
            rule: "A case is one history of scans, growths, polls of a mirroring client and tracking switches; non-trivial when a scan was integrated; distinct by event log.",
            real: MAP_REAL,
            stub: MAP_STUB,
            assumptions: &["an update that leaves a saturated cell at its value may be listed or not"],
        },
        Prop {
            id: "C19",
            run: integ::c19,
            quick: 12_000,
            thorough: 1_500_000,
            heap_mib: 768,
            rule: "A case is one long history (up to 700 operations: scans, some cut short, growths, some impossible, refused accesses, snapshots, roll-backs, tracking switches) of one small map with the memory it holds measured throughout; non-trivial when several scans were integrated; distinct by event log.",
            real: MAP_REAL,
            stub: MAP_STUB,
            assumptions: &["memory is what the map's operations allocated and did not free, as counted by the process's allocator"],
        },
    ])
}

#[repr(C)]
struct Rlimit {
    cur: u64,
    max: u64,
}
extern "C" {
    fn setrlimit(resource: i32, r: *const Rlimit) -> i32;
}

/// Few descriptors: a leak of one per file shows up within one directory.
fn limit_fds() {
    unsafe {
        setrlimit(7, &Rlimit { cur: 128, max: 128 });
    }
}
