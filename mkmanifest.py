#!/usr/bin/env python3
# Writes MANIFEST.json (run by hand after changing the list of checks).
import json, os
os.chdir(os.path.dirname(os.path.abspath(__file__)))
T = "deterministic simulation with fault injection: "
N = {
"C01": ("seeded simulation of the byte source and file system (short reads, EINTR, I/O errors, torn files) against a record-by-record oracle", "Seeded search over contents, read partitions and faults; real reader and std::fs run above intercepted system calls. Trusts the oracle's decoding of the bytes it generated."),
"C02": ("seeded simulation of the byte source and file system against an independent double-precision oracle", "Seeded search over records, damage and faults. Trusts the oracle's rotation and displacement formulas (1% tolerance)."),
"C03": ("seeded simulation of the disk (listing order, failing or interrupted calls, torn files) against an all-or-nothing oracle", "Seeded search over directories and fault placement. Trusts the interposition of libc calls to be what std::fs uses."),
"C04": ("seeded simulation of several clients on one map over a faulty link, cell-by-cell refinement of a dense reference model", "Seeded search over histories and configurations; every cell compared after every growth."),
"C05": ("seeded simulation of growth histories with round-trip and coverage invariants checked after each step", "Seeded search; every cell centre and sampled points of every requested region, biased to borders."),
"C06": ("fault injection at element copies, allocations, map accesses; state compared with the state before", "Seeded search over fault points in simulated histories. Allocator aborts (null from malloc) leave no state to judge."),
"C07": ("seeded simulation of scan histories over a faulty sensor link, refinement of a double-precision evidence model", "Seeded search; every cell compared after every scan; cells grazed within rounding may go either way."),
"C08": ("seeded simulation of adversarial scans with a work budget and access monitor", "Seeded search; liveness as a bound on accesses and memory per operation, growth and containment as invariants."),
"C09": ("seeded permutation, duplication, hash seeds, threads and snapshot replay; differential comparison of whole maps", "Seeded search; both executions run the real code."),
"C10": ("seeded simulation of a mirroring client with tracking switches, polls and growths", "Seeded search; the mirror must agree with the map after every poll."),
"C11": ("seeded scheduling of the visualizer's real threads on a simulated std, frames checked against a sequential reference", "Seeded search over interleavings, stalls and stale relaxed loads; kiss3d is a stub. Store reordering of relaxed atomics is not modelled."),
"C12": ("seeded scheduling of the visualizer's real threads; deadlock, panic and bounded-progress checks under fair scheduling", "Seeded search over interleavings and stalls; liveness bounded in frames."),
"C13": ("end-to-end seeded simulation of the visualizer on a faulty disk, refuse-or-show-everything oracle", "Seeded search over recordings, disk faults and schedules; kiss3d is a stub; placement checked to within a cell."),
"C17": ("seeded simulation of the disk with an open-file limit and failing calls at any point, invariants over open handles and writes", "Seeded search over directories, faults and sequences of reads. Trusts the interposition of libc calls to be what std::fs uses."),
"C18": ("seeded scheduling of the visualizer's real threads over many passes, memory and live threads compared across frames", "Seeded search over interleavings, stalls and pauses; up to some hundred frames per run; kiss3d is a stub. Growth of less than 16 KiB over a run is not seen."),
"C19": ("seeded simulation of long map histories with failing and cut-short operations, memory charged to the map against its extent", "Seeded search; every allocation made while the map works is counted. Bounded by 40 bytes per cell plus 24 KiB."),
"C20": ("seeded simulation of the byte source and file system with the reader's memory measured at every allocation", "Seeded search over recordings, read partitions and faults. Memory that does not go through the global allocator (mapped files) is not seen."),
"C21": ("seeded scheduling of real threads at allocations, reads, system calls and lock waits; results compared with those of the jobs alone", "Seeded search over interleavings; there is no scheduling point between two accesses to shared memory that neither allocate, read, call the system nor wait."),
"C22": ("seeded scheduling of the visualizer's real threads, the integrating thread held up at a random allocation inside an integration while frames must go on", "Seeded search over interleavings and places of the hold; kiss3d is a stub. An integration is recognised by the library function integrate_point_cloud on the call stack."),
}
have = [k for k in N if k not in ("C11", "C12", "C13", "C18", "C22") or os.path.isdir("vizsim")]
m = {"version": 1, "setup_cmd": "bash ./check.sh --build", "checks": [], "not_applicable": [
 {"property": "C14", "reason": "pure functions of two boxes: no schedule, time, I/O, fault or history for a simulator to vary"},
 {"property": "C15", "reason": "pure scalar functions: no schedule, time, I/O, fault or history for a simulator to vary"},
 {"property": "C16", "reason": "pure functions not used by any stateful part: no schedule, time, I/O, fault or history for a simulator to vary"}]}
for k in N:
    if k in have:
        m["checks"].append({"property": k, "quick_cmd": f"bash ./check.sh {k} quick", "thorough_cmd": f"bash ./check.sh {k} thorough",
          "technique": T + N[k][0], "level": "exploration", "level_note": N[k][1]})
    else:
        m["not_applicable"].append({"property": k, "reason": "check not built yet"})
json.dump(m, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
