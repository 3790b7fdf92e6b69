#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json
HOOK_COMMITS = ["9d49d09"]
SC = "stateless exhaustive exploration of the real code: "
T = {
 "C01": (SC + "all operation sequences to a depth", "model_checking",
         "All sequences of a 17-operation alphabet to depth 3 (quick) in three storage modes, against a map model; values beyond 4 GiB (sparse) in fixed programs; trusts SQLite and the kernel."),
 "C02": (SC + "all thread interleavings to a preemption bound and all operation sequences to a depth", "model_checking",
         "2-3 threads, 1-2 preemptions quick, three storage modes; batch sequences to depth 3-5, value writers kept across others and past their batch; trusts SQLite and the kernel."),
 "C03": (SC + "all thread interleavings to a preemption bound and all operation sequences to a depth", "model_checking",
         "2-3 threads with 1-2 preemptions; sequences to depth 3-4; trusts SQLite and the kernel."),
 "C04": (SC + "all thread interleavings to a preemption bound and all operation sequences to a depth", "model_checking",
         "Programs that delete, reclaim and write at once; sequences to depth 3-4 over three layouts, kept value writers, offsets beyond 4 GiB; bytes read from the files."),
 "C05": (SC + "all thread interleavings to a preemption bound and all operation sequences to a depth", "model_checking",
         "Hole state of the real files after virtual-time quiescence; blocks shared by several dead values without a live right neighbour are excluded."),
 "C06": (SC + "all thread interleavings to a preemption bound and all operation sequences to a depth", "model_checking",
         "Model of least recent use with a virtual clock; ties within a millisecond excluded."),
 "C07": (SC + "all operation sequences to a depth", "model_checking",
         "Depth 3 over 19 operations in three storage modes with a virtual clock; one millisecond of SQLite rounding allowed."),
 "C08": (SC + "all operation sequences to a depth", "model_checking",
         "All pairs of prefix operations over 14 adversarial keys and depth 3 over mixed ones."),
 "C09": (SC + "all operation sequences to a depth", "model_checking",
         "Depth 3-4 over renames and batch renames of current, stale and missing values."),
 "C12": (SC + "all thread interleavings to a preemption bound and all operation sequences to a depth", "model_checking",
         "All pairs of operations over one and two handles in three modes, selected triples; linearizability decided by enumeration of orders."),
 "C13": (SC + "all thread interleavings to a preemption bound and all operation sequences to a depth", "model_checking",
         "All pairs of operations, snapshots, cleanup and closings over one and two handles, selected triples; deadlock detection by the controlled scheduler."),
 "C14": (SC + "all thread interleavings to a preemption bound and all operation sequences to a depth", "model_checking",
         "Writers of several handles with colliding random file names; extents checked against files at quiescence."),
 "C19": (SC + "all thread interleavings to a preemption bound and all operation sequences to a depth", "model_checking",
         "Depth 3-4 with leftovers of crashed processes; cleanups concurrent with snapshots."),
 "C22": (SC + "all thread interleavings to a preemption bound and all operation sequences to a depth", "model_checking",
         "Depth 3 over openings and closings, including concurrent closing and an older format version."),
 "C10": (SC + "all operation sequences to a depth, and a crash before every mutating system call and inside every write", "model_checking",
         "Process death only (the page cache survives); sequences of 1-2 operations, two concurrent writers, crashes during recovery; recovery runs the real code in a new process."),
 "C11": (SC + "all operation sequences to a depth, and a failure or short transfer at every system call", "model_checking",
         "One failure per execution (two in thorough); sources of writes that fail at every kind of position. A failed open for writing of the manifest also fails the immediate read-only retry of SQLite."),
 "C15": (SC + "all inputs of a small domain and all operation sequences to a depth", "model_checking",
         "Source sizes around block boundaries, hole layouts of three blocks, positions, ways of storing and outcomes of cloning; cloning is emulated by copying since no filesystem here supports it."),
 "C16": (SC + "all inputs of a small domain and all thread interleavings to a preemption bound", "model_checking",
         "All positions and sizes over values of up to 24 (quick) or 64 bytes, chosen ones around block boundaries and integer limits; two threads reading at once."),
 "C17": (SC + "all inputs of a small domain", "model_checking",
         "All allocation patterns of up to 8 (quick) or 10 blocks of tmpfs and all punched and checked ranges; chosen files of up to 1100 blocks."),
 "C18": ("explicit-state exploration of a lock model, every transition replayed against the real code and the kernel's locks", "model_checking",
         "Two (thorough: three) open files over four cells; large offsets pairwise; waiting requests under all schedules to a preemption bound."),
 "C20": (SC + "all store layouts of a small domain, and all thread interleavings to a preemption bound", "model_checking",
         "The real tool as a process on stores of two or three values of six sizes in four conditions, with five kinds of holders; its inspection commands; keys of any bytes; and its main function as a thread of the harness next to one or two others, 1-2 preemptions."),
 "C21": (SC + "all operation sequences to a depth, on a store driven through C and a native twin", "model_checking",
         "Depth 2-4 (quick) over the C functions, single operations, readers, writers, others' interference, damaged stores and one failing system call on both sides; values beyond 4 GiB (only their ends are compared); possum_single_stat aborts on damaged stores and is excluded there."),
 "C23": (SC + "all goroutine interleavings to a preemption bound, all failing calls and all operation sequences to a depth, over a model of the library that is compared with the real one", "model_checking",
         "Up to three goroutines, 1-2 preemptions between any two statements (thorough: 2-4), up to two failing calls; sequences to depth 2 (3) against the real library; stand-ins for the Go dependencies that are not installed and for sync and sync/atomic (sequentially consistent)."),
}
NA = {}
for i in range(1, 24):
    k = "C%02d" % i
    if k not in T:
        NA.setdefault(k, "check not built yet")
m = {
 "version": 1,
 "setup_cmd": "./build.sh && gomc/build.sh",
 "hooks": {"guard": "cfg(possum_mc)", "enable": "RUSTFLAGS='--cfg possum_mc' (set by build.sh)", "source_commits": HOOK_COMMITS},
 "checks": [{"property": k, "quick_cmd": "./check.sh " + k, "thorough_cmd": "VERIF_TIER=thorough ./check.sh " + k,
             "technique": v[0], "level": v[1], "level_note": v[2]} for k, v in sorted(T.items())],
 "not_applicable": [{"property": k, "reason": v} for k, v in sorted(NA.items())],
}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
