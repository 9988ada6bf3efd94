"""The checks: one entry per property."""
import os
import genmpt
import gentypes


def typed(tmp, seed, tier, r):
    d = os.path.join(tmp, "gen-%s" % r["name"])
    return gentypes.emit(d, seed if tier == "quick" else seed + 1000, r.get("types", 40), ntu=7) + ["typed_main.cpp"]


def mpt(tmp, seed, tier, r):
    return genmpt.emit(os.path.join(tmp, "gen-mpt"), seed if tier == "quick" else seed + 1000, 7, 5 if tier == "quick" else 14) + ["mpt_main.cpp"]


def typed_run(mode, **kw):
    d = {"name": "typed", "gen": typed, "san": "asan", "mode": mode, "repeat": 7, "repeat_thorough": 14, "flags": []}
    d.update(kw)
    return d


def codec_run(mode, **kw):
    d = {"name": "codecs", "src": ["codecs_main.cpp"], "san": "asan", "mode": mode, "repeat": 4, "repeat_thorough": 8}
    d.update(kw)
    return d


def flat_run(mode, **kw):
    d = {"name": "flat", "src": ["flat_main.cpp"], "san": "asan", "mode": mode, "repeat": 4, "repeat_thorough": 8}
    d.update(kw)
    return d


def graph_run(mode, **kw):
    d = {"name": "graph", "src": ["graph_main.cpp", "graph_classes.cpp"], "san": "asan", "mode": mode, "repeat": 2, "repeat_thorough": 8, "libs": ["-ldl"]}
    d.update(kw)
    return d


WRAP = ["-Wl," + ",".join("--wrap=" + f for f in "poll read write close pipe socket accept connect dup open bind listen fcntl setsockopt getsockopt getsockname getpeername shutdown _ZNSt15__exception_ptr13exception_ptr10_M_releaseEv __cxa_end_catch".split())]


def sched_runs(src, mode, asan=2, tsan=2, asan_thorough=6, tsan_thorough=6, **kw):
    """The same workload under both sanitizers, with delays and faults injected at the system calls."""
    runs = []
    for san, n, m in (("asan", asan, asan_thorough), ("tsan", tsan, tsan_thorough)):
        if n:
            d = {"name": os.path.splitext(src)[0], "src": [src, "faults.cpp"], "san": san, "mode": mode, "repeat": n, "repeat_thorough": m,
                 "shim": True, "libs": WRAP}
            d.update(kw)
            runs.append(d)
    return runs


TRUST = " Trusts gcc's sanitizers and the harness; says nothing about inputs, schedules and faults that were not driven."
CHECKS = {
    "S01": {"technique": "runtime monitoring: round trips of random values of generated types under ASan+UBSan, compared with an independent value model",
            "note": "Held on the sessions listed in the evidence (about 140 types x 4 output and 4 input stream kinds x both byte orders)." + TRUST,
            "rule": "a session of 1-6 values of different types encoded back to back and decoded again; distinct by bytes and types, "
                    "non-trivial if it has more than one byte",
            "parallel": 7, "runs": [typed_run("S01")]},
    "S02": {"technique": "runtime monitoring: emitted bytes compared with an independent reference encoder and golden vectors",
            "note": "Held on the values listed in the evidence." + TRUST,
            "rule": "one value of one type in one byte order, bytes compared with the reference encoder; distinct by bytes and type",
            "parallel": 7, "runs": [typed_run("S02"), graph_run("S02")]},
    "S03": {"technique": "runtime monitoring under ASan+UBSan: random object graphs, bytes compared with a reference encoder, decoded graphs with the originals, a ledger of live objects",
            "note": "Held on the graphs listed in the evidence (up to about 200 objects of 140 classes, one chain of dynamic bases per class). Objects of "
                    "different static types at one address are refused when decoded and not driven." + TRUST,
            "rule": "one session of 1-10 roots over a random graph, encoded and decoded; distinct by bytes, non-trivial with 2 or more objects",
            "parallel": 6, "runs": [graph_run("S03", repeat=4, repeat_thorough=12)]},
    "S04": {"technique": "ASan+UBSan runs of the decoder over mutated and random bytes, outcome compared with a reference decoder",
            "note": "Held on the byte strings listed in the evidence; allocations over 512 KiB are made to fail." + TRUST,
            "rule": "one byte string decoded as one type; distinct by bytes and type, non-trivial if not empty",
            "parallel": 7, "runs": [typed_run("S04"), graph_run("S04")]},
    "S05": {"technique": "runtime monitoring: structure hashes compared with an independent computation; verified decodes of all type pairs",
            "note": "Held on the types and pairs listed in the evidence." + TRUST,
            "rule": "one type's hash compared with the generator's, or one (written type, read type) pair in a verified decode",
            "parallel": 7, "runs": [typed_run("S05", repeat=1, repeat_thorough=2), graph_run("S05")]},
    "K01": {"technique": "runtime monitoring under ASan+UBSan: enumerated and random strings compared with a reference COBS codec",
            "note": "Every string over {0,1,2,255} up to length 6, block-edge shapes up to 1019 bytes, random strings; the reference is the paper's StuffData." + TRUST,
            "rule": "one string encoded and decoded back, or one string decoded; distinct by bytes, non-trivial if not empty",
            "parallel": 4, "runs": [codec_run("K01")]},
    "K02": {"technique": "runtime monitoring under ASan+UBSan: packets compared with a reference MAC, every kind of tampering tried",
            "note": "Held on the packets and tampered packets listed in the evidence (a 2^-64 chance of an accidental match is neglected)." + TRUST,
            "rule": "one packet encoded and decoded, or one tampered packet decoded; distinct by packet bytes and key",
            "parallel": 4, "runs": [codec_run("K02")]},
    "K03": {"technique": "runtime monitoring: recorded packet sequences over corrupted wires, checked frame by frame against what was sent",
            "note": "Held on the wires listed in the evidence, over 4 stream kinds and 3 size limits." + TRUST,
            "rule": "one wire carrying 1-8 packets with injected garbage, flips, cuts or truncation; distinct by wire bytes, non-trivial with 2 or more packets",
            "parallel": 4, "runs": [codec_run("K03")]},
    "K04": {"technique": "runtime monitoring under ASan+UBSan: hashes compared with an independent implementation and published vectors",
            "note": "Every length 0-200 under many keys and splits, and random lengths to 20000; messages in exact-size heap blocks." + TRUST,
            "rule": "one message under one key, hashed at once and in pieces; distinct by message and split, non-trivial if not empty",
            "parallel": 4, "runs": [codec_run("K04")]},
    "S06": {"technique": "runtime monitoring: random operation sequences on every stream kind against a byte-string model, with failing devices injected",
            "note": "Held on the sequences listed in the evidence." + TRUST,
            "rule": "one sequence of reads or writes on one stream, or one failing device; distinct by data and operations, non-trivial with 2 or more bytes",
            "parallel": 4, "runs": [codec_run("S06")]},
    "F01": {"technique": "runtime monitoring under ASan+UBSan: random operation sequences in lockstep with std::set and std::map",
            "note": "Held on the operation sequences listed in the evidence." + TRUST,
            "rule": "one operation on a container whose state and return value were compared; distinct by state and operation",
            "parallel": 4, "runs": [flat_run("F01")]},
    "F02": {"technique": "runtime monitoring under ASan+UBSan: random operation sequences in lockstep with std::multiset and std::multimap",
            "note": "Held on the operation sequences listed in the evidence." + TRUST,
            "rule": "one operation on a container whose state and return value were compared; distinct by state and operation",
            "parallel": 4, "runs": [flat_run("F02")]},
    "F03": {"technique": "runtime monitoring: a ledger of live elements, comparator tags and injected throws at every step of every operation, under ASan+UBSan",
            "note": "Held on the operations and injected throws listed in the evidence." + TRUST,
            "rule": "one value operation, or one operation with a throw at one step; distinct by contents and operation",
            "parallel": 4, "runs": [flat_run("F03")]},
    "S07": {"technique": "runtime monitoring under ASan+UBSan: random histories of result holders against a model, every error class sent and rethrown",
            "note": "Held on the histories listed in the evidence: 7 value types, 18 registered error classes, foreign and unknown ones." + TRUST,
            "rule": "one result sent to another place (or one class looked up in a registry); distinct by bytes and type, non-trivial if not empty",
            "parallel": 4, "runs": [{"name": "results", "src": ["results_main.cpp"], "san": "asan", "mode": "S07", "repeat": 4, "repeat_thorough": 8}]},
    "M01": {"technique": "runtime monitoring under ASan+UBSan: generated programs, results compared with those the generator computed on lists",
            "note": "Held on the generated sequences listed in the evidence; a generated program that does not compile counts as a violation." + TRUST,
            "rule": "one operation on one sequence whose result was compared; distinct by operation and expected result, non-trivial if that is not empty",
            "parallel": 1, "build_violation": "M01:does-not-compile",
            "runs": [{"name": "mpt", "gen": mpt, "san": "asan", "mode": "M01", "repeat": 1, "repeat_thorough": 4, "flags": ["-O0"]}]},
    "A01": {"technique": "runtime monitoring under ASan+UBSan and TSan: recorded histories checked for linearizability against a boolean register, delays injected",
            "note": "Held on the histories listed in the evidence." + TRUST,
            "rule": "one recorded history of one flag under 2-5 threads; distinct by the order of its starts and ends, non-trivial with 5 or more operations",
            "parallel": 4, "runs": sched_runs("sync_main.cpp", "A01")},
    "A02": {"technique": "runtime monitoring under ASan+UBSan and TSan: occupancy counter and unsynchronised data inside the lock, recorded histories checked for linearizability",
            "note": "Held on the histories listed in the evidence." + TRUST,
            "rule": "one round of 2-5 threads on one mutex; distinct by the order of starts and ends, non-trivial with 4 or more operations",
            "parallel": 4, "runs": sched_runs("sync_main.cpp", "A02")},
    "A03": {"technique": "runtime monitoring under ASan+UBSan and TSan: put/get histories with unique items checked for conservation, order, bounds and linearizability",
            "note": "Held on the histories listed in the evidence." + TRUST,
            "rule": "one round of 2-5 threads on one queue or semaphore; distinct by the order of starts and ends, non-trivial with 5 or more operations",
            "parallel": 4, "runs": sched_runs("sync_main.cpp", "A03")},
    "A04": {"technique": "runtime monitoring under ASan+UBSan and TSan: random promise and future histories against a model, raced pairs, a ledger of live values",
            "note": "Held on the histories listed in the evidence (4 value types and void, chains of up to a dozen transformations)." + TRUST,
            "rule": "one history of three promises and futures, or one raced pair; distinct by operations, non-trivial if an outcome was given",
            "parallel": 4, "runs": sched_runs("ev_main.cpp", "A04")},
    "A05": {"technique": "runtime monitoring under ASan+UBSan and TSan: selects over prepared inputs against a readiness model, reaction logs, conservation of live events",
            "note": "Held on the selects listed in the evidence; elapsed times are only checked from below." + TRUST,
            "rule": "one select over 1-10 inputs; distinct by inputs, reactions, calls and slots set, non-trivial with 2 or more inputs",
            "parallel": 4, "runs": sched_runs("ev_main.cpp", "A05")},
    "A06": {"technique": "runtime monitoring under ASan+UBSan and TSan: random context trees against a model, cancellation raced with creation, waits in every kind of context",
            "note": "Held on the trees and races listed in the evidence; elapsed times are only checked from below." + TRUST,
            "rule": "one history of up to 30 contexts, one pair of threads, one race or one wait; distinct by operations, non-trivial with 2 or more contexts",
            "parallel": 4, "runs": sched_runs("ctx_main.cpp", "A06")},
    "A07": {"technique": "runtime monitoring under ASan+UBSan and TSan: run counters per task, concurrency gauge, order log, ledger of tasks, pools ended with work in flight",
            "note": "Held on the pools listed in the evidence (1-5 workers, 1-4 submitters)." + TRUST,
            "rule": "one pool and its tasks; distinct by sizes, behaviour and seed, non-trivial with a task",
            "parallel": 4, "runs": sched_runs("pool_main.cpp", "A07")},
    "A08": {"technique": "runtime monitoring under ASan+UBSan and TSan: a ledger of descriptors at the system calls against an ownership model, streams compared end to end, faults injected",
            "note": "Held on the histories listed in the evidence (pipes, TCP over loopback, files in a scratch directory)." + TRUST,
            "rule": "one history of channels, one stream, one option sequence, one file sequence or one failure history; distinct by operations",
            "parallel": 4, "runs": sched_runs("chan_main.cpp", "A08")},
    "A10": {"technique": "runtime monitoring under ASan+UBSan and TSan: resolved, printed and reported addresses compared with the system's own, dial attempts recorded, faults injected",
            "note": "Held on numeric endpoints, localhost and services of /etc/services over loopback; names that need DNS are not driven." + TRUST,
            "rule": "one endpoint resolved, one history of address values, one dial, one listener or one round of sockets; distinct by inputs",
            "parallel": 4, "runs": sched_runs("chan_main.cpp", "A10")},
    "A09": {"technique": "runtime monitoring under ASan+UBSan and TSan: connections torn down under traffic, streams of tagged words checked per connection, descriptors watched at the system calls",
            "note": "Held on the histories listed in the evidence (TCP over loopback and socket pairs; waits for data on connections that are not sockets are not driven)." + TRUST,
            "rule": "one history of a usage lock or a connection under 3-8 threads; distinct by seed and what was transferred, non-trivial if something was",
            "parallel": 4, "runs": sched_runs("conn_main.cpp", "A09")},
    "R01": {"technique": "runtime monitoring under ASan+UBSan and TSan: concurrent calls in every style against planned answers, a run counter per call on the server, ledgers of objects and descriptors",
            "note": "Held on the calls listed in the evidence (TCP over loopback, three protocols, a diamond of interfaces; no faults: those are R04's)." + TRUST,
            "rule": "one round of clients and threads calling a server; distinct by its seed and shape, non-trivial with 10 or more calls",
            "parallel": 4, "runs": sched_runs("rpc_r01.cpp", "R01")},
    "R02": {"technique": "runtime monitoring under ASan+UBSan and TSan: hostile peers on raw sockets and misdirected calls beside good clients whose every call is checked; registration changes bracketed by probes",
            "note": "Held on the rounds listed in the evidence (14 kinds of hostile peers; fewer of them than the server has workers, since a stalled peer takes one)." + TRUST,
            "rule": "one round of good clients, misdirected clients and hostile peers on one server; distinct by its seed and shape",
            "parallel": 4, "runs": sched_runs("rpc_r02.cpp", "R02", env={"ASAN_OPTIONS_EXTRA": "max_allocation_size_mb=256:allocator_may_return_null=0:hard_rss_limit_mb=6000"})},
}
