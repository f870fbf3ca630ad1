#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = ("TLA+ contract and design model (TLC); histories of the real code under a systematic scheduler replayed into the "
        "contract by TLC")
NOTES = {
    "C01": "Contract Handoff.tla, design model HandoffImpl.tla (exhaustive). All schedules up to 4 (quick) / 8 (thorough) preemptions of one producer and one consumer, 6 producer x 19 consumer kinds x 3 value types; sequentially consistent interleavings plus a vector-clock race check from the real memory orders.",
    "C06": "Contract SharedFuture.tla, design model SharedFutureImpl.tla (exhaustive: reference thresholds, callback list). 8 kinds of fulfilment x 27 observer operations, 1-3 observer threads, bounded preemptions, vector-clock race check.",
    "C07": "Contract Strand.tla, design model StrandImpl.tla (exhaustive). 1-3 submitters x executor behaviours incl. refusal, bounded preemptions.",
    "C08": "Contract Pool.tla, design model PoolImpl.tla (exhaustive). Workers x submitters x Stop/SoftStop/HardStop/Wait, bounded preemptions and spurious wake-ups.",
    "C09": "Contract When.tla, design model WhenImpl.tla (exhaustive, 7 combinator policies x 2-3 inputs). WhenAll/Join of every policy and form x input outcomes x 1-3 producers, bounded preemptions, vector-clock race check, leak check.",
    "C10": "Contract When.tla, design model WhenImpl.tla (exhaustive). WhenAny of every policy and form x input outcomes x 1-3 producers, bounded preemptions, vector-clock race check, leak check.",
    "C16": "Contract WaitGroup.tla, design model WaitGroupImpl.tla (exhaustive). WaitGroup and OneShotEvent: Add/Done/Set/Attach/Consume x every waiting form, bounded preemptions.",
    "C11": "Contract Wait.tla, design model WaitImpl.tla (exhaustive: 1-3 futures, timed and untimed). Wait/WaitFor/WaitUntil x variadic/iterator forms x unique/shared/mixed x 1-3 futures x producers, timeouts at any scheduling point, bounded preemptions; dead-stack and vector-clock race detection.",
    "C13": "Contract Coro.tla, design model CoroImpl.tla (exhaustive: 1-3 awaited futures x inline/sticky/on x refusal). Coroutine programs of 1-3 co_await steps over 48 awaiting forms x 3 return types x plans of completion x outcomes x refusing executors, two coroutines on one SharedFuture; builds with and without symmetric transfer; bounded preemptions, race, frame and leak checks.",
    "C14": "Contract Mutex.tla, design model MutexImpl.tla (exhaustive). Pairs of coroutine programs over all lock/unlock forms and mutex options, bounded preemptions.",
    "C15": "Contract SharedMutex.tla, design model SharedMutexImpl.tla (exhaustive). 2-5 coroutines on 1-3 workers, bounded preemptions.",
}
NOTES["C17"] = "Determinism.tla (self-composition of runs with one label), design model DeterminismImpl.tla (exhaustive, all random sequences). Programs x seeds x fault configurations run 6-9 times in different processes and positions, restored from recorded pairs, with the heap in disorder; every draw, resumed fiber, client event and counter compared. Known finding: reuse of a freed address (ABA) in lock-free lists makes a run depend on the allocator."
NOTES["C19"] = "Atomic.tla (limbs, IEEE 754 addition computed in TLA+), design model AtomicImpl.tla (exhaustive on 3-bit integers, all 6-bit float sums against exact arithmetic). 20 types + atomic_flag x every operation x boundary operands and random sequences of 8 operations, plain and volatile, FIBER and THREAD backends; std::atomic itself is validated first."
NOTES["C18"] = "Sync.tla (std contract of locks, condition variables, threads, thread-local pointers; virtual deadlines), design model SyncImpl.tla (shared_timed_mutex, mutex and condition variable of the FIBER backend, exhaustive for 2-3 fibers). ~1600 client programs of 2-4 fibers on the real FIBER backend under an explorer which owns every random draw and yield: all schedules with up to 2 deviations plus random ones."
_P = "Contract Pipeline.tla (an interpreter of pipelines written in TLA+), design model PipelineImpl.tla (cores, callback words, executors, flattening; %d programs, all interleavings). "
NOTES["C02"] = _P % 3150 + "Programs generated over sources x steps x signatures x returned futures and Tasks: single steps (of 75030, one in 4 / in 9 in a quick run, all in a thorough one) and random chains of up to 4 steps with nested pipelines, for Result<Val, StopError>, <void, StopError>, <Val, own error>; fulfilment before, during and after building."
NOTES["C05"] = _P % 3150 + "Executors are checked: every callback in the executor it was told, every position from which (at which) an executor refuses, stopped Inline, Strand, FairThreadPool stopped concurrently. Jobs.tla: raw jobs on Inline, Manual, Strand and FairThreadPool under Stop / SoftStop / HardStop, 1-2 submitters: Call xor Drop, Drop only by a refusing or stopped executor."
NOTES["C12"] = "Contract Pipeline.tla with the start events of Tasks, design model PipelineImpl.tla in lazy mode (8505 programs). Tasks with every kind of head x every step x every way to start (ToFuture, ToFuture(e), Get, Detach, Detach(e), returned from a callback, co_await, Await) or to abandon them, random chains of up to 5 steps; releases checked at the end."
NOTES["C20"] = "Contract Alloc.tla, design invariant OneBlock of PipelineImpl.tla. Heap blocks counted in every call of the API which builds pipelines (the programs of C02), in combinators over 1..129 inputs (iterators) and 1..12 (variadic) of every policy, type, content and order, in Wait*/Get/co_await over 1..64 futures, in Strand submission."
NOTES["C03"] = "Contract Lifecycle.tla (life of every heap block and instrumented object), design invariants of PipelineImpl, SharedFutureImpl, HandoffImpl (no use after release, nothing left). The programs of C01, C02, C05-C16 and C20, sampled: bounded preemptions, ~3 million executions in a quick run; the runtime monitors every one of them, each new life trace that looks wrong and a sample of the others go through the contract."
NOTES["C04"] = "Contract MemModel.tla (happens-before of the C++ memory model from the orders the code really passes), design model OrdersImpl.tla (callback word, counter, Strand, Mutex; every weakened order is refuted). The programs of C01, C02, C05-C16, C20, and dedicated client programs in which one synchronising edge of the library is all that orders the client's plain data; sequentially consistent interleavings with bounded preemptions, every execution monitored for races."
for _p in ("C01", "C02", "C06", "C09", "C10", "C13"):
    NOTES[_p] += " Contract Graph.tla: random DAGs of 3-7 operations (contracts, steps, unwrapping, Share/Split, combinators, coroutines, Connect)."
NA = {}


def main():
    checks = []
    for p in sorted(NOTES):
        checks.append({"property": p, "quick_cmd": "python3 tools/check.py " + p,
                       "thorough_cmd": "VERIF_TIER=thorough python3 tools/check.py " + p, "technique": TECH,
                       "level": "model_checking", "level_note": NOTES[p]})
    m = {"version": 1, "setup_cmd": "bash tools/setup.sh", "checks": checks,
         "not_applicable": [{"property": k, "reason": v} for k, v in sorted(NA.items())]}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
