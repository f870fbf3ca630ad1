#!/usr/bin/env python3
"""check.py <property id>: the check of one property (see DESIGN.md)."""
import itertools
import os
import sys
import zlib

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B  # noqa: E402
import framework as FW  # noqa: E402


def prod(name, *dims):
    return [name + " " + " ".join(map(str, x)) for x in itertools.product(*dims)]


def mix(*xs):
    """A deterministic hash, for sampling."""
    return zlib.crc32(" ".join(map(str, xs)).encode())


# ---- graphs of asynchronous operations over one another's results
DAG_VARIANTS = {1: 8, 2: 3, 3: 1, 4: 2, 5: 6, 6: 2, 7: 3, 8: 2, 9: 1, 10: 3}


def dag_job(r, n, want, own=""):
    """A program of harness/dag.cpp: n nodes, at about half of the places an operation of want."""
    nodes, kind = [], {}  # kind: results which can be used, "U" once or "S" any number of times
    sources = r.choice([1, 2, 2, 3])
    for k in range(1, n + 1):
        if k <= sources or not kind or (k < n - 1 and r.random() < .15):
            v = r.choice([0, 0, 1])
            kind[k] = "S" if v else "U"
            nodes.append((0, v, r.choice([0, 1, 1, 2, 2]), r.choice([0, 0, 1, 2, 3, 4, 4, 4] if own else [0, 0, 0, 1, 2, 3])))
            continue
        op = r.choice(want) if r.random() < .5 else r.choice([1, 1, 2, 3, 4, 5, 6, 7, 7, 8, 9, 10])
        a = r.choice(sorted(kind))
        b = 0
        if op in (2, 4, 5, 6, 7, 9):
            others = [x for x in sorted(kind) if x != a or kind[a] == "S"]
            if others:
                b = r.choice(others)
            else:
                op = 1
        v = r.randrange(DAG_VARIANTS[op])
        out = "U"
        if op == 3:
            out = "U" if kind[a] == "S" else "S"
        elif op == 8:
            out = "S" if v else "U"
        for x in (a, b):
            if kind.get(x) == "U":
                del kind[x]
        if op in (1, 10):
            b = r.choice([0, 0, 1, 2])
        kind[k] = out
        nodes.append((op, v, b, a))
    return "dag%s %d " % (own, r.randrange(2)) + " ".join(str(o * 100000 + v * 10000 + b * 100 + a) for o, v, b, a in nodes)


def graph(ck, want, count):
    import random
    r = random.Random("%d %s" % (ck.seed, want))
    t = ck.thorough
    exe = B.build_rt("dag", ["dag.cpp", ("dag.cpp", ["-DDAG_E=1"])], flags="CORO")
    jobs = [dag_job(r, r.choice([3, 4, 5, 6, 7]), want, r.choice(["", "", "err"])) for _ in range(count * 20 if t else count)]
    tr, _, exe, opts = ck.explore(exe, jobs, bound=3 if t else 2, max_exec=3000 if t else 200, rand=300 if t else 30, sec=60,
                                  tag="graph")
    ck.validate(tr, "Graph", exe, opts, workers=8)


def c01(ck):
    ck.design("HandoffImpl", "HandoffImpl")
    exe = B.build_rt("handoff", ["handoff.cpp"])
    jobs = prod("handoff", range(6), range(19), range(3), range(2))
    b = 8 if ck.thorough else 4
    tr, _, exe, opts = ck.explore(exe, jobs, bound=b, max_exec=300000, rand=2000 if ck.thorough else 50, sec=60)
    ck.validate(tr, "Handoff", exe, opts)
    graph(ck, [1, 8], 800)


def c07(ck):
    ck.design("StrandImpl", "StrandImpl")
    ck.design("StrandImpl", "StrandImpl3")
    exe = B.build_rt("strand", ["strand.cpp"])
    jobs = prod("strand", [0, 1], range(5), range(2), [0, 1, 2, 4, 6, 255])
    jobs += prod("strand", [2, 3, 4, 5, 6], range(5), range(2), [0])
    b = 3 if ck.thorough else 2
    tr, _, exe, opts = ck.explore(exe, jobs, bound=b, max_exec=200000 if ck.thorough else 6000,
                                  rand=5000 if ck.thorough else 300, sec=60)
    ck.validate(tr, "Strand", exe, opts)


def c08(ck):
    for k in range(3):
        ck.design("PoolImpl", "PoolImpl%d" % k)
    exe = B.build_rt("pool", ["pool.cpp"])
    jobs = prod("pool", [1, 2], range(6), range(3), range(4)) + prod("pool", [2, 3], [6, 7, 8], range(3), range(3))
    tr, _, exe, opts = ck.explore(exe, jobs, bound=4 if ck.thorough else 3, max_exec=200000 if ck.thorough else 5000,
                                  rand=5000 if ck.thorough else 300, sec=60, opts=["--spurious"])
    ck.validate(tr, "Pool", exe, opts)


def c14(ck):
    for o in ("00", "01", "10", "11"):
        for v in ("ab" if ck.thorough else "a" if o in ("01", "10") else "b"):
            ck.design("MutexImpl", "MutexImpl" + o + v)
    if ck.thorough:
        ck.design("MutexImpl", "MutexImplT")
    exe = B.build_rt("mutex", ["mutex.cpp"])
    rep = [0, 1, 2, 7, 10]
    if ck.thorough:
        jobs = prod("mutex", range(4), range(23), range(23), range(6), [0, 1])
    else:
        jobs = prod("mutex", range(4), range(23), rep, [0, 2], [1])
        jobs += prod("mutex", range(4), rep, [0, 1, 8], [3, 4], [1])
        jobs += prod("mutex", range(4), [10, 11, 12, 13], rep, [0, 1], [0, 3])
    tr, _, exe, opts = ck.explore(exe, jobs, bound=3 if ck.thorough else 2, max_exec=20000 if ck.thorough else 1200,
                                  rand=1000 if ck.thorough else 150, sec=60)
    ck.validate(tr, "Mutex", exe, opts)


def c15(ck):
    for f in "TF":
        for v in ("abcTU" if ck.thorough else "abc"):
            ck.design("SharedMutexImpl", "SharedMutexImpl" + f + v, heap="6g" if v in "TU" else "3g")
    exe = B.build_rt("sharedmutex", ["sharedmutex.cpp"])
    t = ck.thorough
    w, r = ([0, 1, 2, 3, 4], [5, 6, 7, 8, 9]) if t else ([0, 1, 4], [5, 6, 8])
    n = "sharedmutex"
    # two workers: pairs and triples; one worker: 3 and 4 coroutines which suspend inside
    jobs = prod(n, range(4), [2], [2], [1, 2], [3], range(10), range(10))
    jobs += prod(n, range(4), [3], [2], [1], [3], [0, 5, 3, 8], [0, 5, 2, 9], [0, 5] if not t else w + r)
    jobs += prod(n, range(4), [3], [1], [1, 2], [3], w, r, w + r)
    jobs += prod(n, range(4), [3], [1], [1, 2], [3], r, w, w + r)
    jobs += prod(n, range(4), [4], [1], [1], [3], [0, 5], [0, 5], [0, 5], [0, 5])
    tr, _, exe, opts = ck.explore(exe, jobs, bound=3 if t else 2, max_exec=20000 if t else 600,
                                  rand=2000 if t else 200, sec=60)
    # more coroutines, sampled
    jobs = prod(n, range(4), [4], [2], [1], [3], [0, 5], [0, 5], [0, 5], [0, 5])
    jobs += prod(n, range(4), [5] if not t else [5, 6], [2] if not t else [1, 2, 3], [1], [3], *([[0, 5]] * (6 if t else 5)))
    tr2, _, _, _ = ck.explore(exe, jobs, bound=2, max_exec=2000 if t else 150, rand=2000 if t else 150, sec=60, tag="y")
    ck.validate(tr + tr2, "SharedMutex", exe, opts)


def c05_jobs(t):
    jobs = []
    for kind in range(11):
        for th in (1, 2):
            for n in (1, 2, 3) if t else (1, 2):
                for form in range(4):
                    for act in (0, 1, 2):
                        for stop in range(4):
                            for mask in ([0, 1, 2, 4, 5, 6, 255] if kind in (3, 9) else [0]):
                                if (stop or act == 2) and kind not in (6, 7, 8):
                                    continue
                                if th > 1 and kind in (2, 5):
                                    continue
                                jobs.append("jobs %d %d %d %d %d %d %d" % (kind, th, n, form, act, stop, mask))
    return jobs


def c05_fan(ck, r):
    # trees of continuations over one shared result
    on = {0: 1, 1: 1, 2: 0, 3: 0, 4: 1, 5: 1, 6: 0}
    sh = {1: [0, 1, 2, 3, 4, 5, 7, 8], 0: [0, 2, 3, 4, 6, 7, 8]}
    un = {1: [0, 1, 2, 3, 4, 5, 6], 0: [0, 2, 3, 4, 6]}
    out = {0: None, 1: 1, 2: 1, 3: 1, 4: -1, 5: -1, 6: -1, 7: 1, 8: 0}

    def tree(src, n, two):
        nodes = []
        live = [(0, 2 + on[src], 0)]
        for k in range(1, n + 1):
            p, kind, th = r.choice(live[:1] + live)
            op = r.choice(sh[kind - 2] if p == 0 else un[kind])
            if p == 0:
                th = r.randrange(2) if two else 0
            else:
                live = [x for x in live if x[0] != p]
            o = (kind & 1) if op == 0 else out[op]
            if o >= 0:
                live.append((k, o, th))
            nodes.append(p * 1000 + th * 100 + op)
        return nodes

    t = ck.thorough
    jobs = []
    for src in range(7):
        for a in sh[on[src]]:
            for b in sh[on[src]]:
                for when in (0, 1, 2, 9):
                    if when and src in (1, 4) or (not t and (a + b + when + src) % 2):
                        continue
                    jobs.append("fan %d %d %d %d %d %d %d" % (src, 0, when, r.choice([0, 0, 1, 2]), r.choice([0, 0, 1]), a,
                                                              b + 100 * r.randrange(2)))
    for i in range(20000 if t else 2500):
        src = r.randrange(7)
        two = r.randrange(3) == 0
        ns = tree(src, r.choice([2, 3, 4, 5] if not two else [2, 3, 4]), two)
        ms = [r.choice([0, 0, 1, 2, 4, 6, 255]) for _ in range(2)]
        jobs.append("fan %d %d %d %d %d " % (src, r.choice([0, 0, 1, 2, 3]), 0 if src in (1, 4) else r.choice([0, 1, 2, 3, 9]), *ms) +
                    " ".join(map(str, ns)))
    exe = B.build_rt("fan", ["fan.cpp"])
    tr, _, exe, opts = ck.explore(exe, jobs, bound=2 if t else 1, max_exec=1000 if t else 40, rand=100 if t else 12, sec=60,
                                  tag="fan")
    ck.validate(tr, "Fan", exe, opts, workers=8)


def c06(ck):
    for k in "TF":
        for m in ("23" if ck.thorough else "2"):
            ck.design("SharedFutureImpl", "SharedFutureImpl" + m + k)
    exe = B.build_rt("shared", ["shared.cpp"])
    t = ck.thorough
    n = "shared"
    ops = range(27)
    jobs = [n + " 0 %d 0 %d %d" % (hold, a, b) for a in ops for b in ops if a <= b for hold in ([0, 1, 2] if t else [1])]
    rep = [0, 1, 4, 11]
    jobs += prod(n, range(8), [0, 1, 2], [0], ops)                 # every fulfilment, one observer
    jobs += prod(n, range(1, 8), [1, 2], [0], rep, ops if t else rep)
    jobs += prod(n, [0, 4], [0], [1], rep, ops)                     # through a shared const reference
    jobs += ["%s 0 1 0 %d %d %d" % (n, a, b, c) for a in [0, 1, 4, 11, 12, 24] for b in [0, 1, 4, 11, 12, 24] for c in
             [0, 4, 6, 9] if a <= b]
    tr, _, exe, opts = ck.explore(exe, jobs, bound=3 if t else 2, max_exec=20000 if t else 600,
                                  rand=1000 if t else 150, sec=60)
    ck.validate(tr, "SharedFuture", exe, opts)
    graph(ck, [3, 3, 8], 1200)


def c11(ck):
    for n in "123":
        ck.design("WaitImpl", "WaitImpl" + n + "T")
        ck.design("WaitImpl", "WaitImpl" + n + "F")
    exe = B.build_rt("wait", ["wait.cpp"])
    t = ck.thorough
    jobs = []
    for n in (1, 2, 3):
        for mask in range(1 << n):
            for form in range(3):
                for kind in range(4):
                    for again in ([-1, 0, 1, 3] if t else [-1, 1]):
                        for after in (range(8) if t else [0, 1, 4 + mask % 4]):
                            for pr in ([0, 1, 2] if n > 1 and not (mask == (1 << n) - 1) else [0]):
                                if not t and (mask + form + kind + again + after + pr) % 2 and n == 3:
                                    continue
                                jobs.append("wait %d %d %d %d %d %d %d" % (n, form, kind, again, after, pr, mask))
    # a future which is completed only after the timed waits have returned
    jobs += ["wait %d %d %d %d %d 3 %d" % (n, f, k, g, a, m) for n in (1, 2, 3) for f in range(3) for k in (1, 2, 3)
             for g in (-1, 1, 3) for a in ([0, 1, 2, 3, 5] if t else [(f + k + g) % 4]) for m in range((1 << n) - 1)]
    for n in (1, 2, 3):
        jobs += ["waitshared %d %d 0 -1 %d %d %d" % (n, f, a, pr, m) for f in range(3) for a in (0, 1, 3)
                 for pr in ([0, 1, 2] if n > 1 else [0]) for m in range((1 << n) - 1)]
    jobs += prod("waitmixed", range(3), range(2), range(3)) + prod("waittwo", range(3), range(3))
    tr, _, exe, opts = ck.explore(exe, jobs, bound=3 if t else 2, max_exec=30000 if t else 800,
                                  rand=1000 if t else 150, sec=60, opts=["--spurious"])
    ck.validate(tr, "Wait", exe, opts)


def when(ck, ks, name):
    for k in ks:
        for n in ("2" if not ck.thorough else "23"):
            ck.design("WhenImpl", "WhenImpl%d_%s" % (k, n))
    exe = B.build_rt(name, [("when.cpp", ["-DWHEN_K=%d" % k]) for k in ks])
    t = ck.thorough
    jobs = []
    for k in ks:
        for form in range(12):
            for n in (1, 2, 3):
                if (n == 1 and form in (2, 3, 8, 10, 11)) or (form == 10 and k >= 4):
                    continue
                for src in range(4):
                    for plan in range(3 if n == 2 else 1 if n == 1 else 4):
                        for pre in range(1 << n):
                            for pat in range(4 ** n):
                                for out in range(3):
                                    x = mix(form, n, src, plan, pre, pat, out, k, ck.seed)
                                    d = (30 if n == 2 else 300) if not t else (2 if n == 2 else 20)
                                    if n > 1 and x % d:
                                        continue
                                    jobs.append("when%d %d %d %d %d %d %d %d %d" % (k, k, n, form, src, plan, pre, pat, out))
        jobs += prod("whensame%d" % k, [k], [0, 1], [7, 4003], [0, 1], range(3)) + prod("whenempty%d" % k, [k], range(3))
    tr, _, exe, opts = ck.explore(exe, jobs, bound=3 if t else 2, max_exec=2000 if t else 300,
                                  rand=500 if t else 60, sec=60)
    ck.validate(tr, "When", exe, opts)


def c09(ck):
    when(ck, [0, 1, 2, 3], "whenall")
    graph(ck, [4, 6, 9], 1200)


def c10(ck):
    when(ck, [4, 5, 6], "whenany")
    graph(ck, [5], 1200)


def c16(ck):
    ck.design("WaitGroupImpl", "WaitGroupImpl1")
    if ck.thorough:
        ck.design("WaitGroupImpl", "WaitGroupImpl2")
    exe = B.build_rt("waitgroup", ["waitgroup.cpp"])
    t = ck.thorough
    n = "wg"
    jobs = ["%s %d %d %d %d %d" % (n, a, b, l, g, w) for a in range(10) for b in range(10) for l in range(4)
            for g in range(2) for w in range(14) if t or mix(a, b, l, g, w, ck.seed) % 30 == 0]
    jobs += ["%s %d %d %d 0 %d %d" % (n, a, b, l, w, v) for a in range(10) for b in (2, 9) for l in range(4)
             for w in range(14) for v in range(14) if mix(a, b, l, w, v, ck.seed) % (4 if t else 60) == 0]
    jobs += ["oneshot %d %d %d" % (l, g, w) for l in range(4) for g in range(2) for w in range(16)]
    jobs += ["oneshot %d 0 %d %d" % (l, w, v) for l in range(4) for w in range(16) for v in range(w, 16)
             if t or mix(l, w, v) % 3 == 0]
    jobs += ["oneshot 0 0 %d %d %d" % x for x in itertools.product([0, 2, 5, 15], repeat=3)]
    jobs += prod("wgdie", range(2))
    tr, _, exe, opts = ck.explore(exe, jobs, bound=3 if t else 2, max_exec=20000 if t else 350,
                                  rand=1000 if t else 80, sec=60)
    ck.validate(tr, "WaitGroup", exe, opts)


CORO_OPS = range(48)


def c13(ck):
    t = ck.thorough
    for n in ("123" if t else "12"):
        for k in ("0F", "2F", "2T", "3F", "3T"):
            ck.design("CoroImpl", "CoroImpl" + n + k)
    cfgs = [("coro", "CORO"), ("coron", "CORO;DISABLE_SYMMETRIC_TRANSFER")]
    if t:
        cfgs.append(("corof", "CORO;DISABLE_FINAL_SUSPEND_TRANSFER"))
    for ci, (name, flags) in enumerate(cfgs):
        exe = B.build_rt(name, [("coro.cpp", ["-DCO_RT=%d" % k]) for k in range(3)], flags=flags)
        jobs = []
        for r in range(3):
            hows = (range(3), range(5), range(3))[r]
            for how in hows:
                for op in CORO_OPS:
                    for plan in range(5):
                        for out in range(27):
                            for fin in range(4):
                                for ex in (0, 1, 8, 64):
                                    x = mix(r, how, op, plan, out, fin, ex, ck.seed, ci)
                                    if x % (40 if t else 1200) == 0:
                                        jobs.append("coro%d %d %d %d %d %d 1 %d" % (r, plan, out, fin, how, ex, op))
            # two and three steps
            for o1 in CORO_OPS:
                for o2 in CORO_OPS:
                    x = mix(r, o1, o2, ck.seed, ci)
                    if t or x % 6 == 0:
                        jobs.append("coro%d %d %d %d %d %d 1 %d %d" % (r, x % 5, x // 5 % 81, x // 405 % 2 + 2, x // 810 % 3,
                                                                       (0, 0, 1, 2, 9, 64, 66)[x // 2430 % 7], o1, o2))
                    if x % (4 if t else 16) == 0:
                        jobs.append("coro%d %d %d %d %d %d 1 %d %d %d" % (
                            r, x % 5, x // 5 % 81, x // 405 % 2 + 2, x // 810 % 3, (0, 2, 4, 64)[x // 2430 % 4], o1, o2,
                            (1, 5, 11, 23, 26, 27, 28, 32)[x // 9720 % 8]))
            # two coroutines
            sh = [1, 5, 6, 7, 8, 11, 12, 14, 17, 18, 20, 36, 46]
            for o1 in sh:
                for o2 in sh:
                    x = mix(r, o1, o2, ck.seed, ci, "two")
                    if o1 <= o2 and (t or x % 3 == 0):
                        jobs.append("coro%d %d %d %d %d %d 2 %d %d" % (r, x % 4, x // 4 % 81, x // 400 % 4, x // 1600 % 3, 0, o1, o2))
        tr, _, exe, opts = ck.explore(exe, jobs, bound=3 if t else 2, max_exec=5000 if t else 200,
                                      rand=500 if t else 50, sec=60, tag="xyz"[ci])
        ck.validate(tr, "Coro", exe, opts)
    graph(ck, [7], 1200)


def c17(ck):
    import random
    import subprocess
    import concurrent.futures as cf
    ck.design("DeterminismImpl", "DeterminismImpl")
    t = ck.thorough
    wraps = ["_ZN6yaclib6detail13GetRandNumberEm", "_ZN6yaclib6detail5fiber9FiberBase6ResumeEv"]
    exe = B.build_plain("det", ["det.cpp"], "FIBER", libs=["-Wl,--wrap=" + w for w in wraps])
    rnd = random.Random(ck.seed)
    labels = []
    for i in range(6000 if t else 400):
        labels.append("%d %d %d %d %d %d %d %d %d %d" % (
            i, i % 9, (i // 9 + i) % 9, rnd.randrange(2 ** 32), rnd.choice([1, 2, 3, 7, 16]), rnd.choice([0, 2, 5, 13]),
            rnd.choice([1, 2, 3, 10]), rnd.choice([1, 20, 100]), rnd.choice([1, 10]), i % 2))

    def run(mode, lines, junk):
        """[(label id, part, text)] of one process"""
        env = dict(os.environ, VERIF_JUNK="x" * junk, MALLOC_PERTURB_=str(junk % 255))
        try:
            r = subprocess.run([exe, mode], input="\n".join(lines) + "\n", stdout=subprocess.PIPE,
                               stderr=subprocess.DEVNULL, text=True, env=env, timeout=60)
            out = r.stdout
        except subprocess.TimeoutExpired as e:
            out = (e.stdout or b"").decode() + " HANG 0\n"
        res = []
        for x in out.split("\n"):
            p = x.split(" ", 2)
            if len(p) == 3 and p[0].isdigit():
                res.append((int(p[0]), p[1], p[2].strip()))
        return res

    def one(i):
        lab, oth = labels[i], labels[i - 1]
        runs = {"A": [], "B": [], "P": []}
        procs = [("full", [lab]), ("twice", [oth, lab]), ("twice", [lab, oth]), ("full", [oth, lab])]
        for k, (mode, ls) in enumerate(procs):
            for (n, part, text) in run(mode, ls, 7 + 61 * k + i % 50):
                if n == i:
                    runs[part].append((mode, text))
        if runs["P"]:
            lp = lab + " " + runs["P"][0][1]
            ot = oth + " 17 0"
            for k, ls in enumerate([[lp], [ot, lp, lp]]):
                for (n, part, text) in run("restored", ls, 300 + 11 * k):
                    if n == i:
                        runs[part].append(("restored", text))
        return i, runs

    def events(runs, part, chunk=8):
        texts = [x[1].split(" ") if x[1] else [] for x in runs[part]]
        obs, ends = [], []
        for w in texts:
            end = 0
            for j, x in enumerate(w):
                if x in ("CRASH", "HANG"):
                    end = int(w[j + 1]) + 1000
                    w = w[:j]
                    break
            obs.append([[int(y) for y in x.split(",")] for x in w])
            ends.append(end)
        ev = [("begin", 0, (len(obs), 1 if part == "A" else 2))]
        n = max(len(o) for o in obs)
        for k in range(0, n, chunk):
            # a run which is already over shows -1
            a = [v for o in obs for j in range(k, min(k + chunk, n)) for v in (o[j] if j < len(o) else [-1, -1, -1, -1])]
            ev.append(("step", 0, tuple(a)))
        if part == "B":
            ev.append(("pair", 0, tuple(int(v) for _, x in runs["P"] for v in (x.split(" ") + ["0", "0"])[:2])
                       if len(runs["P"]) == 0 else tuple(int(v) for _, x in pad(runs["P"], len(obs)) for v in x.split(" "))))
        ev.append(("stop", 0, tuple(v for e, o in zip(ends, obs) for v in (e, len(o)))))
        return ev

    def pad(ps, n):
        return (ps + [ps[0]] * n)[:n]

    # known finding: the same label with and without reuse of freed addresses
    def aba(i):
        f = "%d 1 3 %d 7 0 1 1 10 1" % (i, 3151538688 + i)
        a, b = run("full", [f], 1), run("aba", [f], 2)
        runs = {k: [("full", x) for n, q, x in a if q == k] + [("aba", x) for n, q, x in b if q == k] for k in "ABP"}
        return f, runs

    tr, nobs, nruns = [], 0, 0
    with cf.ThreadPoolExecutor(8) as ex:
        for i, runs in ex.map(one, range(len(labels))):
            for part in "AB":
                if len(runs[part]) < 2:
                    continue
                ev = events(runs, part)
                x = FW.Trace("det " + labels[i] + " part " + part + " runs " + ",".join(m for m, _ in runs[part]), "-",
                             " ".join("%s|%d|%s" % (e, th, "|".join(map(str, a))) for e, th, a in ev), "")
                x.events = ev
                tr.append(x)
                nruns += len(runs[part])
                nobs += sum(len(q.split(" ")) for _, q in runs[part])
        for f, runs in ex.map(aba, range(40)):
            if len(runs["A"]) == 2:
                ev = events(runs, "A")
                x = FW.Trace("aba " + f, "-", " ".join("%s|%d|%s" % (e, th, "|".join(map(str, a))) for e, th, a in ev), "")
                x.events = ev
                tr.append(x)
    ck.cov["exploration"] = [{"labels": len(labels), "runs": nruns, "observations": nobs}]
    if len(tr) < len(labels):
        raise FW.Broken("the programs do not run (%d of %d labels)" % (len(tr), 2 * len(labels)))
    ck.validate(tr, "Determinism", workers=8)


def c19(ck):
    ck.design("AtomicImpl", "AtomicImpl", deadlock=False)
    t = ck.thorough
    backends = ["FIBER", "THREAD", "OFF"]

    def build(f):
        return B.build_plain("atomic" + f, ["atomic.cpp"], f, opt=("-O2", "-g1"),
                             defines=["-DBACKEND=%d" % {"OFF": 0, "THREAD": 1, "FIBER": 2}[f], "-D_GLIBCXX_ASSERTIONS"],
                             libs=["-latomic"])
    logs = {}
    for f in backends:
        exe = build(f)
        jobs = ["%s %d %d %d %d" % (f, ty, 2 if t else 0, 0, ck.seed) for ty in range(21)]
        jobs += ["%s %d 3 %d %d" % (f, ty, 6000 if t else 300, ck.seed + k) for ty in range(20) for k in range(4 if t else 1)]
        logs[f] = ck.run_driver(exe, jobs, f)
    # std::atomic itself must satisfy the contract: otherwise the contract is wrong
    ck.validate(logs["OFF"], "Atomic", workers=8)
    if ck.violations:
        text, ck.violations = ck.violations[0][0], []
        raise FW.Broken("std::atomic does not satisfy the contract: %s" % text)
    std = set(x.log for x in logs["OFF"])
    ck.cov["logs_equal_to_std"] = {f: sum(x.log in std for x in logs[f]) for f in backends}
    ck.validate([x for f in backends[:2] for x in logs[f] if x.log not in std] or logs["FIBER"], "Atomic", workers=8)


def c18(ck):
    import random
    t = ck.thorough
    for c in "CGH" + ("ABDEF" if t else ""):
        ck.design("SyncImpl", "SyncImpl" + c)
    wraps = ["_ZN6yaclib6detail13GetRandNumberEm", "_ZN6yaclib11InjectFaultEv"]
    exe = B.build_plain("sync", ["sync.cpp"], "FIBER", libs=["-Wl,--wrap=" + w for w in wraps])
    rnd = random.Random(ck.seed)
    ex = {0: ["L,U", "T,U", "L,Z,U", "L,U,L,U", "T,U,T,U", "L,Z,U,L,Z,U"],
          1: ["L,U", "T,U", "D:0,U", "D:30,U", "D:61,U", "L,Z,U", "L,S:50,U", "D:40,Z,U,L,U", "L,U,D:31,U", "D:20,U,D:20,U"],
          2: ["L,U", "T,U", "L,L,Z,U,U", "L,T,U,Z,U", "T,L,U,U", "L,Z,U,T,U", "L,U,L,U"],
          3: ["L,U", "T,U", "D:0,U", "D:40,U", "L,D:30,Z,U,U", "D:40,L,Z,U,S:20,U", "L,S:50,U", "D:61,D:0,U,U", "L,U,D:30,U"],
          4: ["L,U", "T,U", "R,V", "Q,V", "R,Z,V", "L,Z,U", "R,Z,V,L,U", "L,U,R,V", "Q,V,T,U", "L,Z,U,L,U", "R,V,R,V"],
          5: ["L,U", "T,U", "R,V", "Q,V", "D:0,U", "D:40,U", "E:0,V", "E:40,V", "L,S:50,U", "R,S:50,V", "L,Z,U", "R,Z,V",
              "D:61,U,E:61,V", "E:31,V,D:31,U", "L,Z,U,R,V", "R,Z,V,D:30,U"]}

    def num(p, o):
        return ",".join(x[0] + str(o) + x[1:] if x[0] not in "SZ" else x for x in p.split(","))
    jobs = []

    def add(kinds, progs, b, mx, r):
        jobs.append("%d %s %s %d %d %d %d" % (len(jobs), kinds, "/".join(progs), b, mx, r, ck.seed + len(jobs)))
    # every pair of programs, and triples
    for k in range(6):
        ps = ex[k]
        for a in ps:
            for b in ps:
                add(str(k), [num(a, 0), num(b, 0)], 4 if t else 2, 4000 if t else 150, 2000 if t else 40)
        tri = [(a, b, c) for a in ps for b in ps for c in ps if b <= c]
        rnd.shuffle(tri)
        for p in tri[:(len(tri) if t else 60 if k != 5 else 120)]:
            add(str(k), [num(x, 0) for x in p], 3 if t else 2, 6000 if t else 300, 3000 if t else 60)
        for _ in range(200 if t else 12):
            add(str(k), [num(rnd.choice(ps), 0) for _ in range(4)], 2, 2000 if t else 200, 3000 if t else 150)
    # two locks of different kinds
    for _ in range(400 if t else 40):
        ka, kb = rnd.choice(range(6)), rnd.choice(range(6))
        pr = []
        for _ in range(3):
            a, b = num(rnd.choice(ex[ka]), 0), num(rnd.choice(ex[kb]), 1)
            pr.append(rnd.choice([a + "," + b, b + "," + a, a.split(",")[0] + "," + b + "," + ",".join(a.split(",")[1:])]))
        add("%d%d" % (ka, kb), pr[:rnd.choice([2, 3])], 2, 2000 if t else 200, 2000 if t else 100)
    # condition variables
    waits = ["L0,W00,U0", "L0,X00:60,U0", "L0,P00,U0", "L0,Y00:60,U0", "L0,X00:0,U0", "L0,Y00:21,U0", "L0,X00:31,X00:31,U0",
             "L0,P00,F0:0,U0", "L0,Y00:200,F0:0,U0"]
    sig = ["L0,N0,U0", "N0", "L0,F0:1,U0,N0", "L0,F0:1,N0,U0", "L0,A0,U0", "L0,F0:1,A0,U0", "L0,F0:1,U0,A0",
           "S:40,L0,F0:1,N0,U0", "S:51,N0", "L0,F0:1,N0,U0,L0,F0:1,N0,U0", "L0,N0,N0,U0"]
    for wt in waits:
        for sg in sig:
            add("0", [wt, sg], 3 if t else 2, 3000 if t else 200, 2000 if t else 40)
            add("0", [sg, wt], 3 if t else 2, 3000 if t else 200, 2000 if t else 40)
    cvs = [(a, b, c) for a in waits for b in waits for c in sig] + [(c, a, d) for a in waits for c in sig for d in sig]
    rnd.shuffle(cvs)
    for p in cvs[:(len(cvs) if t else 150)]:
        p = list(p)
        rnd.shuffle(p)
        add("0", p, 2, 4000 if t else 300, 2000 if t else 60)
    for _ in range(600 if t else 40):
        p = [rnd.choice(waits), rnd.choice(waits), rnd.choice(waits + sig), rnd.choice(sig)]
        rnd.shuffle(p)
        add("0", p, 2, 3000 if t else 200, 2000 if t else 150)
    for _ in range(200 if t else 20):  # two condition variables
        p = [rnd.choice(waits), rnd.choice(waits).replace("00", "10"), rnd.choice(sig),
             rnd.choice(sig).replace("N0", "N1").replace("A0", "A1").replace("F0", "F1")]
        rnd.shuffle(p)
        add("0", p, 2, 3000 if t else 200, 2000 if t else 150)
    # threads, sleeping, thread-local pointers
    for p in [("C1,J1", "Z,S:30"), ("B,C1,B,J1", "B,S:30"), ("C1,Z,J1", "C2,J2", "S:40"), ("C1,C2,J2,J1", "S:30", "S:61"), ("C1,K1,C2,J2", "S:50", "Z"),
              ("C1,C2,S:30", "C3,J3", "S:30", "S:21,Z"), ("S:30,S:0", "S:30", "S:21", "S:91"), ("C1,J1,C2,J2,C3,J3", "", "", ""),
              ("C1,S:90,J1", "S:30"), ("C1,C2,L0,J1,U0", "Z,Z", "L0,U0"), ("C1,Z,K1", "S:30"), ("C1,L0,J1,U0", "L0,U0"),
              ("C1,C2,C3,J3,J2,J1", "L0,S:40,U0", "L0,U0", "T0,U0"), ("S:100", "S:100", "S:101", "S:91"),
              ("G0,G1,G2,H0:1,H2:2,G0,G2,Z,G0,G1,G2", "G0,G1,H0:3,H1:4,Z,G0,G1,G2", "H2:5,Z,M0,G0,G2,Z,G0,G1"),
              ("H0:2,C1,G0,J1,G0", "G0,H0:3,C2,G0,J2,G0", "G0,H0:4,G0"), ("H1:0,G1,Z,G1,M2,G2", "G1,M2,G2,H1:3,G2,G1"),
              ("H0:1,H1:2,H2:3,Z,G0,G1,G2,M0,G0,M1,G1,H2:4,G0,G1,G2", "H2:6,M0,G0,Z,H2:7,G0,G2"),
              ("C1,J1,C2,J2,G0", "H0:5,G0", "G0,H0:6,G0"), ("L0,H0:2,Z,G0,U0,G0", "L0,H0:3,S:30,G0,U0,G0", "S:20,G0,H0:1,L0,G0,U0")]:
        add("0", p, 4, 6000 if t else 600, 3000 if t else 200)
    tr = ck.run_driver(exe, jobs, "fiber programs", timeout=300)
    ex_n = [x.split(" ") for x in ck.driver_done]
    ck.cov["exploration"][-1]["executions"] = sum(int(x[1]) for x in ex_n)
    ck.cov["exploration"][-1]["complete_jobs"] = sum(int(x[2]) for x in ex_n)
    for i in range(0, len(tr), 60000):
        ck.validate(tr[i:i + 60000], "Sync", workers=8)


# ---- pipelines
def pipe_exe(pv):
    d = ["-DPV=%d" % pv]
    return B.build_rt("pipe%d" % pv, [("pipe_attach.cpp", d + ["-DPH=%d" % k]) for k in range(5)] + [("pipe.cpp", d)], flags="CORO")


def pipe_run(ck, batches, chk, bound, mx, rand):
    """batches: {pv: [job]}; chk: which parts of Pipeline.tla are checked"""
    def m(ev):
        return [(e, t, (a[0], chk)) if e == "cfg" else (e, t, a) for e, t, a in ev
                if (chk % 2 or e != "sub") and e not in ("al", "alx")]
    for pv, jobs in batches.items():
        if not jobs:
            continue
        tr, _, exe, opts = ck.explore(pipe_exe(pv), jobs, bound=bound, max_exec=mx, rand=rand, sec=60, tag="pipelines %d" % pv)
        for i in range(0, len(tr), 50000):
            ck.validate(tr[i:i + 50000], "Pipeline", exe, opts, map_events=m, workers=8)


def rmask(r):
    """refused submissions: none mostly, one, or everything from one on"""
    return r.choice([0, 0, 0, 1 << r.randrange(5), -1 << r.randrange(6)])


def c02(ck):
    import pipegen as G
    import random
    t = ck.thorough
    ck.design("PipelineImpl", "PipelineImpl")
    r = random.Random(ck.seed)
    single = G.single()
    batches = {}
    for pv in range(3):
        step = 1 if t else 4 if pv == 0 else 9
        jobs = [G.enc(p, f) for p, f in single[(ck.seed + pv) % step::step]]
        g = G.Gen(r, exs=(1, 2, 3, 4, 5))
        for i in range(60000 if t else 6000 if pv == 0 else 2500):
            p, f = g.main(r.choice([1, 2, 2, 3, 3, 4]), list(G.SRC))
            jobs.append(G.enc(p, f, masks=(rmask(r), rmask(r), rmask(r))))
        batches[pv] = jobs
    pipe_run(ck, batches, 0, 2 if t else 1, 400 if t else 30, 40 if t else 5)
    graph(ck, [1, 2, 10], 1200)


def c05(ck):
    import pipegen as G
    import random
    t = ck.thorough
    ck.design("PipelineImpl", "PipelineImpl")
    jobs = c05_jobs(t)
    exe = B.build_rt("jobs", ["jobs.cpp"])
    tr, _, exe, opts = ck.explore(exe, jobs, bound=3 if t else 2, max_exec=5000 if t else 300, rand=500 if t else 40, sec=60,
                                  tag="jobs")
    ck.validate(tr, "Jobs", exe, opts, workers=8)
    r = random.Random(ck.seed)
    c05_fan(ck, random.Random(ck.seed + 5))
    jobs = []
    # every step on every holder with each kind of executor
    for p, f in G.single(exs=(1, 7))[ck.seed % 5::1 if t else 12]:
        jobs.append(G.enc(p, f))
    # every position from which (at which alone) an executor refuses
    g = G.Gen(r, exs=(1, 2, 5), depth=1)
    for i in range(6000 if t else 500):
        p, f = g.main(r.choice([2, 3, 4]), list(G.SRC))
        ms = [0] + [-1 << k for k in range(5)] + [1 << k for k in range(5)]
        for k in ms:
            jobs.append(G.enc(p, f, masks=r.choice([(k, 0, 0), (0, k, 0), (k, k, 0), (0, 0, k), (0, 0, k)])))
    g = G.Gen(r, exs=(1, 2, 3, 4, 5, 7))
    for i in range(40000 if t else 3000):
        p, f = g.main(r.choice([1, 2, 3, 4, 5]), list(G.SRC))
        jobs.append(G.enc(p, f, masks=(rmask(r), rmask(r), rmask(r))))
    pipe_run(ck, {0: jobs}, 1, 2 if t else 1, 400 if t else 30, 40 if t else 6)
    # a thread pool which is stopped at any time
    jobs = []
    g = G.Gen(r, exs=(1, 6, 6, 6, 5), depth=1)
    for i in range(8000 if t else 700):
        p, f = g.main(r.choice([1, 2, 3]), list(G.SRC))
        jobs.append(G.enc(p, f, masks=(rmask(r), 0, 0), stop=r.randrange(4)))
    pipe_run(ck, {0: jobs}, 1, 3 if t else 2, 1000 if t else 80, 200 if t else 20)


def c12(ck):
    import pipegen as G
    import random
    t = ck.thorough
    ck.design("PipelineImpl", "PipelineImplL")
    r = random.Random(ck.seed)
    lazy = [k for k in G.SRC if k >= 20]
    batches = {}
    # one step, every way to start or to abandon it
    fins = G.FINS["T"]
    single = G.single(holders="T", fins=fins)
    for pv in range(3):
        step = 1 if t else 20 if pv == 0 else 50
        jobs = [G.enc(p, f) for p, f in single[(ck.seed + pv) % step::step]]
        # a Task returned from a callback of an eager pipeline
        tasks = [(p, f) for p, f in G.single() if len(p) > 1 and p[1][0] >= 20]
        step = 2 if t else 8 if pv == 0 else 20
        jobs += [G.enc(p, f) for p, f in tasks[(ck.seed + pv) % step::step]]
        g = G.Gen(r, exs=(1, 2, 3, 4, 5, 7))
        for i in range(40000 if t else 5000 if pv == 0 else 2000):
            p, f = g.main(r.choice([0, 1, 2, 3, 4, 5]), lazy)
            jobs.append(G.enc(p, f, masks=(rmask(r), rmask(r), rmask(r))))
        batches[pv] = jobs
    pipe_run(ck, batches, 4, 2 if t else 1, 400 if t else 30, 40 if t else 5)


def c20(ck):
    import pipegen as G
    import random
    t = ck.thorough
    ck.design("PipelineImpl", "PipelineImpl")
    r = random.Random(ck.seed)
    one = lambda ev: [x for x in ev if x[0] in ("al", "alx", "crash")]  # noqa: E731
    single = G.single(exs=(1, 7))
    for pv in range(3):
        step = 1 if t else 4 if pv == 0 else 10
        jobs = [G.enc(p, f, alloc=1) for p, f in single[(ck.seed + pv) % step::step]]
        g = G.Gen(r, exs=(1, 2, 3, 4, 5))
        for i in range(40000 if t else 5000 if pv == 0 else 2000):
            p, f = g.main(r.choice([0, 1, 2, 3, 4, 5]), list(G.SRC))
            jobs.append(G.enc(p, f, masks=(rmask(r), rmask(r), rmask(r)), alloc=1))
        tr, _, exe, opts = ck.explore(pipe_exe(pv), jobs, bound=1, max_exec=100 if t else 10, rand=10 if t else 2, sec=60,
                                      tag="pipelines %d" % pv)
        ck.validate(tr, "Alloc", exe, opts, map_events=one, workers=8)
    exe = B.build_rt("allocs", ["allocs.cpp"] + [("allocs.cpp", ["-DALLOC_K=%d" % k]) for k in range(7)], flags="CORO")
    jobs = ["comb%d " % k + j for k in range(7) for j in
            (x[2:] for x in prod("x", [0, 1], range(6), [0, 1, 2], range(5), [0, 1]))]
    for f in (0, 4, 5):
        ns = [1, 2, 3, 4] + ([] if f == 0 else [8, 33, 64])
        jobs += prod("wait", range(4), [f], ns, range(3), [0, 2, 3])
        jobs += prod("waiton", range(4), [f], ns, range(3), [0, 2, 3])
    for n in ("coro", "coroon"):
        jobs += prod(n, [0, 1, 2, 3, 5, 6, 8, 9, 10], range(3), [1, 2, 3, 8, 33], range(3), [0, 2, 3], [0, 1])
        jobs += prod(n, [4, 7], range(3), [1, 2, 3], range(3), [0, 2, 3], [0, 1])
    jobs += prod("submit", range(5), [1, 2, 5, 40], [1, 3])
    tr, _, exe, opts = ck.explore(exe, jobs, bound=2 if t else 1, max_exec=1000 if t else 50, rand=100 if t else 5, sec=60,
                                  tag="allocations")
    ck.validate(tr, "Alloc", exe, opts, workers=8)


# ---- the whole API: the programs of all other checks, observed for the life of objects and for memory ordering
class Recorder:
    """Collects the programs (harness, jobs, options) of another check instead of running them."""
    def __init__(self, ck):
        self.thorough, self.seed, self.fam, self.cov = ck.thorough, ck.seed, {}, {}

    def design(self, *a, **kw):
        pass

    def validate(self, *a, **kw):
        pass

    def explore(self, exe, jobs, bound=2, max_exec=0, rand=0, sec=60, opts=(), tag=""):
        self.fam.setdefault((exe, tuple(opts)), []).extend(jobs)
        return [], [], exe, list(opts)


def families(ck, sizes):
    """[(exe, opts, jobs)]: sizes = {check function: number of programs to take of each of its harnesses}"""
    out = []
    for fn, n in sizes.items():
        rec = Recorder(ck)
        fn(rec)
        for (exe, opts), jobs in rec.fam.items():
            jobs = sorted(set(jobs), key=lambda j: mix(j, ck.seed))
            # the same number of programs of each scenario
            by = {}
            for j in jobs:
                by.setdefault(j.split(" ")[0], []).append(j)
            take = []
            for k in sorted(by, key=lambda k: len(by[k])):
                m = (n - len(take)) // (len(by) - len(set(x.split(" ")[0] for x in take)))
                take += by[k][:max(m, 1)]
            out.append((exe, list(opts), take))
    return out


def observe(ck, fam, opt, spec, bound, mx, rand, memmax, more=()):
    """Explores the programs with an observer of the runtime (opt); what it saw is validated against spec."""
    allt, wrong = [], []
    for i, (exe, opts, jobs) in enumerate(fam):
        tr, mem, exe, opts = ck.explore(exe, jobs, bound=bound, max_exec=mx, rand=rand, sec=60,
                                        opts=opts + [opt, "--memmax", str(memmax)] + list(more),
                                        tag="%s.%d" % (os.path.basename(exe).split("-")[0], i))
        for x in tr:
            if " crash|" in x.log or x.log.startswith("crash|"):
                x.log = x.log.split(" ")[-1]
                wrong.append(x)
        wrong += [x for x in mem if x.bad]
        allt += [x for x in mem if not x.bad]
        # what looks wrong goes through the contract in any case; if it is everything, the shortest of each program will do
        wrong = sorted(wrong, key=lambda x: len(x.log))[:300]
        if len(wrong) == 300:
            break
        if sum(x.log.count(" ") for x in allt) > 3000000:
            ck.validate(allt, spec, None, [opt], workers=8)
            allt = []
    if len(wrong) == 300:
        allt = []
    if allt or wrong:
        ck.validate(wrong + allt, spec, None, [opt], workers=8)
    if wrong and not ck.nrej:
        raise FW.Broken("the monitor of the runtime and %s disagree about %s: %s" % (spec, wrong[0].job, wrong[0].diag))


def c03(ck):
    ck.design("PipelineImpl", "PipelineImpl")
    ck.design("PipelineImpl", "PipelineImplL")
    ck.design("SharedFutureImpl", "SharedFutureImpl2T")
    ck.design("SharedFutureImpl", "SharedFutureImpl2F")
    ck.design("HandoffImpl", "HandoffImpl")
    t = ck.thorough
    k = 20 if t else 1
    fam = families(ck, {c01: 250 * k, c02: 600 * k, c05: 700 * k, c12: 700 * k, c06: 400 * k, c07: 60 * k, c08: 40 * k,
                        c09: 300 * k, c10: 300 * k, c11: 150 * k, c13: 500 * k, c14: 100 * k, c15: 100 * k, c16: 150 * k,
                        c20: 300 * k})
    observe(ck, fam, "--lifetrace", "Lifecycle", 3 if t else 2, 3000 if t else 300, 300 if t else 60, 20 if t else 6)


def race(ck):
    """programs whose own data is ordered by nothing but the library"""
    t = ck.thorough
    exe = B.build_rt("race", ["race.cpp"])
    jobs = prod("edge", range(4), range(21))
    jobs += prod("sedge", range(2), range(15), range(15)) + prod("sedge", [0], [0, 4, 9], [1, 6, 11], range(15))
    jobs += prod("wgedge", [1, 2], range(4), range(6), range(6)) + prod("wgedge", [1, 2, 3], range(4), range(6))
    jobs += prod("osedge", range(8)) + prod("osedge", range(8), range(6)) + prod("osedge", range(8), range(6), [0, 3, 5])
    jobs += prod("combedge", range(16), [2, 3], range(4)) + prod("combedge", range(16), [4], [0, 5])
    jobs += prod("refedge", [2, 3, 4], range(4))
    jobs += prod("exeedge", range(6), [1, 2, 3], range(6))
    jobs += prod("mtxedge", [0], [2], range(4), range(4)) + prod("mtxedge", [0], [2], range(4, 10), range(4, 10))
    jobs += prod("mtxedge", [0], [3], range(4), range(4), range(4)) + prod("mtxedge", [0], [3], range(4, 10), [4, 5], [5, 7, 9])
    jobs.sort(key=lambda j: mix(j, ck.seed))
    some = jobs if t else jobs[::2]
    observe(ck, [(exe, [], some)], "--memtrace", "MemModel", 3 if t else 2, 5000 if t else 700, 500 if t else 60,
            20 if t else 1, ["--stale", "1"])


def c04(ck):
    for k in ("handoff", "counter", "strand", "mutex"):
        ck.design("OrdersImpl", "OrdersImpl_" + k)
    for k, name, to in (x.split(":") for x in (
            "handoff:xchg:3 handoff:xchg:2 handoff:load:0 handoff:cas:2 handoff:fail:0 counter:dec:0 counter:fence:0 "
            "strand:push:2 strand:take:0 strand:park:0 mutex:lock:0 mutex:wait:0 mutex:unlock:0 mutex:pass:0").split()):
        ck.refute("OrdersImpl", "OrdersImpl_" + k, "%s-%s-%s" % (k, name, to),
                  [('"none"', '"%s"' % name), ("WEAKTO = 0", "WEAKTO = " + to)])
    t = ck.thorough
    k = 20 if t else 1
    race(ck)
    fam = families(ck, {c01: 250 * k, c02: 100 * k, c05: 200 * k, c12: 100 * k, c06: 300 * k, c07: 60 * k, c08: 40 * k,
                        c09: 200 * k, c10: 200 * k, c11: 150 * k, c13: 200 * k, c14: 100 * k, c15: 100 * k, c16: 150 * k,
                        c20: 30 * k})
    observe(ck, fam, "--memtrace", "MemModel", 3 if t else 2, 3000 if t else 300, 300 if t else 60, 8 if t else 3,
            ["--stale", "1"])


TABLE = {"C03": c03, "C04": c04, "C02": c02, "C05": c05, "C12": c12, "C20": c20, "C18": c18, "C17": c17, "C19": c19, "C13": c13, "C16": c16, "C09": c09, "C10": c10, "C11": c11, "C01": c01, "C06": c06, "C07": c07, "C08": c08, "C14": c14, "C15": c15}

if __name__ == "__main__":
    FW.main(TABLE)
