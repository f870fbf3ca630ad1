"""Shared driver of all checks: build, explore, validate against the TLA+ contract with TLC, report."""
import concurrent.futures as cf
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time
import zlib

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B  # noqa: E402

VERIF = B.VERIF
SPEC = os.path.join(VERIF, "spec")
TLC_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
KNOWN = os.path.join(VERIF, "known_findings.txt")


class Broken(Exception):
    """The check itself failed (neither 0 nor 1)."""


def known_findings(prop):
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r"known: property=(\S+) match=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                out.append((re.compile(m.group(2)), m.group(3)))
    return out


class Trace:
    __slots__ = ("job", "sched", "events", "diag", "log", "exe", "bad", "more")

    def __init__(self, job, sched, log, diag):
        self.job, self.sched, self.log, self.diag = job, sched, log, diag
        self.events, self.bad, self.more = None, False, []

    def ends_badly(self):
        p = self.log.split(" ")[-1].split("|")
        return p[0] != "end" or any(x != "0" for x in p[2:])

    def parse(self):
        if self.events is None:
            ev = []
            for w in self.log.split(" "):
                p = w.split("|")
                ev.append((p[0], int(p[1]), tuple(int(x) for x in p[2:])))
            self.events = ev
        return self.events


class Check:
    def __init__(self, prop, technique="model_checking"):
        self.prop = prop
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.work = os.path.join(B.BUILD, "work-%s" % prop)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work, exist_ok=True)
        self.replays = os.path.join(B.BUILD, "replay")
        os.makedirs(self.replays, exist_ok=True)
        self.level = technique
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.models = []
        self.assumptions = []
        self.violations = []   # (text, replay path)
        self.known_hits = {}
        self.known = known_findings(prop)
        self.bg = []
        self.pool = cf.ThreadPoolExecutor(4)
        self.lock = threading.Lock()
        self.nrej = 0
        self.enough = False    # an exploration was cut short: too many crashes or endless executions

    @property
    def thorough(self):
        return self.tier == "thorough"

    # ------------------------------------------------------------------ TLC
    def tlc(self, module, cfg, env=None, workers=4, heap="3g", timeout=700, extra=(), expect_ok=True, deadlock=True):
        meta = tempfile.mkdtemp(dir=self.work)
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss16m", "-Djava.io.tmpdir=" + meta, "-cp", TLC_CP, "tlc2.TLC", "-workers", str(workers),
               "-metadir", meta, "-noGenerateSpecTE", "-config", cfg]
        if not deadlock:
            cmd.append("-deadlock")
        cmd += list(extra) + [module]
        e = dict(os.environ)
        e.update(env or {})
        try:
            r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               timeout=timeout)
        except subprocess.TimeoutExpired:
            raise Broken("TLC timed out on " + module)
        shutil.rmtree(meta, ignore_errors=True)
        out = r.stdout
        gen = dist = 0
        for m in re.finditer(r"([\d,]+) states generated[^,]*, ([\d,]+) distinct states found", out):
            gen, dist = int(m.group(1).replace(",", "")), int(m.group(2).replace(",", ""))
        if expect_ok and r.returncode != 0:
            raise Broken("TLC failed on %s (exit %d):\n%s" % (module, r.returncode, out[-6000:]))
        return r.returncode, gen, dist, out

    def design(self, module, cfg, **kw):
        """Exhaustive check of a design model, in the background. A failure is an error of the check (the model does
        not depend on the code)."""
        def run():
            t = time.time()
            rc, gen, dist, out = self.tlc(module + ".tla", cfg + ".cfg", **kw)
            with self.lock:
                self.models.append({"module": module, "config": cfg, "states": dist, "transitions": gen,
                                    "sec": round(time.time() - t, 1)})
                self.cov["states"] += dist
                self.cov["transitions"] += gen
        self.bg.append(self.pool.submit(run))

    def refute(self, module, cfg, what, changes):
        """A design model with a deliberate mistake: its invariant must fail, otherwise the model says nothing."""
        text = open(os.path.join(SPEC, cfg + ".cfg")).read()
        for a, b in changes:
            if a not in text:
                raise Broken("no %s in %s" % (a, cfg))
            text = text.replace(a, b)
        f = os.path.join(self.work, "neg-%s.cfg" % what)
        with open(f, "w") as fh:
            fh.write(text)

        def run():
            rc, gen, dist, out = self.tlc(module + ".tla", f, expect_ok=False, workers=1, heap="1g")
            if "is violated" not in out:
                raise Broken("the design model %s does not notice the mistake %s:\n%s" % (module, what, out[-2000:]))
            with self.lock:
                self.models.append({"module": module, "config": cfg, "mistake": what, "refuted": True})
        self.bg.append(self.pool.submit(run))

    # ------------------------------------------------------------------ exploration of the real code
    def explore(self, exe, jobs, bound=2, max_exec=20000, rand=0, sec=10, opts=(), tag="x", weak=int(os.environ.get("WEAK", "5"))):
        """All schedules up to a bound. In addition, for one in `weak` of the programs, with loads which return older
        values where the memory model allows it: no order in real time can be expected of those histories, so that only
        the ones which end badly (crash, stuck, leak, use after free, race) are added to the result."""
        opts = list(opts)
        traces, mem = self.explore1(exe, jobs, bound, max_exec, rand, sec, opts, tag)
        if weak and not self.enough and "--stale" not in opts and "--memtrace" not in opts and "--lifetrace" not in opts:
            some = [j for j in jobs if zlib.crc32(("%d %s" % (self.seed, j)).encode()) % weak == 0]
            if some:
                tw, _ = self.explore1(exe, some, bound, max_exec, rand, sec, opts + ["--stale", "1"], tag + ".weak")
                bad = [x for x in tw if x.ends_badly()]
                for x in bad:
                    x.more = ["--stale", "1"]
                traces += bad[:2000]
        return traces, mem, exe, opts

    def explore1(self, exe, jobs, bound, max_exec, rand, sec, opts, tag):
        # a tree which is found to be wrong is not explored any further once that becomes slow
        if self.violations and (self.enough or time.time() - self.t0 > 300):
            return [], []
        jf = os.path.join(self.work, tag + ".jobs")
        of = os.path.join(self.work, tag + ".out")
        with open(jf, "w") as f:
            f.write("\n".join(jobs) + "\n")
        cmd = [exe, "--bound", str(bound), "--max", str(max_exec), "--rand", str(rand), "--sec", str(sec), "--seed",
               str(self.seed), "--out", of] + list(opts) + [jf]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise Broken("explorer failed (%d): %s" % (r.returncode, r.stdout[-3000:]))
        self.enough = self.enough or "rt: enough" in r.stdout
        traces, mem = [], []
        st = {"jobs": len(jobs), "executions": 0, "complete_jobs": 0, "crashes": 0}
        with open(of) as f:
            for line in f:
                p = line.rstrip("\n").split("\t")
                if p[0] == "L":
                    traces.append(Trace(p[1], p[2], p[3], p[4]))
                elif p[0] in ("M", "W"):
                    mem.append(Trace(p[1], p[2], p[3], p[4]))
                    mem[-1].bad = p[0] == "W"
                elif p[0] == "X":
                    m = re.search(r"execs=(\d+) .*complete=(\d)", p[2])
                    if m:
                        st["executions"] += int(m.group(1))
                        st["complete_jobs"] += int(m.group(2))
                    elif p[2] == "crash":
                        st["crashes"] += 1
        with self.lock:
            acc = self.cov.setdefault("exploration", [])
            acc.append({"scenarios": tag, "bound": bound, "distinct_logs": len(traces), **st})
        return traces, mem

    # ------------------------------------------------------------------ plain drivers: one log per line of stdout
    def run_driver(self, exe, jobs, tag, timeout=120, done="DONE"):
        """Runs `exe <args of the job>` for each job; every line is a log. A driver which does not finish is a log
        ending with the event hang."""
        def one(job):
            try:
                r = subprocess.run([exe] + job.split(" ")[1:], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                                   timeout=timeout)
                out, rc, err = r.stdout, r.returncode, r.stderr
            except subprocess.TimeoutExpired as e:
                out, rc, err = (e.stdout or b"").decode(), 124, ""
            lines = out.split("\n")
            fin = any(x.split(" ")[0] == done for x in lines)
            logs = [x.strip() for x in lines[:-1] if x and x.split(" ")[0] != done]
            if not fin and not (logs and (" crash|" in logs[-1] or " hang|" in logs[-1])):
                logs.append((lines[-1] + " hang|0|%d" % rc).strip())
            res = []
            for i, x in enumerate(logs):
                p = x.split("\t") if "\t" in x else ["%d" % i, x]
                res.append(Trace(job, p[0], p[1].strip(), err[-300:]))
            with self.lock:
                self.driver_done = getattr(self, "driver_done", [])
                self.driver_done += [x for x in lines if x.split(" ")[0] == done]
            return res
        with cf.ThreadPoolExecutor(8) as ex:
            res = [t for ts in ex.map(one, jobs) for t in ts]
        with self.lock:
            self.cov.setdefault("exploration", []).append(
                {"scenarios": tag, "jobs": len(jobs), "distinct_logs": len(set(t.log for t in res)), "executions": len(res)})
        return res

    # ------------------------------------------------------------------ validation
    def validate(self, traces, spec, exe=None, opts=(), keep=None, chunk=60000, confirm=True, describe=None,
                 trace_filter=None, map_events=None, workers=4):
        """All distinct logs as one prefix tree, checked by TLC against module <spec>Trace."""
        if not traces and self.violations:
            return []
        if not traces:
            raise Broken("no traces recorded for " + spec)
        nodes = [None, {"e": "root", "t": 0, "a": [], "k": []}]
        index = {}
        owner = {}
        n_tr = 0
        seen = set()
        for tr in traces:
            ev = tr.parse()
            if map_events:
                ev = map_events(ev)
            if keep:
                ev = [x for x in ev if keep(x)]
            key = tuple(ev)
            if key in seen:
                continue
            seen.add(key)
            n_tr += 1
            cur = 1
            for x in ev:
                nx = index.get((cur, x))
                if nx is None:
                    nodes.append({"e": x[0], "t": x[1], "a": list(x[2]), "k": []})
                    nx = len(nodes) - 1
                    index[(cur, x)] = nx
                    nodes[cur]["k"].append(nx)
                    owner[nx] = tr
                cur = nx
        path = os.path.join(self.work, spec + "-%d.trie" % len(os.listdir(self.work)))
        with open(path, "w") as f:
            for nd in nodes[1:]:
                f.write(json.dumps(nd) + "\n")
        heap = "6g" if len(nodes) > 50000 else "3g"
        rc, gen, dist, out = self.tlc(spec + "Trace.tla", "Trace.cfg", env={"TRIE": path}, workers=workers, heap=heap,
                                      expect_ok=False)
        rej = set(int(m.group(1)) for m in re.finditer(r"REJECT\", (\d+)", out))
        if "MODEL OF THE RUNTIME IS WRONG" in out:
            raise Broken("%s: the explorer did what the specification of its runtime excludes:\n%s" % (spec, out[-3000:]))
        if rc != 0:
            # an event with arguments outside of every domain of the contract cannot be evaluated: it is not a behaviour
            bad = self.undefined_event(spec, nodes, out)
            if not bad:
                raise Broken("TLC failed on %sTrace (exit %d):\n%s" % (spec, rc, out[-5000:]))
            rej.add(bad)
        rej = sorted(rej)
        with self.lock:
            self.cov["states"] += dist
            self.cov["transitions"] += gen
            self.cov["traces_validated_against_impl"] += n_tr
            if len(self.cov["samples"]) < 6:
                self.cov["samples"].append({"spec": spec, "job": traces[0].job, "log": traces[0].log[:600]})
                if len(traces) > 3:
                    t = traces[len(traces) // 2]
                    self.cov["samples"].append({"spec": spec, "job": t.job, "schedule": t.sched, "log": t.log[:600]})
        if not rej and dist != len(nodes) - 1:
            raise Broken("trace validation visited %d of %d prefixes" % (dist, len(nodes) - 1))
        self.nrej += len(rej)
        done_jobs = set()
        # parents to print the matched prefix
        for c in rej:
            tr = owner[c]
            sig = (tr.job.split(" ")[0], nodes[c]["e"])
            hit = None
            for rx, text in self.known:
                if rx.search("%s:%s:%s" % (tr.job.replace(" ", ","), nodes[c]["e"],
                                           ",".join(map(str, nodes[c]["a"])))):
                    hit = text
                    break
            if hit:
                self.known_hits[hit] = self.known_hits.get(hit, 0) + 1
                continue
            if sig in done_jobs or len(self.violations) >= 5:
                continue
            done_jobs.add(sig)
            repro = True
            if confirm and exe:
                # the log was recorded from the real code in any case; the runtime itself is deterministic, so a
                # different log means the code depends on something outside of the execution (wild pointers, statics)
                again = self.replay(exe, tr, list(opts) + tr.more)
                repro = again is not None and again.log == tr.log
            rp = os.path.join(self.replays, "%s-%d.json" % (self.prop, len(self.violations)))
            with open(rp, "w") as f:
                json.dump({"property": self.prop, "spec": spec, "job": tr.job, "schedule": tr.sched,
                           "explorer_options": list(opts) + tr.more, "rejected_event": nodes[c], "log": tr.log.split(" "),
                           "diagnosis": tr.diag, "replay_gives_the_same_log": repro,
                           "replay": "python3 /verif/tools/replay.py %s" % rp}, f, indent=1)
            self.violations.append(("%s rejects event %s%s of scenario '%s' schedule %s%s" %
                                    (spec, nodes[c]["e"], nodes[c]["a"], tr.job, tr.sched,
                                     (" [" + tr.diag[:300] + "]") if tr.diag else ""), rp))
        return rej

    def undefined_event(self, spec, nodes, out):
        if "The behavior up to this point is" not in out:
            return None
        m = re.findall(r"node = (\d+)", out)
        if not m:
            return None
        parent = {k: i for i, nd in enumerate(nodes) if nd for k in nd["k"]}
        for c in nodes[int(m[-1])]["k"]:
            chain = [c]
            while chain[-1] != 1:
                chain.append(parent[chain[-1]])
            chain.reverse()
            path = os.path.join(self.work, "single.trie")
            with open(path, "w") as f:
                for i, x in enumerate(chain):
                    f.write(json.dumps({**nodes[x], "k": [i + 2] if i + 1 < len(chain) else []}) + "\n")
            rc, _, _, o = self.tlc(spec + "Trace.tla", "Trace.cfg", env={"TRIE": path}, workers=1, expect_ok=False)
            if rc != 0 and "The behavior up to this point is" in o:
                return c
        return None

    def replay(self, exe, tr, opts=()):
        jf = os.path.join(self.work, "replay.jobs")
        of = os.path.join(self.work, "replay.out")
        with open(jf, "w") as f:
            f.write(tr.job + "\n")
        subprocess.run([exe, "--replay", tr.sched, "--seed", str(self.seed), "--out", of] + list(opts) + [jf],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        res = None
        with open(of) as f:
            for line in f:
                p = line.rstrip("\n").split("\t")
                if p[0] == "L":
                    res = Trace(p[1], p[2], p[3], p[4])
        return res

    def violation(self, text, data):
        hit = None
        for rx, t in self.known:
            if rx.search(text):
                hit = t
        if hit:
            self.known_hits[hit] = self.known_hits.get(hit, 0) + 1
            return
        if len(self.violations) >= 5:
            return
        rp = os.path.join(self.replays, "%s-%d.json" % (self.prop, len(self.violations)))
        with open(rp, "w") as f:
            json.dump({"property": self.prop, "what": text, **data}, f, indent=1)
        self.violations.append((text, rp))

    # ------------------------------------------------------------------ finish
    def finish(self):
        for b in self.bg:
            b.result()
        self.cov["design_models"] = self.models
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": self.cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 1),
              "violations": len(self.violations)}
        evd = os.path.join(B.BUILD if "VERIF_BUILD" in os.environ else VERIF, "evidence")
        os.makedirs(evd, exist_ok=True)
        with open(os.path.join(evd, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for t, n in self.known_hits.items():
            print("KNOWN-FINDING: property=%s %s (%d histories)" % (self.prop, t, n))
        for text, rp in self.violations:
            print("VIOLATION property=%s replay=%s" % (self.prop, rp))
            print("  " + text)
        print("%s: %d design states, %d histories of the real code validated, %d rejected, %.1f s" %
              (self.prop, self.cov["states"], self.cov["traces_validated_against_impl"], self.nrej,
               time.time() - self.t0))
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(self.work, ignore_errors=True)
        return 1 if self.violations else 0


def main(table):
    prop = sys.argv[1]
    if prop not in table:
        print("unknown property", prop)
        sys.exit(2)
    ck = Check(prop)
    try:
        table[prop](ck)
        rc = ck.finish()
    except (Broken, B.BuildError) as e:
        print("CHECK-ERROR property=%s: %s" % (prop, e))
        rc = 2
        if ck.violations:  # found before, and what was found stands
            ck.bg = []
            rc = ck.finish()
    sys.stdout.flush()
    os._exit(rc)
