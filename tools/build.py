"""Builds the library under test (from /repo's current working tree) and the harnesses of /verif.

Objects are cached under /verif/.build keyed by a hash of everything that can influence them
(all of /repo/include, /repo/src, the generated config, the harness headers, the source and the flags), so a change
in /repo always leads to a rebuild.
"""
import concurrent.futures as cf
import hashlib
import json
import os
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))
CACHE = os.path.join(BUILD, "cache")


class BuildError(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def tree_hash(dirs):
    h = hashlib.sha256()
    for d in dirs:
        for root, ds, fs in os.walk(d):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(root, f)
                h.update(p.encode())
                with open(p, "rb") as fh:
                    h.update(fh.read())
    return h.hexdigest()


_cfg = {}


def configure(fault="OFF", flags="CORO"):
    """cmake configure of /repo; returns (compile commands, generated include dir)."""
    key = (fault, flags)
    if key in _cfg:
        return _cfg[key]
    d = os.path.join(BUILD, "cfg-%s-%s" % (fault, flags.replace(";", "_")))
    os.makedirs(d, exist_ok=True)
    r = sh(["cmake", "-S", REPO, "-B", d, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=Debug", "-DCMAKE_CXX_COMPILER=g++",
            "-DCMAKE_C_COMPILER=gcc", "-DYACLIB_CXX_STANDARD=20", "-DYACLIB_LOG=DEBUG", "-DYACLIB_FLAGS=" + flags,
            "-DYACLIB_FAULT=" + fault, "-DCMAKE_EXPORT_COMPILE_COMMANDS=ON", "-DFETCHCONTENT_FULLY_DISCONNECTED=ON"])
    if r.returncode:
        raise BuildError("cmake: " + r.stdout[-3000:])
    with open(os.path.join(d, "compile_commands.json")) as f:
        cc = json.load(f)
    _cfg[key] = (cc, os.path.join(d, "include"))
    return _cfg[key]


_th = {}


def thash(gen):
    if gen not in _th:
        _th[gen] = tree_hash([os.path.join(REPO, "include"), os.path.join(REPO, "src"), gen,
                              os.path.join(VERIF, "rt"), os.path.join(VERIF, "harness")])
    return _th[gen]


def compile_one(src, flags, gen, extra=""):
    with open(src, "rb") as f:
        body = f.read()
    key = hashlib.sha256((src + "\0" + " ".join(flags) + "\0" + thash(gen) + extra).encode() + body).hexdigest()[:32]
    os.makedirs(CACHE, exist_ok=True)
    obj = os.path.join(CACHE, key + ".o")
    if not os.path.exists(obj):
        tmp = obj + ".%d.tmp" % os.getpid()
        r = sh(["g++"] + flags + ["-c", src, "-o", tmp])
        if r.returncode:
            raise BuildError("compiling %s failed:\n%s" % (src, r.stdout[-6000:]))
        os.rename(tmp, obj)
    return obj


STD = ["-std=c++20", "-fcoroutines", "-pthread"]
TSAN = ["-fsanitize=thread", "-U__SANITIZE_THREAD__", "-g1", "-O1", "-fno-omit-frame-pointer", "-w"]


def lib_sources(cc):
    out = []
    for e in cc:
        f = e["file"]
        if os.path.abspath(f).startswith(REPO + "/src/"):
            out.append(f)
    return out


def defs_of(cc):
    for e in cc:
        return [x for x in e["command"].split() if x.startswith("-D")]
    return []


def build_rt(name, sources, defines=(), flags="CORO", futex=None):
    """Library + scenarios, instrumented, linked with the controlled runtime. Returns the executable."""
    cc, gen = configure("OFF", flags)
    if futex is not None:
        g2 = os.path.join(BUILD, "gen-futex%d" % futex)
        os.makedirs(os.path.join(g2, "yaclib"), exist_ok=True)
        s = open(os.path.join(gen, "yaclib/config.hpp")).read()
        i = s.rindex("#    define YACLIB_FUTEX")
        j = s.index("\n", i)
        s = s[:i] + "#    define YACLIB_FUTEX %d" % futex + s[j:]
        p = os.path.join(g2, "yaclib/config.hpp")
        if not os.path.exists(p) or open(p).read() != s:
            open(p, "w").write(s)
        gen = g2
    inc = ["-I" + REPO + "/include", "-I" + gen, "-I" + REPO + "/src", "-I" + VERIF + "/rt", "-I" + VERIF + "/harness"]
    fl = STD + TSAN + defs_of(cc) + list(defines) + inc
    jobs = [(s, fl) for s in lib_sources(cc)]
    for s in sources:   # a file, or (file, definitions)
        f, d = (s, []) if isinstance(s, str) else s
        jobs.append((os.path.join(VERIF, "harness", f), fl + list(d)))
    jobs.append((os.path.join(VERIF, "rt/rt.cpp"), ["-std=c++20", "-O2", "-g1", "-w"]))
    # the heaviest first
    jobs.sort(key=lambda j: 0 if "/harness/" in j[0] else 1)
    with cf.ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(lambda j: compile_one(j[0], j[1], gen), jobs))
    h = hashlib.sha256("".join(sorted(objs)).encode()).hexdigest()[:16]
    exe = os.path.join(BUILD, "%s-%s" % (name, h))
    if not os.path.exists(exe):
        r = sh(["g++", "-pthread", "-rdynamic", "-no-pie"] + objs + ["-ldl", "-o", exe + ".tmp"])
        if r.returncode:
            raise BuildError("link: " + r.stdout[-4000:])
        os.rename(exe + ".tmp", exe)
        for f in os.listdir(BUILD):
            if f.startswith(name + "-") and f != os.path.basename(exe):
                try:
                    os.unlink(os.path.join(BUILD, f))
                except OSError:
                    pass
    return exe


def build_plain(name, sources, fault, opt=("-O1", "-g1"), defines=(), san=(), libs=()):
    """Library with the given fault backend + harness, ordinary build."""
    cc, gen = configure(fault)
    inc = ["-I" + REPO + "/include", "-I" + gen, "-I" + REPO + "/src", "-I" + VERIF + "/harness"]
    fl = STD + list(opt) + ["-w"] + list(san) + defs_of(cc) + list(defines) + inc
    jobs = [(os.path.join(VERIF, "harness", s), fl) for s in sources] + [(s, fl) for s in lib_sources(cc)]
    with cf.ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(lambda j: compile_one(j[0], j[1], gen), jobs))
    h = hashlib.sha256("".join(sorted(objs)).encode()).hexdigest()[:16]
    exe = os.path.join(BUILD, "%s-%s" % (name, h))
    if not os.path.exists(exe):
        r = sh(["g++", "-pthread"] + list(san) + objs + list(libs) + ["-o", exe + ".tmp"])
        if r.returncode:
            raise BuildError("link: " + r.stdout[-4000:])
        os.rename(exe + ".tmp", exe)
    return exe


if __name__ == "__main__":
    print(build_rt(sys.argv[1], sys.argv[2:]))
