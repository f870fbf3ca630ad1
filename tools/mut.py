#!/usr/bin/env python3
"""Development aid: runs checks against a scratch copy of /repo with a change.

mut.py C07[,C04] FILE OLD NEW [FILE OLD NEW ...]   or   mut.py C07 patch.diff
"""
import os
import shutil
import subprocess
import sys
import tempfile

props, rest = sys.argv[1], sys.argv[2:]
BASE = os.environ.get("MUT_BASE", "/repo")
d = tempfile.mkdtemp(prefix="mut-")
src = os.path.join(d, "repo")
subprocess.run(["rsync", "-a", "--exclude", ".git", "--exclude", "build*", BASE + "/", src + "/"], check=False) \
    if shutil.which("rsync") else shutil.copytree(BASE, src, ignore=shutil.ignore_patterns(".git", "build*"))
if len(rest) == 1:
    r = subprocess.run(["patch", "-p1", "-s", "-d", src, "-i", os.path.abspath(rest[0])])
    if r.returncode:
        sys.exit("patch failed")
for i in range(0, len(rest) - 2, 3):
    f = os.path.join(src, rest[i])
    s = open(f).read()
    if s.count(rest[i + 1]) < 1:
        sys.exit("no match: " + rest[i + 1])
    open(f, "w").write(s.replace(rest[i + 1], rest[i + 2], 1))
env = dict(os.environ, VERIF_REPO=src, VERIF_BUILD=os.path.join(d, "b"))
for p in props.split(","):
    r = subprocess.run([sys.executable, os.path.join(os.path.dirname(os.path.abspath(__file__)), "check.py"), p], env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    out = r.stdout.strip().split("\n")
    print("== %s exit %d" % (p, r.returncode))
    print("\n".join(x[:400] for x in out[-6:]))
shutil.rmtree(d)
