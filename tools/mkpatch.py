#!/usr/bin/env python3
"""Development aid: mkpatch.py ID FILE OLD NEW [FILE OLD NEW ...] writes /verif/seeded/ID/patch.diff against /repo."""
import os, subprocess, sys, tempfile, shutil
sid, rest = sys.argv[1], sys.argv[2:]
d = tempfile.mkdtemp()
out = ""
for i in range(0, len(rest), 3):
    f, old, new = rest[i:i + 3]
    p = os.path.join(d, f)
    if not os.path.exists(p):
        os.makedirs(os.path.dirname(p), exist_ok=True)
        shutil.copy("/repo/" + f, p)
    s = open(p).read()
    if s.count(old) != 1:
        sys.exit("%d matches in %s: %s" % (s.count(old), f, old))
    open(p, "w").write(s.replace(old, new))
for f in dict.fromkeys(rest[0::3]):
    r = subprocess.run(["git", "diff", "--no-index", "--no-prefix", "/repo/" + f, os.path.join(d, f)], stdout=subprocess.PIPE, text=True)
    ls = r.stdout.split("\n")
    for j, l in enumerate(ls):
        if l.startswith("diff --git"): ls[j] = "diff --git a/%s b/%s" % (f, f)
        elif l.startswith("--- "): ls[j] = "--- a/" + f
        elif l.startswith("+++ "): ls[j] = "+++ b/" + f
    out += "\n".join(x for x in ls if not x.startswith("index "))
os.makedirs("/verif/seeded/" + sid, exist_ok=True)
open("/verif/seeded/%s/patch.diff" % sid, "w").write(out)
shutil.rmtree(d)
r = subprocess.run(["git", "-C", "/repo", "apply", "--check", "/verif/seeded/%s/patch.diff" % sid])
sys.exit(r.returncode)
