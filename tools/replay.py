#!/usr/bin/env python3
"""replay.py FILE: runs the schedule of a reported violation again on the code in /repo and prints the log."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import framework as FW  # noqa: E402

d = json.load(open(sys.argv[1]))
print(json.dumps(d, indent=1))
if "schedule" in d:
    import glob
    ck = FW.Check("replay-" + d["property"])
    for exe in glob.glob(FW.B.BUILD + "/*-????????????????"):
        try:
            t = ck.replay(exe, FW.Trace(d["job"], d["schedule"], "", ""), d["explorer_options"])
        except Exception:
            continue
        if t:
            print("replayed with", exe)
            print("\n".join(t.log.split(" ")))
            print(t.diag)
