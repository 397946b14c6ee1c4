#!/usr/bin/env python3
"""catch.py [-j N] [ID[:PROP]...]: run each planted bug's check (or PROP's) on a scratch copy of /repo with the bug."""
import json, os, subprocess, sys, shutil
from concurrent.futures import ThreadPoolExecutor
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
a = sys.argv[1:]
j = 2
if a and a[0] == "-j":
    j = int(a[1]); a = a[2:]
ids = a or sorted(os.listdir(os.path.join(R, "seeded")))


def one(x):
    x, _, p = x.partition(":")
    d = os.path.join(R, "seeded", x)
    if not os.path.isdir(d):
        d = os.path.join("/tmp/extra", x)
    p = p or json.load(open(d + "/meta.json"))["property"]
    w = "/tmp/cw.%s.%s" % (x, p)
    shutil.rmtree(w, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", w], check=True)
    try:
        subprocess.run(["git", "-C", w, "apply", d + "/patch.diff"], check=True)
        with open("/tmp/catch.%s.%s" % (x, p), "w") as f:
            rc = subprocess.run([sys.executable, "check.py", p], cwd=R, stdout=f, stderr=f, env=dict(os.environ, VERIF_REPO=w, VERIF_SEED="1", VERIF_TIER="quick")).returncode
        v = open("/tmp/catch.%s.%s" % (x, p)).read()
        print("%-18s %s %s rc=%d %d violations" % (x, p, "caught" if rc == 1 and "VIOLATION property=" + p in v else "MISSED", rc, v.count("VIOLATION")), flush=True)
    finally:
        shutil.rmtree(w, ignore_errors=True)


with ThreadPoolExecutor(j) as e:
    list(e.map(one, ids))
