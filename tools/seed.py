#!/usr/bin/env python3
"""Plant bugs: seed(id, property, edits, demo, needs, breaks).  Each is confirmed (applies, changes only
original lines, builds, passes the tests, demo 0 without and nonzero with it) before it is kept."""
import json, os, subprocess, sys
SRC, REPO, ROOT = "/repo", "/tmp/seedw", os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "58e3821"


def sh(c, **kw):
    return subprocess.run(c, shell=isinstance(c, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def build():
    """As /opt/vp/build.sh and test.sh, in the scratch copy."""
    return sh("sed s#/repo#%s#g /opt/vp/build.sh | bash" % REPO)


def scratch():
    sh("rm -rf /tmp/seedw; cp -a %s %s" % (SRC, REPO))
    build()


def seed(id, prop, edits, demo, needs, breaks, files=None, force=False):
    d = os.path.join(ROOT, "seeded", id)
    if any(os.path.exists(os.path.join(x, id, "patch.diff")) for x in (ROOT + "/seeded", "/tmp/extra")) and not force and not os.environ.get("RESEED"):
        return
    assert not sh("git -C %s status --porcelain" % REPO).stdout.strip(), "repo dirty"
    try:
        for f, old, new in edits:
            p = os.path.join(REPO, f)
            s = open(p).read()
            assert s.count(old) == 1, (id, f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = sh(["git", "-C", REPO, "diff"]).stdout
        # changed lines must be original ones
        cur = None
        orig_ok = False
        for f in set(e[0] for e in edits):
            bl = sh(["git", "-C", REPO, "blame", "-s", "HEAD", "--", f]).stdout.split("\n")
            n = None
            for l in sh(["git", "-C", REPO, "diff", "-U0", "--", f]).stdout.split("\n"):
                if l.startswith("@@"):
                    a = l.split()[1][1:].split(",")
                    n, k = int(a[0]), int(a[1]) if len(a) > 1 else 1
                    for i in range(n, n + k):
                        if "^" + BASE in bl[i - 1]:
                            orig_ok = True
                        else:
                            print("  note: %s line %d is not original: %s" % (f, i, bl[i - 1]))
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        open(os.path.join(d, "demo.sh"), "w").write("#!/bin/bash\n" + PRE + demo.strip("\n") + "\n")
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        for n, c in (files or {}).items():
            open(os.path.join(d, n), "wb").write(c)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks},
                  open(os.path.join(d, "meta.json"), "w"), indent=1)
        b = build()
        r = sh("sed -e s#/repo#%s#g -e s#/opt/vp/build.sh#/tmp/seedbuild.sh# /opt/vp/test.sh > /tmp/seedtest.sh; sed s#/repo#%s#g /opt/vp/build.sh > /tmp/seedbuild.sh; bash /tmp/seedtest.sh /tmp/seed.json" % (REPO, REPO))
        t = json.load(open("/tmp/seed.json"))
        base = json.load(open("/opt/vp/BASELINE.json"))
        bad = sh(["bash", os.path.join(d, "demo.sh")], cwd=REPO)
    finally:
        sh("git -C %s checkout -- ." % REPO)
    build()
    good = sh(["bash", os.path.join(d, "demo.sh")], cwd=REPO)
    failed = tests_failed(t)
    ok = b.returncode == 0 and not failed and bad.returncode != 0 and good.returncode == 0
    print("%-10s %s build=%d tests_failed=%s demo with=%d without=%d%s" % (
        id, "OK " if ok else "BAD", b.returncode, failed, bad.returncode, good.returncode,
        "" if orig_ok else " (no original line changed!)"))
    if ok and not orig_ok:      # would not count
        sh("mkdir -p /tmp/extra; rm -rf /tmp/extra/%s; mv %s /tmp/extra/" % (id, d))
    if not ok:
        print(b.stdout[-500:], bad.stdout[-500:], good.stdout[-500:])
        for f in os.listdir(d):
            os.unlink(os.path.join(d, f))
        os.rmdir(d)


def tests_failed(t):
    if isinstance(t, dict) and "failed" in t and isinstance(t["failed"], list):
        return t["failed"]
    return [k for k, v in (t.get("tests", t)).items() if v not in ("pass", "passed", "PASS", True)] if isinstance(t, dict) else t


PRE = r'''# exit 0: behaves as it should; nonzero: broken.  Works in a scratch directory only.
asm=$PWD/src/asm6809
w=$(mktemp -d) || exit 2
trap 'rm -rf "$w"' EXIT
cd "$w" || exit 2
hex() { od -An -v -tx1 "$1" | tr -d ' \n'; }
# expect HEX ARGS...: assembles a.s with ARGS, raw output must be HEX
expect() { local x=$1; shift; rm -f o; "$asm" -q "$@" -o o a.s || exit 1; [ "$(hex o)" = "$x" ] || { echo "got $(hex o) expected $x"; exit 1; }; }
# reject LINE ARGS...: must fail with a diagnostic for a.s:LINE, no output
reject() { local x=$1; shift; rm -f o; if "$asm" -q "$@" -o o a.s 2>err; then echo "accepted"; exit 1; fi; [ ! -e o ] || exit 1; grep -q "a\.s:$x:" err || { cat err; exit 1; }; }
'''
if __name__ == "__main__":
    sys.path.insert(0, os.path.join(ROOT, "tools"))
    sys.modules["seed"] = sys.modules["__main__"]
    scratch()
    import bugs
    sh("rm -rf /tmp/seedw")
