"""C19: failed input or output is never reported as success."""
import itertools
from run import Check, TIER

DEEP = TIER == "thorough"
FMT = {"bin": "-B", "dragondos": "-D", "coco": "-C", "srec": "-S", "hex": "-H"}
OUT = {"o": "-o", "l": "-l", "s": "-s", "e": "-E"}
SMALL = {"a.s": " org $1000\nfirst\n lda <1\n include \"i.s\"\n includebin \"b.bin\"\nm macro\n fcb \\1,late&255\n endm\n m 7\n fcc \"text\"\n org $1100\nlate equ 300\n fdb late\n export first\n export m\n end first\n", "i.s": "inc nop\n ldx #inc\n", "b.bin": bytes(range(40))}
TINY = {"a.s": " nop\nl\n export l\n"}
EMPTY = {"a.s": "\n"}
TWO = {"a.s": "xx equ yy+1\n", "b.s": "yy equ 1\n fcb xx\n include \"i.s\"\n", "i.s": " fcb 9\n"}
BIG = {"a.s": " org $100\n includebin \"b.bin\"\n" + "".join("label%d fdb label%d,*\n export label%d\n" % (i, 299 - i, i) for i in range(300)) + " rzb 500\n org $8000\n rzb 4500\n", "b.bin": bytes((i * 7 + 3) & 255 for i in range(9000))}
PROGS = {"small": (SMALL, ["a.s"]), "tiny": (TINY, ["a.s"]), "empty": (EMPTY, ["a.s"]), "two": (TWO, ["a.s", "b.s"]), "big": (BIG, ["a.s"])}


def argv(fmt, outs, main, paths=None):
    a = [FMT[fmt]]
    for o in outs:
        a += [OUT[o], (paths or {}).get(o, o)]
    return a + main


def judge(w, what, args, files, outs, good, mustfail=None, mode="plain", fsize=-1, paths=None, quiet_err=False):
    """good: complete contents by output.  mustfail: None (find out from the faults
    that happened), True, False."""
    names = [(paths or {}).get(o, o) for o in outs]

    def go():
        return w.run(args, files, names, mode=mode, fsize=fsize)

    def wrong(r):
        fired = [x for x in r.extra if x.startswith("!") and not x.endswith(" s")]
        fail = mustfail if mustfail is not None else bool(fired)
        w.stats.outcome(("fault" if fail else "no fault") + ", " + r.status())
        if r.kind != 0 or r.code not in (0, 1):
            return "exit status 0 or 1", r.status() + " " + r.err[:200]
        if r.code == 0 and fail:
            return "exit 1 and a diagnostic (%s)" % (", ".join(fired) or what), "exit 0"
        if r.code == 1 and mustfail is False or r.code == 1 and not fail:
            return "exit 0", "exit 1: " + r.err[:200]
        if r.code == 1 and not r.err.strip() and not quiet_err:
            return "a diagnostic", "exit 1 and nothing on standard error"
        if r.code == 0:
            for o, n in zip(outs, names):
                if o in good and r.files.get(n) != good[o]:
                    g = r.files.get(n)
                    return "complete contents of %s (%d bytes)" % (n, len(good[o])), "no file" if g is None else "%d bytes, different" % len(g)
        w.stats.state((what, tuple(args), r.code, r.err, tuple(sorted((k, len(v)) for k, v in r.files.items()))))
        return None
    x = wrong(go())
    if x:
        w.bad("%s: %s" % (what, " ".join(args)), args, files, x[0], x[1], recheck=lambda: wrong(go()) is not None)


def reference(w, fmt, files, main, outs="olse"):
    r = w.run(argv(fmt, outs, main), files, list(outs))
    if not r.ok:
        raise RuntimeError("fault-free run failed: %r %s" % (files, r.err))
    return r.files


def near(n):
    """Fault positions in a file of n bytes: all of a small one, else around buffer multiples."""
    if n <= 1500 or DEEP:
        return range(n + 2)
    return sorted({p for b in (0, n, *range(0, n, 512)) for p in range(b - 3, b + 4) if 0 <= p <= n + 1} | set(range(0, n, 61)))


def limits(w, arg):
    """The disk fills up at every byte: file size limit, outputs alone and together."""
    for name, (files, main) in PROGS.items():
        for fmt in FMT:
            good = reference(w, fmt, files, main)
            for outs in ("o", "l", "s", "e", "olse", "ol", "se"):
                g = {o: good[o] for o in outs}
                top = max(len(v) for v in g.values())
                if len(outs) == 1 and outs != "o" and fmt != "bin":
                    continue
                for k in w.mine(near(top)):
                    judge(w, "%s: file size limit %d" % (name, k), argv(fmt, outs, main), files, outs, g, mustfail=top > k, fsize=k, quiet_err=True)


def streams(w, arg):
    """Writing fails at every byte of every output; closing fails; opening fails."""
    for name, (files, main) in PROGS.items():
        for fmt in FMT:
            good = reference(w, fmt, files, main)
            for o in "olse":
                if o != "o" and fmt != "bin":
                    continue
                cases = ["w%d" % k for k in near(len(good[o]))] + ["c", "o0"]
                for c in w.mine(cases):
                    f = dict(files)
                    f[o] = (5, c)
                    judge(w, "%s: fault %s in -%s" % (name, c, o), argv(fmt, "olse", main), f, "olse", good)
                    if c[0] != "w" or int(c[1:]) % 7 == 0:
                        judge(w, "%s: fault %s in -%s" % (name, c, o), argv(fmt, o, main), f, o, good)
                        judge(w, "%s: fault %s in -%s" % (name, c, o), ["-q"] + argv(fmt, "esol", main), f, "esol", good)
            # two faults
            for a, b in w.mine(itertools.combinations("olse", 2)):
                for c, d in itertools.product(("w0", "w%d" % (len(good[a]) // 2), "c", "o0"), ("w0", "w%d" % (len(good[b]) // 2), "c", "o0")):
                    f = dict(files)
                    f[a], f[b] = (5, c), (5, d)
                    judge(w, "%s: faults %s in -%s, %s in -%s" % (name, c, a, d, b), argv(fmt, "olse", main), f, "olse", good)


INPUTS = {"passes": ({"a.s": " lda <fwd\n if fwd2\n includebin \"b.bin\"\n endif\n includebin \"b.bin\"\nfwd2 equ 1\nfwd equ 5\n", "b.bin": bytes(range(200))}, ["a.s"]),
          "macro": ({"a.s": "m macro\n include \"\\1\"\n includebin \"&{2}\"\n endm\n m \"i.s\",\"b.bin\"\n m \"i.s\",\"c.bin\"\n", "i.s": " fcb 1\n" * 900, "b.bin": b"x", "c.bin": b"y" * 5000}, ["a.s"]),
          "nested": ({"a.s": " include \"i.s\"\n fcb 1\n", "i.s": "in\n include \"j.s\"\n", "j.s": " fdb in\n includebin \"b.bin\"\n", "b.bin": b"\xff" * 9}, ["a.s"]),
          "late": ({"a.s": " fdb later\n if later\n include \"i.s\"\n endif\nlater equ 1\n", "i.s": " fcb 3,4\n"}, ["a.s"]), "end": ({"a.s": " fcb 1\n end\n" + "; after the end\n" * 600, "b.s": " fcb 2\n"}, ["a.s", "b.s"]),
          "no newline": ({"a.s": " fcb 1", "b.s": " fcb 2 ; last"}, ["a.s", "b.s"]), "long lines": ({"a.s": " fcb " + ",".join(["1"] * 3000) + "\n fcb 2\n", "b.s": ";" + "x" * 20000 + "\n fcb 3\n"}, ["a.s", "b.s"])}
INPUTS.update(PROGS)


def inputs(w, arg):
    """Reading any input fails at every byte, or at the n-th opening; reads are short."""
    for name, (files, main) in INPUTS.items():
        good = reference(w, "bin", files, main)
        for n in files:
            ln = len(files[n])
            cases = ["r%d" % k for k in near(ln)] + ["o%d" % k for k in range(14)] + ["s%d" % k for k in list(range(1, 9)) + [100, 511, 4095]]
            for c in w.mine(cases):
                f = dict(files)
                f["?" + n] = (5, c)
                judge(w, "%s: fault %s in %s" % (name, c, n), argv("bin", "olse", main), f, "olse", good)
                if c[0] == "o":
                    judge(w, "%s: fault %s in %s" % (name, c, n), ["-q"] + argv("hex", "o", main), f, "o", {})


LONG = "n" * 300
BADPATHS = {"missing directory": ("nodir/x", {}), "a directory": ("d", {"d": (1, "")}), "below a file": ("plain/x", {"plain": "z"}), "symlink loop": ("loop", {"loop": (2, "loop")}), "dangling symlink": ("dang", {"dang": (2, "nodir/y")}), "name too long": (LONG, {}), "empty name": ("", {}), "root": ("/", {}), "current directory": (".", {})}
INBAD = dict(BADPATHS)
INBAD.update({"missing": ("none", {}), "dangling": ("dang2", {"dang2": (2, "none")}), "read error": ("/proc/self/mem", {})})


def paths(w, arg):
    """Names that can't be opened, for every output and input; full devices; files that exist already."""
    files, main = SMALL, ["a.s"]
    for fmt, o in w.mine(itertools.product(FMT, "olse")):
        good = reference(w, fmt, files, main)
        for what, (p, extra) in BADPATHS.items():
            f = dict(files)
            f.update(extra)
            for outs in ("olse", o):
                judge(w, "output to " + what, argv(fmt, outs, main, {o: p}), f, outs, {}, mustfail=True, paths={o: p})
        for outs in ("olse", o):
            judge(w, "output to full device", argv(fmt, outs, main, {o: "/dev/full"}), files, outs, {}, mustfail=len(good[o]) > 0, paths={o: "/dev/full"})
        for e, m in ((EMPTY, ["a.s"]), (TINY, ["a.s"])):
            g2 = reference(w, fmt, e, m)
            judge(w, "output to full device", argv(fmt, o, m, {o: "/dev/full"}), e, o, {}, mustfail=len(g2[o]) > 0, paths={o: "/dev/full"})
        for old in ("", "short", "long" * 5000):
            f = dict(files)
            f[o] = old
            judge(w, "existing output", argv(fmt, "olse", main), f, "olse", good, mustfail=False)
        judge(w, "output through symlink", argv(fmt, o, main, {o: "sym"}), dict(files, sym=(2, "target")), o, {}, mustfail=False, paths={o: "sym"})
        judge(w, "output to null device", argv(fmt, o, main, {o: "/dev/null"}), files, o, {}, mustfail=False, paths={o: "/dev/null"})
    ways = {"main": lambda p: ({}, [p]), "main after good": lambda p: ({"g.s": " nop\n"}, ["g.s", p]), "main before good": lambda p: ({"g.s": " nop\n"}, [p, "g.s"]), "include": lambda p: ({"g.s": " nop\n include \"%s\"\n nop\n" % p}, ["g.s"]), "includebin": lambda p: ({"g.s": " nop\n includebin \"%s\"\n nop\n" % p}, ["g.s"]),
            "include in macro": lambda p: ({"g.s": "m macro\n include \"%s\"\n endm\n m\n" % p}, ["g.s"]), "includebin in macro": lambda p: ({"g.s": "m macro\n includebin \"\\1\"\n endm\n m \"%s\"\n" % p}, ["g.s"]), "include in include": lambda p: ({"g.s": " include \"h.s\"\n", "h.s": " include \"%s\"\n" % p}, ["g.s"]),
            "include in a later pass": lambda p: ({"g.s": " fdb late\n if late\n include \"%s\"\n endif\nlate equ 1\n" % p}, ["g.s"]), "includebin in a later pass": lambda p: ({"g.s": " fdb late\n if late\n includebin \"%s\"\n endif\nlate equ 1\n" % p}, ["g.s"]), "last line": lambda p: ({"g.s": " nop\n include \"%s\"" % p}, ["g.s"]), "before END": lambda p: ({"g.s": " includebin \"%s\"\n end\n" % p}, ["g.s"])}
    for (what, (p, extra)), (how, fn), fmt in w.mine(itertools.product(INBAD.items(), ways.items(), FMT)):
        if p == "" and "include" in how or p == "" and how in ("last line", "before END"):
            continue        # no such file name
        f, m = fn(p)
        f.update(extra)
        for outs in ("o", "olse", ""):
            for opt in ([], ["-q"], ["-v"]):
                judge(w, "%s: %s" % (how, what), opt + argv(fmt, outs, m), f, outs, {}, mustfail=True)
    # not read, so no failure
    for how, f in w.mine({"excluded": " if 0\n include \"none\"\n includebin \"none\"\n endif\n nop\n", "macro not called": "m macro\n include \"none\"\n endm\n nop\n", "after END": " nop\n end\n include \"none\"\n", "comment": "; include \"none\"\n nop\n"}.items()):
        judge(w, how, argv("bin", "olse", ["g.s"]), {"g.s": f}, "olse", {}, mustfail=False)


def main():
    c = Check("C19", level="fault_enumeration")
    c.rule = "one evaluation is one execution of the real program with one (or two) faults; two are the same if program, arguments, exit status, diagnostics and sizes of all output files are"
    c.bounds = ["5 programs x 5 formats x each output alone and together: file size limit at %s" % ("every byte" if DEEP else "every byte of outputs up to 1500 bytes, around every 512 bytes of larger ones"), "the same positions for a write error in one output stream with its siblings intact; errors on closing and opening; pairs",
                "%d programs: read error at every byte of every main, INCLUDEd and INCLUDEBIN file, failure of its n-th and later openings, short reads" % len(INPUTS), "%d kinds of name that can't be opened for each output and %d for each of 12 ways to use an input" % (len(BADPATHS), len(INBAD))]
    c.assumptions = ["stream faults are injected into fopen()ed streams: if the program opens files otherwise only the file size limits and names apply, and nothing is expected of a fault that did not happen"]
    for f in (paths, inputs, streams, limits):
        c.explore(f)
    c.finish()
