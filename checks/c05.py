"""C05: relative operands, all targets."""
import itertools
import isa as ISA
from batch import *
from contexts import CTX, surround
from common import check_prog
from refasm import B, I, L, P, PC, R, S, U, Line
from run import Check, TIER

DEEP = TIER == "thorough"
RELS = [m for m in sorted(ISA.OPS[9]) if ISA.OPS[9][m].kind == ISA.REL]


def v(x, p=""):
    return ("v", x, p)


PCR = ("r", "pcr", "")


def shard(w, arg):
    addrs = [0, 0x1000, 0x7f80, 0x8000, 0xfe00] + ([0x81, 0x4321, 0xff7c, 0xfff0] if DEEP else [])
    kinds = ["bra", "lbra", "lbeq", "lda", "ldy", "[lda]", "lda>", "aim", "ldq", "[ldy]"]
    jobs = [(a, k, lo) for a in addrs for k in kinds for lo in range(0, 65536, 2048)]
    for at, k, lo in w.mine(jobs):
        # the same address for every line: ORG before each, PUT apart
        lines, exp, rej, rejl = [], [], [], []
        for t in range(lo, lo + 2048):
            m, ops, isa = {"bra": ("bra", (v(t),), 9), "lbra": ("lbra", (v(t),), 9), "lbeq": ("lbeq", (v(t),), 9),
                           "lda": ("lda", (v(t), PCR), 9), "ldy": ("ldy", (v(t), PCR), 9),
                           "[lda]": ("lda", (("l", [v(t), PCR]),), 9), "[ldy]": ("ldy", (("l", [v(t), PCR]),), 9),
                           "lda>": ("lda", (v(t, ">"), PCR), 9),
                           "aim": ("aim", (v(7, "#"), v(t), PCR), 3), "ldq": ("ldq", (v(t), PCR), 3)}[k]
            txt = optext(ops, "lit" if t & 1 else "hex", {})
            l = "\torg\t%d\n\tput\t%d\n\t%s\t%s" % (at, 8 * len(exp), m, txt)
            try:
                b, _ = ISA.encode(isa, m, ops, at, None)
                lines.append((l, "\t%s\t%s" % (m, txt)))
                exp.append(b)
            except ISA.Err:
                rejl.append("\torg\t%d\n\t%s\t%s" % (at, m, txt))
        place(w, isa, at, lines, exp)
        reject(w, isa, at, rejl)
        w.stats.state((at, k, lo, len(exp)))
        w.stats.info["targets accepted"] = w.stats.info.get("targets accepted", 0) + len(exp)
        w.stats.info["targets rejected"] = w.stats.info.get("targets rejected", 0) + len(rejl)


def place(w, isa, at, lines, exp):
    if not exp:
        return
    args = (["-3"] if isa == 3 else []) + ["-q", "-B", "-o", "o", "a.s"]
    src = "\n".join(l for l, _ in lines) + "\n"
    want = b"".join(b + bytes(8 - len(b)) for b in exp[:-1]) + exp[-1]
    r = w.run(args, {"a.s": src}, ["o"])
    w.stats.transitions += len(exp)
    if r.ok and r.files.get("o") == want:
        w.stats.outcome("reached")
        return
    bad = 0
    for (l, t), b in zip(lines, exp):
        s1 = "\torg\t%d\n%s\n" % (at, t)
        r1 = w.run(args, {"a.s": s1}, ["o"])
        if not (r1.ok and r1.files.get("o") == b):
            bad += 1
            w.bad("at $%04X: %s" % (at, t.strip()), args, {"a.s": s1}, b.hex(" "),
                  r1.status() + " " + r1.files.get("o", b"").hex(" ") + r1.err[:200],
                  recheck=lambda: w.run(args, {"a.s": s1}, ["o"]).key() == r1.key())
            if bad > 8:
                return
    if not bad:
        w.bad("batch differs at $%04X" % at, args, {"a.s": src}, "%d bytes" % len(want), r.status() + r.err[:300])


def reject(w, isa, at, rejl):
    if not rejl:
        return
    args = (["-3"] if isa == 3 else []) + ["-q", "-B", "-o", "o", "a.s"]
    src = "\n".join(rejl) + "\n"
    r = w.run(args, {"a.s": src}, ["o"])
    w.stats.transitions += len(rejl)
    nums = set(int(x) for x in re.findall(r"^error: a\.s:(\d+):", r.err, re.M))
    miss = [i for i in range(len(rejl)) if 2 * i + 2 not in nums]
    if r.failed and "o" not in r.files and not miss:
        w.stats.outcome("rejected")
        return
    n = 0
    for i in miss or range(len(rejl)):
        r1 = w.run(args, {"a.s": rejl[i] + "\n"}, ["o"])
        if not (r1.failed and "a.s:2:" in r1.err and "o" not in r1.files):
            n += 1
            w.bad("out of range: " + rejl[i].replace("\n", ";"), args, {"a.s": rejl[i] + "\n"}, "rejected at line 2",
                  r1.status() + " " + r1.files.get("o", b"").hex(" ") + r1.err[:200],
                  recheck=lambda: w.run(args, {"a.s": rejl[i] + "\n"}, ["o"]).key() == r1.key())
            if n > 8:
                return
    if not n:
        w.bad("out of range batch", args, {"a.s": src}, "all lines rejected", r.status() + " missing %s" % miss[:5])


EDGES = [0, 0x10, 0x90, 0x7ff0, 0x8000, 0xff60, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0xff00, 0xff7c, 0xff7f, 0xff80, 0xff90, 0xffc0,
         0xffef, 0xfff0, 0xfff1, 0xfff2, 0xfff3, 0xfff4, 0xfff5, 0xfff6, 0xfff7, 0xfff8, 0xfff9, 0xfffa, 0xfffb]
SOME = ["bra", "bsr", "lbra", "lbne", "lda", "ldy", "leax", "aim", "ldq", "jsr"]


def every(w, arg):
    """Every instruction address, targets at both edges of the short range and far away."""
    cs = [("bra", 9, ""), ("bne", 9, ""), ("lbra", 9, ""), ("lbne", 9, ""), ("lda", 9, ",pcr"), ("lda", 9, "]"), ("cmpy", 9, ",pcr"), ("tim", 3, ",pcr"),
          ("tim", 3, "]")]
    for (m, isa, sh), lo in w.mine(itertools.product(cs, range(0, 65536, 1024))):
        n = len(ISA.opbytes(ISA.OPS[isa][m].inh or ISA.OPS[isa][m].idx)) + (2 if sh else 1) + (m == "tim")
        lines, exp, rej = [], [], []
        for at in range(lo, lo + 1024):
            if at + n + 2 > 0x10000:
                continue
            for d in (-130, -129, -128, 0, 127, 128, 129, 0x4000, -0x4000):
                t = (at + n + d) & 0xffff
                ops = (v(t),) if not sh else (v(t), PCR) if sh != "]" else (("l", [v(t), PCR]),)
                if m == "tim":
                    ops = (v(0, "#"),) + ops
                txt = optext(ops, "lit", {})
                try:
                    b, _ = ISA.encode(isa, m, ops, at, None)
                    lines.append(("\torg\t%d\n\tput\t%d\n\t%s\t%s" % (at, 8 * len(exp), m, txt), "\t%s\t%s" % (m, txt)))
                    exp.append(b)
                except ISA.Err:
                    rej.append("\torg\t%d\n\t%s\t%s" % (at, m, txt))
        for i in range(0, len(exp), 4096):
            place2(w, isa, lo, lines[i:i + 4096], exp[i:i + 4096])
        for g in chunked(rej, 2048):
            reject(w, isa, lo, g)
        w.stats.state((m, sh, lo))


def place2(w, isa, at, lines, exp):
    place(w, isa, at, [("\n".join([l.split("\n")[0], "\tput\t%d" % (8 * i), l.split("\n")[2]]), l.split("\n")[0] + "\n" + t)
                       for i, (l, t) in enumerate(lines)], exp)


def edges(w, arg):
    """Every relative instruction at both edges of its range, at addresses around the wrap, label
    targets before and after."""
    jobs = [(isa, m) for isa in (9, 3) for m in RELS] + \
           [(isa, m) for isa in (9, 3) for m in sorted(ISA.OPS[isa]) if ISA.OPS[isa][m].idx is not None]
    for isa, m in w.mine(jobs):
        op = ISA.OPS[isa][m]
        for at in EDGES if DEEP else EDGES[m not in SOME:6 if m not in SOME else None]:
            lines, exp, rej = [], [], []
            deltas = list(range(-140, -115)) + list(range(-6, 8)) + list(range(115, 140)) + [-32768, 32767, 300, -300]
            for d in deltas:
                t = at + d
                if not 0 <= t <= 0xffff:
                    if op.kind != ISA.REL:
                        continue
                    t &= 0xffff
                shapes = [(v(t),)] if op.kind == ISA.REL else \
                    [(v(t), PCR), (("l", [v(t), PCR]),), (v(t, ">"), PCR), (("l", [v(t, ">"), PCR]),)] + ([(v(t, "<"), PCR), (("l", [v(t, "<"), PCR]),)] if -120 < d < 120 else [])
                for ops in shapes:
                    if m in ("oim", "aim", "eim", "tim"):
                        ops = (v(1, "#"),) + ops
                    txt = optext(ops, "lit", {})
                    try:
                        b, _ = ISA.encode(isa, m, ops, at, None)
                        lines.append(("\torg\t%d\n\tput\t%d\n\t%s\t%s" % (at, 8 * len(exp), m, txt), "\t%s\t%s" % (m, txt)))
                        exp.append(b)
                    except ISA.DontCare:
                        pass
                    except ISA.Err:
                        rej.append("\torg\t%d\n\t%s\t%s" % (at, m, txt))
            place(w, isa, at, lines, exp)
            reject(w, isa, at, rej)
        w.stats.state((isa, m))


def labels(w, arg):
    """Branch over n bytes to a label, backward and forward: the label decides, not a number."""
    for k, n in w.mine([(k, n) for k in ("bra", "lbra", "bsr", "lda", "leax", "ldy") for n in range(0, 300)]):
        for fwd in (False, True):
            for mode in ("pcr", "[pcr]"):
                if k in ("bra", "lbra", "bsr") and mode == "[pcr]":
                    continue
                head, size = None, None
                base = 0x4000
                for guess in (2, 3, 4, 5):      # the size consistent with the distance
                    src_at = base if fwd else base + n
                    tgt = base + guess + n if fwd else base
                    rel = k in ("bra", "lbra", "bsr")
                    ops = (v(tgt),) if rel else (v(tgt), PCR) if mode == "pcr" else (("l", [v(tgt), PCR]),)
                    try:
                        b, _ = ISA.encode(9, k, ops, src_at, None)
                    except ISA.Err:
                        b = None
                        break
                    if len(b) == guess:
                        break
                else:
                    continue
                o = "t1" if rel else "t1,pcr" if mode == "pcr" else "[t1,pcr]"
                if fwd:
                    src = "\torg\t$4000\n\t%s\t%s\n\trmb\t%d\nt1\tfcb\t$99\n" % (k, o, n)
                    want = None if b is None else b + bytes(n) + b"\x99"
                else:
                    src = "\torg\t$4000\nt1\tfcb\t$98\n\torg\t$4000+%d\n\t%s\t%s\n" % (n, k, o)
                    want = None if b is None else (b"\x98" + bytes(n - 1) if n else b"") + b
                    if n == 0:
                        src = "\torg\t$4000\nt1\t%s\t%s\n" % (k, o)
                args = ["-q", "-o", "o", "a.s"]
                r = w.run(args, {"a.s": src}, ["o"])
                w.stats.transitions += 1
                w.stats.state((k, n, fwd, mode))
                good = (r.failed and "o" not in r.files) if want is None else (r.ok and r.files.get("o") == want)
                w.stats.outcome("label rejected" if want is None else "label reached")
                if not good:
                    w.bad("label: " + src.replace("\n", ";"), args, {"a.s": src}, want and want.hex(" "),
                          r.status() + " " + r.files.get("o", b"").hex(" ") + r.err[:200],
                          recheck=lambda: w.run(args, {"a.s": src}, ["o"]).key() == r.key())


def beyond(w, arg):
    """Targets given as numbers outside 0..65535 of every magnitude: the same as modulo 65536."""
    ks = sorted({sg * k for k in (1, 2, 3, 4, 0x7fff, 0x8000, 0x10000, 0x10001, 1 << 31, (1 << 31) - 1, 1 << 46) for sg in (1, -1)})
    forms = [lambda t: L("bra", t), lambda t: L("lbra", t), lambda t: L("lbeq", t), lambda t: L("bsr", t), lambda t: L("lda", t, R("pcr")), lambda t: L("ldy", ("list", (t, R("pcr")))), lambda t: L("leay", P(">", t), R("pcr")), lambda t: L("aim", P("#", I(3)), t, R("pcr"))]
    for k, f in w.mine(itertools.product(ks, forms)):
        for at in (0, 0x20, 0x4000, 0x7ff0, 0x8000, 0xff90, 0xfff0):
            for d in (-0x8000, -300, -130, -126, -50, 0, 1, 100, 127, 131, 132, 300, 0x7fff):
                n = at + d + k * 0x10000
                e = I(n) if n >= 0 else U("-", I(-n))
                check_prog(w, [L("org", I(at)), f(e)], what="target beyond 64K", isa=3)
            for d in (-20, 5, 1000):
                e = B("+", S("tt"), I(k * 0x10000)) if k > 0 else B("-", S("tt"), I(-k * 0x10000))
                check_prog(w, [L("org", I(at)), f(e), L("equ", B("+", I(at), I(d)) if d > 0 else B("-", I(at), I(-d)), label="tt")], what="symbol beyond 64K", isa=3)


def surrounded(w, arg):
    """Branches and PCR operands to labels at every distance near an edge, in every kind of surroundings."""
    forms = [lambda t: L("bra", t), lambda t: L("lbne", t), lambda t: L("lda", t, R("pcr")), lambda t: L("ldx", ("list", (t, R("pcr")))), lambda t: L("leay", P(">", t), R("pcr")), lambda t: L("aim", P("#", I(3)), t, R("pcr")), lambda t: L("leax", P("<", t), R("pcr")), lambda t: L("ldu", ("list", (P("<", t), R("pcr"))))]

    def gen():
        for f in forms:
            for d in ((0, 5, 122, 123, 124, 125, 126, 127, 128, 129, 300) if not DEEP else range(0, 300)):
                yield [f(S("kq1")), L("rmb", I(d)), Line("kq1"), L("nop")]
                yield [Line("kq1"), L("rmb", I(d)), f(S("kq1")), L("nop")]
                yield [L("nop", label="kq1"), f(B("+", S("kq1"), I(d))), f(B("-", PC, I(d))), L("nop")]
    surround(w, gen(), "relative", isa=3)
    for a in (0x100, 0x4010, 0xff80):
        surround(w, [[L("org", I(a))] + [f(I((a + d) & 0xffff)) for f in forms[:5] for d in (40, 60, 80)]], "relative to a number", isa=3)


def main():
    c = Check("C05")
    c.bounds = ["all 65536 targets x %d instruction addresses x 10 instruction forms (short, long, PCR direct, indirect, forced, after an "
                "immediate, two-byte opcodes)" % (9 if DEEP else 5),
                "both edges of the range for every relative and every PCR-capable instruction of both ISAs at up to %d addresses" % len(EDGES),
                "every instruction address 0..65535 with targets at and beyond both edges, short and long branches, PCR direct and indirect, two-byte opcodes, after an immediate",
                "label targets at every distance 0..299, before and after"]
    c.assumptions = ["lib/isa.py: displacement is relative to the end of the instruction, modulo 65536"]
    c.explore(shard)
    c.explore(edges)
    c.explore(every)
    c.explore(labels)
    c.explore(beyond)
    c.bounds.append("8 forms x 13 distances given as numbers up to 2**46 * 65536 above or below, at 7 addresses")
    c.explore(surrounded)
    c.bounds.append(CTX % "branches and PCR operands over distances near every edge")
    c.finish()
