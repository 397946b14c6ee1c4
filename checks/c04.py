"""C04: direct page."""
import isa as ISA
from batch import *
from common import check_prog
from explore import *
from refasm import A, L, I, S, STR, P, B, PC
from contexts import CTX, surround
from run import Check, TIER

DEEP = TIER == "thorough"
DPS = [None, 0, 0x12, 0xff] + ([1, 0x7f, 0x80, 0xfe] if DEEP else [])


def v(x, p=""):
    return ("v", x, p)


def addresses(w, arg):
    """Every address, every way of forcing, as literal and as symbol."""
    jobs = [(dp, p, st, lo) for dp in DPS for p in ("", "<", ">") for st in ("lit", "sym", "fwd")
            for lo in range(0, 65536, 4096) if st == "lit" or p == ""]
    for dp, p, st, lo in w.mine(jobs):
        for m in ("lda", "jsr") if DEEP else ("lda",):
            for base in range(lo, lo + 4096, 2048):
                env, items = {}, []
                for a in range(base, base + 2048):
                    items.append(make(m, (v(a, p),), st, env))
                run_ok(w, 9, items, 0x4000, dp, env, st == "fwd", "address")
        w.stats.state((dp, p, st, lo))


def instrs(w, arg):
    """Every instruction with a direct form, at the edges of pages."""
    jobs = [(isa, m) for isa in (9, 3) for m in sorted(ISA.OPS[isa])
            if getattr(ISA.OPS[isa][m], "dir", None) is not None or ISA.OPS[isa][m].kind == ISA.LEAO]
    for isa, m in w.mine(jobs):
        for dp in (None, 0, 1, 0x12, 0x80, 0xff):
            env, items = {}, []
            al = sorted({x & 0xffff for d in (0, 1, 0x12, 0x80, 0xff) for b in (d << 8,) for x in
                         (b, b + 1, b + 0x7f, b + 0x80, b + 0xff, b - 1, b + 256)})
            for a in al + [-1, -256, -0x8000, 0x10012, 0x11234]:
                for p in ("", "<", ">"):
                    for ops in ([(v(a, p),)] if m not in ("oim", "aim", "eim", "tim") else
                                [(v(i, "#"), v(a, p)) for i in (0, 0x5a, 0xff, 256)]):
                        items += [make(m, ops, "lit", env), make(m, ops, "expr", env)]
            run_ok(w, isa, items, 0x1200, dp, env, False, "direct/extended")
            run_ok(w, isa, items, 0x1200, dp, env, True, "direct/extended, forward")
        w.stats.state((isa, m))


ALPHA = [L("lda", I(0x1234, "$1234")), L("lda", I(0x34, "$34")), L("sta", S("fw")), L("jmp", S("lab")),
         L("setdp", I(0)), L("setdp", I(0x12, "$12")), L("setdp", I(0x112, "$112")), L("setdp", I(-1)),
         L("setdp", S("fdp")), L("section", STR("A")), L("section", STR("CODE")), L("data"),
         L("lda", I(0x1134, "$1134"), label="lab")]
OPTS = [None, -1, 0, 0x12, 0x112]


def histories(w, arg):
    tail = [L("equ", I(0x1256), label="fw"), L("equ", I(0x12), label="fdp")]
    n = arg
    for s in w.mine(itertools.product(seqs(range(len(ALPHA)), n), OPTS)):
        idx, o = s
        if not any(i < 4 or i == 12 for i in idx):
            continue
        if o not in (None, 0x12) and len(idx) > n - 1:
            continue
        if idx.count(12) > 1:
            continue
        lines = [ALPHA[i] for i in idx]
        if 3 in idx and 12 not in idx:
            lines = [L("equ", I(0x1299), label="lab")] + lines
        check_prog(w, [L("org", I(0x1200))] + lines + tail, setdp=o, what="history, --setdp %s" % o)


def setdps(w, arg):
    """SETDP with every page and with values beyond a page, negative and huge: the low byte, or none."""
    vals = list(range(-300, 1030)) + sorted({s * (k << b) + d for b in (8, 9, 12, 15, 16, 17, 24, 31, 32, 33, 48, 62)
                                             for k in (1,) for s in (1, -1) for d in (-256, -1, 0, 1, 0x34, 0x1234)})
    for g in w.mine(list(chunked([(x, st) for x in vals for st in ("lit", "sym", "fwd")], 40))):
        lines, tail = [L("org", I(0x2000))], []
        for j, (x, st) in enumerate(g):
            if st == "fwd":
                tail.append(L("equ", I(x), label="dq%d" % j))
            if st == "sym":
                lines.append(L("equ", I(x), label="dq%d" % j))
            lines.append(L("setdp", I(x) if st == "lit" else S("dq%d" % j)))
            d = x & 255
            for a in {d << 8 | 0x42, (d ^ 1) << 8 | 0x42, 0x42, 0xff42}:
                lines.append(L("lda", I(a)))
        check_prog(w, lines + tail, what="SETDP values")


def options(w, arg):
    """Every 8-bit --setdp value in every notation, against SETDP-free code in two sections."""
    jobs = []
    for x in list(range(256)) + [256, 0x112, 0xffff]:
        for t in ["%d" % x, "$%x" % x, "$%X" % x, "0x%x" % x, "@%o" % x, "%" + bin(x)[2:], "0b" + bin(x)[2:]]:
            jobs.append((t, x & 0xff))
    jobs += [("-1", None), ("-$1", None), ("-128", None), ("-0", 0)]
    for t, dp in w.mine(jobs):
        d = dp if dp is not None else 0x55
        src = "\tlda\t$%02x80\n\tlda\t$%02x00\n\tsection\t\"B\"\n\tlda\t$%02xff\n\tlda\t$%02xff\n" % (d, (d + 1) & 255, d, d ^ 0x80)
        want = b""
        for a in (d << 8 | 0x80, ((d + 1) & 255) << 8, d << 8 | 0xff, (d ^ 0x80) << 8 | 0xff):
            want += ISA.encode(9, "lda", (v(a),), 0, dp)[0]
        for args in (["--setdp", t], ["--setdp=" + t]):
            args = args + ["-o", "o", "a.s"]
            r = w.run(args, {"a.s": src}, ["o"])
            w.stats.transitions += 4
            w.stats.state((t, r.files.get("o")))
            w.stats.outcome("option")
            if not r.ok or r.files.get("o") != want:
                w.bad("--setdp %s" % t, args, {"a.s": src}, want.hex(" "), r.status() + " " + r.files.get("o", b"").hex(" "),
                      recheck=lambda: w.run(args, {"a.s": src}, ["o"]).key() == r.key())


def surrounded(w, arg):
    """Short histories of SETDP and accesses in every kind of surroundings, some with SETDP in a file or a macro."""
    al = [[L("lda", I(0x1234))], [L("sta", S("kfw"))], [L("setdp", I(0x12))], [L("setdp", I(0))], [L("setdp", I(-1))], [L("include", STR("dp.s"))], [L("section", STR("A"))], [L("code")], [L("jmp", S("lab0"))]]
    fs = {"dp.s": [L("setdp", I(0x34)), L("lda", I(0x3456))]}
    for o in (None, 0x34):
        surround(w, ([L("lda", I(0x3412))] + cat(s) + [L("ldx", I(0x12ff)), L("ldx", I(0x34ff)), L("equ", I(0x3477), label="lab0"), L("equ", I(0x1256), label="kfw")] for s in seqs(al, 4 if DEEP else 3)), "SETDP", extra=fs, setdp=o)


SCOPES = [[L("setdp", I(0x12))], [L("setdp", I(-1))], [L("mdp", I(0x34))], [L("mdp", I(-1))], [L("mmd", I(0x12))], [L("mdl")], [L("mif", I(0))], [L("mif", I(1))], [L("include", STR("dp.s"))], [L("include", STR("dpm.s"))], [L("section", STR("A"))], [L("code")]]


def scopes(w, n):
    """Histories of SETDP directly, by macros (nested, conditional), by files and by macros in files, each followed by accesses."""
    head = [L("macro", label="mdp"), L("setdp", A(1)), L("endm"), L("macro", label="mmd"), L("lda", I(0x3456)), L("mdp", A(1)), L("lda", I(0x3456)), L("endm"), L("macro", label="mdl"), L("lda", I(0x1256)), L("lda", I(0x3456)), L("endm"),
            L("macro", label="mif"), L("if", A(1)), L("setdp", I(0x12)), L("else"), L("setdp", I(0x34)), L("endif"), L("endm")]
    fs = {"dp.s": [L("lda", I(0x3456)), L("setdp", I(0x34)), L("lda", I(0x3456))], "dpm.s": [L("mdp", I(0x12)), L("lda", I(0x1256)), L("include", STR("dpn.s"))], "dpn.s": [L("lda", I(0x3456)), L("mmd", I(0x34))]}
    acc = [L("lda", I(0x1234)), L("sta", I(0x3456)), L("ldx", I(0x56))]
    for s, o in w.mine(itertools.product(seqs(range(len(SCOPES)), n), (None, 0x12, 0))):
        lines = head + acc
        for i in s:
            lines = lines + SCOPES[i] + acc
        check_prog(w, {"a.s": lines, **fs}, setdp=o, what="scope of SETDP")


def main():
    c = Check("C04")
    n = 5 if DEEP else 4
    c.bounds = ["all 65536 addresses x direct pages %s x (no prefix, <, >), as literal, earlier and later symbol" % DPS,
                "every instruction with a direct form, both ISAs, at page edges x 6 direct pages x 3 prefixes",
                "every history of up to %d lines over %d (SETDP, SECTION, accesses, forward symbols) x --setdp option" % (n, len(ALPHA)),
                "SETDP with every value -300..1029 and around powers of two to 2^62, as literal, earlier and later symbol",
                "every 8-bit --setdp value in seven notations"]
    c.assumptions = ["lib/isa.py, lib/refasm.py: the direct page in force is the section's last SETDP in this pass, else the option"]
    c.explore(addresses)
    c.explore(instrs)
    c.explore(histories, n)
    c.explore(setdps)
    c.explore(options)
    c.explore(surrounded)
    c.bounds.append("all histories of up to %d of %d ways to set the page (directly, in macros, nested and conditional ones, in files, in macros in files, sections), accesses after each, x 3 options" % (5 if DEEP else 4, len(SCOPES)))
    c.explore(scopes, 5 if DEEP else 4)
    c.bounds.append(CTX % "all sequences of up to 3 of 9 accesses and ways of setting the page")
    c.finish()
