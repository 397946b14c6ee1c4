"""C15: symbols and exports files, and reading them back."""
import itertools, math, re
import formats as F
import isa as ISA
import refasm as RA
from batch import chunked
from common import expectation, observed, opt_args, parse_symbols, parse_value, reference, show
from explore import *
from refasm import L, I, S, STR, B, U, T, A, ID, PC, P, R, V, EMPTY, Line
from contexts import CTX, surround
from run import Check, TIER

DEEP = TIER == "thorough"


def parse_exports(t):
    """({symbol: value}, {macro: [line]}) of an exports file."""
    syms, macros, ls, i = {}, {}, t.split("\n"), 0
    if ls[-1] != "":
        raise F.Bad("last line unfinished")
    ls.pop()
    while i < len(ls):
        f = ls[i].split("\t")
        if len(f) == 2 and f[1] == "macro":
            if f[0] in macros or f[0] in syms:
                raise F.Bad("exported twice: " + f[0])
            d, b = 1, []
            while True:
                i += 1
                if i >= len(ls):
                    raise F.Bad("unfinished macro " + f[0])
                g = ls[i].split("\t")
                op = g[1].lower() if len(g) > 1 else ""
                d += (op == "macro") - (op == "endm")
                if not d:
                    break
                b.append(ls[i])
            macros[f[0]] = b
        else:
            for k, v in parse_symbols(ls[i]).items():
                if k in syms or k in macros:
                    raise F.Bad("exported twice: " + k)
                syms[k] = v
        i += 1
    return syms, macros


def names(txt):
    s, m = parse_exports(txt)
    return sorted(s), sorted(m)


def veq(a, b):
    return a == b and type(a) == type(b)


def literal(v):
    """An expression of that value."""
    if isinstance(v, bool) or isinstance(v, int):
        return I(v) if v != -1 << 63 else B("-", I(-(1 << 63) + 1), I(1))
    if isinstance(v, float):
        if math.isinf(v):
            return B("/", ("flt", math.copysign(1.0, v)) if v > 0 else U("-", ("flt", 1.0)), I(0))
        return ("flt", v) if v >= 0 and math.copysign(1, v) > 0 else U("-", ("flt", -v))
    if isinstance(v, str):
        return STR(v)
    return R(v[1], v[2])


def uses(n, v):
    """Lines that show the value of symbol n in the code."""
    if isinstance(v, str):
        return [L("fcn", S(n)), L("fqb", B("==", S(n), STR(v)))] + ([L("fcc", STR("<"), S(n))])
    if isinstance(v, tuple):
        if v[1] in ("x", "y", "u", "s"):
            return [L("lda", EMPTY, S(n))] if v[2] != "p-" else [L("tfm", S(n), R("y" if v[1] != "y" else "x", "p-"))]
        if v[1] == "pcr":
            return [L("leax", I(5), S(n))]
        return [L("tfr", S(n), R(v[1]))] if not v[2] and v[1] != "q" else []
    if isinstance(v, float):
        return [L("fqb", B("==", S(n), literal(v)), *([B("*", S(n), ("flt", 1024.0))] if abs(v) < 1e6 else []))] if not math.isinf(v) else [L("fqb", B(">", S(n), I(1)))]
    return [L("fqb", S(n), B(">>", S(n), I(32)))]


def filestep(w, files, main, args, want, what, fname, opt):
    """First run: write the file.  Returns its text or None."""
    txt = {n: RA.text(ls) if isinstance(ls, list) else ls for n, ls in files.items()}
    a = args + ["-S", "-o", "o", opt, fname] + list(main)
    r = w.run(a, txt, ["o", fname])
    bad = None
    if not r.ok or fname not in r.files:
        bad = "%s %s" % (r.status(), r.err[:200])
    else:
        t = r.files[fname].decode("latin-1")
        try:
            s, m = parse_exports(t)
            if {k: (type(v), v) for k, v in s.items()} != {k: (type(v), v) for k, v in want[0].items()} or (want[1] is not None and sorted(m) != sorted(want[1])):
                bad = "%r, macros %s" % (s, sorted(m))
        except F.Bad as e:
            bad = "malformed: %s" % e
    if bad:
        w.bad("%s: %s" % (what, " / ".join(x for x in txt[main[0]].split("\n") if x)[:300]), a, txt, "%s lists %r%s" % (fname, want[0], "" if want[1] is None else ", macros %s" % sorted(want[1])), bad,
              recheck=lambda: w.run(a, txt, ["o", fname]).key() == r.key())
        return None
    return t


def readback(w, lines, extra, ref, args, what, head=""):
    """Second run: a program that includes the file gives what the reference gives."""
    exp = expectation(ref)
    w.stats.state(exp)
    w.stats.transitions += len(lines)
    w.stats.outcome("read back")
    txt = dict(extra)
    txt["a.s"] = head + RA.text(lines)
    a = args + ["-q", "-S", "-o", "o", "-s", "sy", "a.s"]
    r = w.run(a, txt, ["o", "sy"])
    if "sy" in r.files:
        r.files["s"] = r.files.pop("sy")
    got = observed(r)
    if w.stats.traces % 991 == 0:
        w.stats.sample(list(extra.values())[0][:300])
    if got != exp:
        w.bad("%s: %s" % (what, " / ".join(x for x in txt["a.s"].split("\n") if x)[:200] + " with " + " / ".join(list(extra.values())[0].split("\n"))[:300]), a, txt, show(exp), show(got) + " " + r.err[:200])
        return False
    return True


def roundtrip(w, defs, vals, what, both=True, **kw):
    """defs: Lines that define vals: {name: value}.  Symbols file, exports file, read back."""
    for opt, fn in (("-s", "s"), ("-E", "e")):
        p = defs if opt == "-s" else defs + [L("export", S(n)) for n in vals]
        t = filestep(w, {"a.s": p}, ("a.s",), opt_args(kw), (vals, None if opt == "-s" else []), what, fn, opt)
        if t is None:
            continue
        eq = [L("equ", literal(v), label=n) for n, v in vals.items()]
        use = [L("org", I(0x100))] + cat([uses(n, v) for n, v in vals.items()])
        ref = reference({"a.s": eq + use}, isa=3)
        if not ref.ok:
            raise RuntimeError("reference rejects its own uses: %r" % vals)
        for a, b in ((L("include", STR("f")), None), (None, L("include", STR("f")))):
            if a:
                readback(w, [a] + use, {"f": t}, ref, ["-3"], what + ", included before use")
            elif not any(isinstance(v, tuple) for v in vals.values()):      # registers named before they are defined are unspecified
                readback(w, use + [b], {"f": t}, reference({"a.s": use + eq}, isa=3), ["-3"], what + ", included after use")


INTS = sorted(set(x for k in range(0, 64) for d in (-1, 0, 1) for x in ((1 << k) + d, -(1 << k) + d) if -(1 << 63) <= x < 1 << 63) | set(range(-300, 300)))
FLTS = [0.0, 0.5, 1.0, 1.5, 0.1, 0.2, 0.1 + 0.2, 1 / 3, 2 / 3, 1e-5, 1e5, 123456.789, 2.0 ** 31, 2.0 ** 53, 2.0 ** 53 + 2, 2.0 ** 63, 2.0 ** 64, 1e22, 1e23, 2.0 ** -20, 2.0 ** -52, 1 - 2.0 ** -53, 0.3, 0.7, 9.95, 3.14159265358979, 1e-10, 65535.99999]
EXT = ["a", " ", "/", '"', "\\", "&", "\n", "\r", ";", "*", "n", "1", "{", "'", "\t"]
MODS = ["", "+", "++", "-", "--", "p-"]


def values(w, arg):
    """Symbols of every kind of value."""
    for g in w.mine(chunked(INTS, 60)):
        roundtrip(w, [L("equ", literal(v), label="i%d" % i) for i, v in enumerate(g)], {"i%d" % i: v for i, v in enumerate(g)}, "integers")
    fl = [v for x in FLTS for v in (x, -x)] + [v / 7 for v in range(-40, 40)] + [2.0 ** k for k in range(-40, 62, 3)]
    fl = [v for v in fl if v or math.copysign(1, v) > 0]
    for g in w.mine(chunked(fl, 20)):
        roundtrip(w, [L("equ", literal(v), label="f%d" % i) for i, v in enumerate(g)], {"f%d" % i: float(v) for i, v in enumerate(g)}, "floats")
    ex = [(B("/", I(1), I(0)), math.inf), (B("/", I(-1), I(0)), -math.inf), (B("/", I(1), I(3)), 1 / 3), (B("/", I(4), I(2)), 2.0), (B("/", B("/", I(1), I(3)), B("<<", I(1), I(40))), 1 / 3 / 2.0 ** 40), (B("*", ("flt", 1e22), ("flt", 1e22)), 1e22 * 1e22), (U("-", B("/", I(1), I(7))), -1 / 7)]
    for e, v in w.mine(ex):
        roundtrip(w, [L("equ", e, label="fx")], {"fx": v}, "computed floats")
    n = 4 if DEEP else 3
    for g in w.mine(chunked(["".join(s) for s in seqs(EXT, n, 1)], 100)):
        roundtrip(w, [L("equ", STR(v), label="t%d" % i) for i, v in enumerate(g)], {"t%d" % i: v for i, v in enumerate(g)}, "strings")
    for c in w.mine(range(0x20, 0x7f)):
        for s in (chr(c), chr(c) * 2, "a" + chr(c) + "b", chr(c) + "1", "\\" + chr(c), "/" + chr(c), "&" + chr(c), "&{" + chr(c) + "}"):
            roundtrip(w, [L("equ", STR(s), label="tx")], {"tx": s}, "string")
    for k in w.mine(list(range(1, 200)) + [255, 256, 1000, 4095, 4096, 8191, 8192, 20000]):
        s = "".join(EXT[(i * 7 + k) % len(EXT)] for i in range(k))
        roundtrip(w, [L("equ", STR(s), label="tl")], {"tl": s}, "long string")
    regs = ["a", "b", "d", "x", "y", "u", "s", "pc", "cc", "dp", "w", "v", "e", "f", "q", "pcr"]
    for g, m in w.mine(itertools.product(regs, MODS)):
        if m and g not in ("x", "y", "u", "s", "w"):
            continue
        roundtrip(w, [L("equ", R(g, m), label="rg")], {"rg": ("R", g, m)}, "register", isa=3)
    # ways of defining
    for d, vals, kw in w.mine([([L("org", I(0x4321)), L("nop", label="la"), L("rmb", I(3), label="lb"), L("equ", PC, label="lc"), Line("ld")], {"la": 0x4321, "lb": 0x4322, "lc": 0x4325, "ld": 0x4325}, {}),
                               ([L("set", I(1), label="ts"), L("set", B("+", S("ts"), I(1)), label="ts"), L("set", STR("z"), label="tt"), L("set", I(9), label="tt")], {"ts": 2, "tt": 9}, {}),
                               ([L("equ", B("+", S("bb"), I(1)), label="aa"), L("equ", B("+", S("cc1"), I(1)), label="bb"), L("equ", I(5), label="cc1")], {"aa": 7, "bb": 6, "cc1": 5}, {}),
                               ([L("equ", S("bb"), label="aa"), L("equ", STR("/q\\"), label="bb")], {"aa": "/q\\", "bb": "/q\\"}, {}),
                               ([L("section", STR("sa")), L("org", I(5)), L("nop", label="la"), L("code"), L("org", I(0x100)), L("nop", label="lb"), Line(1), L("section", STR("sa")), L("nop", label="lc")], {"la": 5, "lb": 0x100, "lc": 6}, {}),
                               ([L("macro", label="mm"), L("equ", A(2), label=ID("m_", 1)), L("endm"), L("mm", I(1), I(7)), L("mm", STR("k"), STR("v")), L("if", S("un")), L("nop", label="nn"), L("endif")], {"m_1": 7, "m_k": "v"}, {}),
                               ([L("nop")], {}, {}), ([L("nop")], {"da": 1, "db": 77, "dc": -5}, {"defines": (("da", None), ("db", 77), ("dc", -5))}),
                               ([L("equ", I(1), label=n) for n in ("alpha", "Alpha", "ALPHA", "a.b", "_a", "a_", "_", "__", "a.", "z9", "fcb", "equ", "macro", "endm", "end", "nop", "n" * 300)], {n: 1 for n in ("alpha", "Alpha", "ALPHA", "a.b", "_a", "a_", "_", "__", "a.", "z9", "fcb", "equ", "macro", "endm", "end", "nop", "n" * 300)}, {})]):
        roundtrip(w, d, vals, "definitions", **kw)
    for k in w.mine(list(range(0, 70)) + [100, 127, 128, 129, 255, 256, 257, 500, 1000]):
        vals = {"v%d" % (i * 7919 % 10007): i for i in range(k)}
        roundtrip(w, [L("equ", I(v), label=n) for n, v in vals.items()], vals, "%d symbols" % k)


def selection(w, arg):
    """Which names are exported: every sequence of EXPORT lines around definitions."""
    defs = [L("equ", I(5), label="n1"), L("nop", label="n2"), L("set", STR("s/"), label="n3"), L("macro", label="m1"), L("fcb", A(1)), L("endm"), L("macro", label="m2"), L("fcb", I(2)), L("endm")]
    vals = {"n1": 5, "n2": 0, "n3": "s/"}
    ex = [L("export", S("n1")), L("export", S("m1")), L("export", S("n2"), S("n3")), L("export", STR("n3")), L("export", ID("n", "1")), L("export", S("un")), L("export", S("n1"), S("m2"), S("n1")), L("export", STR("m2")),
          L("EXPORT", S("n2")), L("if", I(0)), L("endif"), L("export", S("N1")), L("pe", STR("n2")), L("pe", I(1))]
    mac = [L("macro", label="pe"), L("export", ID("n", 1) if False else STR(1)), L("endm")]
    for s in w.mine(seqs(range(len(ex)), 3 if not DEEP else 4, 0)):
        e = [ex[i] for i in s]
        for before in (0, 1):
            p = mac + (e + defs if before else defs + e)
            ref = reference({"a.s": p})
            w.stats.state((before, s))
            w.stats.transitions += len(p)
            names_ = set(ref.exports) if ref.ok else set()
            txt = {"a.s": RA.text(p)}
            a = ["-S", "-o", "o", "-E", "e", "a.s"]
            r = w.run(a, txt, ["o", "e"])
            exp = "exit 1"
            if ref.ok and all(n in vals or n in ("m1", "m2") for n in names_):
                exp = ("ok", sorted(n for n in names_ if n in vals), sorted(n for n in names_ if n not in vals))
            got = r.status()
            if r.ok:
                try:
                    got = ("ok",) + names(r.files["e"].decode("latin-1")) if "e" in r.files else "no exports file"
                except F.Bad as x:
                    got = "malformed: %s" % x
            elif r.failed and not r.err.strip():
                got = "no diagnostic"
            w.stats.outcome("selected" if exp != "exit 1" else "export fails")
            if got != exp:
                w.bad("selection: " + " / ".join(txt["a.s"].split("\n"))[:300], a, txt, exp, "%s %s" % (got, r.err[:200]), recheck=lambda: w.run(a, txt, ["o", "e"]).key() == r.key())
            # without -E nothing depends on exports that cannot be satisfied
            r2 = w.run(["-S", "-o", "o", "-s", "s", "a.s"], txt, ["o", "s"])
            if observed(r2) != expectation(ref):
                w.bad("selection without --exports: " + " / ".join(txt["a.s"].split("\n"))[:300], ["-S", "-o", "o", "-s", "s", "a.s"], txt, show(expectation(ref)), show(observed(r2)) + r2.err[:200])


# ---------------------------------------------------------------- macros

HEAD = [L("org", I(0x1000)), L("equ", I(0x4321), label="k5"), L("equ", I(7), label="ki"), L("equ", STR("gr"), label="ks"), L("nop", label=1), L("equ", I(4), label="five"), L("nop", label=0)]
TAIL = [L("fdb", PC), L("equ", I(0x345), label="fw"), L("nop", label=1), L("nop", label=0), L("nop", label=12), L("nop", label=1000000)]
ARGSETS = [(I(5), I(9)), (STR("ab"), STR("x/\"\\&;\ny")), (R("x"), R("y", "++")), (S("fw"), B("+", S("ki"), I(1)))]


def macro_trip(w, body, argsets=ARGSETS, what="macro", narrow=True, pre=(), name="mc"):
    """Exported, included and called: the same code as where it was defined."""
    pre = list(pre)
    d = pre + [L("macro", label=name)] + body + [L("endm")]
    mine = [name] + [l.label for l in pre if l.lop == "macro"]
    t = filestep(w, {"a.s": d + [L("export", *[S(n) for n in mine])]}, ("a.s",), ["-3", "-q"], ({}, mine), what, "e", "-E")
    if t is None:
        return
    # exported again: the same text
    t2 = filestep(w, {"a.s": [L("include", STR("f")), L("export", *[S(n) for n in mine])], "f": t}, ("a.s",), ["-3", "-q"], ({}, mine), what + ", again", "e", "-E")
    if t2 is not None and sorted(t2.split("\n")) != sorted(t.split("\n")):
        w.bad(what + ": exported again", [], {"f": t}, t, t2)
    for a in argsets:
        c = [L(name, *a)]
        if a == ARGSETS[1] and any(isinstance(l.label, tuple) and 2 in l.label[1] for l in body):
            continue        # a symbol name that the files can't represent
        try:
            ref = reference({"a.s": HEAD + d + c + TAIL}, isa=3)
        except ISA.DontCare:
            w.stats.outcome("unspecified")
            continue
        n = len(w.violations)
        readback(w, HEAD + [L("include", STR("f"))] + c + TAIL, {"f": t}, ref, ["-3"], what)
        if len(w.violations) > n and narrow and len(body) > 1:
            v = w.violations.pop()
            for b in body:
                macro_trip(w, [b], [a], what, False)
            if len(w.violations) == n:
                w.violations.append(v)


def good(lines, args):
    o = []
    for l in lines:
        try:
            if reference({"a.s": HEAD + [L("macro", label="mc"), l, L("endm"), L("mc", *args)] + TAIL}, isa=3).ok:
                o.append(l)
        except ISA.DontCare:
            pass
    return o


LEAVES = [I(3), I(0), A(1), A(2), S("ki"), PC, ("flt", 1.5), STR("a/"), ("b", 1), ("f", 1), ("b", 0), ("f", 0), ("f", 12), ("f", 1000000), STR(1), ID("k", 1), I(65, "'A"), I(0x7fffffffffffffff), ("flt", 0.1)]
OPS2 = list(RA.PREC)
OPS1 = ["-", "+", "~", "!"]


def exprs(w, arg):
    """Every operator over every pair of operands; every pair of operators in both groupings."""
    es = list(LEAVES)
    es += [U(o, l) for o in OPS1 for l in LEAVES] + [U(o, U(q, l)) for o in OPS1 for q in OPS1 for l in LEAVES[:4]]
    es += [B(o, l, r) for o in OPS2 for l in LEAVES for r in LEAVES]
    es += [T(a, b, c) for a in LEAVES[:8] for b in LEAVES[:8] for c in LEAVES[:8]] + [T(LEAVES[0], a, b) for a in LEAVES[8:] for b in LEAVES[8:]]
    tri = [(A(1), I(2), I(3)), (I(-7), A(2), I(2)), (S("ki"), A(1), A(2)), (A(1), I(3), I(-2))]
    for x, y, z in tri:
        for o in OPS2:
            for q in OPS2:
                es += [B(q, B(o, x, y), z), B(o, x, B(q, y, z))]
            es += [U(u, B(o, x, y)) for u in OPS1] + [B(o, U(u, x), y) for u in OPS1] + [B(o, x, U(u, y)) for u in OPS1]
            es += [T(B(o, x, y), z, I(1)), T(x, B(o, y, z), I(1)), T(x, I(1), B(o, y, z)), B(o, T(x, y, z), x), B(o, x, T(x, y, z)), T(x, T(y, z, I(4)), I(5)), T(T(x, y, z), I(4), I(5)), T(x, I(4), T(y, z, I(5)))]
    if DEEP:
        for o, q, s in itertools.product(OPS2, repeat=3):
            x, y, z, v = A(1), I(2), I(3), A(2)
            es += [B(s, B(q, B(o, x, y), z), v), B(q, B(o, x, y), B(s, z, v)), B(o, x, B(q, y, B(s, z, v))), B(q, x, B(s, B(o, y, z), v))]
    for g in w.mine(chunked(es, 40)):
        for a in ARGSETS[:2] + ARGSETS[3:]:
            macro_trip(w, good([L("fqb", e) for e in g], a), [a], "expression in a macro")


def operands(w, arg):
    """Operand forms, strings, labels, notations, structure."""
    import c10
    ind = [EMPTY, I(5), A(1), I(-3), R("a"), R("d"), S("fw")] + [P(p, e) for p in ("<", "<<", ">") for e in
           (I(5), A(1), S("ki"), S("five"), ID("fi", 2), B("-", A(1), I(3)), U("-", A(1)), PC, STR(1), T(A(1), I(3), I(4)), ("flt", 2.5), ("b", 1), ("f", 0), I(65, "'A"))]
    idx = [R(x, m) for x in ("x", "y", "u", "s", "pcr") for m in MODS] + [A(1), A(2)]
    ops = [L("lda", a, b) for a in ind for b in idx] + [L("ldx", ("list", (a, b))) for a in ind for b in idx] + [L("ldx", ("list", (a,))) for a in ind[1:]]
    ops += [L("lda", P(p, e)) for p in ("#", "<", ">") for e in (I(5), A(1), S("fw"), STR("a"), STR(1), B("+", A(1), I(1)), U("-", I(3)))] + [L("lda", I(5)), L("ldx", S("fw"))]
    ops += [L("aim", P("#", A(1)), I(5)), L("aim", P("#", I(1)), A(1), R("x", "++")), L("tfm", R("x", "+"), R("y", "+")), L("tfm", R("x", "p-"), R("y", "p-")), L("tfm", A(1), A(2)), L("tfr", R("a"), R("b")), L("pshs", R("a"), R("x"), R("cc")), L("pshs", A(1)),
            L("bra", ("b", 1)), L("lbra", ("f", 1)), L("band", R("a"), I(1), I(2), I(3)), L("lda", EMPTY, R("w", "++")), L("ldx", ("list", (EMPTY, R("w", "--")))), L("lda", R("w"), R("x")), L("ldq", P("#", I(0x12345678)))]
    ops += [L("fcb", EMPTY, I(1)), L("fcb", I(1), EMPTY), L("fcb", *[I(i) for i in range(30)]), L("fcc", STR("")[:1] + (("x",),)), L("fcv", STR("aA*")), L("fcs", STR("ab"), I(3)), L("fill", A(1), I(3)), L("rzb", I(3), I(4)),
            L("NOP"), L("Lda", P("#", I(1))), L("LEAX", I(1), R("X", "")), L("rmb", I(2), label="lx"), L("equ", I(3), label="ly"), L("set", I(3), label="lz"), L("put", I(0x2000)), L("org", I(0x3000)), L("align", I(4), I(1)), L("setdp", A(1)),
            L("section", STR("s/a")), L("code"), L("includebin", STR("bb")), L("export", S("ki"))]
    ops += [L("nop", label=ID("l", 1)), L("nop", label=ID(1, "l")), L("nop", label=ID("l", 1, "_", 2)), L("nop", label=1), L("nop", label=12345), L("nop", label=0), Line("lone"), Line(7), Line(raw=""), Line(raw="; comment"), Line(raw="* comment"), Line(raw="   "),
            L("fdb", ID("k", 1)), L("fdb", ID("k", 1), label=ID("l", 2)), L("equ", A(2), label=ID("t", 1))]
    for o in w.mine(ops):
        if o.lop == "includebin":
            continue
        for a in ARGSETS:
            macro_trip(w, [o], [a], "line in a macro", False)
    for b in w.mine(c10.BODY):
        if b[0].lop in ("two", "swp", "zero", "includebin", "include", "end") or any(l.lop in ("two", "swp", "zero") for l in b):
            continue
        for a in ARGSETS + [(R("a"), R("b")), (I(0), I(5))]:
            macro_trip(w, b, [a], "body", False)
    n = 3 if DEEP else 2
    parts = ["a", " ", "/", '"', "\\", "&", "\n", "\r", ";", "1", "{", 1, 2, V(1, "&1"), V(1, "&{1}"), V(2, "\\{2}")]
    ss = [s for s in seqs(parts, n + 1, 1)]
    for g in w.mine(chunked(ss, 60)):
        for a in ARGSETS[:2]:
            macro_trip(w, good([L("fcc", STR(*s), STR("|")) for s in g], a), [a], "string in a macro")
    for c in w.mine(range(0x20, 0x7f)):
        macro_trip(w, good([L("fcc", STR(x)) for x in (chr(c), "\\" + chr(c), "/" + chr(c), "&" + chr(c), chr(c) + "/", "&{" + chr(c) + "}", "a" + chr(c) + "b")], ARGSETS[0]), ARGSETS[:1], "character in a macro")
    for v in w.mine([V(1, t) for t in ("\\1", "\\{1}", "&{1}", "&1", "\\{01}", "&{001}")]):
        for b in ([L("fcc", STR("a", v, "b"))], [Line(ID("l", v))], [L("fdb", ID("k", v))], [L("fcb", ("arg", v))]):
            if v.t == "&1" and b[0].lop in ("fdb", "fcb"):
                continue
            macro_trip(w, b, ARGSETS, "notation", False)
    for k in w.mine(range(1, 30)):
        a = [I(i * 3 + 1) for i in range(k)]
        macro_trip(w, [L("fcb", ("arg", V(i, "\\{%d}" % i))) for i in range(1, k + 1)] + [L("fcc", STR("<", V(k, "&{%d}" % k), ">")), Line(ID("l", V(k, "\\{%d}" % k)))], [a], "many arguments", False)
        macro_trip(w, [L("nop")] * k, [()], "lines", False)


def structure(w, n):
    """Macro bodies of several lines: conditionals, nested definitions and calls, local labels."""
    al = [[L("if", A(1)), L("fcb", I(1))], [L("else"), L("fcb", I(2))], [L("elsif", B("==", A(2), I(9))), L("fcb", I(3))], [L("endif")], [L("other", A(1))], [L("macro", label="inner"), L("fcb", I(4), A(1)), L("endm")], [L("inner", I(6))],
          [L("macro", label="late")], [L("endm")], [Line(1)], [L("fdb", ("b", 1))], [L("fdb", ("f", 1))], [L("fcb", A(1), label=ID("l", 2))], [L("set", B("+", PC, I(1)), label="st")], [L("section", STR("sb"))]]
    other = [L("macro", label="other"), L("if", B("==", A(1), I(5))), L("fcc", STR("five ", 1)), L("else"), L("fdb", I(0x99)), L("endif"), L("endm")]
    for s in w.mine(seqs(range(len(al)), n)):
        body = cat([al[i] for i in s])
        d = 0       # an unbalanced MACRO or ENDM would change where the macro ends
        for l in body:
            d += (l.lop == "macro") - (l.lop == "endm")
            if d < 0:
                break
        if d:
            continue
        macro_trip(w, body, [(I(5), I(9)), (I(0), I(9)), (I(0), I(4))], "structure", False, other)


def local_labels(w, n):
    """Macro bodies that define and use local labels of every number."""
    for k in (0, 1, 9, 10, 99, 255, 256, 1000000):
        al = [Line(k), L("fcb", I(1), label=k), L("fdb", ("b", k)), L("fdb", ("f", k)), L("bra", ("b", k))]
        for s in w.mine(seqs(al, n)):
            macro_trip(w, [L("nop")] + list(s), [()], "local labels", False)


def listed(w, files, main, what="", plain={}, **kw):
    """Symbols and exports files of a program against the reference's tables."""
    try:
        a = RA.Asm(files, main, isa=3)
        ref = a.run()
    except ISA.DontCare:
        w.stats.outcome("unspecified")
        return
    if not ref.ok:
        w.stats.outcome("rejected")
        return
    w.stats.state((what, tuple(sorted(ref.symbols.items(), key=str))))
    w.stats.transitions += sum(len(f) for f in files.values())
    w.stats.outcome("listed")
    filestep(w, files, main, ["-3", "-q"], (ref.symbols, None), what, "s", "-s")
    ex = set(ref.exports)
    live = {k: v[1] for k, v in a.macros.items() if v[0] == a.passno}
    if any(n not in ref.symbols and n not in live for n in ex) or any(n in a.macros and n not in live for n in ex):
        return
    sy, ms = {n: ref.symbols[n] for n in ex if n in ref.symbols}, {n: live[n] for n in ex if n not in ref.symbols}
    t = filestep(w, files, main, ["-3", "-q"], (sy, ms), what, "e", "-E")
    if t is None:
        return
    for n, b in parse_exports(t)[1].items():
        key = tuple(RA.line(l) for l in ms[n])
        old = plain.setdefault(key, b)
        if old != b:
            w.bad(what + ": macro %s differs from how it is exported elsewhere" % n, [], {k: RA.text(v) for k, v in files.items()}, old, b)


def surrounded(w, arg):
    """Definitions and EXPORTs in every kind of surroundings."""
    al = [[L("equ", I(5), label="n1")], [L("nop", label="n2")], [L("set", STR("s/"), label="n3")], [L("macro", label="m1"), L("fcb", A(1)), L("lda", P("#", B("+", A(1), I(2)))), L("if", A(2)), L("fcc", STR("x", 1)), L("endif"), L("endm")], [L("macro", label="m2"), L("endm")],
          [L("export", S("n1"), S("n2"))], [L("export", STR("m1"))], [L("export", S("m2"), S("n3"))], [L("equ", B("+", S("n2"), ("flt", 0.5)), label="n4"), L("export", S("n4"))], [L("equ", R("x", "++"), label="n5"), L("export", S("n5"))], [L("macro", label="m3"), L("m1", A(1), I(3)), Line(1), L("bra", ("b", 1)), L("endm"), L("export", S("m3"))]]
    plain = {}
    for s in itertools.chain(seqs(al, 3 if DEEP else 2), itertools.combinations(al, 4), [al]):
        surround(w, [cat(s)], "definitions", run=listed, plain=plain)


def main():
    c = Check("C15")
    c.bounds = ["%d integers, %d floats, every string of up to %d characters over %d, every register with every increment, every way of defining; up to 1000 symbols" % (len(INTS), 2 * len(FLTS) + 120, 4 if DEEP else 3, len(EXT)),
                "every sequence of up to %d of 14 EXPORT lines, before and after the definitions" % (4 if DEEP else 3),
                "macros: every operator over %d operands, every pair%s of operators in every grouping, operand forms, every string of up to %d parts, structures of up to %d of 15 line groups; every sequence of up to %d lines that define or use a local label, for 8 label numbers" % (len(LEAVES), " and triple" if DEEP else "", 4 if DEEP else 3, 5 if DEEP else 4, 5 if DEEP else 3)]
    c.assumptions = ["reference assembler lib/refasm.py", "NaN excluded; a name that is both a symbol and a macro excluded"]
    for f in (values, selection, exprs, operands):
        c.explore(f)
    c.explore(structure, 5 if DEEP else 4)
    c.explore(local_labels, 5 if DEEP else 3)
    c.explore(surrounded)
    c.bounds.append(CTX % "all pairs and all sets of four of 11 definitions and EXPORTs")
    c.finish()
