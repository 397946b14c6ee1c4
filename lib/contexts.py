"""The same lines in every kind of surroundings: what a line means must not depend on how it was reached."""
import isa as ISA
import refasm as RA
from common import check_prog
from refasm import L, I, S, STR, B, PC, EMPTY, R, P, Line

CTX = "%s, in some 45 surroundings: macros, include files, further files, conditional branches, sections, PUT, moved code, SETDP, high addresses"
D16 = L("fdb", I(0x5aa5))
FCBS = L("fcb", *[I(i & 255) for i in range(100)])


def inc(n):
    return L("include", STR(n))


def cond(x):
    return L("if", I(x))


END, ELSE, ENDM = L("endif"), L("else"), L("endm")


def mac(n):
    return L("macro", label=n)


def half(c):
    return len(c) // 2


def contexts(c, only=None):
    """c: list of Lines.  Yields (name, files, main)."""
    h = half(c)
    a, b = c[:h], c[h:]
    def one(n, ls, **fs):
        d = {"a.s": ls}
        d.update({k + ".s": v for k, v in fs.items()})
        return n, d, ("a.s",)
    yield one("plain", c)
    yield one("macro", [mac("kzm")] + c + [ENDM, L("kzm"), D16])
    yield one("macro with arguments", [mac("kzm")] + c + [ENDM, D16, L("kzm", I(7), STR("ab"), R("x", "+"), I(-4))])
    yield one("macro called from a macro", [mac("kzn")] + a + [L("kzm")] + [ENDM, mac("kzm")] + b + [ENDM, L("kzn"), D16])
    yield one("macro defined in a macro", [mac("kzn"), mac("kzm")] + c + [ENDM, D16, ENDM, L("kzn"), L("kzm"), D16])
    yield one("before and after a macro", [mac("kzm"), D16, L("setdp", PC) if 0 else D16, ENDM] + a + [L("kzm", I(1), I(2))] + b)
    yield one("macro seven deep", [x for i in range(6) for x in (mac("kz%d" % i), L("kz%d" % (i + 1)), ENDM)] + [mac("kz6")] + c + [ENDM, L("kz0"), D16])
    yield one("macro too deep", [x for i in range(7) for x in (mac("kz%d" % i), L("kz%d" % (i + 1)), ENDM)] + [mac("kz7")] + c + [ENDM, L("kz0"), D16])
    yield one("include", [inc("b.s"), D16], b=c)
    yield one("split by an include", a + [inc("b.s")] + b, b=[D16, Line(None), D16])
    yield one("include in include", [D16, inc("b.s")] + b, b=[Line(None), inc("c.s"), D16], c=a)
    yield one("include in macro", [mac("kzm"), inc("b.s")] + b + [ENDM, D16, L("kzm"), D16], b=a)
    yield one("macro in include", [inc("b.s"), D16] + a + [L("kzm")], b=[mac("kzm")] + b + [ENDM])
    yield one("after an END in an include", [inc("b.s")] + b, b=a + [L("end")] + [Line("?", raw="\t??", bad=False)] * 0)
    yield "second file", {"b.s": [D16, L("nop")], "a.s": c}, ("b.s", "a.s")
    yield "first of two files", {"b.s": [D16, L("nop")], "a.s": c}, ("a.s", "b.s")
    yield "two files", {"a.s": a, "b.s": b}, ("a.s", "b.s")
    yield one("if", [cond(1)] + c + [ELSE, L("fcb", I(99)), END, D16])
    yield one("else", [cond(0), L("fcb", I(99)), ELSE] + c + [END, D16])
    yield one("elsif", [cond(0), L("fcb", I(99)), L("elsif", I(2))] + c + [ELSE, L("fcb", I(98)), END, D16])
    yield one("nested if", [cond(1), cond(0), L("fcb", I(99)), ELSE] + a + [END] + b + [END, D16])
    yield one("skipped", [cond(0)] + c + [END, D16])
    yield one("skipped in a macro", [mac("kzm"), cond(1), D16, ELSE] + c + [END, ENDM, L("kzm"), D16])
    yield one("skipped, then not", [cond(0)] + c + [ELSE] + c + [END, D16])
    yield one("macro not called", [mac("kzm")] + c + [ENDM, D16] + c)
    yield one("section", [D16, L("section", STR("zz"))] + c + [L("code"), D16])
    yield one("split over sections", a + [L("data")] + b + [L("code"), D16])
    yield one("back in a section", a + [L("data"), D16, L("code")] + b)
    yield one("put elsewhere", [L("org", I(0x2000)), L("put", I(0x5003))] + c + [D16])
    yield one("put in the middle", a + [L("put", I(0x7001))] + b)
    yield one("org below put", [L("put", I(0x9000)), D16] + a + [L("org", I(0xa000))] + b)
    yield one("high", [L("org", I(0xc080))] + c)
    yield one("odd", [L("rmb", I(1))] + c)
    yield one("page end", [L("org", I(0x10f0))] + c)
    yield one("after data", [FCBS] * 5 + c)
    yield one("after reserved space", [D16, L("rmb", I(0x1234))] + c + [D16])
    yield one("moving", [L("rmb", S("kzw"))] + c + [L("equ", B("+", S("kzv"), I(1)), label="kzw"), L("equ", I(300), label="kzv")])
    yield one("moving far", [L("rmb", S("kzw"))] + c + [L("equ", B("+", S("kzv"), I(1)), label="kzw"), L("equ", B("*", S("kzu"), I(2)), label="kzv"), L("equ", I(0x3000), label="kzu")])
    yield one("split and moving", a + [L("rmb", S("kzw"))] + b + [L("equ", B("+", S("kzv"), I(1)), label="kzw"), L("equ", I(200), label="kzv")])
    yield one("moving origin", [L("org", S("kzw")), D16] + c + [L("equ", I(0x4000), label="kzw")])
    yield one("setdp", [L("setdp", I(0x12))] + c)
    yield one("setdp in the middle", a + [L("setdp", I(0x42))] + b)
    yield one("line 300", [Line(None)] * 299 + c)


def surround(w, cores, what, run=check_prog, extra=None, **kw):
    """Every core in every context, with further files; sharded here."""
    def jobs():
        for i, c in enumerate(cores):
            for ctx in contexts(list(c)):
                yield ctx
    for name, files, main in w.mine(jobs()):
        w.stats.outcome("in surroundings")
        run(w, dict(extra or {}, **files), main, what="%s, %s" % (what, name), **kw)


def toarg(p):
    k = p[0]
    if k == "e":
        return EMPTY
    if k == "r":
        return R(p[1], p[2])
    if k == "l":
        return ("list", tuple(toarg(x) for x in p[1]))
    return P(p[2], I(p[1])) if p[2] else I(p[1])


def instr(mnem, ops, label=None):
    return L(mnem, *[toarg(p) for p in ops], label=label)


def legal(lines, want=True, head=(), **kw):
    """Those the reference accepts (or rejects), alone."""
    o = []
    for l in lines:
        p = list(l) if isinstance(l, (list, tuple)) else [l]
        try:
            r = RA.Asm({"a.s": list(head) + p}, **kw).run()
        except ISA.DontCare:
            continue
        if r.ok == want:
            o.append(l)
    return o


def shapes(forms):
    """One operand list of each shape (prefixes, modifiers, sizes of values; registers in turn)."""
    seen, n = {}, 0
    for ops in forms:
        def key(p):
            if p[0] == "v":
                x = p[1]
                return ("v", p[2], next(b for b in (5, 8, 9, 16, 17, 99) if -(1 << b - 1) <= x < 1 << b - 1), x < 0, x == 0)
            if p[0] == "l":
                return ("l",) + tuple(key(q) for q in p[1])
            if p[0] == "r":
                return ("r", p[2], p[1] in ("pc", "pcr"), p[1] in "xyus", p[1] == "w")
            return p[0]
        k = tuple(key(p) for p in ops)
        seen.setdefault(k, []).append(ops)
    for k, v in seen.items():
        n += 1
        yield v[n * 7 % len(v)]
