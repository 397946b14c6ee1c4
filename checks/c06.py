"""C06: expressions."""
import itertools, math, re
import isa as ISA
import refasm as RA
from common import parse_symbols, check_prog
from batch import chunked
from explore import *
from refasm import L, I, S, STR, B, U, T, PC
from contexts import CTX, surround
from run import Check, TIER

DEEP = TIER == "thorough"
BIN = ["*", "/", "%", "+", "-", "<<", ">>", "<", "<=", ">", ">=", "==", "!=", "&", "^", "|", "&&", "||"]
UN = ["-", "+", "!", "~"]
FLT = lambda v: ("flt", v)
HEAD = [L("org", I(0x1234)), L("equ", I(5), label="si"), L("equ", I(-3), label="sn"), L("equ", FLT(2.5), label="sf"),
        L("equ", STR("BC"), label="ss"), RA.Line(1), L("rmb", I(4)), RA.Line(2)]
# leaves
INTS = [I(0), I(1), I(2), I(3), I(7), I(255, "$FF"), I(-1), I(65536), I(1 << 32), I((1 << 63) - 1)]
FLTS = [FLT(0.0), FLT(0.5), FLT(2.0), FLT(1.5), FLT(1e10), FLT(0.1)]
STRS = [STR("A"), STR("AB"), STR("B"), STR("abcde")]
SYMS = [S("si"), S("sn"), S("sf"), S("ss"), PC, ("b", 1), ("f", 9), I(65, "'A"), I(34, "'\"'")]
ALL = INTS + FLTS + STRS + SYMS
ERRS = [S("undef"), B("%", I(1), I(0)), ("b", 7)]


def context():
    a = RA.Asm({"a.s": HEAD})
    a.run()
    a.ctx, a.errors, a.level = ("a.s", 0), [], 0
    a.ignore_undef, a.argstack = False, []
    return a


def value(cx, e):
    """("v", x) / ("err", level) / None when unspecified."""
    cx.errors, cx.level = [], 0
    # pc and local labels as on the lines after HEAD
    cx.cur.pc = 0x1238
    cx.cur.lineno = 100
    cx.cur.locals.setdefault(9, {})[10 ** 9] = (0, 0x1240)
    try:
        v = cx.ev(e)
    except (ISA.DontCare, OverflowError):
        return None
    if cx.level >= RA.INCONS:
        return ("err", cx.level)
    if v is None or isinstance(v, float) and math.isnan(v):
        return None
    return ("v", v)


TAIL = "\torg\t$1240\n9\n"
SIZE = 250


def judge(w, exprs, mode, what):
    """exprs: [(tree, text)]"""
    cx = context()
    head = RA.text(HEAD)
    good, bad = [], {}
    for e, t in exprs:
        w.stats.transitions += 1
        r = value(cx, e)
        if r is None:
            w.stats.outcome("unspecified (shift count, NaN)")
        elif r[0] == "v":
            good.append((t, r[1]))
            w.stats.state((type(r[1]).__name__, r[1]))
        else:
            bad.setdefault(r[1], []).append(t)
    if good:
        values(w, head, good, what)
        w.stats.outcomes["valued"] = w.stats.outcomes.get("valued", 0) + len(good)
        w.stats.sample("%s = %r" % good[len(good) // 2])
    for lv, ts in bad.items():
        w.stats.outcomes["rejected"] = w.stats.outcomes.get("rejected", 0) + len(ts)
        errors(w, head, ts, what)


def same(a, b):
    return type(a) is type(b) and (a == b) and (not isinstance(a, float) or math.copysign(1, a) == math.copysign(1, b) or a == 0)


def values(w, head, good, what):
    args = ["-q", "-s", "s", "a.s"]

    def one(items):
        src = head + "".join("e%d\tequ\t%s\n" % (i, t) for i, (t, v) in enumerate(items)) + TAIL
        r = w.run(args, {"a.s": src}, ["s"])
        try:
            d = parse_symbols(r.files.get("s", b"").decode("latin-1"))
        except Exception as x:
            return src, r, [0], "symbols file: %s" % x
        wrong = [i for i, (t, v) in enumerate(items) if not same(d.get("e%d" % i), v)]
        return src, r, wrong if r.ok else wrong or [0], str([d.get("e%d" % i) for i in wrong[:3]])
    src, r, wrong, got = one(good)
    if not wrong:
        return
    n = 0
    for t, v in [good[i] for i in wrong][:20] + good[:len(good) if len(wrong) < 2 else 0]:
        src, r, wr, got = one([(t, v)])
        if wr:
            n += 1
            w.bad("%s: %s" % (what, t), args, {"a.s": src}, repr(v), r.status() + " " + got + " " + r.err[:200],
                  recheck=lambda: w.run(args, {"a.s": src}, ["s"]).key() == r.key())
            if n > 5:
                return
    if not n:
        w.bad(what + ": expressions wrong together", args, {"a.s": one(good)[0]}, "as singly", "differs")


def errors(w, head, ts, what):
    args = ["-q", "-P", "3", "-s", "s", "a.s"]
    off = head.count("\n")

    def one(items):
        src = head + "".join("\tfqb\t%s\n" % t for t in items) + TAIL
        r = w.run(args, {"a.s": src}, ["s"])
        nums = set(int(x) for x in re.findall(r"a\.s:(\d+):", r.err))
        return src, r, [i for i in range(len(items)) if off + 1 + i not in nums or not r.failed]
    src, r, miss = one(ts)
    if not miss:
        return
    n = 0
    for t in [ts[i] for i in miss][:20]:
        src, r, m = one([t])
        if m:
            n += 1
            w.bad("%s: %s has no value" % (what, t), args, {"a.s": src}, "an error on line %d" % (off + 1), r.status() + " " + r.err[:200],
                  recheck=lambda: w.run(args, {"a.s": src}, ["s"]).key() == r.key())
            if n > 5:
                return
    if not n:
        w.bad(what + ": errors together", args, {"a.s": one(ts)[0]}, "an error for each line", "missing")


def texts(trees, modes):
    for e in trees:
        seen = set()
        for m in modes:
            t = RA.expr(e, m)
            if t not in seen:
                seen.add(t)
                yield e, t


def level1():
    for a in ALL:
        yield a
    for o in UN:
        for a in ALL + ERRS:
            yield U(o, a)
            for p in UN:
                yield U(p, U(o, a))
    for o in BIN:
        for a in ALL:
            for b in ALL:
                yield B(o, a, b)
        for a in ERRS:
            for b in ALL[:12:3] + ERRS:
                yield B(o, a, b)
                yield B(o, b, a)
    for a in ALL:
        for b in ALL[::2]:
            for c in ALL[1::2]:
                yield T(a, b, c)
    for a in ERRS:
        for b in (I(0), I(1)):
            yield T(a, b, b)
            yield T(b, a, I(5))
            yield T(b, I(5), a)


SMALL = [I(1), I(2), I(7), FLT(0.5), STR("A"), I(0)] + ([S("sn"), FLT(3.0), I(255, "$ff")] if DEEP else [])


def level2():
    for o in BIN:
        for p in BIN:
            for a, b, c in itertools.product(SMALL, repeat=3):
                yield B(o, B(p, a, b), c)
                yield B(o, a, B(p, b, c))
    for o in BIN:
        for u in UN:
            for a, b in itertools.product(SMALL + [S("sn"), PC], repeat=2):
                yield B(o, U(u, a), b)
                yield B(o, a, U(u, b))
                yield U(u, B(o, a, b))
        for a, b, c, d in itertools.product([I(0), I(1), I(3), FLT(1.5)], repeat=4):
            yield T(B(o, a, b), c, d)
            yield T(a, B(o, b, c), d)
            yield T(a, b, B(o, c, d))
            yield B(o, T(a, b, c), d)
            yield B(o, a, T(b, c, d))
    for a, b, c, d, e in itertools.product([I(0), I(2), I(3)], repeat=5):
        yield T(T(a, b, c), d, e)
        yield T(a, T(b, c, d), e)
        yield T(a, b, T(c, d, e))


def level3():
    leaves = [(I(9), I(4), I(2), I(1)), (I(1), I(1), I(3), I(2)), (I(6), I(0), I(5), I(3))]
    if DEEP:
        leaves += [(FLT(6.5), I(4), FLT(2.0), I(3)), (I(-5), I(3), I(-2), I(7)), (STR("B"), I(66), STR("A"), STR("B")), (I(0), I(1), I(0), I(0))]
    for o in BIN:
        for p in BIN:
            for q in BIN:
                for a, b, c, d in leaves:
                    yield B(o, B(p, B(q, a, b), c), d)
                    yield B(o, B(p, a, B(q, b, c)), d)
                    yield B(o, a, B(p, B(q, b, c), d))
                    yield B(o, a, B(p, b, B(q, c, d)))
                    yield B(o, B(p, a, b), B(q, c, d))


def shard(w, arg):
    gen, modes, what = arg
    for b in chunked(w.mine(texts(gen(), modes)), SIZE):
        judge(w, b, None, what)


# -------- white space: every assignment of nothing, space and tab to the gaps between tokens

def tokens(e, prec=0):
    k = e[0]
    if k == "un":
        return [e[1]] + tokens(e[2], 12)
    if k == "bin":
        p = RA.PREC[e[1]]
        t = tokens(e[2], p) + [e[1]] + tokens(e[3], p + 1)
        return ["("] + t + [")"] if p < prec else t
    if k == "tern":
        t = tokens(e[1], 2) + ["?"] + tokens(e[2], 2) + [":"] + tokens(e[3], 1)
        return ["("] + t + [")"] if prec > 1 else t
    return [RA.expr(e)]


def spaced():
    a, b, c = I(6), I(3), I(2)
    base = [a, STR("AB"), S("si"), PC, FLT(1.5), ("b", 1), I(5, "%101"), I(8, "@10"), I(10, "$A")]
    tr = [U(u, x) for u in UN for x in base] + [B(o, x, y) for o in BIN for x in base for y in base]
    tr += [B(o, B(p, a, b), c) for o in BIN for p in BIN] + [B(o, a, B(p, b, c)) for o in BIN for p in BIN]
    tr += [T(x, y, z) for x in base[:4] for y in base[:4] for z in base[:4]]
    tr += [B(o, U(u, a), U(v, b)) for o in BIN for u in UN for v in UN]
    for e in tr:
        ts = tokens(e)
        ws = ("", " ", "\t") if len(ts) <= 4 else ("", " ")
        for g in itertools.product(ws, repeat=len(ts) - 1):
            yield e, "".join(x + y for x, y in zip(ts, g + ("",)))
    for e in tr[::7]:
        ts = tokens(e)
        for s in (" ", "  ", "\t \t"):
            yield e, s.join(ts)


def neg(v):
    return I(v) if v >= 0 else U("-", I(-v))


def pairs():
    """Every binary operator over boundary integers and floats; every comparison of strings."""
    iv = sorted({s * ((1 << k) + d) for k in (0, 1, 3, 7, 8, 15, 16, 31, 32, 33, 52, 53, 62) for d in (-1, 0, 1) for s in (1, -1)}
                | {(1 << 63) - 1, 1 - (1 << 63), 10, -10, 1000003, -1000003})
    iv = [neg(v) for v in iv]
    fv = [FLT(x) for x in (0.0, 0.5, 1.0, 1.5, 2.0, 255.0, 256.5, 32768.0, 65535.5, 4294967296.0, 9007199254740993.0, 0.1, 1e18, 1e-9)]
    fv += [U("-", f) for f in fv[1:]]
    for o in BIN:
        for a, b in itertools.product(iv, iv):
            yield B(o, a, b)
        for a, b in itertools.product(fv, fv):
            yield B(o, a, b)
        for a, b in itertools.product(fv, iv[::4] + STRS):
            yield B(o, a, b)
            yield B(o, b, a)
        for a, b in itertools.product(STRS, iv[::5] + SYMS):
            yield B(o, a, b)
            yield B(o, b, a)
    cs = [chr(c) for c in range(0x20, 0x80)]
    ss = [STR(a) for a in cs]
    for o in BIN[7:13]:
        for a, b in itertools.product(ss, ss):
            yield B(o, a, b)
    few = " !0Aa~\x7f"
    ws = [STR("".join(x)) for n in (1, 2) for x in itertools.product(few, repeat=n)] + [STR("abcdefghij" * k + e) for k in (1, 5, 20) for e in ("", "a", "~")]
    ws += [STR(x) for x in ("ABC", "ABD", "AB", "abc", "aBc", "a\tb", "a\nb")]
    for o in BIN[7:13] + ["+", "&&", "||", "&"]:
        for a, b in itertools.product(ws, ws):
            yield B(o, a, b)
    for u in UN:
        for a in iv + fv + ws + ss:
            yield U(u, a)
            yield U("-", U(u, a))


def close():
    """Every comparison, difference and logical operator over floats that differ by little, and beside whole numbers."""
    xs = [0.1, 0.3, 1.0, 1.5, 7.0, 255.0, 65536.0, 16777217.0, 1e10, 2.0 ** 52, 2.0 ** 53, 1e-6, 2.0 ** 62]
    for x in xs:
        near = {x}
        for s in (1, -1):
            y = x
            for i in range(3):
                y = math.nextafter(y, s * math.inf)
                near.add(y)
            for r in (1e-14, 1e-12, 1e-9, 1e-7, 1e-6, 1e-5, 1e-3):
                near.add(x + s * x * r)
                near.add(x + s * r)
        near = [FLT(y) for y in sorted(near) if y > 0]
        ws = [I(int(x) + d) for d in (-1, 0, 1)]
        for o in BIN[7:13] + ["-", "&&", "||", "%"]:
            for a, b in itertools.product(near, near):
                yield B(o, a, b)
            for a, b in itertools.product(near, ws):
                yield B(o, a, b)
                yield B(o, b, a)
        for o in BIN[7:13]:
            for a in ws:
                yield B(o, B("/", a, I(3)), B("*", a, B("/", I(1), I(3))))
                yield B(o, B("*", B("/", a, I(3)), I(3)), a)
    for o in BIN[7:13]:
        for i, j, k in itertools.product(range(1, 10), repeat=3):
            yield B(o, B("+", FLT(i / 10), FLT(j / 10)), FLT(k / 10))


def spaces(w, arg):
    for b in chunked(w.mine(spaced()), SIZE):
        judge(w, b, None, "white space")


def contexts(w, arg):
    """The same expression means the same wherever an expression is accepted."""
    tr = [B(o, a, b) for o in BIN for a in (I(7), FLT(2.5), STR("A"), S("si"), PC) for b in (I(2), FLT(1.5), S("sn"), ("b", 1))]
    tr += [U(u, x) for u in UN for x in (I(7), S("si"), STR("A"), FLT(2.5))] + [T(S("si"), x, I(1)) for x in (I(3), STR("AB"))] + ALL
    tr += [B(o, B(p, I(7), S("si")), I(2)) for o in BIN for p in BIN[::4]] + ERRS
    forms = [lambda e: [L("fcb", e)], lambda e: [L("fdb", e, I(1))], lambda e: [L("fqb", I(1), e)],
             lambda e: [L("lda", RA.P("#", e))], lambda e: [L("ldx", RA.P("#", e))], lambda e: [L("ldx", e)],
             lambda e: [L("lda", RA.P(">", B("&", e, I(0xffff))))], lambda e: [L("lda", B("&", e, I(15)), RA.R("x"))],
             lambda e: [L("if", e), L("fcb", I(1)), L("else"), L("fcb", I(2)), L("endif")],
             lambda e: [L("rmb", B("&", e, I(31))), L("fcb", I(1))], lambda e: [L("org", B("&", e, I(0xfff))), L("fcb", I(1))],
             lambda e: [L("fill", e, I(2))], lambda e: [L("lbra", B("&", e, I(0xfff)))], lambda e: [L("set", e, label="qs"), L("fdb", S("qs"))],
             lambda e: [L("put", B("&", e, I(0xfff))), L("fcb", I(1))], lambda e: [L("setdp", B("&", e, I(0xff))), L("lda", I(0x12ff))],
             lambda e: [L("align", B("|", B("&", e, I(15)), I(1)), e), L("fcb", I(1))], lambda e: [L("end", e)],
             lambda e: [L("macro", label="m"), L("fqb", RA.A(1)), L("endm"), L("m", e)],
             lambda e: [L("lda", ("list", (B("&", B("+", e, FLT(0.5)), I(0xff)),)))], lambda e: [L("lda", ("list", (B("+", I(1), e),)))],
             lambda e: [L("ldx", ("list", (e, RA.R("y"))))],
             lambda e: [L("aim", RA.P("#", e), B("&", e, I(0xff)))],
             lambda e: [L("if", I(0)), L("elsif", e), L("fcb", I(1)), L("endif")]]
    for e, (i, f) in w.mine(itertools.product(tr, enumerate(forms))):
        for mode in ("min", "sp"):
            check_prog(w, HEAD + f(e) + [RA.Line(9)], mode=mode, isa=3, what="context %d" % i)


def surrounded(w, arg):
    """Expressions of every operator in every kind of surroundings; valueless ones one at a time."""
    lv = [I(7), FLT(2.5), STR("B"), S("si"), S("sn"), S("sfw"), PC, ("b", 1), ("f", 9)]
    tr = [B(o, a, b) for o in BIN for a in lv for b in lv] + [U(u, a) for u in UN for a in lv] + [T(a, b, I(3)) for a in lv for b in lv]
    fd = [L("equ", I(0x1234), label="sfw"), RA.Line(9)]

    def ok(l):
        try:
            return RA.Asm({"a.s": HEAD + [l] + fd}).run().ok
        except (ISA.DontCare, OverflowError):
            return None
    ls = [(l, ok(l)) for l in (L("fqb", B("+", e, I(0)) if e[0] == "str" else e) for e in tr)]
    for g in chunked([l for l, o in ls if o], 70):
        surround(w, [HEAD + g + fd, HEAD[1:5] + [L("set", I(1), label="cn")] + HEAD[5:] + [L("set", l.args[0], label="cn") for l in g] + [L("fdb", S("cn"))] + fd], "expressions")
    surround(w, [HEAD + [l] + fd for l, o in ls if o is False][::3] + [HEAD + [L("fdb", e)] + fd for e in ERRS], "valueless expression")


def main():
    c = Check("C06")
    c.bounds = ["every unary, double unary, binary and ternary expression over %d leaves (integers, floats, strings, symbols of each type, "
                "characters, *, local labels) and %d valueless ones" % (len(ALL), len(ERRS)),
                "every expression of two operators (unary, binary, ternary, both associations) over %d leaves" % len(SMALL),
                "every expression of three binary operators, all 5 shapes, over %d leaf assignments" % (7 if DEEP else 3),
                "every binary and unary operator over ~75 boundary integers and 27 floats; every comparison of ~100 one-character strings, ~70 longer ones",
                "each printed with the fewest parentheses, fully parenthesised and fully spaced",
                "every assignment of no white space, space and tab to the gaps between the tokens of ~3000 expressions",
                "~200 expressions in each of 24 places where an expression is accepted"]
    c.assumptions = ["evaluator in lib/refasm.py from README's operator table", "shift counts outside 0..63 and NaN are unspecified"]
    c.explore(shard, (level1, ("min", "sp", "full"), "expression"))
    c.explore(shard, (level2, ("min", "sp", "full") if DEEP else ("min", "sp"), "two operators"))
    c.explore(shard, (level3, ("min", "sp", "full") if DEEP else ("min",), "three operators"))
    c.explore(shard, (pairs, ("min",), "operand values"))
    c.explore(shard, (close, ("min",), "close operands"))
    c.bounds.append("every comparison and logical operator over ~30 floats close to one another around each of 13 values")
    c.explore(spaces)
    c.explore(contexts)
    c.explore(surrounded)
    c.bounds.append(CTX % "every operator over 9 kinds of operand")
    c.finish()
