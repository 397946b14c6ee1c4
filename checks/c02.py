"""C02: every mnemonic with every operand shape it does not have is rejected."""
import itertools
import isa as ISA
from batch import *
from contexts import CTX, instr, legal, shapes, surround
from refasm import B, I, L, P, R, S, U
from run import Check, TIER

DEEP = TIER == "thorough"


def v(x, p=""):
    return ("v", x, p)


def r(n, m=""):
    return ("r", n, m)


HEAD = "rx\tequ\tx\nrpc\tequ\tpcr\nrd\tequ\td\nsv\tequ\t\"AB\"\n\torg\t$8000\n"


def longs():
    """Brackets with three or four elements, whatever they are."""
    el = [(("e",), ""), (v(1), "1"), (v(5, "#"), "#5"), (r("a"), "a"), (r("x"), "x"), (r("y", "++"), "y++"), (r("pcr"), "pcr"), (v(300), "300")]
    for i in itertools.chain(itertools.product(el, repeat=3), itertools.product(el[:6] if DEEP else el[1::3], repeat=4)):
        yield ("l", [x for x, _ in i]), "[" + ",".join(t for _, t in i) + "]"


def atoms(isa):
    a = [(("e",), "")]
    for x, t in ((5, "5"), (0, "0"), (300, "300"), (0x4142, "sv"), (0x41, '"A"'), (-1, "-1"), (-300, "-300"), (7, "7"), (8, "8"), (15, "15"), (16, "16"),
                 (65536, "65536")):
        a.append((v(x), t))
    a += [(v(5, p), p + "5") for p in ("#", "<", ">", "<<")] + [(v(300, "#"), "#300"), (v(0x4142, "#"), '#"AB"')]
    a += [(v(2, ""), "1.5*2-1")]
    for n in sorted(ISA.REGS[isa]):
        a.append((r(n), n))
    a += [(r("x"), "rx"), (r("d"), "rd"), (r("pcr"), "rpc")]
    for n in ["x", "s", "a"] + (["w"] if isa == 3 else []) + ["pc"]:
        for m in ("+", "++", "-", "--", "p-"):
            a.append((r(n, m), (m + n) if m in ("-", "--") else n + {"p-": "-"}.get(m, m)))
    inner = [[(("e",), "")], [(v(5), "5")], [(v(5, "#"), "#5")], [(v(5, "<"), "<5")], [(r("x"), "x")],
             [(r("x", "++"), "x++")], [(("e",), ""), (r("x"), "x")], [(("e",), ""), (r("x", "++"), "x++")],
             [(v(5), "5"), (r("x"), "x")], [(v(5, "<<"), "<<5"), (r("x"), "x")], [(v(5, "#"), "#5"), (r("x"), "x")],
             [(r("x"), "x"), (r("a"), "a")], [(r("a"), "a"), (r("x"), "x")], [(r("cc"), "cc"), (r("x"), "x")],
             [(v(5), "5"), (v(6), "6")], [(r("a"), "a"), (v(6), "6")],
             [(v(5), "5"), (r("a"), "a")], [(v(1), "1"), (v(2), "2"), (r("x"), "x")], [(r("a"), "a"), (r("pcr"), "pcr")],
             [(v(5), "5"), (r("x", "+"), "x+")], [(r("a"), "a"), (r("x", "+"), "x+")]]
    for i in inner:
        a.append((("l", [x for x, _ in i]), "[" + ",".join(t for _, t in i) + "]"))
    a.append((("l", [("l", [v(5)])]), "[[5]]"))
    return a


def combos(isa, m):
    at = atoms(isa)
    yield ()
    for x in at:
        yield (x,)
    for c in itertools.product(at, at):
        yield c
    few = [x for x in at if x[1] in ("5", "#5", "a", "x", "cc", "", "<5", "sv", "[5]", "x+")]
    for c in itertools.product(few, few, few):
        yield c
    k = ISA.OPS[isa][m].kind if m in ISA.OPS[isa] else None
    for x in longs():
        yield (x,) if k != ISA.BITO else (x, x)
        if DEEP or k == ISA.IMMEM:
            yield ((v(5, "#"), "#5"), x)
    tiny = few if k == ISA.BITO or DEEP else few[:3]
    for c in itertools.product(tiny, repeat=4):
        yield c
    if k in (ISA.STK, ISA.BITO):
        for c in itertools.product(few[:4], repeat=5):
            yield c


def classify(isa, m, ops):
    try:
        b, warn = ISA.encode(isa, m, ops, 0x8000, None)
        return "ok", b
    except ISA.DontCare:
        return "?", None
    except ISA.Err as e:
        return e.level, None


def shard(w, arg):
    jobs = [(isa, m) for isa in (9, 3) for m in sorted(ISA.OPS[isa])]
    for isa, m in w.mine(jobs):
        bad = {"syntax": [], "range": []}
        good = []
        n = 0
        for c in combos(isa, m):
            n += 1
            ops = tuple(o for o, _ in c)
            if ops == (("e",),):
                continue            # a lone empty argument cannot be written
            t = ",".join(t for _, t in c)
            kind, b = classify(isa, m, ops)
            if ISA.OPS[isa][m].kind == ISA.PAIRO and ('"' in t or "sv" in t or "." in t):
                kind = "?"          # a string or float in place of a register
            if (ISA.OPS[isa][m].kind == ISA.TFMO and ('"' in t or "sv" in t)) or (ISA.OPS[isa][m].kind == ISA.BITO and c and ('"' in c[0][1] or "sv" in c[0][1])):
                kind = "syntax"     # nor is a string a number for one
            l = "\t%s%s" % (m, "\t" + t if c else "")
            if kind == "ok":
                good.append(Item(m, ops, l))
            elif kind != "?":
                bad[kind].append((l, len(c)))
        w.stats.state((isa, m, len(good), len(bad["syntax"]), len(bad["range"])))
        for k in bad:
            for b in chunked([l for l, _ in bad[k]], 500):
                run_bad(w, isa, b, HEAD, "%s%s" % (isa_name(isa), "" if k == "syntax" else " range"))
            # alone, and after a valid line: the single error must fail the run
            for l, nc in bad[k]:
                if nc <= 1 and l.count(",") < 2 or (DEEP and nc == 2):
                    run_bad(w, isa, [l], HEAD + "\tnop\n", isa_name(isa) + " alone")
        for b in chunked(good, 3000):
            # forms that are legal must still be accepted
            env = {"rx\tequ\tx\n": 0}
            src_env = HEAD
            run_good(w, isa, b, src_env)
        w.stats.sample("%s %s: %d shapes, %d rejected, %d legal" % (
            isa_name(isa), m, n, sum(map(len, bad.values())), len(good)))


def run_good(w, isa, items, head):
    pc, exp, txt = 0x8000, b"", []
    for it in items:
        b, _ = ISA.encode(isa, it.mnem, it.ops, pc, None) if it.ops and True else ISA.encode(isa, it.mnem, it.ops, pc, None)
        # each line at the same address, so that PC-relative operands stay in range
        exp += b
        txt.append("\torg\t$8000\n\tput\t%d\n%s" % (len(exp) - len(b), it.txt))
    args = (["-3"] if isa == 3 else []) + ["-q", "-B", "-o", "o", "a.s"]
    src = head + "\n".join(txt) + "\n"
    r = w.run(args, {"a.s": src}, ["o"])
    w.stats.transitions += len(items)
    if r.ok and r.files.get("o", b"") == exp:
        w.stats.outcome("legal accepted")
        return
    for it, t in zip(items, txt):
        b, _ = ISA.encode(isa, it.mnem, it.ops, 0x8000, None)
        s1 = head + "\torg\t$8000\n" + it.txt + "\n"
        r1 = w.run(args, {"a.s": s1}, ["o"])
        if not (r1.ok and r1.files.get("o", b"") == b):
            w.bad("%s legal form: %s" % (isa_name(isa), it.txt.strip()), args, {"a.s": s1}, b.hex(" "),
                  r1.status() + " " + r1.files.get("o", b"").hex(" ") + r1.err[:200])


def isa_name(i):
    return "6809" if i == 9 else "6309"


def only6309(w, arg):
    """6309 instructions and registers without --6309."""
    if w.idx:
        return
    lines = []
    for m in sorted(ISA.ONLY6309):
        for t in ("", "a", "#1", "5", ",x", "x,y", "#1,2", "a,1,2,3", "x+,y+"):
            lines.append("\t%s%s" % (m, "\t" + t if t else ""))
    run_bad(w, 9, lines, HEAD, "6309 mnemonic without --6309")
    for l in lines:
        run_bad(w, 9, [l], HEAD, "6309 mnemonic without --6309")
    lines = []
    for g in "efwqv":
        lines += ["\ttfr\t%s,d" % g, "\ttfr\td,%s" % g, "\texg\t%s,a" % g, "\tlda\t%s,x" % g, "\tlda\t,%s" % g,
                  "\tlda\t[,%s]" % g, "\tlda\t5,%s" % g, "\tpshs\t%s" % g, "\tlda\t,%s++" % g]
    for l in lines:
        run_bad(w, 9, [l], HEAD, "6309 register without --6309")
    w.stats.state(("6309 only", len(lines)))


def numbers(w, arg):
    """A number where a register or a bit number is expected: only what fits is accepted."""
    jobs = [(isa, m) for isa in (9, 3) for m in sorted(ISA.OPS[isa]) if ISA.OPS[isa][m].kind in (ISA.PAIRO, ISA.BITO, ISA.STK, ISA.TFMO)]
    for isa, m in w.mine(jobs):
        k = ISA.OPS[isa][m].kind
        nums = list(range(-130, 131)) + [s * (1 << b) + d for b in (8, 15, 16, 31, 32) for s in (1, -1) for d in (-1, 0, 1, 5)]
        cs = []
        for x in nums:
            a, t = v(x), str(x)
            if k == ISA.PAIRO:
                cs += [((a, r("d")), t + ",d"), ((r("x"), a), "x," + t), ((a, v(3)), t + ",3"), ((v(0), a), "0," + t)]
            elif k == ISA.TFMO:
                for mo in ("+", "p-", ""):
                    cs += [((a, r("d", mo)), t + ",d" + mo.lstrip("p")), ((r("s", mo), a), "s%s,%s" % (mo.lstrip("p"), t)), ((a, v(3)), t + ",3")]
            elif k == ISA.STK:
                cs += [((a,), t), ((r("a"), a), "a," + t)]
            else:
                cs += [((r("a"), a, v(2), v(0x40)), "a,%s,2,64" % t), ((r("cc"), v(7), a, v(0x40)), "cc,7,%s,64" % t),
                       ((r("b"), a, a, v(0x40)), "b,%s,%s,64" % (t, t)), ((a, v(1), v(2), v(0x40)), t + ",1,2,64"), ((a, v(8), v(2), v(0x40)), t + ",8,2,64")]
        good, bads = [], {"syntax": [], "range": []}
        for ops, t in cs:
            kind, b = classify(isa, m, ops)
            l = "\t%s\t%s" % (m, t)
            if kind == "ok":
                good.append(Item(m, ops, l))
            elif kind != "?":
                bads[kind].append(l)
        bad = bads["syntax"] + bads["range"]
        for b in bads.values():
            run_bad(w, isa, b, HEAD, isa_name(isa) + " number for a register or bit")
        if good:
            run_good(w, isa, good, HEAD)
        w.stats.state((isa, m, "numbers", len(good), len(bad)))


def values(w, arg):
    """Operands that have a value, but not a number, an undefined one, or none at all."""
    if w.idx != 1 % w.n:
        return
    for isa in (9, 3):
        lines = []
        for m in ("lda", "ldd", "sta", "jmp", "neg", "bra", "lbra", "leax", "orcc", "aim", "addr", "band", "ldq", "ldmd"):
            if m not in ISA.OPS[isa]:
                continue
            pre = {"aim": "#1,", "band": "a,1,2,", "addr": "d,"}.get(m, "")
            for e in ("x+1-1", "-rx", "rx+1", "1-rx", "~rx", "rx<<1", "rx==1", "rx&&1", "5%0", "5%(1-1)", "nosuch", "nosuch+1",
                      "1F", "9B", "\\1", "(nosuch)", "rx ? 1 : 2"):
                for p in ("", "#", "<", ">"):
                    if e == "x+1-1":
                        continue
                    lines.append("\t%s\t%s%s%s" % (m, pre, p, e))
                    if p == "":
                        lines.append("\t%s\t%s%s,x" % (m, pre, e))
                        lines.append("\t%s\t%s[%s]" % (m, pre, e))
                        lines.append("\t%s\t%s%s,pcr" % (m, pre, e))
        for l in lines:
            run_bad(w, isa, [l], HEAD, isa_name(isa) + " valueless operand")
        w.stats.state((isa, "values", len(lines)))


def surrounded(w, arg):
    """An erroneous line between legal ones, in every kind of surroundings."""
    for isa in (9, 3):
        kinds = {}
        for m in sorted(ISA.OPS[isa]):
            op = ISA.OPS[isa][m]
            kinds.setdefault((op.kind, op.imm is None, op.dir is None, op.idx is None, getattr(op, "rel", 0)), []).append(m)
        bad = [L(m) for m in sorted(ISA.ONLY6309)] if isa == 9 else []
        for n, ms in enumerate(kinds.values()):
            at = [o for o, t in atoms(isa)]
            for k, ops in enumerate(itertools.chain(shapes((o,) for o in at), shapes(itertools.product(at[1:9] + at[14:17], at[20:29:3])) if n % 3 == 0 or DEEP else ())):
                bad.append(instr(ms[k % len(ms)], ops))
            for e in (S("nosuch"), B("+", R("x")[:0] or S("rq"), I(1)), B("%", I(5), I(0))):
                bad += [L(ms[0], e), L(ms[-1], P("#", e)), L(ms[-1], e, R("x"))]
        hd = [L("equ", R("x"), label="rq")]
        surround(w, (hd + [L("nop"), l, L("lda", I(0x4321))] for l in legal(bad, False, hd, isa=isa)), "erroneous line", isa=isa)


def main():
    c = Check("C02")
    c.bounds = ["all mnemonics of both ISAs x all operand lists of length 0-2 over 60 operand shapes, length 3-5 over subsets; brackets of 3 and 4 elements; "
                "each expected rejection must be reported for its own line, all of length <= 1 also as the only error of a program",
                "6309-only mnemonics and registers without --6309", "every number in -130..130 and around powers of two as a register or bit number", "valueless operands (undefined, register arithmetic, modulo by zero)"]
    c.assumptions = ["lib/isa.py states which operands each instruction has",
                     "forms it marks unspecified (PSHS without registers, strings or floats as registers, ...) are not judged"]
    c.explore(shard)
    c.explore(only6309)
    c.explore(values)
    c.explore(numbers)
    c.explore(surrounded)
    c.bounds.append(CTX % "an erroneous line of each shape for each kind of instruction")
    c.finish()
