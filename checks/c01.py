"""C01: every legal instruction form, exhaustively, against the opcode-map model."""
import itertools
import isa as ISA
from batch import *
from contexts import CTX, instr, legal, shapes, surround
from refasm import L, I, B, PC
from run import Check, TIER

DEEP = TIER == "thorough"
V8 = list(range(-128, 256))
V16 = sorted({x for b in range(16) for x in ((1 << b) - 1, 1 << b, (1 << b) + 1, -(1 << b))
              if -32768 <= x <= 65535} | {0x4142, 0x443a, 0x7e7e, 65535, 65534, -1, -2, -129, 0xff00, 0x00ff,
                                         0x1234, 0xabcd})
V32 = sorted({x for b in range(32) for x in ((1 << b) - 1, 1 << b, -(1 << b))} |
             {0x41424344, 0x12345678, 0xfedcba98, 0xffffffff})
ADDR = [0, 1, 0x7f, 0x80, 0xff, 0x100, 0x1ff, 0x1234, 0x4142, 0x7fff, 0x8000, 0xff00, 0xfffe, 0xffff]
OFFS = [0, 1, 15, 16, -1, -16, -17, 127, 128, -128, -129, 255, 256, 32767, -32768, 0x4142, 65535]


def v(x, p=""):
    return ("v", x, p)


def r(n, m=""):
    return ("r", n, m)


def indexed(isa):
    """All indexed operand shapes."""
    base = []
    for reg in "xyus":
        for o in OFFS:
            base.append((v(o), r(reg)))
        base += [(v(3, "<<"), r(reg)), (v(-4, "<"), r(reg)), (v(5, ">"), r(reg)), (v(-5, ">"), r(reg)), (v(0, ">"), r(reg)),
                 (v(0, "<"), r(reg)), (v(0, "<<"), r(reg))]
        base += [(("e",), r(reg, m)) for m in ("", "+", "++", "-", "--")]
        base += [(r(a), r(reg)) for a in ("a", "b", "d")]
        if isa == 3:
            base += [(r(a), r(reg)) for a in "efw"]
    if isa == 3:
        base += [(("e",), r("w", m)) for m in ("", "++", "--")] + [(v(o), r("w")) for o in OFFS] + [(v(9, ">"), r("w"))]
    for o in OFFS:
        base += [(v(o), r("pc")), (v(o), r("pcr"))]
    base += [(v(1, "<"), r("pc")), (v(1, ">"), r("pc")), (v(0x4000, ">"), r("pcr"))]
    out = [b for b in base] + [(("l", list(b)),) for b in base if not (b[0][0] == "v" and b[0][2] == "<<")]
    return out + [(("l", [v(a)]),) for a in ADDR] + [(("l", [v(0x1234, ">")]),)]


def forms(isa, m):
    """All operand lists of mnemonic m."""
    op = ISA.OPS[isa][m]
    k = op.kind
    if k == ISA.INH:
        yield ()
    elif k == ISA.REL:
        for d in (-128, -127, -2, -1, 0, 1, 2, 126, 127) + ((-32768, -129, 128, 300, 32767) if op.rel == 2 else ()):
            yield ("rel", d)
    elif k == ISA.STK:
        regs = [x for x in ("cc", "a", "b", "dp", "x", "y", "u", "s", "pc") if x != op.arg]
        for n in range(1, len(regs) + 1):
            for c in itertools.combinations(regs, n):
                yield tuple(r(x) for x in c)
        for c in itertools.permutations(regs + ["d"], 2):
            yield tuple(r(x) for x in c)
        for c in itertools.permutations(regs[:5], 3):
            yield tuple(r(x) for x in c)
        yield tuple(r(x) for x in reversed(regs))
        yield (r("d"),)
    elif k == ISA.PAIRO:
        regs = [x for x in ISA.TFR if x in ISA.REGS[isa]]
        for a, b in itertools.product(regs, regs):
            yield (r(a), r(b))
    elif k == ISA.TFMO:
        for a, b in itertools.product("dxyus", "dxyus"):
            for ma, mb in (("+", "+"), ("p-", "p-"), ("+", ""), ("", "+")):
                yield (r(a, ma), r(b, mb))
    elif k == ISA.BITO:
        for g in ("cc", "a", "b"):
            for i in range(8):
                for j in range(8):
                    yield (r(g), v(i), v(j), v(0x41 if (i + j) & 1 else 0xfe, "<" if i & 1 else ""))
    elif k == ISA.IMMEM:
        for i in V8:
            yield (v(i, "#"), v(0x10, "<"))
        for i in (0, 1, 0x41, 0x80, 0xff):
            for a in ADDR:
                yield (v(i, "#"), v(a))
                yield (v(i, "#"), v(a, ">"))
            for x in indexed(isa):
                yield (v(i, "#"),) + x
    else:
        if op.imm is not None:
            for i in {1: V8, 2: V16, 4: V32}[op.immsize]:
                yield (v(i, "#"),)
        if op.dir is not None:
            for a in range(256):
                yield (v(a, "<"),)
            for a in ADDR:
                yield (v(a),)
                yield (v(a, ">"),)
        if op.idx is not None:
            for x in indexed(isa):
                yield x


def shard(w, arg):
    jobs = [(isa, m) for isa in (9, 3) for m in sorted(ISA.OPS[isa])]
    styles = ["lit", "hex", "sym", "str"] + ["expr", "fwd", "flt"]
    for isa, m in w.mine(jobs):
        op = ISA.OPS[isa][m]
        fl = list(forms(isa, m))
        w.stats.state((isa, m))
        for style in styles:
            for case in (0, 1, 2):
                if not DEEP and case and style not in ("lit", "sym"):
                    continue
                env, items, pc = {}, [], 0x1000
                for ops in fl:
                    if ops and ops[0] == "rel":
                        # sequential program: target relative to where the line ends up
                        n = (1 if op.inh < 256 else 2) + op.rel
                        ops = (v(pc + n + ops[1]),) if 0 <= pc + n + ops[1] else None
                        if ops is None:
                            continue
                        pc += n
                    it = make(m, ops, style, env, case)
                    if it:
                        items.append(it)
                    elif fl[0] and fl[0][0] == "rel":
                        pc -= n
                if style in ("str",) and not any("\"" in i.txt for i in items):
                    continue
                if style in ("sym", "fwd", "expr", "hex", "flt") and not any(
                        o[0] in "vl" for i in items for o in i.ops):
                    continue
                for b in chunked(items, 3000):
                    k = run_ok(w, isa, b, 0x1000, None, env, style == "fwd", "%s %s" % (isa_name(isa), style))
                    w.stats.state((isa, m, style, case, k))
                    w.stats.info["instructions"] = w.stats.info.get("instructions", 0) + k
        w.stats.sample("%s %s: %d operand forms" % (isa_name(isa), m, len(fl)))


def isa_name(i):
    return "6809" if i == 9 else "6309"


def wide(w, arg):
    """Every 16-bit immediate / extended address / 8-bit pair for representative columns."""
    n = 0
    ms = ["ldd", "ldx", "cmpy", "subd", "ldw", "muld", "lds", "cmpu", "addw", "jmp", "std", "stq", "ldq"]
    for m in ms:
        op = ISA.OPS[3][m]
        for lo in range(0, 65536, 4096):
            n += 1
            if n % w.n != w.idx:
                continue
            if op.imm is not None:
                run_ok(w, 3, [make(m, (v(x, "#"),), "hex", {}) for x in range(lo, lo + 4096)], 0, what="immediate")
            run_ok(w, 3, [make(m, (v(x, ">"),), "lit", {}) for x in range(lo, lo + 4096)], 0, what="extended")
            run_ok(w, 3, [make(m, (("l", [v(x)]),), "lit", {}) for x in range(lo, lo + 4096)], 0, what="extended indirect")
            w.stats.state((m, lo))


def surrounded(w, arg):
    """Every instruction in every shape of operand, in every kind of surroundings."""
    for isa in (9, 3):
        ls = []
        for m in sorted(ISA.OPS[isa]):
            op = ISA.OPS[isa][m]
            if op.kind == ISA.REL:
                ls += [L(m, B("+", PC, I(d))) for d in (-100, 2, 100)]
                continue
            ls += [instr(m, ops) for ops in shapes(forms(isa, m))]
        ls = legal(ls, isa=isa)
        surround(w, chunked(ls, 60), "instructions", isa=isa)


def main():
    c = Check("C01")
    c.bounds = ["all %d + %d mnemonics x every operand form (every register list, register pair, TFM and bit form, "
                "8-bit value, and boundary 16/32-bit values) x operand written as decimal, hex, symbol defined before, "
                "symbol defined after, expression, floating point value, string x letter case" % (len(ISA.OPS[9]), len(ISA.OPS[3])),
                "all 65536 immediates / addresses / indirect addresses for 13 representative instructions",
                CTX % "every mnemonic with one operand list of each shape"]
    c.assumptions = ["lib/isa.py states the 6809/6309 opcode map correctly"]
    c.explore(shard)
    c.explore(wide)
    c.explore(surrounded)
    c.finish()
