"""C03: indexed offsets, all of them."""
import isa as ISA
from batch import *
from contexts import CTX, instr, legal, shapes, surround
import refasm as RA
from refasm import B, I, L, P, R, S, U
from run import Check, TIER

DEEP = TIER == "thorough"


def v(x, p=""):
    return ("v", x, p)


def r(n, m=""):
    return ("r", n, m)


def jobs():
    for isa, regs in ((9, "xyus"), (3, "xyusw")):
        for reg in list(regs) + ["pc"]:
            for ind in (False, True):
                for p in ("", ">", "<", "<<"):
                    if p == "<<" and (ind or reg in ("w", "pc")) or p == "<" and reg == "w":
                        continue
                    for style in (("lit", "hex", "sym") if DEEP else ("lit", "sym") if p == "" and reg in "xw" else ("lit",)):
                        yield isa, reg, ind, p, style


def ranges(p):
    if p == "<<":
        return [range(-16, 16)]
    if p == "<":
        return [range(-128, 128)]
    return [range(lo, lo + 4096) for lo in range(-32768, 65536, 4096)]


MN = ["lda", "leax", "std", "jsr", "neg", "cmpy", "ldq", "oim", "leas", "cmps", "stw"]


def shard(w, arg):
    alljobs = []
    for j in jobs():
        for rg in ranges(j[3]):
            alljobs.append((j, rg))
    for (isa, reg, ind, p, style), rg in w.mine(alljobs):
        ms = [m for m in MN if m in ISA.OPS[isa]]
        if not DEEP:
            near = any(abs(x - y) < 4096 for x in (rg[0], rg[-1]) for y in (0, 65535, -32768, 32768))
            ms = ms if near else ms[:1]
        for m in ms:
            env, items = {}, []
            for o in rg:
                ops = (v(o, p), r(reg))
                if ind:
                    ops = (("l", list(ops)),)
                if m == "oim":
                    ops = (v(0x55, "#"),) + ops
                items.append(make(m, ops, style, env, 1 if style == "hex" else 0))
            for b in chunked(items, 4096):
                n = run_ok(w, isa, b, 0, None, env, False, "%s %s offset" % ("indirect" if ind else "direct", reg))
                w.stats.info["offsets"] = w.stats.info.get("offsets", 0) + n
        w.stats.state((isa, reg, ind, p, style, rg[0]))
    w.stats.sample("every offset in -32768..65535 for %s" % "lda n,x")


def forms(w, arg):
    """Everything that is not a constant offset, for every instruction with an indexed mode."""
    jobs = [(isa, m) for isa in (9, 3) for m in sorted(ISA.OPS[isa]) if ISA.OPS[isa][m].idx is not None]
    for isa, m in w.mine(jobs):
        acc = ["a", "b", "d"] + (["e", "f", "w"] if isa == 3 else [])
        ol = []
        for reg in "xyus" + ("w" if isa == 3 else ""):
            for x in [("e",)] + ([r(a) for a in acc] if reg != "w" else []):
                ol.append((x, r(reg)))
            for mod in ("+", "++", "-", "--"):
                ol.append((("e",), r(reg, mod)))
                if mod in ("+", "++") and reg != "w":
                    ol.append((v(0), r(reg, mod)))
        for o in (0, -1, 1, 15, 16, -16, -17, 127, 128, -128, -129, 32767, -32768, 65535):
            for reg in ("x", "y", "u", "s", "pc", "pcr") + (("w",) if isa == 3 else ()):
                for p in ("", "<", "<<", ">"):
                    ol.append((v(o, p), r(reg)))
        ol += [(("l", list(x)),) for x in ol] + [(("l", [v(a, p)]),) for a in (0, 1, 255, 256, 0x7fff, 0x8000, 65535)
                                                 for p in ("", ">")]
        env, items = {}, []
        for ops in ol:
            if m in ("oim", "aim", "eim", "tim"):
                ops = (v(0xaa, "#"),) + ops
            items += [make(m, ops, "lit", env), make(m, ops, "sym", env, 1)]
        run_ok(w, isa, items, 0x2000, None, env, what="indexed form")
        run_ok(w, isa, [make(i.mnem, i.ops, "flt", env) for i in items[::2]], 0x2000, None, env, what="indexed form, floating point values")
        run_ok(w, isa, items, 0x2000, None, env, fwd=True, what="indexed form, forward symbols")
        w.stats.state((isa, m))


def surrounded(w, arg):
    """Indexed operands with offsets that are literals, symbols defined before and after, differences of labels."""
    for isa in (9, 3):
        ls = []
        for m in [m for m in ("lda", "leay", "cmpu", "ldq", "aim") if m in ISA.OPS[isa]]:
            for reg in ("x", "u", "pc") + (("w",) if isa == 3 else ()):
                for o in (0, 1, -1, 15, 16, -16, -17, 127, 128, -128, -129, 255, 4096, 65535):
                    for p in ("", "<", ">"):
                        for ind in (0, 1):
                            ops = (v(o, p), r(reg))
                            ls.append(instr(m, ((v(7, "#"),) if m == "aim" else ()) + ((("l", list(ops)),) if ind else ops)))
        surround(w, chunked(legal(ls, isa=isa), 80), "indexed", isa=isa)
    for d in (0, 1, 14, 15, 16, 17, 125, 126, 127, 128, 129, 130, 300):
        for f in (lambda e: [L("lda", e, R("x")), L("ldx", ("list", (e, R("y"))))], lambda e: [L("leax", e, R("pc")), L("leax", U("-", e), R("u"))], lambda e: [L("lda", P("<", B("&", e, I(31))), R("x")), L("ldd", P(">", e), R("s"))]):
            surround(w, [f(B("-", S("kq2"), S("kq1"))) + [RA.Line("kq1"), L("rmb", I(d)), RA.Line("kq2")] + f(B("-", S("kq2"), S("kq1")))], "indexed by a distance")


def beyond(w, arg):
    """Offsets beyond 16 bits: if accepted, the address reached is exact modulo 65536 (in any form)."""
    os_ = sorted({sg * (1 << b) + d for b in (16, 17, 24, 31, 32, 33, 40, 47, 48, 62) for sg in (1, -1) for d in (-129, -128, -17, -16, -5, -1, 0, 1, 5, 15, 16, 127, 128, 1000)} | {-32769, -40000, -65535, 65536 + 32768})
    for isa, o in w.mine([(i, o) for i in (9, 3) for o in os_ if not -32768 <= o <= 65535]):
        s16 = ((o + 32768) & 0xffff) - 32768
        for m in ("lda", "leax", "cmpy", "aim") if isa == 3 else ("lda", "leay", "cmpu"):
            for reg in ("x", "s", "pc") + (("w",) if isa == 3 else ()):
                for ind in (0, 1):
                    ok = set()
                    for p in ("", "<", "<<", ">"):
                        for k in {s16, s16 & 0xffff}:
                            ops = (v(k, p), r(reg))
                            ops = ((v(7, "#"),) if m == "aim" else ()) + ((("l", list(ops)),) if ind else ops)
                            try:
                                ok.add(ISA.encode(isa, m, ops, 0, None)[0])
                            except (ISA.Err, ISA.DontCare):
                                pass
                    t = "%d,%s" % (o, reg)
                    t = ("#7," if m == "aim" else "") + ("[%s]" % t if ind else t)
                    for src in ("\t%s\t%s\n" % (m, t), "\t%s\t%s\nfw\tequ\t%d\n" % (m, t.replace(str(o), "fw"), o)):
                        args = (["-3"] if isa == 3 else []) + ["-q", "-o", "o", "a.s"]
                        x = w.run(args, {"a.s": src}, ["o"])
                        w.stats.transitions += 1
                        w.stats.state((isa, m, reg, ind, o))
                        w.stats.outcome("offset beyond 16 bits" if x.ok else "offset beyond 16 bits rejected")
                        if not ((x.failed and x.err and "o" not in x.files) or (x.ok and x.files.get("o") in ok)):
                            w.bad("offset beyond 16 bits: " + src.replace("\n", ";"), args, {"a.s": src}, "one of " + ", ".join(sorted(b.hex() for b in ok)), x.status() + " " + x.files.get("o", b"").hex() + x.err[:200], recheck=lambda: w.run(args, {"a.s": src}, ["o"]).key() == x.key())


def noform(w, arg):
    """Forced forms that do not exist, and prefixes and modes that exclude one another."""
    for isa, m in w.mine([(isa, m) for isa in (9, 3) for m in sorted(ISA.OPS[isa]) if ISA.OPS[isa][m].idx is not None]):
        ls = []
        for o in (0, 1, -1, 5, 15, 16, -16, 100, 300, -1000):
            for reg in ("x", "y", "u", "s", "pc", "pcr") + (("w",) if isa == 3 else ()):
                for p in ("", "<", "<<", ">"):
                    for mod in ("", "+", "++", "-", "--", "p-"):
                        for ind in (0, 1):
                            ops = (v(o, p), r(reg, mod))
                            ops = ((v(7, "#"),) if m in ("oim", "aim", "eim", "tim") else ()) + ((("l", list(ops)),) if ind else ops)
                            try:
                                ISA.encode(isa, m, ops, 0x1000, None)
                            except ISA.DontCare:
                                pass
                            except ISA.Err:
                                ls.append("\t%s\t%s" % (m, optext(ops, "lit", {})))
        for g in chunked(ls, 1000):
            run_bad(w, isa, g, "\torg\t$1000\n", "form that does not exist")
        w.stats.state(("none", isa, m, len(ls)))


def main():
    c = Check("C03")
    c.bounds = ["every offset -32768..65535 x every index register (X Y U S, W with --6309, PC) x direct/indirect x "
                "no prefix and >, every representable offset for < and <<; offset as literal (and, without a prefix, hex and symbol)",
                "every accumulator, auto-increment and extended indirect form and the boundary offsets for every instruction of "
                "both ISAs that has an indexed mode, symbols defined before and after, and floating point values"]
    c.assumptions = ["lib/isa.py: postbyte layout of both processors",
                     "shortest form is chosen by the signed value as written; a forced form is given an offset it can hold"]
    c.explore(shard)
    c.explore(forms)
    c.explore(noform)
    c.bounds.append("every combination of offset size prefix, index register, increment and indirection that does not exist, 10 offsets, every instruction: rejected")
    c.explore(beyond)
    c.bounds.append("280 offsets around powers of two beyond 16 bits x every index register, direct and indirect, known and forward: exact modulo 65536 if accepted")
    c.explore(surrounded)
    c.bounds.append(CTX % "indexed operands of every size, literal and as distances of labels")
    c.finish()
