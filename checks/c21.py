"""C21: reporting options, spellings and option order never change the result; warnings."""
import itertools, re
import refasm as RA
import isa as ISA
from common import reference, expectation, observed, show
from explore import *
from refasm import L, I, S, STR, B, A, PC, P, R, Line
from run import Check, TIER

DEEP = TIER == "thorough"
FMTS = ["-B", "-D", "-C", "-S", "-H"]
REP = {"l": ["-l", "l"], "s": ["-s", "s"], "E": ["-E", "e"]}
OUTS = ["o", "l", "s", "e"]

G = [[L("fdb", PC, label="la")], [L("lda", S("fwd"))], [L("leax", S("fwd"), R("pcr"))], [L("lbra", S("la"))], [L("lbsr", S("fwd"))], [L("exg", R("a"), R("x"))], [L("tfr", R("d"), R("b"))], [Line(1), L("fdb", ("b", 1))], [L("org", I(0x300))], [L("put", I(0x400))], [L("rmb", I(200))], [L("section", STR("sa"))], [L("align", I(32), I(1))],
     [L("macro", label="mm"), L("fcb", A(1)), L("tfr", R("a"), R("y")), L("endm"), L("mm", I(5))], [L("include", STR("i.s"))], [L("includebin", STR("b.bin"))], [L("if", S("fwd")), L("fcb", I(1)), L("else"), L("lbra", PC), L("endif")], [L("export", S("fwd"))], [L("set", B("+", PC, I(1)), label="vs")], [L("end", S("fwd"))],
     [L("fcb", S("undef"))], [L("bra", S("far"))], [L("org", I(0x300)), L("fdb", I(1))], [L("bogus")], [L("equ", S("circ"), label="circ"), L("fdb", S("circ"))], [L("setdp", I(0))], [L("fcc", STR("text"))], [L("export", S("mm"))], [L("fill", I(1), I(300))]]
# each paired with the groups of CORE only
G2 = [[L("fcb", I(1)), L("align", I(16))], [L("align", I(3), I(0x3f))], [L("rzb", I(3))], [L("rzb", I(2), I(7))], [L("fcb")], [L("fcv", STR("ab"), I(1))], [L("fci", STR("a"))], [L("fcn", STR("nul"))], [L("fcs", STR("top"))], [L("fqb", S("fwd"), I(-1))], [L("fill", S("la"), I(2))], [L("bss"), L("rmb", I(2)), L("fdb", PC, label="lb")], [L("data"), L("fcb", I(3))], [L("code"), L("nop")], [L("setdp", I(2)), L("lda", S("fwd"))], [L("set", R("x"), label="vr"), L("tfr", R("y"), S("vr"))], [L("set", STR("t"), label="vr"), L("fcc", S("vr"))], [L("equ", ("flt", 2.5), label="ef"), L("fcb", S("ef"))],
      [L("equ", ("flt", 1e300), label="ef"), L("fcb", B("/", S("ef"), ("flt", 1e299)))], [L("set", B("*", ("flt", -1e200), ("flt", 1e200)), label="ef"), L("fcb", B(">", I(0), S("ef")))], [L("equ", I(1 << 40), label="ef"), L("fqb", B(">>", S("ef"), I(9)))],
      [L("equ", S("ez"), label="ef"), L("equ", B("+", S("fwd"), I(1)), label="ez"), L("fdb", S("ef"))], [L("rmb", I(0))], [L("if", I(0)), L("bogus"), L("endif")], [L("org", I(0xfffe)), L("fdb", I(1))], [L("put", I(0xfffe)), L("fdb", I(1))], [L("macro", label="mu"), L("endm")], [L("opt", I(1))], [L("leax", I(5), R("x")), L("leay", S("la"), R("x"))], [L("lda", T(I(0), R("x")))] if False else [L("pshs", R("a"), R("b"))], [Line("alone")], [L("export", S("la"), S("fwd"))]]
CORE = [0, 1, 4, 8, 11, 14, 25]
FILES = {"i.s": [L("exg", R("x"), R("b")), L("nop"), L("lbra", PC)]}
BIN = {"b.bin": b"abc" * 50}
TAIL = [L("equ", I(0x4000), label="far"), Line("fwd")]


ALL = G + G2


def program(s):
    p = [L("org", I(0x200))] + cat([ALL[i] for i in s]) + TAIL
    if "la" not in {l.label for l in p}:
        p.append(Line("la"))
    t = {"a.s": RA.text(p)}
    t.update((n, RA.text(ls)) for n, ls in FILES.items())
    t.update(BIN)
    return p, t


def options(w, arg):
    """Every set of reporting options and verbosity in every format: the same result as without."""
    n2 = range(len(G), len(ALL))
    gen = itertools.chain(seqs(range(len(G)), 2), ((i,) for i in n2), itertools.product(CORE, n2), itertools.product(n2, CORE), itertools.product(n2, n2) if DEEP else (), itertools.product(range(len(G)), repeat=3) if DEEP else ())
    for n, s in w.mine(enumerate(gen)):
        p, t = program(s)
        for fmt in FMTS if len(s) < 3 else [FMTS[n % 5]]:
            base = {}
            for v in ([], ["-q"], ["-v"]):
                for rep in subsets("lsE"):
                    outs = ["o"] + [{"E": "e"}.get(x, x) for x in rep]
                    args = v + [fmt, "-o", "o"] + cat([REP[x] for x in rep]) + ["a.s"]
                    r = w.run(args, t, outs)
                    what = None
                    if r.kind != 0 or r.code not in (0, 1):
                        what = ("exit 0 or 1", r.status())
                    # an undefined name is only a failure when exports are requested
                    elif "E" in rep and len(s) < 9 and 27 in s and 13 not in s:
                        w.stats.outcome("undefined export")
                        continue
                    elif "code" in base and r.code != base["code"]:
                        what = ("exit %d as without" % base["code"], r.status() + " " + r.err[:200])
                    base.setdefault("code", r.code)
                    if not what and r.code == 0:
                        for o in outs:
                            if o not in r.files:
                                what = ("output file " + o, "none")
                            elif base.setdefault(o, r.files[o]) != r.files[o]:
                                what = ("%s as with other options: %r" % (o, base[o][:300]), repr(r.files[o][:300]))
                    if not what and r.code == 1 and "o" in r.files:
                        what = ("no output file", str(list(r.files)))
                    if not what:
                        k = ("err", tuple(v)) if r.code == 0 else "err"
                        e = r.err if r.code == 0 else "".join(x for x in r.err.splitlines(True) if not x.startswith("warning: "))
                        if base.setdefault(k, e) != e:
                            what = ("diagnostics as with other options: " + base[k][:300], r.err[:300])
                    if not what and n % 7 == 0:
                        if w.run(args, t, outs).key() != r.key():
                            what = ("the same result when repeated", "another")
                    w.stats.transitions += 1
                    w.stats.state((t["a.s"], fmt, r.code, r.files.get("o")))
                    w.stats.outcome("assembled" if r.code == 0 else "rejected")
                    if what:
                        w.bad("%s: %r" % (" ".join(args), t["a.s"][:200]), args, t, what[0], what[1], recheck=lambda: w.run(args, t, outs).key() == r.key())


def passes(w, arg):
    """Programs that settle after each number of passes, with each limit: the outcome does not
    depend on the reporting options, and is that of the reference."""
    def chain(n, how):
        if how == 0:
            p = [L("equ", S("c%d" % (i + 1)), label="c%d" % i) for i in range(n)] + [L("equ", I(0x1234), label="c%d" % n), L("fdb", S("c0"))]
        elif how == 1:
            p = [L("rmb", S("c%d" % (i + 1)), label="c%d" % i) for i in range(n)] + [L("equ", I(2), label="c%d" % n), L("fdb", S("c0"), PC)]
        else:
            p = [x for i in range(n) for x in (L("lda", S("b%d" % i)), L("rmb", I(251)))] + [x for i in range(n) for x in (Line("b%d" % i), L("rmb", I(3)))] + [L("ldx", S("b0"))]
        return p
    for n, how, lim in w.mine(itertools.product(range(15), range(3), [None] + list(range(2, 18)))):
        p = chain(n, how)
        t = {"a.s": RA.text(p)}
        try:
            exp = expectation(reference({"a.s": p}, **({} if lim is None else {"max_passes": lim})))
        except ISA.DontCare:
            w.stats.outcome("unspecified")
            continue
        first = None
        for rep in subsets("lsE"):
            for v in ([], ["-q"], ["-v"]):
                args = v + ([] if lim is None else ["-P", str(lim)]) + ["-S", "-o", "o"] + cat([REP[x] for x in rep]) + ["a.s"]
                r = w.run(args, t, ["o", "s"] if "s" in rep else ["o"])
                w.stats.transitions += 1
                w.stats.state((n, how, lim, rep))
                w.stats.outcome("settles" if exp[0] == "ok" else "does not settle")
                got = (r.ok, r.files.get("o"))
                first = first or got
                if got != first or r.ok != (exp[0] == "ok") or ("s" in rep and observed(r) != exp):
                    w.bad("%s: %r" % (" ".join(args), t["a.s"][:200]), args, t, show(exp)[:200], r.status() + " " + r.err[:200], recheck=lambda: w.run(args, t, ["o"]).key() == r.key())


def spell(short, long, val):
    if val is None:
        return [[short], ["--" + long]] + ([["--" + long[:3]]] if long not in ("6309", "6809") else [["--" + long[:2]]])
    return [[short, val], [short + val], ["--" + long, val], ["--%s=%s" % (long, val)], ["--%s=%s" % (long[:3], val)]]


ITEMS = [spell("-o", "output", "o"), spell("-l", "listing", "l"), spell("-s", "symbols", "s"), spell("-E", "exports", "e"), spell("-3", "6309", None), spell("-q", "quiet", None), spell("-d", "define", "dd=7"), spell("-e", "exec", "fwd"), spell("-P", "max-passes", "5"), [["--setdp", "3"], ["--setdp=3"], ["--setdp", "$3"], ["--setdp=@3"], ["--setd", "0x3"]]]
FMTSPELL = [[["-B"], ["--bin"], ["--b"]], [["-D"], ["--dragondos"], ["--dr"]], [["-C"], ["--coco"], ["--c"]], [["-S"], ["--srec"], ["--sr"]], [["-H"], ["--hex"], ["--hex"]]]
SRC = " org $100\nla ldq fwd\n tfr a,x\n lda $310\n fcb dd\n export la\n rmb $100\nfwd nop\n"


def orders(w, arg):
    """Every order of the options, every spelling, every position of the source file among them."""
    t = {"a.s": SRC}

    def run(opts):
        args = cat(opts)
        return args, w.run(args, t, OUTS)
    ref = {}
    for k, f in enumerate(FMTSPELL):
        a, r = run([f[0]] + [x[0] for x in ITEMS] + [["a.s"]])
        if not r.ok or r.err:
            w.bad("all options in order", a, t, "exit 0 and no warnings", r.status() + r.err)
            return
        ref[k] = r

    def same(opts, k, without=()):
        args, r = run(opts)
        w.stats.transitions += 1
        w.stats.state(tuple(args))
        w.stats.outcome("order or spelling")
        g = ref[k]
        if (r.kind, r.code) != (0, 0) or any(r.files.get(o) != g.files[o] for o in OUTS if o not in without) or r.err:
            w.bad("options " + " ".join(args), args, t, "as in the usual order", r.status() + " " + r.err[:200] + str({o: r.files.get(o) == g.files[o] for o in OUTS}), recheck=lambda: run(opts)[1].key() == r.key())
    n = 7 if DEEP else 5
    # every order of any n options (the others first), the file anywhere
    for c, (sel, k) in w.mine(enumerate(itertools.product(itertools.combinations(range(10), n - 2), range(5)))):
        rest = [ITEMS[i][0] for i in range(10) if i not in sel]
        for perm in itertools.permutations([ITEMS[i][(c + i) % 5 % len(ITEMS[i])] for i in sel] + [FMTSPELL[k][c % 3], ["a.s"]]):
            same(rest + list(perm), k)
    # every combination of spellings of any four options
    for sel, k in w.mine(itertools.product(itertools.combinations(range(10), 3 if DEEP else 2), range(5))):
        rest = [ITEMS[i][0] for i in range(10) if i not in sel]
        for sp in itertools.product(*[ITEMS[i] for i in sel], FMTSPELL[k]):
            same(rest + list(sp) + [["a.s"]], k)
            same([["a.s"]] + list(sp) + rest, k)
    # bundled short options, and -- before the file
    for k in w.mine(range(5)):
        fl = FMTSPELL[k][0][0][1]
        for b in itertools.permutations("3q" + fl):
            opts = [ITEMS[i][0] for i in (1, 2, 3, 6, 7, 8, 9)]
            same([["-" + "".join(b) + "oo"]] + opts + [["a.s"]], k)
            same([["-" + "".join(b) + "o", "o"]] + opts + [["--", "a.s"]], k)
            same(opts + [["a.s"], ["-" + "".join(b) + "oo"]], k)


W = [[L("lbra", S("la"))], [L("lbsr", S("fwd"))], [L("lbeq", PC)], [L("lbra", P(">", S("la")))], [L("lbra", S("far"))], [L("bra", S("la"))], [L("exg", R("a"), R("x"))], [L("tfr", R("pc"), R("cc"))], [L("exg", R("d"), R("u"))], [L("tfr", R("a"), R("b"))], [L("fdb", S("fwd"))], [L("nop")], [L("rmb", I(126))], [L("macro", label="mm"), L("lbra", PC), L("tfr", R("a"), R("x")), L("endm")], [L("mm")],
     [L("if", S("fwd")), L("lbra", PC), L("else"), L("exg", R("a"), R("x")), L("endif")], [L("include", STR("i.s"))], [L("bra", S("far"))], [L("fcb", S("undef"))], [L("bogus")], [L("if", I(0)), L("tfr", R("a"), R("x")), L("endif")], [L("macro", label="uncalled"), L("tfr", R("a"), R("x")), L("endm")], [L("org", I(0x3f80))]]
WIF = re.compile(r"(?m)^warning: ([^:\n]+):(\d+): (.*)$")


def warnings(w, arg):
    """The warnings of every pair and triple of lines, by verbosity, against the reference."""
    for s in w.mine(seqs(range(len(W)), 3)):
        p = [Line("la")] + cat([W[i] for i in s]) + TAIL
        files = {"a.s": p, "i.s": [L("lbra", PC), L("exg", R("x"), R("b"))]}
        if 14 in s and 13 not in s:
            p = W[13] + p
            files["a.s"] = p
        try:
            ref = reference({n: [Line(l.label, l.op, l.args, l.raw, l.bad) for l in ls] for n, ls in files.items()})
        except ISA.DontCare:
            w.stats.outcome("unspecified")
            continue
        t = {n: RA.text(ls) for n, ls in files.items()}
        exp = expectation(ref)
        for v, lim in ((["-q"], 3), ([], 2), (["-v"], 1)):
            args = v + ["-S", "-o", "o", "-s", "s", "a.s"]
            r = w.run(args, t, ["o", "s"])
            got = observed(r)
            want = sorted((e[1], e[2]) for e in ref.warnings if e[0] >= lim) if ref.ok else []
            seen = sorted((m.group(1), int(m.group(2))) for m in WIF.finditer(r.err))
            w.stats.transitions += 1
            w.stats.state((tuple(want), exp[0], tuple(v)))
            w.stats.outcome("%d warnings" % len(want) if exp[0] == "ok" else "rejected")
            if got != exp or (exp[0] == "ok" and (seen != want or len(r.err.splitlines()) != len(seen))) or (exp[0] != "ok" and seen):
                w.bad("%s: %r" % (" ".join(args), t["a.s"]), args, t, show(exp)[:100] + " warnings at %s" % want, show(got)[:100] + " " + r.err[:300], recheck=lambda: w.run(args, t, ["o", "s"]).key() == r.key())


def illegal(w, arg):
    """Illegal but working forms: assembled alike in every verbosity, warned of unless quiet."""
    forms = [" lda [,x+]", " lda [,-y]", " leax $1234", " ldd [,u+]", " exg a,x", " exg x,a", " tfr 5,a", " tfr a,5", " exg cc,pc", " tfr dp,s"]
    fine = [" lda ,x+", " lda [,x++]", " leax [$1234]", " exg a,b", " exg x,y", " tfr a,dp", " tfr d,x", " nop"]
    ineff = [" lbra *", " lbne *+5", " lbsr *-20"]
    for s in w.mine(itertools.chain.from_iterable(itertools.product(forms + fine + ineff, repeat=k) for k in (1, 2))):
        t = {"a.s": " org $1000\n" + "\n".join(s) + "\n"}
        base = None
        for isa in ([], ["-3"]):
            if isa and any("5" in x and "tfr" in x or "[" in x for x in s):
                continue
            base = None
            for v, ks in ((["-q"], ()), ([], forms), (["-v"], forms + ineff)):
                args = isa + v + ["-o", "o", "-l", "l", "a.s"]
                r = w.run(args, t, ["o", "l"])
                want = [i + 2 for i, x in enumerate(s) if x in ks]
                seen = [int(m.group(2)) for m in WIF.finditer(r.err)]
                w.stats.transitions += 1
                w.stats.outcome("%d warnings" % len(want))
                base = base or r
                if not r.ok or r.files != base.files or seen != want or len(r.err.splitlines()) != len(want):
                    w.bad("%s: %r" % (" ".join(args), t["a.s"]), args, t, "exit 0, the same code, warnings for lines %s" % want, r.status() + " " + r.err[:300] + (" other code" if r.files != base.files else ""), recheck=lambda: w.run(args, t, ["o", "l"]).key() == r.key())


ISAS = [([], 9), (["-9"], 9), (["-8"], 9), (["-89"], 9), (["--6809"], 9), (["--680"], 9), (["--68"], 9), (["-3"], 3), (["--6309"], 3), (["--630"], 3), (["--63"], 3)]
VERB = [([], 2), (["-q"], 3), (["--quiet"], 3), (["--qui"], 3), (["-v"], 1), (["--verbose"], 1), (["--verb"], 1)]
FALL = [[]] + [[x] for k, n in zip("BDCSH", ("bin", "dragondos", "coco", "srec", "hex")) for x in ["-" + k] + ["--" + n[:i] for i in range(2 if n != "hex" else 3, len(n) + 1)]] + [["--b"], ["--c"]]
MODAL = [[L("nop")], [L("ldq", I(5))], [L("ldx", P("#", I(5)))], [L("sexw")], [L("divd", P("#", I(3)))], [L("lda", I(5), R("x"))], [L("exg", R("a"), R("x"))], [L("exg", I(12), R("d"))], [L("lbra", PC)], [L("oim", P("#", I(1)), S("fwd"))], [L("pshsw")]]


def modes(w, arg):
    """Every spelling of instruction set, verbosity and format, the defaults among them, on programs for which each matters."""
    import formats

    def image(kind, d):
        if kind == "b":
            return {0x1234 + i: x for i, x in enumerate(d)}
        return formats.image({"d": formats.dragondos, "c": formats.coco, "s": formats.srec, "h": formats.ihex}[kind](d)[0])
    for (ia, isa), p in w.mine(itertools.product(ISAS, MODAL)):
        p = [L("org", I(0x1234))] + p + TAIL
        t = {"a.s": RA.text(p)}
        try:
            ref = reference({"a.s": p}, isa=isa)
        except ISA.DontCare:
            continue
        exp = expectation(ref)
        for (va, lim), fm in itertools.product(VERB, FALL):
            want = sorted((e[1], e[2]) for e in ref.warnings if e[0] >= lim) if ref.ok else []
            kind = (fm[0].lstrip("-")[0].lower() if fm else "b")
            for args in (ia + va + fm + ["-o", "o", "a.s"], ["a.s", "-o", "o"] + fm + va + ia):
                r = w.run(args, t, ["o"])
                w.stats.transitions += 1
                seen = sorted((m.group(1), int(m.group(2))) for m in WIF.finditer(r.err))
                w.stats.outcome("assembled" if r.ok else "rejected")
                good = r.ok == (exp[0] == "ok") and (not r.ok or (seen == want and len(r.err.splitlines()) == len(seen)))
                if good and r.ok:
                    try:
                        good = image(kind, r.files["o"]) == ref.image
                    except formats.Bad:
                        good = False
                if not good:
                    w.bad("%s: %r" % (" ".join(args), t["a.s"]), args, t, show(exp)[:200] + " warnings at %s, format %s" % (want, kind), r.status() + " " + r.err[:200] + repr(r.files.get("o"))[:200], recheck=lambda: w.run(args, t, ["o"]).key() == r.key())
            w.stats.state((isa, lim, kind, t["a.s"]))


def every_form(w, arg):
    """The warnings for every operand form of every instruction, by verbosity."""
    import c01
    from batch import make
    for isa, m in w.mine([(isa, m) for isa in (9, 3) for m in sorted(ISA.OPS[isa])]):
        fl = [f if not f or f[0] != "rel" else None for f in c01.forms(isa, m)]
        if None in fl:
            fl = [(("v", t, p),) for p in ("", ">") for t in list(range(0x1000 - 140, 0x1000 + 140)) + [0, 0x8000, 0xffff]]
        elif len(fl) > 400 and not DEEP:
            fl = fl[:200] + fl[200::len(fl) // 200]
        if ISA.OPS[isa][m].kind == ISA.PAIRO:
            rs = [("r", x, "") for x in ISA.TFR if x in ISA.REGS[isa]]
            fl += [c for n in range(16) for x in rs[:3] for c in ((("v", n, ""), x), (x, ("v", n, "")))] + [(("v", 1, ""), ("v", n, "")) for n in range(16)]
        ls, want = [], {"inefficient": [], "illegal": []}
        for ops in fl:
            try:
                b, warn = ISA.encode(isa, m, ops, 0x1000, None)
            except (ISA.DontCare, ISA.Err):
                continue
            ls += ["\torg\t$1000", "\tput\t%d" % (8 * len(ls)), make(m, ops, "lit", {}).txt]
            if warn:
                want[warn].append(len(ls))
        t = {"a.s": "\n".join(ls) + "\n"}
        for v, ks in (("-q", ()), ("", ("illegal",)), ("-v", ("illegal", "inefficient"))):
            args = ([v] if v else []) + ["-%d" % isa, "-C", "-o", "o", "a.s"]
            r = w.run(args, t, ["o"])
            exp = sorted(x for k in ks for x in want[k])
            # an operand each may be warned of, so a line can have two
            seen = sorted(set(int(x.group(2)) for x in WIF.finditer(r.err)))
            w.stats.transitions += len(ls) // 3
            w.stats.state((isa, m, v, len(exp)))
            w.stats.outcome("%s warnings" % ("some" if exp else "no"))
            if not r.ok or seen != exp or len(r.err.splitlines()) != len(WIF.findall(r.err)):
                d = sorted(set(seen) ^ set(exp))[:3]
                w.bad("%s: warnings for %s" % (" ".join(args), "; ".join(ls[x - 1].strip() for x in d)), args, t, "warnings for %d lines" % len(exp), r.status() + " %d lines " % len(seen) + r.err[:300], recheck=lambda: w.run(args, t, ["o"]).key() == r.key())


def main():
    c = Check("C21")
    c.bounds = ["every pair%s of %d line groups x 5 formats x every subset of listing, symbols and exports x 3 verbosities; %d more groups alone and paired with %d" % (" and triple" if DEEP else "", len(G), len(G2), len(CORE)), "3 kinds of program needing 1..15 passes x 17 limits x every subset of outputs x 3 verbosities", "every order of every %d of 10 options, format and source file; every combination of spellings of every %d" % (5 if DEEP else 3, 3 if DEEP else 2), "every spelling and abbreviation of instruction set (11), verbosity (7) and format (%d, the default among them) x 11 programs, options before and after the file" % len(FALL), "warnings of every sequence of up to 3 of %d lines in 3 verbosities against the reference; 10 illegal and 3 inefficient forms with one another; the warnings of every operand form of every instruction of both ISAs in 3 verbosities" % len(W)]
    c.assumptions = ["reference assembler lib/refasm.py for which lines deserve a warning", "repeating or contradicting options is unspecified"]
    for f in (options, passes, orders, warnings, illegal, modes, every_form):
        c.explore(f)
    c.finish()
