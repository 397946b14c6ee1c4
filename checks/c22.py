"""C22: layout, letter case and comments."""
import itertools, re
import isa as ISA
from explore import *
from run import Check, TIER

DEEP = TIER == "thorough"
TOK = re.compile(r"\"(?:\\.|[^\"\\])*\"|/(?:\\.|[^/\\])*/(?=,|$)|'.'?|[0-9]+[bBfF]\b|0[xX][0-9a-fA-F]+|\$[0-9a-fA-F]+|%[01]+(?=$|[,)\]+])|@[0-7]+|[0-9]*\.[0-9]+|[0-9]+|\\\d|\\\{\d+\}|&\{\d+\}|[A-Za-z_][\w.]*|\+\+|--|<<|>>|<=|>=|==|!=|&&|\|\||.")
HEAD = "start equ $1234\ndirect equ $20\none equ 1\nmac macro\n fcb \\1\n endm\nmac2 macro\n fdb \\1,\\2\n endm\n org $4000\n setdp 0\nhere nop\n1 nop\n"
TAIL = "\n1 nop\nlater equ 9\nfar equ $5555\n end here\n"


class Ln:
    """label, mnemonic, operand tokens (None: none)"""
    def __init__(s, t):
        f = re.match(r"([^ ]*)(?: (\S+)(?: (.*))?)?$", t)
        s.lab, s.op, a = f.group(1), f.group(2), f.group(3)
        s.toks = TOK.findall(a) if a else None
        assert a is None or "".join(s.toks) == a

    def text(s, w1=" ", w2=" ", gap=None, gapws="", trail="", case=0, rcase=0):
        o = s.lab
        if s.op:
            o += w1 + cased(s.op, case)
        if s.toks:
            o += w2
            for i, t in enumerate(s.toks):
                if i and (gap == "all" or gap == i):
                    o += gapws
                o += cased(t, rcase) if rcase and ((t.lower() in ISA.REGS[3] and s.op.lower() not in ("export", "set", "equ")) or re.match(r"\d+[bf]$", t)) else t
        return o + trail

    @property
    def closed(s):
        """Ends in a token that a following word cannot continue."""
        return bool(s.toks) and (s.toks[-1][0] in "0123456789$@'\")]%" or s.toks[-1] in ISA.REGS[3] or s.toks[-1] in ("++", "+"))


def cased(t, k):
    return [t, t.upper(), t.capitalize(), "".join(c.upper() if i % 2 else c for i, c in enumerate(t))][k]


def bases():
    b = []
    for m, op in sorted(ISA.OPS6309.items()):
        k = op.kind
        if k == ISA.INH:
            b.append(" " + m)
        elif k == ISA.STK:
            b += [" %s a,b,x,pc" % m]
        elif k == ISA.PAIRO:
            b += [" %s a,b" % m]
        elif k == ISA.TFMO:
            b += [" tfm x+,y+", " tfm x,y+", " tfm d-,s-"]
        elif k == ISA.BITO:
            b += [" %s a,3,5,$40" % m]
        elif k == ISA.IMMEM:
            b += [" %s #$0f,<$40" % m, " %s #1,2,x" % m]
        elif k in (ISA.LEAO,):
            b += [" %s 5,x" % m, " %s later,pcr" % m]
        elif k == ISA.MEMO:
            if op.imm is not None:
                b.append(" %s #5" % m)
            if op.dir is not None:
                b.append(" %s direct" % m)
        else:
            b.append(" %s here" % m)
    forms = ["#$12", "#later", "#'a", "#\"z\"", "<direct", ">direct", "start", "1,x", "-1,y", "0,u", ",s", "200,x", "5000,x", "one,x", "<5,x", ">5,x", "<<5,x", ",x+", ",x++", ",-x", ",--x", "a,x", "b,y", "d,u", "e,s", "[,x]", "[5,x]", "[start]", "[,x++]", "[,--y]", "[d,x]", "here,pcr", "[here,pcr]", "<here,pcr", ">here,pcr", ",w", "5,w", ",w++", ",--w", "[,w]", "one+2*3,x", "(one+2),y", "[one+2,y]", "<(one+1)", "1B", "1F", "*+5", "-(one)+$10,x", "far-later"]
    b += [" lda " + f for f in forms] + [" ldx " + f for f in forms[:9]] + ["lbl lda " + f for f in forms[::5]]
    b += [" fcb 1,2,3", " fcb 'a,'b',\"c\"", " fcc \"text ; * here\"", " fcc /slash; 'text'/", " fcc \"a\",13,0", " fcn \"n\"", " fcs \"top\"", " fcv 1,2", " fci 1", " fdb here,*,later", " fqb 1,-1", " fcb one+2*3-4/2", " fcb 5%3,%101,@17", " fcb one<<3|1,one>=1&&one!=2", " fcb one?2:3", " fcb -one,~one,!one", " fcb 1.5+1.5,.5*4", " fcb (one),((one)+1)",
          " rmb 5", " rzb 3", " fill 7,3", " align 8", " align 8,$ee", " setdp $12", "sv set one+1", "ev equ one+1", "es equ \"ab\"", "er equ x", "el rmb 2", "lab fcb 1", "alone", "! nop", "7 nop", " org $5000", "lo org $5000", " put $6000", " section \"other\"", " code", " data", " bss", "sl section \"x\"", " export here", " export here,later", " mac 5", " mac2 one,2", " include \"i.s\"", " includebin \"b.b\"",
          " fzb 2", " zmb 3", " bsz 1", " ram", " auto", " LIB \"i.s\"", " name 1", " spc 2", " sttl 1", " ttl 1", " fcv \"A\",1", " fci \"ab\"", " align 16,one", " fill one,one", "mx macro\n fcb \\1\nly\n endm\n mx 5", " page", " opt 1", " nam 1", " if one\n nop\n endif", " if 0\n nop\n else\n fcb 1\n endif", " if 0\n elsif one==1\n fcb 2\n else\n fcb 3\n endif", "mm macro\n fcb \\1,\\{2}\n endm\n mm 3,4", "mn macro\nn\\1 fcc \"&1\"\n fdb n\\1\n endm\n mn 5\n mn 6", "mo macro\n if \\1\n fcb 1\n else\n fcb 2\n endif\n endm\n mo 0\n mo 1"]
    b += [" tfr %s,%s" % (r, r) for r in ("cc", "a", "b", "dp", "x", "y", "u", "s", "pc", "d", "e", "f", "w", "v")] + [" pshs cc,dp,y,u,d", " pulu s", " lda f,y", " lda w,x", " tfm u+,s+", " tfm y-,u-", " band cc,1,2,$40", " bor b,1,2,$40", " lda 5,pc", "qr equ q", "vr equ pcr\n lda here,vr", " lda [here,pc]"]
    b += ["mx macro\n fcc \"<\\1>\"\nl\\1 nop\n fdb l\\1\n endm\n mx %s" % r for r in sorted(ISA.REGS[3])]
    return [[Ln(l) for l in x.split("\n")] for x in b]


def prog(ls, eol="\n"):
    return (HEAD + "\n".join(ls) + TAIL).replace("\n", eol)


class Cmp:
    """Runs variants and compares with the plain layout."""
    def __init__(s, w):
        s.w, s.base = w, {}

    def run(s, text):
        return s.w.run(["-3", "-q", "-S", "-o", "o", "-s", "s", "a.s"], {"a.s": text, "i.s": " fcb $77\n", "b.b": b"bin"}, ["o", "s"])

    def plain(s, k, g):
        if k not in s.base:
            r = s.run(prog([l.text() for l in g]))
            if not r.ok:
                raise RuntimeError("plain layout fails: %r %s" % ([l.text() for l in g], r.err))
            s.base[k] = (r.files["o"], r.files["s"])
            s.w.stats.state(s.base[k])
        return s.base[k]

    def same(s, want, text, what):
        r = s.run(text)
        w = s.w
        w.stats.transitions += 1
        w.stats.outcome(what)
        if w.stats.traces % 29989 == 0:
            w.stats.sample(what + ": %r" % text[len(HEAD):][:150])
        if not r.ok or (r.files.get("o"), r.files.get("s")) != want:
            w.bad("%s: %r" % (what, text.replace(HEAD, "").replace(TAIL, "")[:300]), ["-3", "-q", "-S", "-o", "o", "-s", "s", "a.s"], {"a.s": text, "i.s": " fcb $77\n", "b.b": b"bin"}, want[0].decode()[:300], r.status() + " " + r.err[:200] + r.files.get("o", b"").decode("latin-1")[:300],
                  recheck=lambda: s.run(text).key() == r.key())


WS = [" ", "\t", "  ", "\t \t", " " * 30]
TRAIL = ["", " ", "\t ", ";c", " ;c", "\t; c \"x' * /", "  ;; \\1 &1 \xe9"]
WORDS = [" load it", "\tload, it; now", " words \"quoted\" here", " is 1", "  text *", " Don't", " a.b,c [d"]
BASES = bases()


def fields(w, arg):
    """White space between fields x trailing space or comment x line ending x case of the mnemonic."""
    c = Cmp(w)
    for k, g in w.mine(enumerate(BASES)):
        want = c.plain(k, g)
        for w1, w2, tr, eol, ca in itertools.product(WS, WS, TRAIL, ("\n", "\r\n"), range(4)):
            if not DEEP and (w1 != w2 and ca and eol == "\n"):
                continue
            c.same(want, prog([l.text(w1, w2, trail=tr, case=0 if l.op and is_macro(l) else ca) for l in g], eol), "fields")


def is_macro(l):
    return l.op in ("mac", "mac2", "mx", "mm", "mn", "mo")


def operands(w, arg):
    """White space at each place between operand tokens, and at all of them; case of registers."""
    c = Cmp(w)
    for k, g in w.mine(enumerate(BASES)):
        want = c.plain(k, g)
        n = max([len(l.toks or ()) for l in g])
        for gap in list(range(1, n)) + ["all"]:
            for ws in (" ", "\t", "  \t "):
                for tr in TRAIL:
                    for rc in range(3):
                        c.same(want, prog([l.text(gap=gap, gapws=ws if l.op not in ("export",) else ws, trail=tr, rcase=rc) for l in g]), "operands")
        for a, b in itertools.combinations(range(1, n), 2):
            o = []
            for l in g:
                t = list(l.toks or ())
                for i in (b, a):
                    if i < len(t):
                        t.insert(i, " ")
                o.append(l.lab + (" " + l.op if l.op else "") + (" " + "".join(t) if t else ""))
            c.same(want, prog(o), "two gaps")
        for rc, ca, tr in itertools.product(range(4), range(4), TRAIL):
            c.same(want, prog([l.text(rcase=rc, case=0 if is_macro(l) else ca, trail=tr) for l in g]), "case")
        for words in WORDS:
            if all(l.closed or not l.op for l in g if l.op not in ("else", "endif", "endm", "macro", "nop")) and any(l.closed for l in g):
                for eol in ("\n", "\r\n"):
                    c.same(want, prog([l.text(trail=words if l.closed else "") for l in g], eol), "words after operands")


def cases(w, arg):
    """Every combination of letter cases of every mnemonic, directive and register."""
    c = Cmp(w)

    def every(s):
        for t in itertools.product(*[sorted({x.lower(), x.upper()}) for x in s]):
            yield "".join(t)
    seen = set()
    jobs = []
    for k, g in enumerate(BASES):
        for i, l in enumerate(g):
            if l.op and l.op not in seen and not is_macro(l):
                seen.add(l.op)
                jobs += [(k, i, None, v) for v in every(l.op)]
            for j, t in enumerate(l.toks or ()):
                if t.lower() in ISA.REGS[3] and l.op not in ("export",):
                    jobs += [(k, i, j, v) for v in every(t)]
    for k, i, j, v in w.mine(jobs):
        g = BASES[k]
        t = [l.text() for l in g]
        l = Ln(t[i])
        if j is None:
            l.op = v
        else:
            l.toks[j] = v
        c.same(c.plain(k, g), prog(t[:i] + [l.text()] + t[i + 1:]), "cases")


FILL = ["", " ", "\t\t", "* c", "*", ";", "; c ' \" / \\1 &", " ; c", "\t* c", "*c; ; nop", " ;\tnop"]


def betweens(w, arg):
    """Blank and comment lines between the lines of every base, one or two at a time; end of file."""
    c = Cmp(w)
    for k, g in w.mine(enumerate(BASES)):
        want = c.plain(k, g)
        t = [l.text() for l in g]
        for i in range(len(t) + 1):
            for f in FILL:
                for eol in ("\n", "\r\n"):
                    c.same(want, prog(t[:i] + [f] + t[i:], eol), "comment line")
            for a, b in itertools.product(FILL, repeat=2) if len(t) > 1 or DEEP else ():
                c.same(want, prog(t[:i] + [a, b] + t[i:]), "comment lines")
        for a in FILL:
            c.same(want, prog([x for y in t for x in (a, y)] + [a]), "comment lines everywhere")
            c.same(want, prog([x for y in t for x in (a, y)] + [a], "\r\n"), "comment lines everywhere")
    # the last line of the file, without END
    tail = TAIL.replace(" end here\n", "")
    for k, g in w.mine(enumerate(BASES)):
        src = HEAD + tail.lstrip("\n") + "\n".join(l.text() for l in g)
        r = c.run(src + "\n")
        if not r.ok:
            continue
        want = (r.files["o"], r.files["s"])
        for end in ["", "\r\n", "\n\n", "\n\n\n", " ", " ;c", ";", "\n ", "\n;c", "\n*", "\n\t", "\r\n\r\n", "\r", "\n; c\n"]:
            if end == "\r" or "\r\n" in end:
                c.same(want, src.replace("\n", "\r\n") + end, "end of file")
            c.same(want, src + end, "end of file")


def names(w, arg):
    """Symbol and macro names differing in one place or in case are distinct, at every length and position."""
    c = Cmp(w)
    chars = "aAbB_.0"
    short = [a + "".join(t) for a in "aAbB_" for n in range(3 if not DEEP else 4) for t in itertools.product(chars, repeat=n)]
    short = [n for n in short if n.lower() not in ISA.REGS[3]]

    def values(syms, what):
        """All defined with different values, referred to before and after."""
        t = "".join(" fdb %s\n" % n for n in syms) + "".join("%s equ %d\n" % (n, 1000 + i) for i, n in enumerate(syms)) + "".join(" fdb %s\n" % n for n in reversed(syms))
        want = list(range(1000, 1000 + len(syms)))
        r = w.run(["-o", "o", "-s", "s", "a.s"], {"a.s": t}, ["o", "s"])
        got = [int.from_bytes(r.files["o"][i:i + 2], "big") for i in range(0, len(r.files["o"]), 2)] if r.ok else r.err[:300]
        w.stats.transitions += len(syms)
        w.stats.state(tuple(syms))
        w.stats.outcome(what)
        exp = want + want[::-1]
        sy = set(x.split("\t")[0] for x in r.files.get("s", b"").decode("latin-1").split("\n") if x)
        if got != exp or sy != set(syms):
            bad = [s for s, x, y in zip(syms, exp, got) if x != y][:5] if r.ok else ""
            w.bad("%s: %d names" % (what, len(syms)), ["-o", "o", "-s", "s", "a.s"], {"a.s": t}, "every name with its own value", str(got)[:300] + str(bad), recheck=lambda: True)
    def others(ns, what):
        """The same as section names, macro arguments, --define, --exec and EXPORT names."""
        sec = "".join(" section \"%s\"\n org %d\n put 0\n rmb %d\n" % (n, 256 * i, 2 * i) for i, n in enumerate(ns)) + "".join(" section \"%s\"\n fdb *\n" % n for n in reversed(ns))
        w.stats.transitions += 4 * len(ns)
        w.stats.outcome(what + " elsewhere")
        defs = "".join(" fdb %s\n" % n for n in ns)
        end = ns[len(ns) // 2]
        mac = "m macro\n fdb \\1,\\2\n endm\n" + "".join("%s equ %d\n" % (n, i + 1) for i, n in enumerate(ns)) + "".join(" m %s,%s\n" % (n, end) for n in ns) + " export %s\n export %s\n" % (ns[0], end)
        for a, t, want in ((["-o", "o", "a.s"], sec, (b"".join((258 * i).to_bytes(2, "big") for i in range(len(ns))), None)),
                           ([x for i, n in enumerate(ns) for x in ("-d", "%s=%d" % (n, i + 1))] + ["-o", "o", "a.s"], defs, (b"".join((i + 1).to_bytes(2, "big") for i in range(len(ns))), None)),
                           (["-e", end, "-S", "-E", "s", "-o", "o", "a.s"], mac, (None, None))):
            def go():
                return w.run(a, {"a.s": t}, ["o", "s"])
            r = go()
            if want[0] is None:
                k = len(ns) // 2 + 1
                d = b"".join((i + 1).to_bytes(2, "big") + k.to_bytes(2, "big") for i in range(len(ns))).hex().upper()
                got = "".join(x[8:-2] for x in r.files.get("o", b"").decode().split("\n") if x[:2] == "S1") if r.ok else r.err[:200]
                ok = got == d and [x for x in r.files["o"].decode().split("\n") if x[:2] == "S9"][0][4:8] == "%04X" % k and sorted(x.split("\t")[0] for x in r.files["s"].decode().split("\n") if x) == sorted({ns[0], end})
                if ok and w.stats.transitions % 9973 < 50:
                    w.stats.sample("%s: exec %s of %s" % (what, end, ns[:6]))
            else:
                ok = r.ok and r.files["o"] == want[0]
            if not ok:
                w.bad("%s elsewhere: %s" % (what, ns[:8]), a, {"a.s": t}, "every name for itself", r.status() + r.err[:200] + str(r.files)[:600], recheck=lambda: go().key() == r.key())
    for i in w.mine(range(0, len(short), 60)):
        values(short[i:i + 60], "short names")
        others(short[i:i + 60], "short names")
    for a, b in w.mine(itertools.combinations([n for n in short if len(n) < 3], 2)):
        values([a, b], "pairs")
        others([a, b], "pairs")
    for n in w.mine(range(1, 300 if DEEP else 130)):
        base = ("abcdefghijklmnopqrstuvwxyz_0123456789." * 9)[:n]
        base = "n" + base
        vs = [base] + [base[:i] + base[i].upper() + base[i + 1:] for i in range(len(base)) if base[i].upper() != base[i]] + [base[:i] + ("z" if base[i] != "z" else "y") + base[i + 1:] for i in range(1, len(base))] + [base[:i] for i in range(1, len(base))] + [base + x for x in "aA_.0"]
        vs = [v for v in dict.fromkeys(vs) if v.lower() not in ISA.REGS[3]]
        values(vs, "long names")
        others(vs[:100], "long names")
        m = [v for v in vs if v.lower() not in ISA.OPS6309 and v.lower() not in ("nop", "nam")][:60]
        t = "".join("%s macro\n fdb %d\n endm\n" % (v, i) for i, v in enumerate(m)) + "".join(" %s\n" % v for v in reversed(m))
        r = w.run(["-3", "-o", "o", "a.s"], {"a.s": t}, ["o"])
        want = b"".join(i.to_bytes(2, "big") for i in reversed(range(len(m))))
        w.stats.outcome("macro names")
        if r.files.get("o") != want:
            w.bad("macro names of length %d" % n, ["-3", "-o", "o", "a.s"], {"a.s": t}, want.hex(), r.err[:200] + r.files.get("o", b"").hex(), recheck=lambda: True)
    # undefined unless spelt in full
    for n in w.mine(range(2, 40)):
        base = "n" + ("abcdefghijklmnopqrstuvwxyz" * 2)[:n]
        for v in [base[:-1], base + "x", base.upper(), base[:-1] + base[-1].upper(), base.capitalize()]:
            r = w.run(["-o", "o", "a.s"], {"a.s": "%s equ 1\n fcb %s\n" % (base, v)}, ["o"])
            w.stats.outcome("other spelling")
            if not r.failed:
                w.bad("%s is not %s" % (v, base), ["-o", "o", "a.s"], {"a.s": "%s equ 1\n fcb %s\n" % (base, v)}, "exit 1", r.status(), recheck=lambda: True)


def main():
    c = Check("C22")
    c.bounds = ["%d line groups (every mnemonic, operand form and directive) x 5x5 widths of white space x %d endings x LF/CRLF x 4 letter cases%s" % (len(BASES), len(TRAIL), "" if DEEP else " (a part of the product)"), "white space at each and every two gaps between operand tokens; registers in 4 cases; %d kinds of trailing words" % len(WORDS), "%d kinds of blank or comment line at every place and pairs of them; 14 ways to end the file" % len(FILL), "all names over 7 characters up to length %d, names differing at each position up to length %d" % (4 if DEEP else 3, 300 if DEEP else 130)]
    c.assumptions = ["the plain layout of the same program on the same build is the reference"]
    c.bounds.append("every combination of letter cases of every mnemonic, directive and register")
    for f in (fields, operands, betweens, names, cases):
        c.explore(f)
    c.finish()
