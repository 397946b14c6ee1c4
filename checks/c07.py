"""C07: literals."""
import itertools
from batch import *
from common import parse_symbols
from explore import *
from contexts import CTX, surround
from refasm import I, L, P, R, STR
from run import Check, TIER

DEEP = TIER == "thorough"


def octal(v):
    return "%o" % v


NOT = {"dec": lambda v: "%d" % v, "@": lambda v: "@" + octal(v), "0": lambda v: "0" + octal(v), "%": lambda v: "%" + bin(v)[2:],
       "0b": lambda v: "0b" + bin(v)[2:], "$": lambda v: "$%x" % v, "$U": lambda v: "$%X" % v, "0x": lambda v: "0x%x" % v,
       "0xU": lambda v: "0x%X" % v, "$0": lambda v: "$%08x" % v, "%0": lambda v: "%" + bin(v)[2:].zfill(20), "@0": lambda v: "@00" + octal(v)}
BIG = sorted({x for k in range(16, 64) for x in ((1 << k) - 1, 1 << k, (1 << k) + 1) if x < 1 << 63} |
             {0x12345678, 0xdeadbeef, 0x123456789abcdef, 0xfedcba98, 4294967295, 10 ** 18, 8 ** 20})


def ints(w, arg):
    jobs = [(n, lo) for n in NOT for lo in range(0, 65536, 4096)] + [(n, None) for n in NOT]
    for n, lo in w.mine(jobs):
        f = NOT[n]
        if lo is not None:
            emit_lines(w, [("\tfdb\t" + f(v), v.to_bytes(2, "big")) for v in range(lo, lo + 4096)], what="number")
        else:
            emit_lines(w, [("\tfqb\t" + f(v), (v & 0xffffffff).to_bytes(4, "big")) for v in BIG], what="number")
            emit_lines(w, [("\tfqb\t%s>>32" % f(v), (v >> 32).to_bytes(4, "big")) for v in BIG], what="number")
            emit_lines(w, [("\tfdb\t-%s,+%s" % (f(v), f(v)), (-v & 0xffff).to_bytes(2, "big") + v.to_bytes(2, "big"))
                           for v in range(0, 65536, 7)], what="signed number")
        w.stats.state((n, lo))


def cases(w, arg):
    """Every upper/lower case assignment of hexadecimal digits."""
    base = [0xabcd, 0xef01, 0xfade, 0x0abc, 0xbeef, 0xa1b2, 0xffff]
    its = []
    for v in base:
        d = "%04x" % v
        for m in itertools.product((0, 1), repeat=4):
            t = "".join(c.upper() if k else c for c, k in zip(d, m))
            its += [("\tfdb\t$" + t, v.to_bytes(2, "big")), ("\tfdb\t0x" + t, v.to_bytes(2, "big"))]
    for b in w.mine(chunked(its, 40)):
        emit_lines(w, b, what="letter case")
        w.stats.state(b[0][0])


PLACES = [("\tlda\t#%s", lambda v: bytes([0x86, v & 255])), ("\tldx\t#%s", lambda v: bytes([0x8e, v >> 8, v & 255])),
          ("\tldx\t>%s", lambda v: bytes([0xbe, v >> 8, v & 255])), ("\tlda\t[%s]", lambda v: bytes([0xa6, 0x9f, v >> 8, v & 255])),
          ("\tlda\t>%s,x", lambda v: bytes([0xa6, 0x89, v >> 8, v & 255])), ("\tfcb\t1,%s", lambda v: bytes([1, v & 255])),
          ("\tfdb\t(%s)", lambda v: v.to_bytes(2, "big")), ("\tfdb\t1+%s", lambda v: ((v + 1) & 0xffff).to_bytes(2, "big")),
          ("\tfdb\t%s-1", lambda v: ((v - 1) & 0xffff).to_bytes(2, "big")), ("\tfdb\t%s,2", lambda v: v.to_bytes(2, "big") + b"\0\2"),
          ("\tfdb\t~%s", lambda v: (~v & 0xffff).to_bytes(2, "big")), ("\tfdb\t%s ; %%1", lambda v: v.to_bytes(2, "big")),
          ("\tfdb\t 1 ? %s : 3", lambda v: v.to_bytes(2, "big")), ("\tfdb\t%s*1", lambda v: v.to_bytes(2, "big")),
          ("\tfdb\t%s&$ffff", lambda v: v.to_bytes(2, "big")), ("\tfdb\t%s<<0", lambda v: v.to_bytes(2, "big")),
          ("\tfdb\t%s==%s", lambda v: b"\0\1"), ("\tfdb\t2*%s", lambda v: (2 * v & 0xffff).to_bytes(2, "big"))]


def places(w, arg):
    """Every notation in every kind of place."""
    jobs = list(itertools.product(PLACES, NOT))
    for (f, g), n in w.mine(jobs):
        its = []
        for v in list(range(0, 20)) + [64, 127, 128, 255, 256, 511, 1234, 0x7fff, 0x8000, 0xabcd, 0xffff]:
            t = NOT[n](v)
            its.append((f.replace("%s", t).replace("%%", "%"), g(v)))
        emit_lines(w, its, what="number in place")
        w.stats.state((f, n))


def chars(w, arg):
    its = []
    for c in range(0x20, 0x7f):
        k = chr(c)
        for f, g in PLACES + [("\tfcb\t%s", lambda v: bytes([v]))]:
            for t in ("'" + k, "'" + k + "'"):
                its.append((f.replace("%s", t).replace("%%", "%"), g(c)))
    for b in w.mine(chunked(its, 60)):
        emit_lines(w, b, what="character")
        w.stats.state(b[0][0])


def floats(w, arg):
    """Symbols files list values exactly."""
    lits = []
    for a in range(0, 1000, 1 if DEEP else 3):
        for b in ("0", "5", "25", "125", "1", "01", "001", "999", "333", "0000000001", "98765432123456789"):
            lits.append("%d.%s" % (a, b))
    lits += [".5", ".25", ".125", "5.", "0.", "10.", ".0", "123456789.987654321", "1.7976931348623157" + "0" * 30, "0." + "0" * 30 + "1",
             "9007199254740993.0", "4294967296.5", "0.1", "0.2", "0.3", "3.14159265358979", "00.5", "007.50"]
    for b in w.mine(chunked(lits, 100)):
        src = "".join("f%d\tequ\t%s\ng%d\tequ\t-%s\n" % (i, t, i, t) for i, t in enumerate(b))
        args = ["-s", "s", "a.s"]
        r = w.run(args, {"a.s": src}, ["s"])
        w.stats.transitions += 2 * len(b)
        w.stats.outcome("floats")
        d = parse_symbols(r.files.get("s", b"").decode("latin-1")) if r.ok else {}
        for i, t in enumerate(b):
            v = float(t)
            w.stats.state(v)
            if d.get("f%d" % i) != v or not isinstance(d.get("f%d" % i), float) or d.get("g%d" % i) != -v:
                s1 = "f0\tequ\t%s\ng0\tequ\t-%s\n" % (t, t)
                r1 = w.run(args, {"a.s": s1}, ["s"])
                w.bad("floating point %s" % t, args, {"a.s": s1}, repr(v), r1.status() + " " + r1.files.get("s", b"").decode("latin-1"),
                      recheck=lambda: w.run(args, {"a.s": s1}, ["s"]).key() == r1.key())
                break


# string elements: (source in " delimiters, source in / delimiters, bytes)
EL = [("a", "a", b"a"), ("B", "B", b"B"), (" ", " ", b" "), (";", ";", b";"), ("*", "*", b"*"), ("\\\\", "\\\\", b"\\"), ("\\\"", "\"", b'"'),
      ("/", "\\/", b"/"), ("'", "'", b"'"), ("\\n", "\\n", b"\n"), ("\\r", "\\r", b"\r"), (",", ",", b","), ("&&", "&&", b"&"),
      ("#", "#", b"#"), ("7", "7", b"7"), ("%", "%", b"%"), ("[", "[", b"["), ("\t", "\t", b"\t"), ("\\/", "\\\"", None), ("{", "{", b"{"),
      ("\\a", "\\z", None)]
EL[18] = ("\\/", "\\/", b"/")
EL[20] = ("\\a", "\\a", b"a")


def strings(w, arg):
    n = 4 if DEEP else 3
    al = list(range(len(EL)))

    def gen():
        for s in seqs(al, n):
            for d in (0, 1):
                t = "".join(EL[i][d] for i in s)
                yield s, "%s%s%s" % ("\"/"[d], t, "\"/"[d]), b"".join(EL[i][2] for i in s)
        # & that does not introduce a positional variable
        for s in seqs(["&", "&a", "& ", "&&", "x"], 4):
            t = "".join(s)
            if all(not a.endswith("&") or not b.startswith("&") for a, b in zip(s, s[1:])):
                yield s, '"%s"' % t, t.replace("&&", "&").encode()
    for b in w.mine(chunked(gen(), 300)):
        emit_lines(w, [("\tfcc\t" + t, x) for s, t, x in b], what="string")
        emit_lines(w, [("\tfcb\t1, %s ,2 ; c" % t, b"\1" + x + b"\2") for s, t, x in b[:30]], what="string in list")
        its = []
        for s, t, x in b:
            v = 0
            for c in x:
                v = (v << 8 | c) & 0xffffffff
            its += [("\tfqb\t%s" % t, None), ("\tldx\t#%s" % t, bytes([0x8e, v >> 8 & 255, v & 255])), ("\tfqb\t(%s)+0" % t, v.to_bytes(4, "big")),
                    ("\tfdb\t-%s" % t, (-v & 0xffff).to_bytes(2, "big")), ("\tlda\t#%s" % t, bytes([0x86, v & 255]))]
        emit_lines(w, [i for i in its if i[1] is not None], what="string as integer")
        w.stats.state(b[0][1])
        w.stats.sample("%s -> %s" % (b[-1][1], b[-1][2].hex()))


def zeros(w, arg):
    """Any number of leading zeros (a decimal number has none: it would be octal)."""
    pre = {"": (octal, 1), "@": (octal, 0), "%": (lambda v: bin(v)[2:], 0), "0b": (lambda v: bin(v)[2:], 0), "$": (lambda v: "%x" % v, 0),
           "0x": (lambda v: "%X" % v, 0)}
    vals = list(range(0, 130)) + [255, 256, 511, 512, 4095, 4096, 0x7fff, 0x8000, 0xabcd, 0xffff]
    for (k, (f, m)), n in w.mine(itertools.product(pre.items(), list(range(0, 24)) + [40, 63, 64, 65, 100])):
        emit_lines(w, [("\tfdb\t%s%s%s" % (k, "0" * (n + m), f(v)), v.to_bytes(2, "big")) for v in vals], what="leading zeros")
        w.stats.state((k, n))
    for d in w.mine(range(1, 20)):
        its = []
        for c in "123456789":
            v = int(c * d)
            if v < 1 << 63:
                its += [("\tfqb\t%d" % v, (v & 0xffffffff).to_bytes(4, "big")), ("\tfqb\t%d>>32" % v, (v >> 32).to_bytes(4, "big"))]
                its += [("\tfqb\t%d0" % (v // 10), (v // 10 * 10 & 0xffffffff).to_bytes(4, "big"))]
        emit_lines(w, its, what="repeated digits")
        w.stats.state(("digits", d))


def escapes(w, arg):
    """A backslash before any character that does not start a positional variable."""
    its = []
    for c in range(0x20, 0x7f):
        k = chr(c)
        if k.isdigit() or k == "{":
            continue
        b = {"n": b"\n", "r": b"\r"}.get(k, k.encode())
        for d in '"/':
            for pre, post in (("", ""), ("x", ""), ("", "y"), ("x", "y"), ("\\\\", ""), ("", "\\\\"), ("\\n", "0"), ("&&", "1")):
                v = {"": b"", "\\\\": b"\\", "\\n": b"\n", "&&": b"&"}
                x = v.get(pre, pre.encode()) + b + v.get(post, post.encode())
                its.append(("\tfcc\t%s%s\\%s%s%s" % (d, pre, k, post, d), x))
    for b in w.mine(chunked(its, 100)):
        emit_lines(w, b, what="escape")
        src = "mq\tmacro\n" + "".join(t + "\n" for t, x in b) + "\tendm\n\tmq\ta,b\n"
        args = ["-o", "o", "a.s"]
        r = w.run(args, {"a.s": src}, ["o"])
        if not r.ok or r.files.get("o") != b"".join(x for t, x in b):
            w.bad("escapes in a macro", args, {"a.s": src}, b"".join(x for t, x in b).hex(" ")[:400], r.status() + " " + r.files.get("o", b"").hex(" ")[:400],
                  recheck=lambda: w.run(args, {"a.s": src}, ["o"]).key() == r.key())
        w.stats.state(b[0][0])


def longstr(w, arg):
    """Strings as integers: the last four characters, whatever the length."""
    its = []
    for n in range(1, 12):
        for c in ("ABCDEFGHIJKL", "zyxwvutsrqpo", "~}|{~}|{~}|{"):
            s = c[:n]
            v = int.from_bytes(s.encode(), "big") & 0xffffffff
            for d in "\"/":
                its += [("\tfqb\t%s%s%s+0" % (d, s, d), v.to_bytes(4, "big")), ("\tfqb\t(%s%s%s+0)>>16" % (d, s, d), (v >> 16).to_bytes(4, "big")),
                        ("\tfqb\t(%s%s%s+0)>>32" % (d, s, d), bytes(4)), ("\tldd\t#%s%s%s" % (d, s, d), bytes([0xcc, v >> 8 & 255, v & 255])),
                        ("\tfcc\t%s%s%s" % (d, s, d), s.encode())]
    for b in w.mine(chunked(its, 40)):
        emit_lines(w, b, what="long string")
        w.stats.state(b[0][0])


def surrounded(w, arg):
    """Literals in every notation, characters and strings, in every kind of surroundings."""
    ls = []
    for k, f in NOT.items():
        ls += [L("fqb", *[I(x, f(x)) for x in (0, 1, 9, 255, 256, 4660, 65535)]), L("lda", P("#", I(65, f(65)))), L("ldx", P("#", I(4660, f(4660)))), L("lda", I(33, f(33)), R("x"))]
    ch = [c for c in map(chr, range(33, 127)) if c not in "\\&"]
    ls += [L("fdb", *[I(ord(c), "'" + c) for c in g]) for g in chunked(ch, 9)] + [L("fdb", *[I(ord(c), "'" + c + "'") for c in g]) for g in chunked(ch, 9)]
    ls += [L("fcc", STR(c + "x" + c)) for c in map(chr, range(32, 127))]
    ls += [L("fqb", ("flt", x)) for x in (0.5, 1.75, 65535.0, 300.25)]
    surround(w, chunked(ls, 60), "literals")


def main():
    c = Check("C07")
    c.bounds = ["every value 0..65535 in %d notations, boundary values of 17..63 bits, both signs" % len(NOT),
                "every letter case of the digits of 7 hexadecimal numbers", "every notation in 18 kinds of place, 31 values",
                "every printable character as a character constant, with and without closing quote, in 19 kinds of place",
                "~%d floating point literals, both signs" % (11000 if DEEP else 3700),
                "0..23, 40, 63-65 and 100 leading zeros in 6 notations", "a backslash before every printable character, in 8 contexts, in and out of macros",
                "every string of up to %d elements of %d (delimiters, escapes, comment and positional characters), both delimiters, "
                "as data and as integer" % (4 if DEEP else 3, len(EL))]
    c.assumptions = ["characters above $7F, literals beyond 63 bits and the digits 8 and 9 after a leading 0 are unspecified"]
    for f in (ints, cases, places, chars, floats, strings, longstr, zeros, escapes):
        c.explore(f)
    c.explore(surrounded)
    c.bounds.append(CTX % "every notation, character and one-character string")
    c.finish()
