"""Reference assembler over abstract programs (never over text).

A program is a dict of files, each a list of Line; Line holds a label, an operation
and abstract arguments.  `Asm(...).run()` gives what the assembler has to produce;
`text(...)` prints the program for the real assembler, in a choice of layouts."""
import math
from decimal import Decimal
import isa as ISA

INEFF, ILLEGAL, INCONS, RANGE, SYNTAX, DATA, FATAL = 1, 2, 3, 4, 5, 6, 7
M64 = (1 << 64) - 1
E = ("E",)          # value of an empty argument


def w64(v):
    v &= M64
    return v - (1 << 64) if v >> 63 else v


class Line:
    """label: None, str, int (local) or ("id", parts); op: str; args: tuple of arguments.

    Argument: an expression; ("pfx", p, expr); ("reg", name, mod); ("list", args);
    ("empty",).  Expression: ("int", v[, text]) ("flt", v) ("str", parts) ("sym", name)
    ("id", parts) ("pc",) ("b", n) ("f", n) ("un", op, e) ("bin", op, l, r)
    ("tern", c, a, b) ("arg", n).  parts: tuple of str, or int for a positional variable.
    raw: literal text of a line the grammar cannot parse (kind "error") or a comment."""
    __slots__ = ("label", "op", "args", "raw", "bad", "lop")

    def __init__(s, label=None, op=None, args=(), raw=None, bad=False):
        args = tuple(args)
        if args == (("empty",),):      # one empty argument is no argument
            args = ()
        s.label, s.op, s.args, s.raw, s.bad = label, op, args, raw, bad
        s.lop = op.lower() if op else None


def L(op, *args, label=None):
    return Line(label, op, args)


def LAB(name):
    return Line(name)


def I(v, t=None):
    return ("int", int(v), t) if t else ("int", int(v))


def S(n):
    return ("sym", n)


def STR(*parts):
    return ("str", parts)


def B(op, l, r):
    return ("bin", op, l, r)


def U(op, e):
    return ("un", op, e)


def T(c, a, b):
    return ("tern", c, a, b)


class V(int):
    """A positional variable written in a particular notation."""
    def __new__(c, n, t):
        v = int.__new__(c, n)
        v.t = t
        return v


def A(n):
    return ("arg", n)


def ID(*parts):
    return ("id", parts)


def P(p, e):
    return ("pfx", p, e)


def R(name, mod=""):
    return ("reg", name, mod)


PC = ("pc",)
EMPTY = ("empty",)


# ---------------------------------------------------------------- printing

PREC = {"*": 11, "/": 11, "%": 11, "+": 10, "-": 10, "<<": 9, ">>": 9, "<": 8, "<=": 8, ">": 8,
        ">=": 8, "==": 7, "!=": 7, "&": 6, "^": 5, "|": 4, "&&": 3, "||": 2}


def quote(s, d='"'):
    o = []
    for c in s:
        if c == "\n":
            o.append("\\n")
        elif c == "\r":
            o.append("\\r")
        elif c in '\\&' or c == d:
            o.append("\\" + c)
        else:
            o.append(c)
    return "".join(o)


def partstext(parts, instr, d='"'):
    o = []
    for p in parts:
        if isinstance(p, V):
            o.append(p.t)
        elif isinstance(p, int):
            o.append("\\{%d}" % p if p > 9 else "\\%d" % p)
        else:
            o.append(quote(p, d) if instr else p)
    return "".join(o)


def expr(e, mode="min", prec=0, right=False):
    """mode: min (fewest parentheses), sp (spaces around every token), full."""
    k = e[0]
    if k == "int":
        if len(e) > 2:
            return e[2]
        if e[1] < 0:
            return "-%d" % -e[1] if prec < 10 else "(-%d)" % -e[1]
        return str(e[1])
    if k == "flt":
        return e[2] if len(e) > 2 else fltlit(e[1])
    if k == "str":
        return '"' + partstext(e[1], True) + '"'
    if k == "sym":
        return e[1]
    if k == "id":
        return partstext(e[1], False)
    if k == "arg":
        if isinstance(e[1], V):
            return e[1].t
        return "\\{%d}" % e[1] if e[1] > 9 else "\\%d" % e[1]
    if k == "pc":
        return "*"
    if k == "b":
        return e[1].t if isinstance(e[1], V) else "%dB" % e[1]
    if k == "f":
        return e[1].t if isinstance(e[1], V) else "%dF" % e[1]
    if k == "un":
        s = e[1] + (" " if mode == "sp" else "") + expr(e[2], mode, 12)
        return "(" + s + ")" if mode == "full" else s
    if k == "bin":
        p = PREC[e[1]]
        l, r = expr(e[2], mode, p), expr(e[3], mode, p + 1)
        s = l + " " + e[1] + " " + r if mode == "sp" else l + e[1] + r
        return "(" + s + ")" if p < prec or mode == "full" else s
    if k == "tern":
        s = expr(e[1], mode, 2) + " ? " + expr(e[2], mode, 2) + " : " + expr(e[3], mode, 1)
        if mode == "min":
            s = s.replace(" ? ", "?").replace(" : ", ":")
        return "(" + s + ")" if 1 < prec or mode == "full" else s
    raise ValueError(e)


def fltlit(v):
    s = format(Decimal(repr(v)), "f")
    return s if "." in s else s + ".0"


def arg(a, mode="min"):
    k = a[0]
    if k == "pfx":
        return a[1] + expr(a[2], mode)
    if k == "reg":
        m = a[2]
        if m in ("-", "--"):
            return m + a[1]
        return a[1] + {"": "", "+": "+", "++": "++", "p-": "-"}[m]
    if k == "list":
        return "[" + ",".join(arg(x, mode) for x in a[1]) + "]"
    if k == "empty":
        return ""
    return expr(a, mode)


def line(l, mode="min"):
    if l.raw is not None:
        return l.raw
    s = ""
    if l.label is not None:
        if isinstance(l.label, int):
            s = l.label.t if isinstance(l.label, V) else str(l.label)
        elif isinstance(l.label, str):
            s = l.label
        else:
            s = partstext(l.label[1], False)
    if l.op is not None:
        s += "\t" + l.op
        if l.args:
            s += "\t" + ",".join([arg(a, mode) for a in l.args])
    return s


def text(lines, mode="min"):
    return "\n".join([line(l, mode) for l in lines]) + "\n"


# ---------------------------------------------------------------- evaluation

class Undef(Exception):
    """No value; any error has been recorded."""


class Bad(Exception):
    pass


def strint(s):
    v = 0
    for c in s:
        v = (v << 8 | ord(c)) & 0xffffffff
    return v


def fdiv(a, b):
    if b == 0:
        if a == 0 or a != a:
            return math.nan
        neg = (math.copysign(1, a) < 0) != (math.copysign(1, b) < 0)
        return -math.inf if neg else math.inf
    try:
        return a / b
    except OverflowError:
        return math.inf


class Sect:
    __slots__ = ("name", "chunks", "locals", "passno", "lineno", "pc", "put", "dp", "last_pc", "last_put")

    def __init__(s, name, dp):
        s.name, s.dp = name, dp
        s.chunks, s.locals = [], {}
        s.passno = None
        s.lineno = s.pc = s.put = s.last_pc = s.last_put = 0


class Ref:
    """Outcome of the reference assembler."""
    __slots__ = ("ok", "level", "errors", "warnings", "chunks", "image", "symbols", "rows", "passes",
                 "exec_addr", "exports", "macros", "dpflow", "sections")

    def blob(s):
        """Padded single block: (start, bytes)."""
        if not s.image:
            return 0, b""
        lo, hi = min(s.image), max(s.image)
        g = s.image.get
        return lo, bytes([g(i, 0) for i in range(lo, hi + 1)])

    def blocks(s):
        """Maximal runs of assembled bytes, ascending: [(addr, bytes)]."""
        out = []
        for a in sorted(s.image):
            if out and out[-1][0] + len(out[-1][1]) == a:
                out[-1][1].append(s.image[a])
            else:
                out.append((a, bytearray([s.image[a]])))
        return [(a, bytes(b)) for a, b in out]


NOPS = ("page", "spc", "nam", "name")
LABELOPS = {"equ", "set", "org", "section", "code", "data", "bss", "ram", "auto"}
DATAOPS = {"fcb", "fcc", "fcn", "fcv", "fci", "fcs", "fdb", "fqb", "rzb", "fzb", "zmb", "bsz", "fill",
           "rmb", "align", "includebin"}
OTHER = {"put", "setdp", "include", "lib", "end"} | set(NOPS)


def vdg(c, inv):
    x = 0x40 if inv else 0
    if c < 0x20:
        return c ^ x
    if c < 0x40:
        return (c + 0x40) ^ x
    if c < 0x60:
        return c ^ x
    if c == 0x60:
        return 0x20 ^ x
    if c < 0x80:
        return (c - 0x60) ^ x
    return c


# a definition that holds in every pass
ALLPASSES = -1


class Asm:
    def __init__(s, files, main=("a.s",), isa=9, defines=(), setdp=None, max_passes=12, exec_opt=None,
                 bins=None, rows=False, depth=8):
        s.files = {}
        for n, ls in files.items():
            out = []
            for l in ls:
                out.append(l)
                if l.lop == "end" and not l.bad:
                    break
            s.files[n] = out
        s.main, s.isa, s.max_passes = main, isa, max_passes
        s.setdp0 = None if setdp is None or setdp < 0 else setdp & 0xff
        s.ops = ISA.OPS[isa]
        s.exec_opt, s.bins, s.want_rows, s.maxdepth = exec_opt, bins or {}, rows, depth
        s.sym = {}
        for n, v in defines:
            if n in s.sym:
                s.sym = None
                break
            s.sym[n] = (ALLPASSES, v)
        s.sections = {}
        s.cur = None
        s.exports = []

    # -- errors
    def err(s, level, msg=""):
        if level > s.level and not (level == RANGE and s.level == INCONS):
            s.level = level
        if level == INCONS and s.level == RANGE:
            s.level = INCONS
        s.errors.append((level, s.ctx[0], s.ctx[1], msg))

    # -- values
    def symval(s, n):
        v = s.sym.get(n)
        if v is None or v[1] is None:
            if s.ignore_undef:
                return 0
            s.err(INCONS, "symbol %s" % n)
            return None
        return v[1]

    def positional(s, n):
        if not s.argstack:
            s.err(SYNTAX, "no positional variables")
            return None
        a = s.argstack[-1]
        if not 1 <= n <= len(a):
            s.err(SYNTAX, "bad positional")
            return None
        v = a[n - 1]
        return v

    def paste(s, parts):
        o = []
        for p in parts:
            if isinstance(p, str):
                o.append(p)
                continue
            v = s.positional(p)
            if v is None:
                return None
            if isinstance(v, str):
                o.append(v)
            elif isinstance(v, int):
                o.append(str(v))
            elif isinstance(v, tuple) and v[0] == "R" and not v[2]:
                o.append(v[1])
            else:
                s.err(SYNTAX, "can't paste")
                return None
        return "".join(o)

    def toint(s, v):
        """To integer; None if no integer value."""
        if isinstance(v, int):
            return v
        if isinstance(v, float):
            if -2.0 ** 63 <= v < 2.0 ** 63:
                return int(v)
            s.err(RANGE, "float")
            return 0
        if isinstance(v, str):
            return strint(v)
        return None

    def ev(s, e):
        k = e[0]
        if k == "int" or k == "flt":
            return e[1]
        if k == "sym":
            return s.symval(e[1])
        if k == "pc":
            return s.cur.pc
        if k == "bin":
            return s.binop(e)
        if k == "str":
            return s.paste(e[1])
        if k == "id":
            if len(e[1]) == 1 and isinstance(e[1][0], int):
                return s.positional(e[1][0])
            n = s.paste(e[1])
            return None if n is None else s.symval(n)
        if k == "arg":
            return s.positional(e[1])
        if k == "b" or k == "f":
            t = s.cur.locals.get(e[1])
            ln = s.cur.lineno
            if t:
                c = [x for x in t if x <= ln] if k == "b" else [x for x in t if x > ln]
                if c:
                    return t[max(c) if k == "b" else min(c)][1]
            s.err(INCONS, "local")
            return None
        if k == "un":
            v = s.ev(e[2])
            if v is None:
                return None
            if isinstance(v, str):
                v = strint(v)
            op = e[1]
            if isinstance(v, tuple) or isinstance(v, list):
                s.err(SYNTAX, "operand")
                return None
            if op == "-":
                return w64(-v) if isinstance(v, int) else -v
            if op == "+":
                return v
            v = s.toint(v)
            return int(not v) if op == "!" else w64(~v)
        if k == "tern":
            c = s.ev(e[1])
            if c is None:
                return None
            c = s.toint(c)
            if c is None:
                s.err(SYNTAX, "operand")
                return None
            return s.ev(e[2] if c else e[3])
        raise ValueError(e)

    def binop(s, e):
        a = s.ev(e[2])
        if a is None:
            return None
        b = s.ev(e[3])
        if b is None:
            return None
        op = e[1]
        if isinstance(a, str) or isinstance(b, str):
            if isinstance(a, str) and isinstance(b, str):
                if op in ("<", "<=", ">", ">=", "==", "!="):
                    x, y = a.encode("latin-1"), b.encode("latin-1")
                    return int({"<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y, "==": x == y,
                                "!=": x != y}[op])
            if isinstance(a, str):
                a = strint(a)
            if isinstance(b, str):
                b = strint(b)
        if isinstance(a, (tuple, list)) or isinstance(b, (tuple, list)):
            s.err(SYNTAX, "operand")
            return None
        if op in ("%", "<<", ">>", "&", "^", "|", "&&", "||"):
            a, b = s.toint(a), s.toint(b)
            if op == "%":
                if b == 0:
                    s.err(RANGE, "modulo")
                    return None
                r = abs(a) % abs(b)
                return -r if a < 0 else r
            if op == "<<" or op == ">>":
                if not 0 <= b <= 63:
                    raise ISA.DontCare()
                return w64(a << b) if op == "<<" else a >> b
            if op == "&":
                return a & b
            if op == "^":
                return a ^ b
            if op == "|":
                return a | b
            if op == "&&":
                return int(a != 0 and b != 0)
            return int(a != 0 or b != 0)
        if op == "/":
            return fdiv(float(a), float(b))
        if isinstance(a, float) or isinstance(b, float):
            a, b = float(a), float(b)
            if op == "+":
                return a + b
            if op == "-":
                return a - b
            if op == "*":
                return a * b
        else:
            if op == "+":
                return w64(a + b)
            if op == "-":
                return w64(a - b)
            if op == "*":
                return w64(a * b)
        return int({"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b, "==": a == b, "!=": a != b}[op])

    def evarg(s, a):
        k = a[0]
        if k == "pfx":
            return s.ev(a[2])
        if k == "reg":
            return ("R", a[1].lower(), a[2])
        if k == "list":
            return [s.evarg(x) for x in a[1]]
        if k == "empty":
            return E
        return s.ev(a)

    def operand(s, a, v):
        """Evaluated operand for the instruction model."""
        if a[0] == "list" or isinstance(v, list):
            if a[0] == "pfx":
                raise ISA.DontCare()
            if a[0] == "list":
                return ("l", [s.operand(x, y) for x, y in zip(a[1], v)])
            return ("l", [s.operand(("int", 0), y) for y in v])
        p = a[1] if a[0] == "pfx" else ""
        if p and isinstance(v, tuple):
            raise ISA.DontCare()
        if v is None:
            return ("v", None, p)
        if isinstance(v, float):
            v = s.toint(v)
        if isinstance(v, str):
            v = strint(v)
        if isinstance(v, int):
            return ("v", v, p)
        if v is E or v == E:
            return ("e",)
        if v[0] == "R":
            return ("r", v[1], v[2])
        raise ValueError(v)

    # -- placement
    def section(s, name):
        n = s.sections.get(name)
        if n is None:
            n = s.sections[name] = Sect(name, s.setdp0)
        if n.passno != s.passno:
            n.chunks = []
            c = s.cur
            if c is not None and c.passno == s.passno:
                n.pc, n.put = c.last_pc, c.last_put
            else:
                n.pc = n.put = 0
            n.passno = s.passno
            n.dp = s.setdp0
            n.lineno = 0
        s.cur = n

    def emit(s, data):
        c = s.cur
        for _ in range(1 if data else 0):
            if c.pc < 0:
                s.err(RANGE, "negative address")
        if data:
            c.chunks.append((c.put, bytes(data)))
            s.emitted += data
            c.pc += len(data)
            c.put += len(data)
            if c.pc > 0x10000:
                s.err(RANGE, "beyond memory")

    def setsym(s, name, v, changeable):
        old = s.sym.get(name)
        if not changeable and old is not None and old[0] in (s.passno, ALLPASSES):
            s.err(SYNTAX, "redefined %s" % name)
            return
        if old is None:
            inc = s.passno > 0
        else:
            inc = old[1] is None or v is None or type(old[1]) is not type(v) or \
                old[1] != v
        s.sym[name] = (s.passno, v)
        if inc and not changeable:
            s.err(INCONS, "unstable %s" % name)

    def setlabel(s, lab, v, changeable=False):
        if lab is None:
            return
        if isinstance(lab, int):
            t = s.cur.locals.setdefault(lab, {})
            ln = s.cur.lineno
            if ln in t:
                if t[ln][1] != v or t[ln][1] is None:
                    s.err(INCONS, "local unstable")
            elif s.passno > 0:
                s.err(INCONS, "local moved")
            t[ln] = (s.passno, v)
            return
        s.setsym(lab, v, changeable)

    def row(s, pc, data, l):
        if s.want_rows:
            s.rows.append((None if pc is None else pc & 0xffff, bytes(data), l))

    # -- arguments of directives
    def nargs(s, l, lo, hi):
        n = len(l.args)
        if n < lo or (hi is not None and n > hi):
            s.err(SYNTAX, "arguments")
            return False
        return True

    def intarg(s, vals, i, dflt=0):
        """(value) of an optional integer argument."""
        if i >= len(vals):
            return dflt
        v = vals[i]
        if v is None:
            return dflt
        if v == E and isinstance(v, tuple):
            return 0
        if isinstance(v, (int, float)):
            return s.toint(v)
        s.err(SYNTAX, "integer expected")
        return dflt

    # -- passes
    def run(s):
        r = Ref()
        r.passes = 0
        s.errors, s.level, s.rows, s.ctx = [], 0, [], ("", 0)
        r.chunks, r.image, r.symbols, r.rows = [], {}, {}, []
        r.exec_addr = None
        if s.sym is None:
            r.ok, r.level, r.errors, r.warnings = False, SYNTAX, [], []
            return r
        # parse errors in the files named on the command line
        for n in s.main:
            if n not in s.files:
                s.ctx = ("", 0)
                s.err(FATAL, "not found")
            else:
                s.parse_errors(n)
        if s.level >= SYNTAX:
            return s.result(r, False)
        s.parsed = set(s.main)
        s.macros = {}
        for p in range(s.max_passes):
            r.passes = p + 1
            s.passno = p
            s.errors, s.level, s.rows = [], 0, []
            s.argstack, s.depth, s.too_deep = [], 0, False
            s.defining, s.deflevel = None, 0
            s.ignore_undef = False
            s.emitted = bytearray()
            s.section("CODE")
            for n in s.main:
                s.prog(n, s.files[n])
            s.ctx = ("", 0)
            for c in s.sections.values():
                for t in c.locals.values():
                    for ln in [k for k, v in t.items() if v[0] != p]:
                        del t[ln]
                        s.err(INCONS, "local gone")
                if c.passno != p:
                    c.chunks = []
                    continue
                if (c.last_pc, c.last_put) != (c.pc, c.put):
                    c.last_pc, c.last_put = c.pc, c.put
                    s.err(INCONS)
            if s.level != INCONS:
                break
        if s.level >= INCONS:
            return s.result(r, False)
        ex = s.exec_opt
        if ex is not None:
            if isinstance(ex, int):
                s.sym[".exec"] = (99, ex)
            else:
                v = s.symval(ex)
                v = None if v is None else s.toint(v)
                if v is None:
                    s.err(FATAL, "exec")
                    return s.result(r, False)
                s.sym[".exec"] = (99, v & 0xffff)
        overlap = False
        for c in s.sections.values():
            for a, d in c.chunks:
                r.chunks.append((a, d))
                for i, x in enumerate(d):
                    if a + i in r.image:
                        overlap = True
                    r.image[a + i] = x
        if overlap:
            s.err(DATA, "overlap")
            return s.result(r, False)
        v = s.sym.get(".exec")
        if v is not None and v[1] is not None and v[1] >= 0:
            r.exec_addr = v[1] & 0xffff
        r.symbols = {k: v[1] for k, v in s.sym.items() if k[0] != "." and v[1] is not None}
        return s.result(r, True)

    def result(s, r, ok):
        r.ok, r.level, r.errors = ok, s.level, s.errors
        r.warnings = [e for e in s.errors if e[0] in (INEFF, ILLEGAL)]
        r.rows = s.rows
        r.exports = s.exports
        r.sections = s.sections
        return r

    def parse_errors(s, name):
        for i, l in enumerate(s.files[name]):
            if l.bad:
                s.ctx = (name, i + 1)
                s.err(SYNTAX, "parse")

    def prog(s, name, lines):
        if s.depth >= s.maxdepth:
            s.err(FATAL, "depth")
            s.too_deep = True
            return
        s.depth += 1
        saved = s.ctx
        conds = []              # [state]; state: "if" (nothing taken yet), "done", "else"
        excl = None             # depth of the conditional that started skipping
        for i, l in enumerate(lines):
            if s.too_deep:
                break
            s.ctx = (name, i + 1)
            s.cur.lineno += 1
            op = l.lop
            if op is None and l.label is None:
                s.row(None, b"", l)
                continue
            if excl is None and op == "macro":
                s.deflevel += 1
                if s.deflevel == 1:
                    s.row(None, b"", l)
                    n = l.label
                    if isinstance(n, tuple):
                        n = s.paste(n[1])
                    if not isinstance(n, str):
                        s.err(SYNTAX, "macro name")
                        continue
                    old = s.macros.get(n)
                    if old is not None and old[0] == s.passno:
                        s.err(SYNTAX, "macro redefined")
                        s.defining = None
                        continue
                    s.defining = []
                    s.macros[n] = (s.passno, s.defining)
                    continue
            if excl is None and op == "endm":
                if s.deflevel == 0:
                    s.err(SYNTAX, "endm")
                    continue
                s.deflevel -= 1
                if s.deflevel == 0:
                    s.row(None, b"", l)
                    s.defining = None
                    continue
            if s.deflevel > 0:
                if s.defining is not None:
                    s.defining.append(l)
                s.row(None, b"", l)
                continue
            if op in ("opt", "ttl", "sttl"):
                s.row(None, b"", l)
                continue
            if op in ("if", "elsif", "else", "endif"):
                s.row(None, b"", l)
                if op == "if":
                    if excl is not None:
                        conds.append("done")
                        continue
                    v = s.condition(l)
                    if v is None:
                        continue
                    conds.append("done" if v else "if")
                    if not v:
                        excl = len(conds)
                elif not conds:
                    s.err(SYNTAX, op)
                elif op == "endif":
                    if excl == len(conds):
                        excl = None
                    conds.pop()
                elif conds[-1] == "else":
                    s.err(SYNTAX, "repeated else")
                elif op == "elsif":
                    if excl is None:
                        excl = len(conds)
                        conds[-1] = "done"
                    elif excl == len(conds) and conds[-1] == "if":
                        v = s.condition(l)
                        if v:
                            excl = None
                            conds[-1] = "done"
                else:
                    if excl is None:
                        excl = len(conds)
                        conds[-1] = "else"
                    elif excl == len(conds):
                        if conds[-1] == "if":
                            excl = None
                            conds[-1] = "else"
                continue
            if excl is not None:
                s.row(None, b"", l)
                continue
            s.normal(l)
        if conds:
            s.err(SYNTAX, "if without endif")
        if s.deflevel > 0:
            s.err(SYNTAX, "unfinished macro")
            s.defining, s.deflevel = None, 0
        s.depth -= 1
        s.ctx = saved

    def condition(s, l):
        s.ignore_undef = True
        vals = [s.evarg(a) for a in l.args]
        s.ignore_undef = False
        if not s.nargs(l, 1, 1):
            return None
        return s.intarg(vals, 0) != 0

    def normal(s, l):
        op, c = l.lop, s.cur
        lab = l.label
        if isinstance(lab, tuple):
            lab = s.paste(lab[1])
        if op == "export":
            for a in l.args:
                if a[0] == "sym":
                    s.exports.append(a[1])
                elif a[0] in ("str", "id"):
                    n = s.paste(a[1])
                    if n is not None:
                        s.exports.append(n)
                else:
                    s.err(SYNTAX, "export")
            if not l.args:
                s.err(SYNTAX, "export")
            s.row(None, b"", l)
            return
        vals = [s.evarg(a) for a in l.args]
        if op in LABELOPS:
            return s.labelop(op, l, lab, vals)
        if lab is not None:
            s.setlabel(lab, c.pc)
        if op is None:
            s.row(c.pc, b"", l)
            return
        if op in DATAOPS:
            pc0 = c.pc
            n0 = len(s.emitted)
            s.dataop(op, l, vals)
            s.row(pc0, s.emitted[n0:], l)
            return
        if op in OTHER:
            s.row(c.pc, b"", l)
            return s.otherop(op, l, vals)
        if op in s.ops:
            pc0 = c.pc
            n0 = len(s.emitted)
            ops = [s.operand(a, v) for a, v in zip(l.args, vals)]
            if s.ops[op].kind == ISA.PAIRO and any(isinstance(v, (str, float)) for v in vals):
                raise ISA.DontCare()        # a string or float in place of a register
            try:
                k = s.ops[op].kind
                if k == ISA.TFMO and any(isinstance(v, str) for v in vals) or k == ISA.BITO and vals and isinstance(vals[0], str):
                    raise ISA.Err()
                data, warn = ISA.encode(s.isa, op, ops, c.pc, c.dp)
                if warn:
                    s.err(ILLEGAL if warn == "illegal" else INEFF, "warning")
                s.emit(data)
            except ISA.Err as x:
                s.err(RANGE if x.level == "range" else SYNTAX, "operand")
                o = s.ops[op]
                if x.level == "range":
                    s.emit(ISA.opbytes(o.inh) + bytes(o.rel if o.kind == ISA.REL else 2 if o.kind == ISA.BITO else 1))
            s.row(pc0, s.emitted[n0:], l)
            return
        m = s.macros.get(l.op)
        if m is not None:
            s.row(c.pc, b"", l)
            s.argstack.append(vals)
            s.prog(l.op, m[1])
            s.argstack.pop()
            return
        s.err(SYNTAX, "unknown instruction")

    def labelop(s, op, l, lab, vals):
        c = s.cur
        if op in ("equ", "set"):
            if not s.nargs(l, 1, 1):
                return
            if vals[0] == E and isinstance(vals[0], tuple):
                raise ISA.DontCare()
            s.setlabel(lab, vals[0], op == "set")
            v = vals[0]
            v = strint(v) if isinstance(v, str) else int(v) if isinstance(v, float) and abs(v) < 2.0 ** 63 else \
                v if isinstance(v, int) else None
            s.row(v, b"", l)
        elif op == "org":
            if not s.nargs(l, 1, 1):
                return
            v = s.intarg(vals, 0, c.pc)
            if not -(1 << 31) <= v < 1 << 31:
                s.err(RANGE, "org")
                v = c.pc
            c.pc = v
            if v >= 0:
                c.put = v
            s.setlabel(lab, v)
            s.row(v, b"", l)
        else:
            if op == "section":
                if not s.nargs(l, 1, 1):
                    return
                a = l.args[0]
                v = vals[0]
                if v is None:
                    return
                if not isinstance(v, str):
                    s.err(SYNTAX, "section")
                    return
                s.section(v)
            else:
                s.section(op.upper())
            s.setlabel(lab, s.cur.pc)
            s.row(s.cur.pc, b"", l)

    def dataop(s, op, l, vals):
        c = s.cur
        if op in ("fcb", "fcc", "fcn", "fcv", "fci", "fcs"):
            if not s.nargs(l, 1, None):
                return
            top = 0x80 if op == "fcs" else 0
            for v in vals:
                if v is None:
                    s.emit(b"\0")
                elif isinstance(v, (int, float)):
                    s.emit(bytes([(s.toint(v) & 0xff) | top]))
                elif isinstance(v, str):
                    d = bytearray(v.encode("latin-1"))
                    if d:
                        d[-1] |= top
                    if op in ("fcv", "fci"):
                        d = bytearray(vdg(x, op == "fci") for x in d)
                    for x in d:
                        s.emit(bytes([x]))
                elif v == E:
                    s.emit(b"\0")
                else:
                    s.err(SYNTAX, "data")
            if op == "fcn":
                s.emit(b"\0")
        elif op in ("fdb", "fqb"):
            if not s.nargs(l, 1, None):
                return
            n = 2 if op == "fdb" else 4
            for i in range(len(vals)):
                s.emit(ISA.be(s.intarg(vals, i), n))
        elif op in ("rzb", "fzb", "zmb", "bsz", "fill"):
            if op == "fill":
                if not s.nargs(l, 2, 2):
                    return
                fill, count = s.intarg(vals, 0), s.intarg(vals, 1)
            else:
                if not s.nargs(l, 1, 2):
                    return
                count, fill = s.intarg(vals, 0), s.intarg(vals, 1)
            if s.count(count) and count:
                pcs = c.pc
                s.emit(bytes([fill & 0xff]) * count)
        elif op == "rmb":
            if not s.nargs(l, 1, 1):
                return
            n = s.intarg(vals, 0)
            if s.count(n):
                c.pc += n
                c.put += n
        elif op == "align":
            if not s.nargs(l, 1, 2):
                return
            a, fill = s.intarg(vals, 0), s.intarg(vals, 1)
            if a < 1:
                s.err(RANGE, "align")
                return
            if c.pc < 0:
                raise ISA.DontCare()
            n = -c.pc % a
            if not s.count(n):
                return
            if len(vals) < 2:
                c.pc += n
                c.put += n
            elif n:
                s.emit(bytes([fill & 0xff]) * n)
        else:   # includebin
            if not s.nargs(l, 1, 1):
                return
            v = vals[0]
            if not isinstance(v, str):
                s.err(SYNTAX, "includebin")
            elif v not in s.bins:
                if v in s.files:
                    raise ISA.DontCare()
                s.err(FATAL, "not found")
            else:
                s.emit(s.bins[v])

    def count(s, n):
        if not 0 <= n <= 0x10000:
            s.err(RANGE, "count")
            return False
        return True

    def otherop(s, op, l, vals):
        c = s.cur
        if op == "put":
            if s.nargs(l, 1, 1):
                v = s.intarg(vals, 0, c.put)
                if v < 0:
                    s.err(RANGE, "put")
                elif v >= 1 << 31:
                    s.err(RANGE, "put")
                elif v >= 1 << 24:
                    raise ISA.DontCare()        # huge files
                else:
                    c.put = v
        elif op == "setdp":
            if s.nargs(l, 1, 1):
                v = s.intarg(vals, 0, -1)
                c.dp = None if v < 0 else v & 0xff
        elif op in ("include", "lib"):
            if not s.nargs(l, 1, None):
                return
            v = vals[0]
            if not isinstance(v, str):
                s.err(SYNTAX, "include")
                return
            if v not in s.files:
                if v in s.bins:
                    raise ISA.DontCare()
                s.err(FATAL, "not found")
                return
            if v not in s.parsed:
                saved = s.ctx
                s.parse_errors(v)
                s.ctx = saved
                s.parsed.add(v)
            s.prog(v, [x for x in s.files[v] if not x.bad])
            s.cur = c
        elif op == "end":
            if not s.nargs(l, 0, 1) or not l.args:
                return
            v = vals[0]
            if v is not None:
                if isinstance(v, (tuple, list)):
                    s.err(SYNTAX, "end")
                    return
                v = s.toint(v)
            s.setsym(".exec", v, False)


def assemble(lines, **kw):
    return Asm({"a.s": lines}, **kw).run()
