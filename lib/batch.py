"""Many independent instruction lines in one program, judged by the instruction model."""
import re
import isa as ISA

PRINT = set(range(0x20, 0x7f)) - set(b'"\\&')


def s_lit(v, env):
    return str(v)


def s_hex(v, env):
    return "$%x" % v if v >= 0 else "-$%X" % -v


def s_sym(v, env):
    n = "k%d" % v if v >= 0 else "km%d" % -v
    env[n] = v
    return n


def s_expr(v, env):
    n = "j%d" % v if v >= 0 else "jm%d" % -v
    env[n] = v - 3
    return n + "+3"


def s_str(v, env):
    if v > 0x20:
        b = v.to_bytes((v.bit_length() + 7) // 8, "big")
        if all(x in PRINT for x in b):
            return '"' + b.decode() + '"'
    return None


def s_flt(v, env):
    return "%d.0" % v if not v & 1 else "%d/2" % (2 * v)


STYLES = {"flt": s_flt, "lit": s_lit, "hex": s_hex, "sym": s_sym, "fwd": s_sym, "expr": s_expr, "str": s_str}


def optext(ops, style, env, up=False):
    o = []
    for p in ops:
        k = p[0]
        if k == "e":
            o.append("")
        elif k == "r":
            n = p[1].upper() if up else p[1]
            m = p[2]
            o.append(m + n if m in ("-", "--") else n + {"": "", "+": "+", "++": "++", "p-": "-"}[m])
        elif k == "l":
            t = optext(p[1], style, env, up)
            if t is None:
                return None
            o.append("[" + t + "]")
        elif k == "x":
            o.append(p[1])
        else:
            t = STYLES[style](p[1], env)
            if t is None:
                return None
            o.append(p[2] + t)
    return ",".join(o)


class Item:
    __slots__ = ("mnem", "ops", "txt")

    def __init__(s, mnem, ops, txt):
        s.mnem, s.ops, s.txt = mnem, ops, txt


def make(mnem, ops, style, env, case=0):
    t = optext(ops, style, env, case != 0)
    if t is None:
        return None
    m = mnem if case == 0 else mnem.upper() if case == 1 else mnem.capitalize()
    return Item(mnem, ops, "\t" + m + ("\t" + t if ops else ""))


def run_ok(w, isa, items, base, dp=None, env=None, fwd=False, what="", strict=True):
    """Assemble items from base; those the model leaves unspecified or rejects are dropped.
    Compares all bytes; on a difference narrows down to single lines."""
    pc, exp, txt, used = base, [], [], []
    for it in items:
        try:
            b, warn = ISA.encode(isa, it.mnem, it.ops, pc, dp, strict)
        except (ISA.DontCare, ISA.Err):
            continue
        if pc + len(b) > 0x10000:
            break
        exp.append(b)
        txt.append(it.txt)
        used.append((it, pc))
        pc += len(b)
    if not used:
        return 0
    n = len(used)
    w.stats.transitions += n

    def prog(lines, at):
        eq = "".join("%s\tequ\t%d\n" % kv for kv in (env or {}).items())
        h = "\torg\t%d\n" % at + ("" if dp is None else "\tsetdp\t%d\n" % dp)
        return eq + h + "\n".join(lines) + "\n" if not fwd else h + "\n".join(lines) + "\n" + eq

    args = (["-3"] if isa == 3 else []) + ["-q", "-B", "-o", "o", "a.s"]
    r = w.run(args, {"a.s": prog(txt, base)}, ["o"])
    want = b"".join(exp)
    if r.ok and r.files.get("o", b"") == want:
        w.stats.outcome("encoded")
        return n
    found = False
    for (it, at), b in zip(used, exp):
        src = prog([it.txt], at)
        r1 = w.run(args, {"a.s": src}, ["o"])
        if not (r1.ok and r1.files.get("o", b"") == b):
            found = True
            w.bad("%s: %s at $%04X%s" % (what, it.txt.strip().replace("\t", " "), at,
                                         "" if dp is None else ", DP $%02X" % dp),
                  args, {"a.s": src}, b.hex(" "),
                  r1.status() + " " + r1.files.get("o", b"").hex(" ") + " " + r1.err[:200],
                  recheck=lambda: w.run(args, {"a.s": src}, ["o"]).key() == r1.key())
    if not found:
        src = prog(txt, base)
        w.bad("%s: %d lines together (each alone is right)" % (what, n), args, {"a.s": src},
              "%d bytes" % len(want), r.status() + " %d bytes " % len(r.files.get("o", b"")) + r.err[:300])
    return n


def run_bad(w, isa, lines, head="", what="", mode="each", allow=None):
    """Every line must be reported as an error, by number; no output."""
    if not lines:
        return
    off = head.count("\n")
    args = (["-3"] if isa == 3 else []) + ["-q", "-B", "-o", "o", "a.s"]
    src = head + "\n".join(lines) + "\n"
    r = w.run(args, {"a.s": src}, ["o"])
    w.stats.transitions += len(lines)
    nums = set(int(x) for x in re.findall(r"a\.s:(\d+):", r.err))
    miss = [i for i in range(len(lines)) if i + 1 + off not in nums]
    if r.failed and "o" not in r.files and not miss:
        w.stats.outcome("rejected")
        return
    found = False
    for i in (miss or range(len(lines))):
        s1 = head + lines[i] + "\n"
        r1 = w.run(args, {"a.s": s1}, ["o"])
        if not (r1.failed and "o" not in r1.files and ("a.s:%d:" % (off + 1)) in r1.err):
            found = True
            w.bad("%s: %s" % (what, lines[i].strip().replace("\t", " ")), args, {"a.s": s1},
                  "rejected with a diagnostic for line %d" % (off + 1),
                  r1.status() + " " + r1.files.get("o", b"").hex(" ") + " " + r1.err[:200],
                  recheck=lambda: w.run(args, {"a.s": s1}, ["o"]).key() == r1.key())
    if not found:
        w.bad("%s: %d erroneous lines together" % (what, len(lines)), args, {"a.s": src},
              "a diagnostic for every line", r.status() + " missing lines %s" % miss[:10])


def chunked(it, n):
    b = []
    for x in it:
        b.append(x)
        if len(b) == n:
            yield b
            b = []
    if b:
        yield b


def emit_lines(w, items, head="", args=(), what="", files=None, tail=""):
    """items: [(line text, bytes)]; each line must emit exactly its bytes, in order."""
    if not items:
        return
    args = list(args) + ["-q", "-o", "o", "a.s"]
    w.stats.transitions += len(items)

    def one(its):
        src = head + "".join(t + "\n" for t, b in its) + tail
        fs = dict(files or {})
        fs["a.s"] = src
        r = w.run(args, fs, ["o"])
        return fs, r, r.ok and r.files.get("o", b"") == b"".join(b for t, b in its)
    fs, r, ok = one(items)
    if ok:
        w.stats.outcomes["emitted"] = w.stats.outcomes.get("emitted", 0) + len(items)
        return
    n = 0
    for it in items:
        f1, r1, ok = one([it])
        if not ok:
            n += 1
            w.bad("%s: %s" % (what, it[0].strip()), args, f1, it[1].hex(" "),
                  r1.status() + " " + r1.files.get("o", b"").hex(" ") + " " + r1.err[:200],
                  recheck=lambda: w.run(args, f1, ["o"]).key() == r1.key())
            if n > 5:
                return
    if not n:
        w.bad("%s: %d lines together (each alone is right)" % (what, len(items)), args, fs,
              b"".join(b for t, b in items).hex(" ")[:300], r.status() + " " + r.files.get("o", b"").hex(" ")[:300] + r.err[:300])


def ref_lines(w, lines, head=(), tail=(), what="", size=200, groups=True, **kw):
    """lines: Lines (or lists of Lines) each independent of the others.  Those the reference
    assembler accepts are assembled together, each followed by a label; those it rejects must each be
    reported by line number.  Differences are narrowed down to one of them."""
    import refasm as RA
    from common import reference, check_prog, expectation, observed, opt_args
    head, tail = list(head), list(tail)
    good, bad = [], {}
    for l in lines:
        p = list(l) if isinstance(l, (list, tuple)) else [l]
        try:
            r = reference({"a.s": head + p + tail}, **kw)
        except ISA.DontCare:
            w.stats.outcome("unspecified")
            continue
        w.stats.transitions += 1
        w.stats.state(expectation(r))
        if r.ok:
            good.append(p)
        else:
            bad.setdefault(r.level, []).append(p)
    for g in chunked(good, size):
        prog, i = list(head), 0
        for p in g:
            prog += p + [RA.Line("qq%d" % i)]
            i += 1
        prog += tail
        ref = reference({"a.s": prog}, **kw)
        exp = expectation(ref)
        args = opt_args(kw) + ["-S", "-o", "o", "-s", "s", "a.s"]
        src = RA.text(prog)
        r = w.run(args, {"a.s": src}, ["o", "s"])
        if observed(r) == exp and exp[0] == "ok":
            w.stats.outcomes["assembled"] = w.stats.outcomes.get("assembled", 0) + len(g)
            continue
        n = len(w.violations)
        for p in g:
            check_prog(w, head + p + [RA.Line("qq0")] + tail, what=what, **kw)
        if exp[0] == "ok" and len(w.violations) == n:
            check_prog(w, prog, what=what + ": lines each right alone", **kw)
    for lv, b in bad.items():
        for g in chunked(b, size):
            prog, nums = list(head), []
            for p in g:
                nums.append(range(len(prog) + 1, len(prog) + len(p) + 1))
                prog += p
            prog += tail
            args = opt_args(kw) + ["-q", "-S", "-o", "o", "a.s"]
            r = w.run(args, {"a.s": RA.text(prog)}, ["o"])
            got = set(int(x) for x in re.findall(r"a\.s:(\d+):", r.err))
            if r.failed and "o" not in r.files and all(any(x in got for x in q) for q in nums):
                w.stats.outcomes["rejected"] = w.stats.outcomes.get("rejected", 0) + len(g)
                continue
            n = len(w.violations)
            for p in g:
                check_prog(w, head + p + tail, what=what, **kw)
            if len(w.violations) == n and not r.failed:
                w.bad(what + ": erroneous lines together", args, {"a.s": RA.text(prog)}, "failure", r.status())
